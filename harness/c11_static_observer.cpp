#include <xitren/comm/observer_static.hpp>

#include "pbt.hpp"

#include <deque>
#include <string>

char const* const property_rule
    = "One case builds up to four compile-time observables over one to nine listings of observers of three types, with the "
      "observer objects chosen at random (shared between observables, listed more than once), and sends a random sequence "
      "of events, some of them from inside a delivery of another observable or of the same one. Every delivery (observer, data, sender) is "
      "compared with the listing order. Non-trivial: some observer is listed twice or shared, and at least two observables "
      "were notified.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

namespace xc = xitren::comm;

struct rec {
    int         who;
    void const* src;
    std::string data;
};
std::vector<rec>*                        g_log;
void*                                    g_ctx;
void (*g_inside)(void*, int, void const*) = nullptr;

std::string
str(int v)
{
    return std::to_string(v);
}
std::string
str(std::string const& v)
{
    return v;
}
// sent as a derived class, told apart only through the reference
struct event {
    std::uint64_t v{};
    virtual ~event() = default;
    virtual std::string
    text() const
    {
        return "an event without its derived part";
    }
};
struct special_event final : event {
    std::string more{};
    std::string
    text() const override
    {
        return std::to_string(v) + more;
    }
};
std::string
str(event const& e)
{
    return e.text();
}
template <class D>
using held = std::conditional_t<std::is_same_v<D, event>, special_event, D>;

template <class D, int Tag>
struct obs : xc::observer<D, obs<D, Tag>> {
    int  id{};
    char pad[Tag * 8 + 1]{};
    void
    notification_impl(xc::observable_impl<D> const& src, D const& data)
    {
        g_log->push_back({id, static_cast<void const*>(&src), str(data)});
        if (g_inside)
            g_inside(g_ctx, id, static_cast<void const*>(&src));
    }
};
// the base class comes second here: casts have to adjust the pointer
struct ballast {
    std::uint64_t x{0xabcdef};
    virtual ~ballast() = default;
};
template <class D>
struct obs<D, 2> : ballast, xc::observer<D, obs<D, 2>> {
    int  id{};
    void
    notification_impl(xc::observable_impl<D> const& src, D const& data)
    {
        PBT_CHECK(x == 0xabcdef, "an observer was called through a wrong pointer");
        g_log->push_back({id, static_cast<void const*>(&src), str(data)});
        if (g_inside)
            g_inside(g_ctx, id, static_cast<void const*>(&src));
    }
};

template <class D>
struct box {
    virtual ~box()                         = default;
    virtual void             notify(D const&) = 0;
    virtual void const*      root()           = 0;
    std::vector<int>         list{};
};
template <class D, class O>
struct box_of final : box<D> {
    O o;
    template <class... A>
    explicit box_of(std::vector<int> l, A&... a) : o(a...)
    {
        this->list = std::move(l);
    }
    void
    notify(D const& d) override
    {
        o.notify(d);
    }
    void const*
    root() override
    {
        return static_cast<void const*>(&o.root);
    }
};

template <class D>
struct pools {
    std::deque<obs<D, 0>> a;
    std::deque<obs<D, 1>> b;
    std::deque<obs<D, 2>> z;
    pools(int n) : a(n), b(n), z(n)
    {
        for (int i = 0; i < n; ++i) {
            a[i].id = i;
            b[i].id = 100 + i;
            z[i].id = 200 + i;
        }
    }
};

template <class D, int... Tags>
std::unique_ptr<box<D>>
build(pbt::ctx& c, pools<D>& p)
{
    auto pick = [&]<int T>(std::integral_constant<int, T>) -> obs<D, T>& {
        std::size_t i = c.draw(p.a.size() - 1);
        if constexpr (T == 0)
            return p.a[i];
        else if constexpr (T == 1)
            return p.b[i];
        else
            return p.z[i];
    };
    auto refs = std::tuple<obs<D, Tags>&...>{pick(std::integral_constant<int, Tags>{})...};
    return std::apply(
        [](auto&... o) -> std::unique_ptr<box<D>> {
            return std::make_unique<box_of<D, xc::observable<D, std::remove_reference_t<decltype(o)>...>>>(
                std::vector<int>{o.id...}, o...);
        },
        refs);
}

template <class D>
std::unique_ptr<box<D>>
build_any(pbt::ctx& c, pools<D>& p)
{
    switch (c.draw(8)) {
    case 0: return build<D, 0>(c, p);
    case 1: return build<D, 0, 1>(c, p);
    case 2: return build<D, 0, 0>(c, p);
    case 3: return build<D, 2, 1, 0>(c, p);
    case 4: return build<D, 1, 1, 1>(c, p);
    case 5: return build<D, 0, 1, 2, 0>(c, p);
    case 6: return build<D, 2, 2, 0, 2, 1>(c, p);
    case 7: return build<D, 0, 1, 0, 2, 0, 1>(c, p);
    default: return build<D, 1, 0, 2, 2, 1, 0, 0, 1, 2>(c, p);
    }
}

template <class D>
held<D>
value(std::uint64_t v)
{
    if constexpr (std::is_same_v<D, event>) {
        special_event e;
        e.v    = v;
        e.more = std::string(v % 30, '+');
        return e;
    } else if constexpr (std::is_same_v<D, std::string>)
        return std::string(v % 40, 'x') + std::to_string(v);
    else
        return D(v);
}

template <class D>
void
world(pbt::ctx& c)
{
    std::vector<rec> log;
    g_log    = &log;
    g_inside = nullptr;
    pools<D>                             p(int(c.range(1, 4)));
    std::vector<std::unique_ptr<box<D>>> bs;
    for (std::size_t n = 1 + c.draw(3); n; --n) {
        bs.push_back(build_any<D>(c, p));
        std::string t;
        for (int i : bs.back()->list)
            t += std::to_string(i) + " ";
        c.op("observable %zu lists %s", bs.size() - 1, t.c_str());
    }
    std::vector<int> all;
    for (auto& b : bs)
        all.insert(all.end(), b->list.begin(), b->list.end());
    std::sort(all.begin(), all.end());
    bool const shared = std::adjacent_find(all.begin(), all.end()) != all.end();
    // the k-th delivery of the outer notification also notifies another observable
    struct nest_t {
        std::vector<std::unique_ptr<box<D>>>* bs;
        int                                   at = -1, other = 0, seen = 0;
        held<D>                               data{};
        bool                                  busy = false;
    } nest{&bs};
    g_ctx = &nest;

    std::vector<char>        told(bs.size(), 0);
    std::vector<void const*> sender(bs.size(), nullptr);
    auto                     check = [&](std::vector<rec> const& got, std::size_t which, D const& d, char const* what) {
        auto& b = *bs[which];
        PBT_CHECK(got.size() == b.list.size(), "%s: %zu deliveries, %zu observers are listed", what, got.size(),
                  b.list.size());
        for (std::size_t i = 0; i < got.size(); ++i) {
            PBT_CHECK(got[i].who == b.list[i], "%s: delivery %zu went to observer %d, listed there is %d", what, i,
                      got[i].who, b.list[i]);
            PBT_CHECK(got[i].data == str(d), "%s: observer %d heard '%s', sent '%s'", what, got[i].who,
                      got[i].data.c_str(), str(d).c_str());
            PBT_CHECK(got[i].src == got[0].src, "%s: observers %d and %d were given different senders", what, got[0].who,
                      got[i].who);
        }
        PBT_CHECK(got[0].src == b.root(), "%s: the sender given is not the root of the observable", what);
        PBT_CHECK(!sender[which] || sender[which] == got[0].src, "%s: the sender of an observable changed", what);
        sender[which] = got[0].src;
        for (std::size_t k = 0; k < bs.size(); ++k)
            PBT_CHECK(k == which || !sender[k] || sender[k] != sender[which],
                      "%s: observables %zu and %zu cannot be told apart by their sender", what, k, which);
    };
    std::uint64_t v = 0;
    while (c.more(8)) {
        std::size_t const w = c.draw(bs.size() - 1);
        held<D> const     d = value<D>(++v * 7);
        told[w]             = 1;
        log.clear();
        bool const nested = c.chance(1, 3);
        if (!nested) {
            c.op("notify observable %zu", w);
            bs[w]->notify(d);
            check(log, w, d, "notification");
            continue;
        }
        std::size_t const o = c.draw(bs.size() - 1);    // another one, or itself
        nest.at    = int(c.draw(bs[w]->list.size() - 1));
        nest.other = int(o);
        nest.seen  = 0;
        nest.data  = value<D>(++v * 7);
        g_inside   = [](void* x, int, void const*) {
            auto& n = *static_cast<nest_t*>(x);
            if (n.busy || n.seen++ != n.at)
                return;
            n.busy = true;
            (*n.bs)[n.other]->notify(n.data);
            n.busy = false;
        };
        c.op("notify observable %zu, and %zu%s from inside delivery %d", w, o, o == w ? " itself" : "", nest.at);
        bs[w]->notify(d);
        g_inside = nullptr;
        told[o]  = 1;
        std::size_t const ni = bs[o]->list.size(), from = std::size_t(nest.at) + 1;
        PBT_CHECK(log.size() == ni + bs[w]->list.size(), "nested notification: %zu deliveries, expected %zu", log.size(),
                  ni + bs[w]->list.size());
        std::vector<rec> inner(log.begin() + long(from), log.begin() + long(from + ni));
        log.erase(log.begin() + long(from), log.begin() + long(from + ni));
        check(inner, o, nest.data, "nested notification");
        check(log, w, d, "notification around a nested one");
    }
    if (shared && std::count(told.begin(), told.end(), 1) >= 2)
        c.nontrivial();
    if (shared)
        c.label("an observer is listed twice or shared");
}

}    // namespace

void
property(pbt::ctx& c)
{
    switch (c.draw(2)) {
    case 0: return world<std::string>(c);
    case 1: return world<int>(c);
    default: return world<event>(c);
    }
}
