#include "val_world.hpp"

char const* const property_rule
    = "One case is a history of registrations, removals, rejected registrations, notifications, clears and destructions on "
      "up to four observables of mixed kinds (event and value, fixed and dynamic) that share observers; after each step the "
      "disconnect calls received are compared with the reference registry. Non-trivial: a clear or destruction "
      "disconnected at least two observers after a removal from that list, and an observable was cleared and used again.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

using namespace ow;

// one observable, whichever family it belongs to
struct any {
    virtual ~any()                                       = default;
    virtual res                            add(int)          = 0;
    virtual res                            remove(int)       = 0;
    virtual void                           clear()           = 0;
    virtual void                           notify(int)       = 0;
    virtual void                           destroy()         = 0;
    virtual void                           create()          = 0;
    virtual void const*                    id()              = 0;
    // (observer, sender) of each disconnect since the last call; -1 as the observer: an unexpected other call
    virtual std::vector<std::pair<int, void const*>> drain() = 0;
    std::size_t                            max{};
    std::string                            name{};
};

template <class T>
struct ev_pool {
    std::vector<event<T>> log{};
    crew<sink<T>>        sinks;
    explicit ev_pool(int n, bool paired) : sinks(static_cast<std::size_t>(n), paired)
    {
        for (int i = 0; i < n; ++i) {
            sinks[i].log = &log;
            sinks[i].id  = i;
        }
    }
};
template <class T>
struct ev_any final : any {
    ev_pool<T>&                pool;
    std::size_t                kind;
    std::unique_ptr<target<T>> t{};
    ev_any(ev_pool<T>& p, std::size_t k) : pool{p}, kind{k}
    {
        create();
        max  = t->max;
        name = "event " + t->name;
    }
    res
    add(int i) override
    {
        return t->add(pool.sinks[i]);
    }
    res
    remove(int i) override
    {
        return t->remove(pool.sinks[i]);
    }
    void
    clear() override
    {
        t->clear();
    }
    void
    notify(int v) override
    {
        t->notify(payload<T>(v));
    }
    void
    destroy() override
    {
        t.reset();
    }
    void
    create() override
    {
        t = make_target<T>(kind);
    }
    void const*
    id() override
    {
        return t->id();
    }
    std::vector<std::pair<int, void const*>>
    drain() override
    {
        std::vector<std::pair<int, void const*>> r;
        for (auto& e : pool.log)
            if (e.kind == 'd')
                r.emplace_back(e.who, e.src);
        pool.log.clear();
        return r;
    }
};
template <class T>
struct v_pool {
    std::vector<vw::vevent<T>> log{};
    ow::crew<vw::probe<T>>    sinks;
    explicit v_pool(int n, bool paired) : sinks(static_cast<std::size_t>(n), paired)
    {
        for (int i = 0; i < n; ++i) {
            sinks[i].log = &log;
            sinks[i].id  = i;
        }
    }
};
template <class T>
struct v_any final : any {
    v_pool<T>&                      pool;
    std::size_t                     kind;
    std::unique_ptr<vw::vtarget<T>> t{};
    v_any(v_pool<T>& p, std::size_t k) : pool{p}, kind{k}
    {
        create();
        max  = t->max;
        name = "value " + t->name;
    }
    res
    add(int i) override
    {
        return t->add(pool.sinks[i]);
    }
    res
    remove(int i) override
    {
        return t->remove(pool.sinks[i]);
    }
    void
    clear() override
    {
        t->clear();
    }
    void
    notify(int v) override
    {
        t->assign(T(v));
    }
    void
    destroy() override
    {
        t.reset();
    }
    void
    create() override
    {
        t = vw::make_vtarget<T>(kind);
    }
    void const*
    id() override
    {
        return t->id();
    }
    std::vector<std::pair<int, void const*>>
    drain() override
    {
        std::vector<std::pair<int, void const*>> r;
        for (auto& e : pool.log)
            if (e.kind == 'd')
                r.emplace_back(e.who, e.src);
        pool.log.clear();
        return r;
    }
};

}    // namespace

void
property(pbt::ctx& c)
{
    bool const           crowd = c.chance(1, 40);
    int const            ns = crowd ? int(c.range(250, 400)) : c.chance(1, 6) ? int(c.range(18, 40)) : int(c.range(1, 18));
    bool const           paired = c.chance(1, 3);    // observers two by two as bases of one object
    ev_pool<int>         p1(ns, paired);
    ev_pool<std::string> p2(ns, paired);
    v_pool<int>          p3(ns, paired);
    v_pool<long>         p4(ns, paired);
    struct slot {
        std::unique_ptr<any> a;
        std::vector<int>     reg;
        bool                 removed = false, cleared = false;
    };
    std::vector<slot> slots(std::size_t(c.range(1, 4)));
    for (auto& s : slots) {
        switch (c.draw(3)) {
        case 0: s.a = std::make_unique<ev_any<int>>(p1, crowd && c.chance(1, 2) ? long_kind : c.draw(n_kinds - 1)); break;
        case 1: s.a = std::make_unique<v_any<int>>(p3, crowd && c.chance(1, 2) ? vw::long_vkind : c.draw(vw::n_vkinds - 1)); break;
        case 2: s.a = std::make_unique<ev_any<std::string>>(p2, crowd && c.chance(1, 2) ? long_kind : c.draw(n_kinds - 1)); break;
        default: s.a = std::make_unique<v_any<long>>(p4, crowd && c.chance(1, 2) ? vw::long_vkind : c.draw(vw::n_vkinds - 1)); break;
        }
    }
    bool many = false, reused = false;
    auto expect = [&](slot& s, std::vector<int> want, void const* id, char const* what) {
        auto got = s.a->drain();
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        for (std::size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
            PBT_CHECK(i < got.size(), "%s: only %zu of %zu registered observers were disconnected", what, got.size(),
                      want.size());
            PBT_CHECK(i < want.size(), "%s: %zu disconnect calls, %zu observers were registered", what, got.size(),
                      want.size());
            PBT_CHECK(got[i].first == want[i], "%s: observer %d was disconnected, expected observer %d", what, got[i].first,
                      want[i]);
            PBT_CHECK(got[i].second == id, "%s: the disconnect carried %p, the observable is %p", what, got[i].second, id);
        }
    };
    auto add = [&](slot& s, int k) {
        bool const known = std::count(s.reg.begin(), s.reg.end(), k) > 0;
        bool const full  = s.a->max && s.reg.size() >= s.a->max;
        auto const r     = s.a->add(k);
        if (!crowd)
            c.op("%s: add %d -> %s", s.a->name.c_str(), k, name(r));
        PBT_CHECK(add_answer_ok(r, known, full), "add reported %s", name(r));
        if (r == res::ok) {
            s.reg.push_back(k);
            reused |= s.cleared;
        }
        expect(s, {}, nullptr, "registration");
    };
    unsigned const avg = c.pick<unsigned>({12, 40});
    while (c.more(avg)) {
        auto& s = slots[c.draw(slots.size() - 1)];
        int   k = int(c.draw(ns - 1));
        switch (c.weighted({8, 6, 3, 3, 3, 3})) {
        case 0: add(s, k); break;
        case 1: {
            if (!s.reg.empty() && !c.chance(1, 4))
                k = s.reg[c.draw(s.reg.size() - 1)];
            auto at = std::find(s.reg.begin(), s.reg.end(), k);
            auto r  = s.a->remove(k);
            c.op("%s: remove %d -> %s", s.a->name.c_str(), k, name(r));
            PBT_CHECK(r == (at == s.reg.end() ? res::not_found : res::ok), "remove reported %s", name(r));
            if (at != s.reg.end()) {
                s.reg.erase(at);
                s.removed = true;
            }
            expect(s, {}, nullptr, "removal");
            break;
        }
        case 2: {
            c.op("%s: clear with %zu registered", s.a->name.c_str(), s.reg.size());
            s.a->clear();
            many |= s.removed && s.reg.size() >= 2;
            expect(s, s.reg, s.a->id(), "clear");
            s.reg.clear();
            s.removed = false;
            s.cleared = true;
            break;
        }
        case 3: {
            c.op("%s: destroyed with %zu registered", s.a->name.c_str(), s.reg.size());
            void const* id = s.a->id();
            s.a->destroy();
            many |= s.removed && s.reg.size() >= 2;
            expect(s, s.reg, id, "destruction");
            s.reg.clear();
            s.a->create();
            expect(s, {}, nullptr, "construction");
            s.removed = s.cleared = false;
            break;
        }
        case 4:
            c.op("%s: notify", s.a->name.c_str());
            s.a->notify(k);
            expect(s, {}, nullptr, "notification");
            break;
        default: {
            int const n = int(c.draw(crowd ? 400 : c.chance(1, 5) ? 40 : 6));
            if (crowd)
                c.op("%s: add %d observers from %d on", s.a->name.c_str(), n, k);
            for (int i = 0; i < n; ++i)
                add(s, (k + i) % ns);
        }
        }
    }
    for (auto& s : slots) {
        void const* id = s.a->id();
        s.a->destroy();
        many |= s.removed && s.reg.size() >= 2;
        expect(s, s.reg, id, "destruction at the end");
    }
    if (many && reused)
        c.nontrivial();
    if (many)
        c.label("two or more disconnected after a removal");
    if (reused)
        c.label("used again after clear");
}
