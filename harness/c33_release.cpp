// C33: what was handed to a cache, a pipeline or a timer is let go of as soon as it is no longer part of it.
#include "pipe_items.hpp"

#include "vclock.hpp"
#include <xitren/cache/lru.hpp>
#include <xitren/func/interval_event.hpp>

#include <condition_variable>
#include <list>
#include <map>
#include <set>

char const* const property_rule
    = "One case is a history of stores and lookups on a cache whose keys and values count their instances, or rounds of items "
      "pushed through a stage or a pool until it is idle, or a timer's or pipeline's handler object; the instances alive are "
      "compared with what the part may still hold, after every call, when idle and after destruction. Non-trivial: values were "
      "replaced and evicted, more items were handled than a buffer holds, or a handler ran before its owner went.";
bool const property_flaky = true;
void
known_findings()
{}

namespace {

struct census {
    std::mutex         lock;
    std::map<int, int> alive;    // id -> instances
    std::uint64_t      made = 0;
    void
    born(int id)
    {
        std::lock_guard l{lock};
        ++alive[id];
        ++made;
    }
    void
    gone(int id)
    {
        std::lock_guard l{lock};
        auto            it = alive.find(id);
        PBT_CHECK(it != alive.end(), "an instance of value %d was destroyed that was not alive", id);
        if (--it->second == 0)
            alive.erase(it);
    }
    std::map<int, int>
    now()
    {
        std::lock_guard l{lock};
        return alive;
    }
    std::size_t
    total()
    {
        std::lock_guard l{lock};
        std::size_t     n = 0;
        for (auto& [k, v] : alive)
            n += std::size_t(v);
        return n;
    }
};

template <int Kind>
census&
people()
{
    static census c;
    return c;
}

// A value with an identity that moves take along: what is moved from stands for nothing (-1).
template <int Kind>
struct token {
    int id;
    explicit token(int i) : id{i} { people<Kind>().born(id); }
    token(token const& o) : id{o.id} { people<Kind>().born(id); }
    token(token&& o) noexcept : id{o.id}
    {
        people<Kind>().born(id);
        o.become(-1);
    }
    token&
    operator=(token const& o)
    {
        become(o.id);
        return *this;
    }
    token&
    operator=(token&& o) noexcept
    {
        if (&o != this) {
            become(o.id);
            o.become(-1);
        }
        return *this;
    }
    ~token() { people<Kind>().gone(id); }
    void
    become(int i)
    {
        if (i == id)
            return;
        people<Kind>().born(i);
        people<Kind>().gone(id);
        id = i;
    }
    friend bool
    operator==(token const& a, token const& b)
    {
        return a.id == b.id;
    }
};
using ckey   = token<0>;
using cval = token<1>;
using item_t  = token<2>;
using fun_t   = token<3>;

std::string
show(std::map<int, int> const& m)
{
    std::string s;
    for (auto& [k, v] : m)
        s += std::to_string(k) + (v == 1 ? " " : "(x" + std::to_string(v) + ") ");
    return s.substr(0, 600);
}
void
nobody(census& p, char const* what, char const* when)
{
    auto const m = p.now();
    PBT_CHECK(m.empty(), "%s: %s still alive: %s", when, what, show(m).c_str());
}
}    // namespace

template <>
struct std::hash<ckey> {
    std::size_t
    operator()(ckey const& k) const
    {
        return std::size_t(k.id / 2);
    }
};

namespace {

template <std::size_t Size, bool Throws>
void
cache_case(pbt::ctx& c)
{
    using cache_t = xitren::cache::lru<ckey, cval, Size, Throws>;
    struct entry {
        int          key, value;
        std::int64_t at;
    };
    std::list<entry>   l;
    std::int64_t const period = 1'000'000;
    bool               evicted = false, replaced = false;
    vclock::now_ns = 0;
    vclock::on     = true;
    {
        auto      cache = std::make_unique<cache_t>(std::chrono::nanoseconds(period));
        int const keys  = int(Size) + int(c.range(1, 6));
        int       v     = 0;
        c.op("cache of %zu, %s", Size, Throws ? "throwing" : "not throwing");
        auto look = [&](char const* after) {
            auto const values = people<1>().now(), ks = people<0>().now();
            std::set<int> held, fresh;
            for (auto& e : l) {
                held.insert(e.value);
                if (vclock::now_ns - e.at < period)
                    fresh.insert(e.value);
            }
            std::size_t total = 0;
            for (auto& [id, k] : values) {
                total += std::size_t(k);
                PBT_CHECK(held.count(id), "after %s: value %d is still alive; the cache may hold: %s", after, id,
                          [&] {
                              std::string s;
                              for (int x : held)
                                  s += std::to_string(x) + " ";
                              return s;
                          }().c_str());
            }
            for (int f : fresh)
                PBT_CHECK(values.count(f), "after %s: value %d is gone although nothing pushed it out", after, f);
            PBT_CHECK(total <= Size, "after %s: %zu values alive in a cache of %zu", after, total, Size);
            std::size_t kt = 0;
            for (auto& [id, k] : ks) {
                kt += std::size_t(k);
                PBT_CHECK(std::any_of(l.begin(), l.end(), [&](auto& e) { return e.key == id; }),
                          "after %s: key %d is still alive although the cache may not hold it", after, id);
            }
            PBT_CHECK(kt <= 4 * Size, "after %s: %zu key instances alive in a cache of %zu", after, kt, Size);
        };
        while (c.more(40)) {
            int const k = int(c.draw(std::uint64_t(keys - 1)));
            switch (c.weighted({6, 4, 2})) {
            case 0: {
                ++v;
                c.op("put(%d, value %d)", k, v);
                auto it = std::find_if(l.begin(), l.end(), [&](auto& e) { return e.key == k; });
                if (it != l.end()) {
                    l.erase(it);
                    replaced = true;
                } else if (l.size() >= Size) {
                    l.pop_back();
                    evicted = true;
                }
                l.push_front({k, v, vclock::now_ns});
                cache->put(ckey{k}, cval{v});
                look("put");
                break;
            }
            case 1: {
                auto it = std::find_if(l.begin(), l.end(), [&](auto& e) { return e.key == k; });
                bool const fresh = it != l.end() && vclock::now_ns - it->at < period;
                c.op("get(%d)", k);
                try {
                    auto r = cache->get(ckey{k});
                    PBT_CHECK(r.has_value() == fresh, "lookup of key %d: %s", k, r ? "present" : "absent");
                    if (r)
                        PBT_CHECK(r->id == it->value, "lookup of key %d: value %d instead of %d", k, r->id, it->value);
                } catch (xitren::cache::cache_timeout const&) {
                    PBT_CHECK(!fresh, "lookup of key %d: timeout", k);
                }
                if (fresh)
                    l.splice(l.begin(), l, it);
                look("get");
                break;
            }
            default:
                vclock::now_ns += std::int64_t(c.sized(20));
                c.op("time passes");
            }
        }
    }
    vclock::on = false;
    nobody(people<1>(), "values", "after the cache was destroyed");
    nobody(people<0>(), "keys", "after the cache was destroyed");
    if (evicted && replaced)
        c.nontrivial();
}

void
wait_for(char const* what, auto cond, auto told)
{
    double const until = pbt::now_s() + 8;
    while (!cond()) {
        PBT_CHECK(pbt::now_s() < until, "%s: %s", what, told().c_str());
        pbt::real_sleep_us(20);
    }
}

template <std::size_t N, std::size_t Pool>
void
pipe_case(pbt::ctx& c)
{
    using namespace pi;
    using xitren::comm::pipeline_stage_exception;
    struct nothing {};
    std::atomic<unsigned> handled{0};
    std::atomic<bool>     hold{false};
    auto const            fun_alive = [] { return people<3>().total(); };
    struct handler {
        fun_t                  mine;
        std::atomic<unsigned>* handled;
        std::atomic<bool>*     hold;
        nothing
        run(item_t const& i) const
        {
            while (*hold)
                pbt::real_sleep_us(20);
            PBT_CHECK(people<2>().now().count(i.id), "item %d is not alive in its handler", i.id);
            ++*handled;
            return {};
        }
        nothing
        operator()(pipeline_stage_exception, item_t const& i, std::pair<int, int> const&) const
        {
            return run(i);
        }
        nothing
        operator()(pipeline_stage_exception, item_t const& i, xitren::comm::measure_data const&) const
        {
            return run(i);
        }
    };
    unsigned pushed = 0, rounds = 1 + unsigned(c.draw(4));
    auto     drive = [&](auto& st) {
        PBT_CHECK(fun_alive() >= 1, "the handler object is gone");
        for (unsigned r = 0; r < rounds; ++r) {
            unsigned const n = unsigned(c.draw(3 * N));
            bool const idle  = handled == pushed;
            hold             = c.chance(1, 3) && n <= N && idle;    // let them queue up
            for (unsigned i = 0; i < n; ++i) {
                ++pushed;
                if (c.chance(1, 2)) {
                    item_t const it{int(pushed)};
                    st->push(it);
                } else
                    st->push(item_t{int(pushed)});
            }
            c.op("%u items%s", n, hold ? ", held back" : "");
            hold = false;
            if (c.chance(3, 4)) {
                wait_for("items were not handled", [&] { return handled == pushed; },
                         [&] { return std::to_string(handled.load()) + " of " + std::to_string(pushed); });
                // the hand-over is over a moment later
                wait_for("after every item was handled, instances are still alive", [&] { return people<2>().total() == 0; },
                         [&] { return show(people<2>().now()); });
            }
        }
        st.reset();
        PBT_CHECK(handled == pushed, "%u of %u items handled", handled.load(), pushed);
    };
    if constexpr (Pool == 0) {
        c.op("stage, buffer %zu", N);
        using stage = xitren::comm::pipeline_stage<item_t, nothing, N, quiet_log>;
        auto st     = std::make_unique<stage>(handler{fun_t{7}, &handled, &hold});
        drive(st);
    } else {
        c.op("pool of %zu, buffer %zu", Pool, N);
        using pool = xitren::comm::pipeline_stage_pool<item_t, nothing, N, Pool, quiet_log>;
        auto st    = std::make_unique<pool>(handler{fun_t{7}, &handled, &hold});
        drive(st);
    }
    nobody(people<2>(), "items", "after the pipeline was destroyed");
    nobody(people<3>(), "handler objects", "after the pipeline was destroyed");
    if (pushed > N)
        c.nontrivial();
}

void
timer_case(pbt::ctx& c)
{
    std::atomic<unsigned> ran{0};
    unsigned const        wait = unsigned(c.draw(30));
    {
        struct fn {
            fun_t                  mine;
            std::atomic<unsigned>* ran;
            void
            operator()() const
            {
                PBT_CHECK(mine.id == 9, "the callback object is broken");
                ++*ran;
            }
        };
        xitren::func::interval_event e{fn{fun_t{9}, &ran}, std::chrono::milliseconds(1 + c.draw(4)),
                                       std::chrono::milliseconds(1 + c.draw(2))};
        pbt::real_sleep_us(long(wait) * 1000);
        if (c.chance(1, 2))
            e.stop();
        PBT_CHECK(people<3>().total() >= 1, "the callback object is gone while its event lives");
    }
    c.op("event destroyed after %u ms", wait);
    nobody(people<3>(), "callback objects", "after the event was destroyed");
    if (ran > 0)
        c.nontrivial();
}
}    // namespace

void
property(pbt::ctx& c)
{
    pi::jitter = 0;
    for (census* p : {&people<0>(), &people<1>(), &people<2>(), &people<3>()})
        p->alive.clear();
#ifdef THREADS
    switch (c.weighted({3, 3, 3, 3, 3, 3, 1})) {
    case 0: pipe_case<1, 0>(c); break;
    case 1: pipe_case<4, 0>(c); break;
    case 2: pipe_case<32, 0>(c); break;
    case 3: pipe_case<1, 2>(c); break;
    case 4: pipe_case<4, 3>(c); break;
    case 5: pipe_case<16, 1>(c); break;
    default: timer_case(c);
    }
#else
    switch (c.draw(5)) {
    case 0: cache_case<1, false>(c); break;
    case 1: cache_case<2, true>(c); break;
    case 2: cache_case<4, false>(c); break;
    case 3: cache_case<4, true>(c); break;
    case 4: cache_case<9, false>(c); break;
    default: cache_case<16, true>(c);
    }
#endif
}
