// C29: dynamic observable and lru in the build where mutex support is on: concurrent histories must be linearizable.
#include "linear.hpp"

#include <pthread.h>

#include <mutex>
// What a platform does whose <pthread.h> defines this as a macro: it switches the library's locks on.
#define PTHREAD_MUTEX_DEFAULT PTHREAD_MUTEX_DEFAULT

#include <xitren/cache/lru.hpp>
#include <xitren/comm/observer.hpp>

#include <deque>
#include <memory>
#include <thread>

char const* const property_rule
    = "One case runs 20 short rounds of 2 to 4 threads making 2 to 10 calls each (add, remove, clear, notify on one dynamic "
      "observable with up to 4 observers; or put and get on one cache of 1 to 4 entries), recording results, deliveries and "
      "real-time order; a search must find a sequential order of every round with the same outcome, each observer's calls in "
      "the order it saw them, and the state after the round is read and carried into the next. The thread-sanitizer build also reports unordered accesses. Schedules are "
      "the machine's own. Non-trivial: calls of different threads overlapped in at least five rounds.";
bool const property_flaky = true;
void
known_findings()
{}

namespace {

constexpr int rounds = 20;

void
spin(unsigned n)
{
    for (unsigned volatile i = 0; i < n; ++i) {}
}

template <class Op>
bool
overlap(std::vector<Op> const& h)
{
    for (auto& a : h)
        for (auto& b : h)
            if (a.thread != b.thread && a.from < b.to && b.from < a.to)
                return true;
    return false;
}

// Runs the plan of each thread at once; body(op, thread) executes one call and fills in its outcome.
template <class Op, class F>
std::vector<Op>
at_once(std::vector<std::vector<Op>>& plan, F body)
{
    std::atomic<unsigned>    ready{0};
    std::vector<std::thread> th;
    for (std::size_t t = 0; t < plan.size(); ++t)
        th.emplace_back([&, t] {
            ++ready;
            while (ready < plan.size()) {}
            for (auto& o : plan[t]) {
                o.from = lin::tick();
                body(o);
                o.to = lin::tick();
            }
        });
    for (auto& x : th)
        x.join();
    std::vector<Op> all;
    for (auto& p : plan)
        all.insert(all.end(), p.begin(), p.end());
    return all;
}

// --- the observable --------------------------------------------------------------------------------------------------

struct obs_op {
    int           thread{}, kind{}, who{};    // 0 add 1 remove 2 clear 3 notify
    unsigned      slow{};
    std::uint64_t from{}, to{};
    int           result{};    // 0 ok, 1 already_contains, 2 not_found, 3 anything else
    std::string   calls{};     // observers called, in order
    std::vector<std::uint64_t> at{};    // and when
    std::string
    text() const
    {
        static char const* const k[] = {"add", "remove", "clear", "notify"};
        static char const* const r[] = {"ok", "already_contains", "not_found", "?"};
        return "[" + std::to_string(from) + ".." + std::to_string(to) + "] thread " + std::to_string(thread) + " " + k[kind]
               + (kind < 2 ? " " + std::to_string(who) : "") + " -> " + r[result] + (kind >= 2 ? " called " + calls : "");
    }
};
struct obs_model {
    std::string list{};
    std::string
    key() const
    {
        return list;
    }
    bool
    apply(obs_op const& o)
    {
        auto const at = list.find(char('0' + o.who));
        switch (o.kind) {
        case 0:
            if (at != std::string::npos)
                return o.result == 1;
            list += char('0' + o.who);
            return o.result == 0;
        case 1:
            if (at == std::string::npos)
                return o.result == 2;
            list.erase(at, 1);
            return o.result == 0;
        case 2: {
            bool const ok = o.result == 0 && o.calls == list;
            list.clear();
            return ok;
        }
        default: return o.result == 0 && o.calls == list;
        }
    }
};

thread_local obs_op*      calls_here = nullptr;
thread_local int          seen_value = 0;

struct listener final : xitren::comm::observer<int> {
    int      id{};
    unsigned slow{};
    void
    note(char what) const
    {
        if (calls_here) {
            calls_here->at.push_back(lin::tick());
            calls_here->calls += what;
        }
        spin(slow);
    }
    void
    disconnect(void const*) override
    {
        note(char('0' + id));
    }

protected:
    void
    data(void const*, int const& v) override
    {
        note(v == seen_value ? char('0' + id) : '?');
    }
};

// Every observer saw the calls made to it in some order: that order too is part of the outcome.
std::vector<std::uint64_t>
order_seen(std::vector<obs_op> const& h)
{
    std::vector<std::uint64_t> after(h.size(), 0);
    for (std::size_t i = 0; i < h.size(); ++i)
        for (std::size_t x = 0; x < h[i].calls.size(); ++x)
            for (std::size_t j = 0; j < h.size(); ++j)
                for (std::size_t y = 0; i != j && y < h[j].calls.size() && y < h[j].at.size(); ++y)
                    if (h[i].calls[x] == h[j].calls[y] && h[j].at[y] < h[i].at[x])
                        after[i] |= 1ULL << j;
    return after;
}

template <class Op>
std::string
story(std::vector<Op> h)
{
    std::sort(h.begin(), h.end(), [](auto& a, auto& b) { return a.from < b.from; });
    std::string s;
    for (auto& o : h)
        s += "\n  " + o.text();
    return s;
}

void
run_obs(pbt::ctx& c)
{
    using O = xitren::comm::observable_dynamic<int>;
    std::deque<listener> ls(1 + c.draw(3));
    unsigned const       slow = unsigned(c.draw(200));
    for (std::size_t i = 0; i < ls.size(); ++i) {
        ls[i].id   = int(i);
        ls[i].slow = slow;
    }
    auto      o = std::make_unique<O>();
    obs_model state;
    int const nt = int(c.range(2, 4));
    // what the case leans to: racing registrations, removals against notifications, everything
    int const lean = int(c.draw(2));
    c.op("observable: %zu observers, %d threads, lean %d, callbacks spin %u", ls.size(), nt, lean, slow);
    c.label(lean == 0 ? "registrations" : lean == 1 ? "notifications against removals" : "any calls");
    int overlapped = 0, gave_up = 0;
    for (int r = 0; r < rounds; ++r) {
        std::vector<std::vector<obs_op>> plan(static_cast<std::size_t>(nt));
        std::uint64_t                    s = c.draw(~0ULL >> 1);
        unsigned const                   len = unsigned(c.range(2, 10));
        for (int t = 0; t < nt; ++t)
            for (unsigned i = 0; i < len; ++i) {
                s = pbt::mix(s);
                obs_op p;
                p.thread          = t;
                p.who             = int((s >> 8) % ls.size());
                unsigned const  w = unsigned(s % 16);
                p.kind            = lean == 0 ? (w < 9 ? 0 : w < 14 ? 1 : w < 15 ? 2 : 3)
                                    : lean == 1 ? (w < 4 ? 0 : w < 8 ? 1 : w < 9 ? 2 : 3)
                                                : (w < 5 ? 0 : w < 9 ? 1 : w < 11 ? 2 : 3);
                p.slow            = (s >> 30) % 4 ? 0 : unsigned((s >> 40) % 200);
                plan[t].push_back(p);
            }
        auto h = at_once(plan, [&](obs_op& p) {
            calls_here = &p;
            seen_value = p.thread * 100 + p.who;
            spin(p.slow);
            try {
                switch (p.kind) {
                case 0: o->add_observer(ls[p.who]); break;
                case 1: o->remove_observer(ls[p.who]); break;
                case 2: o->clear_observers(); break;
                default: o->notify_observers(seen_value); break;
                }
            } catch (O::exception const& e) {
                p.result = e.error == xitren::comm::observer_errors::already_contains ? 1
                           : e.error == xitren::comm::observer_errors::not_found      ? 2
                                                                                      : 3;
            } catch (...) {
                p.result = 3;
            }
            calls_here = nullptr;
        });
        obs_op look;    // the state left behind
        look.kind   = 3;
        look.thread = nt;
        look.from   = lin::tick();
        calls_here  = &look;
        seen_value  = -5;
        o->notify_observers(-5);
        calls_here = nullptr;
        look.to    = lin::tick();
        h.push_back(look);
        lin::search<obs_op, obs_model> srch{h};
        srch.after = order_seen(h);
        auto const                     v = srch.run(state);
        PBT_CHECK(v != lin::verdict::no, "round %d, starting from \"%s\": no sequential order has this outcome:%s", r,
                  state.list.c_str(), story(h).c_str());
        gave_up += v == lin::verdict::gave_up;
        overlapped += overlap(h);
        state.list = look.calls;
    }
    if (overlapped >= 5)
        c.nontrivial();
    if (gave_up)
        c.label("search gave up in a round");
    o.reset();
}

// --- the cache -------------------------------------------------------------------------------------------------------

struct lru_op {
    int           thread{}, kind{}, key{}, value{};    // 0 put 1 get
    unsigned      slow{};
    std::uint64_t from{}, to{};
    int           result{-1};    // get: value, -1 absent, -2 exception
    std::string
    text() const
    {
        return "[" + std::to_string(from) + ".." + std::to_string(to) + "] thread " + std::to_string(thread)
               + (kind ? " get " : " put ") + std::to_string(key) + (kind ? " -> " + std::to_string(result) : " = " + std::to_string(value));
    }
};
template <std::size_t Size>
struct lru_model {
    std::vector<std::pair<int, int>> l{};
    std::string
    key() const
    {
        std::string s;
        for (auto& [k, v] : l)
            s += std::to_string(k) + "=" + std::to_string(v) + ",";
        return s;
    }
    bool
    apply(lru_op const& o)
    {
        auto it = std::find_if(l.begin(), l.end(), [&](auto& e) { return e.first == o.key; });
        if (o.kind == 0) {
            if (it != l.end())
                l.erase(it);
            else if (l.size() >= Size)
                l.pop_back();
            l.insert(l.begin(), {o.key, o.value});
            return true;
        }
        if (it == l.end())
            return o.result == -1;
        auto const e = *it;
        l.erase(it);
        l.insert(l.begin(), e);
        return o.result == e.second;
    }
};

std::string
as_text(int v)
{
    return std::string(std::size_t(v % 3) * 15, '0') + std::to_string(v);    // some longer than a small string
}
template <class T>
T
make(int v)
{
    if constexpr (std::is_same_v<T, std::string>)
        return as_text(v);
    else
        return T(v);
}
template <class T>
int
back(T const& v)
{
    if constexpr (std::is_same_v<T, std::string>)
        return std::atoi(v.c_str());
    else
        return int(v);
}

template <class K, class V, std::size_t Size, bool Ex>
void
run_lru(pbt::ctx& c, char const* name)
{
    using L = xitren::cache::lru<K, V, Size, Ex>;
    auto            cache = std::make_unique<L>(std::chrono::hours(24));
    lru_model<Size> state;
    int const       nt   = int(c.range(2, 4));
    int const       keys = int(c.range(1, Size + 2));
    unsigned const  puts = unsigned(c.range(2, 14));
    c.op("cache %s of %zu: %d threads, %d keys, %u/16 stores", name, Size, nt, keys, puts);
    c.label(name);
    int overlapped = 0, gave_up = 0, serial = 0;
    for (int r = 0; r < rounds; ++r) {
        std::vector<std::vector<lru_op>> plan(static_cast<std::size_t>(nt));
        std::uint64_t                    s   = c.draw(~0ULL >> 1);
        unsigned const                   len = unsigned(c.range(2, 10));
        for (int t = 0; t < nt; ++t)
            for (unsigned i = 0; i < len; ++i) {
                s = pbt::mix(s);
                lru_op p;
                p.thread = t;
                p.key    = int((s >> 8) % unsigned(keys));
                p.kind   = s % 16 < puts ? 0 : 1;
                p.value  = ++serial;
                p.slow   = (s >> 30) % 4 ? 0 : unsigned((s >> 40) % 200);
                plan[t].push_back(p);
            }
        auto const get = [&](lru_op& p) {
            try {
                auto v   = cache->get(make<K>(p.key));
                p.result = v ? back<V>(*v) : -1;
            } catch (...) {
                p.result = -2;
            }
        };
        auto h = at_once(plan, [&](lru_op& p) {
            spin(p.slow);
            if (p.kind)
                return get(p);
            try {
                cache->put(make<K>(p.key), make<V>(p.value));
            } catch (...) {
                pbt::fail("put threw an exception");
            }
        });
        for (int k = 0; k < keys; ++k) {    // the state left behind
            lru_op p;
            p.thread = nt;
            p.kind   = 1;
            p.key    = k;
            p.from   = lin::tick();
            get(p);
            p.to = lin::tick();
            h.push_back(p);
        }
        lin::search<lru_op, lru_model<Size>> srch{h};
        auto const                           v = srch.run(state);
        PBT_CHECK(v != lin::verdict::no, "round %d, starting from %s: no sequential order has this outcome:%s", r,
                  state.key().c_str(), story(h).c_str());
        overlapped += overlap(h);
        if (v == lin::verdict::gave_up) {    // start over: the order left behind is not known
            ++gave_up;
            cache = std::make_unique<L>(std::chrono::hours(24));
            state = {};
        } else
            state = srch.last;
    }
    if (overlapped >= 5)
        c.nontrivial();
    if (gave_up)
        c.label("search gave up in a round");
}

}    // namespace

void
property(pbt::ctx& c)
{
    switch (c.draw(7)) {
    case 0:
    case 1:
    case 2:
    case 3: return run_obs(c);
    case 4: return run_lru<int, int, 2, true>(c, "int, int");
    case 5: return run_lru<std::string, std::string, 3, false>(c, "string, string");
    case 6: return run_lru<int, std::string, 1, true>(c, "int, string");
    default: return run_lru<std::string, int, 4, true>(c, "string, int");
    }
}
