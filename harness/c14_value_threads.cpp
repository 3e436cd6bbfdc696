#include "val_world.hpp"

#include <map>
#include <thread>

char const* const property_rule
    = "One case runs 2 to 5 threads that each apply a generated list of ++, --, += and -= (prefix and postfix) to one "
      "observable value at once, with 0 to 6 observers registered beforehand whose callbacks are slow by a generated amount, in a third of the "
      "cases two thirds of the updates through a volatile reference. "
      "Afterwards: the final value is the sum, each observer was called once per update with that update's result, and the "
      "observed results can be strung into one sequential order (the updates form an Eulerian walk from the initial to the "
      "final value). Schedules are the machine's own. Non-trivial: results of different threads interleaved.";
bool const property_flaky = true;
void
known_findings()
{}

namespace {

using namespace vw;

struct thing {
    int kind;    // 0 ++x 1 x++ 2 --x 3 x-- 4 += 5 -=
    int k;
    bool qualified;    // through a volatile reference
};

// one update, with the values it went from and to
template <class T, class Obs>
void
update(Obs& o, thing const& x, std::vector<std::pair<T, T>>& e)
{
    using U = typename std::conditional_t<std::is_floating_point_v<T>, std::type_identity<T>, std::make_unsigned<T>>::type;
    T r;
    switch (x.kind) {
    case 0: r = ++o; e.emplace_back(T(U(r) - 1), r); break;
    case 1: r = o++; e.emplace_back(r, T(U(r) + 1)); break;
    case 2: r = --o; e.emplace_back(T(U(r) + 1), r); break;
    case 3: r = o--; e.emplace_back(r, T(U(r) - 1)); break;
    case 4: r = (o += x.k); e.emplace_back(T(U(r) - U(x.k)), r); break;
    default: r = (o -= x.k); e.emplace_back(T(U(r) + U(x.k)), r); break;
    }
}

template <class T, class Obs>
void
world(pbt::ctx& c, char const* type, std::size_t cap)
{
    using U             = typename std::conditional_t<std::is_floating_point_v<T>, std::type_identity<T>, std::make_unsigned<T>>::type;
    auto           obsp = std::make_unique<Obs>();
    Obs&           o    = *obsp;
    int const      nt   = int(c.range(2, 5));
    int const      no   = int(c.draw(std::min<std::size_t>(cap, 6)));
    unsigned const slow = unsigned(c.draw(60));
    T const        init = T(c.range(-1000, 1000));
    o                   = init;
    // callbacks run on the updating threads: each keeps its own list
    static thread_local int me = -1;
    struct heard {
        std::vector<std::vector<T>> by_thread;
    };
    std::vector<heard>                    got(static_cast<std::size_t>(no));
    std::deque<xitren::comm::values::observed<T>> seen;
    std::mutex                            other_lock;
    std::vector<std::vector<T>>           other(static_cast<std::size_t>(no));    // calls from any other thread
    for (int i = 0; i < no; ++i) {
        got[i].by_thread.resize(static_cast<std::size_t>(nt));
        seen.emplace_back([&, i](T const v) {
            if (me >= 0)
                got[i].by_thread[me].push_back(v);
            else {
                std::lock_guard l(other_lock);
                other[i].push_back(v);
            }
            for (unsigned volatile n = 0; n < slow; ++n) {}
        });
        PBT_CHECK(to_res(o.add_observer(seen.back())) == res::ok, "registration failed");
    }
    std::vector<std::vector<thing>> plan(static_cast<std::size_t>(nt));
    std::size_t                     total = 0;
    unsigned const                  len   = unsigned(c.pick<int>({300, 60, 1200}));
    bool const                      mixed = c.chance(1, 2), through = c.chance(1, 3);
    for (auto& p : plan) {
        std::size_t const n = 1 + c.draw(len);
        // one draw seeds the list: tapes stay short
        std::uint64_t s = c.draw(~0ULL >> 1);
        for (std::size_t i = 0; i < n; ++i) {
            s = pbt::mix(s);
            p.push_back({int(s % (mixed ? 6 : 4)), int((s >> 20) % 19) - 9, through && (s >> 40) % 3 != 0});
        }
        total += n;
    }
    c.op("%s from %lld, %d threads, %d observers, %zu updates in all", type, (long long)init, nt, no, total);
    std::vector<std::vector<std::pair<T, T>>> edges(static_cast<std::size_t>(nt));    // (value before, value after)
    std::atomic<int>                          ready{0};
    std::vector<std::thread>                  th;
    for (int t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            me = t;
            auto& e = edges[t];
            e.reserve(plan[t].size());
            ++ready;
            while (ready < nt) {}
            for (auto const& x : plan[t]) {
                if (x.qualified)
                    update(static_cast<Obs volatile&>(o), x, e);
                else
                    update(o, x, e);
            }
        });
    for (auto& t : th)
        t.join();
    U sum = U(init);
    for (auto& p : plan)
        for (auto& x : p)
            sum += x.kind < 2 ? U(1) : x.kind < 4 ? U(0) - U(1) : x.kind == 4 ? U(x.k) : U(0) - U(x.k);
    T const final_value = o.value();
    PBT_CHECK(final_value == T(sum), "the final value is %lld, initial value and changes sum to %lld", (long long)final_value,
              (long long)T(sum));
    // a sequential order exists: an Eulerian walk over all (before, after) pairs
    std::map<T, long>           degree;
    std::map<T, std::vector<T>> out;
    std::size_t                 n = 0;
    for (auto& l : edges)
        for (auto& [a, b] : l) {
            degree[a]++;
            degree[b]--;
            out[a].push_back(b);
            out[b].push_back(a);    // for connectivity
            ++n;
        }
    degree[init]--;
    degree[final_value]++;
    for (auto& [v, d] : degree)
        PBT_CHECK(d == 0, "no sequential order gives the observed results: %ld update(s) too %s start from value %lld",
                  d > 0 ? d : -d, d > 0 ? "many" : "few", (long long)v);
    std::map<T, bool> reach;
    std::vector<T>    todo{init};
    reach[init] = true;
    while (!todo.empty()) {
        T const v = todo.back();
        todo.pop_back();
        for (T const w : out[v])
            if (!reach[w]) {
                reach[w] = true;
                todo.push_back(w);
            }
    }
    for (auto& [v, l] : out)
        PBT_CHECK(l.empty() || reach[v], "no sequential order gives the observed results: value %lld is out of reach",
                  (long long)v);
    for (int i = 0; i < no; ++i) {
        std::vector<T> a = other[i], b;
        for (int t = 0; t < nt; ++t) {
            a.insert(a.end(), got[i].by_thread[t].begin(), got[i].by_thread[t].end());
            for (auto& e : edges[t])
                b.push_back(e.second);
        }
        PBT_CHECK(a.size() == b.size(), "observer %d was called %zu times for %zu updates", i, a.size(), b.size());
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        PBT_CHECK(a == b, "observer %d was not called with the result of each update", i);
    }
    // did threads really interleave? adjacent values from different threads
    std::size_t jumps = 0;
    for (auto& l : edges)
        for (std::size_t i = 1; i < l.size(); ++i)
            jumps += l[i].first != l[i - 1].second;
    if (jumps) {
        c.nontrivial();
        c.label("threads interleaved");
    }
    if (no >= 2 && jumps)
        c.label("interleaved with two or more observers");
    obsp.reset();    // before the observers
}

}    // namespace

void
property(pbt::ctx& c)
{
    using namespace xitren::comm::values;
    switch (c.draw(7)) {
    case 0: return world<int, observable<int, 4>>(c, "int, fixed<4>", 4);
    case 1: return world<std::int64_t, observable_dynamic<std::int64_t>>(c, "int64, dynamic", 99);
    case 2: return world<unsigned, observable_dynamic<unsigned>>(c, "unsigned, dynamic", 99);
    case 3: return world<std::uint64_t, observable<std::uint64_t, 6>>(c, "uint64, fixed<6>", 6);
    case 4: return world<std::int16_t, observable<std::int16_t, 2>>(c, "int16, fixed<2>", 2);
    case 5: return world<double, observable_dynamic<double>>(c, "double, dynamic", 99);
    case 6: return world<float, observable<float, 3>>(c, "float, fixed<3>", 3);
    default: return world<std::uint8_t, observable_dynamic<std::uint8_t>>(c, "uint8, dynamic", 99);
    }
}
