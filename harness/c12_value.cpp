#include "val_ops.hpp"

char const* const property_rule
    = "One case applies a random sequence of =, ++, --, += and -= (some through volatile references, with values and operands at the edges of the type) to up "
      "to three observable values (8 to 64 bit signed and unsigned, float, double; fixed and dynamic lists; in one case of ten bool, "
      "enum, pointer and record values, only assigned) with shared observed values whose callbacks are absent, given at construction, replaced, or cascade into another observable value; the "
      "same operators on a plain value are the reference. Non-trivial: at least four different operators were applied "
      "with two or more observers registered.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

using namespace vw;

template <class T>
void
world(pbt::ctx& c, char const* type)
{
    struct slot {
        std::unique_ptr<vtarget<T>> t;
        std::vector<int>            reg;
        T                           x;
    };
    int const              ns = c.chance(1, 8) ? int(c.range(8, 30)) : int(c.range(1, 8));
    std::vector<vevent<T>> log;
    std::deque<probe<T>>   probes;
    std::vector<int>       has(static_cast<std::size_t>(ns), 0);    // 0: no callback
    int                    version = 0, cascade_from = -1;
    std::vector<slot>      slots(std::size_t(c.range(1, 3)));
    // who calls: (observer << 16) + version of its callback
    auto callback = [&](int i, int ver) {
        return [&log, &slots, &cascade_from, i, ver](T const v) {
            log.push_back({'u', i * 65536 + ver, nullptr, v});
            if (i == cascade_from && slots.size() > 1)
                slots[1].t->assign(v);
        };
    };
    for (int i = 0; i < ns; ++i) {
        if (c.chance(2, 3)) {
            has[i] = ++version;
            probes.emplace_back(callback(i, version));
        } else
            probes.emplace_back();
        probes.back().log = &log;
        probes.back().id  = i;
    }
    for (auto& s : slots) {
        s.t = make_vtarget<T>(c.draw(n_vkinds - 1));
        s.x = s.t->value();
    }
    c.op("%s values: %zu observables, %d observers", type, slots.size(), ns);
    unsigned       used = 0;
    bool           wide = false;
    unsigned const avg  = c.pick<unsigned>({12, 40});
    // expected callbacks of an update of slot w, and what the observed values must be afterwards
    auto heard = [&](std::size_t w, T v, std::vector<std::pair<int, T>>& out, std::vector<std::pair<int, T>>& vals,
                     auto&& self) -> void {
        for (int i : slots[w].reg) {
            vals.emplace_back(i, v);
            if (has[i]) {
                out.emplace_back(i * 65536 + has[i], v);
                if (i == cascade_from && slots.size() > 1 && w != 1) {
                    slots[1].x = v;
                    self(1, v, out, vals, self);
                }
            }
        }
    };
    while (c.more(avg)) {
        std::size_t const w = c.draw(slots.size() - 1);
        auto&             s = slots[w];
        int const         k = int(c.draw(ns - 1));
        switch (c.weighted({12, 4, 1, 1, 1})) {
        case 0: {
            auto const o = vop(c.draw(n_vops - 1));
            T const    v = c.chance(1, 8) ? s.x : draw_value<T>(c);    // also what it holds already
            auto const d = draw_operand<T>(c);
            if (!defined(o, s.x, d))
                break;
            T          x    = s.x;
            T const    want = plain(o, x, v, d);
            log.clear();
            s.t->is_volatile = c.chance(1, 5);
            T const got = real(o, *s.t, v, d);
            T const now = s.t->value();
            c.op("%zu %s%s: %s (value %s, operand %s) on %s -> %s, holds %s, %zu callbacks", w, s.t->is_volatile ? "volatile " : "", s.t->name.c_str(), name(o),
                 show(v).c_str(), show(d).c_str(), show(s.x).c_str(), show(got).c_str(), show(now).c_str(), log.size());
            PBT_CHECK(same(got, want), "%s %s on %s returned %s, a plain value gives %s", type, name(o), show(s.x).c_str(),
                      show(got).c_str(), show(want).c_str());
            PBT_CHECK(same(now, x), "%s %s on %s left %s, a plain value would be %s", type, name(o), show(s.x).c_str(),
                      show(now).c_str(), show(x).c_str());
            s.x = x;
            std::vector<std::pair<int, T>> out, vals;
            heard(w, x, out, vals, heard);
            std::map<int, T> last;
            for (auto& [i, val] : vals)
                last[i] = val;
            for (auto& [i, val] : last)
                PBT_CHECK(same(probes[i].value(), val), "after %s observed value %d is %s, the observable is %s", name(o), i,
                          show(probes[i].value()).c_str(), show(val).c_str());
            PBT_CHECK(slots.size() < 2 || same(slots[1].t->value(), slots[1].x), "an update from a callback was lost");
            std::vector<std::pair<int, T>> calls;
            for (auto& e : log)
                calls.emplace_back(e.who, e.v);
            auto a = calls, b = out;
            auto const by_observer = [](auto const& l, auto const& r) { return l.first < r.first; };
            std::stable_sort(a.begin(), a.end(), by_observer);
            std::stable_sort(b.begin(), b.end(), by_observer);
            for (std::size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
                PBT_CHECK(i < a.size() && i < b.size(), "%s made %zu update calls, %zu expected", name(o), a.size(), b.size());
                PBT_CHECK(a[i].first == b[i].first, "%s: callback of observer %d called, expected observer %d", name(o),
                          a[i].first / 65536, b[i].first / 65536);
                PBT_CHECK(same(a[i].second, b[i].second), "%s: observer %d was called with %s, expected %s", name(o),
                          a[i].first / 65536, show(a[i].second).c_str(), show(b[i].second).c_str());
            }
            used |= 1u << unsigned(o);
            wide |= s.reg.size() >= 2;
            break;
        }
        case 1: {
            bool const known = std::count(s.reg.begin(), s.reg.end(), k) > 0;
            if (known)
                break;
            auto const r = s.t->add(probes[k]);
            c.op("%zu %s: register %d -> %s", w, s.t->name.c_str(), k, ow::name(r));
            if (r == res::ok)
                s.reg.push_back(k);
            break;
        }
        case 2: {
            if (s.reg.empty())
                break;
            int const  who = s.reg[c.draw(s.reg.size() - 1)];
            auto const r   = s.t->remove(probes[who]);
            c.op("%zu %s: remove %d -> %s", w, s.t->name.c_str(), who, ow::name(r));
            if (r == res::ok)
                s.reg.erase(std::find(s.reg.begin(), s.reg.end(), who));
            break;
        }
        case 3:
            if (c.chance(1, 4)) {
                has[k] = 0;
                probes[k].on_update(nullptr);
                c.op("observer %d: callback taken away", k);
            } else {
                has[k] = ++version;
                probes[k].on_update(callback(k, version));
                c.op("observer %d: new callback", k);
            }
            break;
        default:
            cascade_from = k;
            // the chain must end: nobody on the second observable may cascade
            if (slots.size() > 1 && std::count(slots[1].reg.begin(), slots[1].reg.end(), k))
                cascade_from = -1;
            break;
        }
        if (slots.size() > 1 && cascade_from >= 0
            && std::count(slots[1].reg.begin(), slots[1].reg.end(), cascade_from))
            cascade_from = -1;
    }
    if (wide && __builtin_popcount(used) >= 4)
        c.nontrivial();
    if (cascade_from >= 0)
        c.label("ended with a cascade in place");
    c.label(type);
    for (auto& s : slots)
        s.t.reset();
}

// Values that can only be assigned: settings, modes, handles, small records.
enum class mode : std::uint16_t { off, on, standby = 700, fault = 0xffff };
struct reading {
    std::int16_t  channel{};
    bool          good{};    // padding follows
    std::uint32_t raw{};
    friend bool
    operator==(reading const&, reading const&)
        = default;
};
std::array<int, 16> places;

template <class T>
T
other_value(std::uint64_t x)
{
    if constexpr (std::is_same_v<T, bool>)
        return x & 1;
    else if constexpr (std::is_same_v<T, mode>)
        return std::array{mode::off, mode::on, mode::standby, mode::fault}[x % 4];
    else if constexpr (std::is_same_v<T, int*>)
        return x % 17 ? &places[x % 17 - 1] : nullptr;
    else {
        T r;
        r.channel = std::int16_t(x);
        r.good    = x >> 16 & 1;
        r.raw     = std::uint32_t(x >> 17);
        return r;
    }
}

template <class T, std::size_t Max>
void
assigned(pbt::ctx& c, char const* type)
{
    struct heard {
        int who;
        T   v;
    };
    std::vector<heard>                              log;
    std::deque<xitren::comm::values::observed<T>>   obs;
    int const                                       ns = int(c.range(1, 6));
    std::vector<char>                               calls;
    for (int i = 0; i < ns; ++i) {
        calls.push_back(c.chance(3, 4));
        if (calls.back())
            obs.emplace_back([&log, i](T const v) { log.push_back({i, v}); });
        else
            obs.emplace_back();
    }
    auto             o = std::make_unique<xitren::comm::values::observable<T, Max>>();
    std::vector<int> reg;
    T                x = o->value();
    std::map<int, T> holds;
    unsigned         kinds = 0;
    c.op("%s values, only assigned: %s list, %d observers", type, Max ? "fixed" : "dynamic", ns);
    while (c.more(12)) {
        if (c.chance(1, 4)) {
            int const  k  = int(c.draw(ns - 1));
            auto const at = std::find(reg.begin(), reg.end(), k);
            c.op("%s %d", at == reg.end() ? "register" : "remove", k);
            if (at != reg.end()) {
                PBT_CHECK(o->remove_observer(obs[k]) == xitren::comm::observer_errors::ok, "removing a registered observer failed");
                reg.erase(at);
            } else if (o->add_observer(obs[k]) == xitren::comm::observer_errors::ok)
                reg.push_back(k);
            continue;
        }
        T const v = c.chance(1, 5) ? x : other_value<T>(c.draw(~0ULL));    // also what it holds already
        log.clear();
        bool const direct = c.chance(1, 8);
        if (direct)
            o->notify_observers(v);
        else {
            if (c.chance(1, 5)) {
                T const r = *static_cast<volatile xitren::comm::values::observable<T, Max>*>(o.get()) = v;
                PBT_CHECK(r == v, "%s: the assignment returned another value", type);
            } else {
                T const r = *o = v;
                PBT_CHECK(r == v, "%s: the assignment returned another value", type);
            }
            x = v;
        }
        c.op("%s -> %zu callbacks", direct ? "notify_observers" : "assign", log.size());
        PBT_CHECK(o->value() == x, "%s: does not hold what was assigned last", type);
        std::size_t told = 0;
        for (int k : reg) {
            holds[k]      = v;
            auto const me = [k, &v](heard const& h) { return h.who == k && h.v == v; };
            PBT_CHECK(std::count_if(log.begin(), log.end(), me) == calls[k], "%s: observer %d was called %zu times with the new value, "
                      "expected %d", type, k, std::size_t(std::count_if(log.begin(), log.end(), me)), int(calls[k]));
            told += std::size_t(calls[k]);
        }
        PBT_CHECK(told == log.size(), "%s: %zu callbacks, expected %zu", type, log.size(), told);
        for (auto& [k, want] : holds)
            PBT_CHECK(obs[k].value() == want, "%s: observed value %d is not what was sent last", type, k);
        kinds += reg.size() >= 2;
    }
    if (kinds >= 2)
        c.nontrivial();
    c.label(type);
    o.reset();
}

template <class T>
void
assigned(pbt::ctx& c, char const* type)
{
    switch (c.draw(2)) {
    case 0: return assigned<T, 0>(c, type);
    case 1: return assigned<T, 2>(c, type);
    default: return assigned<T, 6>(c, type);
    }
}

}    // namespace

void
property(pbt::ctx& c)
{
    if (c.chance(1, 10))
        switch (c.draw(3)) {
        case 0: return assigned<bool>(c, "bool");
        case 1: return assigned<mode>(c, "enum");
        case 2: return assigned<int*>(c, "pointer");
        default: return assigned<reading>(c, "record");
        }
    switch (c.draw(8)) {
    case 0: return world<int>(c, "int");
    case 1: return world<unsigned>(c, "unsigned");
    case 2: return world<std::int64_t>(c, "int64");
    case 3: return world<std::uint64_t>(c, "uint64");
    case 4: return world<std::int8_t>(c, "int8");
    case 5: return world<std::uint16_t>(c, "uint16");
    case 6: return world<std::int16_t>(c, "int16");
    case 7: return world<float>(c, "float");
    default: return world<double>(c, "double");
    }
}
