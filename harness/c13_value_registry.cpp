#include "val_ops.hpp"

char const* const property_rule
    = "One case is a history of registrations, removals, clears and updates on up to three observable values (fixed "
      "capacity 1 to 16 or 300, dynamic) sharing up to 40 or 400 observers, against a list model; removed observers are sometimes "
      "destroyed on the spot. Non-trivial: an update reached at least two observers after one that was neither first nor "
      "last was removed, and some observer was registered again after its removal.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

using namespace vw;

template <class T>
void
world(pbt::ctx& c)
{
    struct slot {
        std::unique_ptr<vtarget<T>> t;
        std::size_t                 kind;
        std::vector<int>            reg, gone;
        bool                        middle = false;
    };
    std::vector<vevent<T>>                 log;
    bool const                             crowd = c.chance(1, 40);
    int const                              ns = crowd ? int(c.range(250, 400)) : c.chance(1, 6) ? int(c.range(18, 40)) : int(c.range(1, 18));
    std::vector<std::shared_ptr<probe<T>>> probes(static_cast<std::size_t>(ns));
    auto                                   fresh = [&](int i) {
        probes[i] = std::make_shared<probe<T>>([&log, i](T const v) { log.push_back({'u', i, nullptr, v}); });
        probes[i]->log = &log;
        probes[i]->id  = i;
    };
    for (int i = 0; i < ns; ++i)
        fresh(i);
    if (c.chance(1, 3))    // two by two as the bases of one object
        for (int i = 0; i + 1 < ns; i += 2) {
            struct left : probe<T> {
                std::uint64_t more{};
            };
            struct right : probe<T> {};
            struct twin : left, right {};
            auto const both = std::make_shared<twin>();
            probes[i]       = {both, static_cast<left*>(both.get())};
            probes[i + 1]   = {both, static_cast<right*>(both.get())};
            for (int k : {i, i + 1}) {
                probes[k]->on_update([&log, k](T const v) { log.push_back({'u', k, nullptr, v}); });
                probes[k]->log = &log;
                probes[k]->id  = k;
            }
        }
    std::vector<slot> slots(std::size_t(c.range(1, 3)));
    for (auto& s : slots) {
        s.kind = crowd ? c.pick<std::size_t>({long_vkind, 1, long_vkind, 5}) : c.draw(n_vkinds - 1);
        s.t    = make_vtarget<T>(s.kind);
    }
    bool deep = false, again = false, err = false;
    auto anywhere = [&](int k) {
        for (auto& s : slots)
            if (std::count(s.reg.begin(), s.reg.end(), k))
                return true;
        return false;
    };
    auto add = [&](slot& s, int k) {
        bool const known = std::count(s.reg.begin(), s.reg.end(), k) > 0;
        bool const full  = s.t->max && s.reg.size() >= s.t->max;
        auto const r     = s.t->add(*probes[k]);
        if (!crowd)
            c.op("%s: register %d -> %s", s.t->name.c_str(), k, ow::name(r));
        PBT_CHECK(ow::add_answer_ok(r, known, full), "registering %s observer in a list of %zu (capacity %zu) reported %s",
                  known ? "a registered" : "an unregistered", s.reg.size(), s.t->max, ow::name(r));
        if (r == res::ok) {
            s.reg.push_back(k);
            again |= std::count(s.gone.begin(), s.gone.end(), k) > 0;
        } else
            err = true;
    };
    unsigned const avg = c.pick<unsigned>({12, 30, 80});
    while (c.more(avg)) {
        auto& s = slots[c.draw(slots.size() - 1)];
        int   k = int(c.draw(ns - 1));
        switch (c.weighted({90, 60, crowd ? 2u : 10u, 80, crowd ? 2u : 10u, 20, 1})) {
        case 0:
            if (!s.gone.empty() && c.chance(1, 2))
                k = s.gone[c.draw(s.gone.size() - 1)];
            add(s, k);
            break;
        case 1: {
            if (!s.reg.empty() && !c.chance(1, 3))
                k = s.reg[c.draw(s.reg.size() - 1)];
            auto       at = std::find(s.reg.begin(), s.reg.end(), k);
            auto const r  = s.t->remove(*probes[k]);
            c.op("%s: remove %d -> %s", s.t->name.c_str(), k, ow::name(r));
            if (at == s.reg.end()) {
                PBT_CHECK(r == res::not_found, "removing an unknown observer reported %s", ow::name(r));
                err = true;
                break;
            }
            PBT_CHECK(r == res::ok, "removing a registered observer reported %s", ow::name(r));
            if (at != s.reg.begin() && at + 1 != s.reg.end())
                s.middle = true;
            s.reg.erase(at);
            s.gone.push_back(k);
            if (!anywhere(k) && c.chance(1, 3)) {
                c.op("observer %d is destroyed", k);
                fresh(k);
                for (auto& x : slots)
                    std::erase(x.gone, k);
            }
            break;
        }
        case 2:
            c.op("%s: clear", s.t->name.c_str());
            s.t->clear();
            s.reg.clear();
            break;
        case 3: {
            auto const o = vop(c.draw(n_vops - 1));
            T const    v = T(c.range(-100, 100));
            log.clear();
            if (c.chance(1, 6)) {
                auto const r = s.t->notify(v);
                c.op("%s: notify_observers(%s)", s.t->name.c_str(), show(v).c_str());
                PBT_CHECK(r == res::ok, "notify_observers reported %s", ow::name(r));
                for (auto& e : log)
                    PBT_CHECK(e.v == v, "observer %d heard %s, notified %s", e.who, show(e.v).c_str(), show(v).c_str());
            } else {
                real(o, *s.t, v, operand<T>{v});
                T const now = s.t->value();
                c.op("%s: %s -> holds %s, %zu callbacks", s.t->name.c_str(), name(o), show(now).c_str(), log.size());
                for (auto& e : log)
                    PBT_CHECK(e.v == now, "observer %d heard %s, the value is %s", e.who, show(e.v).c_str(),
                              show(now).c_str());
            }
            for (std::size_t i = 0; i < std::max(log.size(), s.reg.size()); ++i) {
                PBT_CHECK(i < log.size(), "an update reached %zu of %zu registered observers", log.size(), s.reg.size());
                PBT_CHECK(i < s.reg.size(), "an update made %zu calls, %zu observers are registered", log.size(),
                          s.reg.size());
                PBT_CHECK(log[i].kind == 'u', "observer %d was disconnected by an update", log[i].who);
                PBT_CHECK(log[i].who == s.reg[i], "delivery %zu went to observer %d, registration order says %d", i,
                          log[i].who, s.reg[i]);
            }
            deep |= s.middle && s.reg.size() >= 2;
            break;
        }
        case 4:
            c.op("%s: destroyed and created anew", s.t->name.c_str());
            s.t.reset();
            s.t = make_vtarget<T>(s.kind);
            s.reg.clear();
            s.gone.clear();
            s.middle = false;
            break;
        case 6: {    // a long life
            std::size_t const times = c.pick<std::size_t>({20, 300, 300, 66000 / (1 + s.reg.size())});
            T                 now   = s.t->assign(T(c.range(-9, 9)));
            c.op("%s: %zu increments from %s on", s.t->name.c_str(), times, show(now).c_str());
            for (std::size_t i = 0; i < times; ++i) {
                log.clear();
                s.t->pre_inc();
                ++now;
                PBT_CHECK(log.size() == s.reg.size(), "increment %zu made %zu calls, %zu observers registered", i, log.size(),
                          s.reg.size());
                for (std::size_t k = 0; k < log.size(); ++k)
                    PBT_CHECK(log[k].kind == 'u' && log[k].who == s.reg[k] && log[k].v == now,
                              "increment %zu: delivery %zu went to observer %d with %s, expected observer %d with %s", i, k,
                              log[k].who, show(log[k].v).c_str(), s.reg[k], show(now).c_str());
            }
            break;
        }
        default: {
            int const n = int(c.draw(crowd ? 400 : c.chance(1, 4) ? 40 : 8));
            if (crowd)
                c.op("%s: register %d observers from %d on", s.t->name.c_str(), n, k);
            for (int i = 0; i < n; ++i)
                add(s, (k + i) % ns);
        }
        }
    }
    if (deep && again)
        c.nontrivial();
    if (deep)
        c.label("update after removal from the middle");
    if (again)
        c.label("registered again after removal");
    if (err)
        c.label("an error was reported");
    for (auto& s : slots)
        s.t.reset();
}

}    // namespace

void
property(pbt::ctx& c)
{
    if (c.chance(1, 2))
        world<std::int64_t>(c);
    else
        world<int>(c);
}
