#include "obs_world.hpp"

char const* const property_rule
    = "One case is a history of registrations, removals, clears, notifications and re-creations on up to three event "
      "observables (fixed capacity 1 to 17 or 300, dynamic, stand-alone or as a base of a device class; int, string, 148-byte "
      "and derived events) sharing up to 80 or 400 observers (in a third of the cases two by two as bases of one object), against a list model. Non-trivial: a notification reached at least two "
      "observers after an observer that was neither first nor last had been removed, and an error was reported.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

template <class T>
void
world(pbt::ctx& c)
{
    using namespace ow;
    struct slot {
        std::size_t                kind;
        std::unique_ptr<target<T>> t;
        std::vector<int>           reg;
        bool                       middle_removed = false;
    };
    std::vector<event<T>> log;
    bool const            crowd   = c.chance(1, 40);
    int const             n_sinks = crowd ? int(c.range(250, 400)) : c.chance(1, 6) ? int(c.range(20, 80)) : int(c.range(1, 20));
    crew<sink<T>>        sinks(static_cast<std::size_t>(n_sinks), c.chance(1, 3));
    for (int i = 0; i < n_sinks; ++i) {
        sinks[i].log = &log;
        sinks[i].id  = i;
    }
    std::vector<slot> slots(std::size_t(c.range(1, 3)));
    for (auto& s : slots) {
        s.kind = crowd ? c.pick<std::size_t>({long_kind, 1, 7, long_kind}) : c.draw(n_kinds - 1);
        s.t    = make_target<T>(s.kind);
    }
    bool           deep = false, err = false;
    std::uint64_t  v   = c.draw(1000);
    unsigned const avg = c.pick<unsigned>({12, 30, 80});
    // with many observers a run of registrations fills the larger lists
    while (c.more(avg)) {
        auto& s = slots[c.draw(slots.size() - 1)];
        int   k = int(c.draw(std::uint64_t(n_sinks - 1)));
        auto const what = c.weighted({100, 50, crowd ? 2u : 10u, 80, crowd ? 2u : 10u, 20, 1});
        if (what == 1 && !s.reg.empty() && !c.chance(1, 3))
            k = s.reg[c.draw(s.reg.size() - 1)];
        auto at = std::find(s.reg.begin(), s.reg.end(), k);
        switch (what) {
        case 0: {
            bool const full = s.t->max && s.reg.size() >= s.t->max;
            auto const r    = s.t->add(sinks[k]);
            c.op("%s: add observer %d -> %s", s.t->name.c_str(), k, name(r));
            PBT_CHECK(add_answer_ok(r, at != s.reg.end(), full), "add of %s observer to a list of %zu (capacity %zu) "
                      "reported %s", at != s.reg.end() ? "a registered" : "an unregistered", s.reg.size(), s.t->max, name(r));
            if (r == res::ok)
                s.reg.push_back(k);
            else
                err = true;
            break;
        }
        case 1: {
            auto const r = s.t->remove(sinks[k]);
            c.op("%s: remove observer %d -> %s", s.t->name.c_str(), k, name(r));
            if (at == s.reg.end()) {
                PBT_CHECK(r == res::not_found, "remove of an unknown observer reported %s", name(r));
                err = true;
            } else {
                PBT_CHECK(r == res::ok, "remove of a registered observer reported %s", name(r));
                if (at != s.reg.begin() && at + 1 != s.reg.end())
                    s.middle_removed = true;
                s.reg.erase(at);
            }
            break;
        }
        case 2:
            c.op("%s: clear", s.t->name.c_str());
            s.t->clear();
            s.reg.clear();
            log.clear();
            break;
        case 3: {
            held<T> const data = payload<T>(++v);
            log.clear();
            auto const r = s.t->notify(data);
            c.op("%s: notify %s -> %s, %zu deliveries", s.t->name.c_str(), show(data).c_str(), name(r), log.size());
            PBT_CHECK(r == res::ok, "notification reported %s", name(r));
            std::vector<event<T>> want;
            for (int i : s.reg)
                want.push_back({'n', i, s.t->id(), see<T>(data)});
            for (std::size_t i = 0; i < std::max(want.size(), log.size()); ++i) {
                PBT_CHECK(i < log.size(), "notification reached %zu of %zu registered observers", log.size(), want.size());
                PBT_CHECK(i < want.size(), "notification made %zu calls, %zu observers registered", log.size(), want.size());
                PBT_CHECK(log[i].kind == 'n', "observer %d was disconnected by a notification", log[i].who);
                PBT_CHECK(log[i].who == want[i].who, "delivery %zu went to observer %d, registration order says %d", i,
                          log[i].who, want[i].who);
                PBT_CHECK(log[i].data == data, "observer %d heard %s, notified %s", log[i].who, show(log[i].data).c_str(),
                          show(data).c_str());
                PBT_CHECK(log[i].src == s.t->id(), "observer %d was given %p as the sender, the observable is %p",
                          log[i].who, log[i].src, s.t->id());
            }
            if (s.middle_removed && want.size() >= 2)
                deep = true;
            break;
        }
        case 4:
            c.op("%s: destroyed and created anew", s.t->name.c_str());
            s.t.reset();
            s.t = make_target<T>(s.kind);
            s.reg.clear();
            s.middle_removed = false;
            log.clear();
            break;
        case 6: {    // a long life
            std::size_t const times = c.pick<std::size_t>({20, 300, 300, 66000 / (1 + s.reg.size())});
            held<T> const     data  = payload<T>(++v);
            c.op("%s: notify %s %zu times", s.t->name.c_str(), show(data).c_str(), times);
            for (std::size_t i = 0; i < times; ++i) {
                log.clear();
                auto const r = s.t->notify(data);
                PBT_CHECK(r == res::ok, "notification %zu of the same data reported %s", i, name(r));
                PBT_CHECK(log.size() == s.reg.size(), "notification %zu of the same data made %zu calls, %zu observers "
                          "registered", i, log.size(), s.reg.size());
                for (std::size_t k = 0; k < log.size(); ++k)
                    PBT_CHECK(log[k].who == s.reg[k] && log[k].data == data && log[k].src == s.t->id(),
                              "notification %zu of the same data: delivery %zu went to observer %d with %s, expected "
                              "observer %d", i, k, log[k].who, show(log[k].data).c_str(), s.reg[k]);
            }
            log.clear();
            break;
        }
        default: {    // fill up
            int const n = int(c.draw(crowd ? 400 : c.chance(1, 4) ? 60 : 9));
            if (crowd)
                c.op("%s: add %d observers from %d on", s.t->name.c_str(), n, k);
            for (int i = 0; i < n; ++i) {
                int const j = (k + i) % n_sinks;
                bool const known = std::find(s.reg.begin(), s.reg.end(), j) != s.reg.end();
                bool const full  = s.t->max && s.reg.size() >= s.t->max;
                auto const r     = s.t->add(sinks[j]);
                if (!crowd)
                    c.op("%s: add observer %d -> %s", s.t->name.c_str(), j, name(r));
                PBT_CHECK(add_answer_ok(r, known, full), "add of %s observer to a list of %zu (capacity %zu) reported %s",
                          known ? "a registered" : "an unregistered", s.reg.size(), s.t->max, name(r));
                if (r == res::ok)
                    s.reg.push_back(j);
                else
                    err = true;
            }
            break;
        }
        }
    }
    if (deep && err)
        c.nontrivial();
    if (deep)
        c.label("delivery after removal from the middle");
    if (err)
        c.label("an error was reported");
    // observers are outlived by the observables' disconnects
    for (auto& s : slots)
        s.t.reset();
}

}    // namespace

void
property(pbt::ctx& c)
{
    switch (c.draw(3)) {
    case 0: return world<int>(c);
    case 1: return world<std::string>(c);
    case 2: return world<ow::poly>(c);
    default: return world<ow::big>(c);
    }
}
