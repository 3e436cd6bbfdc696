#include "obs_world.hpp"

char const* const property_rule
    = "One case wires 2 to 5 observables (mostly fixed capacity, some dynamic) and up to 8 observers whose callbacks follow "
      "generated scripts: notify this or another observable again, register or remove an observer on an idle one. A "
      "recursive reference model predicts every delivery and every result of every top-level notification. Non-trivial: "
      "a recursion was refused through at least one observable in between, or while further observers were still to be "
      "served, and an idle observable was notified from a callback.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

using namespace ow;

struct action {
    int what;    // 0 notify, 1 add, 2 remove
    int tgt;
    int sink;
    int data;
    int times;    // in a row
};
struct step {    // what happened, in order
    char        kind;    // 'n' delivery, 'r' result of an inner call
    int         who;
    void const* src;
    int         data;
    res         r;
    friend bool
    operator==(step const&, step const&)
        = default;
};

struct mirror {
    std::vector<int> reg;
    int              inside = 0;
    std::size_t      max    = 0;
    void const*      id     = nullptr;
    bool
    dynamic() const
    {
        return max == 0;
    }
};

std::string
text(std::vector<step> const& v)
{
    std::string s;
    for (auto& e : v) {
        if (e.kind == 'n')
            s += "[" + std::to_string(e.who) + " hears " + std::to_string(e.data) + "] ";
        else
            s += std::string("(") + name(e.r) + ") ";
        if (s.size() > 900)
            return s + "...";
    }
    return s;
}

}    // namespace

void
property(pbt::ctx& c)
{
    int const nt = int(c.range(2, 5)), ns = int(c.range(1, 8));
    std::vector<std::unique_ptr<target<int>>> tg;
    std::vector<mirror>                       mi(static_cast<std::size_t>(nt));
    for (int i = 0; i < nt; ++i) {
        tg.push_back(make_target<int>(c.pick<std::size_t>({4, 5, 6, 8, 3, 2, 1, 7})));
        mi[i].max = tg[i]->max;
        mi[i].id  = tg[i]->id();
        c.op("observable %d: %s", i, tg[i]->name.c_str());
    }
    std::vector<event<int>>          log;
    std::vector<std::vector<action>> script(static_cast<std::size_t>(ns));
    crew<sink<int>>                 sinks(static_cast<std::size_t>(ns), c.chance(1, 4));

    std::vector<step>   real, want;
    int                 budget = 0;
    std::vector<mirror> now;    // the state the real side believes in, to keep it out of undefined ground
    bool                refused_deep = false, refused_early = false, idle_notified = false;
    std::vector<int>    stack;

    // the mutations allowed: never of a list that is being walked
    auto allowed = [](std::vector<mirror> const& m, action const& a) {
        auto const& t = m[std::size_t(a.tgt)];
        if (a.what == 0)
            return !(t.dynamic() && t.inside);    // a dynamic observable has no recursion guard
        return t.inside == 0;
    };
    auto mutate = [](mirror& t, action const& a) {
        auto at = std::find(t.reg.begin(), t.reg.end(), a.sink);
        if (a.what == 1) {
            if (at != t.reg.end())
                return res::already;
            if (t.max && t.reg.size() >= t.max)
                return res::full;
            t.reg.push_back(a.sink);
            return res::ok;
        }
        if (at == t.reg.end())
            return res::not_found;
        t.reg.erase(at);
        return res::ok;
    };

    // --- the real side
    std::vector<std::function<void(void const*, int const&)>> inside(static_cast<std::size_t>(ns));
    for (int i = 0; i < ns; ++i) {
        sinks[i].log    = &log;
        sinks[i].id     = i;
        sinks[i].inside = &inside[i];
        inside[i]       = [&, i](void const* src, int const& d) {
            real.push_back({'n', i, src, d, res::ok});
            for (auto const& a : script[i])
                for (int n = 0; n < a.times; ++n) {
                if (!allowed(now, a) || --budget < 0)
                    continue;
                auto& t = *tg[a.tgt];
                if (a.what == 0) {
                    bool const busy = now[a.tgt].inside != 0;
                    now[a.tgt].inside++;
                    res const r = t.notify(a.data);
                    now[a.tgt].inside--;
                    (void)busy;
                    real.push_back({'r', i, nullptr, 0, r});
                } else {
                    auto const full  = now[a.tgt].max && now[a.tgt].reg.size() >= now[a.tgt].max;
                    auto const known = std::count(now[a.tgt].reg.begin(), now[a.tgt].reg.end(), a.sink) > 0;
                    res        r     = a.what == 1 ? t.add(sinks[a.sink]) : t.remove(sinks[a.sink]);
                    if (a.what == 1 && full && known && r == res::full)
                        r = res::already;    // both are documented
                    mutate(now[a.tgt], a);
                    real.push_back({'r', i, nullptr, 0, r});
                }
            }
        };
    }
    // --- the model
    int                                          wbudget = 0;
    std::function<res(std::vector<mirror>&, int, int)> run = [&](std::vector<mirror>& m, int t, int d) -> res {
        auto& me = m[t];
        if (me.inside && !me.dynamic()) {
            refused_deep |= stack.size() >= 2 && stack.back() != t;
            return res::recursion;
        }
        if (!stack.empty())
            idle_notified = true;
        me.inside++;
        stack.push_back(t);
        auto const reg = me.reg;    // nothing may change a list that is being walked
        for (std::size_t k = 0; k < reg.size(); ++k) {
            int const w = reg[k];
            want.push_back({'n', w, me.id, d, res::ok});
            for (auto const& a : script[w])
                for (int n = 0; n < a.times; ++n) {
                if (!allowed(m, a) || --wbudget < 0)
                    continue;
                if (a.what == 0) {
                    res const r = run(m, a.tgt, a.data);
                    if (r == res::recursion && k + 1 < reg.size())
                        refused_early = true;
                    want.push_back({'r', w, nullptr, 0, r});
                } else
                    want.push_back({'r', w, nullptr, 0, mutate(m[a.tgt], a)});
            }
        }
        stack.pop_back();
        me.inside--;
        return res::ok;
    };

    for (int i = 0; i < ns; ++i) {
        while (c.more(1) && script[i].size() < 4) {
            action a{int(c.weighted({7, 1, 1})), int(c.draw(nt - 1)), int(c.draw(ns - 1)), int(c.draw(99)), c.chance(1, 150) ? 300 : 1};
            script[i].push_back(a);
            c.op("observer %d, when called: %s %d%s", i,
                 a.what == 0 ? "notify observable" : a.what == 1 ? "register someone at" : "remove someone from", a.tgt,
                 a.times > 1 ? ", 300 times" : "");
        }
    }
    unsigned const avg = c.pick<unsigned>({10, 25, 50});
    while (c.more(avg)) {
        int const t = int(c.draw(nt - 1));
        action    a{int(c.weighted({5, 6, 1, 1})), t, int(c.draw(ns - 1)), int(c.draw(999)), 1};
        if (a.what == 0) {
            auto m = mi;
            now    = mi;
            want.clear();
            real.clear();
            log.clear();
            wbudget = budget = c.chance(1, 8) ? 700 : 250;
            res const w = run(m, t, a.data);
            now[t].inside++;
            res const r = tg[t]->notify(a.data);
            c.op("notify observable %d with %d -> %s", t, a.data, name(r));
            PBT_CHECK(r == w, "an outermost notification reported %s", name(r));
            PBT_CHECK(real == want, "expected %s\nwhat happened: %s", text(want).c_str(), text(real).c_str());
            PBT_CHECK(std::none_of(log.begin(), log.end(), [](auto& e) { return e.kind == 'd'; }),
                      "a notification disconnected somebody");
            for (auto& x : m)
                x.inside = 0;
            mi = m;
        } else if (a.what == 3) {
            mi[t].reg.clear();
            tg[t]->clear();
            c.op("clear observable %d", t);
        } else {
            bool const known = std::count(mi[t].reg.begin(), mi[t].reg.end(), a.sink) > 0;
            bool const full  = mi[t].max && mi[t].reg.size() >= mi[t].max;
            res        r     = a.what == 1 ? tg[t]->add(sinks[a.sink]) : tg[t]->remove(sinks[a.sink]);
            c.op("%s observer %d at observable %d -> %s", a.what == 1 ? "register" : "remove", a.sink, t, name(r));
            if (a.what == 1 && known && full && r == res::full)
                r = res::already;
            res const w = mutate(mi[t], a);
            PBT_CHECK(r == w, "the registration call reported %s, expected %s", name(r), name(w));
        }
    }
    if ((refused_deep || refused_early) && idle_notified)
        c.nontrivial();
    if (refused_deep)
        c.label("recursion refused through another observable");
    if (refused_early)
        c.label("refused with observers still to serve");
    tg.clear();
}
