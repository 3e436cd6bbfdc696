#include "med_world.hpp"

char const* const property_rule
    = "One case is a history of module constructions and destructions (any order, up to and beyond the capacity of 1 to 32, or 280) "
      "on up to two managers; after each step a message sent through each manager, and sometimes one sent by a module, must "
      "reach exactly the living modules that want it, in construction order. Non-trivial: a construction was refused at "
      "capacity, a module that was neither first nor last was destroyed, and a module was constructed afterwards.";
bool const property_flaky = false;
void
known_findings()
{}

void
property(pbt::ctx& c)
{
    using namespace mw;
    struct side {
        std::unique_ptr<mgr_base>              m;
        std::vector<std::unique_ptr<mod_base>> mods{};
        bool                                   refused = false, middle = false, after = false;
    };
    hub               h;
    std::vector<side> sides(1 + c.draw(1));
    bool const crowd = c.chance(1, 60);
    for (auto& s : sides) {
        s.m = make_mgr(crowd ? big_mgr : c.draw(n_mgrs - 1));
        c.op("manager for %zu modules", s.m->cap);
    }
    int  next   = 0;
    int  serial = 0;
    auto probe  = [&](char const* when) {
        for (auto& s : sides) {
            int const type = draw_type(c);
            for (int from = -1; from < (c.chance(1, 3) ? 0 : -1) + 1; ++from) {
                std::vector<delivery> want;
                h.log.clear();
                int         t = type;
                std::string data;
                if (from >= 0 && !s.mods.empty()) {
                    auto& sender = *s.mods[c.draw(s.mods.size() - 1)];
                    t            = sender.sends;
                    data         = sender.image(std::uint8_t(++serial), 5);
                    sender.fire(std::uint8_t(serial), 5);
                } else
                    data = s.m->send(t, std::uint8_t(++serial), 3);
                for (auto& mod : s.mods)
                    if (wants(*mod, t))
                        want.push_back({mod->id, t, data});
                PBT_CHECK(h.log == want, "%s: a message should have been heard so: %s\nbut: %s", when, text(want).c_str(),
                          text(h.log).c_str());
            }
        }
    };
    auto construct = [&](side& s) {
        // kinds 4 and 8 hear nearly everything
        int const k    = c.chance(2, 3) ? (c.chance(1, 2) ? 4 : 8) : draw_kind(c);
        bool      done = false;
        try {
            s.mods.push_back(make_mod(k, s.m->base(), h, next));
            done = true;
        } catch (std::exception const&) {
        }
        c.op("construct module %d in a manager with %zu of %zu -> %s", next, s.mods.size() - done, s.m->cap,
             done ? "ok" : "refused");
        PBT_CHECK(done == (s.mods.size() - done < s.m->cap), "constructing a module beyond %zu of %zu was %s",
                  s.mods.size() - done, s.m->cap, done ? "accepted" : "refused");
        ++next;
        if (!done)
            s.refused = true;
        else if (s.middle)
            s.after = true;
    };
    unsigned const avg = c.pick<unsigned>({12, 40});
    while (c.more(avg)) {
        auto& s = sides[c.draw(sides.size() - 1)];
        switch (c.weighted({6, 5, 2, 1})) {
        case 0:
            construct(s);
            probe("after a construction");
            break;
        case 1: {
            if (s.mods.empty())
                break;
            std::size_t const i = c.draw(s.mods.size() - 1);
            c.op("destroy module %d, position %zu of %zu", s.mods[i]->id, i, s.mods.size());
            if (i > 0 && i + 1 < s.mods.size())
                s.middle = true;
            auto dying = std::move(s.mods[i]);
            s.mods.erase(s.mods.begin() + long(i));
            dying.reset();
            probe("after a destruction");
            break;
        }
        case 2:    // up to the brim
            for (std::size_t i = s.mods.size(); i < s.m->cap + 1; ++i)
                construct(s);
            probe("after filling up");
            break;
        default:
            for (std::size_t stop = crowd ? c.draw(s.mods.size()) : 0; s.mods.size() > stop;) {
                std::size_t const i     = c.draw(s.mods.size() - 1);
                auto              dying = std::move(s.mods[i]);
                s.mods.erase(s.mods.begin() + long(i));
                c.op("destroy module %d", dying->id);
                dying.reset();
                if (!crowd || c.chance(1, 20))
                    probe("while emptying");
            }
            break;
        }
    }
    for (auto& s : sides) {
        if (s.refused && s.middle && s.after)
            c.nontrivial();
        if (s.refused)
            c.label("refused at capacity");
        if (s.middle)
            c.label("destroyed from the middle");
        s.mods.clear();
    }
    probe("with no module left");
}
