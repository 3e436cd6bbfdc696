#include "med_world.hpp"

char const* const property_rule
    = "One case registers up to 20 modules of 16 send/receive combinations over 9 message types (1 to 300 and 66001 bytes; names up to "
      "260 characters long that differ in one letter; three of "
      "identical layout) with a manager, then sends messages from modules and through the manager; generated scripts make "
      "modules send again from inside a handler. Deliveries (module, handler, bytes, order) and the manager's hook are "
      "compared with a recursive reference. Non-trivial: a message reached two or more modules, skipped one that lists its "
      "type but sends it itself, and a message was sent from inside a handler.";
bool const property_flaky = false;
void
known_findings()
{}

void
property(pbt::ctx& c)
{
    using namespace mw;
    auto                                   m = make_mgr(c.draw(n_mgrs - 1));
    hub                                    h;
    std::vector<std::unique_ptr<mod_base>> mods;
    std::size_t const                      n = 1 + c.draw(std::min<std::size_t>(m->cap, 20) - 1);
    for (std::size_t i = 0; i < n; ++i) {
        int const k = draw_kind(c);
        mods.push_back(make_mod(k, m->base(), h, int(i)));
        std::string r;
        for (int t : mods.back()->receives)
            r += std::to_string(t) + " ";
        c.op("module %zu sends type %d, receives %s", i, mods.back()->sends, r.c_str());
    }
    // scripts: (module, type heard) -> another message of its own, through itself or through the manager
    struct act {
        bool          on;
        int           via;    // -1: itself; else a type through the manager
        std::uint64_t seed;
    };
    std::map<std::pair<int, int>, act> script;
    for (std::size_t i = 0; i < n; ++i)
        for (int t : mods[i]->receives)
            if (c.chance(1, 4)) {
                script[{int(i), t}] = {true, c.chance(1, 3) ? draw_type(c) : -1, c.draw(20)};
                c.op("module %zu sends %s when it hears type %d", i,
                     script[{int(i), t}].via < 0 ? "its own type" : "through the manager", t);
            }
    std::vector<delivery>  want;
    std::vector<hook_call> want_hooks;
    bool                   wide = false, skipped = false, nested = false;
    int                    budget = 0, depth = 0, serial = 0;

    std::map<int, std::vector<std::string>> images;    // by type, to build the reference bytes
    std::function<void(int, int, std::string const&)> model = [&](int sender, int type, std::string const& data) {
        if (sender >= 0)
            want_hooks.push_back({mods[sender]->sender_id(), data});
        int got = 0;
        for (auto& mod : mods) {
            if (mod->sends == type && std::count(mod->receives.begin(), mod->receives.end(), type))
                skipped = true;
            if (!wants(*mod, type))
                continue;
            ++got;
            want.push_back({mod->id, type, data});
            auto it = script.find({mod->id, type});
            if (it != script.end() && budget > 0 && depth < 5) {
                --budget;
                ++depth;
                nested = true;
                auto const s = std::uint8_t(++serial);
                if (it->second.via < 0)
                    model(mod->id, mod->sends, mod->image(s, it->second.seed));
                else {
                    std::string b;
                    mgr<1>::with_type(it->second.via, [&]<class M>() { b = bytes(make<M>(s, it->second.seed)); });
                    model(-1, it->second.via, b);
                }
                --depth;
            }
        }
        wide |= got >= 2;
    };
    int rbudget = 0, rdepth = 0, rserial = 0;
    h.inside = [&](int who, int type, std::uint8_t) {
        auto it = script.find({who, type});
        if (it == script.end() || rbudget <= 0 || rdepth >= 5)
            return;
        --rbudget;
        ++rdepth;
        auto const s = std::uint8_t(++rserial);
        if (it->second.via < 0)
            mods[who]->fire(s, it->second.seed);
        else
            m->send(it->second.via, s, it->second.seed);
        --rdepth;
    };
    unsigned const avg = c.pick<unsigned>({4, 12});
    while (c.more(avg)) {
        h.log.clear();
        m->hooks.clear();
        want.clear();
        want_hooks.clear();
        budget = rbudget = 25;
        depth = rdepth = 0;
        serial = rserial = int(c.draw(200));
        auto const          s    = std::uint8_t(serial);
        std::uint64_t const seed = c.draw(50);
        std::string         data;
        int                 type;
        if (c.chance(1, 3)) {
            type = draw_type(c);
            data = m->send(type, s, seed);
            c.op("manager sends type %d, serial %d -> %zu deliveries", type, int(s), h.log.size());
            model(-1, type, data);
        } else {
            int const w = int(c.draw(n - 1));
            type        = mods[w]->sends;
            data        = mods[w]->image(s, seed);
            mods[w]->fire(s, seed);
            c.op("module %d sends type %d, serial %d -> %zu deliveries", w, type, int(s), h.log.size());
            model(w, type, data);
        }
        for (std::size_t i = 0; i < std::min(h.log.size(), want.size()); ++i)
            PBT_CHECK(h.log[i] == want[i],
                      "delivery %zu differs (%s)\nexpected %s\nhappened %s", i,
                      h.log[i].who != want[i].who     ? "module"
                      : h.log[i].type != want[i].type ? "handler"
                                                      : "bytes",
                      text(want).c_str(), text(h.log).c_str());
        PBT_CHECK(h.log.size() == want.size(), "%zu deliveries, expected %zu\nexpected %s\nhappened %s", h.log.size(),
                  want.size(), text(want).c_str(), text(h.log).c_str());
        PBT_CHECK(m->hooks.size() == want_hooks.size(), "the manager's hook ran %zu times for %zu module messages",
                  m->hooks.size(), want_hooks.size());
        for (std::size_t i = 0; i < want_hooks.size(); ++i) {
            PBT_CHECK(m->hooks[i].id == want_hooks[i].id, "the hook was given a wrong sender id");
            PBT_CHECK(m->hooks[i].data == want_hooks[i].data, "the hook was given different bytes");
        }
        // what the hook uses to make sense of the bytes
        auto const back = m->convert(type, data);
        PBT_CHECK(back && *back == data, "converting a message's bytes to its type changed them");
        for (int t = 0; t < n_types; ++t) {
            std::size_t sz = 0;
            mgr<1>::with_type(t, [&]<class M>() { sz = sizeof(M); });
            PBT_CHECK(m->convert(t, data).has_value() == (sz == data.size()),
                      "%zu bytes were %s as a type of %zu bytes", data.size(), sz == data.size() ? "refused" : "accepted", sz);
        }
    }
    if (wide && skipped && nested)
        c.nontrivial();
    if (nested)
        c.label("sent from inside a handler");
    if (wide)
        c.label("two or more receivers");
    if (skipped)
        c.label("a receiver that sends the same type");
}
