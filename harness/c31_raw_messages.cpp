// C31: messages given as raw bytes: only the exact size of the type the id stands for is delivered.
#include "med_world.hpp"

#include <typeinfo>

char const* const property_rule
    = "One case registers up to 12 modules with a manager, some of them plain base modules under a type's name or a name of "
      "their own, (some of which answer from inside with a message of their own) and offers them raw messages: directly, through the manager's distribute and send, of every type's size, one "
      "to either side, zero, multiples and random sizes, in buffers of exactly the stated size; deliveries, their order and "
      "bytes and the manager's hook are compared with a reference, the sender's bytes are looked at during every delivery, and raw bytes are converted back to values. Non-trivial: a "
      "module that receives the type was offered it with a wrong size and with the right one, and a plain module heard it too.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {
using namespace mw;

struct raw_heard {
    int         who;
    std::size_t id;
    std::string data;
    friend bool
    operator==(raw_heard const&, raw_heard const&)
        = default;
};

struct raw_module final : xc::base::module {
    std::vector<raw_heard>* log;
    int                     who;
    std::string             answer{};    // what it distributes on hearing something
    int*                    depth{};
    raw_module(std::string const& name, xc::base::manager& m, std::vector<raw_heard>* l, int w)
        : xc::base::module(name, &m), log{l}, who{w}
    {
        mediator_->add_module(*this);
    }
    ~raw_module() override { mediator_->remove_module(*this); }
    void
    receive(std::size_t id, std::uint8_t* p, std::size_t n) override
    {
        std::string const before(reinterpret_cast<char*>(p), n);
        log->push_back({who, id, before});
        if (!answer.empty() && *depth < 2) {
            ++*depth;
            std::string copy = answer;
            send(reinterpret_cast<std::uint8_t*>(copy.data()), copy.size());
            --*depth;
        }
        PBT_CHECK(std::string_view(reinterpret_cast<char*>(p), n) == before, "the bytes given to module %d changed while it held them", who);
    }
    void
    send(std::uint8_t* p, std::size_t n) override
    {
        mediator_->distribute(*this, p, n);
    }
};

std::size_t const sizes[n_types]
    = {sizeof(m0), sizeof(m1), sizeof(m2), sizeof(m3), sizeof(m4), sizeof(m5), sizeof(m6), sizeof(m7),
       sizeof(m8)};
char const* const names[n_types] = {typeid(m0).name(), typeid(m1).name(), typeid(m2).name(), typeid(m3).name(),
                                    typeid(m4).name(), typeid(m5).name(), typeid(m6).name(), typeid(m7).name(),
                                    typeid(m8).name()};

struct member {
    std::unique_ptr<mod_base>   typed{};
    std::unique_ptr<raw_module> raw{};
    xc::base::module*
    base() const
    {
        return typed ? dynamic_cast<xc::base::module*>(typed.get()) : raw.get();
    }
};

std::string
show(std::vector<delivery> const& a, std::vector<raw_heard> const& b)
{
    std::string s;
    for (auto& d : a)
        s += "[module " + std::to_string(d.who) + " type " + std::to_string(d.type) + ", " + std::to_string(d.data.size()) + " bytes] ";
    for (auto& d : b)
        s += "[plain module " + std::to_string(d.who) + ", " + std::to_string(d.data.size()) + " bytes] ";
    return s;
}
}    // namespace

void
property(pbt::ctx& c)
{
    auto                   m = make_mgr(c.chance(3, 4) ? 4 + c.draw(2) : c.draw(n_mgrs - 1));
    hub                    h;
    std::vector<raw_heard> heard;
    std::vector<member>    all;
    int                    depth = 0;
    std::size_t const      n = 1 + c.draw(std::min<std::size_t>(m->cap, 12) - 1);
    for (std::size_t i = 0; i < n; ++i) {
        member x;
        if (c.chance(1, 3)) {
            int const t = int(c.draw(n_types));
            x.raw       = std::make_unique<raw_module>(t < n_types ? names[t] : "plain " + std::to_string(c.draw(3)), m->base(), &heard, int(i));
            c.op("module %zu is plain, under %s", i, t < n_types ? ("the name of type " + std::to_string(t)).c_str() : "a name of its own");
            x.raw->depth = &depth;
            if (c.chance(1, 4)) {
                std::size_t const len = c.chance(1, 2) && t < n_types ? sizes[t] : 1 + c.draw(20);
                for (std::size_t k = 0; k < len; ++k)
                    x.raw->answer += char(pbt::mix(i * 100000 + k));
                c.op("  and answers with %zu bytes", len);
            }
        } else {
            x.typed = make_mod(draw_kind(c), m->base(), h, int(i));
            std::string r;
            for (int t : x.typed->receives)
                r += std::to_string(t) + " ";
            c.op("module %zu sends type %d, receives %s", i, x.typed->sends, r.c_str());
        }
        all.push_back(std::move(x));
    }
    // what an id stands for: a type, or nothing
    auto type_of = [&](std::size_t id) {
        for (int t = 0; t < n_types; ++t)
            if (std::hash<std::string>{}(names[t]) == id)
                return t;
        return -1;
    };
    bool right = false, wrong = false, plain = false, answered = false;
    while (c.more(25)) {
        // the message
        int const   t  = draw_type(c);
        std::size_t sz = sizes[t];
        switch (c.weighted({12, 6, 6, 2, 4, 4, 4, 1})) {
        case 1: sz -= 1; break;
        case 2: sz += 1 + c.draw(1) * 7; break;
        case 3: sz = 0; break;
        case 4: sz *= 2; break;
        case 5: sz = sizes[draw_type(c)]; break;
        case 7: sz += c.pick<std::size_t>({256, 512, 65536}); break;    // equal when counted in fewer bits
        case 6: sz = c.draw(400); break;
        default: break;
        }
        std::unique_ptr<std::uint8_t[]> buf{new std::uint8_t[sz]};
        std::uint64_t const             seed = c.draw(255);
        for (std::size_t i = 0; i < sz; ++i)
            buf[i] = seed == 0 ? 0 : seed == 1 ? 0xff : std::uint8_t(pbt::mix(seed * 1000 + i));
        std::string            data(reinterpret_cast<char*>(buf.get()), sz);
        std::vector<delivery>  want;
        std::vector<raw_heard> want_raw;
        std::vector<hook_call> want_hook;
        h.log.clear();
        heard.clear();
        m->hooks.clear();
        int                                                                level = 0;
        std::function<void(std::size_t, std::size_t, std::string const&)> offer;
        auto everyone = [&](std::size_t id, std::string const& data) {
            for (std::size_t i = 0; i < n; ++i)
                if (all[i].base()->id_ != id)
                    offer(i, id, data);
        };
        offer = [&](std::size_t i, std::size_t id, std::string const& data) {    // what module i makes of it
            int const ty = type_of(id);
            if (all[i].raw) {
                want_raw.push_back({int(i), id, data});
                plain = true;
                if (!all[i].raw->answer.empty() && level < 2) {
                    ++level;
                    want_hook.push_back({all[i].base()->id_, all[i].raw->answer});
                    everyone(all[i].base()->id_, all[i].raw->answer);
                    --level;
                    answered = true;
                }
                return;
            }
            auto const& r = all[i].typed->receives;
            if (ty < 0 || std::count(r.begin(), r.end(), ty) == 0)
                return;
            if (sizes[ty] == data.size()) {
                want.push_back({int(i), ty, data});
                right = true;
            } else
                wrong = true;
        };
        h.look = nullptr;
        auto const watch = [&] {    // whoever hears something finds the sender's bytes as they were
            h.look = [p = buf.get(), sz, &data](int who) {
                PBT_CHECK(std::memcmp(p, data.data(), sz) == 0, "the sender's bytes are changed while module %d is told", who);
            };
        };
        switch (c.weighted({5, 5, 2, 2})) {
        case 0: {    // straight to one module
            std::size_t const i  = c.draw(n - 1);
            std::size_t       id = std::hash<std::string>{}(names[t]);
            if (c.chance(1, 5))
                id = c.chance(1, 2) ? id ^ (std::size_t(1) << c.draw(63)) : c.draw(~0ULL);
            c.op("module %zu is given %zu bytes as type %d", i, sz, type_of(id));
            offer(i, id, data);
            watch();
            all[i].base()->receive(id, buf.get(), sz);
            PBT_CHECK(std::memcmp(buf.get(), data.data(), sz) == 0, "receiving changed the sender's bytes");
            break;
        }
        case 1: {    // distributed on behalf of a module, whatever that module sends
            std::size_t const i = c.draw(n - 1);
            c.op("%zu bytes distributed for module %zu (type %d)", sz, i, type_of(all[i].base()->id_));
            if (c.chance(1, 2)) {    // of the size its receivers expect
                int const ty = type_of(all[i].base()->id_);
                if (ty >= 0 && sizes[ty] <= sz) {
                    // keep the buffer exact
                    std::unique_ptr<std::uint8_t[]> b2{new std::uint8_t[sizes[ty]]};
                    std::copy_n(buf.get(), sizes[ty], b2.get());
                    buf = std::move(b2);
                    sz  = sizes[ty];
                    data.resize(sz);
                }
            }
            want_hook.push_back({all[i].base()->id_, data});
            everyone(all[i].base()->id_, data);
            watch();
            m->base().distribute(*all[i].base(), buf.get(), sz);
            PBT_CHECK(std::memcmp(buf.get(), data.data(), sz) == 0, "distributing changed the sender's bytes");
            break;
        }
        case 2: {    // a value through the manager: plain modules see its bytes
            auto const s = std::uint8_t(c.draw(255));
            c.op("type %d through the manager", t);
            data = m->send(t, s, seed);
            everyone(std::hash<std::string>{}(names[t]), data);
            break;
        }
        default: {    // the conversion helper
            c.op("%zu bytes converted to type %d", sz, t);
            std::optional<std::string> got;
            auto                       try_one = [&]<class M>() {
                try {
                    // any manager does
                    static xc::manager<1> any;
                    got = bytes(any.convert_field<M>(buf.get(), sz));
                } catch (std::exception const&) {
                }
            };
            mgr<1>::with_type(t, try_one);
            PBT_CHECK(got.has_value() == (sz == sizes[t]), "%zu bytes were %s as a value of %zu bytes", sz,
                      got ? "accepted" : "refused", sizes[t]);
            PBT_CHECK(!got || *got == data, "a value of type %d came back with other bytes", t);
            break;
        }
        }
        PBT_CHECK(h.log == want && heard == want_raw, "delivered: %s; expected: %s", show(h.log, heard).c_str(),
                  show(want, want_raw).c_str());
        auto by_content = [](hook_call const& a, hook_call const& b) { return std::tie(a.id, a.data) < std::tie(b.id, b.data); };
        std::sort(m->hooks.begin(), m->hooks.end(), by_content);
        std::sort(want_hook.begin(), want_hook.end(), by_content);
        PBT_CHECK(std::equal(m->hooks.begin(), m->hooks.end(), want_hook.begin(), want_hook.end(),
                             [](auto& a, auto& b) { return a.id == b.id && a.data == b.data; }),
                  "the manager's hook was called %zu times, %zu expected (or with other bytes)", m->hooks.size(), want_hook.size());
    }
    while (!all.empty()) {    // members leave before the manager does
        std::size_t const i = c.draw(all.size() - 1);
        all.erase(all.begin() + std::ptrdiff_t(i));
    }
    if (answered)
        c.label("a plain module answered from inside");
    if (right && wrong && plain)
        c.nontrivial();
}
