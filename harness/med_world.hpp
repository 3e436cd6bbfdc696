// Mediator managers and modules of many type combinations, which write down everything they are given.
#pragma once

#include <array>
#include <vector>

#include <xitren/comm/mediator.hpp>

#include "pbt.hpp"

#include <functional>
#include <map>
#include <optional>
#include <string>

namespace mw {

namespace xc = xitren::comm;

// Every message starts with a serial number; the rest is noise derived from it. No type has padding.
struct m0 {
    std::uint8_t serial;
    std::uint8_t a[3];
};
// Long names which differ in their last or their first letter only.
namespace the_messages_exchanged_between_the_many_control_units_of_a_large_vehicle_which_are_named_at_length_and_grouped_by_domain::powertrain_and_chassis_including_all_the_wheels_and_their_brakes_as_well_as_the_suspension_and_steering {
struct measured_torque_0 {
    std::uint8_t serial;
    std::uint8_t a[7];
};
struct measured_torque_1 {    // same layout as well
    std::uint8_t serial;
    std::uint8_t a[7];
};
}
namespace she_messages_exchanged_between_the_many_control_units_of_a_large_vehicle_which_are_named_at_length_and_grouped_by_domain::powertrain_and_chassis_including_all_the_wheels_and_their_brakes_as_well_as_the_suspension_and_steering {
class measured_torque_0 {
public:
    std::uint8_t serial;
    std::uint8_t a[4];
};
}
using m1 = the_messages_exchanged_between_the_many_control_units_of_a_large_vehicle_which_are_named_at_length_and_grouped_by_domain::powertrain_and_chassis_including_all_the_wheels_and_their_brakes_as_well_as_the_suspension_and_steering::measured_torque_0;
using m2 = the_messages_exchanged_between_the_many_control_units_of_a_large_vehicle_which_are_named_at_length_and_grouped_by_domain::powertrain_and_chassis_including_all_the_wheels_and_their_brakes_as_well_as_the_suspension_and_steering::measured_torque_1;
using m3 = she_messages_exchanged_between_the_many_control_units_of_a_large_vehicle_which_are_named_at_length_and_grouped_by_domain::powertrain_and_chassis_including_all_the_wheels_and_their_brakes_as_well_as_the_suspension_and_steering::measured_torque_0;
struct m4 {
    std::uint8_t  serial, a[3];
    std::uint32_t b[15];
};
struct m5 {
    std::uint8_t serial;
    std::uint8_t a[299];
};
template <class T>
struct tagged {    // same layout as m1 again, with a longer name
    std::uint8_t serial;
    T            a;
};
using m6 = tagged<std::array<std::uint8_t, 7>>;
struct m7 {
    std::uint8_t serial;
};
struct m8 {    // more than 16 bits can count
    std::uint8_t serial;
    std::uint8_t a[66000];
};

template <class M>
struct index_of;
template <> struct index_of<m0> { static constexpr int v = 0; };
template <> struct index_of<m1> { static constexpr int v = 1; };
template <> struct index_of<m2> { static constexpr int v = 2; };
template <> struct index_of<m3> { static constexpr int v = 3; };
template <> struct index_of<m4> { static constexpr int v = 4; };
template <> struct index_of<m5> { static constexpr int v = 5; };
template <> struct index_of<m6> { static constexpr int v = 6; };
template <> struct index_of<m7> { static constexpr int v = 7; };
template <> struct index_of<m8> { static constexpr int v = 8; };
constexpr int n_types = 9;
inline int
draw_type(pbt::ctx& c)    // seldom the big one
{
    return c.chance(1, 30) ? 8 : int(c.draw(n_types - 2));
}

template <class M>
M
make(std::uint8_t serial, std::uint64_t seed)
{
    std::array<std::uint8_t, sizeof(M)> b;
    b[0] = serial;
    std::uint64_t x = seed;
    for (std::size_t i = 1; i < sizeof(M); ++i) {
        x    = i < 300 ? pbt::mix(seed * 1000 + i) : x * 6364136223846793005ULL + 1442695040888963407ULL;
        b[i] = std::uint8_t(seed == 0 ? 0 : seed == 1 ? 0xff : i < 300 ? x : x >> 56);
    }
    M m;
    std::memcpy(&m, b.data(), sizeof m);
    return m;
}
template <class M>
std::string
bytes(M const& m)
{
    return std::string(reinterpret_cast<char const*>(&m), sizeof(M));
}

struct delivery {
    int         who;
    int         type;
    std::string data;
    friend bool
    operator==(delivery const&, delivery const&)
        = default;
};

struct hub {    // what all modules of a case share
    std::vector<delivery>                       log{};
    std::function<void(int, int, std::uint8_t)> inside{};    // (module, type, serial)
    std::function<void(int)>                    look{};      // (module), on every delivery
};

struct mod_base {
    int              id{};
    hub*             h{};
    int              sends{};
    std::vector<int> receives{};
    virtual ~mod_base()                                    = default;
    virtual void        fire(std::uint8_t, std::uint64_t)      = 0;
    virtual std::string image(std::uint8_t, std::uint64_t)     = 0;
    virtual std::size_t sender_id()                            = 0;
};

template <class B, class... R>
struct handlers : B {
    using B::B;
};
template <class B, class R, class... Rest>
struct handlers<B, R, Rest...> : handlers<B, Rest...> {
    using handlers<B, Rest...>::handlers;
    void
    data(R const& r) override
    {
        std::string const before = bytes(r);
        this->note(index_of<R>::v, before, r.serial);
        // whatever was sent meanwhile, a handler keeps its message until it returns
        PBT_CHECK(bytes(r) == before, "a message of type %d changed while module %d handled it", index_of<R>::v, this->id);
    }
};
template <class S, class... R>
struct core : mod_base, xc::module<S, R...> {
    core(xc::base::manager& m, hub& hb, int i) : xc::module<S, R...>(m)
    {
        h        = &hb;
        id       = i;
        sends    = index_of<S>::v;
        receives = {index_of<R>::v...};
    }
    void
    note(int type, std::string b, std::uint8_t serial)
    {
        h->log.push_back({id, type, std::move(b)});
        if (h->look)
            h->look(id);
        if (h->inside)
            h->inside(id, type, serial);
    }
    void
    fire(std::uint8_t serial, std::uint64_t seed) override
    {
        static_cast<xc::module<S, R...>*>(this)->send(make<S>(serial, seed));
    }
    std::string
    image(std::uint8_t serial, std::uint64_t seed) override
    {
        return bytes(make<S>(serial, seed));
    }
    std::size_t
    sender_id() override
    {
        return this->id_;
    }
};
template <class S, class... R>
using mod = handlers<core<S, R...>, R...>;

constexpr int n_mods = 16;
inline int
draw_kind(pbt::ctx& c)    // seldom those that know the big type
{
    return c.chance(1, 30) ? int(14 + c.draw(1)) : int(c.draw(13));
}
inline std::unique_ptr<mod_base>
make_mod(int kind, xc::base::manager& m, hub& h, int id)
{
    switch (kind) {
    case 0: return std::make_unique<mod<m0, m1>>(m, h, id);
    case 1: return std::make_unique<mod<m1, m2>>(m, h, id);
    case 2: return std::make_unique<mod<m2, m1, m0>>(m, h, id);
    case 3: return std::make_unique<mod<m3>>(m, h, id);
    case 4: return std::make_unique<mod<m4, m0, m1, m2, m3, m4, m5, m6, m7>>(m, h, id);
    case 5: return std::make_unique<mod<m0, m0, m2>>(m, h, id);
    case 6: return std::make_unique<mod<m5, m7, m3, m6>>(m, h, id);
    case 7: return std::make_unique<mod<m6, m1, m2>>(m, h, id);
    case 8: return std::make_unique<mod<m7, m6, m5, m4, m3, m2, m1, m0>>(m, h, id);
    case 9: return std::make_unique<mod<m1, m0, m6, m1>>(m, h, id);
    case 10: return std::make_unique<mod<m2, m5>>(m, h, id);
    case 11: return std::make_unique<mod<m3, m4, m3, m7>>(m, h, id);
    case 12: return std::make_unique<mod<m6, m7, m6, m0>>(m, h, id);
    case 13: return std::make_unique<mod<m7, m4, m2>>(m, h, id);
    case 14: return std::make_unique<mod<m8, m0, m7>>(m, h, id);
    default: return std::make_unique<mod<m0, m8, m1>>(m, h, id);
    }
}

struct hook_call {
    std::size_t id;
    std::string data;
};

struct mgr_base {
    std::vector<hook_call> hooks{};
    virtual ~mgr_base()                                       = default;
    virtual xc::base::manager& base()                             = 0;
    // -> the bytes sent
    virtual std::string        send(int type, std::uint8_t, std::uint64_t) = 0;
    // the hook's conversion helper: -> the bytes it gives back; nullopt: refused
    virtual std::optional<std::string> convert(int type, std::string bytes) = 0;
    std::size_t                cap{};
};
template <std::size_t N>
struct mgr final : mgr_base, xc::manager<N> {
    mgr() { cap = N; }
    xc::base::manager&
    base() override
    {
        return *this;
    }
    void
    data(std::size_t id, std::uint8_t* p, std::size_t n) override
    {
        hooks.push_back({id, std::string(reinterpret_cast<char*>(p), n)});
    }
    template <class F>
    static void
    with_type(int t, F f)
    {
        switch (t) {
        case 0: f.template operator()<m0>(); break;
        case 1: f.template operator()<m1>(); break;
        case 2: f.template operator()<m2>(); break;
        case 3: f.template operator()<m3>(); break;
        case 4: f.template operator()<m4>(); break;
        case 5: f.template operator()<m5>(); break;
        case 6: f.template operator()<m6>(); break;
        case 7: f.template operator()<m7>(); break;
        default: f.template operator()<m8>(); break;
        }
    }
    std::string
    send(int type, std::uint8_t serial, std::uint64_t seed) override
    {
        std::string r;
        with_type(type, [&]<class M>() {
            auto m = make<M>(serial, seed);
            r      = bytes(m);
            static_cast<xc::manager<N>*>(this)->send(m);
        });
        return r;
    }
    std::optional<std::string>
    convert(int type, std::string b) override
    {
        std::optional<std::string> r;
        with_type(type, [&]<class M>() {
            try {
                r = bytes(this->template convert_field<M>(reinterpret_cast<std::uint8_t*>(b.data()), b.size()));
            } catch (std::exception const&) {
            }
        });
        return r;
    }
};
inline std::unique_ptr<mgr_base>
make_mgr(std::size_t kind)
{
    switch (kind) {
    case 0: return std::make_unique<mgr<1>>();
    case 1: return std::make_unique<mgr<2>>();
    case 2: return std::make_unique<mgr<3>>();
    case 3: return std::make_unique<mgr<5>>();
    case 4: return std::make_unique<mgr<8>>();
    case 5: return std::make_unique<mgr<13>>();
    case 6: return std::make_unique<mgr<32>>();
    default: return std::make_unique<mgr<280>>();
    }
}
constexpr std::size_t n_mgrs = 7;    // and one more, for crowds
constexpr std::size_t big_mgr = n_mgrs;

// is a message of this type meant for this module?
inline bool
wants(mod_base const& m, int type)
{
    return m.sends != type && std::count(m.receives.begin(), m.receives.end(), type) > 0;
}

inline std::string
text(std::vector<delivery> const& v)
{
    std::string s;
    for (auto& d : v) {
        s += "[module " + std::to_string(d.who) + " type " + std::to_string(d.type) + " serial "
             + std::to_string(int(std::uint8_t(d.data[0]))) + "] ";
        if (s.size() > 700)
            return s + "...";
    }
    return s;
}

}    // namespace mw

