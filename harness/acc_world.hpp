// packet_accessor<Max> behind a runtime interface, and its model.
#pragma once

#include "pkt_types.hpp"

#include <limits>

namespace aw {
using namespace pk;

struct reading {
    bytes       header, fields, items;
    bool        valid;
    std::size_t count;
};

// the message formats used with the buffers
struct format {
    char const* name;
    std::size_t h, f, c, item;    // sizes
    bytes (*sum)(bytes const&);
    std::size_t
    fixed() const
    {
        return h + f + c;
    }
};

struct buffer_base {
    std::size_t max;
    virtual ~buffer_base()                                                                                        = default;
    virtual bool    has(std::size_t fmt) const                                                                    = 0;
    virtual bool    serialize(std::size_t fmt, bytes const& h, bytes const& f, std::size_t n, void const* items)   = 0;
    virtual reading read(std::size_t fmt)                                                                         = 0;
    virtual reading read_unchecked(std::size_t fmt)                                                               = 0;
    virtual void const* item_ptr(std::size_t fmt)                                                                 = 0;
    virtual bytes   storage() const                                                                               = 0;
    virtual void    poke(std::size_t i, unsigned char v)                                                          = 0;
    virtual std::size_t size() const                                                                              = 0;
    virtual void        size(std::size_t n)                                                                       = 0;
    virtual void        guards(char const* when) const                                                            = 0;
    virtual void        go_on_with_a_copy(bool assigned)                                                          = 0;
};

template <class H_, class F_, class T_, class C_>
struct fmt {
    using H = H_;
    using F = F_;
    using T = T_;
    using C = C_;
    static constexpr std::size_t fixed = sizeof(H) + sizeof(F) + sizeof(typename C::value_type);
};

using xitren::func::lsb_t;
using xitren::func::msb_t;
using fm0 = fmt<h1, f1, std::uint8_t, sum8>;
using fm1 = fmt<h4, f6, std::uint16_t, crc16_modbus>;
using fm2 = fmt<h7, f3, t3, crc16_ccitt>;
using fm3 = fmt<h2, f16, std::uint32_t, crc32_in<lsb_t<std::uint32_t>>>;
using fm4 = fmt<h3, f5, t16, crc32_in<msb_t<std::uint32_t>>>;
using fm5 = fmt<h8, f1, double, hash64>;
using fm6 = fmt<h1, f2, t7, sum8>;
using fm7 = fmt<h1, f2, std::uint64_t, crc16_modbus>;
using fm8 = fmt<h300, f300, t301, sum8>;
using fm9 = fmt<h1, fa8, fa22, crc16_modbus>;    // structures that would be aligned if they stood alone
using fm10 = fmt<ha4, fa16, fa2, crc32_in<lsb_t<std::uint32_t>>>;

template <class M>
constexpr format
describe(char const* name)
{
    return {name, sizeof(typename M::H), sizeof(typename M::F), sizeof(typename M::C::value_type), sizeof(typename M::T),
            &checksum<typename M::C>};
}
inline format const formats[] = {
    describe<fm0>("1|1|n*1|1"), describe<fm1>("4|6|n*2|2"), describe<fm2>("7|3|n*3|2 msb"), describe<fm3>("2|16|n*4|4"),
    describe<fm4>("3|5|n*16|4 msb"), describe<fm5>("8|1|n*8|8"), describe<fm6>("1|2|n*7|1"), describe<fm7>("1|2|n*8|2"),
    describe<fm8>("300|300|n*301|1"), describe<fm9>("1|8|n*22|2 aligned"), describe<fm10>("4|16|n*2|4 aligned"),
};
constexpr std::size_t n_formats = 11;

template <std::size_t Max>
struct buffer final : buffer_base {
    using A = xitren::func::packet_accessor<Max>;
    struct cell {
        std::uint64_t before{0x1122334455667788ULL};
        A             a{};
        std::uint64_t after{0x99aabbccddeeff00ULL};
    };
    std::unique_ptr<cell> p{new cell};    // an allocation of its own

    buffer() { max = Max; }

    template <class R, class Fn>
    R
    with(std::size_t f, Fn fn) const
    {
        switch (f) {
        case 0: return one<R, fm0>(fn);
        case 1: return one<R, fm1>(fn);
        case 2: return one<R, fm2>(fn);
        case 3: return one<R, fm3>(fn);
        case 4: return one<R, fm4>(fn);
        case 5: return one<R, fm5>(fn);
        case 6: return one<R, fm6>(fn);
        case 7: return one<R, fm7>(fn);
        case 8: return one<R, fm8>(fn);
        case 9: return one<R, fm9>(fn);
        default: return one<R, fm10>(fn);
        }
    }
    template <class R, class M, class Fn>
    static R
    one(Fn fn)
    {
        if constexpr (M::fixed <= Max)
            return fn(M{});
        else
            return R{};
    }

    bool
    has(std::size_t f) const override
    {
        return formats[f].fixed() <= Max;
    }
    bool
    serialize(std::size_t f, bytes const& h, bytes const& fl, std::size_t n, void const* items) override
    {
        return with<bool>(f, [&]<class M>(M) {
            using in = typename A::template fields_in<typename M::H, typename M::F, typename M::T>;
            return p->a.template serialize<typename M::H, typename M::F, typename M::T, typename M::C>(
                in{object<typename M::H>(h.data()), object<typename M::F>(fl.data()), n,
                   static_cast<typename M::T const*>(items)});
        });
    }
    reading
    read(std::size_t f) override
    {
        A const& k = p->a;
        return with<reading>(f, [&]<class M>(M) {
            auto const o = k.template deserialize<typename M::H, typename M::F, typename M::T, typename M::C>();
            typename M::H const h = o.header;
            typename M::F const l = o.fields;
            reading             r{image(h), image(l), {}, o.valid, o.size};
            take(r, o.size, static_cast<void const*>(o.data), sizeof(typename M::T));
            return r;
        });
    }
    reading
    read_unchecked(std::size_t f) override
    {
        A const& k = p->a;
        return with<reading>(f, [&]<class M>(M) {
            auto const o = k.template deserialize_no_check<typename M::H, typename M::F, typename M::T, typename M::C>();
            typename M::H hh;
            typename M::F ff;
            std::memcpy(&hh, static_cast<void const*>(o.header), sizeof hh);
            std::memcpy(&ff, static_cast<void const*>(o.fields), sizeof ff);
            reading r{image(hh), image(ff), {}, true, o.size};
            take(r, o.size, static_cast<void const*>(o.data), sizeof(typename M::T));
            return r;
        });
    }
    void
    take(reading& r, std::size_t n, void const* d, std::size_t item)
    {
        if (!n)
            return;
        PBT_CHECK(d != nullptr, "%zu items but no pointer to them", n);
        PBT_CHECK(n <= Max / item, "%zu items of %zu bytes read from a buffer of %zu", n, item, Max);
        auto const* b    = static_cast<unsigned char const*>(d);
        auto const* from = p->a.storage().data();
        PBT_CHECK(b >= from && b + n * item <= from + Max, "the payload read lies outside the buffer (offset %td, %zu items)",
                  b - from, n);
        r.items.assign(b, b + n * item);
    }
    void const*
    item_ptr(std::size_t f) override
    {
        return with<void const*>(f, [&]<class M>(M) {
            auto const o = p->a.template deserialize<typename M::H, typename M::F, typename M::T, typename M::C>();
            return static_cast<void const*>(o.data);
        });
    }
    bytes
    storage() const override
    {
        auto const& s = static_cast<A const&>(p->a).storage();
        return bytes(s.begin(), s.end());
    }
    void
    poke(std::size_t i, unsigned char v) override
    {
        p->a.storage()[i] = v;
    }
    std::size_t
    size() const override
    {
        return static_cast<A const&>(p->a).size();
    }
    void
    size(std::size_t n) override
    {
        p->a.size(n);
    }
    void
    go_on_with_a_copy(bool assigned) override
    {
        std::unique_ptr<cell> q;
        if (assigned) {
            q.reset(new cell);
            q->a.storage().fill(0x5c);
            q->a.size(1);
            q->a = static_cast<A const&>(p->a);
        } else
            q.reset(new cell{.a = static_cast<A const&>(p->a)});
        p->a.storage().fill(0xc5);
        p->a.size(2);
        p = std::move(q);
    }
    void
    guards(char const* when) const override
    {
        PBT_CHECK(p->before == 0x1122334455667788ULL && p->after == 0x99aabbccddeeff00ULL, "%s: memory around the buffer was written",
                  when);
    }
};

inline std::unique_ptr<buffer_base>
make_buffer(std::size_t k)
{
    switch (k) {
    case 0: return std::make_unique<buffer<3>>();
    case 1: return std::make_unique<buffer<4>>();
    case 2: return std::make_unique<buffer<12>>();
    case 3: return std::make_unique<buffer<13>>();
    case 4: return std::make_unique<buffer<22>>();
    case 5: return std::make_unique<buffer<25>>();
    case 6: return std::make_unique<buffer<37>>();
    case 7: return std::make_unique<buffer<64>>();
    case 8: return std::make_unique<buffer<255>>();
    case 9: return std::make_unique<buffer<300>>();
    case 10: return std::make_unique<buffer<1031>>();
    case 11: return std::make_unique<buffer<4100>>();
    default: return std::make_unique<buffer<70000>>();
    }
}
constexpr std::size_t n_buffers = 13;
inline std::size_t
which_buffer(pbt::ctx& c)
{
    std::size_t const k = c.draw(10);
    return !c.chance(1, 40) ? k : c.chance(1, 16) ? 12 : 11;
}

// An accessor and what it should contain.
struct world {
    pbt::ctx&                    c;
    std::unique_ptr<buffer_base> b;
    bytes                        mem;
    std::size_t                  size = 0;
    std::vector<std::size_t>     fmts;

    explicit world(pbt::ctx& ctx) : c(ctx), b(make_buffer(which_buffer(ctx))), mem(b->max)
    {
        for (std::size_t f = 0; f < n_formats; ++f)
            if (b->has(f))
                fmts.push_back(f);
        c.op("buffer of %zu bytes", b->max);
        PBT_CHECK(b->size() == 0, "a new buffer has size %zu", b->size());
    }
    std::size_t
    any_format()
    {
        return fmts[c.draw(fmts.size() - 1)];
    }
    std::size_t
    room(std::size_t f) const
    {
        return (b->max - formats[f].fixed()) / formats[f].item;
    }
    void
    same(char const* when)
    {
        b->guards(when);
        bytes const now = b->storage();
        PBT_CHECK(b->size() == size, "%s: size is %zu, expected %zu", when, b->size(), size);
        for (std::size_t i = 0; i < now.size(); ++i)
            PBT_CHECK(now[i] == mem[i], "%s: byte %zu of the buffer is %02x, expected %02x (size %zu)", when, i, now[i], mem[i],
                      size);
    }
    static bytes
    compose(format const& m, bytes const& h, bytes const& f, bytes const& items)
    {
        bytes r = h;
        r.insert(r.end(), f.begin(), f.end());
        r.insert(r.end(), items.begin(), items.end());
        bytes const s = m.sum(r);
        r.insert(r.end(), s.begin(), s.end());
        return r;
    }
    bool
    well_sized(format const& m) const
    {
        return size >= m.fixed() && size <= b->max && (size - m.fixed()) % m.item == 0;
    }
    bool
    sum_ok(format const& m) const
    {
        bytes const body(mem.begin(), mem.begin() + (size - m.c));
        return m.sum(body) == bytes(mem.begin() + (size - m.c), mem.begin() + size);
    }
    void
    parts(reading const& r, format const& m, char const* how)
    {
        std::size_t const n = (size - m.fixed()) / m.item;
        PBT_CHECK(r.header == bytes(mem.begin(), mem.begin() + m.h), "%s: header read as %s", how, hex(r.header).c_str());
        PBT_CHECK(r.fields == bytes(mem.begin() + m.h, mem.begin() + m.h + m.f), "%s: fields read as %s", how,
                  hex(r.fields).c_str());
        PBT_CHECK(r.count == n, "%s: %zu items read, expected %zu", how, r.count, n);
        PBT_CHECK(r.items == bytes(mem.begin() + m.h + m.f, mem.begin() + m.h + m.f + n * m.item), "%s: items read as %s", how,
                  hex(r.items).c_str());
    }
    // -> valid?
    bool
    check_read(std::size_t f)
    {
        format const& m = formats[f];
        reading const r = b->read(f);
        bool          v = false;
        if (!well_sized(m)) {
            PBT_CHECK(!r.valid, "format %s: a packet of size %zu in a buffer of %zu was judged valid", m.name, size, b->max);
            PBT_CHECK(r.count == 0, "format %s: a packet of size %zu in a buffer of %zu was read with %zu items", m.name, size,
                      b->max, r.count);
        } else {
            v = sum_ok(m);
            PBT_CHECK(r.valid == v, "format %s, size %zu: judged %s, but the checksum %s", m.name, size,
                      r.valid ? "valid" : "invalid", v ? "matches" : "does not match");
            parts(r, m, "deserialize");
            parts(b->read_unchecked(f), m, "deserialize_no_check");
        }
        same("after reading");
        return v;
    }
    // a payload in an allocation of exactly its size, aligned as its type
    bool
    send(std::size_t f, std::size_t n, bytes const& items, bool echo, bool in_place = false)
    {
        format const& m  = formats[f];
        bytes const   h  = draw_bytes(c, m.h), fl = draw_bytes(c, m.f);
        std::unique_ptr<unsigned char[]> exact(new unsigned char[items.size()]);
        std::copy(items.begin(), items.end(), exact.get());
        void const* src = items.empty() ? nullptr : exact.get();
        if (items.empty() && c.chance(1, 2))
            src = exact.get();
        if (echo)
            src = b->item_ptr(f);
        if (in_place)    // no pointer: the payload is what the buffer already has there
            src = nullptr;
        bool const ok   = b->serialize(f, h, fl, n, src);
        bool const want = n <= room(f);
        PBT_CHECK(ok == want, "format %s: serializing %zu items into a buffer of %zu was %s", m.name, n, b->max,
                  ok ? "accepted" : "refused");
        if (ok) {
            bytes const all = compose(m, h, fl, items);
            std::copy(all.begin(), all.end(), mem.begin());
            size = all.size();
        }
        same(ok ? "after serializing" : "after a refused serialize");
        return ok;
    }
};

}    // namespace aw
