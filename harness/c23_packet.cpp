// C23: packet<Header, Fields, Crc> against the concatenation header | fields | checksum.
#include "pkt_types.hpp"

char const* const property_rule
    = "One case takes one of 16 packet types (4 to 66015 bytes), builds a packet from random header and fields, sends its bytes through every "
      "serialization and rebuilding path, then applies a history of corruptions, edits through the accessors and checksum "
      "repairs, comparing bytes and validity with the reference after each. Non-trivial: the packet was judged invalid "
      "at least once and valid again after a later step.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {
using namespace pk;

template <class H, class F, class C>
struct tester {
    using P = xitren::func::packet<H, F, C>;
    using V = typename C::value_type;
    static constexpr std::size_t n = sizeof(H) + sizeof(F) + sizeof(V), body = sizeof(H) + sizeof(F);
    static_assert(P::length == n);
    static_assert(sizeof(P) == n && sizeof(typename P::array_type) == n);
    using arr = std::array<std::uint8_t, n>;

    static arr
    to_arr(bytes const& b)
    {
        arr a;
        std::copy(b.begin(), b.end(), a.begin());
        return a;
    }
    static bytes
    good(bytes const& bd)
    {
        bytes r = bd, s = checksum<C>(bd);
        r.insert(r.end(), s.begin(), s.end());
        return r;
    }
    static bool
    is_good(bytes const& b)
    {
        return good(bytes(b.begin(), b.begin() + body)) == b;
    }

    // p must hold exactly b
    static void
    holds(P& p, bytes const& b, char const* how)
    {
        auto const  a = p.to_array();
        bytes const got(a.begin(), a.end());
        PBT_CHECK(got == b, "%s: packet bytes %s, expected %s", how, hex(got).c_str(), hex(b).c_str());
        P const& k = p;
        PBT_CHECK(image(k.header()) == bytes(b.begin(), b.begin() + sizeof(H)), "%s: header() differs", how);
        PBT_CHECK(image(k.fields()) == bytes(b.begin() + sizeof(H), b.begin() + body), "%s: fields() differs", how);
        PBT_CHECK(image(k.crc()) == bytes(b.begin() + body, b.end()), "%s: crc() differs", how);
        // a part of an aligned type cannot be referred to for editing
        if constexpr (alignof(H) == 1)
            PBT_CHECK(image(p.header()) == bytes(b.begin(), b.begin() + sizeof(H)), "%s: header() for editing differs", how);
        if constexpr (alignof(F) == 1)
            PBT_CHECK(image(p.fields()) == bytes(b.begin() + sizeof(H), b.begin() + body), "%s: fields() for editing differs", how);
        if constexpr (alignof(V) == 1)
            PBT_CHECK(image(p.crc()) == bytes(b.begin() + body, b.end()), "%s: crc() for editing differs", how);
        {    // read in place
            auto const& h = k.header();
            auto const& f = k.fields();
            auto const& s = k.crc();
            PBT_CHECK(image(h) == bytes(b.begin(), b.begin() + sizeof(H))
                          && image(f) == bytes(b.begin() + sizeof(H), b.begin() + body) && image(s) == bytes(b.begin() + body, b.end()),
                      "%s: a part read through a reference differs", how);
        }
        bool const want = is_good(b), got_valid = p.valid();
        PBT_CHECK(got_valid == want, "%s: judged %s, but its checksum %s (%s)", how, got_valid ? "valid" : "invalid",
                  want ? "matches" : "does not match", hex(b).c_str());
    }

    template <std::size_t Extra>
    static void
    from_bigger(bytes const& b)
    {
        std::array<std::uint8_t, n + Extra> a;
        a.fill(0x99);
        std::copy(b.begin(), b.end(), a.begin());
        auto const [valid, h, f] = P::deserialize(a);
        PBT_CHECK(valid == is_good(b), "deserialize(array of %zu) says valid=%d", n + Extra, int(valid));
        PBT_CHECK(image(h) == bytes(b.begin(), b.begin() + sizeof(H)), "deserialize(array): header differs");
        PBT_CHECK(image(f) == bytes(b.begin() + sizeof(H), b.begin() + body), "deserialize(array): fields differ");
    }

    // every receiver of these bytes
    static void
    receivers(pbt::ctx& c, bytes const& b)
    {
        std::size_t const off = c.draw(7);
        bytes             stream(off, 0x77);
        stream.insert(stream.end(), b.begin(), b.end());    // the allocation ends with the packet
        {
            arr a = to_arr(b);
            P   p(std::move(a));
            holds(p, b, "packet(array)");
        }
        {
            P p(stream.begin() + off);
            holds(p, b, "packet(vector iterator)");
        }
        {
            P p(static_cast<unsigned char const*>(stream.data() + off));
            holds(p, b, "packet(pointer)");
        }
        {
            std::deque<unsigned char> d(stream.begin(), stream.end());
            P                         p = P::deserialize(d.begin() + off);
            holds(p, b, "deserialize(deque iterator)");
        }
        {
            P p = P::deserialize(stream.cbegin() + off);
            holds(p, b, "deserialize(iterator)");
            P q;
            q = p;
            holds(q, b, "assigned packet");
            P r(q);
            holds(r, b, "copied packet");
        }
        from_bigger<0>(b);
        from_bigger<1>(b);
        from_bigger<9>(b);
    }

    // every way to serialize p
    static void
    senders(pbt::ctx& c, P& p, bytes const& b)
    {
        std::size_t const off = 1 + c.draw(7);
        bytes             out(off + n + 5, 0xC3);
        P::serialize(p, out.begin() + off);
        PBT_CHECK(bytes(out.begin() + off, out.begin() + off + n) == b, "serialize(packet, iterator): %s, expected %s",
                  hex(bytes(out.begin() + off, out.begin() + off + n)).c_str(), hex(b).c_str());
        for (std::size_t i = 0; i < out.size(); ++i)
            PBT_CHECK((i >= off && i < off + n) || out[i] == 0xC3, "serialize wrote outside the packet, at %zu", i);
        std::vector<std::uint8_t> app{1, 2};
        P::serialize(p, std::back_inserter(app));
        PBT_CHECK(app.size() == n + 2 && bytes(app.begin() + 2, app.end()) == b && app[0] == 1 && app[1] == 2,
                  "serialize(packet, back_inserter) differs");
        std::unique_ptr<std::uint8_t[]> exact(new std::uint8_t[n]);
        P::serialize(p, exact.get());
        PBT_CHECK(std::equal(b.begin(), b.end(), exact.get()), "serialize(packet, pointer) differs");
    }

    static void
    run(pbt::ctx& c, char const* name)
    {
        c.label(name);
        bytes bd = draw_bytes(c, body);
        H     h  = object<H>(bd.data());
        F     f  = object<F>(bd.data() + sizeof(H));
        bytes b  = good(bd);
        c.op("%s: header %s fields %s", name, hex(bd.data(), sizeof(H)).c_str(), hex(bd.data() + sizeof(H), sizeof(F)).c_str());
        P p(h, f);
        holds(p, b, "packet(header, fields)");
        auto const s = P::serialize(h, f);
        PBT_CHECK(bytes(s.begin(), s.end()) == b, "serialize(header, fields): %s, expected %s",
                  hex(bytes(s.begin(), s.end())).c_str(), hex(b).c_str());
        senders(c, p, b);
        receivers(c, b);
        bool bad = false, recovered = false;
        while (c.more(4)) {
            switch (c.weighted({5, 2, 2, 1, 2, 1})) {
            case 0: {    // arrives damaged
                corrupt(c, b);
                c.op("received as %s", hex(b).c_str());
                p = P(b.begin());
                break;
            }
            case 1: {    // edited in place, or sent again with a part changed
                bytes e = draw_bytes(c, sizeof(H));
                std::copy(e.begin(), e.end(), b.begin());
                if constexpr (alignof(H) == 1)
                    p.header() = object<H>(e.data());
                else
                    p = P(b.begin());
                c.op("header edited to %s", hex(e).c_str());
                break;
            }
            case 2: {
                bytes e = draw_bytes(c, sizeof(F));
                std::copy(e.begin(), e.end(), b.begin() + sizeof(H));
                if constexpr (alignof(F) == 1)
                    p.fields() = object<F>(e.data());
                else
                    p = P(b.begin());
                c.op("fields edited to %s", hex(e).c_str());
                break;
            }
            case 3: {
                bytes e = draw_bytes(c, sizeof(V));
                std::copy(e.begin(), e.end(), b.begin() + body);
                if constexpr (alignof(V) == 1)
                    p.crc() = object<V>(e.data());
                else
                    p = P(b.begin());
                c.op("checksum edited to %s", hex(e).c_str());
                break;
            }
            case 4: {    // checksum repaired by the user
                b = good(bytes(b.begin(), b.begin() + body));
                if constexpr (alignof(V) == 1)
                    p.crc() = object<V>(b.data() + body);
                else
                    p = P(b.begin());
                c.op("checksum repaired");
                break;
            }
            default: {    // rebuilt from its own parts
                P const& k  = p;
                H        hh = k.header();
                F        ff = k.fields();
                p    = P(hh, ff);
                b    = good(bytes(b.begin(), b.begin() + body));
                c.op("rebuilt from its parts");
                break;
            }
            }
            holds(p, b, "packet");
            bad = bad || !is_good(b);
            recovered = recovered || (bad && is_good(b));
            if (c.chance(1, 2)) {
                senders(c, p, b);
                receivers(c, b);
            }
        }
        P empty;
        holds(empty, bytes(n), "default packet");
        if (recovered)
            c.nontrivial();
    }
};

// a checksum that is a plain integer
struct xor8 {
    using value_type = std::uint8_t;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint8_t s = 0xff;
        for (; b != e; ++b)
            s ^= std::uint8_t(*b);
        return s;
    }
};

struct fold32 {
    using value_type = std::uint32_t;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint32_t s = 77;
        for (; b != e; ++b)
            s = s * 131 + std::uint8_t(*b);
        return s;
    }
};

}    // namespace

void
property(pbt::ctx& c)
{
    using xitren::func::lsb_t, xitren::func::msb_t;
    switch (c.draw(15)) {
    case 0: return tester<h1, f1, sum8>::run(c, "1+1+1");
    case 1: return tester<h7, f3, crc16_modbus>::run(c, "7+3+2");
    case 2: return tester<h4, f6, crc16_ccitt>::run(c, "4+6+2 msb");
    case 3: return tester<h3, f5, crc32_in<msb_t<std::uint32_t>>>::run(c, "3+5+4 msb");
    case 4: return tester<h2, f16, crc32_in<lsb_t<std::uint32_t>>>::run(c, "2+16+4");
    case 5: return tester<h8, f1, hash64>::run(c, "8+1+8");
    case 6: return tester<h1, f40, crc16_modbus>::run(c, "1+40+2");
    case 7: return tester<h1, f300, crc32_in<lsb_t<std::uint32_t>>>::run(c, "1+300+4");
    case 8: return tester<h300, f2, crc16_ccitt>::run(c, "300+2+2 msb");
    case 9:
        if (c.chance(1, 40))
            return tester<h7, f66000, hash64>::run(c, "7+66000+8");
        [[fallthrough]];
    case 11: return tester<h1, fa8, sum8>::run(c, "1+8+1 aligned fields");
    case 12: return tester<h2, fa22, crc16_modbus>::run(c, "2+22+2 aligned fields");
    case 13: return tester<ha4, fa16, crc32_in<msb_t<std::uint32_t>>>::run(c, "4+16+4 aligned header and fields");
    case 14: return tester<h3, fa2, xor8>::run(c, "3+2+1 aligned fields");
    case 15: return tester<h1, fa22, fold32>::run(c, "1+22+4 aligned fields, integer checksum");
    default: return tester<h3, f2, xor8>::run(c, "3+2+1 integer checksum");
    }
}
