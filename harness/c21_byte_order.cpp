// C21: byte-order types and byte swapping against the definition of little- and big-endian order.
#include "pbt.hpp"

#include <cstdint>
#include <memory>
#include <utility>
#include <xitren/func/data.hpp>

char const* const property_rule
    = "One case takes a width, an order, a memory offset of 0 to 15 and a short list of values; every value is stored by "
      "construction, assignment and raw bytes, read back, byte-swapped and compared with every other value of the list. "
      "Non-trivial: two different values of the list agree in some byte and neither is zero.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

template <class T>
void
want_bytes(unsigned char* to, T v, bool little)
{
    for (unsigned i = 0; i < sizeof(T); ++i)
        to[little ? i : sizeof(T) - 1 - i] = (unsigned char)(v >> (8 * i));
}

template <class T>
T
reversed(T v)
{
    T r = 0;
    for (unsigned i = 0; i < sizeof(T); ++i)
        r = T((r << 8) | T((v >> (8 * i)) & 0xff));
    return r;
}

template <class Q>
__attribute__((noinline)) void
holds(void const* p, Q const& q, typename Q::data_type v, bool little, char const* how)
{
    using T = typename Q::data_type;
    unsigned char want[sizeof(T)], got[sizeof(T)];
    want_bytes(want, v, little);
    std::memcpy(got, p, sizeof(T));
    PBT_CHECK(!std::memcmp(want, got, sizeof(T)), "%s %" PRIx64 " (%zu bytes, %s first): first byte stored %02x, expected %02x",
              how, std::uint64_t(v), sizeof(T), little ? "least" : "most", got[0], want[0]);
    PBT_CHECK(q.get() == v, "%s %" PRIx64 ": read back %" PRIx64, how, std::uint64_t(v), std::uint64_t(q.get()));
}

template <class Q>
void
one_value(unsigned char* at, typename Q::data_type v, bool little)
{
    using T = typename Q::data_type;
    auto const guard = [&](char const* how) {
        PBT_CHECK(at[-1] == 0xA5 && at[sizeof(T)] == 0x5A, "%s wrote outside the value", how);
    };
    {    // construction from an lvalue, an rvalue and a constant
        Q* q = new (at) Q(v);
        holds(at, *q, v, little, "constructed from");
        guard("construction");
        T  w = v;
        Q* r = new (at) Q(std::move(w));
        holds(at, *r, v, little, "constructed from rvalue");
        Q const* k = new (at) Q{T(v)};
        holds(at, *k, v, little, "constructed const from");
    }
    {    // assignment over another value, from a value and from another object
        Q* q = new (at) Q(T(~v));
        Q& ret = (*q = v);
        PBT_CHECK(&ret == q, "assignment returned another object");
        holds(at, *q, v, little, "assigned");
        guard("assignment");
        Q src(v), dst(T(v ^ 0x55));
        dst = src;
        holds(&dst, dst, v, little, "copy-assigned");
        Q moved(std::move(src));
        holds(&moved, moved, v, little, "moved");
    }
    {    // raw memory
        unsigned char raw[sizeof(T)];
        want_bytes(raw, v, little);
        new (at) Q();
        PBT_CHECK(reinterpret_cast<Q*>(at)->get() == 0, "a default constructed value is not zero");
        std::memcpy(at, raw, sizeof(T));
        PBT_CHECK(std::launder(reinterpret_cast<Q*>(at))->get() == v, "read %" PRIx64 " from raw bytes of %" PRIx64,
                  std::uint64_t(reinterpret_cast<Q*>(at)->get()), std::uint64_t(v));
    }
    {
        T const s = xitren::func::swap(v);
        PBT_CHECK(s == reversed(v), "swap(%" PRIx64 ") is %" PRIx64, std::uint64_t(v), std::uint64_t(s));
        PBT_CHECK(xitren::func::swap(s) == v, "swapping %" PRIx64 " twice gives %" PRIx64, std::uint64_t(v),
                  std::uint64_t(xitren::func::swap(s)));
    }
}

template <class Q>
void
two_values(typename Q::data_type a, typename Q::data_type b)
{
    Q const x(a), y(b);
    Q       vx(a), vy(b);
    auto    bad = [&](char const* o, bool got) {
        pbt::fail("%" PRIx64 " %s %" PRIx64 " is %d", std::uint64_t(a), o, std::uint64_t(b), int(got));
    };
    if ((x == y) != (a == b))
        bad("==", x == y);
    if ((x != y) != (a != b))
        bad("!=", x != y);
    if ((x < y) != (a < b))
        bad("<", x < y);
    if ((x > y) != (a > b))
        bad(">", x > y);
    if ((x <= y) != (a <= b))
        bad("<=", x <= y);
    if ((x >= y) != (a >= b))
        bad(">=", x >= y);
    if ((vx < vy) != (a < b) || (vx > vy) != (a > b) || (vx == vy) != (a == b) || (vx <= vy) != (a <= b)
        || (vx >= vy) != (a >= b))
        bad("(not const) vs", false);
}

template <class Q>
void
run(pbt::ctx& c, bool little)
{
    using T            = typename Q::data_type;
    unsigned const bits = 8 * sizeof(T);
    static_assert(sizeof(Q) == sizeof(T), "no padding");
    static_assert(alignof(Q) == 1, "usable inside packed structures");
    unsigned char buf[40];
    std::memset(buf, 0, sizeof buf);
    std::size_t const off = 1 + c.draw(15);
    buf[off - 1]          = 0xA5;
    buf[off + sizeof(T)]  = 0x5A;
    std::vector<T> v{T(c.edgy(bits))};
    while (c.more(4) && v.size() < 12) {
        T const p = v[c.draw(v.size() - 1)];
        switch (c.draw(5)) {
        case 0: v.push_back(T(c.edgy(bits))); break;
        case 1: v.push_back(p); break;
        case 2: v.push_back(T(p + 1 - 2 * T(c.draw(1)))); break;
        case 3: v.push_back(reversed(p)); break;
        case 4: v.push_back(T(p ^ (T(1 + c.draw(254)) << (8 * c.draw(sizeof(T) - 1))))); break;
        default: v.push_back(T(p ^ (T(1) << c.draw(bits - 1)))); break;
        }
    }
    for (T x : v)
        c.op("%zu-byte %s: %0*" PRIx64, sizeof(T), little ? "lsb_t" : "msb_t", int(2 * sizeof(T)), std::uint64_t(x));
    for (T x : v)
        one_value<Q>(buf + off, x, little);
    bool hard = false;
    for (T a : v)
        for (T b : v) {
            two_values<Q>(a, b);
            if (a != b && a && b)
                for (unsigned i = 0; i < bits; i += 8)
                    hard = hard || ((a >> i) & 0xff) == ((b >> i) & 0xff);
        }
    if (hard)
        c.nontrivial();
    // a message with such a member in the middle
    struct __attribute__((packed)) framed {
        unsigned char before;
        Q             q;
        unsigned char after;
    };
    static_assert(sizeof(framed) == sizeof(T) + 2);
    framed f{1, v[0], 2};
    holds(reinterpret_cast<unsigned char*>(&f) + 1, f.q, v[0], little, "member initialised from");
    PBT_CHECK(f.before == 1 && f.after == 2, "neighbouring members changed");
    if (sizeof(T) == 2 && c.chance(1, 8)) {    // 16 bits: whole blocks, so that a run covers every value
        T const hi = T(c.draw(255) << 8);
        for (unsigned lo = 0; lo < 256; ++lo) {
            one_value<Q>(buf + off, T(hi | lo), little);
            two_values<Q>(T(hi | lo), v[0]);
        }
        c.label("block of 256 16-bit values");
    }
}

}    // namespace

void
property(pbt::ctx& c)
{
    using namespace xitren::func;
    switch (c.draw(5)) {
    case 0: c.label("lsb 16"); return run<lsb_t<std::uint16_t>>(c, true);
    case 1: c.label("msb 16"); return run<msb_t<std::uint16_t>>(c, false);
    case 2: c.label("lsb 32"); return run<lsb_t<std::uint32_t>>(c, true);
    case 3: c.label("msb 32"); return run<msb_t<std::uint32_t>>(c, false);
    case 4: c.label("lsb 64"); return run<lsb_t<std::uint64_t>>(c, true);
    default: c.label("msb 64"); return run<msb_t<std::uint64_t>>(c, false);
    }
}
