// C22: data<T>::serialize / deserialize against the object representation.
#include "pbt.hpp"

#include <array>
#include <cstdint>
#include <deque>
#include <span>
#include <string>
#include <string_view>
#include <xitren/func/data.hpp>

char const* const property_rule
    = "One case takes one of 29 trivially copyable types (1 to 66001 bytes), a value given by random bytes, and a buffer kind, size and offset; "
      "bytes are compared with the object representation and with the untouched rest of the buffer. Non-trivial: the type "
      "has more than one byte, the bytes are not all equal and the offset is not zero.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

using bytes = std::vector<unsigned char>;

template <std::size_t N>
struct blob {
    std::uint8_t b[N];
};
struct __attribute__((packed)) odd {
    std::uint8_t  a;
    std::uint32_t b;
    std::uint16_t c;
    std::uint64_t d;
};
struct even {
    std::uint32_t a;
    std::uint16_t b[2];
    float         f;
    std::int32_t  g;
};
enum class small : std::uint8_t {};
enum class wide : std::int64_t {};
struct __attribute__((packed)) nested {
    odd                                head;
    std::array<std::uint16_t, 3>       arr;
    xitren::func::msb_t<std::uint32_t> m;
    xitren::func::lsb_t<std::uint16_t> l;
    small                              s;
};
struct bits {
    std::uint32_t a : 3, b : 11, c : 18;
};
union either {
    std::uint64_t u;
    double        d;
    std::uint8_t  b[8];
};
struct base {
    std::uint16_t x;
};
struct __attribute__((packed)) derived : base {
    std::uint16_t y;
    std::uint8_t  z[2];
};
struct alignas(16) aligned16 {
    std::uint64_t a, b;
};
struct ctor {    // trivially copyable with constructors
    ctor() : v{7}, w{9} {}
    explicit ctor(int q) : v(q), w(q) {}
    std::int32_t v, w;
};
struct privates {
public:
    privates() = default;
    bool
    operator==(privates const&) const = default;

private:
    std::uint16_t a_{1};
    std::uint16_t b_{2};
};

// struct with padding: only its members can be compared
struct padded {
    std::uint8_t  a;
    std::uint32_t b;
    std::uint8_t  c;
    std::uint64_t d;
};

std::string
hex(unsigned char const* p, std::size_t n)
{
    std::string s;
    char        b[4];
    for (std::size_t i = 0; i < n && i < 40; ++i) {
        std::snprintf(b, sizeof b, "%02x", p[i]);
        s += b;
    }
    return s + (n > 40 ? "..." : "");
}

bytes
draw_bytes(pbt::ctx& c, std::size_t n)
{
    bytes r(n);
    switch (c.weighted({4, 2, 1, 1, 1})) {
    case 0: {
        std::uint64_t s = c.draw(~0ULL);
        for (auto& b : r)
            b = (unsigned char)((s = pbt::mix(s)) >> 13);
        break;
    }
    case 1:
        for (std::size_t i = 0; i < n; ++i)
            r[i] = (unsigned char)(i < 16 ? c.draw(255) : i);
        break;
    case 2:
        for (std::size_t i = 0; i < n; ++i)
            r[i] = (unsigned char)(i + 1);
        break;
    case 3: std::fill(r.begin(), r.end(), (unsigned char)c.draw(255)); break;
    default: r[c.draw(n - 1)] = (unsigned char)(1 + c.draw(254)); break;
    }
    return r;
}

template <class T>
T
object(bytes const& b)
{
    T t;
    std::memcpy(static_cast<void*>(&t), b.data(), sizeof(T));
    return t;
}
template <class T>
void
same(T const& t, bytes const& want, char const* how)
{
    unsigned char got[sizeof(T)];
    std::memcpy(got, &t, sizeof(T));
    PBT_CHECK(!std::memcmp(got, want.data(), sizeof(T)), "%s: bytes %s, expected %s", how, hex(got, sizeof(T)).c_str(),
              hex(want.data(), sizeof(T)).c_str());
}

template <class Buf>
bytes
flat(Buf const& b)
{
    bytes r;
    for (auto x : b)
        r.push_back((unsigned char)x);
    return r;
}

// through one kind of buffer: write at the offset, read back at the offset, nothing else changes
template <class T, class Buf>
void
through(pbt::ctx& c, char const* kind, Buf& buf, std::size_t off, bytes const& val)
{
    using D           = xitren::func::data<T>;
    T const     v     = object<T>(val);
    bytes const before = flat(buf);
    bytes       want  = before;
    std::copy(val.begin(), val.end(), want.begin() + off);
    D::serialize(v, buf.begin() + off);
    bytes const after = flat(buf);
    for (std::size_t i = 0; i < after.size(); ++i)
        PBT_CHECK(after[i] == want[i], "%s: after writing %zu bytes at %zu, byte %zu is %02x, expected %02x", kind, sizeof(T), off,
                  i, after[i], want[i]);
    same(D::deserialize(buf.begin() + off), val, kind);
    Buf const& cb = buf;
    same(D::deserialize(cb.begin() + off), val, "const iterator");
    PBT_CHECK(flat(buf) == want, "%s: reading changed the buffer", kind);
    // any other position of the same buffer
    std::size_t const other = c.draw(want.size() - sizeof(T));
    bytes const       there(want.begin() + other, want.begin() + other + sizeof(T));
    T const           w = D::deserialize(buf.begin() + other);
    same(w, there, "another position");
    bytes out(sizeof(T));
    D::serialize(w, out.begin());
    PBT_CHECK(out == there, "bytes read from position %zu come back as %s", other, hex(out.data(), out.size()).c_str());
}

template <class T>
void
run(pbt::ctx& c, char const* name)
{
    static_assert(std::is_trivially_copyable_v<T>);
    using D           = xitren::func::data<T>;
    bytes const val   = draw_bytes(c, sizeof(T));
    T const     v     = object<T>(val);
    std::size_t off   = c.draw(17), tail = c.draw(17);
    std::size_t total = off + sizeof(T) + tail;
    c.op("%s (%zu bytes) %s at offset %zu of %zu", name, sizeof(T), hex(val.data(), val.size()).c_str(), off, total);
    c.label(name);

    auto const arr = D::serialize(v);
    static_assert(sizeof(arr) == sizeof(T));
    PBT_CHECK(bytes(arr.begin(), arr.end()) == val, "serialize gave %s, expected %s", hex(arr.data(), arr.size()).c_str(),
              hex(val.data(), val.size()).c_str());
    same(v, val, "the serialized object itself");
    same(D::deserialize(arr.begin()), val, "from the returned array");

    bytes background(total);
    std::uint64_t s = c.draw(~0ULL);
    for (auto& b : background)
        b = (unsigned char)((s = pbt::mix(s)) >> 21);
    switch (c.draw(7)) {
    case 0: {    // exactly sized allocation, raw pointers
        std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[total]);
        std::copy(background.begin(), background.end(), p.get());
        std::span<std::uint8_t> sp(p.get(), total);
        D::serialize(v, p.get() + off);
        std::copy(val.begin(), val.end(), background.begin() + off);
        PBT_CHECK(std::equal(background.begin(), background.end(), p.get()), "raw pointer: bytes around or of the value differ");
        same(D::deserialize(p.get() + off), val, "raw pointer");
        same(D::deserialize(static_cast<std::uint8_t const*>(p.get() + off)), val, "const raw pointer");
        break;
    }
    case 1: {
        std::vector<std::uint8_t> b(background.begin(), background.end());
        through<T>(c, "vector", b, off, val);
        break;
    }
    case 2: {
        std::deque<std::uint8_t> b;
        std::size_t const shift = c.draw(600);    // the value may straddle two blocks of the deque
        for (std::size_t i = 0; i < shift; ++i)
            b.push_back(0);
        for (auto x : background)
            b.push_back(x);
        for (std::size_t i = 0; i < shift; ++i)
            b.pop_front();
        through<T>(c, "deque", b, off, val);
        break;
    }
    case 3: {
        std::array<std::uint8_t, 512 + sizeof(T)> b{};
        std::copy(background.begin(), background.end(), b.begin());
        through<T>(c, "array", b, off, val);
        break;
    }
    case 4: {
        std::string b(background.begin(), background.end());
        through<T>(c, "string", b, off, val);
        break;
    }
    case 5: {
        std::vector<std::int8_t> b(background.begin(), background.end());
        through<T>(c, "vector of signed bytes", b, off, val);
        break;
    }
    case 6: {    // consecutive values of the type, as messages in a stream
        std::vector<std::uint8_t> b(off + 4 * sizeof(T));
        std::vector<bytes>        vals;
        for (int i = 0; i < 4; ++i) {
            vals.push_back(draw_bytes(c, sizeof(T)));
            D::serialize(object<T>(vals.back()), b.begin() + off + i * sizeof(T));
        }
        for (int i = 0; i < 4; ++i)
            same(D::deserialize(b.begin() + off + i * sizeof(T)), vals[i], "value in a stream");
        break;
    }
    default: {    // onto itself: an object's own storage as the target
        T target = object<T>(draw_bytes(c, sizeof(T)));
        D::serialize(v, reinterpret_cast<std::uint8_t*>(&target));
        same(target, val, "serialized onto another object");
        T again = D::deserialize(reinterpret_cast<std::uint8_t const*>(&v));
        same(again, val, "deserialized from another object");
        break;
    }
    }
    if (sizeof(T) > 1 && off > 0 && std::adjacent_find(val.begin(), val.end(), std::not_equal_to<>()) != val.end())
        c.nontrivial();
}

void
run_padded(pbt::ctx& c)
{
    using D = xitren::func::data<padded>;
    padded const v{std::uint8_t(c.draw(255)), std::uint32_t(c.edgy(32)), std::uint8_t(c.draw(255)), c.edgy(64)};
    c.op("padded {%u, %u, %u, %" PRIu64 "}", v.a, v.b, v.c, v.d);
    auto const eq = [&](padded const& w, char const* how) {
        PBT_CHECK(w.a == v.a && w.b == v.b && w.c == v.c && w.d == v.d, "%s: members differ", how);
    };
    auto const arr = D::serialize(v);
    eq(D::deserialize(arr.begin()), "padded structure");
    unsigned char raw[sizeof(padded)];
    std::memcpy(raw, arr.data(), sizeof raw);
    eq(*reinterpret_cast<padded const*>(raw), "memory image");
    std::vector<std::uint8_t> b(sizeof(padded) + 9, 0xEE);
    std::size_t const off = c.draw(9);
    D::serialize(v, b.begin() + off);
    eq(D::deserialize(b.begin() + off), "padded structure in a buffer");
    for (std::size_t i = 0; i < b.size(); ++i)
        PBT_CHECK((i >= off && i < off + sizeof(padded)) || b[i] == 0xEE, "byte %zu outside the value changed", i);
    c.label("padded structure");
}

}    // namespace

void
property(pbt::ctx& c)
{
    using namespace xitren::func;
    switch (c.draw(27)) {
    case 0: return run<std::uint8_t>(c, "uint8");
    case 1: return run<std::uint16_t>(c, "uint16");
    case 2: return run<std::uint32_t>(c, "uint32");
    case 3: return run<std::uint64_t>(c, "uint64");
    case 4: return run<std::int16_t>(c, "int16");
    case 5: return run<std::int64_t>(c, "int64");
    case 6: return run<char>(c, "char");
    case 7: return run<double>(c, "double");
    case 8: return run<small>(c, "enum of a byte");
    case 9: return run<wide>(c, "64-bit enum");
    case 10: return run<blob<3>>(c, "3 bytes");
    case 11: return run<blob<37>>(c, "37 bytes");
    case 12: return run<blob<300>>(c, "300 bytes");
    case 13: return run<odd>(c, "packed structure");
    case 14: return run<even>(c, "structure");
    case 15: return run<nested>(c, "nested packed structure");
    case 16: return run<bits>(c, "bit fields");
    case 17: return run<either>(c, "union");
    case 18: return run<derived>(c, "derived structure");
    case 19: return run<aligned16>(c, "over-aligned structure");
    case 20: return run<privates>(c, "class");
    case 21: return run<std::array<std::uint32_t, 5>>(c, "array of uint32");
    case 22: return run<msb_t<std::uint64_t>>(c, "msb_t");
    case 23: return run<lsb_t<std::uint16_t>>(c, "lsb_t");
    case 24: return run<blob<256>>(c, "256 bytes");
    case 25: return run<std::array<std::uint16_t, 2500>>(c, "array of 2500 uint16");
    case 26: return c.chance(1, 4) ? run<blob<66001>>(c, "66001 bytes") : run<blob<257>>(c, "257 bytes");
    default: return run_padded(c);
    }
}
