// Checksums, headers, fields and payload items for the packet checks.
#pragma once

#include "pbt.hpp"

#include <array>
#include <cstdint>
#include <deque>
#include <memory>
#include <string>
#include <vector>
#include <xitren/func/packet.hpp>

namespace pk {

using bytes = std::vector<unsigned char>;

inline std::string
hex(unsigned char const* p, std::size_t n)
{
    std::string s;
    char        b[4];
    for (std::size_t i = 0; i < n && i < 64; ++i) {
        std::snprintf(b, sizeof b, "%02x", p[i]);
        s += b;
    }
    return s + (n > 64 ? "..." : "");
}
inline std::string
hex(bytes const& b)
{
    return hex(b.data(), b.size());
}

// a one-byte checksum value
struct one_t {
    std::uint8_t v{};
    constexpr one_t() = default;
    constexpr one_t(std::uint8_t x) : v(x) {}
    constexpr std::uint8_t
    get() const
    {
        return v;
    }
    constexpr bool
    operator==(one_t const& o) const
    {
        return v == o.v;
    }
};

struct sum8 {
    using value_type = one_t;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint8_t s = 0x3c;
        for (; b != e; ++b)
            s = std::uint8_t(s * 31 + std::uint8_t(*b));
        return value_type{s};
    }
};
struct crc16_modbus {
    using value_type = xitren::func::lsb_t<std::uint16_t>;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint16_t c = 0xffff;
        for (; b != e; ++b) {
            c = std::uint16_t(c ^ std::uint8_t(*b));
            for (int i = 0; i < 8; ++i)
                c = std::uint16_t(c & 1 ? (c >> 1) ^ 0xa001 : c >> 1);
        }
        return value_type{c};
    }
};
struct crc16_ccitt {
    using value_type = xitren::func::msb_t<std::uint16_t>;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint16_t c = 0x1d0f;
        for (; b != e; ++b) {
            c = std::uint16_t(c ^ (std::uint8_t(*b) << 8));
            for (int i = 0; i < 8; ++i)
                c = std::uint16_t(c & 0x8000 ? (c << 1) ^ 0x1021 : c << 1);
        }
        return value_type{c};
    }
};
template <class V>
struct crc32_in {
    using value_type = V;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint32_t c = ~0u;
        for (; b != e; ++b) {
            c ^= std::uint8_t(*b);
            for (int i = 0; i < 8; ++i)
                c = c & 1 ? (c >> 1) ^ 0xedb88320u : c >> 1;
        }
        return value_type{std::uint32_t(~c)};
    }
};
struct hash64 {
    using value_type = xitren::func::lsb_t<std::uint64_t>;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint64_t c = 1469598103934665603ULL;
        for (; b != e; ++b)
            c = (c ^ std::uint8_t(*b)) * 1099511628211ULL;
        return value_type{c};
    }
};

struct __attribute__((packed)) h1 {
    std::uint8_t a;
};
struct __attribute__((packed)) h2 {
    std::uint16_t a;
};
struct __attribute__((packed)) h3 {
    std::array<std::uint8_t, 3> magic;
};
struct __attribute__((packed)) h4 {
    xitren::func::msb_t<std::uint32_t> len;
};
struct __attribute__((packed)) h7 {
    std::array<char, 2> magic;
    std::uint8_t        ver;
    std::uint32_t       n;
};
struct __attribute__((packed)) h8 {
    std::uint64_t a;
};
struct __attribute__((packed)) f1 {
    std::uint8_t a;
};
struct __attribute__((packed)) f2 {
    xitren::func::lsb_t<std::uint16_t> a;
};
struct __attribute__((packed)) f3 {
    std::uint8_t  a;
    std::uint16_t b;
};
struct __attribute__((packed)) f5 {
    std::uint32_t a;
    std::uint8_t  b;
};
struct __attribute__((packed)) f6 {
    std::uint16_t a;
    std::uint32_t b;
};
struct __attribute__((packed)) f16 {
    double        a;
    std::uint64_t b;
};
struct __attribute__((packed)) f40 {
    std::uint8_t a[40];
};
struct __attribute__((packed)) h300 {
    std::array<std::uint16_t, 150> a;
};
struct __attribute__((packed)) f300 {
    std::uint32_t a;
    std::uint8_t  b[296];
};
struct __attribute__((packed)) f66000 {
    std::uint8_t a[66000];
};
struct t3 {
    std::uint8_t a[3];
};
struct __attribute__((packed)) t7 {
    std::uint32_t a;
    t3            b;
};
struct __attribute__((packed)) t301 {
    std::uint8_t a[301];
};
struct t16 {
    std::uint64_t a, b;
};

// ordinary structures without padding, which would be aligned if they stood alone
struct ha4 {
    std::uint32_t a;
};
struct fa2 {
    std::uint16_t a;
};
struct fa8 {
    std::uint32_t a;
    float         b;
};
struct fa16 {
    double        a;
    std::uint64_t b;
};
struct fa22 {
    std::uint16_t a[11];
};

template <class T>
T
object(unsigned char const* p)
{
    T t;
    std::memcpy(static_cast<void*>(&t), p, sizeof(T));
    return t;
}
template <class T>
bytes
image(T const& t)
{
    bytes r(sizeof(T));
    std::memcpy(r.data(), &t, sizeof(T));
    return r;
}
template <class Crc>
bytes
checksum(bytes const& b)
{
    return image(Crc::calculate(b.begin(), b.end()));
}

inline bytes
draw_bytes(pbt::ctx& c, std::size_t n)
{
    bytes r(n);
    if (!n)
        return r;
    switch (c.weighted({4, 2, 1, 1})) {
    case 0: {
        std::uint64_t s = c.draw(~0ULL);
        for (auto& b : r)
            b = (unsigned char)((s = pbt::mix(s)) >> 13);
        break;
    }
    case 1:
        for (std::size_t i = 0; i < n; ++i)
            r[i] = (unsigned char)(i < 24 ? c.draw(255) : 3 * i);
        break;
    case 2: std::fill(r.begin(), r.end(), (unsigned char)c.draw(255)); break;
    default: r[c.draw(n - 1)] = (unsigned char)(1 + c.draw(254)); break;
    }
    return r;
}

// a transmission error
inline void
corrupt(pbt::ctx& c, bytes& b)
{
    if (b.empty())
        return;
    auto at = [&] { return c.draw(b.size() - 1); };
    switch (c.weighted({4, 3, 2, 1, 1, 1})) {
    case 0: b[at()] ^= (unsigned char)(1u << c.draw(7)); break;
    case 1: b[at()] = (unsigned char)c.draw(255); break;
    case 2: std::swap(b[at()], b[at()]); break;
    case 3: b = draw_bytes(c, b.size()); break;
    case 4: std::rotate(b.begin(), b.begin() + at(), b.end()); break;
    default:
        for (int i = 0; i < 2 && b.size() >= 2; ++i)
            b[b.size() - 1 - c.draw(1)] ^= (unsigned char)(1u << c.draw(7));    // the end: checksum bytes
        break;
    }
}

}    // namespace pk
