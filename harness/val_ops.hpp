// Arithmetic on an observable value, applied to a plain value as the reference.
#pragma once

#include "val_world.hpp"

#include <cinttypes>
#include <limits>
#include <map>

namespace vw {

enum class vop { assign, pre_inc, post_inc, pre_dec, post_dec, plus, minus };
constexpr std::size_t n_vops = 7;

inline char const*
name(vop o)
{
    static char const* const n[] = {"=", "++x", "x++", "--x", "x--", "+=", "-="};
    return n[int(o)];
}

template <class T>
std::string
show(T v)
{
    if constexpr (std::is_floating_point_v<T>)
        return std::to_string(double(v));
    else if constexpr (std::is_signed_v<T>)
        return std::to_string((long long)(v));
    else
        return std::to_string((unsigned long long)(v));
}

// What += and -= are given: a value of the type itself or an int.
template <class T>
struct operand {
    T    k{};
    int  i{};
    bool as_int{};
};

// false: a plain value would overflow (undefined in the type the sum is formed in)
template <class T>
bool
defined(vop o, T x, operand<T> const& d)
{
    if constexpr (std::is_floating_point_v<T>)
        return true;
    else if constexpr (std::is_signed_v<T> || sizeof(T) < sizeof(int)) {
        using W    = std::conditional_t<(sizeof(T) < sizeof(int)), int, T>;    // the type the sum is formed in
        __int128 k = d.as_int ? __int128(d.i) : __int128(d.k);
        __int128 y = o == vop::pre_inc || o == vop::post_inc ? 1
                     : o == vop::pre_dec || o == vop::post_dec ? -1
                     : o == vop::plus                          ? k
                     : o == vop::minus                         ? -k
                                                               : 0;
        __int128 r = __int128(x) + y;
        return r >= std::numeric_limits<W>::min() && r <= std::numeric_limits<W>::max();
    } else
        return true;
}

template <class T>
T
plain(vop o, T& x, T v, operand<T> const& d)
{
    switch (o) {
    case vop::assign: return x = v;
    case vop::pre_inc: return ++x;
    case vop::post_inc: return x++;
    case vop::pre_dec: return --x;
    case vop::post_dec: return x--;
    case vop::plus: return d.as_int ? x += d.i : x += d.k;
    default: return d.as_int ? x -= d.i : x -= d.k;
    }
}
template <class T>
T
real(vop o, vtarget<T>& t, T v, operand<T> const& d)
{
    switch (o) {
    case vop::assign: return t.assign(v);
    case vop::pre_inc: return t.pre_inc();
    case vop::post_inc: return t.post_inc();
    case vop::pre_dec: return t.pre_dec();
    case vop::post_dec: return t.post_dec();
    case vop::plus: return d.as_int ? t.plus_int(d.i) : t.plus(d.k);
    default: return d.as_int ? t.minus_int(d.i) : t.minus(d.k);
    }
}
template <class T>
T
draw_value(pbt::ctx& c)
{
    if constexpr (std::is_floating_point_v<T>) {
        if (c.chance(1, 30))
            return c.pick<T>({T(-0.0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                              std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::max(),
                              std::numeric_limits<T>::denorm_min()});
        if (c.chance(1, 2))
            return T(c.range(-80, 80)) / T(8);
        return T(std::int64_t(c.edgy(40)) - (1LL << 39)) / T(c.chance(1, 2) ? 1 : 4);
    } else
        return T(c.edgy(sizeof(T) * 8));
}
template <class T>
operand<T>
draw_operand(pbt::ctx& c)
{
    operand<T> d;
    d.as_int = c.chance(1, 3);
    if (d.as_int)
        d.i = c.chance(1, 3) ? int(std::uint32_t(c.edgy(32))) : int(c.range(-20, 20));
    else if (std::is_floating_point_v<T> || c.chance(1, 2))
        d.k = draw_value<T>(c);
    else
        d.k = T(c.range(-20, 20));
    return d;
}
template <class T>
std::string
show(operand<T> const& d)
{
    return d.as_int ? "int " + std::to_string(d.i) : show(d.k);
}
// Equal, a NaN being equal to a NaN and zero to minus zero
template <class T>
bool
same(T a, T b)
{
    return a == b || (a != a && b != b);
}

}    // namespace vw
