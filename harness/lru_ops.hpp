// An lru<Key, Value, Size, Exception> against a list of (key, value, time stored) kept most recent first.
#pragma once

#include <xitren/cache/lru.hpp>

#include "pbt.hpp"
#include "vclock.hpp"

#include <functional>
#include <list>
#include <optional>
#include <string>

struct clash {    // keys whose hashes collide
    int k{};
    friend bool
    operator==(clash const&, clash const&)
        = default;
};
template <>
struct std::hash<clash> {
    std::size_t
    operator()(clash const& c) const
    {
        return std::size_t(c.k & 1);
    }
};

struct lru_if {
    virtual ~lru_if() = default;
    enum class status { value, absent, timeout, missed };
    virtual void                          put(int k, int v)   = 0;
    virtual std::pair<status, int>        get(int k)          = 0;
    virtual std::int64_t                  period_ns()         = 0;
    std::size_t                           size{};
    bool                                  throws{};
    char const*                           keys = "";
};

template <class T>
T
encode(int i)
{
    if constexpr (std::is_same_v<T, std::string>)
        return std::string(i % 5 == 0 ? 40 : 1, 'k') + std::to_string(i);
    else if constexpr (std::is_same_v<T, std::int64_t>)    // equal when cut to 32 bits
        return (T(i / 2) << 40) - (i & 1);
    else
        return T(i);
}
template <class T>
int
decode(T const& v)
{
    if constexpr (std::is_same_v<T, std::string>)
        return std::atoi(v.c_str() + v.find_first_of("-0123456789"));
    else
        return int(v);
}

template <class K, class V, std::size_t S, bool E>
struct lru_box final : lru_if {
    xitren::cache::lru<K, V, S, E> c;
    explicit lru_box(std::chrono::nanoseconds p) : c{p}
    {
        size   = S;
        throws = E;
        keys   = std::is_same_v<K, std::string>    ? "string"
                 : std::is_same_v<K, int>          ? "int"
                 : std::is_same_v<K, std::int64_t> ? "64-bit"
                                                   : "clashing";
    }
    void
    put(int k, int v) override
    {
        c.put(encode<K>(k), encode<V>(v));
    }
    std::pair<status, int>
    get(int k) override
    {
        try {
            auto r = c.get(encode<K>(k));
            if (!r)
                return {status::absent, 0};
            return {status::value, decode<V>(*r)};
        } catch (xitren::cache::cache_timeout const&) {
            return {status::timeout, 0};
        } catch (xitren::cache::cache_missed const&) {
            return {status::missed, 0};
        }
    }
    std::int64_t
    period_ns() override
    {
        return std::int64_t(std::chrono::nanoseconds(c.expired_after()).count());
    }
};

inline std::unique_ptr<lru_if>
make_lru(std::size_t i, std::chrono::nanoseconds p)
{
    switch (i) {
    case 0: return std::make_unique<lru_box<int, int, 1, false>>(p);
    case 1: return std::make_unique<lru_box<int, std::string, 2, false>>(p);
    case 2: return std::make_unique<lru_box<int, int, 3, true>>(p);
    case 3: return std::make_unique<lru_box<std::string, std::string, 3, false>>(p);
    case 4: return std::make_unique<lru_box<int, int, 4, false>>(p);
    case 5: return std::make_unique<lru_box<int, std::string, 5, true>>(p);
    case 6: return std::make_unique<lru_box<clash, int, 8, false>>(p);
    case 7: return std::make_unique<lru_box<std::string, int, 8, true>>(p);
    case 8: return std::make_unique<lru_box<int, int, 1, true>>(p);
    case 9: return std::make_unique<lru_box<clash, std::string, 2, true>>(p);
    case 10: return std::make_unique<lru_box<int, int, 16, false>>(p);
    case 11: return std::make_unique<lru_box<int, std::string, 33, true>>(p);
    case 12: return std::make_unique<lru_box<std::int64_t, int, 2, false>>(p);
    case 13: return std::make_unique<lru_box<int, int, 300, false>>(p);
    default: return std::make_unique<lru_box<int, int, 1025, true>>(p);
    }
}
constexpr std::size_t lru_kinds = 15;    // the last two are large
// small caches mostly: their histories are long in proportion
inline std::size_t
draw_lru(pbt::ctx& c)
{
    return c.chance(1, 24) ? lru_kinds - 1 - c.draw(1) : c.draw(lru_kinds - 3);
}

struct lru_model {
    struct entry {
        int          key, value;
        std::int64_t at;
    };
    std::list<entry> l;
    std::size_t      size;
    std::int64_t     period;
    int              evicted = 0;

    std::list<entry>::iterator
    find(int k)
    {
        return std::find_if(l.begin(), l.end(), [&](entry const& e) { return e.key == k; });
    }
    void
    put(int k, int v, std::int64_t now)
    {
        auto it = find(k);
        if (it != l.end())
            l.erase(it);
        else if (l.size() >= size) {
            l.pop_back();
            ++evicted;
        }
        l.push_front({k, v, now});
    }
};

inline char const*
name_of(lru_if::status s)
{
    switch (s) {
    case lru_if::status::value: return "a value";
    case lru_if::status::absent: return "absent";
    case lru_if::status::timeout: return "cache_timeout";
    default: return "cache_missed";
    }
}
void
known_findings()
{}
bool const property_flaky = false;
