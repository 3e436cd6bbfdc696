// Items for the pipelines: each knows who pushed it, tells when it was torn, and can take its time while being copied,
// which widens the windows in which a hand-over could go wrong.
#pragma once

#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>

#include "pbt.hpp"

#include <string>
#include <thread>

namespace pi {

// What a pipeline writes to (only builds with DEBUG defined do): a log that takes anything, keeps nothing, and may be slow,
// which widens the windows around the places that write.
struct sink {
    template <class T>
    sink&
    operator<<(T const& what);
};
struct quiet_log {
    static sink&
    trace()
    {
        static sink s;
        return s;
    }
    static sink&
    debug()
    {
        return trace();
    }
    static sink&
    warning()
    {
        return trace();
    }
    static sink&
    error()
    {
        return trace();
    }
    static sink&
    critical()
    {
        return trace();
    }
};

inline std::atomic<unsigned> jitter{0};    // 0 off .. 3 rough

inline unsigned
rnd()
{
    static std::atomic<unsigned>      seeds{1};
    static thread_local std::uint64_t s = pbt::mix(seeds.fetch_add(1, std::memory_order_relaxed));
    s                                   = pbt::mix(s);
    return unsigned(s >> 11);
}
inline void
spin(unsigned n)
{
    for (unsigned volatile i = 0; i < n; ++i) {}
}
// what: 0 nothing, 1 short spins, 2 yields, 3 now and then a real sleep
inline void
dawdle(unsigned what)
{
    if (what == 0)
        return;
    unsigned const r = rnd();
    if (what == 1)
        spin(r % 300);
    else if (what == 2) {
        if (r % 3 == 0)
            std::this_thread::yield();
    } else if (r % 16 == 0)
        pbt::real_sleep_us(long(r / 16 % 120));
    else
        spin(r / 16 % 500);
}

template <class T>
sink&
sink::operator<<(T const& what)
{
    if constexpr (std::is_convertible_v<T const&, std::uint64_t>) {
        std::uint64_t volatile read = std::uint64_t(what);
        (void)read;
    }
    dawdle(jitter.load(std::memory_order_relaxed));
    return *this;
}

struct noisy {    // no default constructor
    std::uint32_t producer, serial;
    std::uint64_t check;
    noisy(std::uint32_t p, std::uint32_t s) : producer{p}, serial{s}, check{sum(p, s)} {}
    noisy(noisy const& o) : producer{o.producer}
    {
        dawdle(jitter.load(std::memory_order_relaxed));
        serial = o.serial;
        check  = o.check;
    }
    noisy&
    operator=(noisy const& o)
    {
        producer = o.producer;
        dawdle(jitter.load(std::memory_order_relaxed));
        serial = o.serial;
        check  = o.check;
        return *this;
    }
    static std::uint64_t
    sum(std::uint32_t p, std::uint32_t s)
    {
        return pbt::mix((std::uint64_t(p) << 32) | s);
    }
};
struct wide {
    std::uint32_t                 producer, serial;
    std::array<std::uint64_t, 25> fill;
};

template <class T>
T
make(std::uint32_t p, std::uint32_t s)
{
    if constexpr (std::is_same_v<T, noisy>)
        return noisy{p, s};
    else if constexpr (std::is_same_v<T, wide>) {
        wide w{p, s, {}};
        for (std::size_t i = 0; i < w.fill.size(); ++i)
            w.fill[i] = noisy::sum(p, s) + i;
        return w;
    } else if constexpr (std::is_same_v<T, std::string>)
        return std::to_string(p) + ":" + std::to_string(s) + ":" + std::string(s % 90, char('a' + (p + s) % 26));
    else
        return T((std::uint64_t(p) << 32) | s);
}
// -> producer, serial; fails when the item is not one that make() built
template <class T>
std::pair<std::uint32_t, std::uint32_t>
open_item(T const& t)
{
    if constexpr (std::is_same_v<T, noisy>) {
        PBT_CHECK(t.check == noisy::sum(t.producer, t.serial), "an item arrived modified (producer %u, serial %u)",
                  t.producer, t.serial);
        return {t.producer, t.serial};
    } else if constexpr (std::is_same_v<T, wide>) {
        for (std::size_t i = 0; i < t.fill.size(); ++i)
            PBT_CHECK(t.fill[i] == noisy::sum(t.producer, t.serial) + i,
                      "an item arrived modified (producer %u, serial %u)", t.producer, t.serial);
        return {t.producer, t.serial};
    } else if constexpr (std::is_same_v<T, std::string>) {
        unsigned p = 0, s = 0;
        PBT_CHECK(std::sscanf(t.c_str(), "%u:%u:", &p, &s) == 2 && t == make<std::string>(p, s),
                  "an item arrived modified: '%s'", t.substr(0, 120).c_str());
        return {p, s};
    } else
        return {std::uint32_t(t >> 32), std::uint32_t(t)};
}

struct reaper {    // joins in any case
    std::vector<std::thread> t;
    void
    join()
    {
        for (auto& x : t)
            if (x.joinable())
                x.join();
    }
    ~reaper() { join(); }
};

template <class Stage, class T>
void
push(Stage& st, unsigned p, unsigned s)
{
    // an object pushed by name stays the pusher's: it must be the same afterwards, and can be pushed again
    auto const same = [p, s](T const& item) {
        auto const [ip, is] = open_item(item);
        PBT_CHECK(ip == p && is == s, "pushing producer %u's item %u changed the pusher's own object", p, s);
    };
    switch (rnd() % 6) {
    case 0: {
        T item = make<T>(p, s);
        st.push(item);
        same(item);
        break;
    }
    case 1: {
        T const item = make<T>(p, s);
        st.push(std::move(item));    // const: only to be copied from
        same(item);
        break;
    }
    case 2: {
        T const item = make<T>(p, s);
        st.push(item);
        same(item);
        break;
    }
    default: st.push(make<T>(p, s));
    }
}

}    // namespace pi
