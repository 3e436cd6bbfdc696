// Type-erased static_heap<N> for many N, and a black-box model of a heap: what a client can see, nothing else.
#pragma once

#include <xitren/allocators/static_heap.hpp>

#include "pbt.hpp"

#include <functional>
#include <utility>
#include <map>
#include <optional>

struct heap_stats {
    std::size_t available, largest, smallest, blocks, min_ever, allocs, frees;
};

struct heap_if {
    virtual ~heap_if()                                  = default;
    virtual void*       allocate(std::size_t)           = 0;
    virtual void*       callocate(std::size_t, std::size_t) = 0;
    virtual void        deallocate(void*)               = 0;
    virtual std::size_t free_size() const               = 0;
    virtual std::size_t min_free() const                = 0;
    virtual void        reset_min()                     = 0;
    virtual void        on_fail(std::function<void()>)  = 0;
    virtual heap_stats  stats()                         = 0;
    virtual char const* base() const                    = 0;
    virtual std::size_t object_size() const             = 0;
    virtual std::size_t nominal() const                 = 0;
};

template <std::size_t N>
struct heap_box final : heap_if {
    using heap_t = xitren::allocators::static_heap<N>;
    // dirty memory underneath: nothing may depend on the storage having been zero before construction
    void*   raw;
    heap_t* h;
    explicit heap_box(unsigned char dirt)
    {
        raw = ::operator new(sizeof(heap_t));
        std::memset(raw, dirt, sizeof(heap_t));
        asm volatile("" : : "r"(raw) : "memory");    // the dirt is there, whatever the compiler knows of new objects
        h = new (raw) heap_t();
    }
    ~heap_box() override
    {
        h->~heap_t();
        ::operator delete(raw);
    }
    void*
    allocate(std::size_t n) override
    {
        return h->allocate(n);
    }
    void*
    callocate(std::size_t a, std::size_t b) override
    {
        return h->callocate(a, b);
    }
    void
    deallocate(void* p) override
    {
        h->deallocate(p);
    }
    std::size_t
    free_size() const override
    {
        return h->free_heap_size();
    }
    std::size_t
    min_free() const override
    {
        return h->minimum_ever_free_heap_size();
    }
    void
    reset_min() override
    {
        h->reset_minimum_ever_free_heap_size();
    }
    void
    on_fail(std::function<void()> f) override
    {
        h->on_fail(std::move(f));
    }
    heap_stats
    stats() override
    {
        typename heap_t::heap_stats_t s{};
        h->v_port_get_heap_stats(&s);
        return {s.x_available_heap_space_in_bytes,      s.x_size_of_largest_free_block_in_bytes,
                s.x_size_of_smallest_free_block_in_bytes, s.x_number_of_free_blocks,
                s.x_minimum_ever_free_bytes_remaining,  s.x_number_of_successful_allocations,
                s.x_number_of_successful_frees};
    }
    char const*
    base() const override
    {
        return reinterpret_cast<char const*>(h);
    }
    std::size_t
    object_size() const override
    {
        return sizeof(heap_t);
    }
    std::size_t
    nominal() const override
    {
        return N;
    }
};

constexpr std::size_t heap_sizes[] = {64,  96,  100, 127, 128,  160,  200,  256,  300,   333,
                                      512, 640, 777, 800, 1024, 1500, 2048, 4096, 10000, 65536,
                                      140001, 1u << 20, 20u << 20};    // sizes no 16-bit and no 24-bit field can hold
// how often each is drawn
constexpr std::initializer_list<unsigned> heap_weights = {2, 2, 2, 2, 3, 3, 3, 4, 4, 4, 6, 5, 5, 4, 6, 4, 4, 4, 2, 1, 1, 1, 1};

template <std::size_t... I>
std::unique_ptr<heap_if>
make_heap_i(std::size_t i, unsigned char dirt, std::index_sequence<I...>)
{
    std::unique_ptr<heap_if> r;
    ((i == I ? void(r = std::make_unique<heap_box<heap_sizes[I]>>(dirt)) : void()), ...);
    return r;
}
constexpr std::size_t heap_kinds = sizeof(heap_sizes) / sizeof(heap_sizes[0]);
inline std::unique_ptr<heap_if>
make_heap(std::size_t i, unsigned char dirt)
{
    return make_heap_i(i, dirt, std::make_index_sequence<heap_kinds>{});
}

// The fixed per-block overhead as a client sees it: what a request costs beyond its own (8-byte rounded) size when
// there is plenty of room.
inline std::size_t
heap_overhead()
{
    static std::size_t const ov = [] {
        heap_box<65536> b(0);
        std::size_t     best = 0;
        for (std::size_t n : {8, 16, 64, 256, 1024}) {
            std::size_t const f0 = b.free_size();
            if (!b.allocate(n))
                continue;
            std::size_t const held = f0 - b.free_size();
            if (held >= n && (best == 0 || held - n < best))
                best = held - n;
        }
        return best;
    }();
    return ov;
}

struct live_block {
    char*         p{};
    std::size_t   req{};        // requested bytes
    std::size_t   held{};       // by how much the reported free size dropped
    std::uint64_t pattern{};    // seed of the client's bytes
    std::size_t   filled{};
};

// Everything a client knows about the history of one heap.
struct heap_client {
    std::unique_ptr<heap_if>     h;
    std::size_t                  initial{}, ov{};
    char*                        arena{};    // start of the managed space; known once the first block was handed out
    std::map<char*, live_block>  live;       // by address
    std::size_t                  min_free{};
    std::size_t                  n_alloc{}, n_free{};
    std::uint64_t                next_pattern{1};

    heap_client(std::size_t kind, unsigned char dirt) : h(make_heap(kind, dirt))
    {
        initial  = h->free_size();
        min_free = initial;
        ov       = heap_overhead();
    }

    static unsigned char
    byte_at(std::uint64_t pat, std::size_t i)
    {
        return static_cast<unsigned char>(pbt::mix(pat * 1000003 + i / 8) >> (8 * (i % 8)));
    }
    // Big blocks are written and read at both ends and in steps in between.
    static std::size_t
    next_byte(std::size_t i, std::size_t n)
    {
        return n <= 4096 || i < 1024 || i + 1024 >= n ? i + 1 : std::min(i + n / 512, n - 1024);
    }
    static void
    fill(live_block& b, std::uint64_t pat)
    {
        b.pattern = pat;
        b.filled  = b.req;
        for (std::size_t i = 0; i < b.req; i = next_byte(i, b.req))
            b.p[i] = static_cast<char>(byte_at(pat, i));
    }
    static bool
    intact(live_block const& b)
    {
        for (std::size_t i = 0; i < b.filled; i = next_byte(i, b.filled))
            if (static_cast<unsigned char>(b.p[i]) != byte_at(b.pattern, i))
                return false;
        return true;
    }
    static std::size_t
    need(std::size_t req, std::size_t ov)    // ~0: cannot exist
    {
        if (req > (~std::size_t{0} >> 1))
            return ~std::size_t{0};
        return ((req + 7) & ~std::size_t{7}) + ov;
    }
    std::size_t
    held_total() const
    {
        std::size_t s = 0;
        for (auto& [p, b] : live)
            s += b.held;
        return s;
    }
    // The managed space starts where the first block of a fresh heap starts. Learnt from a scratch copy of the heap.
    void
    learn_arena()
    {
        if (arena)
            return;
        void* p = h->allocate(1);
        if (p) {
            arena = static_cast<char*>(p) - ov;
            h->deallocate(p);
            h->reset_min();
            n_alloc++;
            n_free++;
        }
    }
    // Contiguous free regions: the managed space minus what live blocks hold.
    std::vector<std::pair<char*, std::size_t>>
    gaps() const
    {
        std::vector<std::pair<char*, std::size_t>> g;
        char*                                      at = arena;
        for (auto& [p, b] : live) {
            char* s = p - ov;
            if (s > at)
                g.emplace_back(at, std::size_t(s - at));
            at = s + b.held;
        }
        char* end = arena + initial;
        if (end > at)
            g.emplace_back(at, std::size_t(end - at));
        return g;
    }
    std::size_t
    largest_gap() const
    {
        std::size_t m = 0;
        for (auto& g : gaps())
            m = std::max(m, g.second);
        return m;
    }
};

// A request size: small ones, exact fits of the present gaps, and absurd ones.
inline std::size_t
draw_request(pbt::ctx& c, heap_client const& m, unsigned profile = 0)
{
    if (profile == 1 && !c.chance(1, 10))    // many small blocks: fragmentation
        return std::size_t(c.range(1, std::int64_t(m.initial / 12) + 8));
    if (profile == 2 && !c.chance(1, 10))    // all of one size class
        return std::size_t(c.range(1, 24));
    switch (c.weighted({10, 6, 4, 6, 2, 2})) {
    case 0: return std::size_t(c.range(1, 64));
    case 1: return std::size_t(c.range(1, std::int64_t(m.initial / 4) + 8));
    case 2: return std::size_t(c.range(0, std::int64_t(m.initial) + 40));
    case 3: {
        auto g = m.gaps();
        if (g.empty())
            return std::size_t(c.range(1, 32));
        std::size_t s = g[c.draw(g.size() - 1)].second;
        // around an exact fit, around the point where a rest is too small to be split off, and around the gap itself
        std::int64_t want = std::int64_t(s) - std::int64_t(m.ov) * c.range(0, 4) + c.range(-9, 9);
        return want < 0 ? 1 : std::size_t(want);
    }
    case 4: return std::size_t(m.h->free_size()) + std::size_t(c.range(0, 32)) - 16;
    default: return (~std::size_t{0} >> c.draw(2)) - std::size_t(c.range(0, 48)) + 24 * std::size_t(c.draw(1));
    }
}
