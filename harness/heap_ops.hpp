// One history of a static heap, checked against what its client knows. Which of the three properties a failed check
// belongs to is its tag; a harness reports only its own (HEAP_PROP) and carries on from what it observed otherwise.
#pragma once

#include "heap_box.hpp"

#define HCHECK(prop, cond, ...)                                                                                       \
    do {                                                                                                              \
        if (HEAP_PROP == prop && !(cond))                                                                             \
            ::pbt::fail(__VA_ARGS__);                                                                                 \
    } while (0)

inline void
heap_case(pbt::ctx& c)
{
    std::size_t const kind = c.weighted(heap_weights);
    unsigned char const dirt = c.pick<unsigned char>({0x00, 0xff, 0xa5, 0x80});
    heap_client       m(kind, dirt);
    auto&             h = *m.h;
    c.op("static_heap<%zu>, free %zu, overhead %zu", h.nominal(), m.initial, m.ov);
    HCHECK(2, h.min_free() == m.initial, "fresh heap<%zu>: low-water mark %zu, free %zu", h.nominal(), h.min_free(),
           m.initial);
    HCHECK(2, m.initial <= h.nominal(), "fresh heap<%zu> reports %zu free", h.nominal(), m.initial);
    HCHECK(3, m.ov > 0 && m.ov % 8 == 0 && m.ov <= 64, "per-block overhead looks wrong: %zu", m.ov);
    HCHECK(2, m.initial + 4 * m.ov + 8 >= h.nominal(), "fresh heap<%zu> offers only %zu", h.nominal(), m.initial);

    int callbacks = 0, old_callbacks = 0, fires = 0;
    bool has_cb = false;
    // what the failure callback does besides counting: give back a block, look at the heap, ask for a (smaller) block
    char*       cb_free  = nullptr;
    std::size_t cb_alloc = 0;
    bool        cb_look  = false;
    int         nested_refusals = 0;
    auto  install = [&] {
        int const gen = ++fires;
        has_cb        = true;
        h.on_fail([&, gen] {
            if (gen == fires)
                ++callbacks;
            else
                ++old_callbacks;
            if (cb_free) {
                auto it = m.live.find(cb_free);
                HCHECK(1, heap_client::intact(it->second), "block changed before the failure callback freed it");
                h.deallocate(cb_free);
                m.live.erase(it);
                m.n_free++;
                cb_free = nullptr;
                m.min_free = std::min(m.min_free, h.free_size());
            }
            if (cb_look) {
                HCHECK(2, h.free_size() == m.initial - m.held_total(),
                       "inside the failure callback: free size %zu, expected %zu", h.free_size(),
                       m.initial - m.held_total());
                auto const s = h.stats();
                HCHECK(2, s.available == h.free_size() && s.blocks == m.gaps().size(),
                       "inside the failure callback: stats report %zu available in %zu blocks, there are %zu in %zu",
                       s.available, s.blocks, h.free_size(), m.gaps().size());
            }
            if (cb_alloc) {
                std::size_t const n = std::exchange(cb_alloc, std::size_t{0}), f0 = h.free_size();
                bool const        fits = heap_client::need(n, m.ov) <= m.largest_gap();
                char* const       p    = static_cast<char*>(h.allocate(n));
                HCHECK(3, (p != nullptr) == fits, "a request of %zu bytes from inside the failure callback %s, %zu free", n,
                       p ? "succeeded" : "was refused", f0);
                if (p) {
                    live_block b;
                    b.p    = p;
                    b.req  = n;
                    b.held = f0 - h.free_size();
                    if (b.held < n || b.held > m.initial)
                        _exit(0);    // the accounting is off: not this history's subject
                    heap_client::fill(b, m.next_pattern++);
                    m.live[p] = b;
                    m.n_alloc++;
                    m.min_free = std::min(m.min_free, h.free_size());
                } else
                    ++nested_refusals;
            }
        });
    };
    if (c.chance(3, 4))
        install();

    m.learn_arena();
    HCHECK(3, m.arena != nullptr, "a 1-byte request on a fresh heap<%zu> with %zu free failed", h.nominal(), m.initial);
    HCHECK(2, h.free_size() == m.initial, "free size %zu after freeing the only block, %zu before", h.free_size(),
           m.initial);
    if (!m.arena)
        return;
    callbacks = 0;
    HCHECK(1, m.arena >= h.base() && m.arena + m.initial <= h.base() + h.object_size(),
           "managed space lies outside the heap object");

    // a second heap of the same type beside it, which nobody uses in the meantime
    std::optional<heap_client> other;
    live_block                 other_block;
    std::size_t                other_free = 0;
    auto                       make_other = [&] {
        other.emplace(kind, (unsigned char)0x5a);
        HCHECK(2, other->h->free_size() == m.initial, "a second heap of the type starts with %zu free instead of %zu",
               other->h->free_size(), m.initial);
        other_block.req = std::min<std::size_t>(16, m.initial / 4);
        other_block.p   = static_cast<char*>(other->h->allocate(other_block.req));
        HCHECK(3, other_block.p || heap_client::need(other_block.req, m.ov) > m.initial,
               "a fresh second heap refused %zu bytes", other_block.req);
        if (other_block.p) {
            HCHECK(1, other_block.p >= other->h->base()
                       && other_block.p + other_block.req <= other->h->base() + other->h->object_size(),
                   "a second heap's block lies outside that heap");
            heap_client::fill(other_block, 77);
        }
        other_free = other->h->free_size();
        c.op("a second heap of the type is made");
    };
    auto check_other = [&] {
        if (!other)
            return;
        HCHECK(2, other->h->free_size() == other_free, "an unused second heap's free size went from %zu to %zu", other_free,
               other->h->free_size());
        if (other_block.p)
            HCHECK(1, heap_client::intact(other_block), "an unused second heap's block changed");
    };
    if (heap_sizes[kind] <= (1u << 17) && c.chance(1, 6))
        make_other();

    bool refused = false, reused = false, merged = false;

    auto accounting = [&](char const* after) {
        std::size_t const held = m.held_total();
        HCHECK(2, h.free_size() == m.initial - held, "after %s: free size %zu, expected %zu - %zu held by %zu live blocks",
               after, h.free_size(), m.initial, held, m.live.size());
        m.min_free = std::min(m.min_free, h.free_size());
        HCHECK(2, h.min_free() == m.min_free, "after %s: low-water mark %zu, expected %zu", after, h.min_free(),
               m.min_free);
    };
    auto stats = [&](char const* after) {
        auto const s = h.stats();
        auto const g = m.gaps();
        HCHECK(2, s.available == h.free_size(), "after %s: stats report %zu available, free size is %zu", after,
               s.available, h.free_size());
        HCHECK(2, s.min_ever == m.min_free, "after %s: stats low-water %zu, expected %zu", after, s.min_ever, m.min_free);
        HCHECK(2, s.allocs == m.n_alloc, "after %s: stats count %zu allocations, %zu were made", after, s.allocs,
               m.n_alloc);
        HCHECK(2, s.frees == m.n_free, "after %s: stats count %zu frees, %zu were made", after, s.frees, m.n_free);
        HCHECK(2, s.blocks == g.size(), "after %s: stats count %zu free blocks, there are %zu free regions", after,
               s.blocks, g.size());
        if (!g.empty()) {
            std::size_t lo = ~std::size_t{0}, hi = 0;
            for (auto& x : g) {
                lo = std::min(lo, x.second);
                hi = std::max(hi, x.second);
            }
            HCHECK(2, s.largest == hi, "after %s: stats largest free block %zu, it is %zu", after, s.largest, hi);
            HCHECK(2, s.smallest == lo, "after %s: stats smallest free block %zu, it is %zu", after, s.smallest, lo);
        }
    };
    auto all_intact = [&](char const* after) {
        if (HEAP_PROP == 1 || HEAP_PROP == 3)
            for (auto& [p, b] : m.live)
                if (!heap_client::intact(b))
                    ::pbt::fail("after %s: block of %zu bytes at +%td changed", after, b.req, p - m.arena);
    };

    // n is what must fit; a plain request also has a callback contract
    auto request = [&](std::size_t n, bool plain, std::size_t num, std::size_t size, bool overflow) {
        std::size_t const need = overflow ? ~std::size_t{0} : heap_client::need(n, m.ov);
        std::size_t const gap  = m.largest_gap();
        bool const        fits = n > 0 && !overflow && need <= gap;
        auto const        pre_gaps = m.gaps();
        std::size_t const f0   = h.free_size();
        callbacks = old_callbacks = nested_refusals = 0;
        bool with_free            = false;
        cb_look                   = c.chance(1, 8);
        if (plain && has_cb && c.chance(1, 12)) {
            cb_alloc  = std::size_t(c.range(1, 40));
            with_free = true;
        }
        if (plain && has_cb && !m.live.empty() && c.chance(1, 12)) {
            auto it = m.live.begin();
            std::advance(it, long(c.draw(m.live.size() - 1)));
            cb_free   = it->first;
            with_free = true;
        }
        char* const p = static_cast<char*>(plain ? h.allocate(n) : h.callocate(num, size));
        cb_free       = nullptr;
        cb_alloc      = 0;
        cb_look       = false;
        c.op("%s(%zu%s) -> %s%td  [largest free region %zu]", plain ? "allocate" : "callocate", n,
             overflow ? " (overflows)" : "", p ? "+" : "null ", p ? p - m.arena : 0, gap);
        HCHECK(3, (p != nullptr) == fits,
               "%s of %zu bytes %s, needs %zu with overhead, largest free region is %zu (of %zu free)",
               plain ? "allocate" : "callocate", n, p ? "succeeded" : "was refused", need, gap, f0);
        if (plain) {
            HCHECK(3, callbacks == (has_cb && !p ? 1 + nested_refusals : 0), "%s request of %zu bytes called the failure callback %d times",
                   p ? "granted" : "refused", n, callbacks);
            HCHECK(3, old_callbacks == 0, "a replaced failure callback was called");
        } else if (p)
            HCHECK(3, callbacks + old_callbacks == 0, "a granted zeroed request called the failure callback");
        if (!p) {
            refused = true;
            if (n > 0)
                c.label("refused");
            if (!with_free) {
                HCHECK(3, h.free_size() == f0, "a refusal changed the free size from %zu to %zu", f0, h.free_size());
                HCHECK(2, h.free_size() == f0, "a refusal changed the free size from %zu to %zu", f0, h.free_size());
            } else if (HEAP_PROP == 1 || HEAP_PROP == 2 || HEAP_PROP == 3)
                accounting("a failure callback that used the heap");
            return;
        }
        std::size_t const f1   = h.free_size();
        std::size_t const held = f0 - f1;
        HCHECK(1, reinterpret_cast<std::uintptr_t>(p) % 8 == 0, "block %p is not 8-byte aligned", static_cast<void*>(p));
        HCHECK(1, p >= h.base() && n <= h.object_size() && p + n <= h.base() + h.object_size(),
               "block of %zu bytes at +%td lies outside the heap object", n, p - m.arena);
        for (auto& [q, b] : m.live) {
            if (p < q + b.req && q < p + n)
                HCHECK(1, false, "block of %zu bytes at +%td overlaps a live block of %zu bytes at +%td", n, p - m.arena,
                       b.req, q - m.arena);
        }
        HCHECK(2, f1 < f0 && held >= n, "granting %zu bytes took %zu from the reported free size (%zu -> %zu)", n, held,
               f0, f1);
        // the rest of the region it came from stays available unless it is smaller than a block can be
        HCHECK(3, held - need <= 2 * m.ov, "granting %zu bytes held %zu, %zu more than overhead and alignment explain", n,
               held, held - need);
        bool inside = false;
        for (auto& g : pre_gaps)
            inside |= p - m.ov >= g.first && p - m.ov + held <= g.first + g.second;
        HCHECK(1, inside, "granted block [+%td, %zu bytes held] is not inside a free region", p - m.arena, held);
        HCHECK(2, inside, "granted block [+%td, %zu bytes held] is not inside a free region", p - m.arena, held);
        if (!inside || held < n || f1 >= f0)
            _exit(0);    // another property's failure: this history cannot be followed any further
        if (!plain)
            for (std::size_t i = 0; i < n && HEAP_PROP == 1; ++i)
                HCHECK(1, p[i] == 0, "zeroed block of %zu bytes has byte %zu = %02x", n, i, (unsigned char)p[i]);
        live_block b;
        b.p = p;
        b.req = n;
        b.held = held;
        heap_client::fill(b, m.next_pattern++);
        if (held > need)
            c.label("remainder kept");
        m.live[p] = b;
        m.n_alloc++;
        if (m.n_free)
            reused = true;
        m.min_free = std::min(m.min_free, f1);
    };
    auto release = [&](std::map<char*, live_block>::iterator it) {
        live_block const b = it->second;
        if (!heap_client::intact(b))
            HCHECK(1, false, "block of %zu bytes at +%td changed before it was freed", b.req, b.p - m.arena);
        std::size_t const f0 = h.free_size(), g0 = m.gaps().size();
        c.op("deallocate(+%td)", b.p - m.arena);
        h.deallocate(b.p);
        HCHECK(2, h.free_size() == f0 + b.held, "freeing a block holding %zu raised the free size from %zu to %zu", b.held,
               f0, h.free_size());
        m.live.erase(it);
        m.n_free++;
        if (m.gaps().size() < g0 + 1)
            merged = true;
    };

    unsigned const profile = unsigned(c.draw(2));
    unsigned const avg = c.pick<unsigned>({25, 60, 140, 400});
    while (c.more(avg)) {
        // steer between growing and shrinking phases so that full and empty heaps are both common
        bool const   pressure = m.live.size() > 0 && h.free_size() * 3 < m.initial;
        std::size_t  op = c.weighted({48, 16, pressure ? 72u : 36u, 8, 8, 4, 4, 4, 1});
        switch (op) {
        case 0: request(draw_request(c, m, profile), true, 0, 0, false); break;
        case 1: {
            std::size_t a, b;
            if (c.chance(1, 5)) {    // products that overflow, some of them to something small
                switch (c.draw(3)) {
                case 0:
                    a = std::size_t{1} << (32 + c.draw(31));
                    b = std::size_t{1} << (32 + c.draw(31));
                    break;
                case 1:
                    b = std::size_t(c.range(2, 64));
                    a = ~std::size_t{0} / b + std::size_t(c.range(1, 8));
                    break;
                case 2:
                    a = std::size_t(c.range(2, 64));
                    b = ~std::size_t{0} / a + std::size_t(c.range(1, 8));
                    break;
                default:
                    a = ~std::size_t{0} - c.draw(8);
                    b = ~std::size_t{0} - c.draw(8);
                }
            } else {
                std::size_t const n = draw_request(c, m, profile);
                b = std::size_t(c.pick<int>({1, 2, 3, 4, 8, 16, 24}));
                a = n / b;
                if (c.chance(1, 3))
                    std::swap(a, b);
            }
            bool const overflow = a != 0 && b > ~std::size_t{0} / a;
            c.op("callocate(%zu, %zu)", a, b);
            request(a * b, false, a, b, overflow);
            break;
        }
        case 2:
            if (!m.live.empty()) {
                auto it = m.live.begin();
                std::advance(it, long(c.draw(m.live.size() - 1)));
                release(it);
            }
            break;
        case 3:
            if (!m.live.empty()) {    // rewrite a live block
                auto it = m.live.begin();
                std::advance(it, long(c.draw(m.live.size() - 1)));
                if (!heap_client::intact(it->second))
                    HCHECK(1, false, "block of %zu bytes changed", it->second.req);
                heap_client::fill(it->second, m.next_pattern++);
            }
            break;
        case 4: {    // several frees in address order or against it
            std::size_t k    = c.draw(4);
            bool const  back = c.chance(1, 2);
            while (k-- && !m.live.empty())
                release(back ? std::prev(m.live.end()) : m.live.begin());
            break;
        }
        case 5:
            c.op("reset low-water mark");
            h.reset_min();
            m.min_free = h.free_size();
            break;
        case 6:
            install();
            break;
        case 7:
            if (c.chance(1, 3)) {
                h.on_fail(nullptr);
                has_cb = false;
                ++fires;
            }
            break;
        default: {    // a long life: the same small block taken and given back over and over
            std::size_t const n     = std::size_t(c.range(1, 24));
            std::size_t const times = c.pick<std::size_t>({40, 300, 300, 70000});
            if (heap_client::need(n, m.ov) > m.largest_gap())
                break;
            c.op("%zu times allocate(%zu) and deallocate", times, n);
            std::size_t const f0 = h.free_size();
            std::size_t       lo = f0;
            for (std::size_t i = 0; i < times; ++i) {
                void* p = h.allocate(n);
                HCHECK(3, p != nullptr, "request %zu of %zu bytes refused, %zu free", i, n, h.free_size());
                if (!p)
                    break;
                m.n_alloc++;
                lo = std::min(lo, h.free_size());
                h.deallocate(p);
                m.n_free++;
                HCHECK(2, h.free_size() == f0, "free size %zu after taking and freeing a block %zu times, %zu before",
                       h.free_size(), i + 1, f0);
            }
            m.min_free = std::min(m.min_free, lo);
            reused     = true;
            break;
        }
        }
        if (!other && heap_sizes[kind] <= (1u << 17) && c.chance(1, 100))
            make_other();
        check_other();
        accounting("an operation");
        all_intact("an operation");
        if (c.chance(1, 4))
            stats("an operation");
    }
    stats("the last operation");
    all_intact("the last operation");
    if (m.live.size() >= 2)
        c.label(">=2 live at the end");
    // free everything in some order: as good as new
    while (!m.live.empty()) {
        auto it = m.live.begin();
        std::advance(it, long(c.draw(m.live.size() - 1)));
        release(it);
        accounting("a free");
        all_intact("a free");
    }
    stats("freeing everything");
    HCHECK(2, h.free_size() == m.initial, "everything freed, free size %zu, initially %zu", h.free_size(), m.initial);
    std::size_t const whole = m.initial - m.ov;
    if (whole > 0 && whole < m.initial) {
        void* p = h.allocate(whole);
        c.op("allocate(%zu) (everything) -> %s", whole, p ? "granted" : "null");
        HCHECK(2, p != nullptr, "everything freed, but a request for the whole heap (%zu of %zu) failed", whole, m.initial);
        HCHECK(3, p != nullptr, "everything freed, but a request for the whole heap (%zu of %zu) failed", whole, m.initial);
        if (p) {
            HCHECK(1, p >= h.base() && static_cast<char*>(p) + whole <= h.base() + h.object_size(),
                   "the whole-heap block lies outside the heap object");
            std::memset(p, 0xcd, whole);
            HCHECK(2, h.free_size() == 0, "the whole heap is handed out, free size %zu", h.free_size());
            h.deallocate(p);
            HCHECK(2, h.free_size() == m.initial, "free size %zu after freeing the whole-heap block", h.free_size());
        }
    }
    if (reused)
        c.label("allocated after a free");
    if (merged)
        c.label("free merged with a neighbour");
#if HEAP_PROP == 1
    if (reused)
        c.nontrivial();
#elif HEAP_PROP == 2
    if (reused && merged)
        c.nontrivial();
#else
    if (refused && m.n_alloc > 1)
        c.nontrivial();
#endif
}
void
known_findings()
{}
bool const property_flaky = false;
