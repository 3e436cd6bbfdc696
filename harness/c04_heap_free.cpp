// C04: two heaps live through the same history, one of them with null and repeated frees mixed in. They must stay
// indistinguishable.
#include "heap_box.hpp"

char const* const property_rule
    = "One case is a history on two equal static_heap<N> objects (N from 23 sizes), identical except that one of them is "
      "also given null frees and second, third... frees of blocks whose memory was not handed out since; after every step "
      "both must report the same sizes, statistics and block positions and keep the clients' bytes. Non-trivial: at "
      "least one repeated free of a block was issued and memory was handed out afterwards.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {
struct stale {
    std::ptrdiff_t at;      // offset of the block from the heap object
    std::size_t    held;
};
}    // namespace

void
property(pbt::ctx& c)
{
    std::size_t const kind = c.weighted(heap_weights);
    heap_client       a(kind, 0), b(kind, 0xa5);    // a: with spurious frees; b: without
    unsigned const    profile = unsigned(c.draw(2));
    c.op("static_heap<%zu>, free %zu", a.h->nominal(), a.initial);
    a.learn_arena();
    b.learn_arena();
    std::vector<stale> dead;    // freed, memory not handed out since
    std::vector<stale> order;
    bool               repeated = false, then = false, null_seen = false;
    int                calls_a = 0, calls_b = 0;
    a.h->on_fail([&] { ++calls_a; });
    b.h->on_fail([&] { ++calls_b; });

    auto same = [&](char const* after) {
        PBT_CHECK(a.h->free_size() == b.h->free_size(), "after %s: free size %zu, without the extra frees %zu", after,
                  a.h->free_size(), b.h->free_size());
        PBT_CHECK(a.h->min_free() == b.h->min_free(), "after %s: low-water mark %zu, without the extra frees %zu", after,
                  a.h->min_free(), b.h->min_free());
        auto const x = a.h->stats(), y = b.h->stats();
        PBT_CHECK(x.allocs == y.allocs && x.frees == y.frees && x.blocks == y.blocks && x.available == y.available
                      && x.largest == y.largest && (x.blocks == 0 || x.smallest == y.smallest),
                  "after %s: statistics differ: %zu/%zu allocations, %zu/%zu frees, %zu/%zu free blocks, largest %zu/%zu",
                  after, x.allocs, y.allocs, x.frees, y.frees, x.blocks, y.blocks, x.largest, y.largest);
        PBT_CHECK(calls_a == calls_b, "after %s: failure callback ran %d times, without the extra frees %d", after, calls_a,
                  calls_b);
        for (auto& [p, blk] : a.live)
            PBT_CHECK(heap_client::intact(blk), "after %s: a live block of %zu bytes changed", after, blk.req);
    };
    auto spurious = [&] {
        if (c.chance(1, 5) || dead.empty()) {
            c.op("  deallocate(null)");
            a.h->deallocate(nullptr);
            null_seen = true;
            same("freeing null");
            return;
        }
        // the most recent ones are the likeliest mistakes
        std::size_t const i = c.chance(1, 2) ? dead.size() - 1 : c.draw(dead.size() - 1);
        c.op("  deallocate(+%td) again", dead[i].at);
        a.h->deallocate(const_cast<char*>(a.h->base()) + dead[i].at);
        repeated = true;
        same("freeing a freed block again");
    };
    auto alloc = [&](std::size_t n, bool zero) {
        std::size_t const f0 = a.h->free_size();
        char*             p  = static_cast<char*>(zero ? a.h->callocate(1, n) : a.h->allocate(n));
        char*             q  = static_cast<char*>(zero ? b.h->callocate(1, n) : b.h->allocate(n));
        c.op("%s(%zu) -> %td", zero ? "callocate" : "allocate", n, p ? p - a.h->base() : -1);
        PBT_CHECK((p != nullptr) == (q != nullptr), "request of %zu bytes %s, without the extra frees it is %s", n,
                  p ? "granted" : "refused", q ? "granted" : "refused");
        if (!p)
            return;
        PBT_CHECK(p - a.h->base() == q - b.h->base(), "request of %zu bytes at +%td, without the extra frees at +%td", n,
                  p - a.h->base(), q - b.h->base());
        std::size_t const held = f0 - a.h->free_size();
        live_block        x;
        x.p = p;
        x.req = n;
        x.held = held;
        auto y = x;
        y.p    = q;
        if (n > 0 && n <= a.h->object_size()) {
            heap_client::fill(x, a.next_pattern++);
            heap_client::fill(y, b.next_pattern++);
        }
        a.live[p] = x;
        b.live[q] = y;
        std::ptrdiff_t const lo = p - a.h->base() - std::ptrdiff_t(a.ov), hi = lo + std::ptrdiff_t(held);
        std::erase_if(dead, [&](stale const& s) {
            std::ptrdiff_t const sl = s.at - std::ptrdiff_t(a.ov);
            return sl < hi && lo < sl + std::ptrdiff_t(s.held);
        });
        if (repeated)
            then = true;
    };
    auto release = [&] {
        std::size_t const i  = c.draw(a.live.size() - 1);
        auto              it = a.live.begin(), jt = b.live.begin();
        std::advance(it, long(i));
        std::advance(jt, long(i));
        std::ptrdiff_t const at = it->first - a.h->base();
        c.op("deallocate(+%td)", at);
        a.h->deallocate(it->first);
        b.h->deallocate(jt->first);
        dead.push_back({at, it->second.held});
        a.live.erase(it);
        b.live.erase(jt);
    };

    unsigned const avg = c.pick<unsigned>({25, 60, 120});
    while (c.more(avg)) {
        switch (c.weighted({10, 2, 8, 8})) {
        case 0: alloc(draw_request(c, a, profile), false); break;
        case 1: alloc(draw_request(c, a, profile), true); break;
        case 2:
            if (!a.live.empty())
                release();
            break;
        default: spurious(); break;
        }
        same("an operation");
    }
    while (!a.live.empty()) {
        release();
        if (c.chance(1, 2))
            spurious();
        same("a free");
    }
    for (std::size_t i = 0; i < 4; ++i)
        spurious();
    PBT_CHECK(a.h->free_size() == a.initial, "everything freed, some of it twice: free size %zu, initially %zu",
              a.h->free_size(), a.initial);
    if (a.initial > a.ov) {
        alloc(a.initial - a.ov, false);
        same("requesting everything");
        PBT_CHECK(!a.live.empty(), "everything freed, some of it twice: a request for the whole heap failed");
    }
    if (then)
        c.nontrivial();
    if (null_seen)
        c.label("null free");
    if (repeated)
        c.label("repeated free");
}
