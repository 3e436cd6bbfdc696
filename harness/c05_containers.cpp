// C05: standard containers on static_heap_allocator against the same containers on the default allocator.
#include <xitren/allocators/static_heap_allocator.hpp>

#include "pbt.hpp"

#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>

char const* const property_rule
    = "One case is a history of operations on up to four containers of one type (vector, deque, list, forward_list, set, "
      "map, unordered_map, string; plain, tracked and over-aligned elements) spread over two 16 KiB heaps of "
      "which a random part is taken, sometimes containers of hundreds of kilobytes on a larger heap, mirrored on default-allocator containers: element operations, bulk operations, copy, "
      "move, assignment across heaps, swap, splice, merge and node transfer on one heap, destruction. Non-trivial: "
      "containers on both heaps took part in a copy or move, or an out-of-memory exception was survived and followed by "
      "a successful operation.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {
constexpr std::size_t N = 16384;
using heap_t            = xitren::allocators::static_heap<N>;
template <class T>
using alloc_t = xitren::allocators::static_heap_allocator<T, N>;

long g_live = 0;

// knows where it lives and whether it is alive
struct tracked {
    static constexpr std::uint64_t magic = 0x5ca1ab1e0ddba11ULL;
    int                            v{};
    std::uint64_t                  tag{magic};
    tracked const*                 self{this};
    tracked(int x = 0) : v{x} { ++g_live; }
    tracked(tracked const& o) : v{o.check()} { ++g_live; }
    tracked(tracked&& o) noexcept : v{o.check()} { ++g_live; }
    tracked&
    operator=(tracked const& o)
    {
        check();
        v = o.check();
        return *this;
    }
    ~tracked()
    {
        check();
        tag  = 0;
        self = nullptr;
        --g_live;
    }
    int
    check() const
    {
        PBT_CHECK(tag == magic && self == this, "an element was touched that is not alive or was moved bytewise");
        return v;
    }
    friend bool
    operator==(tracked const& a, tracked const& b)
    {
        return a.check() == b.check();
    }
    friend bool
    operator<(tracked const& a, tracked const& b)
    {
        return a.check() < b.check();
    }
};
struct alignas(32) wide {
    int v{};
    wide(int x = 0) : v{x} {}
    friend bool
    operator==(wide const& a, wide const& b)
    {
        return a.v == b.v;
    }
    friend bool
    operator<(wide const& a, wide const& b)
    {
        return a.v < b.v;
    }
};
struct alignas(16) wide16 {
    long long a{};
    wide16(int x = 0) : a{x} {}
    friend bool
    operator==(wide16 const& x, wide16 const& y)
    {
        return x.a == y.a;
    }
    friend bool
    operator<(wide16 const& x, wide16 const& y)
    {
        return x.a < y.a;
    }
};
struct hasher {
    std::size_t
    operator()(int k) const
    {
        return std::size_t(k) % 7;    // collisions
    }
};

template <class T>
void
aligned(T const& x)
{
    PBT_CHECK(reinterpret_cast<std::uintptr_t>(&x) % alignof(T) == 0, "element at %p needs alignment %zu",
              static_cast<void const*>(&x), alignof(T));
}
template <class A, class B>
void
aligned(std::pair<A, B> const& x)
{
    PBT_CHECK(reinterpret_cast<std::uintptr_t>(&x) % alignof(std::pair<A, B>) == 0, "element at %p is misaligned",
              static_cast<void const*>(&x));
}

template <class C>
concept unordered = requires { typename C::hasher; };
template <class C>
concept keyed = requires { typename C::key_type; };
template <class C>
concept mapped = keyed<C> && requires { typename C::mapped_type; };
template <class C>
concept is_fwd = requires(C c) { c.before_begin(); };
template <class C>
concept is_list = requires(C c) { c.splice(c.begin(), c); c.merge(c); c.sort(); } && !is_fwd<C>;
template <class C>
concept contiguous_like = requires(C c) { c.reserve(std::size_t(1)); c.capacity(); };

struct world {
    heap_t                    heap[2];
    std::vector<void*>        ballast[2];
    std::size_t               ballast_free[2]{};
};

template <class C, class M>
struct duo {
    std::unique_ptr<C> c;
    M                  m{};
    int                heap{};
};

template <class C, class M>
struct runner {
    using value = typename M::value_type;
    pbt::ctx&    x;
    world&       w;
    duo<C, M>    d[4];
    bool         crossed = false, survived = false, then = false;
    std::size_t  limit;

    runner(pbt::ctx& c_, world& w_) : x{c_}, w{w_}, limit{std::size_t(c_.pick<int>({8, 40, 200}))}
    {
        if constexpr (std::is_same_v<value, bool>)    // eight of them to a byte
            limit *= 80;
    }

    auto
    alloc(int h)
    {
        return typename C::allocator_type{w.heap[h]};
    }
    std::size_t
    count(C const& c)
    {
        if constexpr (is_fwd<C>)
            return std::size_t(std::distance(c.begin(), c.end()));
        else
            return c.size();
    }
    bool
    equal(C const& c, M const& m)
    {
        if constexpr (unordered<C>) {
            if (c.size() != m.size())
                return false;
            std::size_t n = 0;
            for (auto const& e : c) {
                aligned(e);
                ++n;
                auto it = m.find(e.first);
                if (it == m.end() || !(it->second == e.second))
                    return false;
            }
            return n == m.size();
        } else {
            auto        a = c.begin();
            auto        b = m.begin();
            std::size_t n = 0;
            for (; a != c.end() && b != m.end(); ++a, ++b, ++n) {
                aligned(*a);
                if constexpr (mapped<C>) {
                    if (!(a->first == b->first && a->second == b->second))
                        return false;
                } else if (!(*a == *b))
                    return false;
            }
            return a == c.end() && b == m.end() && count(c) == n;
        }
    }
    void
    resync(duo<C, M>& q)
    {
        M fresh{};
        if constexpr (is_fwd<C>) {
            auto at = fresh.before_begin();
            for (auto const& e : *q.c)
                at = fresh.insert_after(at, e);
        } else
            for (auto const& e : *q.c)
                fresh.insert(fresh.end(), e);
        q.m = std::move(fresh);
    }
    void
    verify(char const* what)
    {
        for (int i = 0; i < 4; ++i)
            if (d[i].c)
                PBT_CHECK(equal(*d[i].c, d[i].m), "after %s: container %d (%zu elements) differs from the reference (%zu)",
                          what, i, count(*d[i].c), std::size_t(std::distance(d[i].m.begin(), d[i].m.end())));
    }
    // strong: a failed operation leaves everything as it was; otherwise the containers listed in `touched` are merely
    // usable afterwards
    template <class F, class G>
    void
    attempt(char const* what, bool strong, std::initializer_list<int> touched, F op, G mirror, int dest = -1)
    {
        bool oom = false;
        try {
            op();
        } catch (std::bad_alloc const&) {
            oom = true;
        }
        x.op("%s%s", what, oom ? " -> bad_alloc" : "");
        if (!oom) {
            mirror();
            if (survived)
                then = true;
        } else {
            survived = true;
            x.label("bad_alloc");
            // with this much room nothing these histories do can fail
            bool roomy = true;
            for (int i : touched)
                if (d[i].c) {
                    typename heap_t::heap_stats_t s{};
                    w.heap[dest < 0 ? d[i].heap : dest].v_port_get_heap_stats(&s);
                    std::size_t total = 0;
                    for (int k : touched)
                        if (d[k].c)
                            total += count(*d[k].c);
                    roomy &= s.x_size_of_largest_free_block_in_bytes > 2048 + 160 * (total + 64);
                }
            PBT_CHECK(!roomy || touched.size() == 0, "%s ran out of memory with plenty of contiguous room on the heap", what);
            if (!strong)
                for (int i : touched)
                    if (d[i].c)
                        resync(d[i]);
        }
        verify(what);
    }
    value
    make()
    {
        int const k = int(x.range(0, 30));
        if constexpr (mapped<C>)
            return value{k, typename M::mapped_type(int(x.range(0, 999)))};
        else if constexpr (std::is_same_v<value, bool>)
            return k % 3 == 1;
        else
            return value(k);
    }
    int
    existing()
    {
        int n = 0, ids[4];
        for (int i = 0; i < 4; ++i)
            if (d[i].c)
                ids[n++] = i;
        return n ? ids[x.draw(std::uint64_t(n - 1))] : -1;
    }
    void
    create(int i, int h)
    {
        x.op("c%d = new on heap %d", i, h);
        d[i].heap = h;
        d[i].m    = M{};
        try {
            d[i].c = std::make_unique<C>(alloc(h));
        } catch (std::bad_alloc const&) {    // a deque allocates at once
            x.op("  bad_alloc");
            survived = true;
        }
    }

    void
    step()
    {
        int i = existing();
        if (i < 0 || x.chance(1, 12)) {
            int const slot = int(x.draw(3));
            if (!d[slot].c)
                create(slot, int(x.draw(1)));
            else if (x.chance(1, 2)) {
                x.op("destroy c%d", slot);
                d[slot].c.reset();
                d[slot].m = M{};
            }
            verify("creating or destroying a container");
            return;
        }
        C&        c = *d[i].c;
        M&        m = d[i].m;
        char      name[96];
        int const j = existing();
        C&        o = *d[j].c;
        M&        p = d[j].m;
        bool const same_heap = d[i].heap == d[j].heap;
        switch (x.weighted({30, 10, 3, 5, 5, 4, 4, 6, 14})) {
        case 0: {    // add one
            if (count(c) >= limit)
                break;
            value v = make();
            std::snprintf(name, sizeof name, "c%d add", i);
            if constexpr (is_fwd<C>)
                attempt(name, true, {i}, [&] { c.push_front(v); }, [&] { m.push_front(v); });
            else if constexpr (keyed<C>)
                attempt(name, true, {i}, [&] { c.insert(v); }, [&] { m.insert(v); });
            else {
                std::size_t const at  = x.chance(1, 2) ? count(c) : x.draw(count(c));
                bool const        end = at == count(c);
                // at the end: strong; in the middle: only list promises it
                attempt(
                    name, end || is_list<C>, {i},
                    [&] {
                        if (end)
                            c.push_back(v);
                        else
                            c.insert(std::next(c.begin(), long(at)), v);
                    },
                    [&] { m.insert(std::next(m.begin(), long(at)), v); });
            }
            break;
        }
        case 1: {    // remove one
            if (count(c) == 0)
                break;
            std::snprintf(name, sizeof name, "c%d remove", i);
            if constexpr (is_fwd<C>)
                attempt(name, true, {i}, [&] { c.pop_front(); }, [&] { m.pop_front(); });
            else if constexpr (keyed<C>) {
                auto  it = std::next(m.begin(), long(x.draw(m.size() - 1)));
                auto  k  = [&] {
                    if constexpr (mapped<C>)
                        return it->first;
                    else
                        return *it;
                }();
                attempt(name, true, {i}, [&] { c.erase(k); }, [&] { m.erase(k); });
            } else {
                std::size_t const at = x.draw(count(c) - 1);
                attempt(name, true, {i}, [&] { c.erase(std::next(c.begin(), long(at))); },
                        [&] { m.erase(std::next(m.begin(), long(at))); });
            }
            break;
        }
        case 2:
            std::snprintf(name, sizeof name, "c%d clear", i);
            attempt(name, true, {i}, [&] { c.clear(); }, [&] { m.clear(); });
            break;
        case 3: {    // copy or move construction into an empty slot, on either heap
            int const slot = int(x.draw(3));
            if (d[slot].c)
                break;
            int const  h    = int(x.draw(1));
            bool const move = x.chance(1, 2), plain = x.chance(1, 2) || (h == d[i].heap && x.chance(1, 2));
            int const  to   = plain ? d[i].heap : h;
            std::snprintf(name, sizeof name, "c%d(heap %d) = %s c%d(heap %d)%s", slot, to, move ? "move" : "copy", i,
                          d[i].heap, plain ? "" : " with allocator");
            d[slot].heap = to;
            crossed |= to != d[i].heap && count(c) > 0;
            std::unique_ptr<C> fresh;
            attempt(
                name, !move, {i},
                [&] {
                    if (move)
                        fresh = plain ? std::make_unique<C>(std::move(c)) : std::make_unique<C>(std::move(c), alloc(to));
                    else
                        fresh = plain ? std::make_unique<C>(c) : std::make_unique<C>(c, alloc(to));
                    PBT_CHECK(fresh->get_allocator() == alloc(to) && !(fresh->get_allocator() != alloc(to)),
                              "a new container does not draw on the heap it was given");
                },
                [&] {
                    d[slot].c = std::move(fresh);
                    d[slot].m = m;
                    if (move) {
                        c.clear();
                        m.clear();
                    }
                },
                to);
            break;
        }
        case 4: {    // copy assignment
            std::snprintf(name, sizeof name, "c%d(heap %d) = c%d(heap %d)", i, d[i].heap, j, d[j].heap);
            crossed |= !same_heap && count(o) > 0;
            attempt(name, false, {i}, [&] { c = static_cast<C const&>(o); }, [&] { M t = p; m = std::move(t); });
            break;
        }
        case 5: {    // move assignment
            if (i == j)
                break;
            std::snprintf(name, sizeof name, "c%d(heap %d) = move c%d(heap %d)", i, d[i].heap, j, d[j].heap);
            crossed |= !same_heap && count(o) > 0;
            attempt(
                name, false, {i, j}, [&] { c = std::move(o); },
                [&] {
                    m = p;
                    o.clear();
                    p.clear();
                });
            break;
        }
        case 6:    // swap: the standard asks for equal allocators
            if (i == j || !same_heap)
                break;
            std::snprintf(name, sizeof name, "swap c%d c%d", i, j);
            attempt(name, true, {i, j}, [&] { c.swap(o); }, [&] { m.swap(p); });
            break;
        case 7:
            bulk(i);
            break;
        default:
            special(i, j, same_heap);
        }
    }
    void
    bulk(int i)
    {
        C&   c = *d[i].c;
        M&   m = d[i].m;
        char name[64];
        std::vector<value> vs;
        for (std::size_t k = x.draw(std::min<std::size_t>(limit, 24)); k > 0 && count(c) + vs.size() < limit; --k)
            vs.push_back(make());
        std::snprintf(name, sizeof name, "c%d bulk of %zu", i, vs.size());
        if constexpr (is_fwd<C>)
            attempt(name, false, {i}, [&] { c.assign(vs.begin(), vs.end()); }, [&] { m.assign(vs.begin(), vs.end()); });
        else if constexpr (keyed<C>)
            attempt(name, false, {i}, [&] { c.insert(vs.begin(), vs.end()); }, [&] { m.insert(vs.begin(), vs.end()); });
        else if (x.chance(1, 2)) {
            attempt(name, false, {i}, [&] { c.assign(vs.begin(), vs.end()); }, [&] { m.assign(vs.begin(), vs.end()); });
        } else {
            std::size_t const at = x.draw(count(c));
            attempt(name, false, {i}, [&] { c.insert(std::next(c.begin(), long(at)), vs.begin(), vs.end()); },
                    [&] { m.insert(std::next(m.begin(), long(at)), vs.begin(), vs.end()); });
        }
    }
    void
    special(int i, int j, bool same_heap)
    {
        C&   c = *d[i].c;
        M&   m = d[i].m;
        C&   o = *d[j].c;
        M&   p = d[j].m;
        char name[96];
        if constexpr (contiguous_like<C> && !keyed<C>) {
            std::size_t const n = x.draw(limit);
            switch (x.draw(3)) {
            case 0:
                std::snprintf(name, sizeof name, "c%d reserve %zu", i, n);
                attempt(name, true, {i}, [&] { c.reserve(n); }, [&] {});
                break;
            case 1:
                std::snprintf(name, sizeof name, "c%d shrink_to_fit", i);
                attempt(name, false, {i}, [&] { c.shrink_to_fit(); }, [&] {});
                break;
            case 2: {
                value v = make();
                std::snprintf(name, sizeof name, "c%d resize %zu", i, n);
                attempt(name, false, {i}, [&] { c.resize(n, v); }, [&] { m.resize(n, v); });
                break;
            }
            default:    // a container may ask for its largest possible size
                std::snprintf(name, sizeof name, "c%d reserve absurd", i);
                attempt(name, true, {},
                        [&] {
                            try {
                                c.reserve(c.max_size() - x.draw(3));
                                pbt::fail("reserve of an absurd size succeeded");
                            } catch (std::length_error const&) {
                            }
                        },
                        [&] {});
            }
        } else if constexpr (is_list<C>) {
            switch (x.draw(4)) {
            case 0:
                if (i == j || !same_heap)
                    return;
                std::snprintf(name, sizeof name, "c%d splice all of c%d", i, j);
                attempt(name, true, {i, j}, [&] { c.splice(c.begin(), o); }, [&] { m.splice(m.begin(), p); });
                break;
            case 1: {
                if (!same_heap || count(o) == 0)
                    return;
                long const at = long(x.draw(count(o) - 1));
                std::snprintf(name, sizeof name, "c%d splice one of c%d", i, j);
                attempt(name, true, {i, j}, [&] { c.splice(c.end(), o, std::next(o.begin(), at)); },
                        [&] { m.splice(m.end(), p, std::next(p.begin(), at)); });
                break;
            }
            case 2: {
                if (i == j || !same_heap)
                    return;
                std::snprintf(name, sizeof name, "c%d merge c%d", i, j);
                attempt(
                    name, true, {i, j},
                    [&] {
                        c.sort();
                        o.sort();
                        c.merge(o);
                    },
                    [&] {
                        m.sort();
                        p.sort();
                        m.merge(p);
                    });
                break;
            }
            case 3:
                std::snprintf(name, sizeof name, "c%d sort, unique, reverse", i);
                attempt(
                    name, true, {i},
                    [&] {
                        c.sort();
                        c.unique();
                        c.reverse();
                    },
                    [&] {
                        m.sort();
                        m.unique();
                        m.reverse();
                    });
                break;
            default: {
                std::size_t const n = x.draw(limit);
                std::snprintf(name, sizeof name, "c%d resize %zu", i, n);
                attempt(name, false, {i}, [&] { c.resize(n); }, [&] { m.resize(n); });
            }
            }
        } else if constexpr (is_fwd<C>) {
            if (i != j && same_heap && x.chance(1, 2)) {
                std::snprintf(name, sizeof name, "c%d splice_after c%d", i, j);
                attempt(name, true, {i, j}, [&] { c.splice_after(c.before_begin(), o); },
                        [&] { m.splice_after(m.before_begin(), p); });
            } else {
                std::snprintf(name, sizeof name, "c%d sort, reverse", i);
                attempt(
                    name, true, {i},
                    [&] {
                        c.sort();
                        c.reverse();
                    },
                    [&] {
                        m.sort();
                        m.reverse();
                    });
            }
        } else if constexpr (keyed<C>) {
            if constexpr (unordered<C>)
                if (x.chance(1, 3)) {
                    std::size_t const n = x.draw(64);
                    std::snprintf(name, sizeof name, "c%d rehash %zu", i, n);
                    attempt(name, true, {i}, [&] { c.rehash(n); }, [&] {});
                    return;
                }
            if (!same_heap || count(o) == 0)
                return;
            if (i != j && x.chance(1, 4)) {
                std::snprintf(name, sizeof name, "c%d merge c%d", i, j);
                attempt(name, false, {i, j}, [&] { c.merge(o); }, [&] { m.merge(p); });
                return;
            }
            auto it = std::next(p.begin(), long(x.draw(p.size() - 1)));
            auto k  = [&] {
                if constexpr (mapped<C>)
                    return it->first;
                else
                    return *it;
            }();
            std::snprintf(name, sizeof name, "node of c%d to c%d", j, i);
            attempt(
                name, false, {i, j},
                [&] {
                    auto n = o.extract(k);
                    c.insert(std::move(n));
                },
                [&] {
                    auto n = p.extract(k);
                    m.insert(std::move(n));
                });
        } else {    // deque
            switch (x.draw(2)) {
            case 0: {
                if (count(c) >= limit)
                    return;
                value v = make();
                std::snprintf(name, sizeof name, "c%d push_front", i);
                attempt(name, true, {i}, [&] { c.push_front(v); }, [&] { m.push_front(v); });
                break;
            }
            case 1: {
                std::size_t const n = x.draw(limit);
                std::snprintf(name, sizeof name, "c%d resize %zu", i, n);
                attempt(name, false, {i}, [&] { c.resize(n); }, [&] { m.resize(n); });
                break;
            }
            default:
                std::snprintf(name, sizeof name, "c%d shrink_to_fit", i);
                attempt(name, false, {i}, [&] { c.shrink_to_fit(); }, [&] {});
            }
        }
    }
    void
    run()
    {
        create(0, 0);
        create(1, int(x.draw(1)));
        unsigned const avg = x.pick<unsigned>({12, 40});
        while (x.more(avg))
            step();
        // destroyed in any order
        int order[4] = {0, 1, 2, 3};
        for (int k = 3; k > 0; --k)
            std::swap(order[k], order[x.draw(std::uint64_t(k))]);
        for (int k : order) {
            d[k].c.reset();
            d[k].m = M{};
        }
    }
};

template <class T, class U>
void
compare_allocators(world& w, T const& tag_t, U const& tag_u)
{
    (void)tag_t;
    (void)tag_u;
    alloc_t<T> const a0{w.heap[0]}, a0b{w.heap[0]}, a1{w.heap[1]};
    alloc_t<U> const b0{a0}, b1{a1};
    alloc_t<T> const c0{a0};
    PBT_CHECK(a0 == a0 && a0 == a0b && a0b == a0 && a0 == c0, "allocators of one heap compare unequal");
    PBT_CHECK(!(a0 != a0) && !(a0 != a0b) && !(a0 != c0), "allocators of one heap compare unequal (!=)");
    PBT_CHECK(a0 == b0 && a1 == b1 && !(a0 != b0), "allocators of one heap for different types compare unequal");
    PBT_CHECK(!(a0 == a1) && a0 != a1, "allocators of different heaps compare equal");
    PBT_CHECK(!(a0 == b1) && a1 != b0, "allocators of different heaps for different types compare equal");
}

template <class T>
void
overflowing_count(pbt::ctx& c, world& w)
{
    alloc_t<T>        a{w.heap[0]};
    std::size_t const f0 = w.heap[0].free_heap_size();
    std::size_t const n  = c.pick<std::size_t>({~std::size_t{0} / sizeof(T) + 1, ~std::size_t{0} / sizeof(T) + 1 + c.draw(64),
                                                ~std::size_t{0}, ~std::size_t{0} - c.draw(64), ~std::size_t{0} / sizeof(T),
                                                std::size_t{1} << 63, (std::size_t{1} << 62) + c.draw(9), N + c.draw(99),
                                                // byte counts just past what narrower integers hold
                                                (std::size_t{1} << 16) / sizeof(T) + c.draw(40),
                                                (std::size_t{1} << 24) / sizeof(T) + c.draw(40),
                                                (std::size_t{1} << 31) / sizeof(T) + c.draw(40),
                                                (std::size_t{1} << 32) / sizeof(T) + c.draw(40),
                                                (std::size_t{1} << 32) + c.draw(9), (std::size_t{1} << 33) / sizeof(T) + 1});
    if (n * sizeof(T) / sizeof(T) == n && n * sizeof(T) < N)
        return;
    c.op("allocate(%zu) of elements of %zu bytes", n, sizeof(T));
    try {
        (void)a.allocate(n);
        pbt::fail("allocate(%zu) of %zu-byte elements from a %zu-byte heap did not throw", n, sizeof(T), N);
    } catch (std::bad_alloc const&) {
    }
    PBT_CHECK(w.heap[0].free_heap_size() == f0, "a failed allocate changed the heap");
}

// The allocator itself, as allocator_traits use it: storage for n objects, aligned, its own, given back completely.
template <std::size_t Align>
struct alignas(Align) cell {
    unsigned char b[Align];
};
template <std::size_t Align>
void
plain_allocations(pbt::ctx& c, world& w)
{
    using T = cell<Align>;
    using A = alloc_t<T>;
    struct got {
        T*            p;
        std::size_t   n;
        unsigned char v;
    };
    std::vector<got>  v;
    std::size_t const f0 = w.heap[1].free_heap_size();
    A                 a{w.heap[1]};
    char const* const lo = reinterpret_cast<char const*>(&w.heap[1]);
    unsigned char     next = 1;
    auto give = [&](std::size_t i) {
        for (std::size_t k = 0; k < v[i].n * sizeof(T); ++k)
            PBT_CHECK(reinterpret_cast<unsigned char*>(v[i].p)[k] == v[i].v, "storage for %zu objects of %zu bytes changed",
                      v[i].n, sizeof(T));
        A b{w.heap[1]};    // any equal allocator can give it back
        std::allocator_traits<A>::deallocate(b, v[i].p, v[i].n);
        v.erase(v.begin() + long(i));
    };
    c.op("plain allocations of objects of %zu bytes aligned to %zu", sizeof(T), Align);
    std::size_t k = c.draw(12);
    while (k--) {
        if (!v.empty() && c.chance(1, 3)) {
            give(c.draw(v.size() - 1));
            continue;
        }
        std::size_t const n = std::size_t(c.range(1, 9));
        T*                p = nullptr;
        try {
            p = std::allocator_traits<A>::allocate(a, n);
        } catch (std::bad_alloc const&) {
            continue;
        }
        PBT_CHECK(p && reinterpret_cast<std::uintptr_t>(p) % Align == 0, "storage at %p for objects aligned to %zu",
                  static_cast<void*>(p), Align);
        PBT_CHECK(reinterpret_cast<char const*>(p) >= lo && reinterpret_cast<char const*>(p + n) <= lo + sizeof(w.heap[1]),
                  "storage for %zu objects of %zu bytes is not inside the heap", n, sizeof(T));
        std::memset(static_cast<void*>(p), next, n * sizeof(T));
        v.push_back({p, n, next++});
    }
    while (!v.empty())
        give(c.draw(v.size() - 1));
    PBT_CHECK(w.heap[1].free_heap_size() == f0, "plain allocations of objects aligned to %zu: %zu bytes free before, %zu after",
              Align, f0, w.heap[1].free_heap_size());
}

// Containers whose storage is larger than small integers can count, on a heap of that size.
void
large(pbt::ctx& c)
{
    constexpr std::size_t big = 3u << 19;
    using heap                = xitren::allocators::static_heap<big>;
    auto const        h  = std::make_unique<heap>();
    std::size_t const f0 = h->free_heap_size();
    auto              al = [&](auto tag) { return xitren::allocators::static_heap_allocator<decltype(tag), big>{*h}; };
    c.op("large containers");
    {
        std::vector<int, decltype(al(int{}))>                                  v{al(int{})};
        std::basic_string<char, std::char_traits<char>, decltype(al(char{}))> s{al(char{})};
        std::deque<std::uint64_t, decltype(al(std::uint64_t{}))>               d{al(std::uint64_t{})};
        std::size_t const                                                      n = std::size_t(c.range(16000, 40000));
        if (c.chance(1, 2))
            v.reserve(n);
        for (std::size_t i = 0; i < n; ++i)
            v.push_back(int(i * 2654435761u));
        s.append(n * 4, 'x');
        s[n * 4 - 1] = 'z';
        s[n / 2]     = 'y';
        for (std::size_t i = 0; i < n / 2; ++i)
            d.push_back(i * 0x9e3779b97f4a7c15ULL);
        PBT_CHECK(v.size() == n && d.size() == n / 2 && s.size() == n * 4, "a large container lost elements");
        for (std::size_t i = 0; i < n; ++i)
            PBT_CHECK(v[i] == int(i * 2654435761u), "element %zu of a large vector changed", i);
        for (std::size_t i = 0; i < n / 2; ++i)
            PBT_CHECK(d[i] == i * 0x9e3779b97f4a7c15ULL, "element %zu of a large deque changed", i);
        for (std::size_t i = 0; i < s.size(); ++i)
            PBT_CHECK(s[i] == (i == s.size() - 1 ? 'z' : i == n / 2 ? 'y' : 'x'), "character %zu of a large string changed", i);
        PBT_CHECK(f0 - h->free_heap_size() >= n * 4 + n * 4 + n * 4, "%zu bytes of elements took %zu bytes of the heap",
                  n * 12, f0 - h->free_heap_size());
    }
    PBT_CHECK(h->free_heap_size() == f0, "the heap has %zu bytes free after its large containers are gone, %zu before",
              h->free_heap_size(), f0);
}

template <class C, class M>
void
go(pbt::ctx& c, world& w, char const* name)
{
    c.op("%s", name);
    c.label(name);
    runner<C, M> r{c, w};
    r.run();
    if (r.crossed || r.then)
        c.nontrivial();
    if (r.crossed)
        c.label("copied or moved across heaps");
    if (r.then)
        c.label("went on after bad_alloc");
}
template <class K, class V>
using pair_alloc = alloc_t<std::pair<K const, V>>;
}    // namespace

void
property(pbt::ctx& c)
{
    auto w = std::make_unique<world>();
    g_live = 0;
    std::size_t initial[2], overhead = 0;
    {
        heap_t fresh;
        std::size_t const f0 = fresh.free_heap_size();
        (void)fresh.allocate(8);
        overhead = f0 - fresh.free_heap_size() - 8;
    }
    for (int h = 0; h < 2; ++h) {
        initial[h] = w->heap[h].free_heap_size();
        // take some of the heap away, in pieces, so that exhaustion is reached with small containers
        std::size_t const leave = c.pick<std::size_t>({16384, 3000, 1200, 500, 6000});
        std::vector<void*> holes;
        while (w->heap[h].free_heap_size() > leave) {
            std::size_t const n = std::size_t(c.range(64, 2500));
            void*             p = w->heap[h].allocate(std::min(n, w->heap[h].free_heap_size() - 16));
            if (!p)
                break;
            (c.chance(1, 9) ? holes : w->ballast[h]).push_back(p);
        }
        for (void* p : holes)
            w->heap[h].deallocate(p);
        w->ballast_free[h] = w->heap[h].free_heap_size();
    }
    compare_allocators(*w, int{}, tracked{});
    switch (c.draw(2)) {
    case 0: overflowing_count<std::uint64_t>(c, *w); break;
    case 1: overflowing_count<wide>(c, *w); break;
    default: overflowing_count<std::array<char, 24>>(c, *w);
    }
    if (c.chance(1, 3))
        switch (c.draw(9)) {
        case 0: plain_allocations<1>(c, *w); break;
        case 1: plain_allocations<2>(c, *w); break;
        case 2: plain_allocations<4>(c, *w); break;
        case 3: plain_allocations<8>(c, *w); break;
        case 4: plain_allocations<16>(c, *w); break;
        case 5: plain_allocations<64>(c, *w); break;
        case 6: plain_allocations<128>(c, *w); break;
        case 7: plain_allocations<256>(c, *w); break;
        case 8: plain_allocations<1024>(c, *w); break;
        default: plain_allocations<2048>(c, *w);
        }
    if (c.chance(1, 60))
        large(c);
    switch (c.draw(12)) {
    case 0: go<std::vector<int, alloc_t<int>>, std::vector<int>>(c, *w, "vector<int>"); break;
    case 1: go<std::vector<tracked, alloc_t<tracked>>, std::vector<tracked>>(c, *w, "vector<tracked>"); break;
    case 2: go<std::vector<wide, alloc_t<wide>>, std::vector<wide>>(c, *w, "vector<alignas(32)>"); break;
    case 3: go<std::list<tracked, alloc_t<tracked>>, std::list<tracked>>(c, *w, "list<tracked>"); break;
    case 4: go<std::list<wide16, alloc_t<wide16>>, std::list<wide16>>(c, *w, "list<alignas(16)>"); break;
    case 5: go<std::deque<int, alloc_t<int>>, std::deque<int>>(c, *w, "deque<int>"); break;
    case 6: go<std::forward_list<tracked, alloc_t<tracked>>, std::forward_list<tracked>>(c, *w, "forward_list<tracked>"); break;
    case 7: go<std::set<int, std::less<int>, alloc_t<int>>, std::set<int>>(c, *w, "set<int>"); break;
    case 8:
        go<std::map<int, tracked, std::less<int>, pair_alloc<int, tracked>>, std::map<int, tracked>>(c, *w, "map<int,tracked>");
        break;
    case 9:
        go<std::unordered_map<int, tracked, hasher, std::equal_to<int>, pair_alloc<int, tracked>>,
           std::unordered_map<int, tracked, hasher>>(c, *w, "unordered_map<int,tracked>");
        break;
    case 10: go<std::vector<bool, alloc_t<bool>>, std::vector<bool>>(c, *w, "vector<bool>"); break;
    case 11:
        go<std::multimap<int, tracked, std::less<int>, pair_alloc<int, tracked>>, std::multimap<int, tracked>>(
            c, *w, "multimap<int,tracked>");
        break;
    default:
        go<std::basic_string<char, std::char_traits<char>, alloc_t<char>>, std::basic_string<char>>(c, *w, "string");
    }
    PBT_CHECK(g_live == 0, "%ld elements outlived their containers", g_live);
    for (int h = 0; h < 2; ++h) {
        PBT_CHECK(w->heap[h].free_heap_size() == w->ballast_free[h],
                  "heap %d has %zu bytes free after all containers are gone, %zu before", h, w->heap[h].free_heap_size(),
                  w->ballast_free[h]);
        for (void* p : w->ballast[h])
            w->heap[h].deallocate(p);
        PBT_CHECK(w->heap[h].free_heap_size() == initial[h], "heap %d does not get its full size back", h);
        void* all = w->heap[h].allocate(initial[h] - overhead);
        PBT_CHECK(all, "heap %d cannot hand out its whole size after all containers are gone", h);
    }
}
