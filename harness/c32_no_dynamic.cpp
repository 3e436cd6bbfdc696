// C32: the statically sized parts never call the program's allocation functions.
#include "pbt.hpp"

#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_map>

static bool          armed = false;
static std::uint64_t taken = 0, given = 0;

extern "C" {    // -Wl,--wrap: what the code under test itself calls
void* __real_malloc(std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void* __real_realloc(void*, std::size_t);
void* __real_aligned_alloc(std::size_t, std::size_t);
void  __real_free(void*);
void*
__wrap_malloc(std::size_t n)
{
    taken += armed;
    return __real_malloc(n);
}
void*
__wrap_calloc(std::size_t a, std::size_t b)
{
    taken += armed;
    return __real_calloc(a, b);
}
void*
__wrap_realloc(void* p, std::size_t b)
{
    taken += armed;
    return __real_realloc(p, b);
}
void*
__wrap_aligned_alloc(std::size_t a, std::size_t b)
{
    taken += armed;
    return __real_aligned_alloc(a, b);
}
void
__wrap_free(void* p)
{
    given += armed && p;
    __real_free(p);
}
}
static void*
get_mem(std::size_t n, std::size_t al)
{
    taken += armed;
    void* p = al > 16 ? __real_aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
static void
put_mem(void* p)
{
    given += armed && p;
    __real_free(p);
}
void* operator new(std::size_t n) { return get_mem(n, 0); }
void* operator new[](std::size_t n) { return get_mem(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return get_mem(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return get_mem(n, std::size_t(a)); }
void  operator delete(void* p) noexcept { put_mem(p); }
void  operator delete[](void* p) noexcept { put_mem(p); }
void  operator delete(void* p, std::size_t) noexcept { put_mem(p); }
void  operator delete[](void* p, std::size_t) noexcept { put_mem(p); }
void  operator delete(void* p, std::align_val_t) noexcept { put_mem(p); }
void  operator delete[](void* p, std::align_val_t) noexcept { put_mem(p); }
void  operator delete(void* p, std::size_t, std::align_val_t) noexcept { put_mem(p); }
void  operator delete[](void* p, std::size_t, std::align_val_t) noexcept { put_mem(p); }

// Runs f with the count on.
template <class F>
static void
quietly(char const* what, F f)
{
    taken = given = 0;
    armed         = true;
    f();
    armed = false;
    PBT_CHECK(taken == 0 && given == 0, "%s called the program's allocation functions %llu times and gave back %llu blocks",
              what, (unsigned long long)taken, (unsigned long long)given);
}

char const* const property_rule
    = "One case is a history on one statically sized part (a static heap with raw blocks and seven kinds of containers, pimpls, "
      "byte-order types with packets and payload buffers, fixed event observables, fixed observable values, compile-time "
      "observer lists), up to and beyond its capacity, with allocation functions and operators counted during each library "
      "call. Non-trivial: the history has at least ten operations, one of which was refused or filled the part to capacity.";
bool const property_flaky = false;
void
known_findings()
{}

#ifdef STATIC_LIST

#include <xitren/comm/observer_static.hpp>

namespace {
namespace xc = xitren::comm;
struct ob : xc::observer<int, ob> {
    std::uint64_t sum{};
    void
    notification_impl(xc::observable_impl<int> const&, int const& v) noexcept
    {
        sum += std::uint64_t(v);
    }
};
template <std::size_t... I>
void
lists(pbt::ctx& c, std::index_sequence<I...>)
{
    std::array<ob, sizeof...(I)> o{};
    auto const                   n = 10 + c.draw(30);
    quietly("a compile-time list", [&] {
        xc::observable<int, decltype((void)I, ob{})...> l{o[I]...};
        for (std::uint64_t i = 0; i < n; ++i)
            l.notify(int(i));
    });
    c.op("%zu observers, %llu events", sizeof...(I), (unsigned long long)n);
    for (auto& x : o)
        PBT_CHECK(x.sum == n * (n - 1) / 2, "deliveries are missing");
    c.nontrivial();
}
}    // namespace
void
property(pbt::ctx& c)
{
    switch (c.draw(4)) {
    case 0: lists(c, std::make_index_sequence<1>{}); break;
    case 1: lists(c, std::make_index_sequence<2>{}); break;
    case 2: lists(c, std::make_index_sequence<3>{}); break;
    case 3: lists(c, std::make_index_sequence<9>{}); break;
    default: lists(c, std::make_index_sequence<30>{});
    }
}

#else

#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/comm/values/observed.hpp>
#include <xitren/func/data.hpp>
#include <xitren/func/fast_pimpl.hpp>
#include <xitren/func/packet.hpp>

namespace {
int  ops     = 0;
bool refused = false;

template <std::size_t N>
void
heap_case(pbt::ctx& c)
{
    using heap = xitren::allocators::static_heap<N>;
    alignas(heap) static unsigned char room[sizeof(heap)];
    heap*                              h = nullptr;
    quietly("constructing a heap", [&] { h = new (room) heap(); });
    // the program's own function for refusals, of any size, is made and thrown away uncounted
    unsigned long long hits = 0;
    switch (c.draw(3)) {
    case 0: break;
    case 1: h->on_fail([&hits] { ++hits; }); break;
    case 2: h->on_fail([&hits, a = std::array<char, 100>{}] { hits += 1 + std::uint64_t(a[50]); }); break;
    default: h->on_fail([&hits, a = std::array<char, 3000>{}] { hits += 1 + std::uint64_t(a[50]); });
    }
    if (c.chance(1, 2)) {
        void* live[16]{};
        while (c.more(20)) {
            auto const  i  = c.draw(15);
            std::size_t sz = c.chance(1, 5) ? c.draw(~0ULL) : c.draw(N / 4);
            ++ops;
            bool const was = live[i];
            quietly("a heap operation", [&] {
                if (live[i]) {
                    h->deallocate(live[i]);
                    live[i] = nullptr;
                } else if (sz & 1)
                    live[i] = h->allocate(sz);
                else
                    live[i] = h->callocate(sz / 2, 2);
                typename heap::heap_stats_t s;
                h->v_port_get_heap_stats(&s);
                h->reset_minimum_ever_free_heap_size();
            });
            if (!was && !live[i])
                refused = true;
            c.op("block %llu, size %zu: %s", (unsigned long long)i, sz, live[i] ? "held" : "not held");
        }
    } else {
        int const kind = int(c.draw(6));
        struct step {
            int what, v;
        };
        std::vector<step> steps;
        while (c.more(40))
            steps.push_back({int(c.draw(5)), int(c.draw(50))});
        ops += int(steps.size());
        c.op("container %d, %zu steps", kind, steps.size());
        auto drive = [&](auto make, auto put, auto take) {
            quietly("a container on a static heap", [&] {
                try {
                    auto a = make();
                    for (auto const& s : steps) {
                        try {
                            switch (s.what) {
                            case 0:
                            case 1:
                            case 2: put(a, s.v); break;
                            case 3: take(a, s.v); break;
                            case 4: {
                                auto b = a;
                                a      = b;
                                break;
                            }
                            default: {
                                auto b = std::move(a);
                                a      = std::move(b);
                            }
                            }
                        } catch (std::bad_alloc const&) {
                            refused = true;
                        }
                    }
                } catch (std::bad_alloc const&) {
                    refused = true;
                }
            });
        };
        using namespace xitren::allocators;
        using A  = static_heap_allocator<int, N>;
        using AP = static_heap_allocator<std::pair<int const, int>, N>;
        using AC = static_heap_allocator<char, N>;
        auto back = [](auto& x, int v) { x.push_back(v); };
        auto drop = [](auto& x, int) {
            if (!x.empty())
                x.pop_back();
        };
        switch (kind) {
        case 0: drive([&] { return std::vector<int, A>(A{*h}); }, back, drop); break;
        case 1: drive([&] { return std::list<int, A>(A{*h}); }, back, drop); break;
        case 2: drive([&] { return std::deque<int, A>(A{*h}); }, back, drop); break;
        case 3:
            drive([&] { return std::map<int, int, std::less<int>, AP>(AP{*h}); }, [](auto& x, int v) { x[v] = v; },
                  [](auto& x, int v) { x.erase(v); });
            break;
        case 4:
            drive([&] { return std::unordered_map<int, int, std::hash<int>, std::equal_to<int>, AP>(AP{*h}); },
                  [](auto& x, int v) { x[v] = v; }, [](auto& x, int v) { x.erase(v); });
            break;
        case 5:
            drive([&] { return std::basic_string<char, std::char_traits<char>, AC>(AC{*h}); },
                  [](auto& x, int v) { x.append(std::size_t(v), 'x'); }, [](auto& x, int v) { x.resize(x.size() / 2); });
            break;
        default:
            drive([&] { return std::forward_list<int, A>(A{*h}); }, [](auto& x, int v) { x.push_front(v); },
                  [](auto& x, int) {
                      if (!x.empty())
                          x.pop_front();
                  });
        }
    }
    if (hits)
        c.label("refusal told to the program");
    h->on_fail(nullptr);
    quietly("destroying a heap", [&] { h->~heap(); });
}

template <std::size_t N>
struct body {
    unsigned char b[N];
    int           n;
    explicit body(int v = 0) noexcept : n{v} { std::memset(b, v & 0xff, N); }
    int
    get() const
    {
        return n;
    }
};
template <std::size_t N>
void
pimpl_case(pbt::ctx& c)
{
    using P = xitren::func::fast_pimpl<body<N>, sizeof(body<N>) + 8, alignof(body<N>)>;
    alignas(P) static unsigned char room[4][sizeof(P)];
    P*                              p[4]{};
    while (c.more(25)) {
        auto const i = c.draw(3), j = c.draw(3);
        int const  k = int(c.draw(5)), v = int(c.draw(1000));
        ++ops;
        c.op("pimpl %llu %llu op %d", (unsigned long long)i, (unsigned long long)j, k);
        quietly("a pimpl", [&] {
            if (!p[i]) {
                if (p[j] && k == 0)
                    p[i] = new (room[i]) P(*p[j]);
                else if (p[j] && k == 1)
                    p[i] = new (room[i]) P(std::move(*p[j]));
                else
                    p[i] = new (room[i]) P(v);
            } else if (k == 2) {
                p[i]->~P();
                p[i] = nullptr;
            } else if (p[j] && k == 3)
                *p[i] = *p[j];
            else if (p[j] && k == 4)
                *p[i] = std::move(*p[j]);
            else
                PBT_CHECK((*p[i])->get() == (**p[i]).n, "a pimpl's object differs between -> and *");
        });
    }
    quietly("destroying pimpls", [&] {
        for (auto*& x : p)
            if (x)
                x->~P();
    });
    refused = true;
}

template <std::size_t N>
struct part {
    std::uint8_t b[N];
};
template <class V>
struct sum {
    using value_type = V;
    template <class I>
    static V
    calculate(I b, I e)
    {
        std::uint16_t s{};
        for (; b != e; ++b)
            s = std::uint16_t(s * 31 + *b);
        return V(s);
    }
};
template <std::size_t H, std::size_t F, std::size_t T, std::size_t Max, class C>
void
packet_case(pbt::ctx& c)
{
    using namespace xitren::func;
    part<H>              h;
    part<F>              f;
    std::vector<part<T>> items(Max);
    for (auto& x : h.b)
        x = std::uint8_t(c.draw(255));
    for (auto& x : f.b)
        x = std::uint8_t(c.draw(255));
    static packet_accessor<Max> acc;
    while (c.more(12)) {
        std::size_t const n = c.draw(Max / T + 2);
        ++ops;
        bool ok = false, valid = false;
        quietly("packets", [&] {
            packet<part<H>, part<F>, C> p{h, f};
            auto                        a = p.to_array();
            valid                         = p.valid();
            packet<part<H>, part<F>, C> q{a.begin()};
            auto const                  s = packet<part<H>, part<F>, C>::serialize(h, f);
            auto const                  t = packet<part<H>, part<F>, C>::deserialize(s);
            packet<part<H>, part<F>, C>::serialize(q, a.begin());
            valid &= std::get<0>(t);
            typename packet_accessor<Max>::template fields_in<part<H>, part<F>, part<T>> in{h, f, n, items.data()};
            ok           = acc.template serialize<part<H>, part<F>, part<T>, C>(in);
            auto const o = acc.template deserialize<part<H>, part<F>, part<T>, C>();
            valid &= o.valid || !ok;
            msb_t<std::uint32_t> m{std::uint32_t(n)};
            lsb_t<std::uint64_t> l{std::uint64_t(n)};
            valid &= m.get() == l.get() && data<msb_t<std::uint32_t>>::deserialize(data<msb_t<std::uint32_t>>::serialize(m).begin()).get() == m.get();
        });
        c.op("%zu items: %s", n, ok ? "stored" : "refused");
        PBT_CHECK(valid, "a packet was not read back valid");
        refused |= !ok;
    }
}

struct hearer : xitren::comm::observer<int> {
    std::uint64_t n{};
    void
    data(void const*, int const&) override
    {
        ++n;
    }
    void
    disconnect(void const*) override
    {
        ++n;
    }
};
template <std::size_t Max>
void
observer_case(pbt::ctx& c)
{
    using O = xitren::comm::observable<int, true, Max>;
    alignas(O) static unsigned char room[sizeof(O)];
    std::array<hearer, 12>          hs{};
    O*                              o = nullptr;
    quietly("constructing an observable", [&] { o = new (room) O(); });
    while (c.more(25)) {
        auto const i = c.draw(hs.size() - 1);
        auto const k = c.weighted({5, 2, 1, 4});
        ++ops;
        xitren::comm::observer_errors e{};
        quietly("a fixed observable", [&] {
            switch (k) {
            case 0: e = o->add_observer(hs[i]); break;
            case 1: e = o->remove_observer(hs[i]); break;
            case 2: o->clear_observers(); break;
            default: e = o->notify_observers(int(i));
            }
        });
        c.op("op %zu observer %llu -> %d", k, (unsigned long long)i, int(e));
        refused |= e != xitren::comm::observer_errors::ok;
    }
    quietly("destroying an observable", [&] { o->~O(); });
}

template <class T, std::size_t Max>
void
value_case(pbt::ctx& c)
{
    using O = xitren::comm::values::observable<T, Max>;
    using D = xitren::comm::values::observed<T>;
    alignas(O) static unsigned char room[sizeof(O)];
    std::uint64_t                   heard = 0;
    std::deque<D>                   ds;
    for (int i = 0; i < 12; ++i)
        ds.emplace_back([&heard](auto const&...) { ++heard; });
    O* o = nullptr;
    quietly("constructing an observable value", [&] { o = new (room) O(); });
    while (c.more(25)) {
        auto const i = c.draw(ds.size() - 1);
        auto const k = c.weighted({5, 2, 1, 2, 1, 1, 1, 1, 1});
        ++ops;
        xitren::comm::observer_errors e{};
        quietly("a fixed observable value", [&] {
            switch (k) {
            case 0: e = o->add_observer(ds[i]); break;
            case 1: e = o->remove_observer(ds[i]); break;
            case 2: o->clear_observers(); break;
            case 3: *o = T(i); break;
            case 4: ++*o; break;
            case 5: --*o; break;
            case 6: (*o)++; break;
            case 7: *o += T(i); break;
            default: *o -= T(i);
            }
        });
        c.op("op %zu observer %llu -> %d", k, (unsigned long long)i, int(e));
        refused |= e != xitren::comm::observer_errors::ok;
    }
    quietly("destroying an observable value", [&] { o->~O(); });
}
}    // namespace

void
property(pbt::ctx& c)
{
    ops     = 0;
    refused = false;
    switch (c.draw(15)) {
    case 0: heap_case<128>(c); break;
    case 1: heap_case<1024>(c); break;
    case 2: heap_case<4096>(c); break;
    case 3: heap_case<1000>(c); break;
    case 4: pimpl_case<4>(c); break;
    case 5: pimpl_case<4000>(c); break;
    case 6: packet_case<1, 2, 1, 16, sum<xitren::func::lsb_t<std::uint16_t>>>(c); break;
    case 7: packet_case<8, 20, 5, 256, sum<xitren::func::msb_t<std::uint32_t>>>(c); break;
    case 8: packet_case<100, 400, 64, 2000, sum<xitren::func::msb_t<std::uint64_t>>>(c); break;
    case 9: observer_case<1>(c); break;
    case 10: observer_case<5>(c); break;
    case 11: observer_case<11>(c); break;
    case 12: value_case<int, 1>(c); break;
    case 13: value_case<std::uint64_t, 4>(c); break;
    case 14: value_case<int, 8>(c); break;
    default: heap_case<16384>(c);
    }
    if (ops >= 10 && refused)
        c.nontrivial();
}

#endif
