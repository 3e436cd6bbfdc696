// C36: objects made in memory that held anything before behave as those made in zeroed memory.
#include <vector>

#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/cache/lru.hpp>
#include <xitren/comm/mediator.hpp>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/func/argv_parser.hpp>
#include <xitren/func/fast_pimpl.hpp>
#include <xitren/func/interval_event.hpp>
#include <xitren/func/packet.hpp>

#include "pipe_items.hpp"

#include <map>
#include <string>

#define observable static_observable    // they have the names of others
#define observer static_observer
#include <xitren/comm/observer_static.hpp>
#undef observable
#undef observer

char const* const property_rule
    = "One case makes a part of the library (heaps and their allocator, caches, event and value observables and observers, "
      "mediators, packets, byte-order types, in-place pimpls, option parsers; now and then a pipeline, a pool or an interval "
      "event) in zeroed memory and again, two to four times, in the same place filled with generated bytes, with ones, or with what "
      "another of its kind left there - by default- or value-initialization, the program's allocation functions handing out memory "
      "filled the same way - runs the same generated calls on each and compares everything they report, deliver and "
      "decide. Non-trivial: at least eight things were reported, and some memory was left by another object.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

std::atomic<int> fill_heap{-1};    // what fresh heap blocks hold, -1: whatever they held

}    // namespace

void*
operator new(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc{};
    int const f = fill_heap.load(std::memory_order_relaxed);
    if (f >= 0) {
        std::memset(p, f, n);
        asm volatile("" : : "r"(p) : "memory");
    }
    return p;
}
void
operator delete(void* p) noexcept
{
    std::free(p);
}
void
operator delete(void* p, std::size_t) noexcept
{
    std::free(p);
}

namespace {

struct rnd {
    std::uint64_t s;
    std::uint64_t
    operator()(std::uint64_t n)
    {
        s = pbt::mix(s + 1);
        return s % n;
    }
};

struct trace {
    std::string s{};
    int         n = 0;
    template <class T>
    void
    say(char const* what, T const& v)
    {
        s += what;
        s += ' ';
        if constexpr (std::is_convertible_v<T, std::string>)
            s += std::string(v);
        else
            s += std::to_string(v);
        s += '\n';
        ++n;
    }
};

// the same place for all objects of a case
alignas(64) unsigned char place[1 << 20];

enum class how { by_default, by_value };

// An object in that place. Lvalues of it must not outlive the function they are in.
template <class T>
struct made {
    T* p;
    template <class... A>
    explicit made(how h, A&&... a)
    {
        static_assert(sizeof(T) <= sizeof place && alignof(T) <= 64);
        void* m = place;
        asm volatile("" : "+r"(m) : : "memory");
        if constexpr (sizeof...(A) > 0)
            p = ::new (m) T(std::forward<A>(a)...);
        else if (h == how::by_default)
            p = ::new (m) T;
        else
            p = ::new (m) T();
        asm volatile("" : : "r"(p) : "memory");
    }
    made(made const&) = delete;
    ~made() { p->~T(); }
    T*
    operator->()
    {
        return p;
    }
    T&
    operator*()
    {
        return *p;
    }
};

// --- heaps -----------------------------------------------------------------------------------------------------------

template <std::size_t N>
void
heap(how h, rnd r, trace& t)
{
    using H = xitren::allocators::static_heap<N>;
    made<H> o{h};
    auto    at = [&](void* p) { return p ? long(static_cast<unsigned char*>(p) - place) : -1; };
    t.say("free", o->free_heap_size());
    t.say("min", o->minimum_ever_free_heap_size());
    std::vector<void*> live;
    int                fails = 0;
    auto const         stats = [&] {
        typename H::heap_stats_t s{};
        o->v_port_get_heap_stats(&s);
        t.say("available", s.x_available_heap_space_in_bytes);
        t.say("largest", s.x_size_of_largest_free_block_in_bytes);
        t.say("smallest", s.x_size_of_smallest_free_block_in_bytes);
        t.say("blocks", s.x_number_of_free_blocks);
        t.say("lowest", s.x_minimum_ever_free_bytes_remaining);
        t.say("allocations", s.x_number_of_successful_allocations);
        t.say("frees", s.x_number_of_successful_frees);
    };
    stats();
    bool const calls_early = r(2);
    for (int i = 0, n = int(r(30)); i < n; ++i) {
        switch (r(6)) {
        case 0:
        case 1:
            live.push_back(o->allocate(r(N / 3 + 2)));
            t.say("allocate", at(live.back()));
            break;
        case 2: {
            std::size_t const k = r(N / 4 + 2);
            live.push_back(o->callocate(k, 1));
            t.say("callocate", at(live.back()));
            if (live.back())
                for (std::size_t x = 0; x < k; ++x)
                    if (static_cast<unsigned char*>(live.back())[x])
                        t.say("not zero at", x);
            break;
        }
        case 3:
        case 4:
            if (!live.empty()) {
                std::size_t const k = r(live.size());
                o->deallocate(live[k]);
                live.erase(live.begin() + long(k));
            }
            break;
        default:
            if (calls_early)
                o->on_fail([&] { ++fails; });
            else
                t.say("too much", at(o->allocate(N * 2)));
            break;
        }
        t.say("free", o->free_heap_size());
        t.say("min", o->minimum_ever_free_heap_size());
    }
    stats();
    t.say("failures told", fails);
}

// --- caches ----------------------------------------------------------------------------------------------------------

template <class K, class V, std::size_t N, bool E>
void
cache(how h, rnd r, trace& t)
{
    using C = xitren::cache::lru<K, V, N, E>;
    made<C> o{h, std::chrono::hours{r(3)}};
    t.say("period", std::chrono::duration_cast<std::chrono::hours>(o->expired_after()).count());
    auto key = [](std::uint64_t x) {
        if constexpr (std::is_same_v<K, std::string>)
            return std::string(x % 3 * 20, 'k') + std::to_string(x);
        else
            return K(x);
    };
    for (int i = 0, n = int(r(30)); i < n; ++i) {
        std::uint64_t const k = r(N + 2);
        if (r(2)) {
            if constexpr (std::is_same_v<V, std::string>)
                o->put(key(k), std::string(r(40), 'v') + std::to_string(i));
            else
                o->put(key(k), V(i));
            continue;
        }
        try {
            auto v = o->get(key(k));
            if (v)
                t.say("found", *v);
            else
                t.say("absent", k);
        } catch (std::exception const& e) {
            t.say("thrown", std::string(e.what()));
        }
    }
}

// --- observables -----------------------------------------------------------------------------------------------------

struct ear : xitren::comm::observer<int> {
    trace* t{};
    int    id{};
    void
    disconnect(void const* src) override
    {
        t->say("disconnected", id * 2 + (src == place));
    }
    void
    data(void const* src, int const& v) override
    {
        t->say(src == place ? "heard" : "heard from elsewhere", v * 100 + id);
    }
};

template <class O>
void
events(how h, rnd r, trace& t)
{
    std::array<ear, 5> ears{};
    for (int i = 0; i < 5; ++i) {
        ears[i].t  = &t;
        ears[i].id = i;
    }
    made<O> o{h};
    auto    call = [&](char const* what, auto f) {
        if constexpr (std::is_void_v<decltype(f())>)
            try {
                f();
                t.say(what, 0);
            } catch (typename O::exception const& e) {
                t.say(what, int(e.error));
            }
        else
            t.say(what, int(f()));
    };
    for (int i = 0, n = int(r(25)); i < n; ++i) {
        auto& e = ears[r(5)];
        switch (r(8)) {
        case 0:
        case 1:
        case 2: call("add", [&] { return o->add_observer(e); }); break;
        case 3:
        case 4: call("remove", [&] { return o->remove_observer(e); }); break;
        case 5: o->clear_observers(); break;
        default: call("notify", [&] { return o->notify_observers(i); }); break;
        }
    }
}

void
observing(how h, rnd r, trace& t)    // the observer is what is made
{
    made<ear> e{h};
    e->t  = &t;
    e->id = 7;
    xitren::comm::observable_static<int, 2> a;
    xitren::comm::observable_dynamic<int>   b;
    for (int i = 0, n = 8 + int(r(10)); i < n; ++i)
        switch (r(4)) {
        case 0: t.say("add", int(a.add_observer(*e))); break;
        case 1:
            try {
                b.add_observer(*e);
            } catch (...) {
                t.say("refused", i);
            }
            break;
        case 2: a.notify_observers(i); break;
        default: b.notify_observers(i); break;
        }
}

template <class T, std::size_t N>
void
values(how h, rnd r, trace& t)
{
    using O = xitren::comm::values::observable<T, N>;
    std::array<xitren::comm::values::observed<T>, 4> obs;
    for (int i = 0; i < 4; ++i)
        if (r(3))
            obs[i].on_update([&t, i](T const v) { t.say("update", double(v) * 10 + i); });
    made<O> o{h};
    t.say("value", o->value());
    for (int i = 0, n = int(r(25)); i < n; ++i) {
        auto& e = obs[r(4)];
        switch (r(9)) {
        case 0:
        case 1: t.say("add", int(o->add_observer(e))); break;
        case 2: t.say("remove", int(o->remove_observer(e))); break;
        case 3: t.say("++", ++*o); break;
        case 4: t.say("--", (*o)--); break;
        case 5: t.say("+=", *o += T(r(9))); break;
        case 6: o->clear_observers(); break;
        default: t.say("=", *o = T(r(50))); break;
        }
        t.say("value", o->value());
        t.say("observed", e.value());
    }
}

template <class T>
void
observed(how h, rnd r, trace& t)
{
    made<xitren::comm::values::observed<T>> o{h};
    t.say("value", o->value());
    xitren::comm::values::observable<T, 2>      a;
    xitren::comm::values::observable_dynamic<T> b;
    for (int i = 0, n = 4 + int(r(20)); i < n; ++i) {
        switch (r(6)) {
        case 0: t.say("add", int(a.add_observer(*o))); break;
        case 1: t.say("add", int(b.add_observer(*o))); break;
        case 2: a = T(r(100)); break;
        case 3: ++b; break;
        case 4: o->disconnect(nullptr); break;
        default: o->on_update(r(3) ? std::function<void(T const)>{[&t, i](T const v) { t.say("update", double(v) + i); }} : nullptr);
        }
        t.say("value", o->value());
    }
}

struct comp_ear : xitren::comm::static_observer<int, comp_ear> {
    trace* t{};
    int    id{};
    void
    notification_impl(xitren::comm::observable_impl<int> const& src, int const& v)
    {
        t->say("heard", v * 10 + id);
        auto const at = reinterpret_cast<unsigned char const*>(&src);
        t->say("inside", int(at >= place && at < place + 4096));
    }
};
void
listed(how h, rnd r, trace& t)
{
    comp_ear a, b;
    a.t = b.t = &t;
    b.id      = 1;
    made<xitren::comm::static_observable<int, comp_ear, comp_ear, comp_ear>> o{h, a, b, a};
    for (int i = 0, n = int(r(6)); i < n; ++i)
        o->notify(i);
}

// --- mediators -------------------------------------------------------------------------------------------------------

struct ping {
    std::uint32_t v;
};
struct pong {
    std::uint16_t v;
};
struct talker : xitren::comm::module<ping, pong> {
    trace* t{};
    int    id{};
    explicit talker(xitren::comm::base::manager& m, trace* tr = nullptr, int i = 0) : module{m}, t{tr}, id{i} {}
    void
    data(pong const& p) override
    {
        t->say("pong", p.v * 10 + id);
    }
};
struct replier : xitren::comm::module<pong, ping> {
    trace* t{};
    int    id{};
    explicit replier(xitren::comm::base::manager& m, trace* tr = nullptr, int i = 0) : module{m}, t{tr}, id{i} {}
    void
    data(ping const& p) override
    {
        t->say("ping", p.v * 10 + std::uint32_t(id));
    }
};

template <std::size_t N>
void
hub(how h, rnd r, trace& t)
{
    made<xitren::comm::manager<N>>        m{h};
    std::vector<std::unique_ptr<talker>>  a;
    std::vector<std::unique_ptr<replier>> b;
    for (int i = 0, n = int(r(25)); i < n; ++i)
        switch (r(7)) {
        case 0:
        case 1:
            try {
                if (r(2))
                    a.push_back(std::make_unique<talker>(*m, &t, i));
                else
                    b.push_back(std::make_unique<replier>(*m, &t, i));
                t.say("in", i);
            } catch (std::exception const&) {
                t.say("full", i);
            }
            break;
        case 2:
            if (!a.empty())
                a.erase(a.begin() + long(r(a.size())));
            break;
        case 3:
            if (!b.empty())
                b.erase(b.begin() + long(r(b.size())));
            break;
        case 4:
            if (!a.empty())
                a[r(a.size())]->send(ping{std::uint32_t(i)});
            break;
        case 5:
            if (!b.empty())
                b[r(b.size())]->send(pong{std::uint16_t(i)});
            break;
        default:
            if (r(2))
                m->send(ping{std::uint32_t(i)});
            else
                m->send(pong{std::uint16_t(i)});
        }
}

void
member(how h, rnd r, trace& t)    // the module is what is made
{
    xitren::comm::manager<3> m;
    {
        replier                      other{m, &t, 1};
        made<talker>                 o{h, m, &t, 2};
        for (int i = 0, n = 4 + int(r(8)); i < n; ++i)
            switch (r(3)) {
            case 0: o->send(ping{std::uint32_t(i)}); break;
            case 1: other.send(pong{std::uint16_t(i)}); break;
            default: m.send(pong{std::uint16_t(i)}); break;
            }
    }
    m.send(pong{1});
}

// --- packets, byte order ---------------------------------------------------------------------------------------------

template <class It>
std::string
hex(It b, It e)
{
    std::string s;
    for (; b != e; ++b) {
        char x[3];
        std::snprintf(x, sizeof x, "%02x", unsigned(*b));
        s += x;
    }
    return s;
}
template <class T>
std::string
raw(T const& v)
{
    auto const p = reinterpret_cast<unsigned char const*>(&v);
    return hex(p, p + sizeof v);
}

template <class T>
void
ordered(how h, rnd r, trace& t)
{
    made<T> o{h};
    t.say("bytes", raw(*o));
    t.say("value", o->get());
    t.say("is zero", int(*o == T{0}));
    t.say("less", int(*o < T{1}));
    t.say("more", int(*o > T{0}));
    *o = typename T::data_type(r(1 << 16));
    t.say("bytes", raw(*o));
    t.say("value", o->get());
    t.say("is zero", int(*o == T{0}));
    t.say("at most", int(*o <= T{300}));
}

struct sum {
    using value_type = xitren::func::lsb_t<std::uint16_t>;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint16_t s = 0x1d0f;
        for (; b != e; ++b)
            s = std::uint16_t(s * 31 + *b);
        return value_type{s};
    }
};
struct __attribute__((__packed__)) head {
    std::uint8_t                       a;
    xitren::func::msb_t<std::uint32_t> n;
};
struct __attribute__((__packed__)) body {
    std::uint16_t b[3];
};

void
fixed_packet(how h, rnd r, trace& t)
{
    using P = xitren::func::packet<head, body, sum>;
    made<P> p{h};
    auto    report = [&] {
        t.say("bytes", raw(*p));
        t.say("valid", int(p->valid()));
        t.say("crc", p->crc().get());
        t.say("a", p->header().a);
        t.say("n", p->header().n.get());
        auto const a = p->to_array();
        t.say("array", hex(a.begin(), a.end()));
    };
    report();
    p->header().a   = std::uint8_t(r(256));
    p->fields().b[1] = std::uint16_t(r(65536));
    report();
    *p = P{head{1, 2}, body{{3, 4, std::uint16_t(r(9))}}};
    report();
}

template <std::size_t Max, class Item>
void
buffer(how h, rnd r, trace& t)
{
    using A = xitren::func::packet_accessor<Max>;
    made<A> o{h};
    t.say("size", o->size());
    t.say("bytes", hex(o->storage().begin(), o->storage().end()));
    auto back = [&] {
        auto const d = o->template deserialize<head, body, Item, sum>();
        t.say("valid", int(d.valid));
        t.say("items", d.size);
        if (d.valid)
            for (std::size_t i = 0; i < d.size * sizeof(Item); ++i)
                t.say("item", reinterpret_cast<unsigned char const*>(d.data)[i]);
    };
    back();
    for (int i = 0, n = int(r(5)); i < n; ++i) {
        std::vector<Item> v(r(Max));
        for (auto& x : v)
            x = Item(r(256));
        using in = typename A::template fields_in<head, body, Item>;
        bool const full = r(4);
        t.say("serialize", int(o->template serialize<head, body, Item, sum>(
                               in{head{std::uint8_t(i), 7}, body{{1, 2, 3}}, v.size(), full ? v.data() : nullptr})));
        t.say("size", o->size());
        t.say("bytes", hex(o->storage().begin(), o->storage().end()));
        back();
        if (r(3) == 0) {
            o->size(r(Max + 9));
            back();
        }
    }
}

template <class T>
void
bytes_of(how, rnd r, trace& t)
{
    std::array<std::uint8_t, sizeof(T) + 8> in;
    for (auto& x : in)
        x = std::uint8_t(r(256));
    made<T> o{how::by_value};
    *o = xitren::func::data<T>::deserialize(in.begin() + long(r(8)));
    t.say("object", raw(*o));
    auto const out = xitren::func::data<T>::serialize(*o);
    t.say("bytes", hex(out.begin(), out.end()));
    std::array<std::uint8_t, sizeof(T) + 8> to{};
    xitren::func::data<T>::serialize(*o, to.begin() + 3);
    t.say("written", hex(to.begin(), to.end()));
}

// --- in-place pimpl --------------------------------------------------------------------------------------------------

struct pod {
    int    a, b;
    double c;
    char   d[12];
};
struct rich {
    std::string      s{"rich"};
    std::vector<int> v{1, 2, 3};
    int              n{4};
};
std::string
state(pod const& p)
{
    return std::to_string(p.a) + " " + std::to_string(p.b) + " " + std::to_string(p.c) + " " + hex(p.d, p.d + sizeof p.d);
}
std::string
state(rich const& p)
{
    return p.s + " " + std::to_string(p.v.size()) + " " + std::to_string(p.n);
}
template <class T, std::size_t Size>
void
pimpl(how h, rnd r, trace& t)
{
    using P = xitren::func::fast_pimpl<T, Size, alignof(T)>;
    {
        made<P> o{h};
        t.say("fresh", state(**o));
    }
    T x{};
    if constexpr (std::is_same_v<T, pod>)
        x = pod{int(r(99)), 2, 3.5, "text"};
    else {
        x.s = std::string(r(60), 's');
        x.n = int(r(99));
    }
    P from{x};
    {
        made<P> o{h, x};
        t.say("of a value", state(**o));
        **o = T{};
        t.say("assigned to the inside", state(**o));
        *o = from;
        t.say("assigned", state(*o->operator->()));
    }
    {
        made<P> o{h, from};
        t.say("copied", state(**o));
    }
    {
        made<P> o{h, std::move(from)};
        t.say("moved", state(**o));
    }
}

// --- options ---------------------------------------------------------------------------------------------------------

struct options {    // no initial values of their own
    std::string name;
    int         count;
    double      ratio;
    bool        quiet;
};
void
parser(how, rnd r, trace& t)
{
    using P = xitren::func::argv_parser<options>;
    auto p  = P::instance({{"-n", &options::name}, {"-c", &options::count}, {"-r", &options::ratio}, {"-q", &options::quiet}});
    for (int k = 0; k < 2; ++k) {
        std::vector<char const*> a{"prog"};
        for (int i = 0, n = int(r(5)); i < n; ++i) {
            static char const* const w[] = {"-n", "some text", "-c", "12", "-r", "2.5", "-q", "-n", "5"};
            a.push_back(w[r(9)]);
        }
        auto const o = p->parse(int(a.size()), a.data());
        t.say("name", o.name);
        t.say("count", o.count);
        t.say("ratio", o.ratio);
        t.say("quiet", int(o.quiet));
    }
}

// --- what runs threads -----------------------------------------------------------------------------------------------

void
stage(how h, rnd r, trace& t)
{
    std::string got;
    {
        using S = xitren::comm::pipeline_stage<std::string, int, 4, pi::quiet_log>;
        bool first = true;
        made<S> o{h, [&](xitren::comm::pipeline_stage_exception e, std::string const s, std::pair<int, int> const m) -> int {
                      got += s + "," + std::to_string(int(e));
                      if (first)
                          got += " " + std::to_string(m.first) + "/" + std::to_string(m.second);
                      first = false;
                      return 0;
                  }};
        t.say("time", o->time_for_unit());
        t.say("load", o->buffer_utilization());
        for (int i = 0, n = int(r(30)); i < n; ++i)
            o->push(std::to_string(i) + " ");
    }
    t.say("handled", got);
    for (int i = 0; i < 8; ++i)
        t.say("", i);
}
void
pool(how h, rnd r, trace& t)
{
    std::array<std::vector<int>, 3> got;
    std::string                     firsts;
    std::mutex                      m;
    int                             n = 0;
    {
        using S = xitren::comm::pipeline_stage_pool<int, int, 3, 3, pi::quiet_log>;
        made<S> o{h, [&](xitren::comm::pipeline_stage_exception, int const v, xitren::comm::measure_data const d) -> int {
                      std::lock_guard l{m};
                      PBT_CHECK(d.id >= 0 && d.id < 3, "worker id %d in a pool of 3", d.id);
                      if (got[std::size_t(d.id)].empty())
                          PBT_CHECK(d.time == 0 && d.load == 0, "a worker's first item came with time %d, load %d", d.time, d.load);
                      got[std::size_t(d.id)].push_back(v);
                      return 0;
                  }};
        n = int(r(30));
        for (int i = 0; i < n; ++i)
            o->push(i);
    }
    std::vector<int> all;
    for (auto& g : got)
        all.insert(all.end(), g.begin(), g.end());
    std::sort(all.begin(), all.end());
    for (int v : all)
        t.say("handled", v);
    t.say("of", n);
}
void
timer(how h, rnd r, trace& t)
{
    using E = xitren::func::interval_event;
    std::atomic<int> n{0};
    auto const       period = std::chrono::milliseconds{1 + r(5)}, checks = std::chrono::milliseconds{1 + r(3)};
    {
        made<E> o{h, [&] { ++n; }, period, checks};
        t.say("period", o->period().count());
        t.say("checks", o->period_between_checks().count());
        bool const wait = r(4);
        for (int i = 0; wait && n == 0 && i < 5000; ++i)
            std::this_thread::sleep_for(std::chrono::milliseconds{1});
        if (wait)
            t.say("called", int(n > 0));
        if (r(2)) {
            o->stop();
            int const k = n;
            std::this_thread::sleep_for(std::chrono::milliseconds{8});
            t.say("called after stop", n - k);
            o->stop();
        }
    }
    int const k = n;
    std::this_thread::sleep_for(std::chrono::milliseconds{8});
    t.say("called after the end", n - k);
    for (int i = 0; i < 8; ++i)
        t.say("", i);
}

struct part {
    char const* name;
    void (*run)(how, rnd, trace&);
};
using namespace xitren::func;
part const parts[] = {
    {"a heap of 256", heap<256>},
    {"a heap of 4000", heap<4000>},
    {"a heap of 203", heap<203>},
    {"a cache of ints", cache<int, int, 3, true>},
    {"a cache of strings", cache<std::string, std::string, 2, false>},
    {"a cache of one", cache<std::string, int, 1, true>},
    {"a fixed observable", events<xitren::comm::observable_static<int, 3>>},
    {"a fixed observable by default", events<xitren::comm::observable<int>>},
    {"a dynamic observable", events<xitren::comm::observable_dynamic<int>>},
    {"an observer", observing},
    {"an int value, fixed", values<int, 2>},
    {"a byte value, fixed", values<std::uint8_t, 3>},
    {"a double value, fixed", values<double, 1>},
    {"a 64-bit value, dynamic", values<std::int64_t, 0>},
    {"a float value, dynamic", values<float, 0>},
    {"an observed int", observed<int>},
    {"an observed double", observed<double>},
    {"a compile-time observable", listed},
    {"a manager of 4", hub<4>},
    {"a manager of 9", hub<9>},
    {"a module", member},
    {"lsb 16", ordered<lsb_t<std::uint16_t>>},
    {"lsb 32", ordered<lsb_t<std::uint32_t>>},
    {"lsb 64", ordered<lsb_t<std::uint64_t>>},
    {"msb 16", ordered<msb_t<std::uint16_t>>},
    {"msb 32", ordered<msb_t<std::uint32_t>>},
    {"msb 64", ordered<msb_t<std::uint64_t>>},
    {"a packet", fixed_packet},
    {"a packet buffer of bytes", buffer<40, std::uint8_t>},
    {"a packet buffer of words", buffer<64, std::uint32_t>},
    {"bytes of an array", bytes_of<std::array<std::uint32_t, 9>>},
    {"bytes of a number", bytes_of<std::uint64_t>},
    {"a pimpl of a plain struct", pimpl<pod, sizeof(pod)>},
    {"a roomy pimpl of a plain struct", pimpl<pod, sizeof(pod) + 40>},
    {"a pimpl of a class", pimpl<rich, sizeof(rich)>},
    {"a parser", parser},
    {"a parser", parser},
};
part const threads[] = {{"a pipeline stage", stage}, {"a pipeline pool", pool}, {"an interval event", timer}};

}    // namespace

void
property(pbt::ctx& c)
{
    bool const          slow = c.chance(1, 150);
    part const&         p    = slow ? threads[c.draw(std::size(threads) - 1)] : parts[c.draw(std::size(parts) - 1)];
    std::uint64_t const seed = c.draw(1u << 20);
    auto const          h    = c.chance(1, 2) ? how::by_default : how::by_value;
    auto                run  = [&](std::uint64_t s, int heap_fill, trace& t) {
        fill_heap = heap_fill;
        p.run(h, rnd{s * 7919}, t);
        fill_heap = -1;
    };
    std::memset(place, 0, sizeof(place) / 64);
    asm volatile("" : : : "memory");
    trace clean;
    run(seed, 0, clean);
    c.op("%s, %s-initialized, calls from seed %llu: %d things reported", p.name, h == how::by_default ? "default" : "value",
         (unsigned long long)seed, clean.n);
    c.label(p.name);
    bool left = false;
    for (int i = 0, n = slow ? 2 : int(c.range(2, 4)); i < n; ++i) {
        char const* what      = "";
        int         heap_fill = 0xff;
        switch (c.draw(3)) {
        case 0:
            what = "ones";
            std::memset(place, 0xff, sizeof(place) / 64);
            break;
        case 1: {
            what                = "random bytes";
            std::uint64_t x     = c.draw(~0ULL >> 1);
            heap_fill           = int(x & 0xff);
            for (std::size_t k = 0; k < sizeof(place) / 64; k += 8) {
                x = pbt::mix(x);
                std::memcpy(place + k, &x, 8);
            }
            break;
        }
        case 2:
            what      = "one value";
            heap_fill = int(c.draw(255));
            std::memset(place, heap_fill, sizeof(place) / 64);
            break;
        default: {
            what = "what another one left";
            left = true;
            trace other;
            run(c.draw(1u << 20), heap_fill, other);
        }
        }
        asm volatile("" : : : "memory");
        trace t;
        run(seed, heap_fill, t);
        c.op("again in memory holding %s (heap blocks %02x)", what, unsigned(heap_fill));
        if (t.s == clean.s)
            continue;
        std::size_t at = 0;
        while (at < t.s.size() && at < clean.s.size() && t.s[at] == clean.s[at])
            ++at;
        at         = at ? t.s.rfind('\n', at - 1) + 1 : 0;
        auto line  = [&](std::string const& s) { return at <= s.size() ? s.substr(at, s.find('\n', at) - at) : std::string{"(nothing)"}; };
        pbt::fail("%s in memory holding %s (heap blocks %02x) said '%s', in zeroed memory '%s'", p.name, what, unsigned(heap_fill),
                  line(t.s).c_str(), line(clean.s).c_str());
    }
    if (clean.n >= 8 && left)
        c.nontrivial();
}
