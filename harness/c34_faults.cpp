// C34: a failure in the middle of a call - memory that runs out, a copy that throws, a thread that cannot be had, a
// handler that throws - reaches the caller, and what the object held before stays intact.
#include "pipe_items.hpp"

#include <xitren/cache/lru.hpp>
#include <xitren/comm/mediator.hpp>
#include <xitren/comm/observer.hpp>
#include <xitren/func/argv_parser.hpp>
#include <xitren/func/interval_event.hpp>

#include <deque>
#include <dlfcn.h>
#include <pthread.h>
#include <set>

char const* const property_rule
    = "One case is a history of calls on a cache, a dynamic observable, a pipeline stage or pool, a timer, an argument parser "
      "or a mediator, into which failures are injected: the n-th allocation, the n-th copy of a key, value or item, or the n-th "
      "thread creation of a call fails, or a handler throws. Non-trivial: a failure struck inside a call of the library and the "
      "object was used again afterwards.";
bool const property_flaky = true;
void
known_findings()
{}

namespace fault {
struct injected {};
enum kind : unsigned { copy, memory, thread };
inline thread_local long at[3]  = {-1, -1, -1};    // calls of this kind still to succeed; -1: none fails
inline thread_local bool fired = false;
inline bool
strikes(kind k)
{
    if (at[k] < 0 || at[k]-- > 0)
        return false;
    fired = true;
    return true;
}
// arms one failure for as long as it lives
struct arm {
    arm(kind k, long n)
    {
        fired = false;
        at[k] = n;
    }
    arm(arm const&) = delete;
    ~arm() { off(); }
    static void
    off()
    {
        at[0] = at[1] = at[2] = -1;
    }
};
}    // namespace fault

__attribute__((noinline)) void*
operator new(std::size_t n)
{
    if (fault::strikes(fault::memory))
        throw std::bad_alloc{};
    if (void* p = std::malloc(n ? n : 1))
        return p;
    throw std::bad_alloc{};
}
void
operator delete(void* p) noexcept
{
    std::free(p);
}
void
operator delete(void* p, std::size_t) noexcept
{
    std::free(p);
}

extern "C" int
pthread_create(pthread_t* t, pthread_attr_t const* a, void* (*f)(void*), void* arg)
{
    using fn = int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
    static fn const real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_create"));
    if (fault::strikes(fault::thread))
        return EAGAIN;
    auto const save = fault::at[fault::memory];    // the runtime's own bookkeeping is not what is being starved
    fault::at[fault::memory] = -1;
    int const r              = real(t, a, f, arg);
    fault::at[fault::memory] = save;
    return r;
}

namespace {

template <int Kind>
std::atomic<long>&
alive()
{
    static std::atomic<long> n{0};
    return n;
}
// Copies may fail, moves do not.
template <int Kind>
struct thing {
    int id;
    explicit thing(int i) noexcept : id{i} { ++alive<Kind>(); }
    thing(thing const& o) : id{o.id}
    {
        if (fault::strikes(fault::copy))
            throw fault::injected{};
        ++alive<Kind>();
    }
    thing(thing&& o) noexcept : id{o.id} { ++alive<Kind>(); }
    thing&
    operator=(thing const& o)
    {
        if (fault::strikes(fault::copy))
            throw fault::injected{};
        id = o.id;
        return *this;
    }
    thing&
    operator=(thing&& o) noexcept
    {
        id = o.id;
        return *this;
    }
    ~thing() { --alive<Kind>(); }
    friend bool
    operator==(thing const& a, thing const& b) noexcept
    {
        return a.id == b.id;
    }
};
using ckey = thing<0>;
using cval = thing<1>;
using item = thing<2>;
using func = thing<3>;

struct failure {
    bool        on;
    fault::kind kind;
    long        n;
    char const*
    name() const
    {
        return !on                     ? ""
               : kind == fault::copy   ? ", a copy fails"
               : kind == fault::memory ? ", memory runs out"
                                       : ", no thread to be had";
    }
};
failure
draw_failure(pbt::ctx& c, std::initializer_list<fault::kind> kinds, long max)
{
    if (!c.chance(1, 3))
        return {false, fault::copy, 0};
    auto const k = c.pick(kinds);
    return {true, k, long(c.draw(std::uint64_t(max)))};
}
// Runs f with the failure armed. -> did it fail? Anything but the injected failure may not come out.
template <class F>
bool
attempt(failure const& w, F&& f)
{
    bool threw = false, kind_ok = true;
    fault::fired = false;
    try {
        if (w.on) {
            fault::arm a{w.kind, w.n};
            f();
        } else
            f();
    } catch (fault::injected const&) {
        threw   = true;
        kind_ok = w.on && w.kind == fault::copy;
    } catch (std::bad_alloc const&) {
        threw   = true;
        kind_ok = w.on && w.kind == fault::memory;
    } catch (std::system_error const&) {
        threw   = true;
        kind_ok = w.on && w.kind == fault::thread;
    }
    fault::arm::off();
    PBT_CHECK(kind_ok, "a call failed for a reason it did not have");
    PBT_CHECK(threw == fault::fired, "%s", threw ? "a call failed although nothing went wrong" : "a failure inside a call was kept from the caller");
    fault::fired = false;
    return threw;
}
}    // namespace

template <>
struct std::hash<ckey> {
    std::size_t
    operator()(ckey const& k) const noexcept
    {
        return std::size_t(k.id / 2);
    }
};

namespace {

// ---- cache ---------------------------------------------------------------------------------------------------------

using state_t = std::vector<std::pair<int, int>>;    // key, value; most recent first

template <std::size_t Size>
struct cache_model {
    std::set<state_t> states{state_t{}};    // what a failed call may have left

    static state_t
    stored(state_t s, int k, int v)
    {
        auto it = std::find_if(s.begin(), s.end(), [&](auto& e) { return e.first == k; });
        if (it != s.end())
            s.erase(it);
        else if (s.size() >= Size)
            s.pop_back();
        s.insert(s.begin(), {k, v});
        return s;
    }
    static state_t
    touched(state_t s, int k)
    {
        auto it = std::find_if(s.begin(), s.end(), [&](auto& e) { return e.first == k; });
        if (it != s.end())
            std::rotate(s.begin(), it, it + 1);
        return s;
    }
    void
    put(int k, int v, bool failed)
    {
        std::set<state_t> n;
        for (auto& s : states) {
            n.insert(stored(s, k, v));
            if (failed) {
                n.insert(s);
                n.insert(touched(s, k));
                auto it = std::find_if(s.begin(), s.end(), [&](auto& e) { return e.first == k; });
                if (it != s.end()) {    // the key's own entry may be gone, the others not
                    auto less = s;
                    less.erase(less.begin() + (it - s.begin()));
                    n.insert(less);
                } else if (s.size() >= Size) {
                    auto less = s;
                    less.pop_back();
                    n.insert(less);
                }
            }
        }
        states = std::move(n);
    }
    // value: -1 absent
    bool
    got(int k, int value)
    {
        std::set<state_t> n;
        for (auto& s : states) {
            auto it = std::find_if(s.begin(), s.end(), [&](auto& e) { return e.first == k; });
            if ((it == s.end() ? -1 : it->second) == value)
                n.insert(touched(s, k));
        }
        states.swap(n);
        return !states.empty();
    }
    void
    get_failed(int k)
    {
        std::set<state_t> n;
        for (auto& s : states) {
            n.insert(s);
            n.insert(touched(s, k));
        }
        states.swap(n);
    }
};

template <std::size_t Size, bool Throws>
void
cache_case(pbt::ctx& c)
{
    using cache_t = xitren::cache::lru<ckey, cval, Size, Throws>;
    c.op("cache of %zu", Size);
    unsigned failures = 0, later = 0;
    {
        cache_t           cache{std::chrono::hours{24}};
        cache_model<Size> m;
        int const         keys = int(Size) + int(c.range(1, 4));
        int               v    = 0;
        auto              look = [&](int k) {
            auto r = cache.get(ckey{k});
            PBT_CHECK(m.got(k, r ? r->id : -1),
                      "lookup of key %d: %s %d; no outcome of the failed calls before explains that", k,
                      r ? "value" : "absent", r ? r->id : -1);
        };
        while (c.more(30)) {
            int const  k = int(c.draw(std::uint64_t(keys - 1)));
            auto const w = failures < 5 ? draw_failure(c, {fault::copy, fault::memory}, 6) : failure{false, fault::copy, 0};
            if (c.chance(3, 5)) {
                ++v;
                ckey const key{k};
                cval const val{v};
                bool const lvalues = c.chance(1, 2);
                c.op("put(%d, %d)%s", k, v, w.name());
                bool const failed = attempt(w, [&] { lvalues ? cache.put(key, val) : cache.put(ckey{k}, cval{v}); });
                m.put(k, v, failed);
                failures += failed;
                if (failed)
                    c.op("  failed");
            } else {
                c.op("get(%d)%s", k, w.name());
                int        value  = -1;
                bool const failed = attempt(w, [&] {
                    auto r = cache.get(ckey{k});
                    value  = r ? r->id : -1;
                });
                if (failed) {
                    m.get_failed(k);
                    ++failures;
                    c.op("  failed");
                } else
                    PBT_CHECK(m.got(k, value), "lookup of key %d: value %d (-1: absent); no outcome of the failed calls before explains that", k, value);
            }
            later += failures > 0;
            PBT_CHECK(alive<1>() <= long(Size), "%ld values alive in a cache of %zu", alive<1>().load(), Size);
        }
        for (int k = 0; k < keys; ++k)
            look(k);
        PBT_CHECK(alive<1>() <= long(Size), "%ld values alive in a cache of %zu", alive<1>().load(), Size);
    }
    PBT_CHECK(alive<0>() == 0 && alive<1>() == 0, "%ld keys and %ld values outlive the cache", alive<0>().load(), alive<1>().load());
    if (failures && later > 2)
        c.nontrivial();
}

// ---- dynamic observable --------------------------------------------------------------------------------------------

struct obs final : xitren::comm::observer<int> {
    std::vector<int>* log{};
    int               id{};
    void
    data(void const*, int const&) override
    {
        log->push_back(id);
    }
    void
    disconnect(void const*) override
    {
        log->push_back(~id);
    }
};

void
observable_case(pbt::ctx& c)
{
    using errors = xitren::comm::observer_errors;
    using target = xitren::comm::observable_dynamic<int>;
    std::vector<int> log, expect;
    log.reserve(1000);
    std::deque<obs> o(12);
    for (int i = 0; i < 12; ++i) {
        o[i].log = &log;
        o[i].id  = i;
    }
    auto                       t = std::make_unique<target>();
    std::set<std::vector<int>> states{{}};
    unsigned                   failures = 0, later = 0;
    auto                       list = [&] {
        std::string s;
        for (int i : log)
            s += std::to_string(i) + " ";
        return s;
    };
    c.op("dynamic observable");
    while (c.more(20)) {
        int const i = int(c.draw(11));
        switch (c.weighted({6, 2, 3})) {
        case 0: {
            auto const w = draw_failure(c, {fault::memory}, 2);
            c.op("add %d%s", i, w.name());
            bool       refused = false;
            bool const failed  = attempt(w, [&] {
                try {
                    t->add_observer(o[i]);
                } catch (target::exception const& e) {
                    refused = e.error == errors::already_contains;
                    PBT_CHECK(refused, "add: unexpected error %d", int(e.error));
                }
            });
            std::set<std::vector<int>> n;
            for (auto s : states) {
                bool const has = std::count(s.begin(), s.end(), i);
                if (!failed && has != refused)
                    continue;
                if (failed)
                    n.insert(s);
                if (!has)
                    s.push_back(i);
                n.insert(s);
            }
            states.swap(n);
            PBT_CHECK(!states.empty(), "add of observer %d %s, which no outcome of the failed calls before explains", i,
                      refused ? "was refused as a duplicate" : "succeeded");
            failures += failed;
            break;
        }
        case 1: {
            c.op("remove %d", i);
            bool refused = false;
            try {
                t->remove_observer(o[i]);
            } catch (target::exception const& e) {
                refused = true;
            }
            std::set<std::vector<int>> n;
            for (auto s : states)
                if (bool(std::erase(s, i)) != refused)
                    n.insert(s);
            states.swap(n);
            PBT_CHECK(!states.empty(), "remove of observer %d %s, which no outcome of the failed calls before explains", i,
                      refused ? "failed" : "succeeded");
            break;
        }
        default: {
            c.op("notify");
            log.clear();
            t->notify_observers(1);
            bool const known = states.count(log);
            PBT_CHECK(known, "notification reached %s: no outcome of the failed calls before explains that", list().c_str());
            states = {log};
            later += failures > 0;
        }
        }
    }
    log.clear();
    t.reset();
    std::vector<int> gone;
    for (int i : log)
        gone.push_back(~i);
    PBT_CHECK(states.count(gone), "the destructor disconnected an unexpected set of %zu observers", gone.size());
    if (failures && later)
        c.nontrivial();
}

// ---- pipelines -----------------------------------------------------------------------------------------------------

struct quiet_result {};

template <class Item>
int
number(Item const& i)
{
    if constexpr (std::is_same_v<Item, std::string>)
        return int(std::strtol(i.c_str(), nullptr, 10));
    else
        return i.id;
}
template <class Item>
Item
numbered(int n)
{
    if constexpr (std::is_same_v<Item, std::string>)
        return std::to_string(n) + " " + std::string(unsigned(n * 7) % 60, 'x');
    else
        return Item{n};
}

struct record {
    std::mutex       lock;
    std::vector<int> ids;
    void
    add(int i)
    {
        std::lock_guard l{lock};
        ids.push_back(i);
    }
};
template <class Item>
struct handler {
    func    mine;
    record* rec;
    quiet_result
    operator()(xitren::comm::pipeline_stage_exception, Item const& i, std::pair<int, int> const&) const
    {
        rec->add(number(i));
        return {};
    }
    quiet_result
    operator()(xitren::comm::pipeline_stage_exception, Item const& i, xitren::comm::measure_data const&) const
    {
        rec->add(number(i));
        return {};
    }
};

template <class Pipe, class Item, bool Ordered>
void
pipe_case(pbt::ctx& c, char const* what)
{
    c.op("%s", what);
    unsigned failures = 0, later = 0;
    record   rec;
    rec.ids.reserve(1000);
    std::vector<int> want;
    {
        std::unique_ptr<Pipe> p;
        while (!p) {
            auto const                         w = draw_failure(c, {fault::thread, fault::memory, fault::copy}, 5);
            std::function<quiet_result(xitren::comm::pipeline_stage_exception, Item const&, std::pair<int, int> const&)> f;
            c.op("construct%s", w.name());
            handler<Item> const h{func{1}, &rec};
            bool const          failed = attempt(w, [&] { p = std::make_unique<Pipe>(h); });
            failures += failed;
            PBT_CHECK(alive<3>() >= (p ? 2 : 1), "the handler object is gone");
            if (failed)
                PBT_CHECK(!p && alive<3>() == 1, "%ld handler objects remain of a pipeline that was never made", alive<3>().load() - 1);
        }
        int serial = 0;
        while (c.more(20)) {
            ++serial;
            Item const it   = numbered<Item>(serial);
            bool const lv   = c.chance(1, 2);
            auto const w    = draw_failure(c, {fault::copy, fault::memory}, 2);
            c.op("push %d%s", serial, w.name());
            Item       tmp    = it;
            bool const failed = attempt(w, [&] { lv ? p->push(it) : p->push(std::move(tmp)); });
            if (!failed)
                want.push_back(serial);
            failures += failed;
            later += failures > 0;
            if (failed)
                c.op("  failed");
            if (c.chance(1, 8))
                pbt::real_sleep_us(long(c.draw(300)));
        }
        p.reset();
    }
    if (!Ordered)
        std::sort(rec.ids.begin(), rec.ids.end());
    for (std::size_t i = 0; i < want.size() || i < rec.ids.size(); ++i)
        PBT_CHECK(i < want.size() && i < rec.ids.size() && want[i] == rec.ids[i],
                  "of %zu items pushed without failure %zu were handled; number %zu: %d instead of %d", want.size(), rec.ids.size(),
                  i, i < rec.ids.size() ? rec.ids[i] : -1, i < want.size() ? want[i] : -1);
    PBT_CHECK(alive<2>() == 0, "%ld items outlive the pipeline", alive<2>().load());
    PBT_CHECK(alive<3>() == 0, "%ld handler objects outlive the pipeline", alive<3>().load());
    if (failures && later > 1)
        c.nontrivial();
}

void
timer_case(pbt::ctx& c)
{
    struct fn {
        func                   mine;
        std::atomic<unsigned>* ran;
        void
        operator()() const
        {
            ++*ran;
        }
    };
    c.op("timer");
    std::atomic<unsigned>                         ran{0};
    std::unique_ptr<xitren::func::interval_event> e;
    unsigned                                      failures = 0;
    fn const                                      f{func{1}, &ran};
    while (!e) {
        auto const w = draw_failure(c, {fault::thread, fault::memory, fault::copy}, 2);
        c.op("construct%s", w.name());
        bool const failed = attempt(w, [&] {
            e = std::make_unique<xitren::func::interval_event>(f, std::chrono::milliseconds(1), std::chrono::milliseconds(1));
        });
        failures += failed;
        if (failed)
            PBT_CHECK(!e && alive<3>() == 1, "%ld callback objects remain of a timer that was never made", alive<3>().load() - 1);
    }
    double const until = pbt::now_s() + 20;
    while (ran < 2) {
        PBT_CHECK(pbt::now_s() < until, "the timer does not run");
        pbt::real_sleep_us(200);
    }
    e.reset();
    PBT_CHECK(alive<3>() == 1, "%ld callback objects outlive the timer", alive<3>().load() - 1);
    if (failures)
        c.nontrivial();
}

// ---- argument parser -----------------------------------------------------------------------------------------------

struct options {
    std::string s0{"default zero"}, s1{"a default long enough to need memory of its own"}, s2{};
    int         i0{5};
    bool        b0{false};
    friend bool
    operator==(options const&, options const&)
        = default;
};
void
argv_case(pbt::ctx& c)
{
    using parser = xitren::func::argv_parser<options>;
    char const* const        names[] = {"--a-rather-long-option-name", "-s", "second string option", "-n", "-flag"};
    std::vector<std::string> words;
    unsigned const           n = 1 + unsigned(c.draw(9));
    for (unsigned i = 0; i < n; ++i) {
        auto const k = c.draw(5);
        if (k == 5) {
            words.push_back("something else");
            continue;
        }
        words.emplace_back(names[k]);
        if (k < 3)
            words.push_back(std::string(c.draw(60), char('a' + i)));
        else if (k == 3)
            words.push_back(std::to_string(c.draw(99999)));
    }
    std::vector<char const*> argv;
    for (auto& w : words)
        argv.push_back(w.c_str());
    c.op("%zu words", words.size());
    auto make = [&] {
        return parser::instance({{names[0], &options::s0}, {names[1], &options::s1}, {names[2], &options::s2},
                                 {names[3], &options::i0}, {names[4], &options::b0}});
    };
    options const           want = make()->parse(int(argv.size()), argv.data());
    std::unique_ptr<parser> p;
    unsigned                failures = 0;
    while (!p) {
        auto const w = draw_failure(c, {fault::memory}, 60);
        c.op("instance%s", w.name());
        failures += attempt(w, [&] { p = make(); });
    }
    for (;;) {
        auto const             w = draw_failure(c, {fault::memory}, 12);
        std::optional<options> r;
        c.op("parse%s", w.name());
        if (attempt(w, [&] { r.emplace(p->parse(int(argv.size()), argv.data())); })) {
            ++failures;
            continue;
        }
        PBT_CHECK(*r == want, "parsed again after a failure the same words give something else");
        if (!c.chance(1, 3))
            break;
    }
    if (failures)
        c.nontrivial();
}

// ---- mediator ------------------------------------------------------------------------------------------------------

namespace med {
using xitren::comm::manager;
using xitren::comm::module;
struct a_msg {
    int v;
};
struct b_msg {
    int v;
};
struct note {
    int  who, from, value;
    bool operator==(note const&) const = default;
};
struct world {
    std::vector<note> log;
    int               thrower = -1, countdown = -1;
    void
    told(int who, int from, int v)
    {
        log.push_back({who, from, v});
        if (countdown >= 0 && countdown-- == 0)
            throw fault::injected{};
    }
};
struct hub final : manager<8> {
    world* w;
    explicit hub(world& x) : w{&x} {}
    void
    data(std::size_t, std::uint8_t*, std::size_t sz) override
    {
        w->told(-1, int(sz), 0);
    }
};
struct am final : module<a_msg, b_msg> {
    world* w;
    int    id;
    am(hub& h, world& x, int i) : module<a_msg, b_msg>{h}, w{&x}, id{i} {}
    void
    data(b_msg const& m) override
    {
        w->told(id, 1, m.v);
    }
};
struct bm final : module<b_msg, a_msg> {
    world* w;
    int    id;
    bm(hub& h, world& x, int i) : module<b_msg, a_msg>{h}, w{&x}, id{i} {}
    void
    data(a_msg const& m) override
    {
        w->told(id, 0, m.v);
    }
};
// a module whose construction fails after it joined
struct broken final : module<b_msg, a_msg> {
    explicit broken(hub& h) : module<b_msg, a_msg>{h} { throw fault::injected{}; }
    void
    data(a_msg const&) override
    {
        pbt::fail("a message reached a module that was never constructed");
    }
};
}    // namespace med

void
mediator_case(pbt::ctx& c)
{
    using namespace med;
    world                            w;
    hub                              h{w};
    std::vector<std::unique_ptr<am>> as;
    std::vector<std::unique_ptr<bm>> bs;
    struct entry {
        int  id;
        bool a;
    };
    std::vector<entry> order;
    int                next = 0, v = 0;
    unsigned           failures = 0, later = 0;
    c.op("mediator");
    while (c.more(16)) {
        switch (c.weighted({3, 1, 1, 5})) {
        case 0: {
            bool const a    = c.chance(1, 2);
            bool const full = order.size() == 8;
            c.op("new %s module %d", a ? "a" : "b", next);
            try {
                if (a)
                    as.push_back(std::make_unique<am>(h, w, next));
                else
                    bs.push_back(std::make_unique<bm>(h, w, next));
                PBT_CHECK(!full, "a ninth module was taken");
                order.push_back({next, a});
            } catch (std::exception const&) {
                PBT_CHECK(full, "a module was refused although there is room");
                ++failures;
            }
            ++next;
            break;
        }
        case 1: {
            c.op("construction of a module fails");
            if (order.size() == 8)
                break;
            try {
                broken b{h};
                PBT_CHECK(false, "the failure was kept from the caller");
            } catch (fault::injected const&) {
            }
            ++failures;
            break;
        }
        case 2: {
            if (order.empty())
                break;
            auto const i = c.draw(order.size() - 1);
            int const  id = order[i].id;
            c.op("delete module %d", id);
            std::erase_if(as, [&](auto& m) { return m->id == id; });
            std::erase_if(bs, [&](auto& m) { return m->id == id; });
            order.erase(order.begin() + long(i));
            break;
        }
        default: {
            if (order.empty())
                break;
            auto const e = order[c.draw(order.size() - 1)];
            ++v;
            std::vector<note> want{{-1, 4, 0}};
            for (auto& o : order)
                if (o.a != e.a)
                    want.push_back({o.id, e.a ? 0 : 1, v});
            int const fail_at = c.chance(1, 3) ? int(c.draw(want.size() - 1)) : -1;
            c.op("module %d sends%s", e.id, fail_at >= 0 ? ", a handler throws" : "");
            w.log.clear();
            w.countdown = fail_at;
            bool failed = false;
            try {
                if (e.a)
                    (*std::find_if(as.begin(), as.end(), [&](auto& m) { return m->id == e.id; }))->send(a_msg{v});
                else
                    (*std::find_if(bs.begin(), bs.end(), [&](auto& m) { return m->id == e.id; }))->send(b_msg{v});
            } catch (fault::injected const&) {
                failed = true;
            }
            w.countdown = -1;
            PBT_CHECK(failed == (fail_at >= 0), "%s", failed ? "a send failed on its own" : "a handler's failure was kept from the sender");
            if (failed)
                want.resize(std::size_t(fail_at) + 1);
            PBT_CHECK(w.log == want, "a send from module %d was told to %zu instead of %zu, or in another order", e.id, w.log.size(), want.size());
            later += failures > 0;
            failures += failed;
        }
        }
    }
    if (failures && later)
        c.nontrivial();
}
}    // namespace

void
property(pbt::ctx& c)
{
    using namespace xitren::comm;
    pi::jitter = 0;
    alive<0>() = alive<1>() = alive<2>() = alive<3>() = 0;
    switch (c.weighted({10, 10, 10, 10, 10, 10, 10, 12, 2, 2, 2, 2, 2, 2, 1})) {
    case 0: cache_case<1, true>(c); break;
    case 1: cache_case<2, false>(c); break;
    case 2: cache_case<3, true>(c); break;
    case 3: cache_case<6, false>(c); break;
    case 4: observable_case(c); break;
    case 5: mediator_case(c); break;
    case 6: argv_case(c); break;
    case 7: cache_case<4, false>(c); break;
    case 8: pipe_case<pipeline_stage<item, quiet_result, 1, pi::quiet_log>, item, true>(c, "stage, buffer 1"); break;
    case 9: pipe_case<pipeline_stage<item, quiet_result, 16, pi::quiet_log>, item, true>(c, "stage, buffer 16"); break;
    case 10:
        pipe_case<pipeline_stage<std::string, quiet_result, 4, pi::quiet_log>, std::string, true>(c, "stage of texts, buffer 4");
        break;
    case 11: pipe_case<pipeline_stage_pool<item, quiet_result, 1, 2, pi::quiet_log>, item, false>(c, "pool of 2, buffer 1"); break;
    case 12: pipe_case<pipeline_stage_pool<item, quiet_result, 8, 4, pi::quiet_log>, item, false>(c, "pool of 4, buffer 8"); break;
    case 13:
        pipe_case<pipeline_stage_pool<std::string, quiet_result, 4, 3, pi::quiet_log>, std::string, false>(c, "pool of 3, of texts");
        break;
    default: timer_case(c);
    }
}
