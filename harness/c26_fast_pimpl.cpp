// C26: fast_pimpl<T> against plain T objects under the same history.
#include "pbt.hpp"

#include <deque>
#include <map>
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include <xitren/func/fast_pimpl.hpp>

char const* const property_rule
    = "One case runs one history of constructions (7 kinds of arguments), copies, moves, assignments, swaps, accesses, "
      "destructions and vector growth, with exceptions injected into the wrapped type's special members, on up to 5 wrappers "
      "and on 5 plain objects of the wrapped type; values, exceptions and the calls the wrapped type saw are compared step by "
      "step. Non-trivial: a copy or move from a living object was made, an assignment was made and an exception crossed.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

using xitren::func::fast_pimpl;

// What the wrapped type saw: which member, on which slot (or a temporary), from which.
struct registry {
    std::map<void const*, int>                         alive;
    std::vector<std::pair<char const*, std::size_t>>   regions;    // slots' memory
    std::string                                        trace;
    std::int64_t                                       throw_in = -1;    // calls until the next exception
    bool                                               places   = true;  // record where objects live

    int
    where(void const* p) const
    {
        auto const* q = static_cast<char const*>(p);
        for (std::size_t i = 0; i < regions.size(); ++i)
            if (q >= regions[i].first && q < regions[i].first + regions[i].second)
                return int(i);
        return -1;
    }
    void
    note(char const* what, void const* self, void const* other = nullptr)
    {
        trace += what;
        if (places) {
            trace += "@" + std::to_string(where(self));
            if (other)
                trace += "<" + std::to_string(where(other));
        }
        trace += ' ';
    }
    void
    may_throw(char const* what)
    {
        if (throw_in > 0 && --throw_in == 0) {
            throw_in = -1;
            trace += "!throw ";
            throw std::string(what);
        }
    }
    void
    born(void const* p)
    {
        PBT_CHECK(!alive.count(p), "an object was constructed on top of a living one");
        alive[p] = 1;
    }
    void
    dead(void const* p)
    {
        PBT_CHECK(alive.erase(p), "an object was destroyed that was not alive");
    }
    void
    need(void const* p) const
    {
        PBT_CHECK(alive.count(p), "an object that is not alive was used");
    }
};
registry* R = nullptr;

template <std::size_t Pad, std::size_t Al, bool QuietMove>
struct probe {
    std::string        text;
    int                n = 0;
    alignas(Al) char   pad[Pad];

    void
    fill()
    {
        std::memset(pad, int(text.size() + n) & 0x7f, Pad);
    }
    void
    made(char const* how, void const* from = nullptr)
    {
        PBT_CHECK(reinterpret_cast<std::uintptr_t>(this) % alignof(probe) == 0, "the object is not aligned for its type");
        R->note(how, this, from);
        R->may_throw(how);
        R->born(this);
        fill();
    }
    probe() : text("default") { made("ctor()"); }
    explicit probe(int v) : n(v) { made("ctor(int)"); }
    explicit probe(std::string const& s) : text(s) { made("ctor(string const&)"); }
    explicit probe(std::string& s) : text(s)
    {
        s += "+";
        made("ctor(string&)");
    }
    explicit probe(std::string&& s) : text(std::move(s))
    {
        s = "taken";
        made("ctor(string&&)");
    }
    probe(std::unique_ptr<int> p, int const& a) : n(p ? *p + a : a) { made("ctor(unique_ptr, int)"); }
    probe(int a, int b) : n(a - b) { made("ctor(int, int)"); }
    probe(std::initializer_list<int> l) noexcept : n(int(l.size()) * 1000) { fill(), R->note("ctor(list)", this), R->born(this); }
    template <class A, class B, class C>
    probe(char const*, A&&, B&&, C&&)
        : text(std::string(cat<A&&>()) + cat<B&&>() + cat<C&&>())
    {
        made("ctor(categories)");
    }
    template <class A>
    static char const*
    cat()
    {
        constexpr bool k = std::is_const_v<std::remove_reference_t<A>>;
        return std::is_lvalue_reference_v<A> ? (k ? "const& " : "& ") : (k ? "const&& " : "&& ");
    }
    probe(probe const& o) : text(o.text), n(o.n)
    {
        R->need(&o);
        made("copy", &o);
    }
    probe(probe&& o) noexcept(QuietMove) : text(o.text), n(o.n)
    {
        R->need(&o);
        R->note("move", this, &o);
        if constexpr (!QuietMove)
            R->may_throw("move");
        R->born(this);
        o.text = "moved from";
        o.n    = -1;
        o.fill();
        fill();
    }
    probe&
    operator=(probe const& o)
    {
        R->need(this);
        R->need(&o);
        R->note("copy=", this, &o);
        text = o.text;    // half done when it throws
        R->may_throw("copy=");
        n = o.n;
        fill();
        return *this;
    }
    probe&
    operator=(probe&& o) noexcept(QuietMove)
    {
        R->need(this);
        R->need(&o);
        R->note("move=", this, &o);
        text = o.text;
        if constexpr (!QuietMove)
            R->may_throw("move=");
        n = o.n;
        if (this != &o) {
            o.text = "moved from";
            o.n    = -1;
            o.fill();
        }
        fill();
        return *this;
    }
    ~probe()
    {
        R->note("destroy", this);
        R->dead(this);
        text = "destroyed";
    }
    int
    touch(int k)
    {
        R->need(this);
        n += k;
        text += char('a' + (k & 7));
        fill();
        return n;
    }
    std::string
    peek() const
    {
        R->need(this);
        bool ok = true;
        for (char ch : pad)
            ok = ok && ch == pad[0];
        return text + "/" + std::to_string(n) + (ok ? "" : " with scrambled members");
    }
};

// uniform access to both sides
template <class T>
T&
ref(T& t)
{
    return t;
}
template <class T>
T const&
ref(T const& t)
{
    return t;
}
template <class T, std::size_t S, std::size_t A, bool X>
T&
ref(fast_pimpl<T, S, A, X>& w)
{
    return *w;
}
template <class T, std::size_t S, std::size_t A, bool X>
T const&
ref(fast_pimpl<T, S, A, X> const& w)
{
    return *w;
}

struct action {
    int         what;
    std::size_t i, j;
    int         k;
    std::string s;
    int         throw_in;
};

char const* const names[] = {"construct", "copy-construct", "move-construct", "copy-assign", "move-assign", "destroy", "modify",
                             "assign a value", "swap", "assign a temporary", "vector growth", "return by value"};

template <class B>
B
pass_through(B b)
{
    return b;
}

// One side of the comparison: boxes are either plain T or fast_pimpl<T>.
template <class Box, class T>
struct side {
    static constexpr std::size_t slots = 5;
    static constexpr bool        wrapped = !std::is_same_v<Box, T>;
    registry                     reg;
    Box*                         box[slots] = {};
    void*                        mem[slots];

    side()
    {
        for (auto& m : mem) {
            m = ::operator new(sizeof(Box), std::align_val_t(alignof(Box)));
            reg.regions.emplace_back(static_cast<char const*>(m), sizeof(Box));
        }
    }
    ~side()
    {
        R = &reg;
        reg.throw_in = -1;
        for (auto* b : box)
            if (b)
                b->~Box();
        for (auto* m : mem)
            ::operator delete(m, std::align_val_t(alignof(Box)));
    }

    // -> what an observer sees of this step
    std::string
    step(action const& a)
    {
        R = &reg;
        reg.trace.clear();
        reg.places   = true;
        // assigning to oneself may be skipped by either: only the value counts, and nothing throws
        bool const to_itself = (a.what == 3 || a.what == 4) && a.i == a.j;
        reg.throw_in         = a.throw_in && !to_itself ? a.throw_in : -1;
        std::string out;
        Box*&       bi = box[a.i];
        Box*&       bj = box[a.j];
        auto make = [&](auto&&... args) {
            if (!bi)
                bi = new (mem[a.i]) Box(std::forward<decltype(args)>(args)...);
        };
        try {
            switch (a.what) {
            case 0: {    // arguments of every category
                std::string s = a.s, keep = a.s;
                int         n = a.k;
                switch (a.k % 9) {
                case 0: make(); break;
                case 1: make(n); break;
                case 2: make(std::as_const(s)); break;
                case 3: make(s); break;
                case 4: make(std::move(s)); break;
                case 5: make(std::make_unique<int>(n), 3); break;
                case 6: make(n, 3); break;
                case 7: make("x", n, std::as_const(s), std::move(keep)); break;
                default: make("x", std::move(n), std::move(std::as_const(s)), keep); break;
                }
                out += s + "|" + keep;
                break;
            }
            case 1:
                if (bj && !bi)
                    switch (a.k % 3) {
                    case 0: bi = new (mem[a.i]) Box(*bj); break;
                    case 1: bi = new (mem[a.i]) Box(std::as_const(*bj)); break;
                    default: bi = new (mem[a.i]) Box(std::move(std::as_const(*bj))); break;
                    }
                break;
            case 2:
                if (bj && !bi)
                    bi = new (mem[a.i]) Box(std::move(*bj));
                break;
            case 3:
                if (bj && bi) {
                    Box* r = a.k % 2 ? &(*bi = *bj) : &(*bi = std::as_const(*bj));
                    PBT_CHECK(r == bi, "copy assignment returned another object");
                }
                break;
            case 4:
                if (bj && bi) {
                    Box* r = a.k % 2 ? &(*bi = std::move(*bj)) : &(*bi = std::move(std::as_const(*bj)));
                    PBT_CHECK(r == bi, "move assignment returned another object");
                }
                break;
            case 5:
                if (bi) {
                    bi->~Box();
                    bi = nullptr;
                }
                break;
            case 6:
                if (bi) {
                    if constexpr (wrapped) {
                        Box& w = *bi;
                        out += std::to_string(a.k % 2 ? w->touch(a.k) : (*w).touch(a.k));
                    } else
                        out += std::to_string(bi->touch(a.k));
                }
                break;
            case 7:
                if (bi && bj) {
                    if (a.k % 2)
                        ref(*bi) = ref(std::as_const(*bj));
                    else {
                        T t(a.k);
                        ref(*bi) = std::move(t);
                        out += t.peek();
                    }
                }
                break;
            case 8:
                if (bi && bj && bi != bj)
                    std::swap(*bi, *bj);
                break;
            case 9:
                if (bi)
                    *bi = Box(a.k);
                break;
            case 10: {    // growth keeps objects or loses none, whatever throws
                reg.places = false;
                std::vector<Box> v;
                try {
                    for (int q = 0; q < 2 + a.k % 8; ++q)
                        v.emplace_back(q);
                    if (bi)
                        v.push_back(*bi);
                    v.insert(v.begin(), v.back());
                    v.erase(v.begin() + 1);
                    std::swap(v.front(), v.back());
                } catch (std::string const& e) {
                    out += "[" + e + "]";
                }
                for (auto& b : std::as_const(v))
                    out += ref(b).peek() + ",";
                v.clear();
                break;
            }
            default:
                if (bi && bj && bi != bj)
                    *bi = pass_through(std::move(*bj));
                break;
            }
        } catch (std::string const& e) {
            out += " exception from " + e;
        }
        reg.throw_in = -1;
        if (!to_itself)
            out += " calls: " + reg.trace;
        reg.trace.clear();
        reg.places = true;
        std::size_t living = 0;
        for (std::size_t s = 0; s < slots; ++s) {
            out += "; ";
            if (!box[s])
                continue;
            ++living;
            Box const& k = *box[s];
            out += ref(k).peek();
            if constexpr (wrapped) {
                PBT_CHECK(&*k == k.operator->() && &*k == &**box[s] && box[s]->operator->() == &*k,
                          "access paths reach different objects");
                auto const* p = reinterpret_cast<char const*>(&*k);
                auto const* w = reinterpret_cast<char const*>(box[s]);
                PBT_CHECK(p >= w && p + sizeof(T) <= w + sizeof(Box), "the object lives outside its wrapper");
            }
        }
        PBT_CHECK(reg.alive.size() == living, "%zu objects of the wrapped type are alive, %zu should be", reg.alive.size(), living);
        return out;
    }
};

template <class T, std::size_t Size, std::size_t Alignment, bool Strict>
void
run(pbt::ctx& c, char const* name)
{
    using Box = fast_pimpl<T, Size, Alignment, Strict>;
    PBT_CHECK(alignof(Box) % Alignment == 0 && sizeof(Box) >= Size, "a pimpl of %zu bytes aligned to %zu is %zu bytes aligned to %zu",
              Size, Alignment, sizeof(Box), alignof(Box));
    static_assert(std::is_same_v<typename Box::type, T>);
    c.label(name);
    c.op("%s: %zu bytes aligned to %zu in %zu aligned to %zu", name, sizeof(T), alignof(T), Size, Alignment);
    bool linked = false, assigned = false, crossed = false;
    {
        side<Box, T> w;
        side<T, T>   p;
        while (c.more(20)) {
            action a;
            a.what = int(c.weighted({6, 3, 3, 3, 3, 2, 3, 1, 1, 1, 1, 1}));
            a.i    = c.draw(w.slots - 1);
            a.j    = c.draw(w.slots - 1);
            if (a.what >= 1 && a.what <= 4 && !p.box[a.j])    // aim at a living source
                for (std::size_t q = 0; q < w.slots; ++q)
                    if (p.box[q])
                        a.j = q;
            a.k        = int(c.draw(30));
            a.throw_in = c.chance(1, 4) ? int(1 + c.draw(a.what == 10 ? 20 : 2)) : 0;
            if (a.what == 0)
                a.s = std::string(c.draw(40), char('p' + c.draw(5)));
            bool const si = p.box[a.i], sj = p.box[a.j];
            c.op("%s %zu %zu (%d)%s", names[a.what], a.i, a.j, a.k, a.throw_in ? " exception armed" : "");
            std::string const want = p.step(a), got = w.step(a);
            PBT_CHECK(got == want, "%s %zu %zu: plain objects: %s\nwrapped: %s", names[a.what], a.i, a.j, want.c_str(), got.c_str());
            for (std::size_t s = 0; s < w.slots; ++s) {
                PBT_CHECK(bool(w.box[s]) == bool(p.box[s]), "slot %zu exists on one side only", s);
                if (w.box[s])
                    PBT_CHECK(reinterpret_cast<std::uintptr_t>(&**w.box[s]) % Alignment == 0,
                              "the object is at %p, not aligned to %zu", static_cast<void*>(&**w.box[s]), Alignment);
            }
            linked   = linked || ((a.what == 1 || a.what == 2) && sj && !si);
            assigned = assigned || ((a.what == 3 || a.what == 4) && si && sj);
            crossed  = crossed || want.find("exception from") != std::string::npos;
        }
    }
    R = nullptr;
    if (linked && assigned && crossed)
        c.nontrivial();
}

// Types of the standard library, and an aggregate.
struct pair_like {
    int         a;
    std::string b;
};
// A type with an operator new of its own, which is not asked: the wrapper has a place for it. (C30 has types with more.)
struct own_place {
    inline static int asked = 0;
    std::string       s;
    int               n;
    explicit own_place(int v) : s(std::size_t(v), 'o'), n(v) {}
    static void*
    operator new(std::size_t size, void*)    // not a placement
    {
        ++asked;
        return ::operator new(size);
    }
    static void
    operator delete(void*, void*)
    {
        ++asked;
    }
};
template <class T>
void
run_own(pbt::ctx& c, int n, int v)
{
    own_place::asked = 0;
    {
        fast_pimpl<T, sizeof(T), alignof(T), true> a(n), b(v);
        auto const                                  in = [](auto const& w) {
            auto const at = reinterpret_cast<char const*>(&*w) - reinterpret_cast<char const*>(&w);
            return at >= 0 && std::size_t(at) + sizeof(T) <= sizeof(w);
        };
        auto m = std::move(b);
        auto k = a;
        b      = a;
        PBT_CHECK(in(a) && in(b) && in(m) && in(k), "an object with an operator new of its own is not inside its wrapper");
        PBT_CHECK(k->n == n && b->n == n && m->n == v && k->s == std::string(std::size_t(n), 'o'), "wrong values: %d %d %d", k->n, b->n,
                  m->n);
    }
    PBT_CHECK(own_place::asked == 0, "the held type's own operator new or delete was called %d times", own_place::asked);
}
void
run_std(pbt::ctx& c)
{
    c.label("library types");
    int const n = int(c.draw(9)), v = int(c.draw(100));
    c.op("library types with %d, %d", n, v);
    using V = std::vector<int>;
    fast_pimpl<V, sizeof(V), alignof(V), true> a(n, v);
    PBT_CHECK(*a == V(std::size_t(n), v), "vector(n, v) has %zu elements, expected %d", a->size(), n);
    fast_pimpl<V, sizeof(V) + 40, 32> b(*a);
    b->push_back(1);
    PBT_CHECK(a->size() == std::size_t(n) && b->size() == std::size_t(n) + 1, "copies of a vector are not independent");
    auto moved = std::move(b);
    PBT_CHECK(moved->size() == std::size_t(n) + 1 && b->empty(), "moving a vector did not take its contents");
    int const* data = moved->data();
    b               = std::move(moved);
    PBT_CHECK(b->data() == data, "move assignment copied");
    using U = std::unique_ptr<int>;
    fast_pimpl<U, sizeof(U), alignof(U), true> u(new int(v));
    int*                                       raw = u->get();
    auto                                       u2(std::move(u));
    PBT_CHECK(!*u && u2->get() == raw && **u2 == v, "moving a unique_ptr did not take the pointer");
    u = std::move(u2);
    PBT_CHECK(u->get() == raw && !*u2, "move-assigning a unique_ptr did not take the pointer");
    using S = std::string;
    fast_pimpl<S, sizeof(S), alignof(S)> s(std::size_t(n), 'z');
    PBT_CHECK(*s == S(std::size_t(n), 'z'), "string(n, 'z') is %s", s->c_str());
    static_assert(std::is_nothrow_move_constructible_v<decltype(s)> == std::is_nothrow_move_constructible_v<S>);
    static_assert(!std::is_nothrow_copy_constructible_v<decltype(s)>);
    fast_pimpl<pair_like, sizeof(pair_like), alignof(pair_like)> g(v, "agg");
    PBT_CHECK(g->a == v && g->b == "agg", "aggregate members are %d, %s", g->a, g->b.c_str());
    run_own<own_place>(c, n, v);
    if (n)
        c.nontrivial();
}

}    // namespace

void
property(pbt::ctx& c)
{
    using quiet = probe<8, 8, true>;
    using loud  = probe<24, 8, false>;
    using over  = probe<16, 64, false>;
    using over2 = probe<1, 32, true>;
    using large = probe<300, 8, true>;
    using huge  = probe<66000, 16, false>;
    using sse   = probe<20, 16, false>;
    switch (c.draw(10)) {
    case 10: return c.chance(1, 2) ? run<sse, sizeof(sse), 64, true>(c, "over-aligned, stronger alignment")
                                   : run<over, sizeof(over) + 1, 128, false>(c, "over-aligned, stronger alignment");
    case 9: return c.chance(1, 4) ? run<huge, sizeof(huge), 16, true>(c, "huge") : run<large, sizeof(large) + 8, 8, false>(c, "large");
    case 0:
    case 1: return run<quiet, sizeof(quiet), alignof(quiet), true>(c, "quiet move, exact");
    case 2:
    case 3: return run<loud, sizeof(loud), alignof(loud), true>(c, "throwing move, exact");
    case 4: return run<loud, sizeof(loud) + 56, 16, false>(c, "throwing move, larger storage");
    case 5: return run<quiet, 200, 128, false>(c, "quiet move, stronger alignment");
    case 6: return run<over, sizeof(over), 64, true>(c, "over-aligned");
    case 7: return run<over2, sizeof(over2) + 32, 32, false>(c, "over-aligned, quiet");
    default: return run_std(c);
    }
}
