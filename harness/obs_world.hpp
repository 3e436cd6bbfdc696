// Event observables of every kind behind one interface, and observers that write down what they hear.
#pragma once

#include <xitren/comm/observer.hpp>

#include "pbt.hpp"

#include <deque>
#include <functional>
#include <string>

namespace ow {

enum class res { ok, full, already, not_found, broken, recursion, other };

inline char const*
name(res r)
{
    static char const* const n[] = {"ok",        "list_is_full",         "already_contains",         "not_found",
                                    "internal_data_broken", "notify_recursion_detected", "something undocumented"};
    return n[int(r)];
}

inline res
to_res(xitren::comm::observer_errors e)
{
    using e_t = xitren::comm::observer_errors;
    switch (e) {
    case e_t::ok: return res::ok;
    case e_t::list_is_full: return res::full;
    case e_t::already_contains: return res::already;
    case e_t::not_found: return res::not_found;
    case e_t::internal_data_broken: return res::broken;
    case e_t::notify_recursion_detected: return res::recursion;
    }
    return res::other;
}

struct big {
    std::array<std::uint32_t, 37> w{};
    friend bool
    operator==(big const&, big const&)
        = default;
};

// Notified as a derived class, which shows only through the reference.
struct poly {
    std::uint64_t v{};
    virtual ~poly() = default;
    virtual std::string
    text() const
    {
        return "a sliced event";
    }
    friend bool
    operator==(std::string const& a, poly const& b)
    {
        return a == b.text();
    }
};
struct special final : poly {
    std::string more{};
    std::string
    text() const override
    {
        return std::to_string(v) + more;
    }
};
template <class T>
using held = std::conditional_t<std::is_same_v<T, poly>, special, T>;    // what is notified
template <class T>
using seen = std::conditional_t<std::is_same_v<T, poly>, std::string, T>;    // what is written down
template <class T>
seen<T>
see(T const& v)
{
    if constexpr (std::is_base_of_v<poly, T>)
        return v.text();
    else
        return v;
}

template <class T>
held<T>
payload(std::uint64_t x)
{
    if constexpr (std::is_same_v<T, std::string>)
        return std::string(x % 50, char('a' + x % 26)) + std::to_string(x);
    else if constexpr (std::is_same_v<T, poly>) {
        special s;
        s.v    = x;
        s.more = std::string(x % 40, '+');
        return s;
    }
    else if constexpr (std::is_same_v<T, big>) {
        big b;
        for (std::size_t i = 0; i < b.w.size(); ++i)
            b.w[i] = std::uint32_t(pbt::mix(x + i));
        return b;
    } else
        return T(x);
}
template <class T>
std::string
show(T const& v)
{
    if constexpr (std::is_same_v<T, std::string>)
        return v;
    else if constexpr (std::is_base_of_v<poly, T>)
        return v.text();
    else if constexpr (std::is_same_v<T, big>)
        return "big:" + std::to_string(v.w[0]);
    else
        return std::to_string(v);
}

template <class T>
struct event {
    char        kind;    // 'n' notification, 'd' disconnect
    int         who;
    void const* src;
    seen<T>     data;
    friend bool
    operator==(event const&, event const&)
        = default;
};

template <class T>
struct sink : xitren::comm::observer<T> {
    std::vector<event<T>>*                      log{};
    int                                         id{};
    std::function<void(void const*, T const&)>* inside{};

    void
    disconnect(void const* src) override
    {
        log->push_back({'d', id, src, seen<T>{}});
    }

protected:
    void
    data(void const* src, T const& nd) override
    {
        log->push_back({'n', id, src, see<T>(nd)});
        if (inside)
            (*inside)(src, nd);
    }
};

// Observers each in an object of its own, or two by two as the bases of one object.
template <class S>
class crew {
    template <int>
    struct half : S {
        std::uint64_t more{};
    };
    struct twin : half<0>, half<1> {};
    std::deque<S>    one{};
    std::deque<twin> two{};
    std::vector<S*>  at{};

public:
    explicit crew(std::size_t n, bool paired)
    {
        while (at.size() < n)
            if (paired && at.size() + 2 <= n) {
                two.emplace_back();
                at.push_back(static_cast<half<0>*>(&two.back()));
                at.push_back(static_cast<half<1>*>(&two.back()));
            } else {
                one.emplace_back();
                at.push_back(&one.back());
            }
    }
    S&
    operator[](std::size_t i)
    {
        return *at[i];
    }
};

template <class T>
struct target {
    virtual ~target()                       = default;
    virtual res         add(sink<T>&)          = 0;
    virtual res         remove(sink<T> const&) = 0;
    virtual void        clear()                = 0;
    virtual res         notify(T const&)       = 0;
    virtual void const* id() const             = 0;
    std::size_t         max{};    // 0: no bound
    std::string         name{};
};

template <class T, class Obs, bool Static>
struct target_of final : target<T> {
    Obs o{};
    res
    add(sink<T>& s) override
    {
        if constexpr (Static)
            return to_res(o.add_observer(s));
        else
            try {
                o.add_observer(s);
                return res::ok;
            } catch (typename Obs::exception const& e) {
                return to_res(e.error);
            }
    }
    res
    remove(sink<T> const& s) override
    {
        if constexpr (Static)
            return to_res(o.remove_observer(s));
        else
            try {
                o.remove_observer(s);
                return res::ok;
            } catch (typename Obs::exception const& e) {
                return to_res(e.error);
            }
    }
    void
    clear() override
    {
        o.clear_observers();
    }
    res
    notify(T const& n) override
    {
        if constexpr (Static)
            return to_res(o.notify_observers(n));
        else
            try {
                o.notify_observers(n);
                return res::ok;
            } catch (typename Obs::exception const& e) {
                return to_res(e.error);
            }
    }
    void const*
    id() const override
    {
        return static_cast<void const*>(&o);
    }
};

// As applications use it: a class of its own that is observable among other things.
struct other_base {
    std::uint64_t before{0x1122334455667788ULL};
    virtual ~other_base() = default;
};
template <class T, class Obs>
struct device : other_base, Obs {
    std::uint64_t after{0x8877665544332211ULL};
};
template <class T, class Obs, bool Static>
struct target_of<T, device<T, Obs>, Static> final : target<T> {
    device<T, Obs> o{};
    res
    add(sink<T>& s) override
    {
        if constexpr (Static)
            return to_res(o.add_observer(s));
        else
            try {
                o.add_observer(s);
                return res::ok;
            } catch (typename Obs::exception const& e) {
                return to_res(e.error);
            }
    }
    res
    remove(sink<T> const& s) override
    {
        if constexpr (Static)
            return to_res(o.remove_observer(s));
        else
            try {
                o.remove_observer(s);
                return res::ok;
            } catch (typename Obs::exception const& e) {
                return to_res(e.error);
            }
    }
    void
    clear() override
    {
        o.clear_observers();
    }
    res
    notify(T const& n) override
    {
        if constexpr (Static)
            return to_res(o.notify_observers(n));
        else {
            o.notify_observers(n);
            return res::ok;
        }
    }
    void const*
    id() const override
    {
        return static_cast<void const*>(static_cast<Obs const*>(&o));
    }
};

constexpr std::size_t n_kinds = 9;    // and one more, for long lists
constexpr std::size_t long_kind = n_kinds;
template <class T>
std::unique_ptr<target<T>>
make_target(std::size_t kind)
{
    using namespace xitren::comm;
    auto mk = [](auto p, std::size_t max, char const* n) -> std::unique_ptr<target<T>> {
        p->max  = max;
        p->name = n;
        return p;
    };
    switch (kind) {
    case 0: return mk(std::make_unique<target_of<T, observable_static<T, 1>, true>>(), 1, "fixed<1>");
    case 1: return mk(std::make_unique<target_of<T, observable_dynamic<T>, false>>(), 0, "dynamic");
    case 2: return mk(std::make_unique<target_of<T, observable_static<T, 2>, true>>(), 2, "fixed<2>");
    case 3: return mk(std::make_unique<target_of<T, observable_static<T, 3>, true>>(), 3, "fixed<3>");
    case 4: return mk(std::make_unique<target_of<T, observable<T>, true>>(), 8, "fixed by default<8>");
    case 5: return mk(std::make_unique<target_of<T, observable_static<T, 17>, true>>(), 17, "fixed<17>");
    case 6:
        return mk(std::make_unique<target_of<T, device<T, observable_static<T, 4>>, true>>(), 4, "device with fixed<4>");
    case 7: return mk(std::make_unique<target_of<T, device<T, observable_dynamic<T>>, false>>(), 0, "device with dynamic");
    case 8: return mk(std::make_unique<target_of<T, observable_static<T, 5>, true>>(), 5, "fixed<5>");
    default: return mk(std::make_unique<target_of<T, observable_static<T, 300>, true>>(), 300, "fixed<300>");
    }
}

// What a registration must answer; two answers are right for a known observer on a full fixed list.
inline bool
add_answer_ok(res r, bool known, bool full)
{
    if (known && full)
        return r == res::already || r == res::full;
    if (known)
        return r == res::already;
    if (full)
        return r == res::full;
    return r == res::ok;
}

}    // namespace ow
