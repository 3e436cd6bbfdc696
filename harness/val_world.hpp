// Value observables of every kind behind one interface.
#pragma once

#include <vector>

#include <xitren/comm/values/observable.hpp>

#include "obs_world.hpp"

namespace vw {

using ow::res;
using ow::to_res;

template <class T>
struct vevent {
    char        kind;    // 'u' update callback, 'd' disconnect
    int         who;
    void const* src;
    T           v;
};

template <class T>
struct probe : xitren::comm::values::observed<T> {
    using base = xitren::comm::values::observed<T>;
    std::vector<vevent<T>>* log{};
    int                     id{};
    probe() = default;
    explicit probe(std::function<void(T const)> f) : base(std::move(f)) {}
    void
    disconnect(void const* src) override
    {
        log->push_back({'d', id, src, T{}});
    }
};

template <class T>
struct vtarget {
    virtual ~vtarget()                        = default;
    virtual res         add(probe<T>&)          = 0;
    virtual res         remove(probe<T> const&) = 0;
    virtual void        clear()                 = 0;
    virtual void const* id() const              = 0;
    virtual T           value()                 = 0;
    virtual T           assign(T)               = 0;
    virtual T           pre_inc()               = 0;
    virtual T           post_inc()              = 0;
    virtual T           pre_dec()               = 0;
    virtual T           post_dec()              = 0;
    virtual T           plus(T)                 = 0;
    virtual T           plus_int(int)           = 0;
    virtual T           minus(T)                = 0;
    virtual T           minus_int(int)          = 0;
    virtual res         notify(T)               = 0;
    std::size_t         max{};
    bool                is_volatile{};    // arithmetic and assignment through a volatile reference
    std::string         name{};
};

template <class T, class Obs>
struct vtarget_of final : vtarget<T> {
    Obs o{};
    Obs volatile&
    as_volatile()
    {
        return o;
    }
    res
    add(probe<T>& p) override
    {
        return to_res(o.add_observer(p));
    }
    res
    remove(probe<T> const& p) override
    {
        return to_res(o.remove_observer(p));
    }
    void
    clear() override
    {
        o.clear_observers();
    }
    void const*
    id() const override
    {
        return static_cast<void const*>(&o);
    }
    T
    value() override
    {
        return o.value();
    }
    T
    assign(T v) override
    {
        return this->is_volatile ? as_volatile() = v : (o = v);
    }
    T
    pre_inc() override
    {
        return this->is_volatile ? ++as_volatile() : (++o);
    }
    T
    post_inc() override
    {
        return this->is_volatile ? as_volatile()++ : (o++);
    }
    T
    pre_dec() override
    {
        return this->is_volatile ? --as_volatile() : (--o);
    }
    T
    post_dec() override
    {
        return this->is_volatile ? as_volatile()-- : (o--);
    }
    T
    plus(T k) override
    {
        return this->is_volatile ? as_volatile() += k : (o += k);
    }
    T
    plus_int(int k) override
    {
        return this->is_volatile ? as_volatile() += k : (o += k);
    }
    T
    minus(T k) override
    {
        return this->is_volatile ? as_volatile() -= k : (o -= k);
    }
    T
    minus_int(int k) override
    {
        return this->is_volatile ? as_volatile() -= k : (o -= k);
    }
    res
    notify(T v) override
    {
        return to_res(o.notify_observers(v));
    }
};

constexpr std::size_t n_vkinds = 6;    // and one more, for long lists
constexpr std::size_t long_vkind = n_vkinds;
template <class T>
std::unique_ptr<vtarget<T>>
make_vtarget(std::size_t kind)
{
    using namespace xitren::comm::values;
    auto mk = [](auto p, std::size_t max, char const* n) -> std::unique_ptr<vtarget<T>> {
        p->max  = max;
        p->name = n;
        return p;
    };
    switch (kind) {
    case 0: return mk(std::make_unique<vtarget_of<T, observable<T, 1>>>(), 1, "fixed<1>");
    case 1: return mk(std::make_unique<vtarget_of<T, observable_dynamic<T>>>(), 0, "dynamic");
    case 2: return mk(std::make_unique<vtarget_of<T, observable<T, 2>>>(), 2, "fixed<2>");
    case 3: return mk(std::make_unique<vtarget_of<T, observable<T, 5>>>(), 5, "fixed<5>");
    case 4: return mk(std::make_unique<vtarget_of<T, observable<T, 16>>>(), 16, "fixed<16>");
    case 5: return mk(std::make_unique<vtarget_of<T, observable<T, 0>>>(), 0, "dynamic");
    default: return mk(std::make_unique<vtarget_of<T, observable<T, 300>>>(), 300, "fixed<300>");
    }
}

}    // namespace vw
