// C27: interval_event under a virtual clock, against a model of its due times.
#include "thr_hook.hpp"
#include "vclock.hpp"

#include <set>
#include <vector>
#include <xitren/func/interval_event.hpp>

char const* const property_rule
    = "One case runs an interval event for up to 80 checks of virtual time (periods and check intervals of 0 ms to half a year): every wait of the worker is lengthened by a "
      "generated delay, every callback takes a generated time, and periods and check intervals are changed from the callback "
      "and between calls; each check must make exactly the call the model owes and each wait must ask for the check interval "
      "in force. Non-trivial: some check made no call, and calls were owed for several periods at once at another.";
bool const property_flaky = false;
void
known_findings()
{}

namespace {

using std::chrono::milliseconds;
constexpr std::int64_t ms = 1'000'000;

struct world {
    pbt::ctx&                 c;
    xitren::func::interval_event* ev = nullptr;    // set before the worker exists: the object's future address
    std::int64_t              period = 100, interval = 20;
    std::set<std::int64_t>    due;    // possible due times (ns); more than one only after a change inside the callback
    std::int64_t              at   = 0;
    bool                      begun = false, called = false, idle = false, backlog = false, eager = false;
    int                       checks_left;
    std::atomic<bool>         done{false}, first_call{false}, constructed{false};
    int                       calls = 0;

    std::int64_t
    t() const
    {
        return vclock::now_ns.load();
    }
    void
    advance(std::int64_t ns)
    {
        vclock::now_ns += ns;
    }
    std::int64_t
    draw_delay()
    {
        switch (c.weighted({6, 2, 2, 2, 1})) {
        case 0: return 0;
        case 1: return std::int64_t(c.draw(3 * ms));
        case 2: return std::int64_t(c.draw(200)) * ms;
        case 3: {
            std::int64_t const k = std::int64_t(c.draw(5)), d = std::int64_t(c.draw(2)) - 1 + (c.chance(1, 2) ? 1 : 0);
            return std::min(period * ms * k, std::int64_t(1) << 55) + d;    // so that 80 checks stay within the clock
        }
        default: return std::int64_t(c.sized(33));
        }
    }
    std::int64_t
    positive(std::int64_t d) const
    {
        return d < 0 ? 0 : d;
    }
    std::int64_t
    draw_period()
    {
        switch (c.weighted({4, 2, 1, 1})) {
        case 0: return 1 + std::int64_t(c.draw(300));
        case 1: return 1 + std::int64_t(c.draw(5));
        case 2: return 0;
        default: return 1 + std::int64_t(c.sized(c.chance(1, 3) ? 34 : 30));    // up to more than half a year
        }
    }
    std::int64_t
    draw_interval()
    {
        return c.chance(1, 4) ? 1 + std::int64_t(c.sized(c.chance(1, 6) ? 33 : 14)) : 1 + std::int64_t(c.draw(60));
    }
    // before the constructor has finished the setters are nobody's to call
    bool
    settable() const
    {
        return constructed.load();
    }
    void
    change(char const* where)
    {
        // drawn whether or not the setters may be called, so that a case does not depend on timing
        bool const         new_period = c.chance(1, 8), new_interval = c.chance(1, 8);
        std::int64_t const p = new_period ? draw_period() : 0, i = new_interval ? draw_interval() : 0;
        if (!settable())
            return;
        if (new_period) {
            period = p;
            c.op("  %s: period %" PRId64 " ms", where, period);
            ev->period(milliseconds(period));
        }
        if (new_interval) {
            interval = i;
            c.op("  %s: check interval %" PRId64 " ms", where, interval);
            ev->period_between_checks(milliseconds(interval));
        }
        PBT_CHECK(ev->period() == milliseconds(period), "period() is %lld, last set to %lld", (long long)ev->period().count(),
                  (long long)period);
        PBT_CHECK(ev->period_between_checks() == milliseconds(interval), "period_between_checks() is %lld, last set to %lld",
                  (long long)ev->period_between_checks().count(), (long long)interval);
    }
    void
    open_check()
    {
        at     = t();
        called = false;
    }
    void
    on_sleep(std::int64_t ns)
    {
        if (done) {
            pbt::real_sleep_us(10);
            return;
        }
        if (!begun) {    // the wait before the event starts
            begun = true;
            advance(ns + positive(draw_delay()));
            due = {t()};
            c.op("starts at %" PRId64 " ns", t());
            return open_check();
        }
        if (!called) {
            PBT_CHECK(!std::erase_if(due, [&](auto d) { return d <= at; }) || !due.empty(),
                      "no call at the check at %" PRId64 " ns although one was due", at);
            idle = true;
        }
        PBT_CHECK(ns == interval * ms, "the worker waits %" PRId64 " ns between checks; the check interval is %" PRId64 " ms", ns,
                  interval);
        change("between calls");
        advance(ns + positive(draw_delay()));
        if (--checks_left <= 0) {
            done = true;
            return;
        }
        open_check();
    }
    void
    on_call()
    {
        if (done)
            return;
        if (!begun) {
            begun = true;
            due   = {t()};
            open_check();
        }
        PBT_CHECK(!called, "a second call in one check, at %" PRId64 " ns", at);
        called = true;
        ++calls;
        std::int64_t const first = *due.begin();
        std::erase_if(due, [&](auto d) { return d > at; });
        PBT_CHECK(!due.empty(), "call %d made at %" PRId64 " ns, before it was due (%" PRId64 " ns)", calls, at, first);
        backlog = backlog || (period && at - *due.begin() >= 2 * period * ms);
        std::int64_t const duration = c.chance(1, 3) ? positive(draw_delay()) : 0, old = period;
        c.op("call %d at %" PRId64 " ns (due %" PRId64 "), takes %" PRId64 " ns", calls, at, *due.begin(), duration);
        if (due.size() < 16)
            change("in the callback");
        advance(duration);
        std::set<std::int64_t> next;
        for (auto d : due)
            next.insert(d + old * ms), next.insert(d + period * ms);
        due        = next;
        first_call = true;
    }
};
world* W = nullptr;

}    // namespace

void
property(pbt::ctx& c)
{
    world w{c};
    W             = &w;
    w.eager       = c.chance(1, 2);
    w.checks_left = 4 + int(c.draw(c.chance(1, 4) ? 76 : 20));
    bool const defaults = c.chance(1, 10);
    if (!defaults) {
        w.period   = w.draw_period();
        w.interval = w.draw_interval();
    }
    c.op("period %" PRId64 " ms, check interval %" PRId64 " ms%s", w.period, w.interval,
         w.eager ? ", the worker runs before the constructor returns" : "");
    vclock::now_ns     = std::int64_t(c.draw(5 * ms)) + (c.chance(1, 4) ? 1'790'000'000 * std::int64_t(1'000'000'000) : 0);
    vclock::sleep_hook = [](std::int64_t ns) { W->on_sleep(ns); };
    vclock::on         = true;
    // recycled memory
    alignas(64) static unsigned char raw[sizeof(xitren::func::interval_event) + 64];
    std::memset(raw, int(c.draw(255)), sizeof raw);
    w.ev = reinterpret_cast<xitren::func::interval_event*>(raw);
    if (w.eager)
        thr::creator_waits_for = +[]() -> bool { return W->first_call.load(); };
    else
        thr::creator_waits_for = nullptr;
    auto call = [] { W->on_call(); };
    auto* ev  = defaults ? new (raw) xitren::func::interval_event(call)
                         : new (raw) xitren::func::interval_event(call, milliseconds(w.period), milliseconds(w.interval));
    thr::creator_waits_for = nullptr;
    w.constructed          = true;
    double const until     = pbt::now_s() + 20;
    while (!w.done) {
        PBT_CHECK(pbt::now_s() < until, "the worker stopped checking after %d calls", w.calls);
        pbt::real_sleep_us(10);
    }
    ev->~interval_event();
    vclock::on         = false;
    vclock::sleep_hook = nullptr;
    PBT_CHECK(w.calls > 0, "the event was never called");
    if (w.idle && w.backlog)
        c.nontrivial();
    if (defaults)
        c.label("default periods");
    if (w.eager)
        c.label("worker runs before construction finishes");
    if (w.idle)
        c.label("a check without a call");
    if (w.backlog)
        c.label("several periods owed at once");
    W = nullptr;
}
