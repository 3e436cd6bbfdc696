// C28: stopping and destroying an interval event at chosen points of its worker's cycle.
#include "thr_hook.hpp"
#include "vclock.hpp"

#include <memory>
#include <vector>
#include <xitren/func/interval_event.hpp>

char const* const property_rule
    = "One case runs 1 to 3 interval events; each is stopped or destroyed at a chosen point of its worker's cycle (before the "
      "worker runs at all, in its first wait, in a later wait, inside a callback, just as it leaves one of these) and its "
      "worker is held there until after the stop began, or let go at the same moment. Non-trivial: a worker was held inside a "
      "callback or a wait when the stop arrived. Afterwards the worker must end and no callback run.";
// Real threads: a failure counts when it comes back.
bool const property_flaky = true;
void
known_findings()
{}

namespace {

using xitren::func::interval_event;
using std::chrono::milliseconds;

enum point { nowhere, in_first_wait, in_wait, in_callback };
char const* const point_names[] = {"at a random moment", "in the first wait", "in a wait", "in a callback"};

struct watched {
    int                             thread = -1;
    point                           where  = nowhere;
    int                             nth    = 0;         // at the nth visit of that point
    bool                            until_stop = false; // held until the stop began, otherwise only until it is about to
    long                            linger_us  = 0;     // after that
    long                            spin_us    = 0;     // time in waits
    std::atomic<int>                waits{0}, visits{0}, entered{0}, left{0};
    std::atomic<bool>               held{false}, go{false}, stopping{false}, stopped{false}, busy{false}, bad{false};
    std::unique_ptr<interval_event> ev;

    void
    hold()
    {
        held = true;
        while (!(until_stop ? stopping : go).load()) {
            if (until_stop)
                pbt::real_sleep_us(1);
        }
        if (linger_us)
            pbt::real_sleep_us(linger_us);
    }
    void
    on_wait()
    {
        int const w = waits++;
        if ((where == in_first_wait && w == 0) || (where == in_wait && w == nth + 1))
            hold();
        else
            pbt::real_sleep_us(spin_us);
    }
    void
    on_call()
    {
        PBT_CHECK(!stopped, "the callback ran after the stop had returned");
        PBT_CHECK(!busy.exchange(true), "the callback runs twice at once");
        int const n = entered++;
        if (where == in_callback && n == nth)
            hold();
        PBT_CHECK(!stopped, "the stop returned while the callback was running");
        ++left;
        busy = false;
    }
};

std::atomic<watched*> table[4];
std::atomic<int>      first_thread{0};

watched*
mine()
{
    int const i = thr::self - first_thread.load();
    return i >= 0 && i < 4 ? table[i].load() : nullptr;
}

template <class F>
bool
await(F cond, double s)
{
    double const until = pbt::now_s() + s;
    while (!cond()) {
        if (pbt::now_s() > until)
            return false;
        pbt::real_sleep_us(10);
    }
    return true;
}

}    // namespace

void
property(pbt::ctx& c)
{
    vclock::sleep_hook = [](std::int64_t ns) {
        vclock::now_ns += ns;
        if (auto* w = mine())
            w->on_wait();
        else
            pbt::real_sleep_us(20);
    };
    vclock::on = true;
    for (auto& t : table)
        t = nullptr;
    first_thread       = thr::created.load();
    int const ended0   = thr::ended.load();
    int const created0 = thr::created.load();

    std::size_t const                     n = 1 + c.draw(2);
    std::vector<std::unique_ptr<watched>> all;
    for (std::size_t i = 0; i < n; ++i) {
        all.push_back(std::make_unique<watched>());
        watched& w   = *all.back();
        w.where      = point(c.weighted({3, 3, 3, 4}));
        w.nth        = int(c.draw(4));
        w.until_stop = c.chance(2, 3);
        w.linger_us  = c.chance(1, 2) ? long(c.draw(300)) : 0;
        w.spin_us    = long(c.draw(60));
        table[i]     = &w;
        // a period of 0 or 1 ms calls at nearly every check; a long one leaves most checks without a call
        long const per = c.pick<long>({0, 1, 1, 20, 1000}), ivl = c.chance(1, 4) ? c.pick<long>({999, 1000, 60'000, 86'400'000}) : 1 + long(c.draw(30));
        if (w.where == in_callback && per > 20)
            w.nth = 0;
        thr::start_delay_us = c.chance(1, 3) ? long(c.draw(1500)) : 0;
        c.op("event %zu: period %ld ms, check interval %ld ms, to be stopped %s (visit %d)%s, lingers %ld us, thread delayed %ld us", i,
             per, ivl, point_names[w.where], w.nth, w.until_stop ? " held until the stop began" : "", w.linger_us,
             thr::start_delay_us.load());
        w.ev = std::make_unique<interval_event>([&w] { w.on_call(); }, milliseconds(per), milliseconds(ivl));
        thr::start_delay_us = 0;
    }
    bool held_any = false;
    std::vector<std::size_t> order(n);
    for (std::size_t i = 0; i < n; ++i)
        order[i] = i;
    if (n > 1 && c.chance(1, 2))
        std::swap(order[0], order[n - 1]);
    for (auto i : order) {
        watched& w = *all[i];
        if (w.where != nowhere) {
            PBT_CHECK(await([&] { return w.held.load(); }, 15), "event %zu: the worker never came to %s (visit %d)", i,
                      point_names[w.where], w.nth);
            held_any = true;
        } else if (c.chance(2, 3))
            pbt::real_sleep_us(long(c.draw(400)));
        int const  style = int(c.weighted({3, 3, 2}));
        long const lead  = c.chance(1, 2) ? 0 : long(c.draw(40));
        c.op("event %zu: %s", i, style == 0 ? "stop, then destroy" : style == 1 ? "destroy" : "stop twice, then destroy");
        w.go = true;
        if (!w.until_stop && lead)
            pbt::real_sleep_us(lead);
        w.stopping = true;
        if (style == 1)
            w.ev.reset();
        else
            w.ev->stop();
        w.stopped = true;
        PBT_CHECK(!w.busy, "the stop returned while the callback was running");
        int const calls = w.entered.load();
        PBT_CHECK(calls == w.left.load(), "the stop returned between the start and the end of a callback");
        if (style != 1) {
            if (c.chance(1, 3))
                pbt::real_sleep_us(long(c.draw(300)));
            double const t0 = pbt::now_s();
            if (style == 2) {
                w.ev->stop();
                PBT_CHECK(pbt::now_s() - t0 < 5, "stopping again took %.1f s", pbt::now_s() - t0);
            }
            w.ev.reset();
            PBT_CHECK(pbt::now_s() - t0 < 5, "destroying a stopped event took %.1f s", pbt::now_s() - t0);
        }
        PBT_CHECK(w.entered.load() == calls, "a callback ran after the stop had returned");
    }
    int const threads = thr::created.load() - created0;
    PBT_CHECK(await([&] { return thr::ended.load() - ended0 == threads; }, 15), "%d of %d workers ended",
              thr::ended.load() - ended0, threads);
    vclock::on         = false;
    vclock::sleep_hook = nullptr;
    for (auto& w : all)
        c.label(point_names[w->where]);
    for (auto& t : table)
        t = nullptr;
    if (held_any)
        c.nontrivial();
}
