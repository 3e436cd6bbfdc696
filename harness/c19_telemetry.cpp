#include "pipe_items.hpp"

#include "vclock.hpp"

char const* const property_rule
    = "One case runs a pipeline stage or pool under a virtual clock. Lock-step cases (stage, one-worker pool): while the "
      "handler is held, items are pushed and the run is given a generated duration (0 to 17 minutes, around whole "
      "milliseconds), so duration and backlog of every run are known; at idle the stage's query functions are read, and time may pass there. Pool "
      "cases: all items are pushed while the first handlers are held, each worker has its own clock, and each worker's "
      "figures are recomputed from the runs it made. Non-trivial: a worker made more than ten runs with non-zero figures.";
// Idle can only be awaited, not observed: a failure counts when it comes back every time.
bool const property_flaky = false;
void
known_findings()
{}

namespace {

using namespace pi;
using xitren::comm::measure_data;
using xitren::comm::pipeline_stage_exception;

struct figures {
    long time = 0, load = 0;
};
struct last_ten {
    std::deque<std::pair<long, long>> runs;
    figures
    now() const
    {
        figures f;
        for (auto& r : runs) {
            f.time += r.first;
            f.load += r.second;
        }
        f.time /= 10;
        f.load /= 10;
        return f;
    }
    void
    add(long ms, long left)
    {
        runs.emplace_front(ms, left);
        if (runs.size() > 10)
            runs.pop_back();
    }
};

std::int64_t
draw_duration(pbt::ctx& c)
{
    switch (c.weighted({3, 2, 2, 1, 2})) {
    case 0: return std::int64_t(c.draw(200)) * 1'000'000;
    case 1: return std::int64_t(c.draw(50)) * 1'000'000 + 999'999;
    case 2: return std::int64_t(c.draw(3'000'000));
    case 3: return std::int64_t(c.draw(1'000'000)) * 1'000'000;
    default: return std::int64_t(c.sized(36));
    }
}

// Blocks the real thread until cond; fails when it takes too long.
template <class F>
void
await(F cond, char const* what)
{
    double const t0 = pbt::now_s();
    while (!cond()) {
        PBT_CHECK(pbt::now_s() - t0 < 15, "%s: did not happen", what);
        pbt::real_sleep_us(20);
    }
}

template <class Stage, std::size_t N, bool Pool>
void
lock_step(pbt::ctx& c, char const* what)
{
    using measure = std::conditional_t<Pool, measure_data, std::pair<int, int>>;
    vclock::on = true;
    std::atomic<unsigned>     entered{0}, allowed{0};
    std::atomic<std::int64_t> duration{0};
    std::atomic<int>          time{0}, load{0}, id{0};
    std::atomic<unsigned>     reads{0}, reads_at_end{0};    // the worker's looks at the clock
    auto                      st = std::make_unique<Stage>([&](pipeline_stage_exception, int const, measure m) {
        if constexpr (Pool) {
            id   = m.id;
            time = m.time;
            load = m.load;
        } else {
            time = m.first;
            load = m.second;
        }
        unsigned const k = ++entered;
        while (allowed < k)
            pbt::real_sleep_us(10);
        vclock::extra_ns += duration;
        vclock::reads = &reads;
        reads_at_end  = reads.load();
    });
    last_ten model;
    unsigned pushed = 0, done = 0;
    bool     deep = false;
    c.op("%s, buffer %zu", what, N);
    unsigned const avg = c.pick<unsigned>({8, 20, 40});
    while (c.more(avg) && pushed < 400) {
        if (pushed == done) {
            unsigned const k = 1 + unsigned(c.draw(std::min<std::size_t>(N, 12) - 1));
            for (unsigned i = 0; i < k; ++i)
                st->push(int(pushed++));
            c.op("%u item(s) pushed", k);
        }
        await([&] { return entered == done + 1; }, "the next item being handled");
        auto const f = model.now();
        PBT_CHECK(id == 0, "worker id %d in a pool of one", id.load());
        PBT_CHECK(time == f.time, "run %u: the handler was told %d ms per run, the last ten runs average %ld", done + 1,
                  time.load(), f.time);
        PBT_CHECK(load == f.load, "run %u: the handler was told a backlog of %d, after the last ten runs it averaged %ld",
                  done + 1, load.load(), f.load);
        deep |= done > 10 && f.time && f.load;
        unsigned const room = unsigned(N) - (pushed - done);
        unsigned const k    = room ? unsigned(c.draw(std::min(room, c.chance(1, 3) ? 20u : 2u))) : 0;
        for (unsigned i = 0; i < k; ++i)
            st->push(int(pushed++));
        duration = draw_duration(c);
        ++done;
        model.add(long(duration.load() / 1'000'000), long(pushed - done));
        c.op("run %u takes %lld ns, %u pushed meanwhile, %u left", done, (long long)duration.load(), k, pushed - done);
        allowed = done;
        if (pushed == done) {
            pbt::real_sleep_us(3000);
            if constexpr (!Pool) {
                auto const   g  = model.now();
                double const t0 = pbt::now_s();
                while (st->time_for_unit() != g.time || st->buffer_utilization() != g.load) {
                    PBT_CHECK(pbt::now_s() - t0 < 4,
                              "idle after %u runs: the stage reports %ld ms and a backlog of %ld, the last ten runs give "
                              "%ld and %ld",
                              done, long(st->time_for_unit()), long(st->buffer_utilization()), g.time, g.load);
                    pbt::real_sleep_us(2000);
                }
            }
            // the worker looks at the clock when a run is over; once it has, time may pass without counting for any run
            std::int64_t const pause = c.chance(1, 3) ? draw_duration(c) : 0;
            for (int i = 0; pause && reads == reads_at_end && i < 1000; ++i)
                pbt::real_sleep_us(200);
            if (pause && reads != reads_at_end) {
                vclock::now_ns += pause;
                c.op("nothing to do for %lld ns", (long long)pause);
            }
        }
    }
    allowed = ~0u;
    st.reset();
    vclock::on = false;
    if (deep)
        c.nontrivial();
    c.label(what);
}

template <std::size_t N, std::size_t P>
void
pool(pbt::ctx& c)
{
    using pool_t = xitren::comm::pipeline_stage_pool<int, void, N, P, quiet_log>;
    vclock::on   = true;
    unsigned const            n = 1 + unsigned(c.draw(std::min<std::size_t>(N, 40 * P) - 1));
    std::vector<std::int64_t> dur;
    for (unsigned i = 0; i < n; ++i)
        dur.push_back(draw_duration(c));
    c.op("pool of %zu, buffer %zu, %u items", P, N, n);
    struct run {
        int item, time, load;
    };
    std::vector<std::vector<run>> runs(P);
    std::atomic<bool>             gate{false};
    {
        pool_t p([&](pipeline_stage_exception, int const item, measure_data m) {
            PBT_CHECK(m.id >= 0 && std::size_t(m.id) < P, "worker id %d in a pool of %zu", m.id, P);
            runs[std::size_t(m.id)].push_back({item, m.time, m.load});
            while (!gate)
                pbt::real_sleep_us(20);
            vclock::extra_ns += dur[std::size_t(item)];
        });
        for (unsigned i = 0; i < n; ++i)
            p.push(int(i));
        gate = true;
    }
    vclock::on = false;
    bool deep  = false;
    for (std::size_t w = 0; w < P; ++w) {
        last_ten model;
        for (std::size_t j = 0; j < runs[w].size(); ++j) {
            auto const& r = runs[w][j];
            auto const  f = model.now();
            PBT_CHECK(r.time == f.time, "worker %zu, run %zu: told %d ms per run, its last ten runs average %ld", w, j + 1,
                      r.time, f.time);
            PBT_CHECK(r.load == f.load, "worker %zu, run %zu: told a backlog of %d, after its last ten runs it averaged %ld",
                      w, j + 1, r.load, f.load);
            deep |= j > 10 && f.time && f.load;
            model.add(long(dur[std::size_t(r.item)] / 1'000'000), long(runs[w].size() - j - 1));
        }
    }
    if (deep)
        c.nontrivial();
    c.label("pool");
}

}    // namespace

void
property(pbt::ctx& c)
{
    using namespace xitren::comm;
    vclock::now_ns   = std::int64_t(c.draw(2'000'000'000));
    vclock::extra_ns = 0;
    switch (c.weighted({3, 5, 3, 3, 2, 3, 3, 2})) {
    case 0: return lock_step<pipeline_stage<int, void, 64, quiet_log>, 64, false>(c, "stage");
    case 1: return lock_step<pipeline_stage<int, void, 4, quiet_log>, 4, false>(c, "stage");
    case 2: return lock_step<pipeline_stage<int, void, 1, quiet_log>, 1, false>(c, "stage");
    case 3: return lock_step<pipeline_stage_pool<int, void, 16, 1, quiet_log>, 16, true>(c, "pool of one");
    case 4: return pool<64, 1>(c);
    case 5: return pool<128, 3>(c);
    case 6: return pool<64, 2>(c);
    default: return pool<256, 8>(c);
    }
}
