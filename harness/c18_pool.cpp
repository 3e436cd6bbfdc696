#include "pipe_items.hpp"

char const* const property_rule
    = "One case runs a pipeline pool (1 to 20 workers, buffer 1 to 500; trivial, string, 208-byte and slowly copied items). "
      "Most cases: 1 to 4 producer threads push up to 300 items each (now and then more than 65536 in all) with generated delays, then the pool is destroyed at "
      "once. Others: items whose handlers wait for each other, so that they finish only when free workers are preferred to "
      "busy ones - as many items as workers on a fresh pool, and again with part of the workers held up, or with part of them up to hundreds of items behind. Non-trivial: two "
      "or more workers handled items and either more items were pushed than the buffers hold or some were unhandled when "
      "the destructor was entered; or at least two waiting handlers ran in parallel, or workers were behind.";
bool const property_flaky = true;
void
known_findings()
{}

namespace {

using namespace pi;
using xitren::comm::measure_data;
using xitren::comm::pipeline_stage_exception;

template <class T, std::size_t N, std::size_t P, class Next>
void
stream(pbt::ctx& c, char const* type)
{
    using pool_t        = xitren::comm::pipeline_stage_pool<T, Next, N, P, quiet_log>;
    unsigned const np   = 1 + unsigned(c.draw(3));
    // a long run gives every worker more than 16 bits' worth of items (where they are few), at full speed
    bool const     run  = P <= 4 && N >= 16 && c.chance(1, 40);
    unsigned const most = run ? unsigned(70000 * std::min<std::size_t>(P, 2) / np + 8000) : c.pick<unsigned>({40, 5, 300});
    jitter              = run ? 0 : unsigned(c.draw(3));
    unsigned const work = run ? 0 : unsigned(c.draw(3)), pace = run ? 0 : unsigned(c.draw(3));
    bool const     late = c.chance(1, 4);
    std::vector<unsigned> n(np);
    std::uint64_t         total = 0;
    for (auto& x : n)
        total += x = run ? most - unsigned(c.draw(4000)) : unsigned(c.draw(most));
    c.op("%s items, %zu workers, buffer %zu, %u producers with %llu items, jitter %u, handler %u, pace %u", type, P, N, np,
         (unsigned long long)total, jitter.load(), work, pace);
    struct seat {
        std::atomic<int>           inside{0};
        std::vector<std::uint32_t> last;    // per producer: 1 + serial of the last item here
        std::uint64_t              items = 0;
    };
    std::vector<seat>                                    seats(P);
    std::vector<std::vector<std::atomic<std::uint8_t>>>  seen(np);
    std::atomic<std::uint64_t>                           finished{0};
    std::atomic<bool>                                    closed{false};
    for (auto& s : seats)
        s.last.resize(np, 0);
    for (unsigned p = 0; p < np; ++p)
        seen[p] = std::vector<std::atomic<std::uint8_t>>(n[p]);
    auto pool = std::make_unique<pool_t>([&](pipeline_stage_exception e, T const item, measure_data m) -> Next {
        PBT_CHECK(!closed, "a handler ran after the pool was destroyed");
        PBT_CHECK(e == pipeline_stage_exception::no_error, "the handler was told of an error");
        PBT_CHECK(m.id >= 0 && std::size_t(m.id) < P, "worker id %d in a pool of %zu", m.id, P);
        auto& seat = seats[std::size_t(m.id)];
        PBT_CHECK(seat.inside.fetch_add(1) == 0, "worker %d runs two handlers at once", m.id);
        auto const [p, s] = open_item(item);
        PBT_CHECK(p < np && s < n[p], "an item arrived that nobody pushed (producer %u, serial %u)", p, s);
        PBT_CHECK(seen[p][s].fetch_add(1) == 0, "producer %u: item %u was handled twice", p, s);
        PBT_CHECK(s + 1 > seat.last[p], "worker %d: item %u of producer %u after item %u", m.id, s, p, seat.last[p] - 1);
        seat.last[p] = s + 1;
        seat.items++;
        dawdle(work);
        PBT_CHECK(seat.inside.fetch_sub(1) == 1, "worker %d runs two handlers at once", m.id);
        finished++;
        pbt::tick();
        if constexpr (!std::is_void_v<Next>)
            return Next{};
    });
    {
        reaper           r;
        std::atomic<int> ready{0};
        for (unsigned p = 0; p < np; ++p)
            r.t.emplace_back([&, p] {
                ++ready;
                while (ready < int(np))
                    std::this_thread::yield();
                for (unsigned s = 0; s < n[p]; ++s) {
                    push<pool_t, T>(*pool, p, s);
                    dawdle(pace);
                }
            });
    }
    if (late)
        pbt::real_sleep_us(300);
    std::uint64_t const before = finished;
    pool.reset();
    closed = true;
    PBT_CHECK(finished == total, "the destructor returned with %llu of %llu items handled",
              (unsigned long long)finished.load(), (unsigned long long)total);
    std::size_t busy = 0;
    for (auto& s : seats)
        busy += s.items > 0;
    if (busy >= 2 && (total > N * P || before < total))
        c.nontrivial();
    if (total > N * P)
        c.label("more items than the buffers hold");
    if (total > 65536)
        c.label("more than 65536 items");
    if (before < total)
        c.label("destroyed with items unhandled");
}

// Handlers that wait until as many run as must be able to: only a pool that prefers free workers gets past this.
template <class T, std::size_t N, std::size_t P>
bool
parallel_once(unsigned rounds, std::vector<unsigned> const& hold, unsigned settle_us, double limit,
              std::string& why)
{
    using pool_t = xitren::comm::pipeline_stage_pool<T, void, N, P, quiet_log>;
    std::atomic<unsigned> started{0}, open_upto{0};    // items with serial < open_upto may finish
    std::atomic<unsigned> finished{0};
    std::atomic<bool>     bail{false};
    auto                  pool = std::make_unique<pool_t>([&](pipeline_stage_exception, T const item, measure_data m) {
        PBT_CHECK(m.id >= 0 && std::size_t(m.id) < P, "worker id %d in a pool of %zu", m.id, P);
        auto const s = open_item(item).second;
        started++;
        while (!bail && s >= open_upto)
            pbt::real_sleep_us(30);
        finished++;
    });
    auto wait = [&](std::atomic<unsigned>& what, unsigned n) {
        double const t0 = pbt::now_s();
        while (what < n) {
            if (pbt::now_s() - t0 > limit)
                return false;
            pbt::real_sleep_us(50);
        }
        return true;
    };
    unsigned serial = 0, held = 0;
    bool     ok     = true;
    for (unsigned r = 0; r < rounds && ok; ++r) {
        // all but `held` workers are free now
        unsigned const n = unsigned(P) - held;
        for (unsigned i = 0; i < n; ++i)
            push<pool_t, T>(*pool, 0, serial++);
        if (!wait(started, serial)) {
            why = "of " + std::to_string(n) + " items pushed while " + std::to_string(n) + " of " + std::to_string(P)
                  + " workers were free, " + std::to_string(serial - started) + " did not start (round "
                  + std::to_string(r + 1) + ")";
            ok = false;
            break;
        }
        // let all finish but the last few
        held      = r + 1 < rounds ? std::min<unsigned>(hold[r], unsigned(P) - 1) : 0;
        open_upto = serial - held;
        if (!wait(finished, serial - held)) {
            why = "a handler did not finish";
            ok  = false;
            break;
        }
        if (r + 1 < rounds)
            pbt::real_sleep_us(settle_us);    // a worker counts as free a moment after its handler returned
    }
    bail = true;
    pool.reset();
    PBT_CHECK(finished == serial, "the destructor returned with %u of %u items handled", finished.load(), serial);
    return ok;
}

template <class T, std::size_t N, std::size_t P>
void
parallel(pbt::ctx& c, char const* type)
{
    jitter                = 0;
    unsigned const rounds = c.chance(1, 3) ? 2 + unsigned(c.draw(4)) : 1;
    std::vector<unsigned> hold;
    for (unsigned r = 0; r < rounds; ++r)
        hold.push_back(unsigned(c.draw(P - 1)));
    c.op("%s items, %zu workers, buffer %zu: %u round(s) of handlers that wait for each other", type, P, N, rounds);
    std::string why;
    // later rounds depend on how soon a worker is seen to be free: three tries, ever more patient
    unsigned const patience[] = {2000, 100000, 1000000};
    for (unsigned t = 0; t < (rounds == 1 ? 1u : 3u); ++t)
        if (parallel_once<T, N, P>(rounds, hold, patience[t], rounds == 1 ? 12 : 4, why)) {
            if (P >= 2)
                c.nontrivial();
            c.label(rounds == 1 ? "waiting handlers, fresh pool" : "waiting handlers, some workers held up");
            return;
        }
    pbt::fail("free workers were not preferred to busy ones: %s", why.c_str());
}

// Some workers fall far behind while the others work off all they have: what comes next must go to these.
template <std::size_t N, std::size_t P>
bool
behind_once(unsigned total, unsigned held, unsigned settle_us, std::string& why)
{
    using pool_t = xitren::comm::pipeline_stage_pool<std::uint64_t, void, N, P, quiet_log>;
    std::atomic<unsigned> free_from{P};    // workers of this id and above need not wait (and those below are held)
    std::atomic<unsigned> finished{0}, second{0};
    std::atomic<bool>     bail{false};
    auto                  pool = std::make_unique<pool_t>([&](pipeline_stage_exception, std::uint64_t const item, measure_data m) {
        PBT_CHECK(m.id >= 0 && std::size_t(m.id) < P, "worker id %d in a pool of %zu", m.id, P);
        if (open_item(item).second >= total) {    // of those pushed afterwards all must run at once
            second++;
            while (!bail && second < P - held)
                pbt::real_sleep_us(30);
        } else
            while (!bail && unsigned(m.id) < free_from)
                pbt::real_sleep_us(30);
        finished++;
    });
    for (unsigned i = 0; i < total; ++i)    // no more than one buffer holds: nobody has to wait whatever goes where
        push<pool_t, std::uint64_t>(*pool, 0, i);
    free_from     = held;
    unsigned last = ~0u;
    for (unsigned n; (n = finished) != last; last = n)    // until nothing more is finished
        pbt::real_sleep_us(settle_us);
    for (unsigned i = 0; i < P - held; ++i)
        push<pool_t, std::uint64_t>(*pool, 0, total + i);
    double const t0 = pbt::now_s();
    bool         ok = true;
    while (ok && second < P - held) {
        ok = pbt::now_s() - t0 < 4;
        pbt::real_sleep_us(50);
    }
    if (!ok)
        why = "of " + std::to_string(P - held) + " items pushed while " + std::to_string(P - held) + " of " + std::to_string(P)
              + " workers were free and the others were behind (" + std::to_string(total - last) + " of " + std::to_string(total)
              + " items left), " + std::to_string(P - held - second) + " did not start";
    bail = true;
    pool.reset();
    PBT_CHECK(finished == total + P - held, "the destructor returned with %u of %zu items handled", finished.load(), total + P - held);
    return ok;
}

template <std::size_t N, std::size_t P>
void
behind(pbt::ctx& c)
{
    jitter = 0;
    // every worker's share around a power of two, or anything
    unsigned const near  = unsigned(P) << c.range(0, 9);
    unsigned const total = c.chance(1, 2) && near + P < N ? near + unsigned(c.draw(2 * P)) - unsigned(std::min<std::size_t>(P, near))
                                                          : unsigned(c.draw(N));
    unsigned const held  = 1 + unsigned(c.draw(P - 2));
    c.op("%zu workers, buffer %zu: %u items, %u of the workers held up until the others are done", P, N, total, held);
    std::string why;
    for (unsigned patience : {2000u, 50000u, 1000000u})
        if (behind_once<N, P>(total, held, patience, why)) {
            if (total > 2 * P)
                c.nontrivial();
            c.label("some workers far behind");
            return;
        }
    pbt::fail("free workers were not preferred to busy ones: %s", why.c_str());
}

template <class T, std::size_t N, std::size_t P>
void
any(pbt::ctx& c, char const* type)
{
    if (c.chance(1, 4))
        parallel<T, N, P>(c, type);
    else if (c.chance(1, 2))
        stream<T, N, P, void>(c, type);
    else
        stream<T, N, P, int>(c, type);
}

}    // namespace

void
property(pbt::ctx& c)
{
    if (c.chance(1, 6))
        switch (c.draw(2)) {
        case 0: return behind<1100, 2>(c);
        case 1: return behind<1100, 4>(c);
        default: return behind<80, 3>(c);
        }
    switch (c.draw(12)) {
    case 0: return any<std::uint64_t, 4, 2>(c, "uint64");
    case 1: return any<noisy, 1, 3>(c, "slowly copied");
    case 2: return any<std::string, 64, 8>(c, "string");
    case 3: return any<noisy, 16, 1>(c, "slowly copied");
    case 4: return any<wide, 3, 5>(c, "208-byte");
    case 5: return any<std::string, 1, 1>(c, "string");
    case 6: return any<noisy, 2, 12>(c, "slowly copied");
    case 7: return any<std::uint64_t, 1, 8>(c, "uint64");
    case 8: return any<noisy, 5, 2>(c, "slowly copied");
    case 9: return any<std::uint64_t, 300, 2>(c, "uint64");
    case 10: return any<std::string, 500, 1>(c, "string");
    case 11: return any<std::uint64_t, 2, 20>(c, "uint64");
    default: return any<wide, 64, 4>(c, "208-byte");
    }
}
