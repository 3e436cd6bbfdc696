#include "pipe_items.hpp"

char const* const property_rule
    = "One case runs a pipeline stage (buffer 1 to 1000; trivial, string, 208-byte and slowly copied items) with 1 to 4 "
      "producer threads pushing up to 300 items each (now and then more than 65536 in all) through both overloads, generated delays in producers, handler and "
      "item copies, an optional second stage fed from the handler, or a handler that pushes follow-up items itself, then "
      "destroys the stage at once. Schedules are the machine's own, widened by the delays. Non-trivial: more items than the "
      "buffer holds and at least two producers, or items still unhandled when the destructor was entered.";
bool const property_flaky = true;
void
known_findings()
{}

namespace {

using namespace pi;

struct ledger {    // what one stage has handled
    std::vector<std::uint32_t> next;        // per producer
    std::atomic<std::uint64_t> finished{0};
    std::atomic<int>           inside{0};
    std::atomic<bool>          closed{false};
    explicit ledger(unsigned producers) : next(producers, 0) {}
    void
    take(std::uint32_t p, std::uint32_t s)
    {
        PBT_CHECK(!closed, "the handler ran after the stage was destroyed");
        PBT_CHECK(p < next.size(), "an item arrived that nobody pushed (producer %u, serial %u)", p, s);
        PBT_CHECK(s == next[p], "producer %u: item %u arrived when %u was due (%s)", p, s, next[p],
                  s < next[p] ? "repeated or out of order" : "lost or out of order");
        ++next[p];
        pbt::tick();
    }
};

template <class T, std::size_t N, class Next>
void
world(pbt::ctx& c, char const* type)
{
    using xitren::comm::pipeline_stage_exception;
    using stage_t = xitren::comm::pipeline_stage<T, Next, N, quiet_log>;
    unsigned const np   = 1 + unsigned(c.draw(3));
    // a long run goes well past 16 bits' worth of items, at full speed
    bool const     run  = N >= 16 && c.chance(1, 40);
    unsigned const most = run ? 70000 / np + 8000 : c.pick<unsigned>({40, 3, 300});
    jitter              = run ? 0 : unsigned(c.draw(3));
    unsigned const work = run ? 0 : unsigned(c.draw(3)), pace = run ? 0 : unsigned(c.draw(3));
    unsigned const mode = unsigned(c.weighted({5, 2, 2}));    // plain, two stages, self-feeding
    std::vector<unsigned> n(np);
    std::uint64_t         total = 0;
    for (auto& x : n)
        total += x = run ? most - unsigned(c.draw(4000)) : unsigned(c.draw(most));
    // a handler that pushes to its own stage must never find it full
    unsigned const extra = mode == 2 ? unsigned(c.draw(N / 2)) : 0;
    unsigned const feed  = mode == 2 && total + extra <= N ? extra : 0;
    bool const     late  = c.chance(1, 4);    // give the worker time before destruction
    c.op("%s items, buffer %zu, %u producers with %llu items, jitter %u, handler %u, pace %u%s, %u items pushed by the handler",
         type, N, np, (unsigned long long)total, jitter.load(), work, pace, mode == 1 ? ", two stages" : "", feed);
    ledger                   first(np + 1), second(np + 1);
    std::unique_ptr<stage_t> next;
    stage_t*                 self = nullptr;
    std::atomic<stage_t*>    self_a{nullptr};
    unsigned                 fed = 0;
    auto                     on  = [&](ledger& l, bool head) {
        return [&, head](pipeline_stage_exception e, T const& item) {
            PBT_CHECK(l.inside.fetch_add(1) == 0, "two handlers of one stage overlap");
            PBT_CHECK(e == pipeline_stage_exception::no_error, "the handler was told of an error");
            auto const [p, s] = open_item(item);
            l.take(p, s);
            dawdle(work);
            if (head && mode == 1)
                push<stage_t, T>(*next, p, s);
            if (head && fed < feed) {
                while (!self_a.load())
                    std::this_thread::yield();
                push<stage_t, T>(*self_a.load(), np, fed++);
            }
            PBT_CHECK(l.inside.fetch_sub(1) == 1, "two handlers of one stage overlap");
            l.finished++;
        };
    };
    auto h1 = on(first, true);
    auto h2 = on(second, false);
    if (mode == 1)
        next = std::make_unique<stage_t>([&](pipeline_stage_exception e, T const item, auto) -> Next {
            h2(e, item);
            if constexpr (!std::is_void_v<Next>)
                return Next{};
        });
    auto st = std::make_unique<stage_t>([&](pipeline_stage_exception e, T const item, auto) -> Next {
        h1(e, item);
        if constexpr (!std::is_void_v<Next>)
            return Next{};
    });
    self = st.get();
    self_a = self;
    {
        reaper           r;
        std::atomic<int> ready{0};
        for (unsigned p = 0; p < np; ++p)
            r.t.emplace_back([&, p] {
                ++ready;
                while (ready < int(np)) {
                    std::this_thread::yield();
                }
                for (unsigned s = 0; s < n[p]; ++s) {
                    push<stage_t, T>(*self, p, s);
                    dawdle(pace);
                }
            });
    }
    if (late)
        pbt::real_sleep_us(300);
    std::uint64_t const before = first.finished;
    // with self-feeding every item brings at most one more: all that were pushed before this point count
    st.reset();
    first.closed = true;
    std::uint64_t const want = total + std::min<std::uint64_t>(feed, total ? feed : 0);
    PBT_CHECK(first.finished == want, "the destructor returned with %llu of %llu items handled",
              (unsigned long long)first.finished.load(), (unsigned long long)want);
    for (unsigned p = 0; p < np; ++p)
        PBT_CHECK(first.next[p] == n[p], "producer %u: %u of %u items were handled", p, first.next[p], n[p]);
    if (mode == 1) {
        next.reset();
        second.closed = true;
        PBT_CHECK(second.finished == total, "second stage: the destructor returned with %llu of %llu items handled",
                  (unsigned long long)second.finished.load(), (unsigned long long)total);
        for (unsigned p = 0; p < np; ++p)
            PBT_CHECK(second.next[p] == n[p], "second stage, producer %u: %u of %u items were handled", p, second.next[p],
                      n[p]);
    }
    if ((total > N && np >= 2) || before < want)
        c.nontrivial();
    if (total > N)
        c.label("more items than the buffer holds");
    if (before < want)
        c.label("destroyed with items unhandled");
    if (total > 65536)
        c.label("more than 65536 items");
    if (mode == 1)
        c.label("two stages");
    if (feed)
        c.label("handler pushed items itself");
}

template <class T, class Next>
void
sizes(pbt::ctx& c, char const* type)
{
    switch (c.draw(7)) {
    case 0: return world<T, 1, Next>(c, type);
    case 1: return world<T, 2, Next>(c, type);
    case 2: return world<T, 3, Next>(c, type);
    case 3: return world<T, 7, Next>(c, type);
    case 4: return world<T, 16, Next>(c, type);
    case 5: return world<T, 64, Next>(c, type);
    case 6: return world<T, 300, Next>(c, type);
    default: return world<T, 1000, Next>(c, type);
    }
}

}    // namespace

void
property(pbt::ctx& c)
{
    switch (c.draw(3)) {
    case 0: return sizes<std::uint64_t, int>(c, "uint64");
    case 1: return sizes<noisy, void>(c, "slowly copied");
    case 2: return sizes<std::string, std::string>(c, "string");
    default: return sizes<wide, void>(c, "208-byte");
    }
}
