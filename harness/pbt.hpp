// Small property-based-testing runtime used by every harness in this directory.
//
// A case is a pure function of a *tape*: the list of values drawn by the generator. A tape comes from
//   - a PRNG seeded by (VERIF_SEED, case number)           -> random exploration
//   - a byte string                                         -> coverage-guided fuzzing (libFuzzer, PBT_FUZZ)
//   - a replay file                                         -> reproduction and shrinking
// Cases run in forked children, so that a crash, a sanitizer report or a hang of the code under test is just another
// failing case: the tape drawn so far survives in shared memory and is shrunk by re-running candidate tapes.
#pragma once

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <memory>
#include <mutex>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

constexpr std::size_t max_tape   = 60000;
constexpr std::size_t max_log    = 1u << 19;
constexpr std::size_t max_labels = 96;
constexpr std::size_t batch_max  = 512;
constexpr int         exit_fail  = 77;

struct label_slot {
    char          name[56];
    std::uint64_t n;
};

struct shm {
    std::atomic<std::uint64_t> cur;          // 1 + index of the running case within the batch
    std::atomic<std::uint64_t> beat;         // grows while a long case gets on
    std::atomic<std::uint32_t> failed;
    std::atomic<std::uint32_t> msg_lock;
    std::uint32_t              tape_len;
    std::uint32_t              log_on;
    std::uint32_t              log_len;
    std::uint32_t              n_labels;
    std::uint32_t              overflow;
    label_slot                 labels[max_labels];
    std::uint64_t              hash[batch_max];
    std::uint8_t               nontrivial[batch_max];
    char                       msg[8192];
    std::uint64_t              tape[max_tape];
    char                       log[max_log];
};

inline shm*&
S()
{
    static shm* p = nullptr;
    return p;
}

// A long case says that it gets on: what counts as a hang is a time without any of these.
inline void
tick()
{
    if (shm* s = S())
        s->beat.store(s->beat.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
}

// The real clock, whatever a harness interposes.
inline double
now_s()
{
    timespec ts{};
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}
inline void
real_sleep_us(long us)
{
    timespec ts{us / 1000000, (us % 1000000) * 1000};
    syscall(SYS_nanosleep, &ts, nullptr);
}

inline std::uint64_t
mix(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

class ctx {
public:
    enum class mode { random, replay, bytes };

    // --- draws -----------------------------------------------------------------------------------------------------
    // uniform in [0, max]; 0 is the simplest value
    std::uint64_t
    draw(std::uint64_t max)
    {
        std::uint64_t v = 0;
        switch (mode_) {
        case mode::random: v = max == ~0ULL ? rnd() : bounded(max + 1); break;
        case mode::replay:
            v = pos_ < in_.size() ? in_[pos_] : 0;
            if (max != ~0ULL && v > max)
                v %= (max + 1);
            break;
        case mode::bytes: v = from_bytes(max); break;
        }
        ++pos_;
        record(v);
        return v;
    }
    std::int64_t
    range(std::int64_t lo, std::int64_t hi)
    {
        return lo + std::int64_t(draw(std::uint64_t(hi - lo)));
    }
    // true with probability num/den; shrinks to false
    bool
    chance(unsigned num, unsigned den)
    {
        std::uint64_t v = 0;
        switch (mode_) {
        case mode::random: v = bounded(den) < num; break;
        case mode::replay: v = (pos_ < in_.size() ? in_[pos_] : 0) != 0; break;
        case mode::bytes: v = (from_bytes(255) * den) / 256 < num && bpos_ <= blen_; break;
        }
        ++pos_;
        record(v);
        return v != 0;
    }
    // loop control: keeps going on average `avg` times; shrinks by deletion
    bool
    more(unsigned avg)
    {
        if (mode_ == mode::bytes && bpos_ >= blen_) {
            record(0);
            ++pos_;
            return false;
        }
        return chance(avg, avg + 1);
    }
    std::size_t
    weighted(std::initializer_list<unsigned> w)
    {
        unsigned total = 0;
        for (auto x : w)
            total += x;
        std::uint64_t v = draw(total - 1);
        std::size_t   i = 0;
        for (auto x : w) {
            if (v < x)
                return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    template <class T>
    T
    pick(std::initializer_list<T> l)
    {
        return *(l.begin() + draw(l.size() - 1));
    }
    // log-uniform magnitude up to `bits` bits
    std::uint64_t
    sized(unsigned bits)
    {
        unsigned b = unsigned(draw(bits));
        if (b == 0)
            return 0;
        std::uint64_t top = b >= 64 ? ~0ULL : ((1ULL << b) - 1);
        return draw(top);
    }
    // any 64-bit pattern with emphasis on edge patterns
    std::uint64_t
    edgy(unsigned bits)
    {
        std::uint64_t const m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
        switch (weighted({4, 3, 2, 2, 1})) {
        case 0: return sized(bits) & m;
        case 1: return draw(m);
        case 2: return (m - draw(3)) & m;
        case 3: {
            std::uint64_t p = 1ULL << draw(bits - 1);
            return (p + draw(2) - 1) & m;
        }
        default: {
            std::uint64_t b = draw(255), r = 0;
            for (unsigned i = 0; i < bits; i += 8)
                r = (r << 8) | b;
            return r & m;
        }
        }
    }
    double
    unit()
    {
        return double(draw((1ULL << 30) - 1)) / double(1ULL << 30);
    }

    // --- bookkeeping -----------------------------------------------------------------------------------------------
    void
    nontrivial()
    {
        nontrivial_ = true;
    }
    void
    label(char const* name)
    {
        auto* s = S();
        for (std::uint32_t i = 0; i < s->n_labels; ++i)
            if (!std::strncmp(s->labels[i].name, name, sizeof(s->labels[i].name) - 1)) {
                s->labels[i].n++;
                return;
            }
        if (s->n_labels < max_labels) {
            std::strncpy(s->labels[s->n_labels].name, name, sizeof(s->labels[0].name) - 1);
            s->labels[s->n_labels].n = 1;
            s->n_labels++;
        }
    }
    __attribute__((format(printf, 2, 3))) void
    op(char const* fmt, ...)
    {
        auto* s = S();
        if (!s->log_on)
            return;
        char    buf[2048];
        va_list ap;
        va_start(ap, fmt);
        int n = std::vsnprintf(buf, sizeof(buf) - 2, fmt, ap);
        va_end(ap);
        if (n < 0)
            return;
        n = std::min<int>(n, sizeof(buf) - 2);
        if (s->log_len + n + 2 < max_log) {
            std::memcpy(s->log + s->log_len, buf, n);
            s->log[s->log_len + n] = '\n';
            s->log_len += n + 1;
            s->log[s->log_len] = 0;
        }
    }

    mode                             mode_{mode::random};
    std::uint64_t                    rng_{};
    std::vector<std::uint64_t>       in_{};
    std::uint8_t const*              bytes_{};
    std::size_t                      bpos_{}, blen_{};
    std::size_t                      pos_{};
    std::uint64_t                    hash_{1469598103934665603ULL};
    bool                             nontrivial_{false};

private:
    std::uint64_t
    rnd()
    {
        rng_ += 0x9e3779b97f4a7c15ULL;
        std::uint64_t x = rng_;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31);
    }
    std::uint64_t
    bounded(std::uint64_t n)
    {
        return std::uint64_t((static_cast<unsigned __int128>(rnd()) * n) >> 64);
    }
    std::uint64_t
    from_bytes(std::uint64_t max)
    {
        int           n = max <= 0xff ? 1 : max <= 0xffff ? 2 : max <= 0xffffffffULL ? 4 : 8;
        std::uint64_t v = 0;
        for (int i = 0; i < n; ++i) {
            v = (v << 8) | (bpos_ < blen_ ? bytes_[bpos_] : 0);
            ++bpos_;
        }
        return max == ~0ULL ? v : v % (max + 1);
    }
    void
    record(std::uint64_t v)
    {
        hash_   = (hash_ ^ (v + 0x51)) * 1099511628211ULL;
        hash_   = hash_ ^ (hash_ >> 29);
        auto* s = S();
        if (s->tape_len < max_tape)
            s->tape[s->tape_len++] = v;
        else
            s->overflow = 1;
    }
};

// Any thread may call this: records the message and ends the child at once.
[[noreturn]] __attribute__((format(printf, 1, 2))) inline void
fail(char const* fmt, ...)
{
    auto* s = S();
    if (s->msg_lock.exchange(1) == 0) {
        va_list ap;
        va_start(ap, fmt);
        std::vsnprintf(s->msg, sizeof(s->msg), fmt, ap);
        va_end(ap);
        s->failed = 1;
#ifdef PBT_FUZZ
        std::fprintf(stderr, "PBT-FAIL: %s\n", s->msg);
        std::abort();
#else
        _exit(exit_fail);
#endif
    }
    for (;;)
        real_sleep_us(1000000);
}

#define PBT_CHECK(cond, ...)                                                                                          \
    do {                                                                                                              \
        if (!(cond))                                                                                                  \
            ::pbt::fail(__VA_ARGS__);                                                                                 \
    } while (0)

}    // namespace pbt

// --- what a harness provides ------------------------------------------------------------------------------------------
void property(pbt::ctx& c);                 // one case
extern char const* const property_rule;     // how cases are made and what makes one non-trivial
extern bool const        property_flaky;    // true: thread schedules are not part of the tape
// Probes for known findings: prints one line per finding that still reproduces.
void known_findings();

namespace pbt {

// fork() copies the page tables of everything mapped, and sanitizers map a lot: children therefore run batches.
struct options {
    std::uint64_t seed = 1, cases = 1000;
    unsigned      jobs = 8, batch = 200;
    double        time_limit = 600, hang = 25, shrink_s = 60;
    std::string   out, fail_out, replay, shrink_from, workdir = "/tmp";
    bool          known = false;
};

inline shm*
new_shm()
{
    void* p = mmap(nullptr, sizeof(shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(3);
    }
    return static_cast<shm*>(p);
}

inline void
reset_case(shm* s)
{
    s->failed   = 0;
    s->msg_lock = 0;
    s->tape_len = 0;
    s->log_len  = 0;
    s->log[0]   = 0;
    s->msg[0]   = 0;
    s->overflow = 0;
}

inline ctx
random_ctx(std::uint64_t seed, std::uint64_t i)
{
    ctx c;
    c.mode_ = ctx::mode::random;
    c.rng_  = mix(mix(seed) ^ (i * 0x9e3779b97f4a7c15ULL + 0x1234567));
    return c;
}

inline void
child_setup(int errfd)
{
    dup2(errfd, 2);
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0)
        dup2(nul, 1);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

inline int
err_file(options const& o, char const* tag, unsigned k)
{
    std::string p = o.workdir + "/stderr." + std::to_string(getpid()) + "." + tag + std::to_string(k);
    int         fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    unlink(p.c_str());
    return fd;
}
inline std::string
read_err(int fd)
{
    std::string r;
    off_t       n = lseek(fd, 0, SEEK_END);
    if (n > 0) {
        r.resize(std::min<off_t>(n, 6000));
        if (pread(fd, r.data(), r.size(), 0) < 0)
            r.clear();
    }
    if (ftruncate(fd, 0)) {}
    return r;
}

struct outcome {
    enum kind_t { ok, fail, hang, lost } kind = ok;    // lost: killed from outside
    std::string message;
};

// Runs one tape in a child.
inline outcome
run_tape(options const& o, shm* s, std::vector<std::uint64_t> const& tape, int errfd, double hang, bool log)
{
    reset_case(s);
    s->log_on = log;
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(errfd);
        S() = s;
        ctx c;
        c.mode_ = ctx::mode::replay;
        c.in_   = tape;
        property(c);
        _exit(0);
    }
    if (pid < 0)
        return {outcome::lost, "fork failed"};
    double const  t0 = now_s();
    double        last = t0;
    std::uint64_t beat = s->beat;
    int           st = 0;
    long          nap = 200;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
            break;
        if (std::uint64_t b = s->beat; b != beat && now_s() - t0 < 8 * hang) {
            beat = b;
            last = now_s();
        }
        if (now_s() - last > hang) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            read_err(errfd);
            return {outcome::hang, "no progress for " + std::to_string(int(hang)) + " s (hang or endless loop)"};
        }
        real_sleep_us(nap);
        nap = std::min(nap * 2, 5000L);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return {};
    std::string e = read_err(errfd);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
        return {outcome::lost, "killed"};
    outcome r{outcome::fail, ""};
    if (s->failed)
        r.message = s->msg;
    else if (WIFSIGNALED(st))
        r.message = "crash: signal " + std::to_string(WTERMSIG(st)) + " " + strsignal(WTERMSIG(st)) + "\n" + e;
    else
        r.message = "abnormal exit " + std::to_string(WEXITSTATUS(st)) + "\n" + e;
    return r;
}

inline std::string
json_str(std::string const& s)
{
    std::string r = "\"";
    char        b[8];
    for (unsigned char ch : s) {
        switch (ch) {
        case '"': r += "\\\""; break;
        case '\\': r += "\\\\"; break;
        case '\n': r += "\\n"; break;
        default:
            if (ch < 0x20 || ch >= 0x7f) {
                std::snprintf(b, sizeof b, "\\u%04x", ch);
                r += b;
            } else
                r += char(ch);
        }
    }
    return r + "\"";
}

inline outcome
probe(options const& o, shm* s, std::vector<std::uint64_t> const& t, int errfd, double hang, unsigned reps,
      bool log = false)
{
    outcome last{};
    for (unsigned i = 0; i < reps; ++i) {
        last = run_tape(o, s, t, errfd, hang, log);
        if (last.kind == outcome::fail || last.kind == outcome::hang)
            return last;
    }
    return last;
}

// Shrinks a failing tape: chunk deletion, then value minimisation.
inline std::vector<std::uint64_t>
shrink(options const& o, shm* s, std::vector<std::uint64_t> best, int errfd, std::uint64_t& evals)
{
    double const   t0   = now_s();
    unsigned const reps = property_flaky ? 12 : 1;
    auto           left = [&] { return now_s() - t0 < o.shrink_s; };
    auto           bad  = [&](std::vector<std::uint64_t> const& t) {
        ++evals;
        auto r = probe(o, s, t, errfd, o.hang >= 100 ? 30 : std::min(o.hang, 4.0), reps);
        if (r.kind == outcome::fail) {
            // keep only what was really drawn
            return true;
        }
        return false;
    };
    auto trim = [&](std::vector<std::uint64_t>& t) {
        while (!t.empty() && t.back() == 0)
            t.pop_back();
    };
    trim(best);
    bool improved = true;
    while (improved && left()) {
        improved = false;
        for (std::size_t chunk = std::max<std::size_t>(1, best.size() / 2); chunk >= 1 && left(); chunk /= 2) {
            for (std::size_t at = 0; at < best.size() && left();) {
                auto t = best;
                t.erase(t.begin() + at, t.begin() + std::min(t.size(), at + chunk));
                trim(t);
                if (t.size() < best.size() && bad(t)) {
                    best     = t;
                    improved = true;
                } else
                    at += std::max<std::size_t>(1, chunk > 8 ? chunk / 2 : 1);
            }
            if (chunk == 1)
                break;
        }
        for (std::size_t i = 0; i < best.size() && left(); ++i) {
            if (best[i] == 0)
                continue;
            auto t = best;
            t[i]   = 0;
            trim(t);
            if (bad(t)) {
                best     = t;
                improved = true;
                continue;
            }
            std::uint64_t lo = 0, hi = best[i];    // lo passes, hi fails
            while (hi - lo > 1 && left()) {
                std::uint64_t mid = lo + (hi - lo) / 2;
                t                 = best;
                t[i]              = mid;
                if (bad(t)) {
                    hi       = mid;
                    best     = t;
                    improved = true;
                } else
                    lo = mid;
            }
        }
    }
    return best;
}

inline void
write_failure(options const& o, std::vector<std::uint64_t> const& tape, std::string const& message,
              std::string const& log, std::string const& note, std::uint64_t case_no, std::uint64_t evals)
{
    std::string j = "{\n \"message\": " + json_str(message) + ",\n \"note\": " + json_str(note)
                    + ",\n \"seed\": " + std::to_string(o.seed) + ",\n \"case\": " + std::to_string(case_no)
                    + ",\n \"shrink_evaluations\": " + std::to_string(evals) + ",\n \"case_text\": " + json_str(log)
                    + ",\n \"tape\": [";
    for (std::size_t i = 0; i < tape.size(); ++i)
        j += (i ? "," : "") + std::to_string(tape[i]);
    j += "]\n}\n";
    FILE* f = std::fopen(o.fail_out.c_str(), "w");
    if (f) {
        std::fwrite(j.data(), 1, j.size(), f);
        std::fclose(f);
    }
}

// Minimises and confirms a failure; returns true when it counts.
inline bool
settle(options const& o, std::vector<std::uint64_t> tape, outcome first, std::uint64_t case_no)
{
    auto* s     = new_shm();
    int   errfd = err_file(o, "settle", 0);
    std::uint64_t evals = 0;
    std::string   note;
    unsigned const reps = property_flaky ? 60 : 3;
    if (first.kind == outcome::hang) {
        // A hang has to come back with the full limit before it counts.
        unsigned again = 0;
        for (unsigned i = 0; i < 3; ++i) {
            auto r = run_tape(o, s, tape, errfd, o.hang, true);
            if (r.kind == outcome::hang || r.kind == outcome::fail) {
                ++again;
                first = r;
                if (property_flaky)
                    break;
            } else if (!property_flaky)
                break;
        }
        if (again < (property_flaky ? 1u : 3u))
            return false;
        write_failure(o, tape, first.message, s->log, "hang, not shrunk", case_no, 0);
        return true;
    }
    auto r = probe(o, s, tape, errfd, o.hang, reps, true);
    if (r.kind != outcome::fail && r.kind != outcome::hang) {
        if (!property_flaky)
            return false;
        // A sound oracle failed once under a schedule that did not come back: still a failure.
        write_failure(o, tape, first.message, "", "schedule did not recur on replay", case_no, 0);
        return true;
    }
    auto small = shrink(o, s, tape, errfd, evals);
    // confirm
    unsigned hits = 0;
    outcome  lastr{};
    std::string log;
    for (unsigned i = 0; i < (property_flaky ? 200u : 3u); ++i) {
        auto q = run_tape(o, s, small, errfd, o.hang, true);
        if (q.kind == outcome::fail || q.kind == outcome::hang) {
            ++hits;
            lastr = q;
            log   = s->log;
            if (property_flaky)
                break;
        }
    }
    if (hits >= (property_flaky ? 1u : 3u)) {
        write_failure(o, small, lastr.message, log, note, case_no, evals);
        return true;
    }
    // the shrunk form is unstable: fall back on the original
    hits = 0;
    for (unsigned i = 0; i < (property_flaky ? 100u : 3u); ++i) {
        auto q = run_tape(o, s, tape, errfd, o.hang, true);
        if (q.kind == outcome::fail || q.kind == outcome::hang) {
            ++hits;
            lastr = q;
            log   = s->log;
        }
    }
    if (hits >= (property_flaky ? 1u : 3u)) {
        write_failure(o, tape, lastr.message, log, "not shrunk: the shrunk form did not replay", case_no, evals);
        return true;
    }
    if (property_flaky) {
        write_failure(o, tape, r.message, "", "schedule did not recur on replay", case_no, evals);
        return true;
    }
    return false;
}

struct worker {
    pid_t         pid  = 0;
    shm*          mem  = nullptr;
    int           err  = -1;
    std::uint64_t from = 0, n = 0, seen = 0, beat = 0;
    double        last = 0, began = 0;    // of the running case: last sign of life, start
};

inline int
explore(options const& o)
{
    double const                      t0 = now_s();
    std::vector<worker>               ws(o.jobs);
    std::unordered_set<std::uint64_t> distinct;
    std::uint64_t                     next = 0, done = 0, nontrivial = 0, lost = 0, dropped = 0;
    std::vector<std::uint64_t>        sample_idx;
    std::vector<std::pair<std::string, std::uint64_t>> labels;
    struct found_t {
        std::uint64_t              idx;
        std::vector<std::uint64_t> tape;
        outcome                    out;
    };
    std::vector<found_t> found;
    bool                 stop = false;
    for (unsigned k = 0; k < o.jobs; ++k) {
        ws[k].mem = new_shm();
        ws[k].err = err_file(o, "w", k);
    }
    auto start = [&](worker& w, std::uint64_t from, std::uint64_t n) {
        auto* s    = w.mem;
        s->cur     = 0;
        s->n_labels = 0;
        s->log_on  = 0;
        std::memset(s->labels, 0, sizeof s->labels);
        std::memset(s->nontrivial, 0, sizeof s->nontrivial);
        reset_case(s);
        w.from = from;
        w.n    = n;
        w.seen = 0;
        w.beat = s->beat;
        w.last = w.began = now_s();
        w.pid  = fork();
        if (w.pid == 0) {
            child_setup(w.err);
            S() = s;
            for (std::uint64_t i = 0; i < n; ++i) {
                reset_case(s);
                s->cur = i + 1;
                ctx c  = random_ctx(o.seed, from + i);
                property(c);
                s->hash[i]       = c.hash_;
                s->nontrivial[i] = c.nontrivial_;
            }
            s->cur = n + 1;
            _exit(0);
        }
    };
    auto collect = [&](worker& w, std::uint64_t completed) {
        auto* s = w.mem;
        for (std::uint64_t i = 0; i < completed; ++i) {
            ++done;
            if (s->nontrivial[i]) {
                ++nontrivial;
                if (distinct.insert(s->hash[i]).second && sample_idx.size() < 4 && (w.from + i) % 7 == 3)
                    sample_idx.push_back(w.from + i);
            }
        }
        for (std::uint32_t i = 0; i < s->n_labels; ++i) {
            bool hit = false;
            for (auto& l : labels)
                if (l.first == s->labels[i].name) {
                    l.second += s->labels[i].n;
                    hit = true;
                }
            if (!hit)
                labels.emplace_back(s->labels[i].name, s->labels[i].n);
        }
    };
    std::vector<std::pair<std::uint64_t, std::uint64_t>> redo;
    for (;;) {
        bool busy = false;
        for (auto& w : ws) {
            if (w.pid == 0) {
                if (!stop && now_s() - t0 > o.time_limit)
                    stop = true;
                if (stop)
                    continue;
                if (!redo.empty()) {
                    auto r = redo.back();
                    redo.pop_back();
                    start(w, r.first, r.second);
                } else if (next < o.cases) {
                    std::uint64_t n = std::min<std::uint64_t>(std::min<std::uint64_t>(o.batch, batch_max), o.cases - next);
                    start(w, next, n);
                    next += n;
                } else
                    continue;
            }
            busy = true;
            int   st = 0;
            pid_t r  = waitpid(w.pid, &st, WNOHANG);
            if (r == 0) {
                std::uint64_t c = w.mem->cur;
                if (c != w.seen) {
                    w.seen = c;
                    w.last = w.began = now_s();
                } else if (std::uint64_t b = w.mem->beat; b != w.beat && now_s() - w.began < 8 * o.hang) {
                    w.beat = b;
                    w.last = now_s();
                } else if (now_s() - w.last > o.hang) {
                    kill(w.pid, SIGKILL);
                    waitpid(w.pid, &st, 0);
                    read_err(w.err);
                    w.pid = 0;
                    std::uint64_t at = c ? c - 1 : 0;
                    collect(w, at);
                    found.push_back({w.from + at,
                                     std::vector<std::uint64_t>(w.mem->tape, w.mem->tape + w.mem->tape_len),
                                     {outcome::hang, "hang"}});
                    stop = true;
                }
                continue;
            }
            w.pid = 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && w.mem->cur == w.n + 1) {
                collect(w, w.n);
                continue;
            }
            std::string   e  = read_err(w.err);
            std::uint64_t c  = w.mem->cur;
            std::uint64_t at = c ? c - 1 : 0;
            collect(w, at);
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {    // memory pressure or an outside kill: try again
                if (++lost < 20)
                    redo.emplace_back(w.from + at, w.n - at);
                continue;
            }
            outcome out{outcome::fail, ""};
            if (w.mem->failed)
                out.message = w.mem->msg;
            else if (WIFSIGNALED(st))
                out.message = std::string("crash: signal ") + std::to_string(WTERMSIG(st)) + " "
                              + strsignal(WTERMSIG(st)) + "\n" + e;
            else
                out.message = "abnormal exit " + std::to_string(WEXITSTATUS(st)) + "\n" + e;
            found.push_back(
                {w.from + at, std::vector<std::uint64_t>(w.mem->tape, w.mem->tape + w.mem->tape_len), out});
            stop = true;
        }
        if (!busy)
            break;
        real_sleep_us(1000);
        if (stop && !found.empty()) {
            // a settled failure is what matters now: give the other workers a moment, then move on
            std::sort(found.begin(), found.end(), [](auto& a, auto& b) { return a.idx < b.idx; });
            bool wait = false;
            for (auto& w : ws)
                wait |= w.pid != 0 && w.from < found.front().idx && now_s() - w.last < 5;
            if (!wait) {
                for (auto& w : ws)
                    if (w.pid) {
                        kill(w.pid, SIGKILL);
                        waitpid(w.pid, nullptr, 0);
                        w.pid = 0;
                    }
                bool real = false;
                for (auto& f : found) {
                    if (settle(o, f.tape, f.out, f.idx)) {
                        real = true;
                        break;
                    }
                    ++dropped;
                    std::fprintf(stderr, "pbt: case %" PRIu64 " failed once but not on replay: %s\n", f.idx,
                                 f.out.message.substr(0, 600).c_str());
                }
                if (real)
                    break;
                // none of them replays: go on behind the last batch (bounded)
                found.clear();
                if (dropped > 12)
                    break;
                stop = false;
            }
        }
    }
    std::string samples;
    if (!sample_idx.empty() && found.empty()) {
        auto* s   = new_shm();
        int   err = err_file(o, "sample", 0);
        for (auto i : sample_idx) {
            reset_case(s);
            s->log_on = 1;
            pid_t pid = fork();
            if (pid == 0) {
                child_setup(err);
                S()   = s;
                ctx c = random_ctx(o.seed, i);
                property(c);
                _exit(0);
            }
            double t1 = now_s();
            int    st = 0;
            while (waitpid(pid, &st, WNOHANG) == 0) {
                if (now_s() - t1 > 8 * o.hang) {
                    kill(pid, SIGKILL);
                    waitpid(pid, &st, 0);
                    break;
                }
                real_sleep_us(500);
            }
            std::string t = s->log;
            if (t.size() > 1500)
                t = t.substr(0, 1500) + "...";
            samples += (samples.empty() ? "" : ",") + json_str("case " + std::to_string(i) + ":\n" + t);
        }
    }
    std::string j = "{\"evaluations\": " + std::to_string(done) + ", \"nontrivial\": " + std::to_string(nontrivial)
                    + ", \"distinct_nontrivial\": " + std::to_string(distinct.size())
                    + ", \"requested\": " + std::to_string(o.cases) + ", \"unreproduced\": " + std::to_string(dropped)
                    + ", \"failed\": " + (found.empty() ? "false" : "true") + ", \"wall_s\": "
                    + std::to_string(now_s() - t0) + ", \"rule\": " + json_str(property_rule) + ", \"labels\": {";
    std::sort(labels.begin(), labels.end());
    for (std::size_t i = 0; i < labels.size(); ++i)
        j += (i ? ", " : "") + json_str(labels[i].first) + ": " + std::to_string(labels[i].second);
    j += "}, \"samples\": [" + samples + "]}\n";
    if (!o.out.empty()) {
        FILE* f = std::fopen(o.out.c_str(), "w");
        if (f) {
            std::fwrite(j.data(), 1, j.size(), f);
            std::fclose(f);
        }
    } else
        std::fputs(j.c_str(), stdout);
    return found.empty() ? 0 : 1;
}

inline std::vector<std::uint64_t>
read_tape(std::string const& path)
{
    std::vector<std::uint64_t> r;
    FILE*                      f = std::fopen(path.c_str(), "r");
    if (!f)
        return r;
    std::string t;
    char        b[4096];
    std::size_t n;
    while ((n = std::fread(b, 1, sizeof b, f)) > 0)
        t.append(b, n);
    std::fclose(f);
    auto at = t.rfind("\"tape\"");
    if (at != std::string::npos)
        at = t.find('[', at);
    if (at == std::string::npos)
        return r;
    char* p = t.data() + at + 1;
    while (*p && *p != ']') {
        char* e;
        r.push_back(std::strtoull(p, &e, 10));
        if (e == p) {
            r.pop_back();
            break;
        }
        p = e;
        while (*p == ',' || *p == ' ' || *p == '\n')
            ++p;
    }
    return r;
}

}    // namespace pbt

extern "C" {
__attribute__((used, visibility("default"))) inline const char*
__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:max_allocation_size_mb=2048:alloc_dealloc_mismatch=0:symbolize=0";
}
__attribute__((used, visibility("default"))) inline const char*
__ubsan_default_options()
{
    return "print_stacktrace=0:halt_on_error=1:exitcode=98";
}
__attribute__((used, visibility("default"))) inline const char*
__tsan_default_options()
{
    return "halt_on_error=1:exitcode=66:report_thread_leaks=0:history_size=4:die_after_fork=0:symbolize=0:"
           "atexit_sleep_ms=0";
}
}

#ifdef PBT_FUZZ

extern "C" int
LLVMFuzzerTestOneInput(std::uint8_t const* data, std::size_t size)
{
    using namespace pbt;
    static shm* s = nullptr;
    if (!s) {
        char const* dump = std::getenv("PBT_DUMP");
        if (dump) {
            int fd = open(dump, O_RDWR | O_CREAT | O_TRUNC, 0600);
            if (fd < 0 || ftruncate(fd, sizeof(shm)))
                std::abort();
            s = static_cast<shm*>(mmap(nullptr, sizeof(shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        } else
            s = new_shm();
    }
    reset_case(s);
    s->n_labels = 0;
    S()         = s;
    ctx c;
    c.mode_  = ctx::mode::bytes;
    c.bytes_ = data;
    c.blen_  = size;
    property(c);
    return 0;
}

#else

int
main(int argc, char** argv)
{
    using namespace pbt;
    options o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto        v = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed")
            o.seed = std::strtoull(v().c_str(), nullptr, 10);
        else if (a == "--cases")
            o.cases = std::strtoull(v().c_str(), nullptr, 10);
        else if (a == "--jobs")
            o.jobs = unsigned(std::atoi(v().c_str()));
        else if (a == "--batch")
            o.batch = unsigned(std::atoi(v().c_str()));
        else if (a == "--time-limit")
            o.time_limit = std::atof(v().c_str());
        else if (a == "--hang")
            o.hang = std::atof(v().c_str());
        else if (a == "--shrink-s")
            o.shrink_s = std::atof(v().c_str());
        else if (a == "--out")
            o.out = v();
        else if (a == "--fail-out")
            o.fail_out = v();
        else if (a == "--workdir")
            o.workdir = v();
        else if (a == "--replay")
            o.replay = v();
        else if (a == "--shrink-from")
            o.shrink_from = v();
        else if (a == "--known")
            o.known = true;
        else if (a == "--shm-to-tape") {    // what a fuzz target left behind -> a tape
            std::string path = v();
            int         fd   = open(path.c_str(), O_RDONLY);
            void*       p    = fd < 0 ? MAP_FAILED : mmap(nullptr, sizeof(shm), PROT_READ, MAP_SHARED, fd, 0);
            if (p == MAP_FAILED)
                return 2;
            auto* s = static_cast<shm*>(p);
            std::printf("{\"tape\": [");
            for (std::uint32_t k = 0; k < s->tape_len; ++k)
                std::printf("%s%" PRIu64, k ? ", " : "", s->tape[k]);
            std::printf("]}\n");
            return 0;
        } else if (a == "--rule") {
            std::puts(property_rule);
            return 0;
        } else {
            std::fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }
    S() = new_shm();
    if (o.known) {
        known_findings();
        return 0;
    }
    if (!o.replay.empty()) {    // exit 0: the case passes; 1: it fails
        auto  t     = read_tape(o.replay);
        auto* s     = new_shm();
        int   errfd = err_file(o, "replay", 0);
        auto  r     = probe(o, s, t, errfd, o.hang, property_flaky ? 200 : 1, true);
        std::printf("%s\n", s->log);
        if (r.kind == outcome::fail || r.kind == outcome::hang) {
            std::printf("FAILS: %s\n", r.message.c_str());
            return 1;
        }
        std::printf("passes\n");
        return 0;
    }
    if (!o.shrink_from.empty()) {
        auto t = read_tape(o.shrink_from);
        auto* s     = new_shm();
        int   errfd = err_file(o, "sf", 0);
        auto  r     = probe(o, s, t, errfd, o.hang, property_flaky ? 60 : 1);
        if (r.kind != outcome::fail && r.kind != outcome::hang)
            return 0;
        return settle(o, t, r, 0) ? 1 : 0;
    }
    return explore(o);
}

#endif
