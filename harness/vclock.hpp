// A clock and a sleep the harness owns: every std::chrono clock and std::this_thread::sleep_* in this executable goes
// through these two functions. Off (vclock::on == false) they pass through to the kernel.
#pragma once

#include <atomic>
#include <cstdint>

#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace vclock {
inline std::atomic<bool>         on{false};
inline std::atomic<std::int64_t> now_ns{0};
inline thread_local std::int64_t extra_ns{0};    // a thread's own lead over the others
inline thread_local std::atomic<unsigned>* reads{nullptr};    // where this thread's looks at the clock are counted
constexpr std::int64_t           epoch_ns = 1'700'000'000'000'000'000LL;
// what a sleep does while the clock is virtual; null: return at once
inline std::atomic<void (*)(std::int64_t)> sleep_hook{nullptr};
}    // namespace vclock

extern "C" {
int
clock_gettime(clockid_t id, timespec* ts) noexcept
{
    if (!vclock::on.load())
        return int(syscall(SYS_clock_gettime, id, ts));
    if (vclock::reads)
        ++*vclock::reads;
    std::int64_t const t = vclock::epoch_ns + vclock::now_ns.load() + vclock::extra_ns;
    ts->tv_sec           = t / 1'000'000'000;
    ts->tv_nsec          = t % 1'000'000'000;
    return 0;
}
int
nanosleep(timespec const* req, timespec* rem)
{
    if (!vclock::on.load())
        return int(syscall(SYS_nanosleep, req, rem));
    if (auto h = vclock::sleep_hook.load())
        h(std::int64_t(req->tv_sec) * 1'000'000'000 + req->tv_nsec);
    return 0;
}
}
