// Every thread this executable creates passes through here, so that a harness can choose when a new thread starts, hold its
// creator back until it has run, and see it end.
#pragma once

#include "pbt.hpp"

#include <dlfcn.h>
#include <pthread.h>

namespace thr {
inline std::atomic<long>                       start_delay_us{0};    // of the next threads
inline std::atomic<int>                        created{0}, started{0}, ended{0};
inline thread_local int                        self = -1;    // order of creation; -1: not created through here
inline std::atomic<bool (*)()>                 creator_waits_for{nullptr};    // condition polled before pthread_create returns
inline std::atomic<long>                       creator_wait_ms{200};

struct job {
    void* (*fn)(void*);
    void* arg;
    long  delay;
    int   index;
};
inline void*
entry(void* p)
{
    job j = *static_cast<job*>(p);
    delete static_cast<job*>(p);
    self = j.index;
    if (j.delay)
        pbt::real_sleep_us(j.delay);
    ++started;
    // the thread's function destroys its own state before it returns
    void* r = j.fn(j.arg);
    ++ended;
    return r;
}
}    // namespace thr

extern "C" int
pthread_create(pthread_t* t, pthread_attr_t const* a, void* (*fn)(void*), void* arg) noexcept
{
    using real_t         = int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
    static real_t const real = reinterpret_cast<real_t>(dlsym(RTLD_NEXT, "pthread_create"));
    int const r = real(t, a, &thr::entry, new thr::job{fn, arg, thr::start_delay_us.load(), thr::created++});
    if (auto cond = thr::creator_waits_for.load()) {
        double const until = pbt::now_s() + double(thr::creator_wait_ms.load()) / 1000;
        while (!cond() && pbt::now_s() < until)
            pbt::real_sleep_us(5);
    }
    return r;
}
