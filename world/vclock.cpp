#include "vclock.h"

#include <cerrno>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

// ------------------------------------------------------------- virtual clock
// 2026-06-01 12:00:00 UTC
static const int64_t BASE_REAL = 1780315200ll * 1000000000ll;
static const int64_t BASE_MONO = 100000ll * 1000000000ll;
static bool          g_virtual = false;
static int64_t       g_ns      = 0;

namespace vclock {
void    enable() { g_virtual = true; g_ns = 0; }
void    addMs(int64_t ms) { g_ns += ms * 1000000; }
int64_t nowMs() { return g_ns / 1000000; }
}

extern "C" {
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (g_virtual && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME ||
                      id == CLOCK_MONOTONIC_COARSE ||
                      id == CLOCK_REALTIME_COARSE || id == CLOCK_BOOTTIME)) {
        int64_t t = g_ns + ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
                                ? BASE_REAL
                                : BASE_MONO);
        ts->tv_sec  = t / 1000000000;
        ts->tv_nsec = t % 1000000000;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
// asio falls back to checking its timers on every poll when it has no timerfd,
// which is what makes the virtual clock effective.
int timerfd_create(int, int)
{
    errno = EINVAL;
    return -1;
}
}
