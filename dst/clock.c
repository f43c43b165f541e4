/* Simulated wall clock: every reading of real time is moved by an offset and advances by a step. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>

static volatile int on;
static long long at, step;      /* nanoseconds */
static long long calls;

void dst_clock(int enable, long long start, long long per_call) {
    on = enable; at = start; step = per_call; calls = 0;
}
long long dst_clock_calls(void) { return calls; }

static long long now(void) { calls++; long long t = at; at += step; return t; }

int clock_gettime(clockid_t id, struct timespec *ts) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    if (!on || id != CLOCK_REALTIME) return real(id, ts);
    long long t = now();
    ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000L; ts->tv_sec--; }
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    static int (*real)(struct timeval *, void *);
    if (!real) real = (int (*)(struct timeval *, void *))dlsym(RTLD_NEXT, "gettimeofday");
    if (!on || !tv) return real(tv, tz);
    long long t = now();
    tv->tv_sec = t / 1000000000LL; tv->tv_usec = (t % 1000000000LL) / 1000;
    if (tv->tv_usec < 0) { tv->tv_usec += 1000000; tv->tv_sec--; }
    return 0;
}
time_t time(time_t *p) {
    static time_t (*real)(time_t *);
    if (!real) real = (time_t (*)(time_t *))dlsym(RTLD_NEXT, "time");
    if (!on) return real(p);
    time_t t = (time_t)(now() / 1000000000LL);
    if (p) *p = t;
    return t;
}
