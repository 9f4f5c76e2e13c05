/* Virtual wall clock for a simulated process.
 *
 * Loaded with LD_PRELOAD.  While the clock is frozen, every reader of the wall
 * clock in the process (time.time, datetime.now, uuid1, libc) sees the value
 * the simulator set; nothing advances it but the simulator.  The monotonic
 * clocks are left alone: nothing the properties look at is derived from them
 * and the C library needs them for timed waits.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stddef.h>
#include <sys/time.h>
#include <time.h>

static volatile int frozen = 0;
static volatile int64_t now_ns = 0;
static volatile int64_t reads = 0;
static int (*real_clock_gettime)(clockid_t, struct timespec *) = NULL;

void simclock_set(int64_t ns) { now_ns = ns; frozen = 1; }
void simclock_release(void) { frozen = 0; }
int64_t simclock_get(void) { return now_ns; }
int64_t simclock_reads(void) { return reads; }

static int wall(clockid_t id) { return id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE; }

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (frozen && wall(id)) {
        int64_t n = now_ns;
        reads++;
        ts->tv_sec = n / 1000000000LL;
        ts->tv_nsec = n % 1000000000LL;
        return 0;
    }
    if (!real_clock_gettime)
        real_clock_gettime = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return real_clock_gettime(id, ts);
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts;
    (void)tz;
    if (clock_gettime(CLOCK_REALTIME, &ts)) return -1;
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}

time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
