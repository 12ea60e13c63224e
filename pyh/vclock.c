/* The monotonic clock of this process, set by the test: it moves only when vclock_set says so.
 * Preloaded, so that Python and the Rust library read the same clock. */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
static long long now_ns = 1000000000000LL;
void vclock_set(long long ns) { now_ns = ns; }
long long vclock_get(void) { return now_ns; }
int clock_gettime(clockid_t id, struct timespec *t) {
    if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME) {
        t->tv_sec = now_ns / 1000000000LL;
        t->tv_nsec = now_ns % 1000000000LL;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, t);
}
