/* Virtual CLOCK_REALTIME for the simulator, preloaded into simulated processes.
 * While enabled every wall clock read returns the simulator's clock, whatever API is used. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static volatile int enabled = 0;
static volatile long long sec = 0;
static volatile long nsec = 0;
static volatile long long reads = 0;

void sim_clock_set(long long s, long n) { sec = s; nsec = n; enabled = 1; }
void sim_clock_off(void) { enabled = 0; }
long long sim_clock_reads(void) { return reads; }

int clock_gettime(clockid_t id, struct timespec *ts) {
  if (enabled && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    reads++;
    ts->tv_sec = sec;
    ts->tv_nsec = nsec;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts;
  (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
