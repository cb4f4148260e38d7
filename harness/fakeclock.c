/* A virtual clock: time stands still except that sleeping moves it on.  FAKE_START_US is the time at start. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/select.h>
#include <poll.h>
#include <unistd.h>
#include <stdlib.h>
static long long now_us = -1;
static long long now(void) {
    if (now_us < 0) { const char *c = getenv("FAKE_START_US"); now_us = c ? atoll(c) : 1700000000000000LL; }
    return now_us;
}
int gettimeofday(struct timeval *tv, void *tz) { if (tv) { tv->tv_sec = now() / 1000000; tv->tv_usec = now() % 1000000; } return 0; }
time_t time(time_t *t) { time_t s = now() / 1000000; if (t) *t = s; return s; }
int clock_gettime(clockid_t id, struct timespec *ts) { ts->tv_sec = now() / 1000000; ts->tv_nsec = now() % 1000000 * 1000; return 0; }
int usleep(useconds_t us) { now(); now_us += us; return 0; }
unsigned sleep(unsigned s) { now(); now_us += s * 1000000LL; return 0; }
int nanosleep(const struct timespec *r, struct timespec *m) { now(); now_us += r->tv_sec * 1000000LL + r->tv_nsec / 1000; if (m) m->tv_sec = m->tv_nsec = 0; return 0; }
int clock_nanosleep(clockid_t id, int fl, const struct timespec *r, struct timespec *m) {
    long long t = r->tv_sec * 1000000LL + r->tv_nsec / 1000;
    now(); if (fl & TIMER_ABSTIME) { if (t > now_us) now_us = t; } else now_us += t; return 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { now(); if (tv) now_us += tv->tv_sec * 1000000LL + tv->tv_usec; if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); return 0; }
