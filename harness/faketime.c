/* preload: a different clock and process id for every run (FT_SALT) */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
static long salt(void) { static long s, n; if (!s) { char *e = getenv("FT_SALT"); s = e ? atol(e) : 1; } return s*7919 + (n += 13 + s % 17); }
int gettimeofday(struct timeval *tv, void *tz) { (void)tz; long x = salt(); tv->tv_sec = 1000000000 + x*31; tv->tv_usec = (x*997) % 1000000; return 0; }
time_t time(time_t *t) { time_t v = 1000000000 + salt()*31; if (t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec *ts) { (void)c; long x = salt(); ts->tv_sec = 1000000000 + x; ts->tv_nsec = (x*997) % 1000000000; return 0; }
clock_t clock(void) { return salt()*1000; }
pid_t getpid(void) { return 2 + (pid_t)(salt() % 30000); }
