/* LD_PRELOAD stand-in: shifts the wall clock seen by a process by MC_CLOCK_SHIFT seconds (nothing else is touched) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static long long shift(void) { const char *s = getenv("MC_CLOCK_SHIFT"); return s ? atoll(s) : 0; }

int clock_gettime(clockid_t id, struct timespec *t)
{
	static int (*real)(clockid_t, struct timespec *);
	if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
	int r = real(id, t);
	if (!r && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) t->tv_sec += shift();
	return r;
}
int gettimeofday(struct timeval *t, void *z)
{
	struct timespec s;
	int r = clock_gettime(CLOCK_REALTIME, &s);
	if (!r && t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; }
	return r;
}
time_t time(time_t *t)
{
	struct timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	if (t) *t = s.tv_sec;
	return s.tv_sec;
}
