// Preloaded into idlc by C13: another time of day and another host.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <time.h>

static long long shift(void) {
  const char *s = getenv("ELSEWHERE_SHIFT");
  return s ? atoll(s) : 0;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  static int (*real)(clockid_t, struct timespec *);
  if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
  int r = real(id, ts);
  if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) ts->tv_sec += shift();
  return r;
}

int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts;
  (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

int gethostname(char *name, size_t len) {
  strncpy(name, "elsewhere", len);
  return 0;
}

int uname(struct utsname *u) {
  memset(u, 0, sizeof *u);
  strcpy(u->sysname, "Linux");
  strcpy(u->nodename, "elsewhere");
  strcpy(u->release, "4.4.0");
  strcpy(u->version, "#1");
  strcpy(u->machine, "x86_64");
  return 0;
}
