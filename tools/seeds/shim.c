// Keeps the effects of the demonstration inside its scratch directory ($DEMO_DIR): the model file
// lives there instead of in /tmp, and the real-time set-up only pretends to happen.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static const char *map(const char *p, char *buf) {
  const char *d = getenv("DEMO_DIR");
  if (p && d && strncmp(p, "/tmp/model", 10) == 0) {
    snprintf(buf, 4096, "%s/%s", d, p + 5);
    return buf;
  }
  if (p && d && strcmp(p, "/sys/kernel/realtime") == 0) {
    snprintf(buf, 4096, "%s/realtime", d);
    return buf;
  }
  return p;
}
#define NEXT(n) ((__typeof__(&n))dlsym(RTLD_NEXT, #n))
int open64(const char *p, int f, ...) {
  char b[4096];
  va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a);
  return NEXT(open64)(map(p, b), f, m);
}
int open(const char *p, int f, ...) {
  char b[4096];
  va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a);
  return NEXT(open)(map(p, b), f, m);
}
int rename(const char *x, const char *y) { char b[4096], c[4096]; return NEXT(rename)(map(x, b), map(y, c)); }
int unlink(const char *x) { char b[4096]; return NEXT(unlink)(map(x, b)); }
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict s) { char b[4096]; return NEXT(statx)(d, map(p, b), f, m, s); }
int stat64(const char *restrict p, struct stat64 *restrict s) { char b[4096]; return NEXT(stat64)(map(p, b), s); }
int access(const char *p, int m) { char b[4096]; return NEXT(access)(map(p, b), m); }
void *dlopen(const char *p, int f) { char b[4096]; return NEXT(dlopen)(map(p, b), f); }
int pthread_setschedparam(pthread_t t, int p, const struct sched_param *s) { return getenv("DEMO_NO_RIGHTS") ? EPERM : 0; }
int sched_setscheduler(pid_t t, int p, const struct sched_param *s) { if (getenv("DEMO_NO_RIGHTS")) { errno = EPERM; return -1; } return 0; }
int mlockall(int f) { return 0; }
