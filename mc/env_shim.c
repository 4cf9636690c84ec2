/* LD_PRELOAD shim: the clock and the process number come from SHIM_TIME and SHIM_PID; fresh memory (malloc, realloc) is filled with SHIM_FILL. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long val(const char *n, long d) { char *e = getenv(n); return e ? atol(e) : d; }

time_t time(time_t *t) { time_t v = (time_t)val("SHIM_TIME", 0); if (t) *t = v; return v; }
int gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = val("SHIM_TIME", 0); tv->tv_usec = 0; return 0; }
pid_t getpid(void) { return (pid_t)val("SHIM_PID", 1); }

extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
static int fill = -1;
void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  if (fill < 0) { fill = 256; fill = (int)val("SHIM_FILL", 256); }
  if (p && fill < 256) memset(p, fill, n);
  return p;
}
void *realloc(void *o, size_t n) {
  size_t had = o ? malloc_usable_size(o) : 0; void *p;
  p = __libc_realloc(o, n);
  if (fill < 0) { fill = 256; fill = (int)val("SHIM_FILL", 256); }
  if (p && fill < 256 && n > had) memset((char *)p + had, fill, n - had);
  return p;
}
