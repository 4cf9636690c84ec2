/* LD_PRELOAD fault injector: every stdio stream becomes a cookie stream over the real file, each primitive operation (open, read, write, seek,
   close) is numbered, and operation FAULT_N fails (with FAULT_STICKY: and all later ones of its kind on the same file).
   FAULT_ERR: errno of a failing open.  FAULT_BUF: buffer size, so that short outputs have several write operations too.
   FAULT_STDOUT: standard output counts as a file.  FAULT_LOG: where to list the operations. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static int inited, n, fail_n = -1, fail_n2 = -1, sticky, bufsize, ferr = ENOENT, logfd = -1, hit;
static char hit_path[512], hit_kind;

static void init(void) {
  char *e;
  if (inited) return;
  inited = 1;
  if ((e = getenv("FAULT_N"))) fail_n = atoi(e);
  if ((e = getenv("FAULT_N2"))) fail_n2 = atoi(e);
  if ((e = getenv("FAULT_STICKY"))) sticky = atoi(e);
  if ((e = getenv("FAULT_BUF"))) bufsize = atoi(e);
  if ((e = getenv("FAULT_ERR"))) ferr = atoi(e);
  if ((e = getenv("FAULT_LOG"))) logfd = open(e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}

static int op(char kind, const char *path, const char *mode) {
  int k;
  if (kind == 's' && !strcmp(path, "<tmp>")) return 0;         /* the assembler's own temporary file cannot become unseekable */
  k = n++;
  if (logfd >= 0) dprintf(logfd, "%d\t%c\t%s\t%s\n", k, kind, mode, path);
  if (k == fail_n) {
    hit = 1; hit_kind = kind; snprintf(hit_path, sizeof(hit_path), "%s", path);
    return 1;
  }
  if (k == fail_n2) return 1;
  return sticky && hit && kind == hit_kind && !strcmp(path, hit_path);
}

struct ck { int fd; char path[512]; char mode[8]; };

static ssize_t c_read(void *c, char *b, size_t s) {
  struct ck *k = c;
  if (op('r', k->path, k->mode)) { errno = EIO; return -1; }
  return read(k->fd, b, s);
}
static ssize_t c_write(void *c, const char *b, size_t s) {
  struct ck *k = c; size_t d = 0;
  if (op('w', k->path, k->mode)) { errno = ENOSPC; return 0; }
  while (d < s) {
    ssize_t r = write(k->fd, b + d, s - d);
    if (r < 0) return 0;
    d += r;
  }
  return (ssize_t)d;
}
static int c_seek(void *c, off64_t *o, int w) {
  struct ck *k = c; off64_t r;
  if (op('s', k->path, k->mode)) { errno = EIO; return -1; }
  r = lseek64(k->fd, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int c_close(void *c) {
  struct ck *k = c; int bad = op('c', k->path, k->mode);
  if (k->fd > 2) close(k->fd);
  free(k);
  if (bad) { errno = EIO; return -1; }
  return 0;
}

static FILE *make(int fd, const char *path, const char *mode) {
  cookie_io_functions_t io;
  struct ck *k = calloc(1, sizeof(*k)); FILE *f;
  k->fd = fd;
  snprintf(k->path, sizeof(k->path), "%s", path);
  snprintf(k->mode, sizeof(k->mode), "%s", mode);
  io.read = c_read; io.write = c_write; io.seek = c_seek; io.close = c_close;
  f = fopencookie(k, mode, io);
  if (f && bufsize) setvbuf(f, malloc(bufsize), _IOFBF, bufsize);      /* (never freed: the process is short) */
  return f;
}

FILE *fopen(const char *path, const char *mode) {
  int fl, fd;
  init();
  if (op('o', path, mode)) { errno = ferr; return NULL; }
  fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
  if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC;
  if (mode[0] == 'a') fl |= O_CREAT | O_APPEND;
  fd = open(path, fl, 0666);
  if (fd < 0) return NULL;
  return make(fd, path, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
FILE *tmpfile(void) {
  static char t[] = "./.tmpXXXXXX";
  int fd; char name[32];
  init();
  if (op('o', "<tmp>", "w+b")) { errno = ferr; return NULL; }
  strcpy(name, t);
  fd = mkstemp(name);
  if (fd < 0) return NULL;
  unlink(name);
  return make(fd, "<tmp>", "w+");
}
FILE *tmpfile64(void) { return tmpfile(); }

__attribute__((constructor)) static void start(void) {
  init();
  if (getenv("FAULT_STDOUT")) stdout = make(1, "<stdout>", "w");
}
__attribute__((destructor)) static void end(void) {
  if (getenv("FAULT_STDOUT")) fflush(stdout);
}
