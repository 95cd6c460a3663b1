/* Preloaded into brack: counts the calls that change the file system below VH_FAULT_ROOT and, at
   the VH_FAULT_AT-th, fails as VH_FAULT_KIND says: kill, kill-half (a write of half the bytes,
   then the end), enospc (half the bytes are written, all later writes fail), eio, pause (until the
   file VH_FAULT_GO is there), pause-half (within a write). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static long count;
static int full;
static const char *root(void) { return getenv("VH_FAULT_ROOT"); }
static long at(void) { const char *s = getenv("VH_FAULT_AT"); return s ? atol(s) : 0; }
static const char *kind(void) { const char *s = getenv("VH_FAULT_KIND"); return s ? s : ""; }

static void note(void) {
  const char *f = getenv("VH_FAULT_COUNT");
  if (!f) return;
  int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
  ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  int fd = o(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) return;
  char b[32];
  int n = snprintf(b, sizeof b, "%ld", count);
  if (w(fd, b, n) < 0) {}
  close(fd);
}

static int below(const char *p) {
  char b[PATH_MAX * 2];
  const char *r = root();
  if (!r || !p) return 0;
  if (p[0] == '/') snprintf(b, sizeof b, "%s", p);
  else {
    if (!getcwd(b, PATH_MAX)) return 0;
    size_t n = strlen(b);
    snprintf(b + n, sizeof b - n, "/%s", p);
  }
  size_t n = strlen(r);
  return strncmp(b, r, n) == 0 && (b[n] == '/' || !b[n]);
}

static int fd_below(int fd) {
  char l[64], p[PATH_MAX];
  struct stat st;
  if (fd <= 2 || fstat(fd, &st) || !S_ISREG(st.st_mode)) return 0;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, p, sizeof p - 1);
  if (n < 0) return 0;
  p[n] = 0;
  return below(p);
}

/* says that it waits by the file VH_FAULT_GO.at, and goes on once VH_FAULT_GO is there */
static void wait_for_go(void) {
  const char *f = getenv("VH_FAULT_GO");
  char b[PATH_MAX];
  if (!f) return;
  int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
  snprintf(b, sizeof b, "%s.at", f);
  int fd = o(b, O_WRONLY | O_CREAT, 0600);
  if (fd >= 0) close(fd);
  for (int i = 0; i < 25000 && access(f, F_OK); i++) usleep(1000);
}

/* 1 if this call has to fail */
static int hit(void) {
  count++;
  note();
  if (count != at()) return 0;
  if (!strcmp(kind(), "pause")) { wait_for_go(); return 0; }
  if (!strcmp(kind(), "pause-half")) return 1;
  if (!strncmp(kind(), "kill", 4)) return 1;
  errno = !strcmp(kind(), "eio") ? EIO : ENOSPC;
  return 1;
}
static int now(void) {
  if (!hit()) return 0;
  if (!strcmp(kind(), "pause-half")) { wait_for_go(); return 0; }
  if (!strncmp(kind(), "kill", 4)) raise(SIGKILL);
  return 1;
}

static ssize_t wr(int fd, const void *b, size_t n, ssize_t (*f)(int, const void *, size_t)) {
  if (!fd_below(fd)) return f(fd, b, n);
  if (full) { errno = ENOSPC; return -1; }
  if (!hit()) return f(fd, b, n);
  if (!strcmp(kind(), "pause-half")) {
    if (n < 2) { wait_for_go(); return f(fd, b, n); }
    ssize_t k = f(fd, b, n / 2);
    wait_for_go();
    return k;
  }
  if (!strcmp(kind(), "kill")) raise(SIGKILL);
  if (!strcmp(kind(), "kill-half")) { if (f(fd, b, n / 2) < 0) {} raise(SIGKILL); }
  if (!strcmp(kind(), "enospc")) { full = 1; if (n > 1) return f(fd, b, n / 2); errno = ENOSPC; }
  return -1;
}
ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n, dlsym(RTLD_NEXT, "write")); }

#define OPEN(name) \
  int name(const char *p, int fl, ...) { \
    va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); \
    int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, #name); \
    if ((fl & O_ACCMODE) != O_RDONLY && below(p) && now()) return -1; \
    return f(p, fl, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
  int name(int d, const char *p, int fl, ...) { \
    va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); \
    int (*f)(int, const char *, int, ...) = dlsym(RTLD_NEXT, #name); \
    if ((fl & O_ACCMODE) != O_RDONLY && below(p) && now()) return -1; \
    return f(d, p, fl, m); }
OPENAT(openat)
OPENAT(openat64)
int rename(const char *p, const char *q) {
  int (*f)(const char *, const char *) = dlsym(RTLD_NEXT, "rename");
  if (below(q) && now()) return -1;
  return f(p, q);
}
int mkdir(const char *p, mode_t m) {
  int (*f)(const char *, mode_t) = dlsym(RTLD_NEXT, "mkdir");
  if (below(p) && now()) return -1;
  return f(p, m);
}
int unlink(const char *p) {
  int (*f)(const char *) = dlsym(RTLD_NEXT, "unlink");
  if (below(p) && !strncmp(kind(), "kill", 4) && now()) return -1;
  return f(p);
}
int ftruncate(int fd, off_t n) {
  int (*f)(int, off_t) = dlsym(RTLD_NEXT, "ftruncate");
  if (fd_below(fd) && now()) return -1;
  return f(fd, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
  ssize_t (*f)(int, off64_t *, int, off64_t *, size_t, unsigned) = dlsym(RTLD_NEXT, "copy_file_range");
  if (fd_below(o) && now()) return -1;
  return f(i, io, o, oo, n, fl);
}
