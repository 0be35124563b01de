/* LD_PRELOAD shim: counts the operations that change files below CRASHSHIM_ROOT, over all processes that share the state
 * file CRASHSHIM_STATE, and at the chosen one kills the process group (before it, or half way through a write) or lets it fail.
 * It only acts while armed; the harness arms it around runs that lead their own process group. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

struct state {
  volatile int64_t count;
  volatile int64_t armed;
  volatile int64_t at;     /* 1-based number of the operation */
  volatile int64_t mode;   /* 0 kill before, 1 kill after half of a write, 2 fail with err */
  volatile int64_t err;
  volatile int64_t fired;
  volatile int64_t kind;   /* of the operation hit */
  char path[512];
};

static struct state *st;
static char root[4096];
static size_t rootlen;
static unsigned char tracked[4096];
static int ready;

#define REAL(name) ((__typeof__(&name))real(#name))

static void *real(const char *name) { return dlsym(RTLD_NEXT, name); }

static void init(void) {
  if (ready) return;
  ready = 1;
  const char *r = getenv("CRASHSHIM_ROOT"), *s = getenv("CRASHSHIM_STATE");
  if (!r || !s) return;
  strncpy(root, r, sizeof root - 1);
  rootlen = strlen(root);
  int (*ropen)(const char *, int, ...) = (int (*)(const char *, int, ...))real("open");
  int fd = ropen(s, O_RDWR | O_CLOEXEC);
  if (fd < 0) return;
  void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  int (*rclose)(int) = (int (*)(int))real("close");
  rclose(fd);
  if (p != MAP_FAILED) st = p;
}

static int under(const char *path) {
  init();
  if (!st || !path) return 0;
  char buf[4096];
  if (path[0] != '/') {
    if (!getcwd(buf, sizeof buf)) return 0;
    return strncmp(buf, root, rootlen) == 0;
  }
  return strncmp(path, root, rootlen) == 0 && strcmp(path + rootlen, "/crashshim.state") != 0;
}

/* -> 1: this operation has to fail with errno set; 2: torn write; 0: go on */
static int step(int kind, const char *path) {
  if (!st || !st->armed) return 0;
  int64_t n = __sync_add_and_fetch(&st->count, 1);
  if (n != st->at) return 0;
  st->kind = kind;
  if (path) {
    strncpy(st->path, path, sizeof st->path - 1);
    st->path[sizeof st->path - 1] = 0;
  }
  __sync_add_and_fetch(&st->fired, 1);
  if (st->mode == 2) {
    errno = (int)st->err;
    return 1;
  }
  if (st->mode == 1 && kind == 2) return 2;
  kill(0, SIGKILL);
  for (;;) pause();
}

static void fdpath(int fd, char *buf, size_t n) {
  char p[64];
  snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(p, buf, n - 1);
  buf[k > 0 ? k : 0] = 0;
}

static int writing(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT); }

static int do_open(const char *name, int at, int dir, const char *path, int flags, mode_t mode) {
  init();
  int mine = writing(flags) && under(path);
  if (mine && step(1, path)) return -1;
  int fd;
  if (at) fd = ((int (*)(int, const char *, int, ...))real(name))(dir, path, flags, mode);
  else fd = ((int (*)(const char *, int, ...))real(name))(path, flags, mode);
  if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = mine;
  return fd;
}

#define MODE(last) mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, last); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE(flags) return do_open("open", 0, 0, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return do_open("open64", 0, 0, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(flags) return do_open("openat", 1, dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(flags) return do_open("openat64", 1, dir, path, flags, mode); }

int close(int fd) {
  if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 0;
  return ((int (*)(int))real("close"))(fd);
}

ssize_t write(int fd, const void *buf, size_t n) {
  ssize_t (*rwrite)(int, const void *, size_t) = (ssize_t(*)(int, const void *, size_t))real("write");
  if (fd >= 0 && fd < (int)sizeof tracked && tracked[fd] && st && st->armed) {
    char p[512];
    fdpath(fd, p, sizeof p);
    int r = step(2, p);
    if (r == 1) return -1;
    if (r == 2) {
      rwrite(fd, buf, n / 2);
      kill(0, SIGKILL);
      for (;;) pause();
    }
  }
  return rwrite(fd, buf, n);
}

int rename(const char *a, const char *b) {
  if ((under(a) || under(b)) && step(3, b)) return -1;
  return ((int (*)(const char *, const char *))real("rename"))(a, b);
}
int renameat(int da, const char *a, int db, const char *b) {
  if ((under(a) || under(b)) && step(3, b)) return -1;
  return ((int (*)(int, const char *, int, const char *))real("renameat"))(da, a, db, b);
}
int unlink(const char *a) {
  if (under(a) && step(4, a)) return -1;
  return ((int (*)(const char *))real("unlink"))(a);
}
int unlinkat(int d, const char *a, int f) {
  char p[512] = "";
  if (a[0] != '/' && d >= 0) fdpath(d, p, sizeof p);
  if ((a[0] == '/' ? under(a) : d >= 0 ? under(p) : under(a)) && step(4, a)) return -1;
  return ((int (*)(int, const char *, int))real("unlinkat"))(d, a, f);
}
int mkdir(const char *a, mode_t m) {
  if (under(a) && step(5, a)) return -1;
  return ((int (*)(const char *, mode_t))real("mkdir"))(a, m);
}
int rmdir(const char *a) {
  if (under(a) && step(6, a)) return -1;
  return ((int (*)(const char *))real("rmdir"))(a);
}
static int do_ftruncate(const char *name, int fd, off_t n) {
  if (fd >= 0 && fd < (int)sizeof tracked && tracked[fd]) {
    char p[512];
    fdpath(fd, p, sizeof p);
    if (step(7, p)) return -1;
  }
  return ((int (*)(int, off_t))real(name))(fd, n);
}
int ftruncate(int fd, off_t n) { return do_ftruncate("ftruncate", fd, n); }
int ftruncate64(int fd, off_t n) { return do_ftruncate("ftruncate64", fd, n); }
