// The simulated system below the code generator: every file operation of the Python process below two directories goes
// through here, is numbered, and may fail, be cut short, or be the last thing the process does. Processes that run at
// the same time take turns at these operations, in an order that is part of the plan. Randomness comes from the plan,
// and the clock is a counter. Loaded with LD_PRELOAD; does nothing until gs_arm is called.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum Kind { OPENR, OPENW, READ, WRITE, CLOSER, CLOSEW, MKDIR, RENAME, UNLINK, TRUNC, SYNC, NKIND };
enum Action { ERR = 1, SHORT, CRASH, TORN };

struct Fault {
  int32_t kind, nth, action, err, arg, times; // kind -1: any; nth counts from 0; arg: part of a write that happens, of 256
};
struct Log {
  uint8_t kind, result; // result: 0 fine, 1 error, 2 short, 3 end
  int16_t err;
  int32_t len;
  char path[120];
};
enum { MAXLOG = 6000, MAXF = 16, MAXS = 8192, MAXP = 2 };
struct Proc {
  int32_t nfaults, nlog, ended;
  int32_t count[NKIND], total, fired;
  int64_t space; // bytes that may still be written; -1: enough
  struct Fault f[MAXF];
  struct Log log[MAXLOG];
};
struct Shared {
  sem_t sem[MAXP];
  int32_t nproc, pos, nsched, switches;
  uint8_t sched[MAXS];
  struct Proc p[MAXP];
};

static struct Shared* S;
static struct Proc* P;
static int me = -1;
static pid_t self;
static char root[2][PATH_MAX];
static size_t rootlen[2];
static uint64_t rng, ticks, lead;
enum { MAXFD = 1024 };
static char* fdpath[MAXFD];
static uint8_t fdw[MAXFD];

#define REAL(ret, name, ...) \
  static ret (*real)(__VA_ARGS__); \
  if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name);

void* gs_shared(void) {
  if (!S) S = mmap(0, sizeof(struct Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return S;
}
void gs_reset(int nproc, const uint8_t* sched, int n) {
  gs_shared();
  memset(S, 0, sizeof(struct Shared));
  for (int i = 0; i < MAXP; ++i) sem_init(&S->sem[i], 1, 0), S->p[i].space = -1;
  S->nproc = nproc;
  S->nsched = n > MAXS ? MAXS : n;
  memcpy(S->sched, sched, S->nsched);
}
void gs_plan(int i, const int32_t* f, int n, int64_t space) {
  S->p[i].nfaults = n > MAXF ? MAXF : n;
  memcpy(S->p[i].f, f, S->p[i].nfaults * sizeof(struct Fault));
  S->p[i].space = space;
}
int gs_nlog(int i) { return S->p[i].nlog; }
struct Log* gs_log(int i, int k) { return &S->p[i].log[k]; }
int gs_total(int i) { return S->p[i].total; }
int gs_fired(int i) { return S->p[i].fired; }
int gs_count(int i, int k) { return S->p[i].count[k]; }
int gs_switches(void) { return S->switches; }
void gs_start(int i) { sem_post(&S->sem[i]); }
// the parent: process i is gone, another one goes on
void gs_ended(int i) {
  S->p[i].ended = 1;
  for (int k = 0; k < S->nproc; ++k)
    if (!S->p[k].ended) {
      sem_post(&S->sem[k]);
      return;
    }
}
// the child
void gs_arm(int i, const char* a, const char* b, uint64_t seed, uint64_t clock) {
  const char* r[2] = {a, b};
  for (int k = 0; k < 2; ++k) {
    snprintf(root[k], PATH_MAX, "%s", r[k]);
    rootlen[k] = strlen(root[k]);
  }
  self = getpid();
  rng = seed * 2 + 1;
  lead = clock;
  while (sem_wait(&S->sem[i]) && errno == EINTR) {}
  me = i;
  P = &S->p[i];
}

static int under(int dirfd, const char* path, char* out) {
  if (me < 0 || !path || getpid() != self) return 0;
  char tmp[2 * PATH_MAX];
  if (path[0] == '/')
    snprintf(tmp, sizeof tmp, "%s", path);
  else if (dirfd == AT_FDCWD) {
    char cwd[PATH_MAX];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    snprintf(tmp, sizeof tmp, "%s/%s", cwd, path);
  } else {
    char link[64], dir[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
    ssize_t n = readlink(link, dir, sizeof dir - 1);
    if (n < 0) return 0;
    dir[n] = 0;
    snprintf(tmp, sizeof tmp, "%s/%s", dir, path);
  }
  // without . and .. and //
  char* o = out;
  for (char* s = tmp; *s;) {
    while (*s == '/') ++s;
    char* e = s;
    while (*e && *e != '/') ++e;
    size_t n = e - s;
    if (!n || (n == 1 && s[0] == '.')) {
    } else if (n == 2 && s[0] == '.' && s[1] == '.') {
      while (o > out && *--o != '/') {}
    } else {
      *o++ = '/';
      memcpy(o, s, n);
      o += n;
    }
    s = e;
  }
  *o = 0;
  for (int k = 0; k < 2; ++k)
    if (!strncmp(out, root[k], rootlen[k]) && (out[rootlen[k]] == '/' || !out[rootlen[k]])) {
      memmove(out, out + rootlen[k], strlen(out + rootlen[k]) + 1);
      return 1 + k;
    }
  return 0;
}

static struct Log* note(int kind, const char* path) {
  static struct Log overflow;
  struct Log* l = P->nlog < MAXLOG ? &P->log[P->nlog++] : &overflow;
  l->kind = kind;
  l->result = 0;
  l->err = 0;
  l->len = 0;
  size_t n = strlen(path);
  snprintf(l->path, sizeof l->path, "%s", n < sizeof l->path ? path : path + n - sizeof l->path + 1);
  return l;
}

static void turn(void) {
  if (S->nproc < 2 || S->pos >= S->nsched) return;
  int to = S->sched[S->pos++] % S->nproc;
  if (to == me || S->p[to].ended) return;
  S->switches++;
  sem_post(&S->sem[to]);
  while (sem_wait(&S->sem[me]) && errno == EINTR) {}
}

// what happens to this operation: 0 nothing special, otherwise the action
static int fate(int kind, struct Log* l, int* arg) {
  int act = 0;
  for (int i = 0; i < P->nfaults; ++i) {
    struct Fault* f = &P->f[i];
    if (f->kind >= 0 && f->kind != kind) continue;
    int at = f->kind < 0 ? P->total : P->count[kind];
    if (at < f->nth || at >= f->nth + f->times) continue;
    if ((f->action == SHORT || f->action == TORN) && kind != WRITE && !(f->action == SHORT && kind == READ)) {
      if (f->action == SHORT) continue;
    }
    act = f->action;
    *arg = f->arg;
    l->err = f->err;
    P->fired++;
    break;
  }
  P->count[kind]++;
  if (++P->total > 100000) _exit(99); // goes on for ever
  if (act == CRASH || (act == TORN && kind != WRITE)) {
    l->result = 3;
    _exit(137);
  }
  if (act == ERR) l->result = 1;
  return act;
}

static int begin(int kind, const char* path, struct Log** l) {
  turn();
  *l = note(kind, path);
  int arg;
  if (fate(kind, *l, &arg) == ERR) {
    errno = (*l)->err;
    return -1;
  }
  return 0;
}

static int done(int r, struct Log* l) {
  if (r < 0) {
    int e = errno;
    l->result = 1;
    l->err = e;
    errno = e;
  }
  return r;
}

static int do_open(int (*real)(int, const char*, int, ...), int dirfd, const char* path, int flags, mode_t mode) {
  char p[2 * PATH_MAX];
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!under(dirfd, path, p) || (flags & O_DIRECTORY)) return real(dirfd, path, flags, mode);
  struct Log* l;
  if (begin(w ? OPENW : OPENR, p, &l)) return -1;
  int fd = done(real(dirfd, path, flags, mode), l);
  if (fd >= 0 && fd < MAXFD) {
    free(fdpath[fd]);
    fdpath[fd] = strdup(p);
    fdw[fd] = w;
  }
  return fd;
}
#define MODE \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { \
    va_list ap; \
    va_start(ap, flags); \
    mode = va_arg(ap, mode_t); \
    va_end(ap); \
  }
#define RO REAL(int, "openat64", int, const char*, int, ...)
int open(const char* path, int flags, ...) { RO MODE return do_open(real, AT_FDCWD, path, flags, mode); }
int open64(const char* path, int flags, ...) { RO MODE return do_open(real, AT_FDCWD, path, flags, mode); }
int openat(int d, const char* path, int flags, ...) { RO MODE return do_open(real, d, path, flags, mode); }
int openat64(int d, const char* path, int flags, ...) { RO MODE return do_open(real, d, path, flags, mode); }
int creat(const char* path, mode_t mode) { RO return do_open(real, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static const char* tracked(int fd) { return me >= 0 && fd >= 0 && fd < MAXFD && fdpath[fd] && getpid() == self ? fdpath[fd] : 0; }

int close(int fd) {
  REAL(int, "close", int)
  const char* p = tracked(fd);
  if (!p) return real(fd);
  struct Log* l;
  int bad = begin(fdw[fd] ? CLOSEW : CLOSER, p, &l), e = errno;
  free(fdpath[fd]);
  fdpath[fd] = 0;
  int r = real(fd);
  if (bad) errno = e;
  return bad ? -1 : r;
}

// how much of a write happens; -1: none, with errno
static ssize_t allowed(int fd, size_t n, struct Log** l) {
  turn();
  *l = note(WRITE, fdpath[fd]);
  (*l)->len = n;
  int arg = 0, act = fate(WRITE, *l, &arg);
  if (act == ERR) {
    errno = (*l)->err;
    return -1;
  }
  size_t m = n;
  if (act == SHORT || act == TORN) m = n * arg / 256;
  if (act == SHORT && !m) m = 1;
  if (m > n) m = n;
  if (act == SHORT && m < n) (*l)->result = 2, (*l)->len = m;
  if (act == TORN) (*l)->result = 3, (*l)->len = m;
  if (P->space >= 0 && (int64_t)m > P->space) {
    m = P->space;
    P->fired++;
    (*l)->result = m ? 2 : 1;
    (*l)->len = m;
    if (!m) {
      (*l)->err = errno = ENOSPC;
      return -1;
    }
  }
  if (P->space >= 0) P->space -= m;
  return m;
}

ssize_t write(int fd, const void* b, size_t n) {
  REAL(ssize_t, "write", int, const void*, size_t)
  if (!tracked(fd)) return real(fd, b, n);
  struct Log* l;
  ssize_t m = allowed(fd, n, &l);
  if (m < 0) return m;
  ssize_t r = m || !n ? real(fd, b, m) : 0;
  if (l->result == 3) _exit(137);
  return r;
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) {
  REAL(ssize_t, "pwrite64", int, const void*, size_t, off64_t)
  if (!tracked(fd)) return real(fd, b, n, o);
  struct Log* l;
  ssize_t m = allowed(fd, n, &l);
  if (m < 0) return m;
  ssize_t r = real(fd, b, m, o);
  if (l->result == 3) _exit(137);
  return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int n) {
  REAL(ssize_t, "writev", int, const struct iovec*, int)
  if (!tracked(fd) || n < 1) return real(fd, v, n);
  return write(fd, v[0].iov_base, v[0].iov_len); // a short write
}
ssize_t read(int fd, void* b, size_t n) {
  REAL(ssize_t, "read", int, void*, size_t)
  if (!tracked(fd)) return real(fd, b, n);
  turn();
  struct Log* l = note(READ, fdpath[fd]);
  int arg = 0, act = fate(READ, l, &arg);
  if (act == ERR) {
    errno = l->err;
    return -1;
  }
  if (act == SHORT && n > 1) {
    n = n * arg / 256;
    if (!n) n = 1;
    l->result = 2;
  }
  ssize_t r = real(fd, b, n);
  l->len = r;
  return r;
}
// not offered by this system: callers fall back to read and write
ssize_t sendfile64(int o, int i, off64_t* off, size_t n) {
  REAL(ssize_t, "sendfile64", int, int, off64_t*, size_t)
  if (!tracked(o) && !tracked(i)) return real(o, i, off, n);
  errno = ENOSYS;
  return -1;
}
ssize_t sendfile(int o, int i, off_t* off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t* io, int o, off64_t* oo, size_t n, unsigned f) {
  REAL(ssize_t, "copy_file_range", int, off64_t*, int, off64_t*, size_t, unsigned)
  if (!tracked(o) && !tracked(i)) return real(i, io, o, oo, n, f);
  errno = ENOSYS;
  return -1;
}

#define PATHOP(kind, dirfd, path, call) \
  char p[2 * PATH_MAX]; \
  if (!under(dirfd, path, p)) return call; \
  struct Log* l; \
  if (begin(kind, p, &l)) return -1; \
  return done(call, l);
int mkdir(const char* path, mode_t m) { REAL(int, "mkdir", const char*, mode_t) PATHOP(MKDIR, AT_FDCWD, path, real(path, m)) }
int mkdirat(int d, const char* path, mode_t m) { REAL(int, "mkdirat", int, const char*, mode_t) PATHOP(MKDIR, d, path, real(d, path, m)) }
int unlink(const char* path) { REAL(int, "unlink", const char*) PATHOP(UNLINK, AT_FDCWD, path, real(path)) }
int unlinkat(int d, const char* path, int f) { REAL(int, "unlinkat", int, const char*, int) PATHOP(UNLINK, d, path, real(d, path, f)) }
int rmdir(const char* path) { REAL(int, "rmdir", const char*) PATHOP(UNLINK, AT_FDCWD, path, real(path)) }
int rename(const char* a, const char* b) { REAL(int, "rename", const char*, const char*) PATHOP(RENAME, AT_FDCWD, b, real(a, b)) }
int renameat(int da, const char* a, int db, const char* b) { REAL(int, "renameat", int, const char*, int, const char*) PATHOP(RENAME, db, b, real(da, a, db, b)) }
int link(const char* a, const char* b) { REAL(int, "link", const char*, const char*) PATHOP(RENAME, AT_FDCWD, b, real(a, b)) }
int linkat(int da, const char* a, int db, const char* b, int f) { REAL(int, "linkat", int, const char*, int, const char*, int) PATHOP(RENAME, db, b, real(da, a, db, b, f)) }
int truncate64(const char* path, off64_t n) { REAL(int, "truncate64", const char*, off64_t) PATHOP(TRUNC, AT_FDCWD, path, real(path, n)) }
int truncate(const char* path, off_t n) { return truncate64(path, n); }
#define FDOP(kind, fd, call) \
  if (!tracked(fd)) return call; \
  struct Log* l; \
  if (begin(kind, fdpath[fd], &l)) return -1; \
  return done(call, l);
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t) FDOP(TRUNC, fd, real(fd, n)) }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) { REAL(int, "fsync", int) FDOP(SYNC, fd, real(fd)) }
int fdatasync(int fd) { REAL(int, "fdatasync", int) FDOP(SYNC, fd, real(fd)) }

ssize_t getrandom(void* b, size_t n, unsigned f) {
  REAL(ssize_t, "getrandom", void*, size_t, unsigned)
  if (me < 0) return real(b, n, f);
  for (size_t i = 0; i < n; ++i) {
    rng = rng * 6364136223846793005ull + 1442695040888963407ull;
    ((uint8_t*)b)[i] = rng >> 56;
  }
  return n;
}
int clock_gettime(clockid_t c, struct timespec* t) {
  REAL(int, "clock_gettime", clockid_t, struct timespec*)
  if (me < 0) return real(c, t);
  uint64_t us = ++ticks * 50;
  t->tv_sec = 1000000 + lead + us / 1000000;
  t->tv_nsec = us % 1000000 * 1000;
  return 0;
}
time_t time(time_t* o) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval* restrict tv, void* restrict z) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
