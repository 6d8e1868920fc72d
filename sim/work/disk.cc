#include "disk.h"
#include "simrt.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace disk {
namespace {
constexpr int FD0 = 1 << 20;
constexpr int MAXH = 64;
struct Handle {
  bool used = false, rd = false, wr = false, app = false;
  std::string path;
  uint64_t pos = 0;
};
struct Tab {
  Handle h[MAXH];
};
Tab& tab() {
  static Tab* t = new Tab;
  return *t;
}
char fake[MAXH]; // the addresses stand for FILE objects
Handle* byFd(int fd) { return fd >= FD0 && fd < FD0 + MAXH && tab().h[fd - FD0].used ? &tab().h[fd - FD0] : nullptr; }
int byFile(FILE* f) {
  auto* p = reinterpret_cast<char*>(f);
  return p >= fake && p < fake + MAXH ? int(p - fake) : -1;
}
bool due(int64_t& n, int64_t* many = nullptr) {
  if (n < 0) return false;
  if (n > 0) {
    --n;
    return false;
  }
  if (many && --*many > 0) return true;
  n = -1;
  return true;
}
void hit(const char* what) {
  ++st().fired;
  sim::ev("fault: %s", what);
  sim::count(what);
}
} // namespace
State& st() {
  static State* s = new State;
  return *s;
}
void calm() {
  auto& s = st();
  s.rough = false;
  s.space = s.eioWrite = s.eioRead = s.eioClose = s.openFail = s.spaceBack = -1;
}
namespace {
/// size as the program sees it
uint64_t sizeOf(const std::string& p) {
  uint64_t n = st().files[p].size();
  if (auto it = st().gaps.find(p); it != st().gaps.end())
    for (auto& g : it->second) n += g.len;
  return n;
}
/// where in the stored bytes an offset is, and how many bytes there are up to the
/// next gap, or (in a gap) up to its end
struct Place {
  uint64_t pos, room;
  bool gap;
};
Place place(const std::string& p, uint64_t off) {
  uint64_t before = 0;
  if (auto it = st().gaps.find(p); it != st().gaps.end())
    for (auto& g : it->second) {
      if (off < g.at) return {off - before, g.at - off, false};
      if (off < g.at + g.len) return {0, g.at + g.len - off, true};
      before += g.len;
    }
  return {off - before, ~uint64_t(0), false};
}
} // namespace
void addGap(const std::string& path, uint64_t len) {
  const uint64_t n = sizeOf(path);
  st().gaps[path].push_back({n, len});
  for (auto& h : tab().h)
    if (h.used && h.path == path && h.pos == n) h.pos += len;
}
int openHandles() {
  int n = 0;
  for (auto& h : tab().h) n += h.used;
  return n;
}
} // namespace disk
using namespace disk;

extern "C" {
FILE* __real_fopen64(const char*, const char*);
FILE* __wrap_fopen64(const char* p, const char* m) {
  if (strncmp(p, "/sim/", 5)) return __real_fopen64(p, m);
  sim::Quiet q;
  auto& s = st();
  if (due(s.openFail)) {
    hit("fault:open fails");
    errno = EACCES;
    return nullptr;
  }
  const bool w = strchr(m, 'w'), a = strchr(m, 'a'), plus = strchr(m, '+');
  if (!w && !a && !s.files.count(p)) {
    errno = ENOENT;
    return nullptr;
  }
  for (int i = 0; i < MAXH; ++i) {
    auto& h = tab().h[i];
    if (h.used) continue;
    h.used = true;
    h.rd = plus || (!w && !a);
    h.wr = plus || w || a;
    h.app = a;
    h.path = p;
    h.pos = 0;
    if (w) s.files[p].clear(), s.gaps.erase(p);
    s.files[p];
    return reinterpret_cast<FILE*>(fake + i);
  }
  errno = EMFILE;
  return nullptr;
}
int __real_fileno(FILE*);
int __wrap_fileno(FILE* f) {
  const int i = byFile(f);
  return i < 0 ? __real_fileno(f) : FD0 + i;
}
int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) {
  const int i = byFile(f);
  if (i < 0) return __real_fclose(f);
  sim::Quiet q;
  auto& h = tab().h[i];
  h.used = false;
  if (h.wr && due(st().eioClose)) {
    hit("fault:close fails");
    errno = EIO;
    return EOF;
  }
  return 0;
}
int __real_fflush(FILE*);
int __wrap_fflush(FILE* f) { return byFile(f) < 0 ? __real_fflush(f) : 0; }
off64_t __real_lseek64(int, off64_t, int);
off64_t __wrap_lseek64(int fd, off64_t o, int wh) {
  Handle* h = byFd(fd);
  if (!h) return __real_lseek64(fd, o, wh);
  const int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)h->pos : (int64_t)sizeOf(h->path);
  if (base + o < 0) {
    errno = EINVAL;
    return -1;
  }
  return h->pos = base + o;
}
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n) {
  Handle* h = byFd(fd);
  if (!h) return __real_read(fd, b, n);
  sim::yield_point();
  sim::Quiet q;
  auto& s = st();
  if (due(s.eioRead)) {
    hit("fault:read fails");
    ++s.firedRead;
    errno = EIO;
    return -1;
  }
  auto& f = s.files[h->path];
  const auto at = place(h->path, h->pos);
  size_t k = at.gap ? std::min<size_t>(n, at.room) : at.pos >= f.size() ? 0 : std::min<size_t>({n, f.size() - at.pos, at.room});
  if (s.rough && k) {
    switch (sim::f(6)) {
    case 4:
      sim::count("fault:read interrupted");
      errno = EINTR;
      return -1;
    case 5:
      if (k > 1) {
        sim::count("fault:short read");
        k = 1 + sim::f(k - 1);
      }
      break;
    }
  }
  if (at.gap) memset(b, 0, k);
  else memcpy(b, f.data() + at.pos, k);
  h->pos += k;
  return k;
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  Handle* h = byFd(fd);
  if (!h) return __real_write(fd, b, n);
  sim::yield_point();
  sim::Quiet q;
  auto& s = st();
  if (due(s.eioWrite, &s.eioWriteN)) {
    hit("fault:write fails");
    errno = EIO;
    return -1;
  }
  if (s.rough && n) {
    switch (sim::f(6)) {
    case 4:
      sim::count("fault:write interrupted");
      errno = EINTR;
      return -1;
    case 5:
      if (n > 1) {
        sim::count("fault:short write");
        n = 1 + sim::f(n - 1);
      }
      break;
    }
  }
  if (s.space >= 0) {
    if (s.space == 0 && n) {
      hit("fault:disk full");
      if (s.spaceBack >= 0 && s.spaceBack-- == 0) s.space = s.spaceBack = -1;
      errno = ENOSPC;
      return -1;
    }
    n = std::min<size_t>(n, s.space);
    s.space -= n;
  }
  auto& f = s.files[h->path];
  if (h->app) h->pos = sizeOf(h->path);
  const auto at = place(h->path, h->pos);
  SIM_CHECK(!at.gap, "overwritten", "a record that was written is overwritten at offset %llu", (unsigned long long)h->pos);
  n = std::min<size_t>(n, at.room);
  if (f.size() < at.pos + n) f.resize(at.pos + n);
  memcpy(f.data() + at.pos, b, n);
  s.log.push_back({h->path, at.pos, n});
  h->pos += n;
  return n;
}
ssize_t __real_writev(int, const iovec*, int);
ssize_t __wrap_writev(int fd, const iovec* v, int c) {
  if (!byFd(fd)) return __real_writev(fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) {
    if (!v[i].iov_len) continue;
    const ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
int __real_fstat64(int, struct stat64*);
int __wrap_fstat64(int fd, struct stat64* b) {
  Handle* h = byFd(fd);
  if (!h) return __real_fstat64(fd, b);
  memset(b, 0, sizeof *b);
  b->st_mode = S_IFREG | 0644;
  b->st_size = sizeOf(h->path);
  return 0;
}
int __real_poll(struct pollfd*, nfds_t, int);
int __wrap_poll(struct pollfd* p, nfds_t n, int t) { return n == 1 && byFd(p->fd) ? 0 : __real_poll(p, n, t); }
int __real_ioctl(int, unsigned long, void*);
int __wrap_ioctl(int fd, unsigned long r, void* a) {
  if (!byFd(fd)) return __real_ioctl(fd, r, a);
  errno = ENOTTY;
  return -1;
}
}
