// The C library's glob, looking at the simulated disk
#include "globdisk.h"
#include "disk.h"
#include "simrt.h"
#include <cerrno>
#include <cstring>
#include <dirent.h>
#include <functional>
#include <glob.h>
#include <sys/stat.h>

namespace globdisk {
std::set<std::string>& closed() {
  static auto* s = new std::set<std::string>;
  return *s;
}
int& nospace() {
  static int n = -1;
  return n;
}
} // namespace globdisk
namespace {
std::string norm(const char* p) {
  std::string s;
  for (; *p; ++p)
    if (!(*p == '/' && !s.empty() && s.back() == '/')) s += *p;
  while (s.size() > 1 && s.back() == '/') s.pop_back();
  return s;
}
bool isDir(const std::string& d) {
  if (d == "/") return true;
  for (auto& [n, _] : disk::st().files)
    if (!n.compare(0, d.size(), d) && n.size() > d.size() && n[d.size()] == '/') return true;
  return d == "/sim";
}
struct Dir {
  std::set<std::string, std::greater<>> names; // not in the order that users see
  std::set<std::string, std::greater<>>::iterator it;
  dirent e;
};
void* odir(const char* p) {
  const auto d = norm(p);
  if (!isDir(d)) {
    errno = disk::st().files.count(d) ? ENOTDIR : ENOENT;
    return nullptr;
  }
  if (globdisk::closed().count(d)) {
    sim::count("fault:directory that cannot be opened");
    errno = EACCES;
    return nullptr;
  }
  auto* r = new Dir;
  r->names = {".", ".."};
  const std::string pre = d == "/" ? d : d + "/";
  for (auto& [n, _] : disk::st().files)
    if (!n.compare(0, pre.size(), pre)) r->names.insert(n.substr(pre.size(), n.find('/', pre.size()) - pre.size()));
  r->it = r->names.begin();
  return r;
}
dirent* rdir(void* v) {
  auto* d = static_cast<Dir*>(v);
  if (d->it == d->names.end()) return nullptr;
  memset(&d->e, 0, sizeof d->e);
  d->e.d_ino = 1;
  d->e.d_type = DT_UNKNOWN;
  strncpy(d->e.d_name, d->it->c_str(), sizeof d->e.d_name - 1);
  ++d->it;
  return &d->e;
}
void cdir(void* v) { delete static_cast<Dir*>(v); }
int st_(const char* p, struct stat* s) {
  const auto n = norm(p);
  memset(s, 0, sizeof *s);
  if (disk::st().files.count(n)) s->st_mode = S_IFREG | 0644;
  else if (isDir(n)) s->st_mode = S_IFDIR | 0755;
  else {
    errno = ENOENT;
    return -1;
  }
  return 0;
}
} // namespace

extern "C" {
int __real_glob(const char*, int, int (*)(const char*, int), glob_t*);
int __wrap_glob(const char* p, int fl, int (*err)(const char*, int), glob_t* g) {
  sim::Quiet q;
  int& n = globdisk::nospace();
  if (n >= 0 && n-- == 0) {
    sim::count("fault:glob out of memory");
    if (!(fl & GLOB_APPEND)) g->gl_pathc = 0, g->gl_pathv = nullptr;
    return GLOB_NOSPACE;
  }
  g->gl_opendir = odir;
  g->gl_readdir = rdir;
  g->gl_closedir = cdir;
  g->gl_stat = st_;
  g->gl_lstat = st_;
  return __real_glob(p, fl | GLOB_ALTDIRFUNC, err, g);
}
}
