// Files that an earlier build wrote, kept with a description of what they hold:
// sim/golden/sio.bin, made once by tools/make_golden.py
#ifndef SIM_GOLDEN_H
#define SIM_GOLDEN_H
#include "siolib.h"

#include <fcntl.h>
#include <unistd.h>

namespace golden {
struct File {
  bool legacy = false, toc = true;
  podio::version::Version version;
  std::map<std::string, std::string> definitions; // of data models
  std::map<std::string, std::vector<int>> versions; // of those that have one
  Content c;
  std::string bytes;
};
struct Out {
  std::string s;
  void u(uint64_t v) {
    do s += char(v % 128 + (v >= 128 ? 128 : 0)), v /= 128;
    while (v);
  }
  void i(int64_t v) { u(v < 0 ? ~uint64_t(v) * 2 + 1 : uint64_t(v) * 2); }
  void t(const std::string& x) { u(x.size()), s += x; }
  template <typename T> void raw(T v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); }
};
struct In {
  const std::string& s;
  size_t p = 0;
  uint64_t u() {
    uint64_t v = 0;
    for (int k = 0;; k += 7) {
      const auto b = (unsigned char)s.at(p++);
      v |= uint64_t(b & 127) << k;
      if (b < 128) return v;
    }
  }
  int64_t i() {
    const uint64_t v = u();
    return v & 1 ? int64_t(~(v / 2)) : int64_t(v / 2);
  }
  std::string t() {
    const size_t n = u();
    p += n;
    return s.substr(p - n, n);
  }
  template <typename T> T raw() {
    T v;
    memcpy(&v, s.data() + p, sizeof v);
    p += sizeof v;
    return v;
  }
};
inline void put(Out& o, const dml::Ref& r) { o.i(r.c), o.i(r.i); }
inline void get(In& i, dml::Ref& r) { r.c = i.i(), r.i = i.i(); }
inline void put(Out& o, int v) { o.i(v); }
inline void get(In& i, int& v) { v = i.i(); }
inline void put(Out& o, const std::string& v) { o.t(v); }
inline void get(In& i, std::string& v) { v = i.t(); }
inline void put(Out& o, float v) { o.raw(v); }
inline void get(In& i, float& v) { v = i.raw<float>(); }
inline void put(Out& o, double v) { o.raw(v); }
inline void get(In& i, double& v) { v = i.raw<double>(); }
template <typename T> void put(Out& o, const std::vector<T>& v) {
  o.u(v.size());
  for (auto& x : v) put(o, x);
}
template <typename T> void get(In& i, std::vector<T>& v) {
  v.resize(i.u());
  for (auto& x : v) get(i, x);
}
template <typename T> void put(Out& o, const std::map<std::string, T>& v) {
  o.u(v.size());
  for (auto& [k, x] : v) o.t(k), put(o, x);
}
template <typename T> void get(In& i, std::map<std::string, T>& v) {
  for (size_t n = i.u(); n; --n) {
    auto k = i.t();
    get(i, v[k]);
  }
}
inline void put(Out& o, const dml::MElem& e) { put(o, e.v), put(o, e.a), put(o, e.b), put(o, e.o1), put(o, e.o2), put(o, e.m1), put(o, e.m2); }
inline void get(In& i, dml::MElem& e) { get(i, e.v), get(i, e.a), get(i, e.b), get(i, e.o1), get(i, e.o2), get(i, e.m1), get(i, e.m2); }
inline void put(Out& o, const dml::MColl& c) { o.t(c.name), o.u(c.kind), o.u(c.subset), put(o, c.e), put(o, c.refs); }
inline void get(In& i, dml::MColl& c) { c.name = i.t(), c.kind = i.u(), c.subset = i.u(), get(i, c.e), get(i, c.refs); }
inline void put(Out& o, const Entry& e) {
  put(o, e.m.c), put(o, e.m.p.i), put(o, e.m.p.f), put(o, e.m.p.d), put(o, e.m.p.s);
  for (size_t k = 0; k < e.m.c.size(); ++k) o.u(e.av[k]);
}
inline void get(In& i, Entry& e) {
  get(i, e.m.c), get(i, e.m.p.i), get(i, e.m.p.f), get(i, e.m.p.d), get(i, e.m.p.s);
  e.av = dml::all(e.m);
  for (size_t k = 0; k < e.m.c.size(); ++k) e.av[k] = i.u();
}
inline std::string text(const File& f) {
  Out o;
  o.u(f.legacy), o.u(f.toc), o.u(f.version.major), o.u(f.version.minor), o.u(f.version.patch);
  put(o, f.definitions), put(o, f.versions), put(o, f.c), o.t(f.bytes);
  return o.s;
}
inline File parse(const std::string& s) {
  In i{s};
  File f;
  f.legacy = i.u(), f.toc = i.u();
  f.version.major = i.u(), f.version.minor = i.u(), f.version.patch = i.u();
  get(i, f.definitions), get(i, f.versions), get(i, f.c), f.bytes = i.t();
  return f;
}
/// the archive: the number of files, where each begins and the last ends, the files
inline std::string path() {
  std::string p = __FILE__;
  return p.substr(0, p.rfind('/')) + "/../golden/sio.bin";
}
inline std::string part(int fd, uint64_t from, uint64_t n) {
  std::string s(n, 0);
  for (uint64_t k = 0; k < n;) {
    const auto r = pread(fd, s.data() + k, n - k, from + k);
    if (r <= 0) throw std::logic_error("simulation: cannot read " + path());
    k += r;
  }
  return s;
}
inline File draw() {
  sim::Quiet q;
  const int fd = open(path().c_str(), O_RDONLY);
  if (fd < 0) throw std::logic_error("simulation: cannot open " + path());
  uint32_t n, at[2];
  memcpy(&n, part(fd, 0, 4).data(), 4);
  const size_t k = sim::w(n);
  memcpy(at, part(fd, 4 + 4 * k, 8).data(), 8);
  File f = parse(part(fd, at[0], at[1] - at[0]));
  close(fd);
  sim::ev("file %zu of the archive", k);
  sim::mix(k);
  return f;
}
inline void keep(const File& f) {
  const char* dir = getenv("GOLDEN_OUT");
  if (!dir) return;
  const auto s = text(f);
  const auto p = std::string(dir) + "/" + std::to_string(sim::hashs(s));
  const int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  for (size_t k = 0; k < s.size();) k += pwrite(fd, s.data() + k, s.size() - k, k);
  close(fd);
}
} // namespace golden
#endif
