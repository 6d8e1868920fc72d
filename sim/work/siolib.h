// Shared by the workloads on SIO files: entries, sources of frames, checks
#ifndef SIM_SIOLIB_H
#define SIM_SIOLIB_H
#include "disk.h"
#include "dmlib.h"
#include "podio/SIOReader.h"
#include "podio/SIOWriter.h"

#include <cstdlib>

namespace {
const char* CATS[] = {"events", "runs", "m", "a_category_name_longer_than_16", "run", "events_2", "RUNS", "a_category_name_longer_than_17", "events_3", "a_category_name_longer_than_1_"};
/// categories that are in no file, though some of them nearly are
const char* NOCATS[] = {"nothing", "event", "e", "", "events_", "events_HEADER", "mm", "a_category_name_longer_than_1", "ruNs"};
const char* BIG = "wrong-data";

/// one entry of a file
struct Entry {
  dml::MFrame m;
  dml::Avail av;
};
using Content = std::map<std::string, std::vector<Entry>>;

dml::GenCfg small() {
  dml::GenCfg g;
  g.maxColls = 3;
  g.maxElems = 2;
  g.maxRel = 2;
  return g;
}
/// now and then a collection that fills the buffers of the stream several times
void maybeBig(dml::MFrame& m, int oneIn = 8) {
  if (sim::w(oneIn) != uint64_t(oneIn - 1)) return;
  dml::MColl c;
  c.name = "big";
  c.kind = dml::UU64;
  size_t n = 500 + sim::w(6000);
  if (sim::w(16) == 15) {
    // more than fits into 16 bits, and of other kinds
    static const int kinds[] = {dml::UU64, dml::LPP, dml::UU8, dml::PLAIN};
    c.kind = kinds[sim::w(4)];
    n = 65500 + sim::w(200);
    sim::count("op:huge collection");
  }
  uint64_t x = 0x9E3779B97F4A7C15ull + sim::w(100);
  for (size_t i = 0; i < n; ++i) {
    x ^= x << 13, x ^= x >> 7, x ^= x << 17;
    c.e.push_back({});
    c.e.back().v = int(x >> 40);
  }
  m.c.push_back(std::move(c));
  sim::count("op:big collection");
}
/// a frame with this content, from memory or from raw data
std::unique_ptr<podio::Frame> source(const dml::MFrame& m) {
  if (sim::w(3) == 2) {
    sim::Quiet q;
    auto f = std::make_unique<podio::Frame>(dml::rawFrame(m, dml::all(m)));
    dml::MParams p = m.p;
    dml::putParams(*f, p);
    return f;
  }
  auto f = std::make_unique<podio::Frame>();
  dml::toFrame(*f, m);
  return f;
}
void checkCategories(const podio::SIOReader& r, const Content& c) {
  std::multiset<std::string> have, want;
  for (auto n : r.getAvailableCategories()) have.insert(std::string(n));
  for (auto& [n, _] : c) want.insert(n);
  SIM_CHECK(have == want, BIG, "the file has %zu categories instead of %zu", have.size(), want.size());
  for (auto& [n, e] : c) SIM_CHECK(r.getEntries(n) == e.size(), BIG, "%u entries of %s instead of %zu", r.getEntries(n), n.c_str(), e.size());
  const std::string no = NOCATS[sim::w(std::size(NOCATS))];
  SIM_CHECK(r.getEntries(no) == 0, BIG, "entries of a category that is not there: '%s'", no.c_str());
}
/// look at everything a frame read from a file has
void checkRead(std::unique_ptr<podio::SIOFrameData> d, const Entry& e, const char* what, bool threads = false) {
  SIM_CHECK(d, BIG, "%s: no data for an entry that was written", what);
  podio::Frame f(std::move(d));
  if (threads && dml::totalElems(e.m) < 10000 && sim::w(3) == 2) {
    const dml::Checker chk(f, e.m, e.av, what);
    for (int t = 0; t < 2; ++t)
      sim::spawn([&, t] {
        for (size_t i = 0; i < e.m.c.size(); ++i) {
          const size_t k = t ? e.m.c.size() - 1 - i : i;
          if (e.av[k]) chk.coll(f.get(e.m.c[k].name), k);
        }
      });
    sim::join_all();
  }
  if (sim::w(3) == 2) {
    podio::Frame g(std::move(f));
    dml::checkFrame(g, e.m, e.av, what);
  } else {
    dml::checkFrame(f, e.m, e.av, what);
  }
  sim::count("op:entry read");
}
void endWriter(std::unique_ptr<podio::SIOWriter>& w) {
  switch (sim::w(3)) {
  case 0: w->finish(); break;
  case 1: break;
  case 2: w->finish(); w->finish(); break;
  }
  w.reset();
}
/// no libraries with further blocks: everything is linked
struct NoLibs {
  NoLibs() {
    unsetenv("LD_LIBRARY_PATH");
    unsetenv("PODIO_SIOBLOCK_PATH");
  }
} noLibs;
template <typename T> T& pick(std::vector<T>& v) { return v[sim::w(v.size())]; }
} // namespace
#endif
