// C02: collections of a Frame with stored data, unpacked by several threads
#include "dmlib.h"

#include <algorithm>

namespace {
bool refersTo(const dml::MColl& c, size_t k) {
  auto is = [k](const dml::Ref& r) { return r.c == (int)k; };
  if (std::ranges::any_of(c.refs, is)) return true;
  for (auto& e : c.e)
    if (is(e.o1) || is(e.o2) || std::ranges::any_of(e.m1, is) || std::ranges::any_of(e.m2, is)) return true;
  return false;
}
void frameGet(bool faults) {
  dml::GenCfg g;
  g.maxColls = 5;
  g.maxElems = 3;
  g.params = false;
  g.hugeOneIn = 100;
  const auto m = dml::gen(g);
  const int nthreads = 1 + sim::w(5);
  dml::Avail av = dml::all(m);
  if (sim::w(3) == 2)
    for (auto& a : av) a = sim::w(4) != 3;
  auto* frame = new podio::Frame(dml::rawFrame(m, av));
  dml::Checker chk(*frame, m, av, "while unpacking");
  chk.hops = sim::w(3);
  if (dml::maxRelations(m) > 10) chk.hops = 0;
  struct Get {
    int ci, fault;
  };
  std::vector<std::vector<Get>> plan(nthreads);
  for (auto& p : plan) {
    const int n = 1 + sim::w(3);
    for (int i = 0; i < n; ++i) {
      const int ci = sim::w(m.c.size());
      p.push_back({ci, faults && sim::f(3) ? 1 + (int)sim::f(sim::f(3) ? 15 : 60) : 0});
    }
  }
  std::vector<std::vector<std::pair<int, const void*>>> seen(nthreads);
  for (auto& s : seen) s.reserve(8);
  std::vector<std::vector<int>> failed(nthreads), missing(nthreads);
  for (int t = 0; t < nthreads; ++t)
    sim::spawn([&, t] {
      for (auto& [ci, fault] : plan[t]) {
        sim::ev("get %s", m.c[ci].name.c_str());
        const podio::CollectionBase* c = nullptr;
        try {
          sim::AllocFault af(fault);
          c = frame->get(m.c[ci].name);
        } catch (const std::bad_alloc&) {
          sim::ev("  bad_alloc");
          SIM_CHECK(fault, "wrong-data", "bad_alloc without a failing allocation");
          sim::count("fault:allocation");
          failed[t].push_back(ci);
          continue;
        }
        if (faults && !c && av[ci]) {
          missing[t].push_back(ci);
        } else if (faults && av[ci]) {
          // relations to collections that are lost are not there: looked at in the end
          SIM_CHECK(c->size() == m.c[ci].size(), "wrong-data", "a collection has %zu elements instead of %zu", c->size(), m.c[ci].size());
          seen[t].push_back({ci, c});
        } else if (av[ci]) {
          chk.coll(c, ci);
          seen[t].push_back({ci, c});
        } else {
          SIM_CHECK(!c, "wrong-data", "a collection that is not in the data was found");
        }
        sim::count("op:get");
      }
    });
  sim::join_all();
  std::vector<char> maybeLost(m.c.size());
  for (auto& v : failed)
    for (int ci : v) maybeLost[ci] = 1;
  // KNOWN_FINDINGS: what a failed get was unpacking is lost, and what that refers to
  for (bool more = true; more;) {
    more = false;
    for (size_t k = 0; k < m.c.size(); ++k)
      for (size_t l = 0; l < m.c.size(); ++l)
        if (maybeLost[k] && !maybeLost[l] && refersTo(m.c[k], l)) maybeLost[l] = more = true;
  }
  for (auto& v : missing)
    for (int ci : v) SIM_CHECK(maybeLost[ci], "wrong-data", "the collection %s is not there, though no get that could have unpacked it failed", m.c[ci].name.c_str());
  if (faults)
    for (size_t k = 0; k < m.c.size(); ++k)
      if (maybeLost[k] && !frame->get(m.c[k].name)) av[k] = 0;
  for (auto& s : seen)
    for (auto& [ci, p] : s) SIM_CHECK(p == frame->get(m.c[ci].name), "wrong-data", "two callers got different objects for %s", m.c[ci].name.c_str());
  dml::checkFrame(*frame, m, av, "after unpacking");
  if (nthreads > 1 && dml::totalElems(m) > 1) sim::nontrivial();
  delete frame;
}
} // namespace
SIM_WORKLOAD(frame_get) { frameGet(false); }
SIM_WORKLOAD(frame_get_alloc) { frameGet(true); }
/// the finding itself: see KNOWN_FINDINGS
SIM_WORKLOAD(frame_get_lost) {
  dml::GenCfg g;
  g.maxColls = 1;
  g.params = false;
  const auto m = dml::gen(g);
  if (m.c.empty()) return;
  podio::Frame frame(dml::rawFrame(m, dml::all(m)));
  bool failed = false;
  try {
    sim::AllocFault af(1 + sim::f(6));
    frame.get(m.c[0].name);
  } catch (const std::bad_alloc&) {
    failed = true;
  }
  if (failed) SIM_CHECK(frame.get(m.c[0].name), "lost", "a collection is not there any more after bad_alloc in the get that unpacked it");
  sim::nontrivial();
}
