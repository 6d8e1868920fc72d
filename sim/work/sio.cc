// S01-S05: files of the SIO backend on a simulated disk
#include "siolib.h"
#include "podio/LinkCollection.h"
#include "podio/SIOLegacyReader.h"
#include "golden.h"
#ifdef SIM_GOLDEN_MAKE
#include "sioUtils.h"
#endif

#include <sio/sio.h>

// ---------------------------------------------------------------- S01
SIM_WORKLOAD(sio_roundtrip) {
  auto& d = disk::st();
  d.rough = sim::w(2);
  Content c;
  std::vector<std::pair<std::string, int>> order;
  const int n = sim::w(4);
  {
    auto w = std::make_unique<podio::SIOWriter>("/sim/a.sio");
    std::vector<std::unique_ptr<podio::Frame>> keep;
    for (int i = 0; i < n; ++i) {
      dml::GenCfg g;
      if (sim::w(3) == 0) g = small();
      g.hugeOneIn = 20;
      const std::string cat = CATS[sim::w(3)];
      Entry e{dml::gen(g, 1 + 1000 * i), {}};
      maybeBig(e.m);
      e.av = dml::all(e.m);
      auto f = source(e.m);
      sim::ev("write %zu collections as %s", e.m.c.size(), cat.c_str());
      if (sim::w(4) == 3) {
        auto names = dml::namesOf(e.m, e.av);
        for (size_t k = names.size(); k > 1; --k) std::swap(names[k - 1], names[sim::w(k)]);
        w->writeFrame(*f, cat, names);
      } else {
        w->writeFrame(*f, cat);
      }
      sim::count("op:frame written");
      if (sim::w(4) == 3) dml::checkFrame(*f, e.m, "the frame after it was written");
      order.push_back({cat, (int)c[cat].size()});
      c[cat].push_back(std::move(e));
      if (sim::w(3) == 2) keep.push_back(std::move(f));
      // the same frame once more
      if (sim::w(8) == 7 && !keep.empty() && f == nullptr) {
        w->writeFrame(*keep.back(), CATS[0]);
        order.push_back({CATS[0], (int)c[CATS[0]].size()});
        c[CATS[0]].push_back(c[cat].back());
      }
    }
    endWriter(w);
    SIM_CHECK(disk::openHandles() == 0, "resource", "a finished writer leaves its file open");
  }
  sim::mix(sim::hashs(d.files["/sim/a.sio"]));
  auto r = std::make_unique<podio::SIOReader>();
  r->openFile("/sim/a.sio");
  checkCategories(*r, c);
  SIM_CHECK(r->currentFileVersion() == podio::version::build_version, BIG, "the file has another version");
  for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[sim::w(k)]);
  const bool again = sim::w(3) == 2;
  std::unique_ptr<podio::SIOWriter> w2;
  Content c2;
  if (again) w2 = std::make_unique<podio::SIOWriter>("/sim/b.sio");
  for (auto& [cat, i] : order) {
    const Entry& e = c[cat][i];
    checkRead(r->readEntry(cat, i), e, "read back", true);
    if (again) {
      podio::Frame f(r->readEntry(cat, i));
      for (auto& mc : e.m.c)
        if (sim::w(3) == 2) f.get(mc.name);
      if (sim::w(4) == 3) f.putParameter("added", 1);
      w2->writeFrame(f, cat);
      c2[cat].push_back(e);
      if (f.getParameter<int>("added")) c2[cat].back().m.p.i["added"] = {1};
    }
  }
  if (again) {
    endWriter(w2);
    r = std::make_unique<podio::SIOReader>();
    r->openFile("/sim/b.sio");
    checkCategories(*r, c2);
    for (auto& [cat, v] : c2)
      for (size_t i = 0; i < v.size(); ++i) checkRead(r->readNextEntry(cat), v[i], "written and read twice");
  }
  if (order.size() > 0) sim::nontrivial();
}

/// several threads write and read at the same time: files of their own, and a
/// frame that all of them write
SIM_WORKLOAD(sio_threads) {
  const int T = 2 + sim::w(3);
  if (sim::w(2)) podio::SIOBlockLibraryLoader::instance();
  dml::GenCfg g = small();
  Entry shared{dml::gen(g, 500000), {}};
  shared.av = dml::all(shared.m);
  std::unique_ptr<podio::Frame> sf;
  if (sim::w(2)) {
    sf = std::make_unique<podio::Frame>();
    dml::toFrame(*sf, shared.m);
  } else {
    sim::Quiet q;
    sf = std::make_unique<podio::Frame>(dml::rawFrame(shared.m, dml::all(shared.m)));
    dml::putParams(*sf, shared.m.p);
  }
  struct Plan {
    std::vector<std::pair<std::string, int>> writes; // -1: the shared frame
    std::vector<Entry> own;
    std::vector<std::unique_ptr<podio::Frame>> fs;
    bool gets = false;
  };
  std::vector<Plan> ps(T);
  size_t total = 0;
  {
    sim::Quiet q;
    for (int t = 0; t < T; ++t) {
      const int n = sim::w(4);
      for (int i = 0; i < n; ++i) {
        const std::string cat = CATS[sim::w(2)];
        if (sim::w(2)) {
          Entry e{dml::gen(g, 1 + 1000 * i + 100000 * t), {}};
          e.av = dml::all(e.m);
          ps[t].fs.push_back(std::make_unique<podio::Frame>());
          dml::toFrame(*ps[t].fs.back(), e.m);
          ps[t].writes.push_back({cat, (int)ps[t].own.size()});
          ps[t].own.push_back(std::move(e));
        } else {
          ps[t].writes.push_back({cat, -1});
        }
        ++total;
      }
      ps[t].gets = sim::w(3) == 2;
    }
  }
  for (int t = 0; t < T; ++t)
    sim::spawn([&, t] {
      auto& p = ps[t];
      const std::string path = "/sim/t" + std::to_string(t);
      if (p.gets) {
        const dml::Checker chk(*sf, shared.m, shared.av, "shared frame");
        for (size_t i = 0; i < shared.m.c.size(); ++i) chk.coll(sf->get(shared.m.c[i].name), i);
      }
      {
        podio::SIOWriter w(path);
        for (auto& [cat, k] : p.writes) {
          w.writeFrame(k < 0 ? *sf : *p.fs[k], cat);
          sim::count("op:frame written");
        }
        if (t % 2) w.finish();
      }
      podio::SIOReader r;
      r.openFile(path);
      for (auto& [cat, k] : p.writes) checkRead(r.readNextEntry(cat), k < 0 ? shared : p.own[k], "written by several threads");
    });
  sim::join_all();
  if (total > 1) sim::nontrivial();
}

// ---------------------------------------------------------------- S02
SIM_WORKLOAD(sio_entries) {
  disk::st().rough = sim::w(3) == 2;
  std::vector<Content> files(1 + sim::w(2));
  for (size_t k = 0; k < files.size(); ++k) {
    podio::SIOWriter w("/sim/f" + std::to_string(k));
    int n = sim::w(8);
    const int many = sim::w1in(30) ? 1 + (int)sim::w(3) : 0;
    if (many) {
      static const int ns[] = {33, 65, 129, 200, 256, 257, 300, 520};
      n = ns[sim::w(8)];
      sim::count(many == 3 ? "op:many categories" : "op:many entries");
    }
    dml::GenCfg g = small();
    g.hugeOneIn = 80;
    for (int i = 0; i < n; ++i) {
      Entry e;
      if (many) {
        e.m.c.push_back({});
        e.m.c[0].name = "only " + std::to_string(i % 3);
        e.m.c[0].kind = i % 2 ? dml::UI32 : dml::PLAIN;
        for (int j = 0; j < i % 4; ++j) e.m.c[0].e.push_back({}), e.m.c[0].e.back().v = i * 10 + j;
        e.m.p.i["n"] = {i};
      } else {
        e.m = dml::gen(g, 1 + 1000 * i + 100000 * k);
      }
      e.av = dml::all(e.m);
      const std::string cat = many == 3 && i % 4 ? "category " + std::to_string(i % 300) : many ? CATS[i % many] : CATS[sim::w(2) ? sim::w(3) : sim::w(std::size(CATS))];
      podio::Frame f;
      dml::toFrame(f, e.m);
      w.writeFrame(f, cat);
      files[k][cat].push_back(std::move(e));
    }
  }
  struct R {
    std::unique_ptr<podio::SIOReader> r;
    size_t file;
    std::map<std::string, size_t> next;
  };
  struct Kept {
    std::unique_ptr<podio::Frame> f;
    std::unique_ptr<podio::SIOFrameData> d;
    const Entry* e;
  };
  std::vector<R> rs;
  std::vector<Kept> kept;
  auto look = [&](Kept& k) {
    if (k.d) k.f = std::make_unique<podio::Frame>(std::move(k.d));
    if (sim::w(2) && !k.e->m.c.empty()) {
      const int ci = sim::w(k.e->m.c.size());
      dml::Checker(*k.f, k.e->m, k.e->av, "a frame used later").coll(k.f->get(k.e->m.c[ci].name), ci);
    } else
      dml::checkFrame(*k.f, k.e->m, k.e->av, "a frame used later");
  };
  const int ops = 4 + sim::w(24);
  size_t reads = 0;
  for (int o = 0; o < ops; ++o) {
    if (rs.empty() || (rs.size() < 3 && sim::w(8) == 7)) {
      R x{std::make_unique<podio::SIOReader>(), sim::w(files.size()), {}};
      sim::ev("reader %zu opens file %zu", rs.size(), x.file);
      x.r->openFile("/sim/f" + std::to_string(x.file));
      checkCategories(*x.r, files[x.file]);
      rs.push_back(std::move(x));
    }
    const size_t ri = sim::w(rs.size());
    R& x = rs[ri];
    Content& c = files[x.file];
    const std::string cat = sim::w(12) == 11 ? NOCATS[sim::w(std::size(NOCATS))]
        : !c.empty() && sim::w(2)           ? std::next(c.begin(), sim::w(c.size()))->first
                                            : CATS[sim::w(2) ? sim::w(3) : sim::w(std::size(CATS))];
    const std::vector<Entry> none;
    const std::vector<Entry>& es = c.count(cat) ? c[cat] : none;
    auto got = [&](std::unique_ptr<podio::SIOFrameData> d, const char* what) {
      size_t& i = x.next[cat];
      sim::ev("%s of reader %zu: %s %zu", what, ri, cat.c_str(), i);
      sim::mix(sim::hashs(cat) + i * 31 + ri);
      if (i >= es.size()) {
        SIM_CHECK(!d, BIG, "%s: entry %zu of %s, which has %zu", what, i, cat.c_str(), es.size());
        return;
      }
      SIM_CHECK(d, BIG, "%s: no data for entry %zu of %s, which has %zu", what, i, cat.c_str(), es.size());
      ++reads;
      sim::count("op:entry read");
      const Entry& e = es[i++];
      if (sim::w(3) == 0) kept.push_back({nullptr, std::move(d), &e});
      else if (sim::w(2)) checkRead(std::move(d), e, what);
      else {
        Kept k{std::make_unique<podio::Frame>(std::move(d)), nullptr, &e};
        kept.push_back(std::move(k));
      }
    };
    if (sim::w(16) == 15) {
      // the same reader opens another file, or fails to open one that is not there
      if (sim::w(3) == 2) {
        bool threw = false;
        try {
          x.r->openFile("/sim/none");
        } catch (const std::exception&) {
          threw = true;
        }
        SIM_CHECK(threw, BIG, "opening a file that is not there is not reported");
        sim::count("op:file that is not there");
      }
      x.file = sim::w(files.size());
      x.next.clear();
      sim::ev("reader %zu opens file %zu next", ri, x.file);
      x.r->openFile("/sim/f" + std::to_string(x.file));
      checkCategories(*x.r, files[x.file]);
      sim::count("op:another file");
      continue;
    }
    switch (sim::w(8)) {
    case 0: case 1: case 2: got(x.r->readNextEntry(cat), "next"); break;
    case 3: case 4: case 5: {
      const unsigned i = sim::w(es.size() + 2);
      x.next[cat] = i;
      got(x.r->readEntry(cat, i), "entry");
      break;
    }
    case 6: checkCategories(*x.r, c); break;
    case 7:
      if (!kept.empty()) {
        const size_t k = sim::w(kept.size());
        look(kept[k]);
        if (sim::w(2)) kept.erase(kept.begin() + k);
      } else if (sim::w(2)) {
        rs.erase(rs.begin() + ri);
      }
      break;
    }
  }
  if (sim::w(2)) rs.clear();
  for (auto& k : kept) look(k);
  if (reads > 2) sim::nontrivial();
}

// ---------------------------------------------------------------- S03
SIM_WORKLOAD(sio_select) {
  disk::st().rough = sim::w(4) == 3;
  Content c;
  std::vector<std::string> cats;
  const int n = 1 + sim::w(3);
  {
    podio::SIOWriter w("/sim/a");
    for (int i = 0; i < n; ++i) {
      dml::GenCfg g;
      if (sim::w(3) == 0) g = small();
      g.hugeOneIn = 30;
      Entry e{dml::gen(g, 1 + 1000 * i), {}};
      e.av = dml::all(e.m);
      for (auto& a : e.av) a = sim::w(3) != 2;
      const std::string cat = CATS[sim::w(2)];
      auto f = source(e.m);
      auto names = dml::namesOf(e.m, e.av);
      for (size_t k = names.size(); k > 1; --k) std::swap(names[k - 1], names[sim::w(k)]);
      if (sim::w(6) == 5) {
        auto bad = names;
        bad.insert(bad.begin() + sim::w(bad.size() + 1), "not there");
        bool threw = false;
        try {
          w.writeFrame(*f, cat, bad);
        } catch (const std::exception&) {
          threw = true;
        }
        SIM_CHECK(threw, BIG, "writing a collection that the frame does not have is not reported");
        sim::count("op:unknown collection selected for writing");
      }
      if (!names.empty() && sim::w(4) == 3) {
        names.insert(names.begin() + sim::w(names.size() + 1), names[sim::w(names.size())]);
        sim::count("op:a collection selected twice for writing");
      }
      sim::ev("write %zu of %zu collections", names.size(), e.m.c.size());
      w.writeFrame(*f, cat, names);
      if (sim::w(3) == 2) dml::checkFrame(*f, e.m, "the frame after a part of it was written");
      c[cat].push_back(std::move(e));
      cats.push_back(cat);
    }
    w.finish();
  }
  podio::SIOReader r;
  sim::mix(sim::hashs(disk::st().files["/sim/a"]));
  r.openFile("/sim/a");
  checkCategories(r, c);
  std::unique_ptr<podio::SIOWriter> w2;
  Content c2;
  const int reads = 1 + sim::w(5);
  for (int k = 0; k < reads; ++k) {
    const std::string cat = pick(cats);
    const size_t i = sim::w(c[cat].size());
    Entry e = c[cat][i];
    std::vector<std::string> want;
    dml::Avail av = e.av;
    for (auto& a : av) a = a && sim::w(3) != 2;
    want = dml::namesOf(e.m, av);
    for (size_t q = want.size(); q > 1; --q) std::swap(want[q - 1], want[sim::w(q)]);
    if (want.empty()) av = e.av; // everything then
    else if (sim::w(6) == 5) {
      // naming a collection twice makes no difference
      want.insert(want.begin() + sim::w(want.size() + 1), want[sim::w(want.size())]);
      sim::count("op:a collection selected twice");
    }
    if (sim::w(6) == 5) {
      auto bad = want;
      std::string nm = "not there";
      for (size_t q = 0; q < e.m.c.size(); ++q)
        if (!e.av[q]) nm = e.m.c[q].name;
      bad.insert(bad.begin() + sim::w(bad.size() + 1), nm);
      bool threw = false;
      try {
        auto d = r.readEntry(cat, i, bad);
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      SIM_CHECK(threw, BIG, "selecting a collection that the entry does not have is not reported");
      sim::count("op:unknown collection selected for reading");
    }
    e.av = av;
    sim::ev("read %zu of %zu collections", want.size(), e.m.c.size());
    if (sim::w(3) == 2) {
      // write what was read in part
      if (!w2) w2 = std::make_unique<podio::SIOWriter>("/sim/b");
      podio::Frame f(r.readEntry(cat, i, want));
      for (size_t q = 0; q < e.m.c.size(); ++q)
        if (sim::w(3) == 2) f.get(e.m.c[q].name);
      w2->writeFrame(f, cat);
      dml::checkFrame(f, e.m, e.av, "the frame read in part after it was written");
      c2[cat].push_back(e);
      sim::count("op:partial frame written");
    } else {
      checkRead(r.readEntry(cat, i, want), e, "read in part", true);
    }
  }
  if (w2) {
    endWriter(w2);
    podio::SIOReader r2;
    r2.openFile("/sim/b");
    checkCategories(r2, c2);
    for (auto& [cat, v] : c2)
      for (size_t i = 0; i < v.size(); ++i) checkRead(r2.readEntry(cat, i), v[i], "read in part, written and read");
  }
  sim::nontrivial();
}

// ---------------------------------------------------------------- S04
namespace {
/// Reads all there is in a possibly damaged file: exceptions are fine, what is
/// handed out has to be right
struct Lenient {
  const Content& c;
  uint64_t refused = 0, frames = 0;
  bool intact = false;
  bool endThere = false; // size and end of the file are those of the finished one
  template <typename F> bool tryIt(F&& f) {
    try {
      f();
      return true;
    } catch (const std::exception& e) {
      sim::ev("refused: %s", e.what());
      ++refused;
      return false;
    }
  }
  void entry(podio::SIOReader& r, const std::string& cat, unsigned i) {
    std::unique_ptr<podio::SIOFrameData> d;
    if (!tryIt([&] { d = r.readEntry(cat, i); }) || !d) return;
    got(std::move(d), cat, i);
  }
  void got(std::unique_ptr<podio::SIOFrameData> d, const std::string& cat, unsigned i) {
    auto it = c.find(cat);
    SIM_CHECK(it != c.end() && i < it->second.size(), BIG, "the damaged file has an entry %u of %s that was never written", i, cat.c_str());
    const Entry& e = it->second[i];
    if (sim::w(4) == 3) // the data are used before the frame
      for (int k = 0; k < 2; ++k) tryIt([&] { d->getAvailableCollections(); });
    std::unique_ptr<podio::Frame> f;
    if (sim::w(4) == 3) {
      // nothing but the data
      std::optional<podio::CollectionReadBuffers> b;
      for (int k = 0; k < 2 && !e.m.c.empty(); ++k) {
        const int ci = sim::w(e.m.c.size());
        b.reset();
        if (tryIt([&] { b = d->getCollectionBuffers(e.m.c[ci].name); }) && b) {
          SIM_CHECK(b->createCollection, BIG, "buffers of a collection that could not be read");
          auto coll = b->createCollection(std::move(*b), e.m.c[ci].subset);
          coll->prepareAfterRead();
          coll->setID(0);
          // without the other collections only the size can be looked at
          if (!e.m.c[ci].subset) SIM_CHECK(coll->size() == e.m.c[ci].size(), BIG, "the damaged file yields %zu elements instead of %zu", coll->size(), e.m.c[ci].size());
        }
      }
      return;
    }
    if (!tryIt([&] { f = std::make_unique<podio::Frame>(std::move(d)); })) return;
    ++frames;
    // complete, unless it says that something cannot be read
    bool ok = true;
    for (auto& mc : e.m.c) ok &= tryIt([&] { f->get(mc.name); });
    if (ok) dml::checkFrame(*f, e.m, e.av, "a frame of a damaged file");
  }
  std::map<std::string, unsigned> next; // where reading one after the other is
  /// One after the other; an entry that cannot be read is tried again or skipped
  void inOrder(podio::SIOReader& r) {
    for (auto n : r.getAvailableCategories()) {
      const std::string cat(n);
      const unsigned k = r.getEntries(cat);
      unsigned& at = next[cat];
      for (int left = 2 + sim::w(k + 2); left > 0; --left) {
        std::unique_ptr<podio::SIOFrameData> d;
        if (!tryIt([&] { d = r.readNextEntry(cat); })) {
          // only a failure to read has to leave the place as it was
          const bool skip = sim::w(2);
          if (skip || !intact) {
            at += skip;
            tryIt([&] { d = r.readEntry(cat, at); });
          }
          if (!d) {
            if (at < k && intact) continue;
            break;
          }
        }
        if (!d) {
          SIM_CHECK(at >= k, BIG, "the damaged file has %u entries of %s, but there is none after %u", k, cat.c_str(), at);
          break;
        }
        sim::count("op:next entry of a damaged file");
        got(std::move(d), cat, at++);
      }
    }
  }
  void all(const std::string& path) {
    podio::SIOReader r;
    if (!tryIt([&] { r.openFile(path); })) {
      if (sim::w(2)) return;
    }
    else if (endThere) {
      // nothing keeps the table of contents from being found: it is complete
      std::multiset<std::string> have, want;
      for (auto n : r.getAvailableCategories()) have.insert(std::string(n));
      for (auto& [n, _] : c) want.insert(n);
      SIM_CHECK(have == want, BIG, "the damaged file, whose end is there, has %zu categories instead of %zu", have.size(), want.size());
      for (auto& [n, v] : c) SIM_CHECK(r.getEntries(n) == v.size(), BIG, "the damaged file, whose end is there, has %u entries of %s instead of %zu", r.getEntries(n), n.c_str(), v.size());
    }
    std::vector<std::pair<std::string, unsigned>> what;
    for (auto n : r.getAvailableCategories()) {
      const std::string cat(n);
      SIM_CHECK(c.count(cat), BIG, "the damaged file has a category '%s' that was never written", cat.c_str());
      const unsigned k = r.getEntries(cat);
      SIM_CHECK(k <= c.at(cat).size(), BIG, "the damaged file has %u entries of %s, of which %zu were written", k, cat.c_str(), c.at(cat).size());
      for (unsigned i = 0; i < k; ++i) what.push_back({cat, i});
    }
    if (sim::w(2)) // also those that it does not claim to have
      for (auto& [cat, v] : c) what.push_back({cat, sim::w(v.size() + 1)});
    for (size_t k = what.size(); k > 1; --k) std::swap(what[k - 1], what[sim::w(k)]);
    const bool ordered = sim::w(3) == 2;
    if (ordered) inOrder(r);
    else
      for (auto& [cat, i] : what) entry(r, cat, i);
    if (!intact) return;
    // it was the reading that failed, for a time: the file is all right
    disk::calm();
    if (r.getAvailableCategories().size() != c.size() || sim::w(4) == 3) {
      r.openFile(path);
      next.clear();
    }
    checkCategories(r, c);
    if (ordered) // goes on where it was
      for (auto& [cat, v] : c)
        for (auto& at = next[cat]; at < v.size(); ++at) checkRead(r.readNextEntry(cat), v[at], "read after reading it had failed");
    for (auto& [cat, v] : c)
      for (size_t i = 0; i < v.size(); ++i) checkRead(r.readEntry(cat, i), v[i], "read after reading had failed");
    if (disk::st().firedRead) sim::count("result:read after a failure");
  }
};
} // namespace
SIM_WORKLOAD(sio_damage) {
  auto& d = disk::st();
  Content c;
  const int n = 1 + sim::w(3);
  bool finished = false;
  std::vector<uint64_t> marks; // sizes of the file between calls
  {
    auto w = std::make_unique<podio::SIOWriter>("/sim/a");
    for (int i = 0; i < n; ++i) {
      dml::GenCfg g = small();
      Entry e{dml::gen(g, 1 + 1000 * i), {}};
      maybeBig(e.m);
      e.av = dml::all(e.m);
      const std::string cat = CATS[sim::w(2)];
      podio::Frame f;
      dml::toFrame(f, e.m);
      w->writeFrame(f, cat);
      c[cat].push_back(std::move(e));
      marks.push_back(d.files["/sim/a"].size());
    }
    w->finish();
    marks.push_back(d.files["/sim/a"].size());
  }
  // what reached the storage, in order
  const std::string full = d.files["/sim/a"];
  for (auto& l : d.log) SIM_CHECK(l.off + l.len <= full.size(), "harness", "a write is beyond the end of the file");
  std::string img;
  const size_t sz = full.size();
  switch (sim::f(7)) {
  case 0: // the whole file: it has to be readable
    img = full;
    finished = true;
    break;
  case 1: { // the process ends after some byte of some write
    const size_t k = sim::f(d.log.size());
    const auto& l = d.log[k];
    const size_t part = sim::f(l.len + 1);
    for (size_t i = 0; i < k; ++i) {
      if (img.size() < d.log[i].off + d.log[i].len) img.resize(d.log[i].off + d.log[i].len);
      memcpy(img.data() + d.log[i].off, full.data() + d.log[i].off, d.log[i].len);
    }
    if (img.size() < l.off + part) img.resize(l.off + part);
    memcpy(img.data() + l.off, full.data() + l.off, part);
    sim::count("fault:process ends while writing");
    break;
  }
  case 2: { // truncated anywhere, mostly near the end
    const size_t cut = sim::f(2) ? sim::f(sz) : sz - 1 - sim::f(std::min<size_t>(sz, 64));
    img = full.substr(0, cut);
    sim::count("fault:truncated");
    break;
  }
  case 3: case 4: { // power loss: sectors of the page cache that did not make it
    img = full;
    const size_t sector = sim::f(2) ? 512 : 64;
    const size_t ns = (sz + sector - 1) / sector;
    const int k = 1 + sim::f(3);
    for (int i = 0; i < k; ++i) {
      const size_t s0 = sim::f(ns), len = 1 + sim::f(3);
      for (size_t s = s0; s < std::min(ns, s0 + len); ++s) std::fill(img.begin() + s * sector, img.begin() + std::min(sz, (s + 1) * sector), 0);
    }
    if (sim::f(4) == 3) img.resize(sim::f(sz + 1));
    sim::count("fault:lost sectors");
    break;
  }
  case 5: { // a tail of zeros, as after an extension of the file that was committed before its data
    const size_t from = sim::f(sz);
    img = full.substr(0, from) + std::string(sim::f(2) ? sz - from : sim::f(4096), '\0');
    sim::count("fault:zeros at the end");
    break;
  }
  case 6: { // flipped bits in the marker, the table of contents, the entries and their ID tables
    img = full;
    const int k = 1 + sim::f(2);
    for (int i = 0; i < k; ++i) {
      // not in the uncompressed header with the version, which has no redundancy
      const size_t lo = std::min<size_t>(sz - 1, 128);
      const size_t at = sim::f(3) ? lo + sim::f(sz - lo) : sz - 1 - sim::f(8);
      img[at] ^= 1 << sim::f(8);
    }
    sim::count("fault:flipped bits");
    break;
  }
  }
  d.files["/sim/d"] = img;
  sim::mix(sim::hashs(img));
  Lenient l{c};
  disk::st().rough = sim::w(3) == 2;
  l.endThere = img.size() == full.size() && img.substr(sz - 8) == full.substr(sz - 8);
  if (sim::w(6) == 5) {
    disk::st().eioRead = sim::f(20);
    l.intact = finished;
    finished = false;
  }
  if (finished) {
    podio::SIOReader r;
    r.openFile("/sim/d");
    checkCategories(r, c);
    for (auto& [cat, v] : c)
      for (size_t i = 0; i < v.size(); ++i) checkRead(r.readNextEntry(cat), v[i], "read back");
  } else {
    l.all("/sim/d");
    if (l.refused) sim::count("result:refused", l.refused);
    if (l.frames) sim::count("result:intact frame of a damaged file", l.frames);
  }
  sim::nontrivial();
}

// ---------------------------------------------------------------- S05
SIM_WORKLOAD(sio_writefail) {
  auto& d = disk::st();
  Content c;
  podio::SIOBlockLibraryLoader::instance();
  d.rough = sim::w(3) == 2;
  const int style = sim::f(6);
  switch (style) {
  case 0: break; // allocations only
  case 1: d.space = sim::f(2) ? sim::f(200) : sim::f(6000); break;
  case 2: d.space = sim::f(6000); d.spaceBack = sim::f(3); break;
  case 3: d.eioWrite = sim::f(12); break;
  case 4: d.eioWrite = sim::f(12); d.eioWriteN = 1 + sim::f(3); break;
  case 5: d.eioClose = 0; break;
  }
  const bool alloc = style == 0 || sim::f(3) == 2;
  std::unique_ptr<podio::SIOWriter> w;
  bool opened = false;
  try {
    sim::AllocFault af(alloc && sim::f(6) == 5 ? 1 + sim::f(40) : 0);
    if (sim::f(20) == 19) d.openFail = 0;
    w = std::make_unique<podio::SIOWriter>("/sim/a");
    opened = true;
  } catch (const std::exception& e) {
    sim::ev("opening failed: %s", e.what());
  }
  d.openFail = -1;
  if (!opened) {
    SIM_CHECK(disk::openHandles() == 0, "resource", "a writer that could not be made leaves its file open");
    return;
  }
  const int n = sim::w(5);
  int failed = 0;
  for (int i = 0; i < n; ++i) {
    Entry e{dml::gen(small(), 1 + 1000 * i), {}};
    maybeBig(e.m);
    e.av = dml::all(e.m);
    const std::string cat = CATS[sim::w(2)];
    podio::Frame f;
    dml::toFrame(f, e.m);
    std::optional<dm::MutablePart> loose; // an object that no collection has
    bool bad = false;
    if (sim::w(12) == 11) {
      // a type that the backend cannot write
      podio::LinkCollection<dm::Hit, dm::Obs> lc;
      if (sim::w(2)) lc.create().setWeight(2);
      f.put(std::move(lc), "unwritable");
      bad = true;
      sim::count("op:type without a block");
    } else if (sim::w(6) == 5) {
      loose.emplace();
      dm::PartCollection pc;
      pc.create().addToKids(*loose);
      f.put(std::move(pc), "unwritable");
      bad = true;
    }
    bool ok = true;
    try {
      sim::AllocFault af(alloc && sim::f(2) ? 1 + sim::f(sim::f(2) ? 30 : 150) : 0);
      w->writeFrame(f, cat);
    } catch (const std::exception& x) {
      sim::ev("frame %d as %s refused: %s", i, cat.c_str(), x.what());
      ok = false;
      ++failed;
    }
    if (ok) {
      SIM_CHECK(!bad, BIG, "a frame with a relation to an object that is in no collection was written");
      sim::ev("frame %d as %s accepted", i, cat.c_str());
      c[cat].push_back(std::move(e));
    } else if (!bad) {
      dml::checkFrame(f, e.m, "the frame that could not be written");
    }
  }
  bool fin = true;
  const int how = sim::w(3);
  if (how != 2) {
    try {
      sim::AllocFault af(alloc && sim::f(2) ? 1 + sim::f(60) : 0);
      w->finish();
      sim::ev("finished");
    } catch (const std::exception& x) {
      sim::ev("finish failed: %s", x.what());
      fin = false;
    }
    if (how == 1) {
      try {
        w->finish();
        sim::ev("finished again");
      } catch (const std::exception& x) {
        sim::ev("finishing again failed: %s", x.what());
        SIM_CHECK(!fin, "lost", "finishing again throws: %s", x.what());
      }
    }
  }
  const auto fired = d.fired;
  {
    sim::AllocFault af(how == 2 && alloc && sim::f(2) ? 1 + sim::f(60) : 0);
    w.reset();
    if (how == 2) fin = !af.fired() && d.fired == fired && !fired;
  }
  SIM_CHECK(disk::openHandles() == 0, "resource", "a destroyed writer leaves its file open");
  disk::calm();
  sim::mix(sim::hashs(d.files["/sim/a"]) + d.fired * 7 + failed * 3 + fin);
  if (fin) {
    podio::SIOReader r;
    try {
      r.openFile("/sim/a");
    } catch (const std::exception& x) {
      sim::fail("lost", "the writer finished normally, but the file cannot be opened: %s", x.what());
    }
    std::multiset<std::string> have;
    for (auto nme : r.getAvailableCategories()) have.insert(std::string(nme));
    for (auto& [cat, v] : c) {
      SIM_CHECK(have.count(cat) == 1, "lost", "the writer finished normally, but %s is missing", cat.c_str());
      SIM_CHECK(r.getEntries(cat) == v.size(), "lost", "the writer finished normally, but there are %u entries of %s instead of %zu", r.getEntries(cat), cat.c_str(), v.size());
      for (size_t i = 0; i < v.size(); ++i) {
        try {
          checkRead(r.readEntry(cat, i), v[i], "accepted and finished");
        } catch (const std::exception& x) {
          sim::fail("lost", "the writer finished normally, but entry %zu of %s cannot be read: %s", i, cat.c_str(), x.what());
        }
      }
    }
    SIM_CHECK(have.size() == c.size(), "lost", "there are %zu categories instead of %zu", have.size(), c.size());
    if (failed) sim::count("result:finished after failed writes");
  } else {
    sim::count("result:reported");
    Lenient l{c};
    l.all("/sim/a");
  }
  sim::nontrivial();
}

/// files of several GB: most of them only exists in the offsets
namespace {
std::vector<uint64_t>* toCome = nullptr; // gaps after the records of the entries
} // namespace
SIM_WORKLOAD(sio_large) {
  auto& d = disk::st();
  d.rough = sim::w(4) == 3;
  Content c;
  const int n = 1 + sim::w(5);
  std::vector<uint64_t> gaps(n);
  uint64_t sum = 0;
  static const uint64_t marks[] = {uint64_t(1) << 31, uint64_t(1) << 32, uint64_t(1) << 33, uint64_t(1) << 40};
  for (auto& g : gaps)
    if (sim::w(2)) {
      const uint64_t mark = marks[sim::w(sim::w(4) ? 2 : 4)];
      if (mark <= sum) continue;
      // up to the mark, or nearly, or a bit more
      switch (sim::w(4)) {
      case 0: g = mark - sum; break;
      case 1: g = mark - sum - std::min<uint64_t>(mark - sum, sim::w(5000)); break;
      case 2: g = mark - sum + sim::w(5000); break;
      case 3: g = mark - sum - std::min<uint64_t>(mark - sum, sim::w(40)); break;
      }
      sum += g;
      sim::count("op:gap");
    }
  std::reverse(gaps.begin(), gaps.end());
  toCome = &gaps;
  sio::sim_after_record = [](sio::ofstream& s, const std::string& name) {
    if (toCome->empty() || name.ends_with("_HEADER") || name.starts_with("podio") || name.starts_with("EDM")) return;
    const auto g = toCome->back();
    toCome->pop_back();
    if (!g) return;
    s.flush();
    disk::addGap("/sim/a", g);
    s.seekp(0, std::ios::end);
    sim::ev("%llu bytes of other records", (unsigned long long)g);
  };
  auto w = std::make_unique<podio::SIOWriter>("/sim/a");
  bool refused = false;
  for (int i = 0; i < n; ++i) {
    Entry e{dml::gen(small(), 1 + 1000 * i), {}};
    e.av = dml::all(e.m);
    const std::string cat = CATS[sim::w(2)];
    podio::Frame f;
    dml::toFrame(f, e.m);
    try {
      w->writeFrame(f, cat);
      c[cat].push_back(std::move(e));
    } catch (const std::exception& x) {
      sim::ev("frame %d refused: %s", i, x.what());
      refused = true;
      dml::checkFrame(f, e.m, "the frame that could not be written");
    }
  }
  bool fin = true;
  try {
    w->finish();
  } catch (const std::exception& x) {
    sim::ev("finish failed: %s", x.what());
    fin = false;
  }
  w.reset();
  sio::sim_after_record = nullptr;
  SIM_CHECK(disk::openHandles() == 0, "resource", "a destroyed writer leaves its file open");
  SIM_CHECK(sum >= (uint64_t(1) << 32) - 60000 || (fin && !refused), "lost", "a file of %llu bytes cannot be written", (unsigned long long)sum);
  sim::count(fin ? "result:finished" : "result:reported");
  if (fin && !c.empty()) {
    podio::SIOReader r;
    std::vector<std::pair<std::string, size_t>> order;
    for (auto& [cat, v] : c)
      for (size_t i = 0; i < v.size(); ++i) order.push_back({cat, i});
    for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[sim::w(k)]);
    try {
      r.openFile("/sim/a");
    } catch (const std::exception& x) {
      sim::fail("lost", "the writer finished normally, but the file cannot be opened: %s", x.what());
    }
    checkCategories(r, c);
    for (auto& [cat, i] : order) {
      try {
        checkRead(r.readEntry(cat, i), c[cat][i], "accepted and finished");
      } catch (const std::exception& x) {
        sim::fail("lost", "the writer finished normally, but entry %zu of %s cannot be read: %s", i, cat.c_str(), x.what());
      }
    }
  } else if (!fin) {
    Lenient l{c};
    l.all("/sim/a");
  }
  sim::nontrivial();
}

// ---------------------------------------------------------------- S07
namespace {
dml::GenCfg someCfg() {
  dml::GenCfg g;
  if (sim::w(3) == 0) g = small();
  g.hugeOneIn = 40;
  return g;
}
} // namespace
/// files of older and of newer versions: of podio and of the data model
SIM_WORKLOAD(sio_version) {
  auto& d = disk::st();
  d.rough = sim::w(4) == 3;
  struct VEntry {
    Entry e;
    std::set<size_t> newer; // collections that this library cannot read
  };
  std::map<std::string, std::vector<VEntry>> c;
  const int n = 1 + sim::w(3);
  size_t old = 0;
  {
    podio::SIOWriter w("/sim/a");
    for (int i = 0; i < n; ++i) {
      VEntry v{{dml::gen(someCfg(), 1 + 1000 * i), {}}, {}};
      auto& m = v.e.m;
      v.e.av = dml::all(m);
      for (auto& a : v.e.av) a = sim::w(5) != 4;
      auto f = source(m);
      bool subset = false;
      for (size_t k = 0; k < m.c.size(); ++k) {
        if (!v.e.av[k]) continue;
        subset |= m.c[k].subset;
        const uint32_t current = m.c[k].kind <= dml::PLAIN ? 3 : 1;
        uint32_t version = current;
        switch (sim::w(8)) {
        case 5: version = current + 1 + sim::w(3); break;
        case 6: version = sim::w(2) ? 0 : 1000; break;
        case 7: break;
        default: version = 1 + sim::w(current);
        }
        sio::sim_versions[m.c[k].name] = sio::version::encode_version(version, sim::w(3));
        sim::ev("%s (kind %d%s) has version %u", m.c[k].name.c_str(), m.c[k].kind, m.c[k].subset ? " subset" : "", version);
        if (version == 0 || version > current) v.newer.insert(k), sim::count("op:collection of a newer version");
        else if (version < current) ++old, sim::count("op:collection of an older version");
      }
      if (sim::w(8) == 7 && !m.c.empty()) {
        // a type that only the writing program knows
        const int kind = pick(m.c).kind;
        bool any = false;
        for (size_t k = 0; k < m.c.size(); ++k)
          if (m.c[k].kind == kind && v.e.av[k]) v.newer.insert(k), any = true;
        const auto vt = dml::withKind(kind, [&](auto* t) { return std::string(std::remove_pointer_t<decltype(t)>::valueTypeName); });
        sio::sim_strings[vt] = sim::w(2) ? "other::Type" : vt + "s";
        if (any) sim::count("op:collection of an unknown type");
      }
      // older files do not know subset collections, nor parameters of type double
      if (!subset && sim::w(4) == 3) sio::sim_versions["CollectionIDs"] = sio::version::encode_version(0, 1), sim::count("op:older table of collections");
      if (sim::w(4) == 3) {
        sio::sim_versions["EventMetaData"] = sio::version::encode_version(0, 1);
        sim::count("op:older parameters");
        const std::string cat = CATS[sim::w(2)];
        w.writeFrame(*f, cat, dml::namesOf(m, v.e.av));
        m.p.d.clear();
        c[cat].push_back(std::move(v));
      } else {
        const std::string cat = CATS[sim::w(2)];
        w.writeFrame(*f, cat, dml::namesOf(m, v.e.av));
        c[cat].push_back(std::move(v));
      }
      sio::sim_versions.clear();
      sio::sim_strings.clear();
    }
  }
  sim::mix(sim::hashs(d.files["/sim/a"]));
  podio::SIOReader r;
  r.openFile("/sim/a");
  std::vector<std::pair<std::string, size_t>> what;
  for (auto& [cat, v] : c) {
    SIM_CHECK(r.getEntries(cat) == v.size(), BIG, "%u entries of %s instead of %zu", r.getEntries(cat), cat.c_str(), v.size());
    for (size_t i = 0; i < v.size(); ++i) what.push_back({cat, i});
  }
  for (int k = sim::w(3); k--;) what.push_back(what[sim::w(what.size())]);
  for (size_t k = what.size(); k > 1; --k) std::swap(what[k - 1], what[sim::w(k)]);
  for (auto& [cat, i] : what) {
    const VEntry& v = c[cat][i];
    if (v.newer.empty()) {
      checkRead(r.readEntry(cat, i), v.e, "of older versions", true);
      continue;
    }
    // it has to be said that something cannot be read, by whatever comes first
    auto data = r.readEntry(cat, i);
    SIM_CHECK(data, BIG, "no data for an entry that was written");
    std::unique_ptr<podio::Frame> f;
    try {
      f = std::make_unique<podio::Frame>(std::move(data));
    } catch (const std::exception& x) {
      sim::ev("refused: %s", x.what());
      sim::count("result:refused");
      continue;
    }
    for (size_t k : v.newer) {
      const podio::CollectionBase* coll = nullptr;
      try {
        coll = f->get(v.e.m.c[k].name);
      } catch (const std::exception& x) {
        sim::count("result:refused");
      }
      SIM_CHECK(!coll, BIG, "collection %s, which has an unknown version or type, was read as if it had the current one", v.e.m.c[k].name.c_str());
    }
    // what is handed out of the others is right
    dml::Avail av = v.e.av;
    for (size_t k : v.newer) av[k] = 0;
    const dml::Checker chk(*f, v.e.m, av, "besides something that cannot be read");
    for (size_t k = 0; k < av.size(); ++k) {
      if (!av[k]) continue;
      const podio::CollectionBase* coll = nullptr;
      try {
        coll = f->get(v.e.m.c[k].name);
      } catch (const std::exception&) {
        sim::count("result:refused");
      }
      if (coll) chk.coll(coll, k);
    }
  }
  if (old) sim::nontrivial();
}

// ---------------------------------------------------------------- S08
namespace {
/// another event with the same collections
dml::MFrame sameLayout(const dml::MFrame& m, int base) {
  dml::MFrame r = m;
  for (auto& c : r.c) {
    for (auto& e : c.e) {
      e.v += base;
      for (auto& x : e.a) x += base;
      if (sim::w(3) == 2) e.o1 = {};
      if (sim::w(3) == 2) e.o2 = {};
      if (!e.m1.empty() && sim::w(3) == 2) e.m1.pop_back();
      if (!e.m2.empty() && sim::w(3) == 2) e.m2.erase(e.m2.begin());
      if (sim::w(4) == 3) e.b.clear();
    }
    if (!c.refs.empty() && sim::w(3) == 2) c.refs.pop_back();
  }
  for (auto& [k, v] : r.p.i)
    for (auto& x : v) x += base;
  if (sim::w(3) == 2) r.p.s.clear();
  return r;
}
uint32_t record(sio::ofstream& s, const std::string& name, const sio::block_list& blocks) {
  sio::buffer buf(1024), comp(1024);
  auto info = sio::api::write_record(name, buf, blocks, 0);
  sio::zlib_compression z;
  z.set_level(6);
  sio::api::compress_record(info, buf, comp, z);
  sio::api::write_record(s, buf.span(0, info._header_length), comp.span(), info);
  return uint32_t(info._file_start);
}
struct LegacyFile {
  std::string path;
  std::vector<Entry> es;
  bool toc = true;
  podio::version::Version version;
};
/// as the event store of older versions wrote it
void writeLegacy(LegacyFile& l, int base) {
  sio::ofstream s;
  s.open(l.path, std::ios::binary);
  l.version = {0, (uint16_t)sim::w(17), (uint16_t)sim::w(3)};
  dml::GenCfg g = small();
  g.hugeOneIn = 60;
  auto m = dml::gen(g, base);
  const int n = sim::w1in(120) ? 30 + sim::w(300) : sim::w(5);
  podio::SIOFileTOCRecord toc;
  const bool noise = sim::w(2);
  bool subset = false;
  for (auto& c : m.c) subset |= c.subset;
  const bool oldTable = !subset && sim::w(3) == 2, oldPars = sim::w(3) == 2;
  auto some = [&](const char* name) {
    // metadata of runs and collections: nothing that the reader looks at
    std::map<int, podio::GenericParameters> data;
    data[1].set("a", 1);
    auto b = std::make_shared<podio::SIONumberedMetaDataBlock>(name);
    b->data = &data;
    sio::block_list blocks{b};
    toc.addRecord(name, record(s, name, blocks));
    sim::count("op:other record");
  };
  for (int i = 0; i < std::max(n, 1); ++i) {
    Entry e{i ? sameLayout(m, 100000 * i) : m, {}};
    e.av = dml::all(e.m);
    podio::Frame f;
    dml::toFrame(f, e.m);
    std::vector<const podio::CollectionBase*> colls;
    for (auto& c : e.m.c) colls.push_back(f.getCollectionForWrite(c.name));
    if (i == 0) {
      std::vector<std::string> names, types;
      std::vector<uint32_t> ids;
      std::vector<short> sub;
      for (size_t k = 0; k < colls.size(); ++k) {
        names.push_back(e.m.c[k].name);
        ids.push_back(colls[k]->getID());
        types.emplace_back(colls[k]->getValueTypeName());
        sub.push_back(colls[k]->isSubsetCollection());
      }
      sio::block_list blocks{std::make_shared<podio::SIOCollectionIDTableBlock>(std::move(names), std::move(ids), std::move(types), std::move(sub)), std::make_shared<podio::SIOVersionBlock>(l.version)};
      if (oldTable) sio::sim_versions["CollectionIDs"] = sio::version::encode_version(0, 1);
      record(s, "CollectionIDs", blocks);
      sio::sim_versions.clear();
    }
    if (n == 0) break;
    if (noise && sim::w(3) == 2) some("run_metadata");
    auto pars = std::make_shared<podio::SIOEventMetaDataBlock>();
    pars->metadata = const_cast<podio::GenericParameters*>(&f.getParameters());
    sio::block_list blocks{pars};
    for (size_t k = 0; k < colls.size(); ++k) blocks.push_back(podio::SIOBlockFactory::instance().createBlock(colls[k], e.m.c[k].name));
    if (oldPars) {
      sio::sim_versions["EventMetaData"] = sio::version::encode_version(0, 1);
      e.m.p.d.clear();
    }
    toc.addRecord("event_record", record(s, "event_record", blocks));
    sio::sim_versions.clear();
    l.es.push_back(std::move(e));
  }
  if (noise && sim::w(2)) some("collection_metadata");
  l.toc = sim::w(4) != 3;
  if (l.toc) {
    sio::block_list blocks{std::make_shared<podio::SIOFileTOCRecordBlock>(&toc)};
    const uint64_t at = record(s, podio::sio_helpers::SIOTocRecordName, blocks);
    const uint64_t end = ((uint64_t)podio::sio_helpers::SIOTocMarker << 32) | at;
    s.write(reinterpret_cast<const char*>(&end), sizeof(end));
  }
  s.close();
  sim::mix(sim::hashs(disk::st().files[l.path]));
}
} // namespace
SIM_WORKLOAD(sio_legacy) {
  podio::SIOBlockLibraryLoader::instance();
  std::vector<LegacyFile> fs(1 + sim::w(2));
  for (size_t i = 0; i < fs.size(); ++i) {
    fs[i].path = "/sim/l" + std::to_string(i);
    writeLegacy(fs[i], 1 + 10 * i);
  }
  disk::st().rough = sim::w(3) == 2;
  struct R {
    std::unique_ptr<podio::SIOLegacyReader> r;
    size_t file = 0, next = 0;
  };
  std::vector<R> rs;
  struct Kept {
    std::unique_ptr<podio::Frame> f;
    const Entry* e;
  };
  std::vector<Kept> kept;
  const int ops = 3 + sim::w(20);
  size_t reads = 0;
  auto opened = [&](R& x) {
    const auto& f = fs[x.file];
    x.next = 0;
    SIM_CHECK(x.r->currentFileVersion() == f.version, BIG, "the file has another version");
    auto cats = x.r->getAvailableCategories();
    SIM_CHECK(cats.size() == 1 && cats[0] == "events", BIG, "there are other categories than events");
    SIM_CHECK(x.r->getEntries("events") == (f.toc ? f.es.size() : 0) && x.r->getEntries("runs") == 0, BIG, "%u entries instead of %zu", x.r->getEntries("events"), f.es.size());
  };
  for (int o = 0; o < ops; ++o) {
    if (rs.empty() || (rs.size() < 2 && sim::w(8) == 7)) {
      R x;
      x.r = std::make_unique<podio::SIOLegacyReader>();
      x.file = sim::w(fs.size());
      sim::ev("reader %zu opens file %zu", rs.size(), x.file);
      x.r->openFile(fs[x.file].path);
      opened(x);
      rs.push_back(std::move(x));
    }
    R& x = rs[sim::w(rs.size())];
    const LegacyFile& f = fs[x.file];
    auto got = [&](std::unique_ptr<podio::SIOFrameData> d, size_t i, const char* what) {
      sim::ev("%s: entry %zu of %zu", what, i, f.es.size());
      SIM_CHECK(!d == (i >= f.es.size()), BIG, "%s: %s data for entry %zu of %zu", what, d ? "there are" : "no", i, f.es.size());
      if (!d) return;
      ++reads;
      x.next = i + 1;
      if (sim::w(3) == 0) {
        kept.push_back({std::make_unique<podio::Frame>(std::move(d)), &f.es[i]});
        return;
      }
      checkRead(std::move(d), f.es[i], what);
    };
    switch (sim::w(8)) {
    case 0: case 1: case 2: got(x.r->readNextEntry("events"), x.next, "next"); break;
    case 3: case 4: {
      const size_t i = sim::w(f.es.size() + 2);
      auto d = x.r->readEntry("events", i);
      if (!f.toc) {
        SIM_CHECK(!d, BIG, "an entry is found without a table of contents");
        break;
      }
      got(std::move(d), i, "entry");
      break;
    }
    case 5:
      SIM_CHECK(!x.r->readNextEntry("runs") && !x.r->readEntry("", 0), BIG, "data for a category that is not there");
      break;
    case 6:
      if (sim::w(3) == 2) {
        x.file = sim::w(fs.size());
        sim::ev("open file %zu next", x.file);
        x.r->openFile(fs[x.file].path);
        opened(x);
        sim::count("op:another file");
      }
      break;
    case 7:
      if (!kept.empty()) {
        const size_t k = sim::w(kept.size());
        dml::checkFrame(*kept[k].f, kept[k].e->m, kept[k].e->av, "a frame used later");
        kept.erase(kept.begin() + k);
      }
      break;
    }
  }
  if (sim::w(2)) rs.clear();
  for (auto& k : kept) dml::checkFrame(*k.f, k.e->m, k.e->av, "a frame used later");
  if (reads > 1) sim::nontrivial();
  if (sim::f(3) == 2) {
    // only the begin of the file is there, as after a crash of its writer
    const LegacyFile& f = fs[0];
    auto img = disk::st().files[f.path];
    img.resize(sim::f(2) ? sim::f(img.size()) : img.size() - 1 - sim::f(std::min<size_t>(img.size(), 32)));
    disk::st().files["/sim/part"] = img;
    sim::count("fault:truncated");
    podio::SIOLegacyReader r;
    size_t i = 0;
    try {
      r.openFile("/sim/part");
      while (auto d = r.readNextEntry("events")) {
        SIM_CHECK(i < f.es.size(), BIG, "there are more entries than were written");
        podio::Frame fr(std::move(d));
        dml::checkFrame(fr, f.es[i].m, f.es[i].av, "read from a truncated file");
        ++i;
        sim::count("result:intact frame of a damaged file");
      }
    } catch (const std::exception& x) {
      sim::ev("refused: %s", x.what());
      sim::count("result:refused");
    }
  }
}

// ---------------------------------------------------------------- S10
#ifdef SIM_GOLDEN_MAKE
/// makes the files that sio_golden reads; not part of any check
SIM_WORKLOAD(golden_make) {
  sim::Quiet q;
  golden::File f;
  f.legacy = sim::w(4) == 3;
  if (f.legacy) {
    podio::SIOBlockLibraryLoader::instance();
    LegacyFile l;
    l.path = "/sim/g";
    writeLegacy(l, 1);
    if (l.es.size() > 5) return;
    f.toc = l.toc;
    f.version = l.version;
    f.c["events"] = l.es;
  } else if (sim::w(12) == 11) {
    // no entries, but other data models
    sio::ofstream s;
    s.open("/sim/g", std::ios::binary);
    f.version = {(uint16_t)sim::w(2), (uint16_t)(1 + sim::w(40)), (uint16_t)sim::w(300)};
    {
      sio::block_list blocks{std::make_shared<podio::SIOVersionBlock>(f.version)};
      podio::sio_utils::writeRecord(blocks, "podio_header_info", s, sizeof(f.version), false);
    }
    std::vector<std::tuple<std::string, std::string>> defs;
    std::vector<std::tuple<std::string, podio::version::Version>> vers;
    static const char* names[] = {"edm4hep", "edm4eic", "m", "a_data_model_with_a_long_name"};
    for (auto n : names) {
      if (sim::w(4) == 3) continue;
      const std::string def = std::string("{\"datatypes\": {\"") + n + "::X\": {}}, \"schema_version\": 1}" + std::string(sim::w(3) == 2 ? sim::w(3000) : 0, ' ');
      defs.emplace_back(n, def);
      f.definitions[n] = def;
      if (sim::w(3)) {
        const podio::version::Version v{(uint16_t)sim::w(3), (uint16_t)sim::w(100), (uint16_t)sim::w(1000)};
        vers.emplace_back(n, v);
        f.versions[n] = {v.major, v.minor, v.patch};
      }
    }
    sio::block_list blocks{std::make_shared<podio::SIOMapBlock<std::string, std::string>>(std::move(defs)), std::make_shared<podio::SIOMapBlock<std::string, podio::version::Version>>(std::move(vers))};
    podio::SIOFileTOCRecord toc;
    toc.addRecord(podio::sio_helpers::SIOEDMDefinitionName, podio::sio_utils::writeRecord(blocks, "EDMDefinitions", s));
    sio::block_list tb{std::make_shared<podio::SIOFileTOCRecordBlock>(&toc)};
    const uint64_t end = ((uint64_t)podio::sio_helpers::SIOTocMarker << 32) | (uint64_t)podio::sio_utils::writeRecord(tb, podio::sio_helpers::SIOTocRecordName, s);
    s.write(reinterpret_cast<const char*>(&end), sizeof(end));
    s.close();
  } else {
    podio::SIOWriter w("/sim/g");
    f.version = podio::version::build_version;
    bool dm = false;
    for (int i = 0, n = 1 + sim::w(3); i < n; ++i) {
      dml::GenCfg g;
      g.hugeOneIn = 0;
      Entry e{dml::gen(g, 1 + 1000 * i), {}};
      if (sim::w(12) == 11) {
        dml::MColl c;
        c.name = "many";
        c.kind = sim::w(dml::NKIND);
        for (size_t k = 0, m = 200 + sim::w(400); k < m; ++k) c.e.push_back({}), c.e.back().v = k % 50;
        e.m.c.push_back(std::move(c));
      }
      e.av = dml::all(e.m);
      podio::Frame fr;
      dml::toFrame(fr, e.m);
      const std::string cat = CATS[sim::w(4)];
      if (sim::w(4) == 3) {
        for (auto& a : e.av) a = sim::w(2);
        w.writeFrame(fr, cat, dml::namesOf(e.m, e.av));
      } else
        w.writeFrame(fr, cat);
      for (size_t k = 0; k < e.m.c.size(); ++k) dm |= e.av[k] && !dml::isUser(e.m.c[k].kind) && !dml::isLink(e.m.c[k].kind);
      f.c[cat].push_back(std::move(e));
    }
    w.finish();
    if (dm) f.definitions["dm"] = podio::DatamodelRegistry::instance().getDatamodelDefinition("dm");
  }
  f.bytes = disk::st().files["/sim/g"];
  if (f.bytes.size() < 30000) golden::keep(f);
}
#endif
namespace {
template <typename R> void readGolden(R& r, const golden::File& f) {
  struct Step {
    std::string cat;
    size_t i;
  };
  std::vector<Step> order;
  for (auto& [n, es] : f.c)
    for (size_t i = 0; i < es.size(); ++i) order.push_back({n, i});
  for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[sim::w(k)]);
  const bool next = !f.toc || sim::w(3) == 0;
  if (next)
    for (auto& s : order) s.i = 0;
  std::map<std::string, size_t> done;
  for (auto& s : order) {
    const Entry& e = f.c.at(s.cat)[next ? done[s.cat]++ : s.i];
    Entry part = e;
    std::vector<std::string> names;
    if constexpr (!std::is_same_v<R, podio::SIOLegacyReader>)
      if (sim::w(4) == 3) {
        for (auto& a : part.av) a = a && sim::w(2);
        names = dml::namesOf(part.m, part.av);
      }
    sim::ev("%s: entry %zu, %zu collections", s.cat.c_str(), s.i, names.size());
    if (names.empty()) part.av = e.av;
    auto d = [&] {
      if constexpr (std::is_same_v<R, podio::SIOLegacyReader>) return next ? r.readNextEntry(s.cat) : r.readEntry(s.cat, s.i);
      else return next ? r.readNextEntry(s.cat, names) : r.readEntry(s.cat, s.i, names);
    }();
    checkRead(std::move(d), part, "a file of an earlier build", true);
    sim::nontrivial();
  }
  if (next)
    for (auto& [n, es] : f.c) SIM_CHECK(!r.readNextEntry(n), BIG, "there are more entries than were written");
}
} // namespace
SIM_WORKLOAD(sio_golden) {
  const auto f = golden::draw();
  disk::st().files["/sim/g"] = f.bytes;
  disk::st().rough = sim::w(2);
  sim::count(f.legacy ? "op:legacy file of the archive" : "op:file of the archive");
  if (f.legacy) {
    podio::SIOBlockLibraryLoader::instance();
    podio::SIOLegacyReader r;
    r.openFile("/sim/g");
    SIM_CHECK(r.currentFileVersion() == f.version, BIG, "the file has another version");
    SIM_CHECK(r.getEntries("events") == (f.toc ? f.c.count("events") ? f.c.at("events").size() : 0 : 0), BIG, "the file has another number of entries");
    readGolden(r, f);
    return;
  }
  podio::SIOReader r;
  r.openFile("/sim/g");
  checkCategories(r, f.c);
  SIM_CHECK(r.currentFileVersion() == f.version, BIG, "the file has another version");
  auto defs = r.getAvailableDatamodels();
  SIM_CHECK(defs.size() == f.definitions.size(), BIG, "the file has %zu data models instead of %zu", defs.size(), f.definitions.size());
  for (auto& [n, def] : f.definitions) {
    SIM_CHECK(r.getDatamodelDefinition(n) == def, BIG, "the definition of %s is another one", n.c_str());
    auto v = r.currentFileVersion(n);
    SIM_CHECK(v.has_value() == (f.versions.count(n) > 0), BIG, "the data model %s has %s version", n.c_str(), v ? "a" : "no");
    if (v) {
      auto& w = f.versions.at(n);
      SIM_CHECK((*v == podio::version::Version{(uint16_t)w[0], (uint16_t)w[1], (uint16_t)w[2]}), BIG, "the version of %s is another one", n.c_str());
    }
  }
  sim::nontrivial();
  readGolden(r, f);
  if (sim::w(3) || f.c.empty()) return;
  // the new version passes on what the old one wrote
  podio::SIOWriter w("/sim/h");
  for (auto& [n, es] : f.c)
    for (size_t i = 0; i < es.size(); ++i) {
      podio::Frame fr(r.readEntry(n, i));
      w.writeFrame(fr, n);
    }
  w.finish();
  podio::SIOReader r2;
  r2.openFile("/sim/h");
  checkCategories(r2, f.c);
  readGolden(r2, f);
}
