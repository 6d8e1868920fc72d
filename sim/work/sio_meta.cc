// S06: what a file says about itself, with collections of several data models
#include "disk.h"
#include "dmlib.h"
#include "dm/DatamodelDefinition.h"
#include "dmx/DatamodelDefinition.h"
#include "dmx/ExtCollection.h"
#include "dmx/ExtHitCollection.h"
#include "dmy/DatamodelDefinition.h"
#include "dmy/YThingCollection.h"
#include "dmy/YYCollection.h"
#include "podio/LinkCollection.h"
#include "podio/SIOReader.h"
#include "podio/SIOWriter.h"

#include <cstdlib>
#include <cstring>
#include <sio/api.h>

namespace {
const char* BIG = "wrong-data";
const char* CATS[] = {"events", "events_HEADER", "runs", "podio_header_info", "e"};
struct NoLibs {
  NoLibs() {
    unsetenv("LD_LIBRARY_PATH");
    unsetenv("PODIO_SIOBLOCK_PATH");
  }
} noLibs;

struct Model {
  const char* name;
  std::string_view def;
  std::optional<podio::version::Version> version;
};
const Model MODELS[] = {{"dm", dm::meta::dm__JSONDefinition, std::nullopt},
                        {"dmx", dmx::meta::dmx__JSONDefinition, podio::version::Version{3, 1, 4}},
                        {"dmy", dmy::meta::dmy__JSONDefinition, podio::version::Version{0, 2, 0}}};

/// collections of the other data models, relations go into the first one
struct XElem {
  int n = 0;
  dml::Ref part;
  std::vector<dml::Ref> hits;
  std::vector<int> exts, more;
};
struct XLink {
  int from = -1;
  dml::Ref to;
};
struct YElem {
  int z = 0;
  std::vector<int> things;
};
struct Event {
  dml::MFrame m;
  std::optional<std::vector<XElem>> x;
  std::optional<std::vector<XLink>> xl;
  std::optional<std::vector<YElem>> y;
  std::optional<std::vector<int>> ysub; // elements of y, or of nothing that is there
  std::optional<std::vector<int>> yl;   // links from element i to itself
  std::vector<std::string> names() const {
    auto v = dml::namesOf(m, dml::all(m));
    if (x) v.push_back("ext");
    if (xl) v.push_back("extlinks");
    if (y) v.push_back("things");
    if (ysub) v.push_back("some things");
    if (yl) v.push_back("thing links");
    return v;
  }
};
Event gen(int base) {
  Event e;
  dml::GenCfg g;
  g.maxColls = 3;
  g.maxElems = 2;
  g.maxRel = 2;
  g.params = sim::w(4) == 3;
  g.hugeOneIn = 60;
  const int what = sim::w(4);
  if (what != 3) e.m = dml::gen(g, base);
  if (what == 2) { // nothing of the data model itself
    std::erase_if(e.m.c, [](auto& c) { return !dml::isUser(c.kind); });
    for (auto& c : e.m.c) c.subset = false, c.refs.clear();
  }
  auto ref = [&](int kind) {
    std::vector<dml::Ref> r;
    for (int c = 0; c < (int)e.m.c.size(); ++c)
      if (e.m.c[c].kind == kind && !e.m.c[c].subset)
        for (int i = 0; i < (int)e.m.c[c].e.size(); ++i) r.push_back({c, i});
    return r.empty() ? dml::Ref{} : r[sim::w(r.size())];
  };
  if (sim::w(3) == 2) {
    e.x.emplace();
    const int n = sim::w(4);
    for (int i = 0; i < n; ++i) {
      XElem x;
      x.n = base + i;
      if (sim::w(2)) x.part = ref(dml::PART);
      for (int k = sim::w(3); k--;)
        if (auto r = ref(dml::HIT); r.set()) x.hits.push_back(r);
      for (int k = sim::w(3); k--;) x.exts.push_back(sim::w(n));
      for (int k = sim::w(3); k--;) x.more.push_back(base + 10 * i + k);
      e.x->push_back(x);
    }
  }
  if (sim::w(3) == 2) {
    e.xl.emplace();
    for (int k = sim::w(3); k--;) {
      XLink l;
      if (e.x && !e.x->empty() && sim::w(3)) l.from = sim::w(e.x->size());
      if (sim::w(3)) l.to = ref(dml::HIT);
      e.xl->push_back(l);
    }
  }
  if (sim::w(3) == 2) {
    e.y.emplace();
    const int n = sim::w(4);
    for (int i = 0; i < n; ++i) {
      YElem y;
      y.z = (base + i) % 30000;
      for (int k = sim::w(3); k--;) y.things.push_back(sim::w(n));
      e.y->push_back(y);
    }
  }
  const int ny = e.y ? e.y->size() : 0;
  if (sim::w(4) == 3) {
    e.ysub.emplace();
    if (ny)
      for (int k = sim::w(3); k--;) e.ysub->push_back(sim::w(ny));
  }
  if (sim::w(4) == 3) {
    e.yl.emplace();
    if (ny)
      for (int k = sim::w(3); k--;) e.yl->push_back(sim::w(ny));
  }
  return e;
}
podio::Frame toFrame(const Event& e) {
  podio::Frame f;
  auto cs = dml::build(e.m);
  dmx::ExtCollection xc;
  dmx::ExtHitCollection xlc;
  YThingCollection yc, ys;
  dmy::YYCollection ylc;
  ys.setSubsetCollection();
  if (e.x) {
    for (auto& x : *e.x) {
      auto h = xc.create();
      h.setN(x.n);
      h.setPos(dml::mkV3(x.n));
      if (x.part.set()) h.setPart(dml::as<dm::PartCollection>(cs, x.part.c)[x.part.i]);
      for (auto& r : x.hits) h.addToHits(dml::as<dm::HitCollection>(cs, r.c)[r.i]);
      for (int m : x.more) h.addToMore(dml::mkV3(m));
    }
    for (size_t i = 0; i < e.x->size(); ++i)
      for (int k : (*e.x)[i].exts) xc[i].addToExts(xc[k]);
  }
  if (e.xl)
    for (auto& l : *e.xl) {
      auto h = xlc.create();
      if (l.from >= 0) h.setFrom(xc[l.from]);
      if (l.to.set()) h.setTo(dml::as<dm::HitCollection>(cs, l.to.c)[l.to.i]);
    }
  if (e.y) {
    for (auto& y : *e.y) {
      auto h = yc.create();
      h.c({y.z * 0.5f, y.z + 1});
      h.z(y.z);
    }
    for (size_t i = 0; i < e.y->size(); ++i)
      for (int k : (*e.y)[i].things) yc[i].addthings(yc[k]);
  }
  if (e.ysub)
    for (int k : *e.ysub) ys.push_back(yc[k]);
  if (e.yl)
    for (int k : *e.yl) {
      auto h = ylc.create();
      h.setFrom(yc[k]);
      h.setTo(yc[k]);
    }
  // collections of the models are put in any order
  auto putRest = [&] {
    if (e.x) f.put(std::move(xc), "ext");
    if (e.xl) f.put(std::move(xlc), "extlinks");
    if (e.y) f.put(std::move(yc), "things");
    if (e.ysub) f.put(std::move(ys), "some things");
    if (e.yl) f.put(std::move(ylc), "thing links");
  };
  const bool first = sim::w(2);
  if (first) putRest();
  for (size_t i = 0; i < cs.size(); ++i) f.put(std::move(cs[i]), e.m.c[i].name);
  if (!first) putRest();
  dml::putParams(f, e.m.p);
  return f;
}
struct Entry {
  Event e;
  std::set<std::string> sel; // what was written of it
};
struct File {
  std::string path;
  std::map<std::string, std::vector<Entry>> c;
  std::set<std::string> must, may; // data models
  podio::version::Version version = podio::version::build_version;
};
const char* modelOf(const Event& e, const std::string& name) {
  if (name == "ext") return "dmx";
  if (name == "things" || name == "some things") return "dmy";
  for (auto& c : e.m.c)
    if (c.name == name && c.kind <= dml::PLAIN) return "dm";
  return nullptr; // links and user data
}
void checkEntry(const podio::Frame& f, const Entry& en) {
  const Event& e = en.e;
  dml::Avail av;
  for (auto& c : e.m.c) av.push_back(en.sel.count(c.name));
  auto have = f.getAvailableCollections();
  SIM_CHECK(std::set<std::string>(have.begin(), have.end()) == en.sel && have.size() == en.sel.size(), BIG, "other collections are available than those written");
  auto order = std::vector<std::string>(en.sel.begin(), en.sel.end());
  for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[sim::w(k)]);
  for (auto& n : order) {
    auto* c = f.get(n);
    SIM_CHECK(c, BIG, "collection %s is missing", n.c_str());
    auto back = f.getName(*c);
    SIM_CHECK(back && *back == n, BIG, "the ID of %s belongs to '%s'", n.c_str(), back ? back->c_str() : "nothing");
    auto id = f.getCollectionIDTableForWrite().collectionID(n);
    SIM_CHECK(id && *id == c->getID(), BIG, "the ID of %s is not the one of the table", n.c_str());
  }
  dml::Checker chk(f, e.m, av, "read from a file with several data models");
  for (size_t i = 0; i < e.m.c.size(); ++i)
    if (av[i]) chk.coll(f.get(e.m.c[i].name), i);
  if (f.getParameterKeys<int>().size() + 0 != e.m.p.i.size()) sim::fail(BIG, "parameters are missing");
  chk.params();
  const dml::MColl none{.name = "ext", .kind = -1};
  if (en.sel.count("ext")) {
    auto& c = f.get<dmx::ExtCollection>("ext");
    SIM_CHECK(c.size() == e.x->size(), BIG, "ext has %zu elements instead of %zu", c.size(), e.x->size());
    for (size_t i = 0; i < c.size(); ++i) {
      auto& x = (*e.x)[i];
      SIM_CHECK(c[i].getN() == x.n && dml::eq(c[i].getPos(), dml::mkV3(x.n)), BIG, "element %zu of ext has other values", i);
      chk.one(c[i].getPart(), x.part, "part", none, i);
      chk.many(c[i].getHits(), x.hits, "hits", none, i);
      SIM_CHECK(c[i].getExts().size() == x.exts.size() && c[i].getMore().size() == x.more.size(), BIG, "element %zu of ext has other ranges", i);
      for (size_t k = 0; k < x.exts.size(); ++k) SIM_CHECK(c[i].getExts(k) == c[x.exts[k]], BIG, "exts of element %zu of ext are others", i);
      for (size_t k = 0; k < x.more.size(); ++k) SIM_CHECK(dml::eq(c[i].getMore(k), dml::mkV3(x.more[k])), BIG, "more of element %zu of ext are others", i);
    }
  }
  if (en.sel.count("extlinks")) {
    auto& c = f.get<dmx::ExtHitCollection>("extlinks");
    SIM_CHECK(c.size() == e.xl->size(), BIG, "extlinks has %zu elements instead of %zu", c.size(), e.xl->size());
    for (size_t i = 0; i < c.size(); ++i) {
      auto& l = (*e.xl)[i];
      if (l.from >= 0 && en.sel.count("ext")) SIM_CHECK(c[i].getFrom() == (f.get<dmx::ExtCollection>("ext")[l.from]), BIG, "link %zu comes from elsewhere", i);
      else SIM_CHECK(!c[i].getFrom().isAvailable(), BIG, "link %zu comes from somewhere", i);
      chk.one(c[i].getTo(), l.to, "to", none, i);
    }
  }
  const bool hasY = en.sel.count("things");
  if (hasY) {
    auto& c = f.get<YThingCollection>("things");
    SIM_CHECK(c.size() == e.y->size(), BIG, "things has %zu elements instead of %zu", c.size(), e.y->size());
    for (size_t i = 0; i < c.size(); ++i) {
      auto& y = (*e.y)[i];
      SIM_CHECK(c[i].c().x == y.z * 0.5f && c[i].c().y == y.z + 1 && c[i].y() == y.z + 1 && c[i].z() == y.z, BIG, "element %zu of things has other values", i);
      SIM_CHECK(c[i].things().size() == y.things.size(), BIG, "element %zu of things has another range", i);
      for (size_t k = 0; k < y.things.size(); ++k) SIM_CHECK(c[i].things(k) == c[y.things[k]], BIG, "things of element %zu of things are others", i);
    }
  }
  if (en.sel.count("some things")) {
    auto& c = f.get<YThingCollection>("some things");
    SIM_CHECK(c.size() == e.ysub->size() && c.isSubsetCollection(), BIG, "some things has %zu elements instead of %zu", c.size(), e.ysub->size());
    for (size_t i = 0; i < c.size(); ++i)
      if (hasY) SIM_CHECK(c[i] == (f.get<YThingCollection>("things")[(*e.ysub)[i]]), BIG, "element %zu of some things is another", i);
      else SIM_CHECK(!c[i].isAvailable(), BIG, "element %zu of some things is there", i);
  }
  if (en.sel.count("thing links")) {
    auto& c = f.get<dmy::YYCollection>("thing links");
    SIM_CHECK(c.size() == e.yl->size(), BIG, "thing links has %zu elements instead of %zu", c.size(), e.yl->size());
    for (size_t i = 0; i < c.size(); ++i)
      if (hasY) SIM_CHECK(c[i].getFrom() == c[i].getTo() && c[i].getFrom() == (f.get<YThingCollection>("things")[(*e.yl)[i]]), BIG, "thing link %zu is another", i);
      else SIM_CHECK(!c[i].getFrom().isAvailable() && !c[i].getTo().isAvailable(), BIG, "thing link %zu leads somewhere", i);
  }
  sim::count("op:entry read");
}
void checkMeta(const podio::SIOReader& r, const File& f) {
  std::multiset<std::string> have, want;
  for (auto n : r.getAvailableCategories()) have.insert(std::string(n));
  for (auto& [n, _] : f.c) want.insert(n);
  SIM_CHECK(have == want, BIG, "the file has %zu categories instead of %zu", have.size(), want.size());
  SIM_CHECK(r.currentFileVersion() == f.version, BIG, "the version of the file is %s instead of %s", std::string(r.currentFileVersion()).c_str(), std::string(f.version).c_str());
  std::multiset<std::string> models;
  for (auto& n : r.getAvailableDatamodels()) models.insert(n);
  for (auto& md : MODELS) {
    const std::string n = md.name;
    const size_t k = models.count(n);
    SIM_CHECK(k <= 1, BIG, "data model %s is there %zu times", md.name, k);
    if (f.must.count(n)) SIM_CHECK(k == 1, BIG, "the file lacks the definition of %s, whose types it holds", md.name);
    if (!f.must.count(n) && !f.may.count(n)) SIM_CHECK(k == 0, BIG, "the file has the definition of %s, of which it holds nothing", md.name);
    models.erase(n);
    const auto def = r.getDatamodelDefinition(md.name);
    const auto v = r.currentFileVersion(md.name);
    SIM_CHECK(def == (k ? md.def : std::string_view("{}")), BIG, "the definition of %s is another (%zu bytes instead of %zu)", md.name, def.size(), md.def.size());
    SIM_CHECK(v == (k ? md.version : std::nullopt), BIG, "the version of %s is %s", md.name, v ? std::string(*v).c_str() : "not there");
    sim::mix(sim::hashs(n) + k);
  }
  SIM_CHECK(models.empty(), BIG, "the file has an unknown data model %s", models.empty() ? "" : models.begin()->c_str());
  for (const char* n : {"nothing", "", "d", "dmxx", "DM"}) {
    SIM_CHECK(r.getDatamodelDefinition(n) == "{}", BIG, "a definition for the unknown model '%s'", n);
    SIM_CHECK(!r.currentFileVersion(n), BIG, "a version for the unknown model '%s'", n);
    if (!f.c.count(n)) SIM_CHECK(r.getEntries(n) == 0, BIG, "entries of the unknown category '%s'", n);
  }
  for (auto& [n, es] : f.c) SIM_CHECK(r.getEntries(n) == es.size(), BIG, "%u entries of %s instead of %zu", r.getEntries(n), n.c_str(), es.size());
  sim::count("op:metadata checked");
}
} // namespace

SIM_WORKLOAD(sio_meta) {
  auto& d = disk::st();
  d.rough = sim::w(3) == 2;
  podio::SIOBlockLibraryLoader::instance();
  if (sim::w(4) == 3) // a data model without any collections in the files
    podio::DatamodelRegistry::mutInstance().registerDatamodel("other", "{\"other\": 1}", {}, podio::version::Version{1, 2, 3});
  const int nf = 1 + sim::w(3);
  std::vector<File> files(nf);
  {
    std::vector<std::unique_ptr<podio::SIOWriter>> ws(nf);
    for (int k = 0; k < nf; ++k) files[k].path = "/sim/m" + std::to_string(k);
    const int ops = sim::w(9);
    for (int o = 0; o < ops; ++o) {
      const int k = sim::w(nf);
      auto& fl = files[k];
      if (!ws[k]) ws[k] = std::make_unique<podio::SIOWriter>(fl.path);
      Entry en{gen(1 + 1000 * o), {}};
      auto f = toFrame(en.e);
      auto names = en.e.names();
      const bool part = sim::w(3) == 2;
      if (part) {
        std::erase_if(names, [](auto&) { return sim::w(3) == 2; });
        for (size_t q = names.size(); q > 1; --q) std::swap(names[q - 1], names[sim::w(q)]);
      }
      en.sel = {names.begin(), names.end()};
      const std::string cat = CATS[sim::w(5)];
      bool ok = true, bad = false;
      if (sim::w(8) == 7) { // a write that fails
        bad = true;
        if (sim::w(2)) {
          podio::LinkCollection<dm::Hit, dm::Obs> lc;
          f.put(std::move(lc), "unwritable");
          names.insert(names.begin() + sim::w(names.size() + 1), "unwritable");
        } else
          names.insert(names.begin() + sim::w(names.size() + 1), "not there");
      }
      std::set<std::string> used;
      for (auto& n : en.sel)
        if (auto* m = modelOf(en.e, n)) used.insert(m);
      sim::ev("write %zu of %zu collections as %s to file %d%s", names.size(), en.e.names().size(), cat.c_str(), k, bad ? ", which fails" : "");
      try {
        sim::AllocFault af(sim::f(10) == 9 ? 1 + sim::f(150) : 0);
        if (part || bad) ws[k]->writeFrame(f, cat, names);
        else ws[k]->writeFrame(f, cat);
      } catch (const std::exception& x) {
        ok = false;
      }
      SIM_CHECK(!(ok && bad), BIG, "a frame that cannot be written was accepted");
      if (ok) {
        fl.must.merge(used);
        fl.c[cat].push_back(std::move(en));
      } else
        fl.may.merge(used);
      // finished early: the others go on
      if (sim::w(12) == 11 && o + nf < ops) {
        ws[k]->finish();
      }
      if (sim::w(12) == 11 && o + 1 < ops) {
        // another file of the same name
        ws[k].reset();
        fl = File{.path = fl.path};
        sim::ev("file %d is started again", k);
      }
    }
    for (int k = 0; k < nf; ++k) {
      if (!ws[k]) ws[k] = std::make_unique<podio::SIOWriter>(files[k].path);
      if (sim::w(2)) ws[k]->finish();
    }
  }
  for (auto& f : files) sim::mix(sim::hashs(d.files[f.path]));
  // files of another version of podio
  for (auto& f : files)
    if (sim::w(4) == 3) {
      auto& img = d.files[f.path];
      f.version = {(uint16_t)sim::w(3), (uint16_t)sim::w(300), (uint16_t)(1 + sim::w(9))};
      sio::block_list blocks;
      blocks.push_back(std::make_shared<podio::SIOVersionBlock>(f.version));
      sio::buffer buf(1024);
      sio::api::write_record("podio_header_info", buf, blocks, 0);
      SIM_CHECK(img.size() > buf.size() && !memcmp(img.data(), buf.data(), 16), "harness", "the first record of the file is another");
      memcpy(img.data(), buf.data(), buf.size());
      sim::count("op:file of another version");
    }
  std::vector<std::unique_ptr<podio::SIOReader>> rs(1 + sim::w(2));
  const int reads = nf + sim::w(4);
  size_t total = 0;
  for (int o = 0; o < reads; ++o) {
    auto& r = rs[sim::w(rs.size())];
    if (!r) {
      r = std::make_unique<podio::SIOReader>();
      SIM_CHECK(r->getAvailableDatamodels().empty() && r->getDatamodelDefinition("dm") == "{}" && r->getAvailableCategories().empty(), BIG, "a reader without a file knows something");
    }
    const File& f = o < nf ? files[o] : files[sim::w(nf)];
    sim::ev("open %s", f.path.c_str());
    r->openFile(f.path);
    checkMeta(*r, f);
    for (auto& [cat, es] : f.c)
      for (size_t i = 0; i < es.size(); ++i) {
        podio::Frame fr(r->readNextEntry(cat));
        checkEntry(fr, es[i]);
        ++total;
      }
    if (sim::w(2)) checkMeta(*r, f);
  }
  if (total > 1) sim::nontrivial();
}
