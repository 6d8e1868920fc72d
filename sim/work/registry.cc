// C06: the registries for read buffers, schema evolution and data models
#include "podio/CollectionBase.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/CollectionBuffers.h"
#include "podio/DatamodelRegistry.h"
#include "podio/SchemaEvolution.h"
#include "simrt.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace {
using podio::CollectionReadBuffers;
const char* types[] = {"TACollection", "n::TypeWithAVeryLongNameThatNeedsTheHeapCollection", "TA", "podio::LinkCollection<TA,n::TB>", "TAACollection", ""};
const int NT = 6;

/// a creation function that marks what it makes
auto creator(int tag) {
  return [tag](bool subset) {
    
    return CollectionReadBuffers{new int(tag * 2 + subset), nullptr, nullptr, (podio::SchemaVersionT)tag, types[tag % NT], [](CollectionReadBuffers&&, bool) { return nullptr; },
                                 [](CollectionReadBuffers& b) {
                                   if (b.data) {
                                     
                                     delete static_cast<int*>(b.data);
                                     b.data = nullptr;
                                   }
                                 }};
  };
}
/// an evolution function that leaves its mark and tells the version it got
auto evolver(int tag) {
  return [tag](CollectionReadBuffers&& b, podio::SchemaVersionT v) {
    int* d = static_cast<int*>(b.data);
    *d = (*d * 1000 + tag) * 100 + (int)v;
    return std::move(b);
  };
}
CollectionReadBuffers fresh(int tag) { return creator(tag)(false); }

struct TypeModel {
  std::map<int, int> create; // version -> tag
  int current = 0;           // for evolution: given with the first function
  bool grows = false;        // some functions were given for a newer current version
  std::map<int, int> autoF, userF;
};
struct DM {
  std::string name, def;
  std::vector<std::string> typeNames;
  std::vector<std::vector<std::string_view>> rel, vec;
  podio::version::Version version;
};
} // namespace

SIM_WORKLOAD(registry) {
  auto& bf = podio::CollectionBufferFactory::mutInstance();
  auto& se = podio::SchemaEvolution::mutInstance();
  auto& dr = podio::DatamodelRegistry::mutInstance();
  const std::string own = "SimT"; // prefix, to be apart from types that podio registers itself
  TypeModel tm[NT];
  int tag = 1;
  // --- registrations of buffer creation and evolution, in any order
  struct Reg { int kind, type, version, tag, current = 0; };
  std::vector<Reg> regs;
  const int ntypes = 1 + sim::w(4), toff = sim::w(NT);
  auto rt = [&] { return (int)((sim::w(ntypes) + toff) % NT); };
  const int ncreate = sim::w(7);
  for (int i = 0; i < ncreate; ++i) regs.push_back({0, rt(), 1 + (int)(sim::w1in(10) ? 100 + sim::w(200) : sim::w(6)), tag++});
  for (int t = 0; t < NT; ++t) {
    if (sim::w(3) == 0) continue;
    const int cur = 1 + sim::w(4);
    const bool grows = sim::w(4) == 3;
    // documented: a function for every older version; possibly one for the current version as well
    const int upto = sim::w(2) ? cur : std::max(1, cur - 1);
    std::vector<Reg> r;
    for (int v = 1; v <= upto; ++v) {
      r.push_back({1, t, v, tag++});
    }
    for (int v = 1; v < cur; ++v)
      if (sim::w(3) == 2) {
        r.push_back({2, t, v, tag++});
      }
    for (auto& x : r) {
      x.current = cur;
      regs.insert(regs.begin() + sim::w(regs.size() + 1), x);
    }
    bool first = true;
    for (auto& x : regs)
      if (x.kind && x.type == t) {
        if (!first && grows && sim::w(2)) x.current += 1 + sim::w(40);
        first = false;
      }
  }
  // some are there from the start, the others come with libraries that are loaded later
  std::vector<Reg> given;
  auto registerUpTo = [&](size_t end) {
   while (given.size() < end) {
    const Reg r = regs[given.size()];
    given.push_back(r);
    const std::string name = own + types[r.type];
    sim::ev("register %s for %s version %d: %d", r.kind == 0 ? "buffers" : r.kind == 1 ? "generated evolution" : "user evolution", name.c_str(), r.version, r.tag);
    if (r.kind == 0) {
      bf.registerCreationFunc(name, r.version, creator(r.tag));
      tm[r.type].create[r.version] = r.tag;
    } else {
      auto& m = tm[r.type];
      if (!m.current) m.current = r.current;
      m.grows |= r.current != m.current;
      (r.kind == 1 ? m.autoF : m.userF)[r.version] = r.tag;
      se.registerEvolutionFunc(name, r.version, r.current, evolver(r.tag), r.kind == 1 ? podio::SchemaEvolution::Priority::AutoGenerated : podio::SchemaEvolution::Priority::UserDefined);
    }
    sim::count("op:register");
   }
  };
  const size_t cut = sim::w(2) ? regs.size() : sim::w(regs.size() + 1);
  registerUpTo(cut);
  // --- data models
  std::vector<std::unique_ptr<DM>> dms; // by the index they should have
  std::vector<std::unique_ptr<DM>> rejected;
  std::map<std::string, size_t> dmIdx;
  size_t base = 0;
  bool haveBase = false;
  std::map<std::string, std::pair<std::vector<std::string_view>, std::vector<std::string_view>>> relOf;
  static const char* mem[] = {"kids", "mother", "hits", "a_member_with_a_rather_long_name"};
  const int ndm = sim::w(7), cutDM = sim::w(2) ? ndm : (int)sim::w(ndm + 1);
  auto registerDM = [&] {
    auto d = std::make_unique<DM>();
    static const char* dn[] = {"sim_a", "sim_b", "sim_a_model_with_a_long_name_that_needs_the_heap", "sim_"};
    d->name = dn[sim::w(4)];
    d->def = "{def " + std::to_string(tag++) + (sim::w(2) ? std::string(40, '.') : "") + "}";
    d->version = {(uint16_t)tag, (uint16_t)sim::w(3), (uint16_t)sim::w(3)};
    const int nt = sim::w(4);
    podio::RelationNameMapping map;
    d->typeNames.reserve(8);
    for (int k = 0; k < nt; ++k) {
      static const char* tn[] = {"ns::Type", "Typ", "Type", "Collection", "ns::TypeCollectio", "CollectionOfType", "ns::TypeCollectionInfo", "LinkedType", "UserDataLike"};
      d->typeNames.push_back(tn[sim::w(9)]);
      std::vector<std::string_view> r, v;
      for (uint64_t j = sim::w(3); j; --j) r.push_back(mem[sim::w(4)]);
      for (uint64_t j = sim::w(3); j; --j) v.push_back(mem[sim::w(4)]);
      d->rel.push_back(r);
      d->vec.push_back(v);
    }
    // the registry keeps references to the mapping: it has static storage in generated code
    static std::vector<std::unique_ptr<podio::RelationNameMapping>> keep;
    auto pm = std::make_unique<podio::RelationNameMapping>();
    for (int k = 0; k < nt; ++k) pm->emplace_back(d->typeNames[k], d->rel[k], d->vec[k]);
    sim::ev("register datamodel %s", d->name.c_str());
    const size_t idx = dr.registerDatamodel(d->name, d->def, *pm, d->version);
    keep.push_back(std::move(pm));
    if (dmIdx.count(d->name)) {
      SIM_CHECK(idx == dmIdx[d->name], "wrong-data", "registering datamodel %s again gives index %zu instead of %zu", d->name.c_str(), idx, dmIdx[d->name]);
      rejected.push_back(std::move(d));
      return;
    }
    if (!haveBase) base = idx, haveBase = true;
    SIM_CHECK(idx == base + dms.size(), "wrong-data", "datamodel %s gets index %zu", d->name.c_str(), idx);
    dmIdx[d->name] = idx;
    for (int k = 0; k < nt; ++k) relOf.emplace(d->typeNames[k], std::make_pair(d->rel[k], d->vec[k]));
    dms.push_back(std::move(d));
  };
  for (int i = 0; i < cutDM; ++i) registerDM();
  // --- lookups from several threads
  auto lookCreate = [&](int t, int v, bool subset) {
    const auto& m = tm[t].create;
    auto b = bf.createBuffers(own + types[t], v, subset);
    if (m.empty() || v > m.rbegin()->first || v < 1) {
      SIM_CHECK(!b, "wrong-data", "there are buffers for version %d of %s, which is not known", v, types[t]);
      return;
    }
    SIM_CHECK(b && b->data, "wrong-data", "there are no buffers for version %d of %s", v, types[t]);
    const int got = *static_cast<int*>(b->data);
    SIM_CHECK((got & 1) == subset, "wrong-data", "buffers for version %d of %s: the subset flag is lost", v, types[t]);
    if (auto it = m.find(v); it != m.end()) {
      SIM_CHECK(got / 2 == it->second, "wrong-data", "buffers for version %d of %s come from function %d instead of %d", v, types[t], got / 2, it->second);
    } else {
      bool newer = false;
      // registering a version again replaces its function, so any function ever given for a newer version is fine
      for (auto& r : given) newer = newer || (r.kind == 0 && r.type == t && r.version > v && r.tag == got / 2);
      SIM_CHECK(newer, "wrong-data", "buffers for the unregistered version %d of %s come from function %d", v, types[t], got / 2);
    }
    SIM_CHECK(b->schemaVersion == (unsigned)(got / 2) && b->type == types[got / 2 % NT] && b->createCollection && b->deleteBuffers, "wrong-data", "buffers were damaged");
  };
  auto lookEvolve = [&](int t, int v) {
    const auto& m = tm[t];
    // not all of its functions are there yet, or the version is newer than the current one of its first function
    if (m.current && v && v < m.current && !m.userF.count(v) && !m.autoF.count(v)) return;
    if (m.grows && v > m.current) return;
    const int mark = 7;
    auto b = se.evolveBuffers(fresh(mark), v, own + types[t]);
    SIM_CHECK(b.data && b.schemaVersion == (unsigned)mark && b.type == types[mark % NT], "wrong-data", "evolving damaged the buffers");
    const int got = *static_cast<int*>(b.data);
    int want = mark * 2;
    if (m.current && v && v < m.current) {
      auto u = m.userF.find(v);
      want = (want * 1000 + (u != m.userF.end() ? u->second : m.autoF.at(v))) * 100 + v;
    }
    SIM_CHECK(got == want, "wrong-data", "evolving %s from version %d (current %d) gives %d instead of %d", types[t], v, m.current, got, want);
  };
  auto lookDM = [&](int k) {
    if (dms.empty()) return;
    const auto& d = *dms[k % dms.size()];
    const size_t idx = base + k % dms.size();
    SIM_CHECK(dr.getDatamodelName(idx) == d.name, "wrong-data", "datamodel %zu has another name", idx);
    SIM_CHECK(dr.getDatamodelDefinition(idx) == d.def && dr.getDatamodelDefinition(d.name) == d.def, "wrong-data", "datamodel %s has another definition", d.name.c_str());
    auto v = dr.getDatamodelVersion(d.name);
    SIM_CHECK(v && *v == d.version, "wrong-data", "datamodel %s has another version", d.name.c_str());
  };
  auto lookRel = [&](int k) {
    if (k >= 10) {
      auto r = dr.getRelationNames("podio::LinkCollection<a,b>");
      SIM_CHECK(r.relations.size() == 2 && r.relations[0] == "from" && r.relations[1] == "to" && r.vectorMembers.empty(), "wrong-data", "relations of a link");
      auto u = dr.getRelationNames("podio::UserDataCollection<int>");
      SIM_CHECK(u.relations.empty() && u.vectorMembers.empty(), "wrong-data", "relations of user data");
      SIM_CHECK(!dr.getDatamodelVersion("sim_unknown"), "wrong-data", "an unknown datamodel has a version");
      return;
    }
    static const char* tn[] = {"ns::Type", "Typ", "Type", "Collection", "ns::TypeCollectio", "n::Unknown", "CollectionOfType", "ns::TypeCollectionInfo", "LinkedType", "UserDataLike"};
    const std::string n = tn[k % 10];
    std::pair<std::vector<std::string_view>, std::vector<std::string_view>> want;
    if (auto it = relOf.find(n); it != relOf.end()) want = it->second;
    for (auto q : {n, n + "Collection"}) {
      auto r = dr.getRelationNames(q);
      SIM_CHECK(r.relations == want.first && r.vectorMembers == want.second, "wrong-data", "relation names of %s are wrong", q.c_str());
    }
  };
  struct L { int what, a, b; };
  const int nthreads = 1 + sim::w(5);
  std::vector<std::vector<L>> plan(nthreads);
  for (auto& p : plan) {
    const int n = 2 + sim::w(6);
    for (int i = 0; i < n; ++i) p.push_back({(int)sim::w(4), (int)sim::w(NT), (int)sim::w(11)});
  }
  auto look = [&] {
  for (int t = 0; t < nthreads; ++t)
    sim::spawn([&, t] {
      for (auto& l : plan[t]) {
        sim::ev("lookup %d of %d, %d", l.what, l.a, l.b);
        if (l.what == 0) lookCreate(l.a, l.b, l.b & 1);
        else if (l.what == 1) lookEvolve(l.a, l.b % 6);
        else if (l.what == 2) lookDM(l.b);
        else lookRel(l.b);
        sim::count("op:lookup");
      }
    });
  sim::join_all();
  for (int t = 0; t < NT; ++t) {
    for (int v = 0; v <= 7; ++v) lookCreate(t, v, v & 1);
    if (!tm[t].create.empty())
      for (int v : {tm[t].create.rbegin()->first, tm[t].create.rbegin()->first + 1, tm[t].create.rbegin()->first - 1}) lookCreate(t, v, v & 1);
    for (int v = 0; v <= 5; ++v) lookEvolve(t, v);
  }
  for (size_t k = 0; k < dms.size(); ++k) lookDM((int)k);
  for (int k = 0; k < 11; ++k) lookRel(k);
  };
  look();
  if (given.size() < regs.size() || cutDM < ndm) {
    sim::count("op:registered later");
    registerUpTo(regs.size());
    for (int i = cutDM; i < ndm; ++i) registerDM();
    look();
  }
  uint64_t h = dms.size();
  for (auto& r : regs) h = h * 31 + r.kind * 100 + r.type * 10 + r.version;
  sim::mix(h);
  if (regs.size() > 2) sim::nontrivial();
}
