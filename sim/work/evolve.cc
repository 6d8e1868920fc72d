// S07: collections stored with older schema versions, evolved while a Frame
// unpacks them
#include "dmlib.h"
#include "podio/SchemaEvolution.h"

namespace {
constexpr int CUR = 3; // schema version of the data model
/// Old versions store other values: turns the current ones into those of
/// version v (sign == +1) and back (sign == -1)
void shift(podio::CollectionReadBuffers& b, int kind, int v, int sign) {
  const int s = sign * v;
  switch (kind) {
  case dml::HIT:
    for (auto& x : *b.dataAsVector<dm::HitData>()) x.cell += s, x.nest.flag += s;
    break;
  case dml::PART:
    for (auto& x : *b.dataAsVector<dm::PartData>()) x.pdg += 100 * s;
    for (auto& x : *static_cast<std::vector<int32_t>*>((*b.vectorMembers)[0].second)) x += s;
    break;
  case dml::CLU:
    for (auto& x : *b.dataAsVector<dm::CluData>()) x.energy += 1000. * s;
    break;
  case dml::OBS:
    for (auto& x : *b.dataAsVector<dm::ObsData>()) x.n += s;
    break;
  case dml::PLAIN:
    for (auto& x : *b.dataAsVector<PlainData>()) x.n += s;
    break;
  }
  if (b.references) // also where the relations lead has another encoding
    for (auto& r : *b.references)
      for (auto& id : *r)
        if (id.index >= 0) id.index += 5 * s;
}
const char* typeOf(int kind) {
  switch (kind) {
  case dml::HIT: return "dm::HitCollection";
  case dml::PART: return "dm::PartCollection";
  case dml::CLU: return "dm::CluCollection";
  case dml::OBS: return "dm::ObsCollection";
  default: return "PlainCollection";
  }
}
struct Calls {
  std::mutex m;
  std::map<std::pair<int, int>, int> n; // kind, version
  std::map<const void*, int> seen;      // by the data of the buffers
};
template <typename T> void vec(podio::VectorMembersInfo* to, podio::VectorMembersInfo* from, size_t i) {
  *static_cast<std::vector<T>*>((*to)[i].second) = *static_cast<std::vector<T>*>((*from)[i].second);
}
enum What { IN_PLACE, NEW_BUFFERS, NOTHING_TO_DO };
std::function<podio::CollectionReadBuffers(podio::CollectionReadBuffers&&, podio::SchemaVersionT)> evolution(Calls* calls, int kind, int version, int what, int says, bool wrong = false) {
  return [=](podio::CollectionReadBuffers&& b, podio::SchemaVersionT from) {
    SIM_CHECK(!wrong, "wrong-data", "a function that has been replaced evolves %s from version %u", typeOf(kind), from);
    SIM_CHECK(b.type == typeOf(kind), "wrong-data", "the function for %s evolves %s", typeOf(kind), std::string(b.type).c_str());
    SIM_CHECK((int)from == version && (int)b.schemaVersion == version, "wrong-data", "the function for version %d evolves version %u (%u)", version, from, b.schemaVersion);
    {
      std::lock_guard l(calls->m);
      ++calls->n[{kind, version}];
    }
    sim::count("op:evolution");
    if (what == NEW_BUFFERS) {
      // as a function does that changes the layout: into other buffers
      auto n = podio::CollectionBufferFactory::instance().createBuffers(std::string(b.type), CUR, false);
      SIM_CHECK(n, "harness", "no buffers for %s", typeOf(kind));
      sim::yield_point();
      for (size_t i = 0; i < b.references->size(); ++i) *(*n->references)[i] = *(*b.references)[i];
      auto copy = [&](auto* t) {
        using V = std::vector<std::remove_pointer_t<decltype(t)>>;
        *static_cast<V*>(n->data) = *static_cast<V*>(b.data);
      };
      switch (kind) {
      case dml::HIT: copy((dm::HitData*)0); break;
      case dml::PART:
        copy((dm::PartData*)0);
        vec<int32_t>(n->vectorMembers, b.vectorMembers, 0);
        vec<dm::V3>(n->vectorMembers, b.vectorMembers, 1);
        break;
      case dml::CLU:
        copy((dm::CluData*)0);
        vec<float>(n->vectorMembers, b.vectorMembers, 0);
        break;
      case dml::OBS: copy((dm::ObsData*)0); break;
      case dml::PLAIN: copy((PlainData*)0); break;
      }
      shift(*n, kind, version, -1);
      n->schemaVersion = says; // not every function gets this right
      return std::move(*n);
    }
    if (what == IN_PLACE) shift(b, kind, version, -1);
    return std::move(b);
  };
}
} // namespace

SIM_WORKLOAD(evolve) {
  auto& se = podio::SchemaEvolution::mutInstance();
  auto calls = std::make_unique<Calls>();
  // --- which functions there are
  int how[dml::NKIND][CUR] = {}; // [kind][version]: 0: the generated one, which does nothing; 1 + What
  for (int kind = 0; kind <= dml::PLAIN; ++kind)
    for (int v = 1; v < CUR; ++v) {
      if (sim::w(3) == 0) continue;
      const int what = sim::w(2);
      how[kind][v] = 1 + what;
      const int says = sim::w(2) ? CUR : 1 + sim::w(CUR);
      using P = podio::SchemaEvolution::Priority;
      if (sim::w(4) == 3) se.registerEvolutionFunc(typeOf(kind), v, CUR, evolution(calls.get(), kind, v, what, says, true), P::UserDefined);
      se.registerEvolutionFunc(typeOf(kind), v, CUR, evolution(calls.get(), kind, v, what, says), P::UserDefined);
      // a library that is loaded later
      if (sim::w(3) == 2) se.registerEvolutionFunc(typeOf(kind), v, CUR, podio::SchemaEvolution::noOpSchemaEvolution, P::AutoGenerated);
    }
  // --- the event
  dml::GenCfg g;
  g.maxColls = 5;
  g.maxElems = 3;
  g.params = false;
  g.hugeOneIn = 60;
  const auto m = dml::gen(g);
  dml::Avail av = dml::all(m);
  if (sim::w(4) == 3)
    for (auto& a : av) a = sim::w(4) != 3;
  std::map<std::pair<int, int>, int> want;
  auto makeFrame = [&] {
    podio::Frame src;
    dml::toFrame(src, m);
    auto d = dml::MemData::from(src, dml::namesOf(m, av));
    for (size_t i = 0; i < m.c.size(); ++i) {
      if (!av[i]) continue;
      auto& b = d->bufs.at(m.c[i].name);
      const int kind = m.c[i].kind;
      const int v = 1 + sim::w(CUR);
      if (kind > dml::PLAIN) continue; // links and user data have one version only
      b.schemaVersion = v;
      sim::mix(kind * 10 + v);
      sim::ev("%s: %s%s of version %d, function %d", m.c[i].name.c_str(), typeOf(kind), m.c[i].subset ? " (subset)" : "", v, v < CUR ? how[kind][v] : 0);
      if (m.c[i].subset || v == CUR || !how[kind][v]) continue;
      shift(b, kind, v, +1);
      ++want[{kind, v}];
    }
    return podio::Frame(std::move(d));
  };
  // one to three Frames with the same content in different versions
  const int nframes = sim::w(3) ? 1 : 2 + sim::w(2);
  std::vector<podio::Frame> frames;
  for (int i = 0; i < nframes; ++i) frames.push_back(makeFrame());
  std::vector<dml::Checker> chks;
  for (auto& f : frames) chks.emplace_back(f, m, av, "read from an older version");
  const int nthreads = 1 + sim::w(4);
  std::vector<std::vector<std::pair<int, int>>> plan(nthreads);
  for (auto& p : plan) {
    const int n = 1 + sim::w(3);
    for (int i = 0; i < n; ++i) {
      const int ci = sim::w(m.c.size());
      p.emplace_back(sim::w(nframes), ci);
    }
  }
  auto work = [&](int t) {
    for (auto [fi, ci] : plan[t]) {
      auto* c = frames[fi].get(m.c[ci].name);
      if (av[ci]) chks[fi].coll(c, ci);
      else SIM_CHECK(!c, "wrong-data", "a collection that is not in the data was found");
      sim::count("op:get");
    }
  };
  if (nthreads == 1) work(0);
  else {
    for (int t = 0; t < nthreads; ++t) sim::spawn([&, t] { work(t); });
    sim::join_all();
  }
  for (auto& frame : frames)
    if (sim::w(4) == 3) {
      podio::Frame other(std::move(frame));
      dml::checkFrame(other, m, av, "read from an older version, moved");
    } else
      dml::checkFrame(frame, m, av, "read from an older version");
  for (int kind = 0; kind <= dml::PLAIN; ++kind)
    for (int v = 1; v < CUR; ++v) {
      const std::pair k{kind, v};
      SIM_CHECK(calls->n[k] == want[k], "wrong-data", "%d collections of %s have version %d, but %d were evolved", want[k], typeOf(kind), v, calls->n[k]);
    }
  if (!want.empty()) sim::nontrivial();
}
