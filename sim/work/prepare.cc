// C05: preparing the collections of a Frame for writing, from several threads
#include "dmlib.h"
#include <deque>

using namespace dml;
namespace {
struct Expect {
  const MFrame& m;
  const std::vector<uint32_t>& ids;
  const char* where;

  void refs(const std::vector<podio::ObjectID>& got, const std::vector<Ref>& want, const char* what, const MColl& mc) const {
    SIM_CHECK(got.size() == want.size(), "wrong-buffers", "%s: the buffer of %s of %s (kind %d) has %zu entries instead of %zu", where, what, mc.name.c_str(), mc.kind, got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i) {
      const podio::ObjectID w = want[i].set() ? podio::ObjectID{want[i].i, ids[want[i].c]} : podio::ObjectID{podio::ObjectID::invalid, 0};
      if (want[i].set())
        SIM_CHECK(got[i] == w, "wrong-buffers", "%s: entry %zu of %s of %s is %d of %08x instead of %d of %08x", where, i, what, mc.name.c_str(), got[i].index, got[i].collectionID, w.index, w.collectionID);
      else
        SIM_CHECK(got[i].index < 0, "wrong-buffers", "%s: entry %zu of %s of %s is set", where, i, what, mc.name.c_str());
    }
  }
  template <typename T, typename F> void vec(void* p, const MColl& mc, std::vector<int> MElem::* mem, const char* what, F conv) const {
    const auto& v = **static_cast<std::vector<T>**>(p);
    std::vector<T> want;
    for (auto& e : mc.e)
      for (int x : e.*mem) want.push_back(conv(x));
    SIM_CHECK(v.size() == want.size(), "wrong-buffers", "%s: the buffer of %s of %s has %zu values instead of %zu", where, what, mc.name.c_str(), v.size(), want.size());
    for (size_t i = 0; i < v.size(); ++i) {
      bool same;
      if constexpr (std::is_same_v<T, dm::V3>) same = eq(v[i], want[i]);
      else same = v[i] == want[i];
      SIM_CHECK(same, "wrong-buffers", "%s: value %zu in the buffer of %s of %s is wrong", where, i, what, mc.name.c_str());
    }
  }
  template <typename D, typename F> const std::vector<D>& data(const podio::CollectionWriteBuffers& b, const MColl& mc, F same) const {
    const auto& v = *static_cast<std::vector<D>*>(b.vecPtr);
    SIM_CHECK(v.size() == mc.e.size(), "wrong-buffers", "%s: the data buffer of %s (kind %d) has %zu elements instead of %zu", where, mc.name.c_str(), mc.kind, v.size(), mc.e.size());
    for (size_t i = 0; i < v.size(); ++i) SIM_CHECK(same(v[i], mc.e[i].v), "wrong-buffers", "%s: element %zu in the data buffer of %s is wrong", where, i, mc.name.c_str());
    return v;
  }
  template <typename D> void ranges(const std::vector<D>& v, const MColl& mc, unsigned D::* b, unsigned D::* e, auto sizeOf, const char* what) const {
    unsigned at = 0;
    for (size_t i = 0; i < v.size(); ++i) {
      const unsigned n = sizeOf(mc.e[i]);
      SIM_CHECK(v[i].*e - v[i].*b == n && (n == 0 || v[i].*b == at), "wrong-buffers", "%s: the range of %s of element %zu of %s is %u..%u instead of %u..%u", where, what, i, mc.name.c_str(), v[i].*b, v[i].*e, at, at + n);
      at += n;
    }
  }
  void operator()(const podio::CollectionBase* c, int ci) const {
    const MColl& mc = m.c[ci];
    podio::CollectionWriteBuffers b = const_cast<podio::CollectionBase*>(c)->getBuffers();
    auto flat = [&](std::vector<Ref> MElem::* mem) {
      std::vector<Ref> r;
      for (auto& e : mc.e) r.insert(r.end(), (e.*mem).begin(), (e.*mem).end());
      return r;
    };
    auto single = [&](Ref MElem::* mem) {
      std::vector<Ref> r;
      for (auto& e : mc.e) r.push_back(e.*mem);
      return r;
    };
    auto& R = *b.references;
    if (mc.subset) {
      SIM_CHECK(!b.data, "wrong-buffers", "%s: subset collection %s has data", where, mc.name.c_str());
      SIM_CHECK(R.size() == 1, "wrong-buffers", "%s: subset collection %s has %zu reference buffers", where, mc.name.c_str(), R.size());
      refs(*R[0], mc.refs, "the references", mc);
      return;
    }
    auto nrefs = [&](size_t n) { SIM_CHECK(R.size() == n, "wrong-buffers", "%s: %s has %zu reference buffers instead of %zu", where, mc.name.c_str(), R.size(), n); };
    auto sz = [](std::vector<int> MElem::* mem) { return [mem](const MElem& e) { return (unsigned)(e.*mem).size(); }; };
    auto rz = [](std::vector<Ref> MElem::* mem) { return [mem](const MElem& e) { return (unsigned)(e.*mem).size(); }; };
    switch (mc.kind) {
    case HIT:
      nrefs(0);
      data<dm::HitData>(b, mc, [](const dm::HitData& d, int v) { return d.energy == v * 0.5 && d.cell == (uint64_t)v * 0x9E3779B97F4A7C15ull && eq(d.nest.v, mkV3(v)) && d.on == (bool)(v & 1) && d.arr[1] == v * 2.5f; });
      break;
    case PART: {
      nrefs(4);
      auto& d = data<dm::PartData>(b, mc, [](const dm::PartData& d, int v) { return d.pdg == v && d.energy == v * 0.75; });
      ranges(d, mc, &dm::PartData::codes_begin, &dm::PartData::codes_end, sz(&MElem::a), "codes");
      ranges(d, mc, &dm::PartData::pts_begin, &dm::PartData::pts_end, sz(&MElem::b), "pts");
      ranges(d, mc, &dm::PartData::kids_begin, &dm::PartData::kids_end, rz(&MElem::m1), "kids");
      ranges(d, mc, &dm::PartData::hits_begin, &dm::PartData::hits_end, rz(&MElem::m2), "hits");
      vec<int32_t>((*b.vectorMembers)[0].second, mc, &MElem::a, "codes", [](int x) { return x; });
      vec<dm::V3>((*b.vectorMembers)[1].second, mc, &MElem::b, "pts", [](int x) { return mkV3(x); });
      refs(*R[0], flat(&MElem::m1), "kids", mc);
      refs(*R[1], flat(&MElem::m2), "hits", mc);
      refs(*R[2], single(&MElem::o1), "mother", mc);
      refs(*R[3], single(&MElem::o2), "clu", mc);
      break;
    }
    case CLU: {
      nrefs(2);
      auto& d = data<dm::CluData>(b, mc, [](const dm::CluData& d, int v) { return d.energy == v * 1.25; });
      ranges(d, mc, &dm::CluData::w_begin, &dm::CluData::w_end, sz(&MElem::a), "w");
      ranges(d, mc, &dm::CluData::subs_begin, &dm::CluData::subs_end, rz(&MElem::m1), "subs");
      vec<float>((*b.vectorMembers)[0].second, mc, &MElem::a, "w", [](int x) { return x * 0.5f; });
      refs(*R[0], flat(&MElem::m1), "subs", mc);
      refs(*R[1], single(&MElem::o1), "lead", mc);
      break;
    }
    case OBS: {
      nrefs(4);
      auto& d = data<dm::ObsData>(b, mc, [](const dm::ObsData& d, int v) { return d.n == (int16_t)v; });
      ranges(d, mc, &dm::ObsData::things_begin, &dm::ObsData::things_end, rz(&MElem::m2), "things");
      ranges(d, mc, &dm::ObsData::clus_begin, &dm::ObsData::clus_end, rz(&MElem::m1), "clus");
      refs(*R[0], flat(&MElem::m2), "things", mc);
      refs(*R[1], flat(&MElem::m1), "clus", mc);
      refs(*R[2], single(&MElem::o2), "any", mc);
      refs(*R[3], single(&MElem::o1), "next", mc);
      break;
    }
    case PLAIN:
      nrefs(0);
      data<PlainData>(b, mc, [](const PlainData& d, int v) { return d.n == v; });
      break;
    case LHP: case LPP: case LCA:
      nrefs(2);
      data<podio::LinkData>(b, mc, [](const podio::LinkData& d, int v) { return d.weight == v * 0.5f; });
      refs(*R[0], single(&MElem::o1), "from", mc);
      refs(*R[1], single(&MElem::o2), "to", mc);
      break;
    default:
      withKind(mc.kind, [&](auto* t) {
        using C = std::remove_pointer_t<decltype(t)>;
        if constexpr (isUserColl<C>) {
          using T = typename C::value_type;
          data<T>(b, mc, [](T x, int v) { return x == uval<T>(v); });
        }
      });
    }
  }
};
} // namespace

SIM_WORKLOAD(prepare) {
  GenCfg g;
  g.maxColls = 5;
  g.maxElems = 3;
  g.params = false;
  g.hugeOneIn = 100;
  MFrame m = gen(g);
  const bool raw = sim::w(5) == 4;
  const int nthreads = 1 + sim::w(4);
  // objects that are related to before any collection has them
  std::vector<dm::MutablePart> lateP;
  std::vector<dm::MutableHit> lateH;
  std::vector<dm::MutableClu> lateC;
  std::vector<char> blocked(m.c.size(), 0);
  podio::Frame* f;
  const int nc0 = m.c.size();
  int iP = -1, iH = -1, iC = -1;
  if (raw) {
    f = new podio::Frame(rawFrame(m, all(m)));
  } else {
    f = new podio::Frame();
    auto cs = build(m);
    if (sim::w(3) == 2) {
      auto late = [&](int kind, const char* name) {
        MColl c;
        c.kind = kind;
        c.name = name;
        m.c.push_back(c);
        return (int)m.c.size() - 1;
      };
      iP = late(PART, "late particles");
      iH = late(HIT, "late hits");
      iC = late(CLU, "late clusters");
      int next = 5000;
      for (int ci = 0; ci < nc0; ++ci) {
        if (m.c[ci].subset) continue;
        for (size_t i = 0; i < m.c[ci].e.size(); ++i) {
          if (sim::w(3) != 2) continue;
          MElem& e = m.c[ci].e[i];
          auto newElem = [&](int c) {
            MElem x;
            x.v = next++;
            m.c[c].e.push_back(x);
            return Ref{c, (int)m.c[c].e.size() - 1};
          };
          if (m.c[ci].kind == PART && sim::w(2)) {
            auto& h = lateH.emplace_back();
            const Ref r = newElem(iH);
            fill(h, m.c[iH].e.back().v);
            as<dm::PartCollection>(cs, ci)[i].addToHits(h);
            e.m2.push_back(r);
            blocked[ci] = 1;
          } else if (m.c[ci].kind == PART) {
            auto& h = lateP.emplace_back();
            const Ref r = newElem(iP);
            fill(h, m.c[iP].e.back().v);
            as<dm::PartCollection>(cs, ci)[i].addToKids(h);
            e.m1.push_back(r);
            blocked[ci] = 1;
          } else if (m.c[ci].kind == CLU) {
            auto& h = lateC.emplace_back();
            const Ref r = newElem(iC);
            fill(h, m.c[iC].e.back().v);
            as<dm::CluCollection>(cs, ci)[i].addToSubs(h);
            e.m1.push_back(r);
            blocked[ci] = 1;
          } else if (m.c[ci].kind == OBS) {
            auto& h = lateC.emplace_back();
            const Ref r = newElem(iC);
            fill(h, m.c[iC].e.back().v);
            as<dm::ObsCollection>(cs, ci)[i].addToThings(h);
            e.m2.push_back(r);
            blocked[ci] = 1;
          }
        }
      }
      sim::count("fault:relation to an untracked object", lateP.size() + lateH.size() + lateC.size());
    }
    for (int i = 0; i < nc0; ++i) f->put(std::move(cs[i]), m.c[i].name);
  }
  std::vector<uint32_t> ids;
  auto takeIds = [&] {
    ids.clear();
    auto t = f->getCollectionIDTableForWrite();
    for (auto& c : m.c) ids.push_back(t.collectionID(c.name).value_or(0));
  };
  takeIds();
  std::vector<char> done(m.c.size(), 0);
  struct Op { int c, fault; bool plainGet, direct; };
  auto round = [&](const char* where, bool mayBlock, int nth) {
    Expect ex{m, ids, where};
    std::vector<std::vector<Op>> plan(nth);
    const int nc = mayBlock ? nc0 : (int)m.c.size();
    for (auto& p : plan) {
      const int n = 1 + sim::w(4);
      for (int i = 0; i < n; ++i) {
        Op o{(int)sim::w(nc), 0, sim::w(6) == 5, sim::w(4) == 3};
        if (!raw && sim::w(4) == 3) o.fault = 1 + sim::f(12);
        p.push_back(o);
      }
    }
    for (int t = 0; t < nth; ++t)
      sim::spawn([&, t] {
        for (auto& o : plan[t]) {
          const std::string& name = m.c[o.c].name;
          sim::ev("prepare %s%s", name.c_str(), o.fault ? " with a failing allocation" : "");
          const podio::CollectionBase* c = nullptr;
          try {
            if (o.plainGet || o.direct) {
              c = f->get(name);
              SIM_CHECK(c, "wrong-data", "collection %s is not there", name.c_str());
              if (!o.direct) continue;
            }
            sim::AllocFault fl(o.fault);
            if (o.direct) c->prepareForWrite();
            else c = f->getCollectionForWrite(name);
          } catch (const std::bad_alloc&) {
            SIM_CHECK(o.fault, "wrong-exception", "bad_alloc without a failing allocation");
            sim::ev("  bad_alloc");
            sim::count("fault:allocation failed while preparing");
            continue;
          } catch (const std::runtime_error& e) {
            SIM_CHECK(mayBlock && blocked[o.c], "wrong-exception", "preparing %s failed: %s", name.c_str(), e.what());
            sim::ev("  %s", e.what());
            continue;
          }
          SIM_CHECK(!(mayBlock && blocked[o.c]), "no-exception", "%s was prepared although it has relations to untracked objects", name.c_str());
          SIM_CHECK(c, "wrong-data", "collection %s is not there for writing", name.c_str());
          ex(c, o.c);
          sim::count("op:prepare");
        }
      });
    sim::join_all();
  };
  round("in the first round", true, nthreads);
  if (iP >= 0) {
    dm::PartCollection p;
    for (auto& x : lateP) p.push_back(x);
    dm::HitCollection h;
    for (auto& x : lateH) h.push_back(x);
    dm::CluCollection c;
    for (auto& x : lateC) c.push_back(x);
    f->put(std::move(p), m.c[iP].name);
    f->put(std::move(h), m.c[iH].name);
    f->put(std::move(c), m.c[iC].name);
    takeIds();
    round("after all objects were put", false, 1 + sim::w(3));
  } else if (sim::w(2)) {
    round("in the second round", false, 1 + sim::w(2));
  }
  Expect ex{m, ids, "in the end"};
  for (size_t i = 0; i < m.c.size(); ++i) {
    auto* c = f->getCollectionForWrite(m.c[i].name);
    SIM_CHECK(c, "wrong-data", "collection %s is not there", m.c[i].name.c_str());
    ex(c, i);
  }
  checkFrame(*f, m, "after preparing");
  if (totalElems(m) > 1) sim::nontrivial();
  sim::mix(totalElems(m));
  delete f;
}
