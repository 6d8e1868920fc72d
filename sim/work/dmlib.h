// Events over the data model model/dm.yaml: a plain description (the reference
// model), building podio collections from it, and checking podio collections
// against it.
#ifndef DMLIB_H
#define DMLIB_H
#include "simrt.h"

#include "dm/CluAnyCollection.h"
#include "dm/CluCollection.h"
#include "dm/HasE.h"
#include "dm/HitCollection.h"
#include "dm/HitPartCollection.h"
#include "dm/ObsCollection.h"
#include "dm/PartCollection.h"
#include "dm/PartPartCollection.h"
#include "dm/PlainCollection.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include "podio/UserDataCollection.h"

#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace dml {
enum Kind { HIT, PART, CLU, OBS, PLAIN, LHP, LPP, LCA, UI32, UF32, UU8, UI64, UF64, UI8, UI16, UU16, UU32, UU64, NKIND };
constexpr bool isUser(int k) { return k >= UI32; }
constexpr bool isLink(int k) { return k >= LHP && k <= LCA; }
constexpr bool hasE(int k) { return k <= CLU; }

struct Ref {
  int c = -1, i = -1;
  bool set() const { return c >= 0; }
  bool operator==(const Ref&) const = default;
};
struct MElem {
  int v = 0;
  std::vector<int> a, b;     // vector members
  Ref o1, o2;                // one-to-one relations, or ends of a link
  std::vector<Ref> m1, m2;   // one-to-many relations
};
struct MColl {
  std::string name;
  int kind = HIT;
  bool subset = false;
  std::vector<MElem> e;  // for owning collections
  std::vector<Ref> refs; // for subset collections
  size_t size() const { return subset ? refs.size() : e.size(); }
};
struct MParams {
  std::map<std::string, std::vector<int>> i;
  std::map<std::string, std::vector<float>> f;
  std::map<std::string, std::vector<double>> d;
  std::map<std::string, std::vector<std::string>> s;
};
struct MFrame {
  std::vector<MColl> c;
  MParams p;
};

// ---------------------------------------------------------------- values
inline dm::V3 mkV3(int v) {
  dm::V3 r;
  r.a = v;
  r.b = v * 0.25;
  r.c = {(int16_t)v, (int16_t)(v + 1), (int16_t)(v + 2)};
  return r;
}
inline bool eq(const dm::V3& x, const dm::V3& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
inline void fill(dm::MutableHit h, int v) {
  h.setCell((uint64_t)v * 0x9E3779B97F4A7C15ull);
  h.setEnergy(v * 0.5);
  dm::Nest n;
  n.v = mkV3(v);
  n.flag = (int16_t)(v % 100);
  h.setNest(n);
  h.setArr({v * 1.5f, v * 2.5f});
  h.setOn(v & 1);
}
inline void fill(dm::MutablePart p, int v) { p.setPdg(v); p.setEnergy(v * 0.75); }
inline void fill(dm::MutableClu p, int v) { p.setEnergy(v * 1.25); }
inline void fill(dm::MutableObs p, int v) { p.setN((int16_t)v); }
inline void fill(MutablePlain p, int v) { p.setN(v); }
template <typename H> bool is(const H& h, int v) {
  if constexpr (std::is_same_v<H, dm::Hit> || std::is_same_v<H, dm::MutableHit>) {
    return h.getCell() == (uint64_t)v * 0x9E3779B97F4A7C15ull && h.getEnergy() == v * 0.5 && eq(h.getNest().v, mkV3(v)) && h.getNest().flag == (int16_t)(v % 100) &&
           h.getArr()[0] == v * 1.5f && h.getArr()[1] == v * 2.5f && h.getOn() == (bool)(v & 1);
  } else if constexpr (std::is_same_v<H, dm::Part> || std::is_same_v<H, dm::MutablePart>) {
    return h.getPdg() == v && h.getEnergy() == v * 0.75;
  } else if constexpr (std::is_same_v<H, dm::Clu> || std::is_same_v<H, dm::MutableClu>) {
    return h.getEnergy() == v * 1.25;
  } else if constexpr (std::is_same_v<H, dm::Obs> || std::is_same_v<H, dm::MutableObs>) {
    return h.getN() == (int16_t)v;
  } else if constexpr (std::is_same_v<H, Plain> || std::is_same_v<H, MutablePlain>) {
    return h.getN() == v;
  } else {
    return h.getWeight() == v * 0.5f;
  }
}
template <typename T> T uval(int v) { return static_cast<T>(int64_t(v) * 7 + 3); }

template <typename C> struct KindOf;
template <> struct KindOf<dm::HitCollection> { static constexpr int k = HIT; };
template <> struct KindOf<dm::PartCollection> { static constexpr int k = PART; };
template <> struct KindOf<dm::CluCollection> { static constexpr int k = CLU; };
template <> struct KindOf<dm::ObsCollection> { static constexpr int k = OBS; };
template <> struct KindOf<PlainCollection> { static constexpr int k = PLAIN; };
template <> struct KindOf<dm::HitPartCollection> { static constexpr int k = LHP; };
template <> struct KindOf<dm::PartPartCollection> { static constexpr int k = LPP; };
template <> struct KindOf<dm::CluAnyCollection> { static constexpr int k = LCA; };

/// calls fn with a pointer of the collection type of a kind
template <typename F> auto withKind(int kind, F&& fn) {
  switch (kind) {
  case HIT: return fn((dm::HitCollection*)nullptr);
  case PART: return fn((dm::PartCollection*)nullptr);
  case CLU: return fn((dm::CluCollection*)nullptr);
  case OBS: return fn((dm::ObsCollection*)nullptr);
  case PLAIN: return fn((PlainCollection*)nullptr);
  case LHP: return fn((dm::HitPartCollection*)nullptr);
  case LPP: return fn((dm::PartPartCollection*)nullptr);
  case LCA: return fn((dm::CluAnyCollection*)nullptr);
  case UI32: return fn((podio::UserDataCollection<int32_t>*)nullptr);
  case UF32: return fn((podio::UserDataCollection<float>*)nullptr);
  case UU8: return fn((podio::UserDataCollection<uint8_t>*)nullptr);
  case UI64: return fn((podio::UserDataCollection<int64_t>*)nullptr);
#ifdef DML_ALL_USER_TYPES
  case UF64: return fn((podio::UserDataCollection<double>*)nullptr);
  case UI8: return fn((podio::UserDataCollection<int8_t>*)nullptr);
  case UI16: return fn((podio::UserDataCollection<int16_t>*)nullptr);
  case UU16: return fn((podio::UserDataCollection<uint16_t>*)nullptr);
  case UU32: return fn((podio::UserDataCollection<uint32_t>*)nullptr);
  case UU64: return fn((podio::UserDataCollection<uint64_t>*)nullptr);
#endif
  }
  sim::fail("harness", "unknown kind %d", kind);
}
#ifdef DML_ALL_USER_TYPES
constexpr int NUSER = 10;
#else
constexpr int NUSER = 4;
#endif
template <typename C> constexpr bool isUserColl = requires(C c) { c.vec(); };
template <typename C> constexpr bool isLinkColl = requires { typename C::from_type; };

// ---------------------------------------------------------------- building
using Colls = std::vector<std::unique_ptr<podio::CollectionBase>>;
template <typename C> C& as(const Colls& cs, int i) { return static_cast<C&>(*cs[i]); }

inline dm::HasE anyAt(const MFrame& m, const Colls& cs, Ref r) {
  switch (m.c[r.c].kind) {
  case HIT: return dm::HasE(as<dm::HitCollection>(cs, r.c)[r.i]);
  case PART: return dm::HasE(as<dm::PartCollection>(cs, r.c)[r.i]);
  default: return dm::HasE(as<dm::CluCollection>(cs, r.c)[r.i]);
  }
}
inline void relate(const MFrame& m, const Colls& cs, dm::MutablePart p, const MElem& e) {
  for (int x : e.a) p.addToCodes(x);
  for (int x : e.b) p.addToPts(mkV3(x));
  if (e.o1.set()) p.setMother(as<dm::PartCollection>(cs, e.o1.c)[e.o1.i]);
  if (e.o2.set()) p.setClu(as<dm::CluCollection>(cs, e.o2.c)[e.o2.i]);
  for (auto& r : e.m1) p.addToKids(as<dm::PartCollection>(cs, r.c)[r.i]);
  for (auto& r : e.m2) p.addToHits(as<dm::HitCollection>(cs, r.c)[r.i]);
}
inline void relate(const MFrame& m, const Colls& cs, dm::MutableClu p, const MElem& e) {
  for (int x : e.a) p.addToW(x * 0.5f);
  if (e.o1.set()) p.setLead(as<dm::PartCollection>(cs, e.o1.c)[e.o1.i]);
  for (auto& r : e.m1) p.addToSubs(as<dm::CluCollection>(cs, r.c)[r.i]);
}
inline void relate(const MFrame& m, const Colls& cs, dm::MutableObs p, const MElem& e) {
  if (e.o1.set()) p.setNext(as<dm::ObsCollection>(cs, e.o1.c)[e.o1.i]);
  if (e.o2.set()) p.setAny(anyAt(m, cs, e.o2));
  for (auto& r : e.m1) p.addToClus(as<dm::CluCollection>(cs, r.c)[r.i]);
  for (auto& r : e.m2) p.addToThings(anyAt(m, cs, r));
}
inline Colls build(const MFrame& m) {
  Colls cs;
  cs.reserve(m.c.size());
  for (auto& mc : m.c) {
    cs.push_back(withKind(mc.kind, [&](auto* t) -> std::unique_ptr<podio::CollectionBase> {
      using C = std::remove_pointer_t<decltype(t)>;
      auto c = std::make_unique<C>();
      if constexpr (isUserColl<C>) {
        for (auto& e : mc.e) c->push_back(uval<typename C::value_type>(e.v));
      } else {
        if (mc.subset) c->setSubsetCollection();
        else
          for (auto& e : mc.e) {
            if constexpr (isLinkColl<C>) {
              c->create().setWeight(e.v * 0.5f);
            } else {
              fill(c->create(), e.v);
            }
          }
      }
      return c;
    }));
  }
  for (size_t ci = 0; ci < m.c.size(); ++ci) {
    auto& mc = m.c[ci];
    withKind(mc.kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      if constexpr (!isUserColl<C>) {
        C& c = as<C>(cs, ci);
        if (mc.subset) {
          for (auto& r : mc.refs) c.push_back(as<C>(cs, r.c)[r.i]);
        } else {
          for (size_t i = 0; i < mc.e.size(); ++i) {
            auto& e = mc.e[i];
            if constexpr (std::is_same_v<C, dm::HitPartCollection>) {
              if (e.o1.set()) c[i].setFrom(as<dm::HitCollection>(cs, e.o1.c)[e.o1.i]);
              if (e.o2.set()) c[i].setTo(as<dm::PartCollection>(cs, e.o2.c)[e.o2.i]);
            } else if constexpr (std::is_same_v<C, dm::PartPartCollection>) {
              if (e.o1.set()) c[i].setFrom(as<dm::PartCollection>(cs, e.o1.c)[e.o1.i]);
              if (e.o2.set()) c[i].setTo(as<dm::PartCollection>(cs, e.o2.c)[e.o2.i]);
            } else if constexpr (std::is_same_v<C, dm::CluAnyCollection>) {
              if (e.o1.set()) c[i].setFrom(as<dm::CluCollection>(cs, e.o1.c)[e.o1.i]);
              if (e.o2.set()) c[i].setTo(anyAt(m, cs, e.o2));
            } else if constexpr (std::is_same_v<C, dm::PartCollection> || std::is_same_v<C, dm::CluCollection> || std::is_same_v<C, dm::ObsCollection>) {
              relate(m, cs, c[i], e);
            }
          }
        }
      }
    });
  }
  return cs;
}
inline void putParams(podio::Frame& f, const MParams& p) {
  for (auto& [k, v] : p.i) f.putParameter(k, v);
  for (auto& [k, v] : p.f) f.putParameter(k, v);
  for (auto& [k, v] : p.d) f.putParameter(k, v);
  for (auto& [k, v] : p.s) f.putParameter(k, v);
}
inline void toFrame(podio::Frame& f, const MFrame& m) {
  auto cs = build(m);
  for (size_t i = 0; i < cs.size(); ++i) f.put(std::move(cs[i]), m.c[i].name);
  putParams(f, m.p);
}

// ---------------------------------------------------------------- checking
/// which collections (by index) are in the frame
using Avail = std::vector<char>;
inline Avail all(const MFrame& m) { return Avail(m.c.size(), 1); }

struct Checker {
  const podio::Frame* f; // for IDs; may be null: then no IDs are checked
  const MFrame& m;
  const Avail& av;
  std::vector<uint32_t> ids; // IDs by collection index
  const char* where = "";
  int hops = 0; // how far to follow relations and check what they lead to

  Checker(const podio::Frame& fr, const MFrame& mm, const Avail& a, const char* w = "") : f(&fr), m(mm), av(a), where(w) {
    auto t = fr.getCollectionIDTableForWrite();
    for (auto& c : m.c) {
      auto id = t.collectionID(c.name);
      ids.push_back(id ? *id : 0);
    }
  }
  template <typename H> void one(const H& h, Ref r, const char* what, const MColl& mc, size_t i, int depth = 0) const {
    if (!r.set() || !av[r.c]) {
      SIM_CHECK(!h.isAvailable(), "wrong-data", "%s: %s of element %zu of %s (kind %d) should be unavailable but is there (id %d of %08x)", where, what, i, mc.name.c_str(),
                mc.kind, h.getObjectID().index, h.getObjectID().collectionID);
      return;
    }
    const auto& tc = m.c[r.c];
    SIM_CHECK(h.isAvailable(), "wrong-data", "%s: %s of element %zu of %s (kind %d) should be element %d of %s but is unavailable", where, what, i, mc.name.c_str(), mc.kind, r.i,
              tc.name.c_str());
    const auto id = h.getObjectID();
    SIM_CHECK(id.index == r.i && id.collectionID == ids[r.c], "wrong-data", "%s: %s of element %zu of %s (kind %d) has id %d of %08x instead of %d of %08x", where, what, i,
              mc.name.c_str(), mc.kind, id.index, id.collectionID, r.i, ids[r.c]);
    if constexpr (std::is_same_v<H, dm::HasE>) {
      const int v = tc.e[r.i].v;
      bool ok = tc.kind == HIT ? h.template isA<dm::Hit>() && is(h.template as<dm::Hit>(), v)
                : tc.kind == PART ? h.template isA<dm::Part>() && is(h.template as<dm::Part>(), v)
                                  : h.template isA<dm::Clu>() && is(h.template as<dm::Clu>(), v);
      SIM_CHECK(ok, "wrong-data", "%s: %s of element %zu of %s refers to an object with other values or of another type", where, what, i, mc.name.c_str());
      if (depth < hops && tc.kind == PART) elem(h.template as<dm::Part>(), tc.e[r.i], tc, r.i, depth + 1);
      if (depth < hops && tc.kind == CLU) elem(h.template as<dm::Clu>(), tc.e[r.i], tc, r.i, depth + 1);
    } else {
      SIM_CHECK(is(h, tc.e[r.i].v), "wrong-data", "%s: %s of element %zu of %s refers to an object with other values", where, what, i, mc.name.c_str());
      if (depth < hops) elem(h, tc.e[r.i], tc, r.i, depth + 1);
    }
  }
  template <typename R> void many(const R& range, const std::vector<Ref>& rs, const char* what, const MColl& mc, size_t i, int depth = 0) const {
    SIM_CHECK(range.size() == rs.size(), "wrong-data", "%s: %s of element %zu of %s has %zu entries instead of %zu", where, what, i, mc.name.c_str(), range.size(), rs.size());
    for (size_t k = 0; k < rs.size(); ++k) one(range[k], rs[k], what, mc, i, depth);
    size_t k = 0;
    for (auto h : range) {
      const bool there = rs[k].set() && av[rs[k].c];
      SIM_CHECK(h.isAvailable() == there && (!there || h.getObjectID().index == rs[k].i), "wrong-data", "%s: iterating %s gives another order than indexing", where, what);
      ++k;
    }
  }
  template <typename H> void elem(const H& h, const MElem& e, const MColl& mc, size_t i, int depth = 0) const {
    SIM_CHECK(is(h, e.v), "wrong-data", "%s: element %zu of %s (kind %d) has wrong values (expected those of %d)", where, i, mc.name.c_str(), mc.kind, e.v);
    if constexpr (std::is_same_v<H, dm::Part>) {
      SIM_CHECK(h.codes_size() == e.a.size(), "wrong-data", "%s: codes of element %zu of %s has %zu entries instead of %zu", where, i, mc.name.c_str(), h.codes_size(), e.a.size());
      SIM_CHECK(h.pts_size() == e.b.size(), "wrong-data", "%s: pts of element %zu of %s has %zu entries instead of %zu", where, i, mc.name.c_str(), h.pts_size(), e.b.size());
      for (size_t k = 0; k < e.a.size(); ++k) SIM_CHECK(h.getCodes(k) == e.a[k], "wrong-data", "%s: codes[%zu] of element %zu of %s is %d instead of %d", where, k, i, mc.name.c_str(), h.getCodes(k), e.a[k]);
      for (size_t k = 0; k < e.b.size(); ++k) SIM_CHECK(eq(h.getPts(k), mkV3(e.b[k])), "wrong-data", "%s: pts[%zu] of element %zu of %s is wrong", where, k, i, mc.name.c_str());
      one(h.getMother(), e.o1, "mother", mc, i, depth);
      one(h.getClu(), e.o2, "clu", mc, i, depth);
      many(h.getKids(), e.m1, "kids", mc, i, depth);
      many(h.getHits(), e.m2, "hits", mc, i, depth);
    } else if constexpr (std::is_same_v<H, dm::Clu>) {
      SIM_CHECK(h.w_size() == e.a.size(), "wrong-data", "%s: w of element %zu of %s has %zu entries instead of %zu", where, i, mc.name.c_str(), h.w_size(), e.a.size());
      for (size_t k = 0; k < e.a.size(); ++k) SIM_CHECK(h.getW(k) == e.a[k] * 0.5f, "wrong-data", "%s: w[%zu] of element %zu of %s is wrong", where, k, i, mc.name.c_str());
      one(h.getLead(), e.o1, "lead", mc, i, depth);
      many(h.getSubs(), e.m1, "subs", mc, i, depth);
    } else if constexpr (std::is_same_v<H, dm::Obs>) {
      one(h.getNext(), e.o1, "next", mc, i, depth);
      one(h.getAny(), e.o2, "any", mc, i, depth);
      many(h.getClus(), e.m1, "clus", mc, i, depth);
      many(h.getThings(), e.m2, "things", mc, i, depth);
    } else if constexpr (requires { h.getWeight(); }) {
      one(h.getFrom(), e.o1, "from", mc, i, depth);
      one(h.getTo(), e.o2, "to", mc, i, depth);
    }
  }
  /// the collection obtained for m.c[ci] has exactly the described content
  void coll(const podio::CollectionBase* cb, int ci) const {
    const MColl& mc = m.c[ci];
    SIM_CHECK(cb, "wrong-data", "%s: collection %s is not there", where, mc.name.c_str());
    if (ids[ci]) SIM_CHECK(cb->getID() == ids[ci], "wrong-data", "%s: collection %s has ID %08x instead of %08x", where, mc.name.c_str(), cb->getID(), ids[ci]);
    withKind(mc.kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      const C* c = dynamic_cast<const C*>(cb);
      SIM_CHECK(c, "wrong-data", "%s: collection %s has type %s", where, mc.name.c_str(), std::string(cb->getTypeName()).c_str());
      SIM_CHECK(c->size() == mc.size(), "wrong-data", "%s: collection %s (kind %d%s) has %zu elements instead of %zu", where, mc.name.c_str(), mc.kind, mc.subset ? " subset" : "", c->size(), mc.size());
      SIM_CHECK(c->isSubsetCollection() == mc.subset, "wrong-data", "%s: collection %s changed its kind", where, mc.name.c_str());
      if constexpr (isUserColl<C>) {
        for (size_t i = 0; i < mc.e.size(); ++i)
          SIM_CHECK((*c)[i] == uval<typename C::value_type>(mc.e[i].v), "wrong-data", "%s: element %zu of %s is wrong", where, i, mc.name.c_str());
      } else {
        for (size_t i = 0; i < mc.size(); ++i) {
          auto h = (*c)[i];
          if (mc.subset) {
            const Ref r = mc.refs[i];
            one(h, r, "the referenced object", mc, i);
            if (av[r.c]) elem(h, m.c[r.c].e[r.i], m.c[r.c], r.i);
          } else {
            SIM_CHECK(h.isAvailable(), "wrong-data", "%s: element %zu of %s is not available", where, i, mc.name.c_str());
            const auto id = h.getObjectID();
            SIM_CHECK(id.index == (int)i && id.collectionID == cb->getID(), "wrong-data", "%s: element %zu of %s has id %d of %08x, the collection %08x", where, i, mc.name.c_str(), id.index, id.collectionID, cb->getID());
            elem(h, mc.e[i], mc, i);
          }
        }
      }
      return 0;
    });
  }
  /// object identity: relations refer to the very objects the frame hands out
  void identity() const {
    for (size_t ci = 0; ci < m.c.size(); ++ci) {
      const MColl& mc = m.c[ci];
      if (!av[ci]) continue;
      withKind(mc.kind, [&](auto* t) {
        using C = std::remove_pointer_t<decltype(t)>;
        if constexpr (!isUserColl<C>) {
          auto& c = f->get<C>(mc.name);
          for (size_t i = 0; i < mc.size(); ++i) {
            auto h = c[i];
            if (mc.subset) {
              if (av[mc.refs[i].c])
                SIM_CHECK(h == (f->get<C>(m.c[mc.refs[i].c].name)[mc.refs[i].i]), "wrong-data", "%s: subset collection %s refers to a copy", where, mc.name.c_str());
            } else if constexpr (std::is_same_v<C, dm::PartCollection>) {
              if (mc.e[i].o1.set() && av[mc.e[i].o1.c])
                SIM_CHECK(h.getMother() == (f->get<C>(m.c[mc.e[i].o1.c].name)[mc.e[i].o1.i]), "wrong-data", "%s: mother in %s refers to a copy", where, mc.name.c_str());
              for (size_t k = 0; k < mc.e[i].m1.size(); ++k)
                if (av[mc.e[i].m1[k].c])
                  SIM_CHECK(h.getKids(k) == (f->get<C>(m.c[mc.e[i].m1[k].c].name)[mc.e[i].m1[k].i]), "wrong-data", "%s: kids in %s refers to a copy", where, mc.name.c_str());
            }
          }
        }
        return 0;
      });
    }
  }
  void params() const {
    auto cmp = [&]<typename T>(const std::map<std::string, std::vector<T>>& want) {
      auto keys = f->getParameterKeys<T>();
      SIM_CHECK(keys.size() == want.size(), "wrong-data", "%s: %zu parameters instead of %zu", where, keys.size(), want.size());
      for (auto& [k, v] : want) {
        auto got = f->getParameter<std::vector<T>>(k);
        SIM_CHECK(got.has_value(), "wrong-data", "%s: parameter '%s' is missing", where, k.c_str());
        SIM_CHECK(*got == v, "wrong-data", "%s: parameter '%s' has another value", where, k.c_str());
      }
    };
    cmp(m.p.i);
    cmp(m.p.f);
    cmp(m.p.d);
    cmp(m.p.s);
  }
  /// everything: names, contents, identity, parameters
  void frame() const {
    auto names = f->getAvailableCollections();
    std::multiset<std::string> have(names.begin(), names.end()), want;
    for (size_t i = 0; i < m.c.size(); ++i)
      if (av[i]) want.insert(m.c[i].name);
    if (have != want) {
      std::string d;
      for (auto& n : have) d += n + " ";
      d += "instead of ";
      for (auto& n : want) d += n + " ";
      sim::fail("wrong-data", "%s: available collections are %s", where, d.c_str());
    }
    for (size_t i = 0; i < m.c.size(); ++i) {
      auto* c = f->get(m.c[i].name);
      if (!av[i]) {
        SIM_CHECK(!c, "wrong-data", "%s: collection %s should not be there", where, m.c[i].name.c_str());
        continue;
      }
      coll(c, (int)i);
      auto nm = f->getName(*c);
      SIM_CHECK(nm && *nm == m.c[i].name, "wrong-data", "%s: getName of %s gives another name", where, m.c[i].name.c_str());
    }
    identity();
    params();
  }
};
inline void checkFrame(const podio::Frame& f, const MFrame& m, const Avail& a, const char* where) { Checker(f, m, a, where).frame(); }
inline void checkFrame(const podio::Frame& f, const MFrame& m, const char* where) { Checker(f, m, all(m), where).frame(); }

// ---------------------------------------------------------------- generating
struct GenCfg {
  int maxColls = 5, maxElems = 4, maxRel = 3;
  bool user = true, links = true, subsets = true, params = true;
  bool relations = true;
  int hugeOneIn = 0; // one in so many events is large in one respect
};
inline std::string collName(int i) {
  static const char* n[] = {"hits", "p", "a collection name that is definitely longer than the small string buffer", "clu_A", "clu_AB", "links__", "x/y:z", "P", "9"};
  return i < 9 ? n[i] : "coll" + std::to_string(i);
}
/// makes an event large in one respect: more collections, elements, relations, parameters... than fit into 8 (16) bits, or than
/// any buffer of a fixed size would have room for
inline void enlarge(MFrame& m, int next, const GenCfg& g) {
  uint64_t x = 0x9E3779B97F4A7C15ull + sim::w(1000);
  auto rnd = [&](uint64_t n) {
    x ^= x << 13, x ^= x >> 7, x ^= x << 17;
    return (x >> 11) % n;
  };
  static const size_t sizes[] = {17, 33, 64, 65, 100, 129, 200, 255, 256, 257, 260, 300, 513, 700};
  const size_t n = sizes[sim::w(14)];
  auto add = [&](int kind, size_t elems) {
    MColl c;
    c.name = "more " + std::to_string(m.c.size());
    c.kind = kind;
    for (size_t i = 0; i < elems; ++i) {
      c.e.push_back({});
      c.e.back().v = next++;
    }
    m.c.push_back(std::move(c));
    return (int)m.c.size() - 1;
  };
  auto ref = [&](int c) { return Ref{c, (int)rnd(m.c[c].e.size())}; };
  const int what = sim::w(g.params ? 9 : 7);
  switch (what) {
  case 0: // collections
    for (size_t i = 0; i < std::min<size_t>(n, 300); ++i) {
      static const int kinds[] = {HIT, PART, CLU, PLAIN, OBS, LPP};
      int k = rnd(4) == 0 && g.user ? UI32 + (int)rnd(NUSER) : kinds[rnd(6)];
      if (isLink(k) && !g.links) k = HIT;
      add(k, rnd(3));
    }
    break;
  case 1: { // relations of one object
    const int h = add(HIT, 5), p = add(PART, 3), c = add(CLU, 2), o = add(OBS, 1);
    MElem& e = m.c[p].e[1];
    for (size_t i = 0; i < n; ++i) e.m1.push_back(ref(p));
    for (size_t i = 0; i < n / 2; ++i) m.c[p].e[0].m2.push_back(ref(h));
    for (size_t i = 0; i < n; ++i) m.c[c].e[1].m1.push_back(ref(c));
    for (size_t i = 0; i < n; ++i) m.c[o].e[0].m2.push_back(ref(rnd(2) ? h : p));
    m.c[p].e[2].m1.push_back({p, 0});
    break;
  }
  case 2: { // vector members
    const int p = add(PART, 3), c = add(CLU, 1);
    const size_t k = sim::w(4) == 3 ? 65500 + n : n;
    for (size_t i = 0; i < k; ++i) m.c[p].e[rnd(2) ? 0 : 1].a.push_back((int)rnd(1u << 30));
    for (size_t i = 0; i < n; ++i) m.c[p].e[1].b.push_back((int)rnd(1u << 20)), m.c[c].e[0].a.push_back((int)rnd(1u << 20));
    m.c[p].e[2].a = {1, 2, 3};
    break;
  }
  case 3: { // objects
    const int p = add(PART, n), c = add(CLU, n / 2 + 1);
    for (auto& e : m.c[p].e) {
      if (rnd(2)) e.o1 = ref(p);
      if (rnd(2)) e.o2 = ref(c);
      if (rnd(4) == 0) e.m1.push_back(ref(p));
      if (rnd(8) == 0) e.a.push_back(next++);
    }
    for (auto& e : m.c[c].e)
      if (rnd(2)) e.o1 = ref(p);
    break;
  }
  case 4: { // selected objects
    if (!g.subsets) break;
    const int p = add(PART, 4), h = add(HIT, 300), s = add(PART, 0), t = add(HIT, 0);
    m.c[s].subset = m.c[t].subset = true;
    for (size_t i = 0; i < n; ++i) m.c[s].refs.push_back(ref(p)), m.c[t].refs.push_back(ref(h));
    break;
  }
  case 5: { // links
    if (!g.links) break;
    const int p = add(PART, 3), l = add(LPP, n), q = add(CLU, 3), a = add(LCA, n / 2);
    for (auto& e : m.c[l].e) {
      if (rnd(8)) e.o1 = ref(p);
      if (rnd(8)) e.o2 = ref(p);
    }
    for (auto& e : m.c[a].e) {
      if (rnd(8)) e.o1 = ref(q);
      if (rnd(8)) e.o2 = ref(rnd(2) ? q : p);
    }
    break;
  }
  case 6: { // numbers of the user
    if (!g.user) break;
    for (int k = 0; k < NUSER; ++k)
      if (rnd(2)) add(UI32 + k, n);
    break;
  }
  case 7: // parameters
    for (size_t i = 0; i < n; ++i) {
      const std::string k = (rnd(2) ? "parameter " : "p") + std::to_string(i);
      switch (rnd(4)) {
      case 0: m.p.i[k] = {(int)rnd(1u << 30)}; break;
      case 1: m.p.f[k] = {rnd(1000) * 0.5f}; break;
      case 2: m.p.d[k] = {rnd(1000) * 0.1}; break;
      default: m.p.s[k] = {std::to_string(rnd(1000))}; break;
      }
    }
    break;
  default: { // values of parameters
    const size_t k = sim::w(4) == 3 ? 65500 + n : n;
    auto& v = m.p.i["many"];
    for (size_t i = 0; i < k; ++i) v.push_back((int)rnd(1u << 30));
    for (size_t i = 0; i < n; ++i) m.p.f["many"].push_back(rnd(1000) * 0.5f), m.p.d["many"].push_back(rnd(1000) * 0.1), m.p.s["many"].push_back(std::to_string(rnd(100000)));
    m.p.s["long"] = {std::string(k, 'x'), std::string(n, 'y')};
    m.p.s[std::string(n, 'k')] = {"a long key"};
  }
  }
  static const std::string names[] = {"collections", "relations", "vector members", "objects", "selected objects", "links", "user data", "parameters", "parameter values"};
  sim::count(("op:many " + names[what]).c_str());
}
inline MFrame gen(const GenCfg& g, int base = 1) {
  MFrame m;
  int next = base;
  // mostly values that tell all elements apart, sometimes others
  auto val = [&] {
    static const int odd[] = {0, -1, -12345, 255, 65536, 2000000000, -2000000000};
    const int v = next++;
    return sim::w(32) == 31 ? odd[sim::w(7)] : v;
  };
  const int n = 1 + sim::w(g.maxColls);
  const int namesFrom = sim::w(4) == 3 ? (int)sim::w(5) : 0;
  for (int i = 0; i < n; ++i) {
    MColl c;
    c.name = collName(namesFrom + i);
    // bias towards the kinds with relations
    static const int kinds[] = {PART, CLU, HIT, PART, CLU, HIT, OBS, PLAIN, LPP, LHP, LCA, UI32};
    int k = kinds[sim::w(12)];
    if (k == UI32) k = g.user ? UI32 + (int)sim::w(NUSER) : HIT;
    if (isLink(k) && !g.links) k = PART;
    c.kind = k;
    c.subset = g.subsets && !isUser(k) && k != PLAIN && i > 0 && sim::w(5) == 4;
    m.c.push_back(c);
  }
  for (auto& c : m.c)
    if (!c.subset) {
      const int ne = sim::w(g.maxElems + 1);
      for (int i = 0; i < ne; ++i) {
        MElem e;
        e.v = val();
        c.e.push_back(e);
      }
    }
  auto pick = [&](auto pred) -> Ref {
    std::vector<int> cand;
    for (int i = 0; i < (int)m.c.size(); ++i)
      if (!m.c[i].subset && !m.c[i].e.empty() && pred(m.c[i].kind)) cand.push_back(i);
    if (cand.empty()) return {};
    Ref r;
    r.c = cand[sim::w(cand.size())];
    r.i = sim::w(m.c[r.c].e.size());
    return r;
  };
  auto kind = [&](int k) { return [k](int x) { return x == k; }; };
  auto some = [&](std::vector<Ref>& v, auto pred) {
    const int k = sim::w(g.maxRel + 1);
    for (int i = 0; i < k; ++i) {
      auto r = pick(pred);
      if (r.set()) v.push_back(r);
    }
  };
  for (auto& c : m.c) {
    if (c.subset) {
      some(c.refs, kind(c.kind));
      continue;
    }
    for (auto& e : c.e) {
      if (c.kind == PART || c.kind == CLU) {
        const int na = sim::w(3);
        for (int i = 0; i < na; ++i) e.a.push_back(val());
        const int nb = c.kind == PART ? sim::w(3) : 0;
        for (int i = 0; i < nb; ++i) e.b.push_back(val());
      }
      if (!g.relations) continue;
      if (c.kind == PART) {
        if (sim::w(2)) e.o1 = pick(kind(PART));
        if (sim::w(2)) e.o2 = pick(kind(CLU));
        some(e.m1, kind(PART));
        some(e.m2, kind(HIT));
      } else if (c.kind == CLU) {
        if (sim::w(2)) e.o1 = pick(kind(PART));
        some(e.m1, kind(CLU));
      } else if (c.kind == OBS) {
        if (sim::w(2)) e.o1 = pick(kind(OBS));
        if (sim::w(2)) e.o2 = pick(hasE);
        some(e.m1, kind(CLU));
        some(e.m2, hasE);
      } else if (isLink(c.kind)) {
        if (sim::w(4)) e.o1 = pick(kind(c.kind == LHP ? HIT : c.kind == LPP ? PART : CLU));
        if (sim::w(4)) e.o2 = c.kind == LCA ? pick(hasE) : pick(kind(PART));
      }
    }
  }
  if (g.params) {
    static const char* oddKeys[] = {"", "k", " ", "k\n0", "\xc3\xa4", "k0 "};
    auto key = [&] { return sim::w(16) == 15 ? std::string(oddKeys[sim::w(6)]) : std::string(sim::w(3) == 2 ? "a parameter name of more than fifteen characters " : "k") + std::to_string(sim::w(4)); };
    static const std::string oddStr[] = {"", std::string("a\0b", 3), "two\nlines", "\xe2\x82\xac", " ", std::string(300, 'x')};
    const double oddNum[] = {0., -0., -1.5, std::numeric_limits<double>::infinity(), 1e-300, 1e300, -1e-40};
    auto odd = [&] { return sim::w(16) == 15; };
    const int np = sim::w(5);
    for (int i = 0; i < np; ++i) {
      const int len = sim::w(4);
      switch (sim::w(4)) {
      case 0: { std::vector<int> v(len); for (auto& x : v) x = val(); m.p.i[key()] = v; break; }
      case 1: { std::vector<float> v(len); for (auto& x : v) x = odd() ? (float)oddNum[sim::w(7)] : next++ * 0.5f; m.p.f[key()] = v; break; }
      case 2: { std::vector<double> v(len); for (auto& x : v) x = odd() ? oddNum[sim::w(7)] : next++ * 0.1; m.p.d[key()] = v; break; }
      default: { std::vector<std::string> v(len); for (auto& x : v) x = odd() ? oddStr[sim::w(6)] : (sim::w(2) ? "a string that is too long for the local buffer " : "") + std::to_string(next++); m.p.s[key()] = v; break; }
      }
    }
  }
  if (g.hugeOneIn && sim::w(g.hugeOneIn) == uint64_t(g.hugeOneIn - 1)) enlarge(m, next, g);
  return m;
}
inline size_t totalElems(const MFrame& m) {
  size_t n = 0;
  for (auto& c : m.c) n += c.size();
  return n;
}

/// an index that is not below n
inline size_t wrongIndex(size_t n) {
  switch (sim::w(6)) {
  case 1: return n + (size_t(1) << 32);
  case 2: return size_t(1) << (56 + sim::w(8));
  case 3: return size_t(-1) - sim::w(3);
  case 4: return n + sim::w(100);
  }
  return n;
}
inline size_t maxRelations(const MFrame& m) {
  size_t n = 0;
  for (auto& c : m.c)
    for (auto& e : c.e) n = std::max({n, e.m1.size(), e.m2.size()});
  return n;
}

// ---------------------------------------------------------------- in-memory storage
/// Copies of the write buffers of a collection, handed over as read buffers
template <typename T> void copyVec(std::vector<std::pair<std::string, void*>>* dst, std::vector<std::pair<std::string, void*>>* src, size_t i) {
  *static_cast<std::vector<T>*>((*dst)[i].second) = **static_cast<std::vector<T>**>((*src)[i].second);
}
inline podio::CollectionReadBuffers copyBuffers(const podio::CollectionBase* coll) {
  auto wb = const_cast<podio::CollectionBase*>(coll)->getBuffers();
  auto rb = podio::CollectionBufferFactory::instance().createBuffers(std::string(coll->getTypeName()), coll->getSchemaVersion(), coll->isSubsetCollection());
  SIM_CHECK(rb.has_value(), "wrong-data", "there are no read buffers for %s", std::string(coll->getTypeName()).c_str());
  SIM_CHECK(rb->references || !wb.references || wb.references->empty(), "wrong-data", "read buffers of %s have no references", std::string(coll->getTypeName()).c_str());
  if (wb.references && rb->references) {
    SIM_CHECK(rb->references->size() == wb.references->size(), "wrong-data", "read and write buffers of %s have different numbers of reference vectors", std::string(coll->getTypeName()).c_str());
    for (size_t i = 0; i < wb.references->size(); ++i) *(*rb->references)[i] = *(*wb.references)[i];
  }
  if (coll->isSubsetCollection()) return std::move(*rb);
  auto data = [&](auto* t) {
    using V = std::vector<std::remove_pointer_t<decltype(t)>>;
    *static_cast<V*>(rb->data) = *static_cast<V*>(wb.vecPtr);
  };
  const auto ty = coll->getTypeName();
  if (ty == dm::HitCollection::typeName) data((dm::HitData*)nullptr);
  else if (ty == dm::PartCollection::typeName) {
    data((dm::PartData*)nullptr);
    copyVec<int32_t>(rb->vectorMembers, wb.vectorMembers, 0);
    copyVec<dm::V3>(rb->vectorMembers, wb.vectorMembers, 1);
  } else if (ty == dm::CluCollection::typeName) {
    data((dm::CluData*)nullptr);
    copyVec<float>(rb->vectorMembers, wb.vectorMembers, 0);
  } else if (ty == dm::ObsCollection::typeName) data((dm::ObsData*)nullptr);
  else if (ty == PlainCollection::typeName) data((PlainData*)nullptr);
  else if (ty == dm::HitPartCollection::typeName || ty == dm::PartPartCollection::typeName || ty == dm::CluAnyCollection::typeName) data((podio::LinkData*)nullptr);
  else if (ty == podio::UserDataCollection<int32_t>::typeName) data((int32_t*)nullptr);
  else if (ty == podio::UserDataCollection<float>::typeName) data((float*)nullptr);
  else if (ty == podio::UserDataCollection<uint8_t>::typeName) data((uint8_t*)nullptr);
  else if (ty == podio::UserDataCollection<int64_t>::typeName) data((int64_t*)nullptr);
  else if (ty == podio::UserDataCollection<double>::typeName) data((double*)nullptr);
  else if (ty == podio::UserDataCollection<int8_t>::typeName) data((int8_t*)nullptr);
  else if (ty == podio::UserDataCollection<int16_t>::typeName) data((int16_t*)nullptr);
  else if (ty == podio::UserDataCollection<uint16_t>::typeName) data((uint16_t*)nullptr);
  else if (ty == podio::UserDataCollection<uint32_t>::typeName) data((uint32_t*)nullptr);
  else if (ty == podio::UserDataCollection<uint64_t>::typeName) data((uint64_t*)nullptr);
  else sim::fail("harness", "no buffer copy for %s", std::string(ty).c_str());
  return std::move(*rb);
}
/// A Frame data backend that keeps everything in memory
struct MemData {
  std::map<std::string, podio::CollectionReadBuffers> bufs;
  std::vector<uint32_t> ids;
  std::vector<std::string> names;
  std::unique_ptr<podio::GenericParameters> pars = std::make_unique<podio::GenericParameters>();

  /// take over the named collections of a frame
  static std::unique_ptr<MemData> from(const podio::Frame& f, const std::vector<std::string>& colls) {
    auto d = std::make_unique<MemData>();
    for (auto& n : colls) {
      auto* c = f.getCollectionForWrite(n);
      SIM_CHECK(c, "wrong-data", "collection %s is not there for writing", n.c_str());
      d->bufs.emplace(n, copyBuffers(c));
    }
    auto t = f.getCollectionIDTableForWrite();
    d->ids = t.ids();
    d->names = t.names();
    *d->pars = podio::GenericParameters(f.getParameters());
    return d;
  }
  podio::CollectionIDTable getIDTable() const { return {ids, names}; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& n) {
    auto it = bufs.find(n);
    if (it == bufs.end()) return std::nullopt;
    sim::yield_point();
    auto b = std::move(it->second);
    bufs.erase(it);
    return b;
  }
  std::vector<std::string> getAvailableCollections() const {
    std::vector<std::string> v;
    for (auto& [k, _] : bufs) v.push_back(k);
    return v;
  }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::move(pars); }
};
inline std::vector<std::string> namesOf(const MFrame& m, const Avail& a) {
  std::vector<std::string> v;
  for (size_t i = 0; i < m.c.size(); ++i)
    if (a[i]) v.push_back(m.c[i].name);
  return v;
}
/// a frame whose collections are still raw data
inline podio::Frame rawFrame(const MFrame& m, const Avail& a) {
  podio::Frame src;
  toFrame(src, m);
  return podio::Frame(MemData::from(src, namesOf(m, a)));
}
} // namespace dml
#endif
