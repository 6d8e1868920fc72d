// O01-O06: histories of operations on objects, handles, collections and
// Frames, against a reference model of objects with an identity.
#include "dmlib.h"
#include "podio/LinkNavigator.h"
#include <algorithm>
#include <list>
#include <numeric>
#include <sstream>
#include <variant>

using namespace dml;
namespace {
using H = std::variant<std::monostate, dm::Hit, dm::MutableHit, dm::Part, dm::MutablePart, dm::Clu, dm::MutableClu, dm::Obs, dm::MutableObs, Plain, MutablePlain, dm::HitPart, dm::MutableHitPart,
                       dm::PartPart, dm::MutablePartPart, dm::CluAny, dm::MutableCluAny, dm::HasE>;
constexpr int ANY = 100; // "kind" of the interface type
constexpr int NOBJKIND = 8;
constexpr int UNSET = -1;

struct MO { // an object
  int kind = 0, v = 0;
  bool fresh = false; // still has its default values
  std::vector<int> a, b;
  int o1 = UNSET, o2 = UNSET; // object numbers
  std::vector<int> m1, m2;
  int coll = -1, index = -1; // collection number
  bool alive = true;
  bool shared = false; // its vectors are slices of those of the collection (was read)
};
struct MC { // a collection
  int kind = 0;
  bool subset = false;
  std::vector<int> e; // object numbers; -1: not available
  bool alive = true;
  bool read = false; // was read back as a whole
  bool adopted = false; // read back as a mutable one: its buffers are what was read, whatever happens to its objects
  int frame = -1;
  std::string name;
  uint32_t id = 0;
  std::unique_ptr<podio::CollectionBase> own;
};
struct Slot {
  H h;
  int obj = -1;
};

template <typename X> struct NoColl { using mutable_type = void; using value_type = void; };
template <typename X> struct CollOf { using type = NoColl<X>; };
#define COLLOF(T, C)                                                                                                   \
  template <> struct CollOf<T> { using type = C; };                                                                    
COLLOF(dm::Hit, dm::HitCollection)
COLLOF(dm::MutableHit, dm::HitCollection)
COLLOF(dm::Part, dm::PartCollection)
COLLOF(dm::MutablePart, dm::PartCollection)
COLLOF(dm::Clu, dm::CluCollection)
COLLOF(dm::MutableClu, dm::CluCollection)
COLLOF(dm::Obs, dm::ObsCollection)
COLLOF(dm::MutableObs, dm::ObsCollection)
COLLOF(Plain, PlainCollection)
COLLOF(MutablePlain, PlainCollection)
COLLOF(dm::HitPart, dm::HitPartCollection)
COLLOF(dm::MutableHitPart, dm::HitPartCollection)
COLLOF(dm::PartPart, dm::PartPartCollection)
COLLOF(dm::MutablePartPart, dm::PartPartCollection)
COLLOF(dm::CluAny, dm::CluAnyCollection)
COLLOF(dm::MutableCluAny, dm::CluAnyCollection)
template <typename X> using Coll = typename CollOf<X>::type;
template <typename X> constexpr bool isHandle = !std::is_same_v<Coll<X>, NoColl<X>>;
template <typename X> constexpr bool isMutableHandle = [] {
  if constexpr (isHandle<X>) return std::is_same_v<X, typename Coll<X>::mutable_type>;
  else return false;
}();
/// whether set() of a link between E and another type takes a handle of type Y for the end E
template <typename E, typename Other, typename Y> constexpr bool setsByType =
    !std::is_same_v<E, Other> && !isMutableHandle<Y> && std::is_convertible_v<Y&, E> && !std::is_convertible_v<Y&, Other>;

/// kinds of the targets of the relations o1, o2, m1, m2; -1: there is none
struct Rel { int o1, o2, m1, m2; bool a, b; };
const Rel rels[NOBJKIND] = {
    {-1, -1, -1, -1, false, false},      // HIT
    {PART, CLU, PART, HIT, true, true},  // PART: mother, clu, kids, hits, codes, pts
    {PART, -1, CLU, -1, true, false},    // CLU: lead, subs, w
    {OBS, ANY, CLU, ANY, false, false},  // OBS: next, any, clus, things
    {-1, -1, -1, -1, false, false},      // PLAIN
    {HIT, PART, -1, -1, false, false},   // links
    {PART, PART, -1, -1, false, false},
    {CLU, ANY, -1, -1, false, false},
};

template <typename X> bool fresh(const X& h) {
  if constexpr (std::is_same_v<Coll<X>, dm::HitCollection>)
    return h.getCell() == 0 && h.getEnergy() == 2.5 && eq(h.getNest().v, dm::V3{}) && h.getNest().flag == 7 && h.getArr()[0] == 1.f && h.getArr()[1] == 2.f && !h.getOn();
  else if constexpr (std::is_same_v<Coll<X>, dm::PartCollection>) return h.getPdg() == 0 && h.getEnergy() == 0;
  else if constexpr (std::is_same_v<Coll<X>, dm::CluCollection>) return h.getEnergy() == 0;
  else if constexpr (std::is_same_v<Coll<X>, dm::ObsCollection>) return h.getN() == 0;
  else if constexpr (std::is_same_v<Coll<X>, PlainCollection>) return h.getN() == 0;
  else return h.getWeight() == 1.f;
}
template <typename X> void setValues(X& h, int v, int how) {
  if constexpr (std::is_same_v<X, dm::MutableHit>) {
    if (how == 0) return fill(h, v);
    h.getCell() = (uint64_t)v * 0x9E3779B97F4A7C15ull;
    h.getEnergy() = v * 0.5;
    h.getNest().v = mkV3(v);
    h.getNest().flag = (int16_t)(v % 100);
    h.setArr(0, v * 1.5f);
    h.setArr(1, v * 2.5f);
    h.getOn() = v & 1;
  } else if constexpr (isLinkColl<Coll<X>>) {
    h.setWeight(v * 0.5f);
  } else {
    fill(h, v);
  }
}
template <typename X> X withArgs(int v) {
  if constexpr (std::is_same_v<X, dm::MutableHit>) {
    dm::Nest n;
    n.v = mkV3(v);
    n.flag = (int16_t)(v % 100);
    return X((uint64_t)v * 0x9E3779B97F4A7C15ull, v * 0.5, n, {v * 1.5f, v * 2.5f}, (bool)(v & 1));
  } else if constexpr (std::is_same_v<X, dm::MutablePart>) return X(v, v * 0.75);
  else if constexpr (std::is_same_v<X, dm::MutableClu>) return X(v * 1.25);
  else if constexpr (std::is_same_v<X, dm::MutableObs>) return X((int16_t)v);
  else if constexpr (std::is_same_v<X, MutablePlain>) return X(v);
  else return X(v * 0.5f);
}
template <typename C> typename C::mutable_type createWithArgs(C& c, int v) {
  if constexpr (std::is_same_v<C, dm::HitCollection>) {
    dm::Nest n;
    n.v = mkV3(v);
    n.flag = (int16_t)(v % 100);
    return c.create((uint64_t)v * 0x9E3779B97F4A7C15ull, v * 0.5, n, std::array<float, 2>{v * 1.5f, v * 2.5f}, (bool)(v & 1));
  } else if constexpr (std::is_same_v<C, dm::PartCollection>) return c.create(v, v * 0.75);
  else if constexpr (std::is_same_v<C, dm::CluCollection>) return c.create(v * 1.25);
  else if constexpr (std::is_same_v<C, dm::ObsCollection>) return c.create((int16_t)v);
  else if constexpr (std::is_same_v<C, PlainCollection>) return c.create(v);
  else return c.create();
}

enum Op { NEWOBJ, COPY, DROP, ELEM, FOLLOW, CLONE, SETV, SETREL, ADDREL, ADDVEC, NEWCOLL, CREATE, PUSH, CLEAR, MOVE, DESTROY, SETID, SUBSET, PUT, DELFRAME, READBACK, ADOPT, FROM, REJECT, NAVIGATE, SWAP, CHECK, NOP };
const char* opName[] = {"new object", "copy handle", "drop handle", "handle from collection", "follow relation", "clone", "set values", "set relation", "add relation", "add vector member", "new collection", "create", "push_back", "clear", "move collection", "destroy collection", "setID", "setSubsetCollection", "put", "destroy frame", "read back", "read back mutable", "from range", "rejected operation", "navigate", "swap", "check"};

struct Engine {
  const char* P; // kind of violation
  bool faults = false;
  bool big = false; ///< collections grow beyond what their containers hold at first
  std::vector<MO> o;
  std::vector<std::unique_ptr<MC>> c;
  std::vector<Slot> s;
  std::unique_ptr<podio::Frame> f[2];
  int next = 1, names = 0;

  explicit Engine(const char* p) : P(p), s(6) { s.reserve(6); }

  // ------------------------------------------------ faults
  /// false: an allocation failed and the call threw
  template <typename F> bool call(F&& fn) {
    if (!faults || sim::w(3)) {
      fn();
      return true;
    }
    bool thrown = false;
    {
      sim::AllocFault af(1 + sim::f(8));
      try {
        fn();
      } catch (const std::bad_alloc&) {
        thrown = true;
      }
      if (thrown) SIM_CHECK(af.fired(), P, "bad_alloc although no allocation failed");
    }
    if (!thrown) return true;
    sim::count("fault:allocation");
    sim::ev("  an allocation failed");
    settle();
    checkAll();
    if (sim::w(2)) {
      sim::ev("  again");
      fn();
      return true;
    }
    return false;
  }

  // ------------------------------------------------ the model
  /// recompute what is alive
  void settle() {
    std::vector<char> live(o.size(), 0);
    std::vector<int> todo;
    auto add = [&](int i) {
      // a handle keeps only objects alive that are in no collection
      if (i >= 0 && !live[i] && o[i].alive && o[i].coll < 0) {
        live[i] = 1;
        todo.push_back(i);
      }
    };
    for (size_t i = 0; i < o.size(); ++i)
      if (o[i].alive && o[i].coll >= 0 && c[o[i].coll]->alive) {
        live[i] = 1;
        todo.push_back(i);
      }
    for (auto& x : s) add(x.obj);
    while (!todo.empty()) {
      const int i = todo.back();
      todo.pop_back();
      add(o[i].o1);
      add(o[i].o2);
      for (int t : o[i].m1) add(t);
      for (int t : o[i].m2) add(t);
    }
    for (size_t i = 0; i < o.size(); ++i) o[i].alive = live[i];
  }
  bool reaches(int from, int to) const { // through free objects
    if (from < 0 || !o[from].alive || o[from].coll >= 0) return false;
    if (from == to) return true;
    auto r = [&](int t) { return t >= 0 && reaches(t, to); };
    if (r(o[from].o1) || r(o[from].o2)) return true;
    for (int t : o[from].m1) if (r(t)) return true;
    for (int t : o[from].m2) if (r(t)) return true;
    return false;
  }
  bool targetsAlive(int i) const {
    auto ok = [&](int t) { return t < 0 || o[t].alive; };
    if (!ok(o[i].o1) || !ok(o[i].o2)) return false;
    for (int t : o[i].m1) if (!ok(t)) return false;
    for (int t : o[i].m2) if (!ok(t)) return false;
    return true;
  }
  uint32_t idOf(int obj) const { return o[obj].coll < 0 ? (uint32_t)podio::ObjectID::untracked : c[o[obj].coll]->id; }

  template <typename C> const C& ccoll(int ci) const {
    const MC& x = *c[ci];
    if (x.frame >= 0) return f[x.frame]->get<C>(x.name);
    return static_cast<const C&>(*x.own);
  }
  template <typename C> C& mcoll(int ci) const { return static_cast<C&>(*c[ci]->own); }

  // ------------------------------------------------ getting at things
  int pick(const std::vector<int>& v) const { return v.empty() ? -1 : v[sim::w(v.size())]; }
  template <typename F> std::vector<int> colls(F&& pred) const {
    std::vector<int> v;
    for (size_t i = 0; i < c.size(); ++i)
      if (c[i]->alive && pred(*c[i])) v.push_back(i);
    return v;
  }
  template <typename F> std::vector<int> slots(F&& pred) const {
    std::vector<int> v;
    for (size_t i = 0; i < s.size(); ++i)
      if (s[i].obj >= 0 && pred(s[i])) v.push_back(i);
    return v;
  }
  bool reachable(int i) const {
    if (!o[i].alive) return false;
    if (o[i].coll >= 0) return true;
    for (auto& x : s)
      if (x.obj == i) return true;
    return false;
  }
  std::vector<int> objsOfKind(int kind) const {
    std::vector<int> v;
    for (size_t i = 0; i < o.size(); ++i)
      if (o[i].alive && reachable(i) && (kind == ANY ? hasE(o[i].kind) : o[i].kind == kind)) v.push_back(i);
    return v;
  }
  /// some handle of an object that can be reached
  H fetch(int i, bool wantMutable = false, bool concrete = true) const {
    H h = fetchAny(i, wantMutable);
    if (!concrete || h.index() != H(dm::HasE::makeEmpty()).index()) return h;
    const auto& any = std::get<dm::HasE>(h);
    return o[i].kind == HIT ? H(any.as<dm::Hit>()) : o[i].kind == PART ? H(any.as<dm::Part>()) : H(any.as<dm::Clu>());
  }
  H fetchAny(int i, bool wantMutable) const {
    std::vector<int> cand;
    for (size_t k = 0; k < s.size(); ++k)
      if (s[k].obj == i && (!wantMutable || std::visit([](auto& x) { return isMutableHandle<std::decay_t<decltype(x)>>; }, s[k].h))) cand.push_back(k);
    const bool inColl = o[i].coll >= 0 && (!wantMutable || c[o[i].coll]->frame < 0);
    if (!cand.empty() && (!inColl || sim::w(2))) return s[cand[sim::w(cand.size())]].h;
    SIM_CHECK(inColl, "harness", "no handle for object %d", i);
    return elem(o[i].coll, o[i].index, wantMutable || (c[o[i].coll]->frame < 0 && sim::w(2)));
  }
  H elem(int ci, int i, bool mut) const {
    return withKind(c[ci]->kind, [&](auto* t) -> H {
      using C = std::remove_pointer_t<decltype(t)>;
      if constexpr (isUserColl<C>) return H();
      else {
        const int how = sim::w(4);
        if (!mut) {
          const C& k = ccoll<C>(ci);
          switch (how) {
          case 0: return H(k[i]);
          case 1: return H(k.at(i));
          case 2: { auto it = k.begin(); it += i; return H(*it); }
          default: return H(*(k.rbegin() + (k.size() - 1 - i)));
          }
        }
        C& k = mcoll<C>(ci);
        switch (how) {
        case 0: return H(k[i]);
        case 1: return H(k.at(i));
        case 2: { auto it = k.begin(); it += i; return H(*it); }
        default: return H(k[i]);
        }
      }
    });
  }
  bool canMutate(int i) const { // through which handle ever
    if (!o[i].alive) return false;
    if (o[i].coll >= 0) {
      if (c[o[i].coll]->frame >= 0) return false;
      return true;
    }
    for (auto& x : s)
      if (x.obj == i && std::visit([](auto& h) { return isMutableHandle<std::decay_t<decltype(h)>>; }, x.h)) return true;
    return false;
  }
  std::vector<int> mutableObjs() const {
    std::vector<int> v;
    for (size_t i = 0; i < o.size(); ++i)
      if (canMutate(i)) v.push_back(i);
    return v;
  }

  // ------------------------------------------------ checks
  template <typename X> void sameAs(const X& h, int i, const char* what) const {
    if (i < 0) {
      SIM_CHECK(!h.isAvailable(), P, "%s should be unavailable", what);
      return;
    }
    if (!o[i].alive) return;
    SIM_CHECK(h.isAvailable(), P, "%s should be object %d but is unavailable", what, i);
    const auto id = h.getObjectID();
    SIM_CHECK(id.index == o[i].index && id.collectionID == idOf(i), P, "%s should be object %d with id %d of %08x, but has id %d of %08x", what, i, o[i].index, idOf(i), id.index, id.collectionID);
    if constexpr (std::is_same_v<X, dm::HasE>) {
      const int k = o[i].kind;
      const bool ok = k == HIT ? h.template isA<dm::Hit>() && (!o[i].fresh ? is(h.template as<dm::Hit>(), o[i].v) : fresh(h.template as<dm::Hit>()))
                    : k == PART ? h.template isA<dm::Part>() && (!o[i].fresh ? is(h.template as<dm::Part>(), o[i].v) : fresh(h.template as<dm::Part>()))
                                : h.template isA<dm::Clu>() && (!o[i].fresh ? is(h.template as<dm::Clu>(), o[i].v) : fresh(h.template as<dm::Clu>()));
      SIM_CHECK(ok, P, "%s should be object %d, but is one of another type or with other values", what, i);
    } else {
      SIM_CHECK(o[i].fresh ? fresh(h) : is(h, o[i].v), P, "%s should be object %d, but has other values", what, i);
    }
    // it is that very object
    for (auto& x : s)
      if (x.obj == i) {
        std::visit(
            [&](auto& y) {
              using Y = std::decay_t<decltype(y)>;
              if constexpr (isHandle<Y> && isHandle<X>) {
                if constexpr (std::is_same_v<Coll<X>, Coll<Y>>) SIM_CHECK(h == y && !(h != y), P, "%s should equal another handle of object %d", what, i);
              } else if constexpr (std::is_same_v<X, dm::HasE> && requires { X(y); }) {
                SIM_CHECK(h == X(y), P, "%s should equal another handle of object %d", what, i);
              } else if constexpr (std::is_same_v<Y, dm::HasE> && requires { Y(h); }) {
                SIM_CHECK(y == Y(h), P, "%s should equal another handle of object %d", what, i);
              }
            },
            x.h);
        break;
      }
  }
  template <typename R> void range(const R& r, const std::vector<int>& want, const char* what) const {
    SIM_CHECK(r.size() == want.size(), P, "%s has %zu entries instead of %zu", what, r.size(), want.size());
    SIM_CHECK(r.empty() == want.empty(), P, "%s: empty() is wrong", what);
    bool dead = false;
    for (int x : want) dead = dead || (x >= 0 && !o[x].alive);
    if (dead) return;
    for (size_t k = 0; k < want.size(); ++k) sameAs(r[k], want[k], what);
    size_t k = 0;
    for (const auto& x : r) sameAs(x, want[k++], what);
    try {
      (void)r.at(dml::wrongIndex(want.size()));
      sim::fail(P, "%s: access out of range does not throw", what);
    } catch (const std::out_of_range&) {
    }
  }
  template <typename R, typename T> void values(const R& r, const std::vector<T>& want, const char* what) const {
    SIM_CHECK(r.size() == want.size(), P, "%s has %zu values instead of %zu", what, r.size(), want.size());
    for (size_t k = 0; k < want.size(); ++k) {
      if constexpr (std::is_same_v<T, dm::V3>) SIM_CHECK(eq(r[k], want[k]), P, "%s[%zu] is wrong", what, k);
      else SIM_CHECK(r[k] == want[k], P, "%s[%zu] is wrong", what, k);
    }
  }
  template <typename F> void outOfRange(F&& fn, const char* what) const {
    try {
      fn();
    } catch (const std::out_of_range&) {
      return;
    }
    sim::fail(P, "%s: access out of range does not throw", what);
  }
  template <typename X> void object(const X& h, int i, const char* how) const {
    const MO& m = o[i];
    SIM_CHECK(h.isAvailable(), P, "object %d is not available through %s", i, how);
    SIM_CHECK(m.fresh ? fresh(h) : is(h, m.v), P, "object %d (kind %d) has wrong values through %s", i, m.kind, how);
    const auto id = h.getObjectID();
    SIM_CHECK(id.index == m.index && id.collectionID == idOf(i) && h.id() == id, P, "object %d has id %d of %08x instead of %d of %08x", i, id.index, id.collectionID, m.index, idOf(i));
    using C = Coll<X>;
    if constexpr (std::is_same_v<C, dm::PartCollection>) {
      values(h.getCodes(), m.a, "codes");
      std::vector<dm::V3> pts;
      for (int x : m.b) pts.push_back(mkV3(x));
      values(h.getPts(), pts, "pts");
      SIM_CHECK(h.codes_size() == m.a.size() && h.pts_size() == m.b.size() && h.kids_size() == m.m1.size() && h.hits_size() == m.m2.size(), P, "a size of object %d is wrong", i);
      for (size_t k = 0; k < m.a.size(); ++k) SIM_CHECK(h.getCodes(k) == m.a[k], P, "code %zu of object %d is wrong", k, i);
      outOfRange([&] { (void)h.getCodes(dml::wrongIndex(m.a.size())); }, "codes");
      outOfRange([&] { (void)h.getKids(dml::wrongIndex(m.m1.size())); }, "kids");
      outOfRange([&] { (void)h.getHits(dml::wrongIndex(m.m2.size() + 1)); }, "hits");
      SIM_CHECK((size_t)std::distance(h.kids_begin(), h.kids_end()) == m.m1.size(), P, "the iterators over kids of object %d are wrong", i);
      sameAs(h.getMother(), m.o1, "mother");
      sameAs(h.getClu(), m.o2, "clu");
      range(h.getKids(), m.m1, "kids");
      range(h.getHits(), m.m2, "hits");
      for (size_t k = 0; k < m.m1.size(); ++k)
        if (m.m1[k] < 0 || o[m.m1[k]].alive) sameAs(h.getKids(k), m.m1[k], "kids");
    } else if constexpr (std::is_same_v<C, dm::CluCollection>) {
      std::vector<float> w;
      for (int x : m.a) w.push_back(x * 0.5f);
      values(h.getW(), w, "w");
      SIM_CHECK(h.w_size() == w.size() && h.subs_size() == m.m1.size(), P, "a size of object %d is wrong", i);
      outOfRange([&] { (void)h.getW(dml::wrongIndex(w.size())); }, "w");
      sameAs(h.getLead(), m.o1, "lead");
      range(h.getSubs(), m.m1, "subs");
    } else if constexpr (std::is_same_v<C, dm::ObsCollection>) {
      sameAs(h.getNext(), m.o1, "next");
      sameAs(h.getAny(), m.o2, "any");
      range(h.getClus(), m.m1, "clus");
      range(h.getThings(), m.m2, "things");
    } else if constexpr (isLinkColl<C>) {
      sameAs(h.getFrom(), m.o1, "from");
      sameAs(h.getTo(), m.o2, "to");
      sameAs(h.template get<0>(), m.o1, "get<0>");
      sameAs(h.template get<1>(), m.o2, "get<1>");
      SIM_CHECK(h.template get<2>() == h.getWeight(), P, "get<2> of object %d is wrong", i);
    }
  }
  void collection(int ci) const {
    const MC& mc = *c[ci];
    withKind(mc.kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      if constexpr (!isUserColl<C>) {
        const C& k = ccoll<C>(ci);
        SIM_CHECK(k.size() == mc.e.size() && k.empty() == mc.e.empty(), P, "collection %d has %zu elements instead of %zu", ci, k.size(), mc.e.size());
        SIM_CHECK(k.isSubsetCollection() == mc.subset, P, "collection %d changed its kind", ci);
        SIM_CHECK(k.getID() == mc.id, P, "collection %d has ID %08x instead of %08x", ci, k.getID(), mc.id);
        const podio::CollectionBase& b = k;
        SIM_CHECK(b.size() == mc.e.size() && b.empty() == mc.e.empty(), P, "the base class of collection %d is wrong about its size", ci);
        bool dead = false;
        for (int i : mc.e) dead = dead || i < 0 || !o[i].alive;
        if (dead) return;
        for (size_t i = 0; i < mc.e.size(); ++i) {
          object(k[i], mc.e[i], "a const collection");
          sameAs(k.at(i), mc.e[i], "at()");
        }
        outOfRange([&] { (void)k.at(dml::wrongIndex(mc.e.size())); }, "a collection");
        size_t i = 0;
        for (auto h : k) sameAs(h, mc.e[i++], "iteration");
        SIM_CHECK(i == mc.e.size(), P, "iterating over collection %d gives %zu elements", ci, i);
        for (auto it = k.rbegin(); it != k.rend(); ++it) sameAs(*it, mc.e[--i], "reverse iteration");
        SIM_CHECK(i == 0, P, "reverse iteration over collection %d stops early", ci);
        for (auto it = k.begin(); it != k.end(); it++) {
          const auto at = it - k.begin();
          SIM_CHECK(it->getObjectID().index == o[mc.e[at]].index, P, "operator-> gives another element");
        }
        for (auto it = k.end(); it != k.begin();) {
          --it;
          sameAs(*it, mc.e[it - k.begin()], "decremented iterator");
        }
        if (!mc.e.empty()) sameAs(k.begin()[mc.e.size() - 1], mc.e.back(), "iterator index");
        if (mc.frame < 0) {
          C& mk = mcoll<C>(ci);
          i = 0;
          for (auto h : mk) object(h, mc.e[i++], "a mutable iterator");
          SIM_CHECK(i == mc.e.size(), P, "iterating over collection %d gives %zu elements", ci, i);
          for (auto it = mk.rbegin(); it != mk.rend(); ++it) sameAs(*it, mc.e[--i], "mutable reverse iteration");
          for (; i < mc.e.size(); ++i) sameAs(mk[i], mc.e[i], "mutable access");
          outOfRange([&] { (void)mk.at(dml::wrongIndex(mc.e.size())); }, "a collection");
        }
        if constexpr (std::is_same_v<C, dm::HitCollection> || std::is_same_v<C, dm::CluCollection> || std::is_same_v<C, dm::PartCollection>) {
          const size_t lim = sim::w(3);
          auto es = k.energy(lim);
          const size_t n = lim ? std::min(lim, mc.e.size()) : mc.e.size();
          SIM_CHECK(es.size() == n, P, "the values of collection %d are %zu instead of %zu", ci, es.size(), n);
          for (size_t j = 0; j < n; ++j) SIM_CHECK(es[j] == k[j].getEnergy(), P, "value %zu of collection %d is wrong", j, ci);
        }
      }
    });
  }
  void checkAll() const {
    for (size_t k = 0; k < s.size(); ++k) {
      const int i = s[k].obj;
      if (i < 0 || !o[i].alive) continue;
      std::visit(
          [&](auto& h) {
            using X = std::decay_t<decltype(h)>;
            if constexpr (isHandle<X>) object(h, i, "a handle");
            else if constexpr (std::is_same_v<X, dm::HasE>) {
              sameAs(h, i, "an interface handle");
              const double want = o[i].kind == HIT ? (o[i].fresh ? 2.5 : o[i].v * 0.5) : o[i].fresh ? 0. : o[i].kind == PART ? o[i].v * 0.75 : o[i].v * 1.25;
              SIM_CHECK(h.getEnergy() == want, P, "the interface handle of object %d gives another energy", i);
            }
          },
          s[k].h);
    }
    for (size_t i = 0; i < c.size(); ++i)
      if (c[i]->alive) collection(i);
    for (size_t i = 0; i < s.size(); ++i)
      for (size_t j = 0; j < s.size(); ++j)
        if (s[i].obj >= 0 && s[j].obj >= 0 && o[s[i].obj].alive && o[s[j].obj].alive) compare(s[i], s[j]);
  }
  void compare(const Slot& x, const Slot& y) const {
    const bool same = x.obj == y.obj;
    std::visit(
        [&](auto& a, auto& b) {
          using A = std::decay_t<decltype(a)>;
          using B = std::decay_t<decltype(b)>;
          if constexpr (std::is_same_v<A, std::monostate> || std::is_same_v<B, std::monostate>) return;
          else if constexpr (std::is_same_v<A, B>) {
            SIM_CHECK((a == b) == same && (a != b) != same, P, "two handles compare wrong");
            SIM_CHECK(same ? !(a < b) && !(b < a) : (a < b) != (b < a), P, "two handles are not ordered strictly");
            if (same) SIM_CHECK(std::hash<A>{}(a) == std::hash<A>{}(b), P, "equal handles have different hashes");
          } else if constexpr (isHandle<A> && isHandle<B>) {
            if constexpr (std::is_same_v<Coll<A>, Coll<B>>) {
              SIM_CHECK((a == b) == same && (b == a) == same && (a != b) != same, P, "a mutable and an immutable handle compare wrong");
              if (same) SIM_CHECK(std::hash<A>{}(a) == std::hash<B>{}(b), P, "equal handles have different hashes");
            }
          } else if constexpr (std::is_same_v<A, dm::HasE>) {
            if constexpr (requires { A(b); }) SIM_CHECK((a == A(b)) == same, P, "an interface handle compares wrong");
          }
        },
        x.h, y.h);
  }

  // ------------------------------------------------ operations
  void drop(Slot& x, int how) {
    if (how == 2 && x.obj >= 0) std::visit([](auto& h) { if constexpr (!std::is_same_v<std::decay_t<decltype(h)>, std::monostate>) h.unlink(); }, x.h);
    x.h = std::monostate{};
    x.obj = -1;
  }
  void put(int k, H&& h, int obj) {
    s[k].h = std::move(h);
    s[k].obj = obj;
  }
  int newObj(int kind, int v, bool isFresh) {
    MO m;
    m.kind = kind;
    m.v = v;
    m.fresh = isFresh;
    o.push_back(m);
    return o.size() - 1;
  }
  void opNewObj() {
    const int k = sim::w(s.size()), kind = someKind();
    const int v = nextVal();
    const int how = sim::w(3);
    sim::ev("slot %d: new object %zu of kind %d", k, o.size(), kind);
    withKind(kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      if constexpr (!isUserColl<C>) {
        using M = typename C::mutable_type;
        std::optional<M> h;
        if (how == 2) {
          if (!call([&] { h.emplace(withArgs<M>(v)); })) return;
        } else {
          if (!call([&] { h.emplace(); })) return;
        }
        const int n = newObj(kind, v, how == 0);
        if (how == 1) {
          SIM_CHECK(fresh(*h), P, "a new object does not have its default values");
          setValues(*h, v, sim::w(2));
        }
        put(k, H(*h), n);
      }
    });
  }
  void opCopy() {
    auto from = slots([](auto&) { return true; });
    const int i = pick(from);
    if (i < 0) return;
    const int k = sim::w(s.size());
    if (!o[s[i].obj].alive) return;
    const int how = sim::w(3);
    sim::ev("slot %d: %s of slot %d", k, how == 0 ? "copy" : how == 1 ? "immutable copy" : "interface copy", i);
    H h;
    const int obj = s[i].obj;
    if (!call([&] {
          std::visit(
              [&](auto& x) {
                using X = std::decay_t<decltype(x)>;
                if constexpr (std::is_same_v<X, std::monostate>) return;
                else if (how == 2 && requires { dm::HasE(x); }) {
                  if constexpr (requires { dm::HasE(x); }) h = dm::HasE(x);
                } else if (how == 1) {
                  if constexpr (isHandle<X>) h = typename Coll<X>::value_type(x);
                  else h = x;
                } else h = x;
              },
              s[i].h);
        }))
      return;
    put(k, std::move(h), obj);
  }
  void opElem() {
    const int ci = pick(colls([](auto& x) { return !x.e.empty(); }));
    if (ci < 0) return;
    const int i = sim::w(c[ci]->e.size());
    const int obj = c[ci]->e[i];
    if (obj < 0 || !o[obj].alive) return;
    const int k = sim::w(s.size());
    const bool mut = c[ci]->frame < 0 && !(c[ci]->subset && ownerInFrame(obj)) && sim::w(2);
    sim::ev("slot %d: element %d of collection %d%s", k, i, ci, mut ? " (mutable)" : "");
    put(k, elem(ci, i, mut), obj);
  }
  bool ownerInFrame(int obj) const { return o[obj].coll >= 0 && c[o[obj].coll]->frame >= 0; }
  void opFollow() {
    // take a handle out of a relation
    const int i = pick(slots([&](const Slot& x) { return o[x.obj].alive; }));
    if (i < 0) return;
    const int src = s[i].obj, k = sim::w(s.size());
    const int which = sim::w(4);
    auto alive = [&](int t) { return t >= 0 && o[t].alive; };
    std::visit(
        [&](auto& h) {
          using X = std::decay_t<decltype(h)>;
          const MO& m = o[src];
          H r;
          int t = -1;
          auto get1 = [&](int target, auto&& fn) { if (alive(target)) { t = target; call([&] { r = fn(); }) || (t = -1); } };
          auto getN = [&](const std::vector<int>& targets, auto&& fn) {
            if (targets.empty()) return;
            const int n = sim::w(targets.size());
            if (alive(targets[n])) { t = targets[n]; call([&] { r = fn(n); }) || (t = -1); }
          };
          if constexpr (isHandle<X>) {
            using C = Coll<X>;
            if constexpr (std::is_same_v<C, dm::PartCollection>) {
              if (which == 0) get1(m.o1, [&] { return h.getMother(); });
              else if (which == 1) get1(m.o2, [&] { return h.getClu(); });
              else if (which == 2) getN(m.m1, [&](int n) { return h.getKids(n); });
              else getN(m.m2, [&](int n) { return h.getHits()[n]; });
            } else if constexpr (std::is_same_v<C, dm::CluCollection>) {
              if (which == 0) get1(m.o1, [&] { return h.getLead(); });
              else getN(m.m1, [&](int n) { return h.getSubs()[n]; });
            } else if constexpr (std::is_same_v<C, dm::ObsCollection>) {
              if (which == 0) get1(m.o1, [&] { return h.getNext(); });
              else if (which == 1) get1(m.o2, [&] { return h.getAny(); });
              else if (which == 2) getN(m.m1, [&](int n) { return h.getClus()[n]; });
              else getN(m.m2, [&](int n) { return h.getThings(n); });
            } else if constexpr (isLinkColl<C>) {
              if constexpr (!std::is_same_v<typename C::from_type, typename C::to_type>) {
                if (which == 2) get1(m.o1, [&] { return h.template get<typename C::from_type>(); });
                else if (which == 3) get1(m.o2, [&] { return h.template get<typename C::to_type>(); });
              } else {
                if (which == 2) get1(m.o1, [&] { return h.template get<0>(); });
                else if (which == 3) get1(m.o2, [&] { return h.template get<1>(); });
              }
              if (which == 1) get1(m.o1, [&] { return h.getFrom(); });
              else if (which == 0) get1(m.o2, [&] { return h.getTo(); });
            }
          } else if constexpr (std::is_same_v<X, dm::HasE>) {
            t = src;
            call([&] {
              if (m.kind == HIT) r = h.template as<dm::Hit>();
              else if (m.kind == PART) r = h.template as<dm::Part>();
              else r = h.template as<dm::Clu>();
            }) || (t = -1);
            // any other type is refused
            try {
              if (m.kind == HIT) (void)h.template as<dm::Part>();
              else (void)h.template as<dm::Hit>();
              sim::fail(P, "an interface handle gives an object of the wrong type");
            } catch (const std::runtime_error&) {
            }
          }
          if (t >= 0) {
            sim::ev("slot %d: object %d out of a relation of object %d", k, t, src);
            H tmp = std::move(r);
            s[k].obj = t;
            if (k == i) deferred = std::move(tmp); // h is a reference into that slot
            else s[k].h = std::move(tmp);
          }
        },
        s[i].h);
    if (deferred.index()) {
      s[i].h = std::move(deferred);
      deferred = std::monostate{};
    }
  }
  H deferred;
  void opClone() {
    std::vector<int> cand;
    for (size_t i = 0; i < o.size(); ++i)
      if (reachable(i) && targetsAlive(i)) cand.push_back(i);
    const int i = pick(cand);
    if (i < 0) return;
    const bool withRel = sim::w(4) != 3;
    const int k = sim::w(s.size());
    const H h = fetch(i, canMutate(i) && sim::w(2));
    sim::ev("slot %d: clone of object %d%s", k, i, withRel ? "" : " without relations");
    std::visit(
        [&](auto& x) {
          using X = std::decay_t<decltype(x)>;
          if constexpr (isHandle<X>) {
            std::optional<typename Coll<X>::mutable_type> r;
            if (!call([&] { r.emplace(x.clone(withRel)); })) return;
            SIM_CHECK(*r != x && !(*r == x), P, "a clone equals its original");
            MO m = o[i];
            m.coll = m.index = -1;
            m.shared = false;
            if (!withRel) {
              m.o1 = m.o2 = UNSET;
              m.m1.clear();
              m.m2.clear();
              m.a.clear();
              m.b.clear();
            }
            o.push_back(m);
            object(*r, o.size() - 1, "a clone");
            put(k, H(*r), o.size() - 1);
          }
        },
        h);
  }
  void opSetV() {
    const int i = pick(mutableObjs());
    if (i < 0) return;
    H h = fetch(i, true);
    const int v = nextVal();
    sim::ev("object %d: values of %d", i, v);
    std::visit([&](auto& x) { if constexpr (isMutableHandle<std::decay_t<decltype(x)>>) setValues(x, v, sim::w(2)); }, h);
    o[i].v = v;
    o[i].fresh = false;
  }
  void opSetRel() {
    std::vector<int> cand;
    for (int i : mutableObjs())
      if (rels[o[i].kind].o1 >= 0 || rels[o[i].kind].o2 >= 0) cand.push_back(i);
    const int i = pick(cand);
    if (i < 0) return;
    const Rel& r = rels[o[i].kind];
    const bool second = r.o2 >= 0 && sim::w(2);
    const int tk = second ? r.o2 : r.o1;
    const bool empty = sim::w(8) == 7;
    const int t = empty ? UNSET : pick(objsOfKind(tk));
    if (!empty && (t < 0 || (o[i].coll < 0 && reaches(t, i)))) return;
    H h = fetch(i, true);
    const H target = empty ? H() : fetch(t, false, tk != ANY);
    const bool byType = isLink(o[i].kind) && sim::w(2);
    sim::ev("object %d: relation %d is object %d", i, second ? 2 : 1, t);
    if (!call([&] {
          std::visit(
              [&](auto& x) {
                using X = std::decay_t<decltype(x)>;
                if constexpr (isMutableHandle<X>) {
                  using C = Coll<X>;
                  auto withTarget = [&]<typename T>(std::type_identity<T>, auto&& fn) {
                    if (empty) { auto none = T::makeEmpty(); fn(none); return; }
                    std::visit(
                        [&](auto& y) {
                          if constexpr (std::is_convertible_v<decltype(y), T>) {
                            if constexpr (requires { fn(y); }) fn(y);
                          }
                        },
                        target);
                  };
                  if constexpr (std::is_same_v<C, dm::PartCollection>) {
                    if (!second) withTarget(std::type_identity<dm::Part>{}, [&](const dm::Part& y) { x.setMother(y); });
                    else withTarget(std::type_identity<dm::Clu>{}, [&](const dm::Clu& y) { x.setClu(y); });
                  } else if constexpr (std::is_same_v<C, dm::CluCollection>) {
                    withTarget(std::type_identity<dm::Part>{}, [&](const dm::Part& y) { x.setLead(y); });
                  } else if constexpr (std::is_same_v<C, dm::ObsCollection>) {
                    if (!second) withTarget(std::type_identity<dm::Obs>{}, [&](const dm::Obs& y) { x.setNext(y); });
                    else withTarget(std::type_identity<dm::HasE>{}, [&](const dm::HasE& y) { x.setAny(y); });
                  } else if constexpr (isLinkColl<C>) {
                    // by name, or by the type where it tells the ends apart
                    if (!second) withTarget(std::type_identity<typename C::from_type>{}, [&](auto& y) -> decltype(x.setFrom(y)) {
                      if constexpr (setsByType<typename C::from_type, typename C::to_type, std::decay_t<decltype(y)>>) {
                        if (byType) return x.set(y);
                      }
                      return x.setFrom(y);
                    });
                    else withTarget(std::type_identity<typename C::to_type>{}, [&](auto& y) -> decltype(x.setTo(y)) {
                      if constexpr (setsByType<typename C::to_type, typename C::from_type, std::decay_t<decltype(y)>>) {
                        if (byType) return x.set(y);
                      }
                      return x.setTo(y);
                    });
                  }
                }
              },
              h);
        }))
      return;
    (second ? o[i].o2 : o[i].o1) = t;
  }
  void opAddRel() {
    std::vector<int> cand;
    for (int i : mutableObjs())
      if (!o[i].shared && (rels[o[i].kind].m1 >= 0 || rels[o[i].kind].m2 >= 0)) cand.push_back(i);
    const int i = pick(cand);
    if (i < 0) return;
    const Rel& r = rels[o[i].kind];
    const bool second = r.m2 >= 0 && sim::w(2);
    const int t = pick(objsOfKind(second ? r.m2 : r.m1));
    if (t < 0 || (o[i].coll < 0 && reaches(t, i))) return;
    H h = fetch(i, true);
    const H target = fetch(t, false, (second ? r.m2 : r.m1) != ANY);
    sim::ev("object %d: adds object %d to relation %d", i, t, second ? 2 : 1);
    if (!call([&] {
          std::visit(
              [&](auto& x) {
                using X = std::decay_t<decltype(x)>;
                if constexpr (isMutableHandle<X>) {
                  using C = Coll<X>;
                  auto withTarget = [&]<typename T>(std::type_identity<T>, auto&& fn) { std::visit([&](auto& y) { if constexpr (std::is_convertible_v<decltype(y), T>) fn(y); }, target); };
                  if constexpr (std::is_same_v<C, dm::PartCollection>) {
                    if (!second) withTarget(std::type_identity<dm::Part>{}, [&](const dm::Part& y) { x.addToKids(y); });
                    else withTarget(std::type_identity<dm::Hit>{}, [&](const dm::Hit& y) { x.addToHits(y); });
                  } else if constexpr (std::is_same_v<C, dm::CluCollection>) {
                    withTarget(std::type_identity<dm::Clu>{}, [&](const dm::Clu& y) { x.addToSubs(y); });
                  } else if constexpr (std::is_same_v<C, dm::ObsCollection>) {
                    if (!second) withTarget(std::type_identity<dm::Clu>{}, [&](const dm::Clu& y) { x.addToClus(y); });
                    else withTarget(std::type_identity<dm::HasE>{}, [&](const dm::HasE& y) { x.addToThings(y); });
                  }
                }
              },
              h);
        }))
      return;
    (second ? o[i].m2 : o[i].m1).push_back(t);
  }
  void opAddVec() {
    std::vector<int> cand;
    for (int i : mutableObjs())
      if (!o[i].shared && rels[o[i].kind].a) cand.push_back(i);
    const int i = pick(cand);
    if (i < 0) return;
    const bool second = rels[o[i].kind].b && sim::w(2);
    const auto& have = second ? o[i].b : o[i].a;
    const int own = !have.empty() && sim::w(4) == 3 ? (int)sim::w(have.size()) : -1;
    const int v = own < 0 ? nextVal() : have[own];
    H h = fetch(i, true);
    sim::ev("object %d: adds value %d", i, v);
    if (!call([&] {
          std::visit(
              [&](auto& x) {
                using X = std::decay_t<decltype(x)>;
                // a new value, or one of its own by reference
                if constexpr (std::is_same_v<X, dm::MutablePart>) {
                  if (own < 0) second ? x.addToPts(mkV3(v)) : x.addToCodes(v);
                  else second ? x.addToPts(x.getPts()[own]) : x.addToCodes(*(x.getCodes().begin() + own));
                } else if constexpr (std::is_same_v<X, dm::MutableClu>) {
                  if (own < 0) x.addToW(v * 0.5f);
                  else x.addToW(x.getW()[own]);
                }
              },
              h);
        }))
      return;
    (second ? o[i].b : o[i].a).push_back(v);
  }
  int newColl(int kind, bool subset, std::unique_ptr<podio::CollectionBase> own) {
    auto m = std::make_unique<MC>();
    m->kind = kind;
    m->subset = subset;
    m->id = own->getID();
    m->own = std::move(own);
    c.push_back(std::move(m));
    return c.size() - 1;
  }
  void opNewColl() {
    if (colls([](auto&) { return true; }).size() > 7) return;
    const int kind = someKind();
    const bool subset = sim::w(3) == 2;
    withKind(kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      std::unique_ptr<podio::CollectionBase> own;
      if (!call([&] { own = std::make_unique<C>(); })) return;
      if (subset && !call([&] { own->setSubsetCollection(); })) return;
      sim::ev("collection %d: new %scollection of kind %d", newColl(kind, subset, std::move(own)), subset ? "subset " : "", kind);
    });
  }
  int ownColl(bool (*pred)(const MC&)) const { return pick(colls([&](const MC& x) { return x.frame < 0 && pred(x); })); }
  /// mostly values that tell all objects apart
  int nextVal() {
    static const int odd[] = {0, -3, 32767};
    const int v = next++;
    return sim::w(16) == 15 ? odd[sim::w(3)] : v;
  }
  void opCreate() {
    const int ci = ownColl([](const MC& x) { return !x.read; });
    if (ci < 0) return;
    // sometimes many, beyond what the containers of a collection hold at first
    const bool many = (big || sim::w(faults ? 14 : 40) == 13) && !c[ci]->subset && c[ci]->e.size() < 70;
    if (!many) return createIn(ci);
    const size_t n = 60 + sim::w(16);
    for (int tries = 0; tries < 100 && c[ci]->e.size() < n; ++tries) {
      if (sim::w(3) == 2) pushNewTo(ci);
      else createIn(ci);
    }
  }
  void pushNewTo(int ci) {
    MC& mc = *c[ci];
    const int v = nextVal(), k = sim::w(s.size());
    sim::ev("collection %d: push_back new object %zu", ci, o.size());
    withKind(mc.kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      if constexpr (!isUserColl<C>) {
        using M = typename C::mutable_type;
        if (mc.read) return;
        std::optional<M> h;
        if (!call([&] { h.emplace(withArgs<M>(v)); })) return;
        const int i = newObj(mc.kind, v, false);
        put(k, H(*h), i);
        if (!call([&] { mcoll<C>(ci).push_back(*h); })) return;
        o[i].coll = ci;
        o[i].index = mc.e.size();
        mc.e.push_back(i);
      }
    });
  }
  void createIn(int ci) {
    MC& mc = *c[ci];
    const int v = nextVal(), how = sim::w(3), k = sim::w(3 * s.size());
    sim::ev("collection %d: create object %zu", ci, o.size());
    withKind(mc.kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      if constexpr (!isUserColl<C>) {
        C& x = mcoll<C>(ci);
        if (mc.subset) {
          try {
            (void)x.create();
            sim::fail(P, "create() in a subset collection does not throw");
          } catch (const std::logic_error&) {
          }
          return;
        }
        std::optional<typename C::mutable_type> h;
        if (!call([&] { h.emplace(how == 2 ? createWithArgs(x, v) : x.create()); })) return;
        const int n = newObj(mc.kind, v, how == 0 || (how == 2 && isLinkColl<C>));
        if (how == 1) {
          SIM_CHECK(fresh(*h), P, "a new element does not have its default values");
          setValues(*h, v, sim::w(2));
        }
        o[n].coll = ci;
        o[n].index = mc.e.size();
        mc.e.push_back(n);
        object(*h, n, "the handle create() returns");
        if (k < (int)s.size()) put(k, H(*h), n);
      }
    });
  }
  void opPush() {
    const int ci = ownColl([](const MC& x) { return !x.read; });
    if (ci < 0) return;
    MC& mc = *c[ci];
    const int i = pick(objsOfKind(mc.kind));
    if (i < 0) return;
    const H h = fetch(i);
    std::visit(
        [&](auto& x) {
          using X = std::decay_t<decltype(x)>;
          if constexpr (isHandle<X>) {
            using C = Coll<X>;
            C& k = mcoll<C>(ci);
            const bool ok = mc.subset ? o[i].coll >= 0 : isMutableHandle<X> && o[i].coll < 0;
            sim::ev("collection %d: push_back object %d%s", ci, i, ok ? "" : " (must be rejected)");
            if (!ok) {
              try {
                k.push_back(x);
                sim::fail(P, "push_back of object %d to collection %d is not rejected", i, ci);
              } catch (const std::invalid_argument&) {
              }
              return;
            }
            if (!call([&] { k.push_back(x); })) return;
            if (!mc.subset) {
              o[i].coll = ci;
              o[i].index = mc.e.size();
            }
            mc.e.push_back(i);
          }
        },
        h);
  }
  void killElements(MC& mc) {
    if (!mc.subset)
      for (int i : mc.e) o[i].alive = false;
    mc.e.clear();
  }
  void opClear() {
    const int ci = ownColl([](const MC&) { return true; });
    if (ci < 0) return;
    sim::ev("collection %d: clear", ci);
    c[ci]->own->clear();
    killElements(*c[ci]);
    c[ci]->read = c[ci]->adopted = false;
    settle();
  }
  void opMove() {
    const int ci = ownColl([](const MC&) { return true; });
    if (ci < 0) return;
    const int to = sim::w(2) ? ownColl([](const MC&) { return true; }) : -1;
    const bool assign = to >= 0 && to != ci && c[to]->kind == c[ci]->kind;
    withKind(c[ci]->kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      if constexpr (!isUserColl<C>) {
        if (assign) {
          sim::ev("collection %d: moved into collection %d", ci, to);
          mcoll<C>(to) = std::move(mcoll<C>(ci));
          killElements(*c[to]);
          c[to]->alive = false;
          auto target = std::move(c[to]->own);
          c[ci]->own = std::move(target);
          settle();
        } else {
          sim::ev("collection %d: moved", ci);
          std::unique_ptr<podio::CollectionBase> n;
          if (!call([&] { n = std::make_unique<C>(std::move(mcoll<C>(ci))); })) return;
          c[ci]->own = std::move(n);
        }
      }
    });
  }
  void opDestroy() {
    const int ci = ownColl([](const MC&) { return true; });
    if (ci < 0) return;
    sim::ev("collection %d: destroyed", ci);
    destroy(ci);
    settle();
  }
  void destroy(int ci) {
    c[ci]->own.reset();
    killElements(*c[ci]);
    c[ci]->alive = false;
  }
  void opSetId() {
    const int ci = ownColl([](const MC&) { return true; });
    if (ci < 0) return;
    const uint32_t id = 0xC0000000u + next++;
    sim::ev("collection %d: setID", ci);
    c[ci]->own->setID(id);
    c[ci]->id = id;
  }
  void opSubset() {
    const int ci = ownColl([](const MC& x) { return !x.read; });
    if (ci < 0) return;
    MC& mc = *c[ci];
    const bool to = sim::w(2);
    sim::ev("collection %d: setSubsetCollection(%d)", ci, to);
    if (to != mc.subset && !mc.e.empty()) {
      try {
        mc.own->setSubsetCollection(to);
        sim::fail(P, "collection %d changes its kind although it has elements", ci);
      } catch (const std::logic_error&) {
      }
      return;
    }
    if (to && !mc.e.empty()) return; // declaring it again is not useful with elements
    if (!call([&] { mc.own->setSubsetCollection(to); })) return;
    mc.subset = to;
  }
  void opPut() {
    const int fi = sim::w(2);
    const int ci = ownColl([](const MC&) { return true; });
    if (ci < 0) return;
    if (!f[fi] && !call([&] { f[fi] = std::make_unique<podio::Frame>(); })) return;
    MC& mc = *c[ci];
    const std::string name = (names % 3 == 2 ? "a collection name that does not fit locally " : "c") + std::to_string(names);
    ++names;
    const bool typed = sim::w(2);
    sim::ev("collection %d: put into frame %d as %s", ci, fi, name.c_str());
    bool done = false;
    withKind(mc.kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      if constexpr (!isUserColl<C>) {
        auto fn = [&] {
          if (done) return; // it is given away and can not be put again
          done = true;
          if (typed) {
            const C& r = f[fi]->put(std::move(mcoll<C>(ci)), name);
            SIM_CHECK(&r == &f[fi]->get<C>(name), P, "put() returns another collection than get()");
          } else {
            f[fi]->put(std::move(mc.own), name);
          }
          done = false;
        };
        bool ok = false;
        bool thrown = false;
        if (!faults || sim::w(3)) {
          fn();
          ok = true;
        } else {
          sim::AllocFault af(1 + sim::f(14));
          try {
            fn();
            ok = true;
          } catch (const std::bad_alloc&) {
            thrown = true;
          }
        }
        (void)thrown;
        if (!ok) {
          sim::count("fault:allocation");
          sim::ev("  an allocation failed");
          SIM_CHECK(f[fi]->get(name) == nullptr, P, "put() failed but collection %s is in the frame", name.c_str());
          destroy(ci); // given away in any case
          settle();
          checkAll();
          return;
        }
        mc.own.reset();
        mc.frame = fi;
        mc.name = name;
        mc.id = f[fi]->get(name)->getID();
        SIM_CHECK(f[fi]->get<C>(name).hasID(), P, "collection %s has no ID in the frame", name.c_str());
      }
    });
  }
  void frameDies(int fi) {
    for (auto& x : c)
      if (x->alive && x->frame == fi) {
        killElements(*x);
        x->alive = false;
        x->frame = -1;
      }
  }
  void opDelFrame() {
    const int fi = sim::w(2);
    if (!f[fi]) return;
    if (sim::w(3) == 2) {
      sim::ev("frame %d: moved", fi);
      auto n = std::make_unique<podio::Frame>(std::move(*f[fi]));
      f[fi] = std::move(n);
      return;
    }
    sim::ev("frame %d: destroyed", fi);
    f[fi].reset();
    frameDies(fi);
    settle();
  }
  /// what can be written, and read again with the same meaning
  bool writable(int fi) const {
    bool any = false;
    for (auto& x : c) {
      if (!x->alive || x->frame != fi) continue;
      any = true;
      if (x->adopted) return false;
      for (int i : x->e) {
        if (i < 0 || !o[i].alive) return false;
        if (x->subset) continue;
        if (!targetsAlive(i)) return false;
        if (o[i].shared) continue; // is written as it was read
        for (int t : o[i].m1) if (t < 0 || o[t].coll < 0) return false;
        for (int t : o[i].m2) if (t < 0 || o[t].coll < 0) return false;
      }
    }
    return any;
  }
  struct Provider : podio::ICollectionProvider {
    std::map<uint32_t, podio::CollectionBase*> m;
    bool get(uint32_t id, podio::CollectionBase*& k) const override {
      auto it = m.find(id);
      if (it == m.end()) return false;
      k = it->second;
      return true;
    }
  };
  void opReadBack(bool adopt, int fi) {
    if (!f[fi] || !writable(fi)) return;
    if (adopt && colls([](const MC& x) { return x.frame < 0; }).size() > 6) return;
    sim::ev("frame %d: written and read back%s", fi, adopt ? " as mutable collections" : "");
    std::vector<int> cs;
    std::vector<std::string> nm;
    for (size_t i = 0; i < c.size(); ++i)
      if (c[i]->alive && c[i]->frame == fi) {
        cs.push_back(i);
        nm.push_back(c[i]->name);
      }
    // a preparation that fails is repeated below
    if (faults)
      for (auto& n : nm) {
        if (sim::w(2) || !f[fi]->get(n)) continue; // unpacking is for later
        sim::AllocFault af(1 + sim::f(10));
        try {
          (void)f[fi]->getCollectionForWrite(n);
        } catch (const std::bad_alloc&) {
          sim::count("fault:allocation while preparing");
          sim::ev("  an allocation failed while preparing %s", n.c_str());
        }
      }
    // the collections were read before and are written again as they are
    std::unique_ptr<MemData> d;
    d = MemData::from(*f[fi], nm);
    // the new objects
    std::map<int, int> ren;
    std::vector<std::unique_ptr<MC>> nc;
    const int c0 = c.size();
    for (size_t j = 0; j < cs.size(); ++j) {
      auto m = std::make_unique<MC>();
      const MC& old = *c[cs[j]];
      m->kind = old.kind;
      m->subset = old.subset;
      m->name = old.name;
      m->id = old.id;
      m->read = true;
      m->frame = fi;
      if (!old.subset)
        for (int i : old.e) {
          MO x = o[i];
          x.coll = c0 + j;
          x.shared = true;
          ren[i] = o.size();
          m->e.push_back(o.size());
          o.push_back(x);
        }
      nc.push_back(std::move(m));
    }
    auto tr = [&](int t) { auto it = ren.find(t); return it == ren.end() ? UNSET : it->second; };
    for (auto& [_, n] : ren) {
      o[n].o1 = tr(o[n].o1);
      o[n].o2 = tr(o[n].o2);
      for (int& t : o[n].m1) t = tr(t);
      for (int& t : o[n].m2) t = tr(t);
    }
    for (size_t j = 0; j < cs.size(); ++j)
      if (nc[j]->subset)
        for (int i : c[cs[j]]->e) nc[j]->e.push_back(tr(i));
    std::unique_ptr<podio::Frame> nf;
    if (!adopt) {
      nf = std::make_unique<podio::Frame>(std::move(d));
    } else {
      Provider pr;
      for (size_t j = 0; j < cs.size(); ++j) {
        auto b = d->getCollectionBuffers(nm[j]);
        SIM_CHECK(b.has_value(), "harness", "no buffers");
        auto k = b->createCollection(std::move(*b), nc[j]->subset);
        k->setID(nc[j]->id);
        k->prepareAfterRead();
        pr.m[nc[j]->id] = k.get();
        nc[j]->own = std::move(k);
        nc[j]->frame = -1;
        nc[j]->adopted = true;
      }
      for (auto& x : nc) SIM_CHECK(x->own->setReferences(&pr), P, "the references can not be set");
    }
    frameDies(fi);
    f[fi] = std::move(nf);
    for (auto& x : nc) c.push_back(std::move(x));
    settle();
    // reading in the face of failing allocations
    if (faults && !adopt)
      for (auto& n : nm) {
        if (sim::w(2)) continue;
        sim::AllocFault af(1 + sim::f(sim::f(3) == 2 || big ? 120 : 20));
        try {
          (void)f[fi]->get(n);
        } catch (const std::bad_alloc&) {
          sim::count("fault:allocation while reading");
          sim::ev("  an allocation failed while reading %s", n.c_str());
          lost = fi;
        }
      }
    if (lost == fi) { // what was being read may be gone, but must not be incomplete
      lost = -1;
      for (size_t j = 0; j < cs.size(); ++j) {
        MC& x = *c[c0 + j];
        const auto* k = f[fi]->get(x.name);
        if (!k) {
          sim::count("op:collection lost to a failing allocation");
          goto gone;
        }
      }
    }
    checkAll();
    return;
  gone:
    // the rest of the frame can still be looked at, but is not in the model
    for (size_t j = 0; j < cs.size(); ++j) {
      const auto* k = f[fi]->get(c[c0 + j]->name);
      if (k) SIM_CHECK(k->size() == c[c0 + j]->e.size(), P, "collection %s is incomplete", c[c0 + j]->name.c_str());
    }
    f[fi].reset();
    frameDies(fi);
    settle();
  }
  int lost = -1;
  void opFrom() {
    const int kind = someKind();
    if (colls([](auto&) { return true; }).size() > 7) return;
    const bool subset = sim::w(2);
    withKind(kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      if constexpr (!isUserColl<C>) {
        using M = typename C::mutable_type;
        using I = typename C::value_type;
        std::vector<int> objs;
        if (subset) {
          std::vector<I> hs;
          for (int i : objsOfKind(kind))
            if (o[i].coll >= 0 && sim::w(2)) {
              const H h = fetch(i);
              std::visit([&](auto& x) { if constexpr (std::is_convertible_v<decltype(x), I>) { hs.push_back(x); objs.push_back(i); } }, h);
            }
          std::unique_ptr<podio::CollectionBase> own;
          if (!call([&] { own = std::make_unique<C>(C::from(hs)); })) return;
          const int ci = newColl(kind, true, std::move(own));
          c[ci]->e = objs;
          sim::ev("collection %d: from %zu immutable handles", ci, objs.size());
        } else {
          std::vector<M> hs;
          for (auto& x : s)
            if (x.obj >= 0 && o[x.obj].alive && o[x.obj].coll < 0 && std::find(objs.begin(), objs.end(), x.obj) == objs.end())
              if (auto* h = std::get_if<M>(&x.h)) {
                hs.push_back(*h);
                objs.push_back(x.obj);
              }
          auto own = std::make_unique<C>(C::from(hs));
          const int ci = newColl(kind, false, std::move(own));
          for (int i : objs) {
            o[i].coll = ci;
            o[i].index = c[ci]->e.size();
            c[ci]->e.push_back(i);
          }
          sim::ev("collection %d: from %zu mutable handles", ci, objs.size());
        }
      }
    });
  }
  void opNavigate() {
    const int ci = pick(colls([](auto& x) { return isLink(x.kind); }));
    if (ci < 0) return;
    const MC& mc = *c[ci];
    for (int i : mc.e)
      if (i < 0 || !o[i].alive || !targetsAlive(i)) return;
    sim::ev("navigate the links of collection %d", ci);
    withKind(mc.kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      if constexpr (isLinkColl<C>) {
        using From = typename C::from_type;
        using To = typename C::to_type;
        const C& k = ccoll<C>(ci);
        std::optional<podio::LinkNavigator<C>> nav;
        if (!call([&] { nav.emplace(k); })) return;
        if (sim::w(2)) {
          auto copy = *nav;
          nav.emplace(std::move(copy));
        }
        auto verify = [&](const auto& got, std::vector<std::pair<int, float>> want, const char* what) {
          SIM_CHECK(got.size() == want.size(), P, "%s gives %zu objects instead of %zu", what, got.size(), want.size());
          std::vector<char> used(want.size(), 0);
          for (auto& [x, wt] : got) {
            bool found = false;
            for (size_t j = 0; j < want.size() && !found; ++j) {
              if (used[j] || want[j].second != wt) continue;
              const int n = want[j].first;
              bool same;
              if (n < 0) same = !x.isAvailable();
              else same = x.isAvailable() && x.getObjectID() == podio::ObjectID{o[n].index, idOf(n)} && sameKind(x, n);
              if (same) {
                used[j] = 1;
                found = true;
                sameAs(x, n, what);
              }
            }
            SIM_CHECK(found, P, "%s gives an object that is not linked", what);
          }
        };
        auto weight = [&](int l) { return o[l].fresh ? 1.f : o[l].v * 0.5f; };
        auto partners = [&](int obj, bool from) {
          std::vector<std::pair<int, float>> w;
          for (int l : mc.e)
            if ((from ? o[l].o1 : o[l].o2) == obj) w.emplace_back(from ? o[l].o2 : o[l].o1, weight(l));
          return w;
        };
        auto ask = [&](int obj) {
          const H h = obj < 0 ? H() : fetch(obj);
          auto asFrom = [&](const From& x) {
            verify(nav->getLinkedTo(x), partners(obj, true), "getLinkedTo");
            if constexpr (!std::is_same_v<From, To> && !std::is_same_v<To, dm::HasE>) verify(nav->getLinked(x), partners(obj, true), "getLinked");
          };
          auto asTo = [&](const To& x) {
            verify(nav->getLinkedFrom(x), partners(obj, false), "getLinkedFrom");
            if constexpr (!std::is_same_v<From, To> && !std::is_same_v<To, dm::HasE>) verify(nav->getLinked(x), partners(obj, false), "getLinked");
          };
          if (obj < 0) {
            asFrom(From::makeEmpty());
            asTo(To::makeEmpty());
            return;
          }
          std::visit(
              [&](auto& x) {
                if constexpr (std::is_convertible_v<decltype(x), From>) asFrom(x);
                if constexpr (std::is_convertible_v<decltype(x), To>) asTo(x);
              },
              h);
        };
        std::set<int> objs;
        for (int l : mc.e) {
          objs.insert(o[l].o1);
          objs.insert(o[l].o2);
        }
        for (int i : objs)
          if (i < 0 || reachable(i)) ask(i);
        const int other = pick(objsOfKind(mc.kind == LHP ? HIT : PART));
        if (other >= 0) ask(other);
        sim::count("op:links navigated", mc.e.size());
      }
    });
  }
  template <typename X> bool sameKind(const X& x, int n) const {
    if constexpr (std::is_same_v<X, dm::HasE>) return !reachable(n) || (o[n].kind == HIT ? x.template isA<dm::Hit>() && x.template as<dm::Hit>() == h2<dm::Hit>(n) : o[n].kind == PART ? x.template isA<dm::Part>() && x.template as<dm::Part>() == h2<dm::Part>(n) : x.template isA<dm::Clu>() && x.template as<dm::Clu>() == h2<dm::Clu>(n));
    else return !reachable(n) || x == h2<X>(n);
  }
  template <typename X> X h2(int n) const { // an immutable handle of an object
    if (!reachable(n)) return X::makeEmpty();
    X r = X::makeEmpty();
    const H h = fetch(n);
    std::visit([&](auto& y) {
      using Y = std::decay_t<decltype(y)>;
      if constexpr (std::is_convertible_v<Y, X>) r = y;
      else if constexpr (std::is_same_v<Y, dm::HasE>) { if constexpr (hasE(KindOf<Coll<X>>::k)) r = y.template as<X>(); }
    }, h);
    return r;
  }
  void opSwap() {
    const int i = sim::w(s.size()), j = sim::w(s.size());
    if (i == j) return;
    sim::ev("slots %d and %d: swapped", i, j);
    std::visit(
        [&](auto& x, auto& y) {
          if constexpr (std::is_same_v<decltype(x), decltype(y)>) {
            using std::swap;
            swap(x, y);
            std::swap(s[i].obj, s[j].obj);
          }
        },
        s[i].h, s[j].h);
  }

  std::vector<int> kinds;
  int someKind() const { return kinds[sim::w(kinds.size())]; }
  /// start from an event with many relations
  void start() {
    const int how = sim::w(6);
    if (how == 0) return;
    GenCfg g;
    g.user = g.params = false;
    g.maxColls = 4;
    g.hugeOneIn = 150;
    const MFrame m = gen(g, next);
    next += 2000;
    const char* hows[] = {"", "in collections of their own", "in a frame", "in a frame from storage", "in collections read back", "in a frame from storage"};
    sim::ev("%zu objects %s", totalElems(m), hows[how]);
    std::map<std::pair<int, int>, int> num;
    Colls cs;
    if (how == 1) cs = build(m);
    else if (how == 3 || how == 5) f[0] = std::make_unique<podio::Frame>(rawFrame(m, dml::all(m)));
    else {
      f[0] = std::make_unique<podio::Frame>();
      toFrame(*f[0], m);
    }
    for (size_t ci = 0; ci < m.c.size(); ++ci) {
      auto x = std::make_unique<MC>();
      x->kind = m.c[ci].kind;
      x->subset = m.c[ci].subset;
      x->name = m.c[ci].name;
      if (how == 1) {
        x->id = cs[ci]->getID();
        x->own = std::move(cs[ci]);
      } else {
        x->frame = 0;
        x->id = *f[0]->getCollectionIDTableForWrite().collectionID(x->name);
        x->read = how != 2 && how != 4;
      }
      for (size_t i = 0; i < m.c[ci].e.size(); ++i) {
        const MElem& e = m.c[ci].e[i];
        const int n = newObj(x->kind, e.v, false);
        o[n].a = e.a;
        o[n].b = e.b;
        o[n].coll = ci;
        o[n].index = i;
        o[n].shared = x->read;
        num[{ci, i}] = n;
        x->e.push_back(n);
      }
      c.push_back(std::move(x));
    }
    auto at = [&](Ref r) { return r.set() ? num.at({r.c, r.i}) : UNSET; };
    for (size_t ci = 0; ci < m.c.size(); ++ci) {
      for (auto& r : m.c[ci].refs) c[ci]->e.push_back(at(r));
      for (size_t i = 0; i < m.c[ci].e.size(); ++i) {
        const MElem& e = m.c[ci].e[i];
        MO& x = o[num.at({ci, i})];
        x.o1 = at(e.o1);
        x.o2 = at(e.o2);
        for (auto& r : e.m1) x.m1.push_back(at(r));
        for (auto& r : e.m2) x.m2.push_back(at(r));
      }
    }
    if (how == 4) opReadBack(true, 0);
    if (sim::w(2)) checkAll();
  }
  /// large collections, filled, put into a Frame, written and read
  void runBig() {
    static const std::vector<int> families[] = {{PART, LPP}, {LPP}, {LHP}, {LCA}, {HIT}, {PART}, {CLU}, {OBS}};
    kinds = families[sim::w(8)];
    for (int n = 1 + sim::w(2); n-- > 0;) {
      opNewColl();
      for (int k = 1 + sim::w(2); k-- > 0;) opCreate();
    }
    for (int n = sim::w(6); n-- > 0;) opSetRel();
    for (int n = sim::w(4); n-- > 0;) opAddRel();
    if (sim::w(4) == 3) opClear();
    for (int n = 1 + sim::w(3); n-- > 0;) opPut();
    for (int n = 1 + sim::w(2); n-- > 0;)
      for (int fi : {0, 1}) opReadBack(false, fi);
    finish();
  }
  void run(std::vector<std::pair<Op, int>> weights, int maxOps) {
    static const std::vector<int> families[] = {{HIT, PART, CLU, OBS, PLAIN, LHP, LPP, LCA}, {PART}, {PART, CLU}, {HIT, PART, LHP}, {PART, LPP}, {CLU, LCA, HIT}, {OBS, CLU, HIT}, {HIT}, {PLAIN, CLU}, {OBS, PART}};
    kinds = families[sim::w(10)];
    for (auto& [_, w] : weights) {
      const int x = sim::w(5);
      w = x == 3 ? 0 : x == 4 ? w * 5 : w;
    }
    weights.emplace_back(CHECK, 1);
    start();
    int total = 0;
    for (auto& [_, w] : weights) total += w;
    const int n = 4 + sim::w(maxOps - 3);
    for (int step = 0; step < n; ++step) {
      int x = sim::w(total);
      Op op = NOP;
      for (auto& [p, w] : weights) {
        if (x < w) {
          op = p;
          break;
        }
        x -= w;
      }
      sim::count((std::string("op:") + opName[op]).c_str());
      switch (op) {
      case NEWOBJ: opNewObj(); break;
      case COPY: opCopy(); break;
      case DROP: { const int k = sim::w(s.size()); sim::ev("slot %d: dropped", k); drop(s[k], sim::w(3)); break; }
      case ELEM: opElem(); break;
      case FOLLOW: opFollow(); break;
      case CLONE: opClone(); break;
      case SETV: opSetV(); break;
      case SETREL: opSetRel(); break;
      case ADDREL: opAddRel(); break;
      case ADDVEC: opAddVec(); break;
      case NEWCOLL: opNewColl(); break;
      case CREATE: opCreate(); break;
      case PUSH: opPush(); break;
      case CLEAR: opClear(); break;
      case MOVE: opMove(); break;
      case DESTROY: opDestroy(); break;
      case SETID: opSetId(); break;
      case SUBSET: opSubset(); break;
      case PUT: opPut(); break;
      case DELFRAME: opDelFrame(); break;
      case READBACK: opReadBack(false, sim::w(2)); break;
      case ADOPT: opReadBack(true, sim::w(2)); break;
      case FROM: opFrom(); break;
      case NAVIGATE: opNavigate(); break;
      case SWAP: opSwap(); break;
      case CHECK: checkAll(); break;
      default: break;
      }
      settle();
      sim::mix(((uint64_t)op << 32) + o.size());
    }
    finish();
  }
  void finish() {
    checkAll();
    if (o.size() > 1) sim::nontrivial();
    // the end, in any order
    const int order = sim::w(3);
    auto dropSlots = [&] { for (auto& x : s) drop(x, 0); settle(); };
    auto dropColls = [&] {
      for (size_t i = 0; i < c.size(); ++i)
        if (c[i]->alive && c[i]->frame < 0) destroy(i);
      settle();
    };
    auto dropFrames = [&] {
      for (int i = 0; i < 2; ++i) {
        f[i].reset();
        frameDies(i);
      }
      settle();
    };
    if (order == 0) { dropSlots(); checkAll(); dropColls(); checkAll(); dropFrames(); }
    else if (order == 1) { dropColls(); checkAll(); dropFrames(); checkAll(); dropSlots(); }
    else { dropFrames(); checkAll(); dropSlots(); dropColls(); }
  }
};
using Weights = std::vector<std::pair<Op, int>>;
const Weights all = {{NEWCOLL, 8}, {CREATE, 10}, {NEWOBJ, 8}, {COPY, 6}, {DROP, 6}, {ELEM, 6}, {FOLLOW, 4}, {CLONE, 4}, {SETV, 4}, {SETREL, 6}, {ADDREL, 6}, {ADDVEC, 3}, {PUSH, 10}, {CLEAR, 2}, {MOVE, 3}, {DESTROY, 2}, {SETID, 1}, {SUBSET, 1}, {PUT, 4}, {DELFRAME, 1}, {READBACK, 2}, {ADOPT, 1}, {FROM, 2}, {NAVIGATE, 1}, {SWAP, 1}, {CHECK, 1}};
Weights with(std::initializer_list<std::pair<Op, int>> more) {
  Weights w = all;
  for (auto& m : more)
    for (auto& x : w)
      if (x.first == m.first) x.second = m.second;
  return w;
}
void go(const char* kind, const Weights& w, int ops, bool faults = false) {
  Engine e(kind);
  e.faults = faults;
  e.run(w, sim::thorough() ? ops * 2 : ops);
}
} // namespace

SIM_WORKLOAD(lifetime) { go("wrong-object", with({{DROP, 12}, {COPY, 10}, {CLEAR, 4}, {DESTROY, 5}, {DELFRAME, 3}, {MOVE, 6}, {CHECK, 2}}), 40); }
SIM_WORKLOAD(content) { go("wrong-content", with({{NEWCOLL, 12}, {CREATE, 20}, {PUSH, 20}, {SETREL, 2}, {ADDREL, 2}, {CLEAR, 4}, {MOVE, 6}, {SETID, 3}, {SUBSET, 5}, {FROM, 5}, {PUT, 5}}), 40); }
SIM_WORKLOAD(clones) { go("wrong-clone", with({{CLONE, 16}, {READBACK, 4}, {ADOPT, 4}, {PUT, 8}, {SETV, 10}, {ADDREL, 10}, {ADDVEC, 8}}), 40); }
SIM_WORKLOAD(relations) { go("wrong-relation", with({{SETREL, 16}, {ADDREL, 20}, {ADDVEC, 12}, {CREATE, 16}, {PUT, 8}, {READBACK, 5}, {FOLLOW, 8}}), 45); }
SIM_WORKLOAD(allocfail) { go("wrong-after-failure", with({{READBACK, 4}, {PUT, 6}}), 30, true); }
SIM_WORKLOAD(allocfail_big) {
  Engine e("wrong-after-failure");
  e.faults = e.big = true;
  e.runBig();
}

SIM_WORKLOAD(links) {
  Engine e("wrong-link");
  e.run(with({{SETREL, 24}, {NAVIGATE, 10}, {READBACK, 4}, {PUT, 8}, {CREATE, 20}}), sim::thorough() ? 90 : 45);
}
