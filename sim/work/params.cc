// C03: parameters of a Frame / GenericParameters under concurrent use
#include "lin.h"
#include "podio/Frame.h"
#include "podio/GenericParameters.h"
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>

namespace {
// Every set stores a value that encodes a unique id and its length
template <typename T> T enc(int id);
template <> int enc<int>(int id) { return id; }
template <> float enc<float>(int id) { return id * 0.5f; }
template <> double enc<double>(int id) { return id * 0.25; }
template <> std::string enc<std::string>(int id) { return "value-that-does-not-fit-inline-" + std::to_string(id); }
template <typename T> int dec(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) {
    if (v.rfind("value-that-does-not-fit-inline-", 0) != 0) return -1;
    return std::atoi(v.c_str() + 31);
  } else if constexpr (std::is_same_v<T, int>) {
    return v;
  } else if constexpr (std::is_same_v<T, float>) {
    return (int)(v * 2);
  } else {
    return (int)(v * 4);
  }
}
int lenOf(int id) { return id % 10; } // the last digit of an id is the vector length

enum Kind { SET, GET, GETS, GETN, KEYS, KV, COPY, EMPTYQ, CLEAR, LOAD, PRINT };
struct Op {
  int kind, type, key, id;
  long res = 0;                       // id read / length
  std::map<int, int> snap[4];         // listings: key -> id
  std::set<int> keys;
};
struct Model {
  std::map<int, int> m[4];
  bool apply(const Op& o) {
    auto& t = m[o.type];
    auto it = t.find(o.key);
    switch (o.kind) {
    case SET: t[o.key] = o.id; return true;
    case GET: return o.res == (it == t.end() ? 0 : it->second);
    case GETS: return o.res == (it == t.end() || lenOf(it->second) == 0 ? 0 : it->second);
    case GETN: return o.res == (it == t.end() ? 0 : lenOf(it->second));
    case KEYS: {
      if (o.keys.size() != t.size()) return false;
      for (auto& [k, _] : t)
        if (!o.keys.count(k)) return false;
      return true;
    }
    case KV: return o.snap[o.type] == t;
    case COPY:
      for (int i = 0; i < 4; ++i)
        if (o.snap[i] != m[i]) return false;
      return true;
    case EMPTYQ: {
      bool e = true;
      for (auto& x : m) e = e && x.empty();
      return e == (o.res != 0);
    }
    case CLEAR:
      for (auto& x : m) x.clear();
      return true;
    case LOAD: // does not replace what is there
      t.emplace(o.key, o.id);
      t.emplace((o.key + 1) % 6, o.id);
      return true;
    }
    return false;
  }
  uint64_t hash() const {
    uint64_t h = 7;
    for (int i = 0; i < 4; ++i)
      for (auto& [k, v] : m[i]) { h = (h ^ (uint64_t)(i * 64 + k)) * 0x100000001b3ull; h = (h ^ (uint64_t)v) * 0x9E3779B97F4A7C15ull; }
    return h;
  }
};
const char* keyName(int k) {
  static const char* names[] = {"a", "b", "a key that is too long for the small string optimisation", "weight_", "another long key name, with spaces and = signs", ""};
  return names[k % 6];
}
int keyIdx(const std::string& s) {
  for (int i = 0; i < 6; ++i)
    if (s == keyName(i)) return i;
  sim::fail("wrong-value", "a key was listed that nobody set: '%s'", s.c_str());
}
template <typename T> int vecId(const std::vector<T>& v, const char* where) {
  if (v.empty()) return -10; // id unknown, but only ids with length 0 match; see below
  int id = dec(v[0]);
  for (auto& x : v) SIM_CHECK(dec(x) == id, "wrong-value", "%s returned a mixture of two values: %d and %d", where, id, dec(x));
  SIM_CHECK(lenOf(id) == (int)v.size(), "wrong-value", "%s returned %zu of %d elements of value %d", where, v.size(), lenOf(id), id);
  return id;
}
/// empty vectors carry no id: all sets of empty vectors use the same id 10
constexpr int EMPTY_ID = 10;
template <typename T> int idOf(const std::vector<T>& v, const char* where) {
  int i = vecId(v, where);
  return i == -10 ? EMPTY_ID : i;
}

template <typename T> void doOp(podio::Frame* fr, podio::GenericParameters& gp, Op& o) {
  const std::string key = keyName(o.key);
  switch (o.kind) {
  case SET: {
    const int n = lenOf(o.id);
    if (n == 1 && (o.id / 10) % 2) {
      if constexpr (std::is_same_v<T, std::string>) {
        if ((o.id / 20) % 2) {
          const std::string s = enc<T>(o.id);
          if (fr) fr->putParameter(key, s.c_str());
          else gp.set(key, s.c_str());
          break;
        }
      }
      if (fr) fr->putParameter(key, enc<T>(o.id));
      else gp.set(key, enc<T>(o.id));
    } else if (n == 3 && (o.id / 10) % 2) {
      const T x = enc<T>(o.id);
      if (fr) fr->putParameter(key, {x, x, x});
      else gp.set(key, {x, x, x});
    } else {
      std::vector<T> v(n, enc<T>(o.id));
      if (fr) fr->putParameter(key, std::move(v));
      else gp.set(key, std::move(v));
    }
    break;
  }
  case GET: {
    std::optional<std::vector<T>> v;
    if (fr) v = fr->getParameter<std::vector<T>>(key);
    else v = gp.get<std::vector<T>>(key);
    o.res = v ? idOf(*v, "get") : 0;
    break;
  }
  case GETS: {
    std::optional<T> v;
    if (fr) v = fr->getParameter<T>(key);
    else v = gp.get<T>(key);
    o.res = v ? dec(*v) : 0;
    break;
  }
  case GETN: o.res = gp.getN<T>(key); break;
  case KEYS: {
    auto ks = fr ? fr->getParameterKeys<T>() : gp.getKeys<T>();
    for (auto& k : ks) SIM_CHECK(o.keys.insert(keyIdx(k)).second, "wrong-value", "key '%s' was listed twice", k.c_str());
    break;
  }
  case LOAD: {
    std::vector<std::string> ks{key, keyName(o.key + 1)};
    std::vector<std::vector<T>> vs(2, std::vector<T>(lenOf(o.id), enc<T>(o.id)));
    gp.loadFrom<T>(std::move(ks), std::move(vs));
    break;
  }
  case KV: {
    auto [ks, vs] = gp.getKeysAndValues<T>();
    SIM_CHECK(ks.size() == vs.size(), "wrong-value", "%zu keys but %zu values are listed", ks.size(), vs.size());
    for (size_t i = 0; i < ks.size(); ++i) o.snap[o.type][keyIdx(ks[i])] = idOf(vs[i], "getKeysAndValues");
    break;
  }
  }
}
template <typename T> void snapAll(const podio::GenericParameters& g, std::map<int, int>& m) {
  auto [ks, vs] = g.getKeysAndValues<T>();
  for (size_t i = 0; i < ks.size(); ++i) m[keyIdx(ks[i])] = idOf(vs[i], "copy");
}
} // namespace

SIM_WORKLOAD(params) {
  const bool useFrame = sim::w(2);
  podio::Frame* frame = useFrame ? new podio::Frame() : nullptr;
  podio::GenericParameters* own = useFrame ? nullptr : new podio::GenericParameters();
  podio::GenericParameters& gp = useFrame ? const_cast<podio::GenericParameters&>(frame->getParameters()) : *own;
  const int nthreads = 2 + sim::w(4);
  const int ntypes = 1 + sim::w(4), nkeys = 1 + sim::w(5);
  const int t0 = sim::w(4);
  int nextId = 2;
  // plan first (so that the plan does not depend on the schedule)
  std::vector<std::vector<Op>> plan(nthreads);
  std::vector<Op> initial;
  auto mkset = [&](Op& o) {
    o.kind = SET;
    int len = sim::w(4);
    o.id = len == 0 ? EMPTY_ID : (nextId++) * 10 + (len == 3 ? 1 : len == 2 ? 3 : 1 + len);
  };
  const int ninit = sim::w(6);
  for (int i = 0; i < ninit; ++i) {
    Op o{};
    o.type = (t0 + sim::w(ntypes)) % 4;
    o.key = sim::w(nkeys);
    mkset(o);
    initial.push_back(o);
  }
  int total = 0;
  for (auto& p : plan) {
    const int n = 1 + sim::w(5);
    for (int i = 0; i < n && total < 18; ++i, ++total) {
      Op o{};
      o.type = (t0 + sim::w(ntypes)) % 4;
      o.key = sim::w(nkeys);
      switch (sim::w(15)) {
      case 0: case 1: case 2: case 3: mkset(o); break;
      case 4: o.kind = GET; break;
      case 5: o.kind = GETS; break;
      case 6: o.kind = GETN; break;
      case 7: case 8: o.kind = KEYS; break;
      case 9: o.kind = KV; break;
      case 10: o.kind = COPY; break;
      case 11: o.kind = PRINT; break;
      case 12: o.kind = EMPTYQ; break;
      case 13: o.kind = CLEAR; break;
      default: mkset(o); o.kind = LOAD; break;
      }
      p.push_back(o);
    }
  }
  auto exec = [&](Op& o) {
    sim::ev("%s type %d key '%s' id %d", (const char*[]){"set", "get", "get scalar", "getN", "keys", "keys+values", "copy", "empty", "clear", "load", "print"}[o.kind], o.type, keyName(o.key), o.id);
    if (o.kind == COPY) {
      podio::GenericParameters c(gp);
      snapAll<int>(c, o.snap[0]);
      snapAll<float>(c, o.snap[1]);
      snapAll<std::string>(c, o.snap[2]);
      snapAll<double>(c, o.snap[3]);
    } else if (o.kind == EMPTYQ) {
      o.res = gp.empty();
    } else if (o.kind == CLEAR) {
      gp.clear();
    } else if (o.kind == PRINT) {
      std::ostringstream os;
      gp.print(os, false); // must neither race nor crash; the text is not looked at
      o.kind = -1;
    } else {
      switch (o.type) {
      case 0: doOp<int>(frame, gp, o); break;
      case 1: doOp<float>(frame, gp, o); break;
      case 2: doOp<std::string>(frame, gp, o); break;
      default: doOp<double>(frame, gp, o); break;
      }
    }
    sim::ev("  -> %ld", o.res);
  };
  Model init;
  for (auto& o : initial) { exec(o); init.apply(o); }
  std::vector<std::vector<lin::Rec<Op>>> hist(nthreads);
  for (int t = 0; t < nthreads; ++t) hist[t].reserve(plan[t].size());
  for (int t = 0; t < nthreads; ++t)
    sim::spawn([&, t] {
      for (auto& p : plan[t]) {
        lin::Rec<Op> r{0, 0, p};
        r.inv = sim::stamp();
        exec(r.op);
        r.res = sim::stamp();
        if (r.op.kind >= 0) hist[t].push_back(std::move(r));
        sim::count("op:params");
      }
    });
  sim::join_all();
  std::vector<lin::Rec<Op>> all;
  for (auto& h : hist) all.insert(all.end(), h.begin(), h.end());
  // the final state is part of the history
  {
    lin::Rec<Op> r{};
    r.op.kind = COPY;
    r.inv = sim::stamp();
    exec(r.op);
    r.res = sim::stamp();
    all.push_back(r);
    for (int i = 0; i < 4; ++i)
      for (auto& [k, v] : r.op.snap[i]) sim::mix(i * 1000 + k * 100000 + v);
  }
  if (total >= 4) sim::nontrivial();
  if (!lin::linearizable(all, init)) {
    std::string d;
    for (auto& r : all) d += "[" + std::to_string(r.inv) + "," + std::to_string(r.res) + "] k" + std::to_string(r.op.kind) + " t" + std::to_string(r.op.type) + " key" + std::to_string(r.op.key) + " id" + std::to_string(r.op.id) + " res" + std::to_string(r.op.res) + "; ";
    sim::fail("not-linearizable", "no one-at-a-time order explains the results: %s", d.c_str());
  }
  delete frame;
  delete own;
}

// O06: parameters when memory runs out, against plain maps
namespace {
struct ParamRun {
  template <typename T> using Map = std::map<std::string, std::vector<T>>;
  struct Model {
    Map<int> i;
    Map<float> f;
    Map<std::string> s;
    Map<double> d;
    bool operator==(const Model&) const = default;
    template <typename T> Map<T>& of() {
      if constexpr (std::is_same_v<T, int>) return i;
      else if constexpr (std::is_same_v<T, float>) return f;
      else if constexpr (std::is_same_v<T, std::string>) return s;
      else return d;
    }
  };
  static constexpr const char* P = "wrong-after-failure";
  std::optional<podio::GenericParameters> g;
  std::unique_ptr<podio::Frame> fr;
  Model m, mf; // of g, of fr
  int next = 1;

  /// true: done; false: an allocation failed
  template <typename F> bool call(F&& fn) {
    if (!sim::w(2)) {
      fn();
      return true;
    }
    sim::AllocFault af(1 + sim::f(12));
    try {
      fn();
      return true;
    } catch (const std::bad_alloc&) {
      SIM_CHECK(af.fired(), P, "bad_alloc although no allocation failed");
    }
    sim::count("fault:allocation");
    sim::ev("  an allocation failed");
    return false;
  }
  template <typename T> static void snapT(const podio::GenericParameters& g, Model& r) {
    auto [k, v] = g.getKeysAndValues<T>();
    SIM_CHECK(k.size() == v.size(), P, "%zu keys and %zu values", k.size(), v.size());
    for (size_t j = 0; j < k.size(); ++j) {
      SIM_CHECK(r.of<T>().emplace(k[j], v[j]).second, P, "parameter '%s' is listed twice", k[j].c_str());
      SIM_CHECK(g.getN<T>(k[j]) == v[j].size(), P, "parameter '%s' has two lengths", k[j].c_str());
      auto x = g.get<std::vector<T>>(k[j]);
      SIM_CHECK(x && *x == v[j], P, "parameter '%s' has two values", k[j].c_str());
    }
    SIM_CHECK(g.getKeys<T>() == k, P, "two lists of keys");
  }
  static Model snap(const podio::GenericParameters& g) {
    Model r;
    snapT<int>(g, r);
    snapT<float>(g, r);
    snapT<std::string>(g, r);
    snapT<double>(g, r);
    return r;
  }
  void check(const char* after) {
    SIM_CHECK(snap(*g) == m, P, "parameters are wrong after %s", after);
    SIM_CHECK(g->empty() == (m == Model{}), P, "empty() is wrong after %s", after);
    SIM_CHECK(snap(fr->getParameters()) == mf, P, "parameters of the Frame are wrong after %s", after);
  }
  template <typename T> void set() {
    const std::string key = keyName(sim::w(6));
    const int how = sim::w(4), len = how < 2 ? 1 : sim::w(6);
    const bool frame = sim::w(2);
    std::vector<T> v;
    for (int j = 0; j < len; ++j) v.push_back(enc<T>(next++));
    sim::ev("set %s[%s] to %d values", frame ? "frame " : "", key.c_str(), len);
    Model& mod = frame ? mf : m;
    Model old = mod;
    const bool ok = call([&] {
      if (frame) {
        if (how == 0) fr->putParameter(key, v[0]);
        else if constexpr (std::is_same_v<T, std::string>) {
          if (how == 1) fr->putParameter(key, v[0].c_str());
          else fr->putParameter(key, v);
        } else fr->putParameter(key, v);
      } else if (how == 0) g->set<T>(key, v[0]);
      else if constexpr (std::is_same_v<T, std::string>) {
        if (how == 1) g->set(key, v[0].c_str());
        else if (how == 2) g->set(key, v);
        else g->set<std::vector<T>>(key, v);
      } else g->set<std::vector<T>>(key, v);
    });
    mod.of<T>()[key] = v;
    if (!ok) settled(frame, old);
  }
  /// the failed call happened completely, or not at all
  void settled(bool frame, const Model& old) {
    Model& mod = frame ? mf : m;
    const Model is = snap(frame ? fr->getParameters() : *g);
    if (is == old) mod = old;
    else SIM_CHECK(is == mod, P, "a call that failed for lack of memory changed parameters");
  }
  template <typename T> void get() {
    const std::string key = keyName(sim::w(6));
    const bool frame = sim::w(2);
    Model& mod = frame ? mf : m;
    auto it = mod.of<T>().find(key);
    std::optional<std::vector<T>> v;
    std::optional<T> one;
    const auto& from = frame ? fr->getParameters() : *g;
    const int how = sim::w(4);
    if (!call([&] {
          if (how == 0) v = from.get<std::vector<T>>(key);
          else if (how == 1) one = from.get<T>(key);
          else if (how == 2) {
            v = fr->getParameter<std::vector<T>>(key);
          } else one = fr->getParameter<T>(key);
        }))
      return;
    if (how > 1) it = mf.of<T>().find(key);
    const bool has = it != (how > 1 || frame ? mf : m).of<T>().end();
    if (how % 2) SIM_CHECK(one.has_value() == (has && !it->second.empty()) && (!one || *one == it->second[0]), P, "wrong value of parameter '%s'", key.c_str());
    else SIM_CHECK(v.has_value() == has && (!v || *v == it->second), P, "wrong values of parameter '%s'", key.c_str());
  }
  template <typename T> void load() {
    std::vector<std::string> k;
    std::vector<std::vector<T>> v;
    Model old = m, want = m;
    for (int j = sim::w(4); j >= 0; --j) {
      k.push_back(keyName(sim::w(6)));
      v.emplace_back(sim::w(4), enc<T>(next++));
    }
    sim::ev("load %zu values", k.size());
    auto k2 = k;
    auto v2 = v;
    const bool ok = call([&] { g->loadFrom(std::move(k2), std::move(v2)); });
    for (size_t j = 0; j < k.size(); ++j) m.of<T>().emplace(k[j], v[j]);
    if (ok) return;
    // several values: those before the failure may be there
    Model is = snap(*g), at = old;
    bool found = is == at;
    for (size_t j = 0; j < k.size() && !found; ++j) {
      at.of<T>().emplace(k[j], v[j]);
      found = is == at;
    }
    SIM_CHECK(found, P, "a load that failed for lack of memory left something else");
    m = is;
  }
  void copies() {
    sim::ev("copy");
    std::optional<podio::GenericParameters> x;
    if (!call([&] { x.emplace(*g); })) return;
    SIM_CHECK(snap(*x) == m, P, "a copy of parameters is not equal");
    if (sim::w(2)) g = std::move(x);
  }
  template <typename T> void any() {
    const int x = sim::w(6);
    if (x < 3) set<T>();
    else if (x < 5) get<T>();
    else load<T>();
  }
  void run() {
    g.emplace();
    if (!call([&] { fr = std::make_unique<podio::Frame>(); })) fr = std::make_unique<podio::Frame>();
    const int n = 3 + sim::w(sim::thorough() ? 30 : 15);
    for (int j = 0; j < n; ++j) {
      switch (sim::w(6)) {
      case 0: any<int>(); break;
      case 1: any<float>(); break;
      case 2: any<double>(); break;
      case 3: any<std::string>(); break;
      case 4: copies(); break;
      default:
        if (sim::w(4) == 3) {
          g->clear();
          m = Model{};
        } else any<std::string>();
      }
      check("an operation");
    }
    if (next > 4) sim::nontrivial();
  }
};
} // namespace
SIM_WORKLOAD(params_alloc) { ParamRun().run(); }
