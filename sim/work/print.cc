// O07: printing
#include "dmlib.h"
#include "cyc/ACollection.h"
#include "cyc/BCollection.h"
#include <nlohmann/json.hpp>
#include <cmath>
#include <iomanip>
#include <sstream>

namespace {
constexpr const char* P = "wrong-print";
struct Style {
  std::ios_base::fmtflags flags;
  int precision = 6, width = 0;
  char fill = ' ';
  bool plain = true; // the text can be taken apart
};
Style style() {
  Style s;
  s.flags = std::ios_base::skipws | std::ios_base::dec;
  switch (sim::w(6)) {
  case 0: s.precision = 12; break;
  case 1: s.flags |= std::ios_base::scientific; break;
  case 2: s.flags |= std::ios_base::boolalpha; s.plain = false; break;
  case 3: s.flags = std::ios_base::hex | std::ios_base::showbase | std::ios_base::left; s.plain = false; break;
  case 4:
    s.fill = '*';
    s.width = 3;
    s.flags |= std::ios_base::uppercase | std::ios_base::showpoint;
    s.plain = false;
    break;
  }
  return s;
}
/// the text of something, and that the stream is as before
template <typename F> std::string text(const Style& s, F&& print) {
  std::ostringstream os;
  os.flags(s.flags);
  os.precision(s.precision);
  os.fill(s.fill);
  os.width(s.width);
  print(os);
  SIM_CHECK(os.good(), P, "printing leaves the stream in an error state");
  SIM_CHECK(os.flags() == s.flags && os.precision() == s.precision && os.fill() == s.fill, P, "printing changes the format of the stream: flags %x instead of %x", (unsigned)os.flags(), (unsigned)s.flags);
  return os.str();
}

// ---------------------------------------------------------------- what has to be in a text, in this order
struct Tok {
  bool id;
  podio::ObjectID o;
  double d = 0;
};
using Toks = std::vector<Tok>;
void num(Toks& t, double d) { t.push_back({false, {}, d}); }
template <typename H> void id(Toks& t, const H& h) { t.push_back({true, h.id()}); }
template <typename R> void ids(Toks& t, const R& r) {
  for (const auto& h : r)
    if (h.isAvailable()) id(t, h);
}
void v3(Toks& t, const dm::V3& v) {
  num(t, v.a), num(t, v.b);
  for (auto x : v.c) num(t, x);
}
/// coll: as part of a collection
void want(Toks& t, const dm::Hit& h, bool coll) {
  id(t, h), num(t, (double)h.getCell()), num(t, h.getEnergy());
  v3(t, h.getNest().v), num(t, h.getNest().flag);
  if (!coll)
    for (auto x : h.getArr()) num(t, x);
  num(t, h.getOn());
}
void want(Toks& t, const dm::Part& h, bool coll) {
  id(t, h), num(t, h.getPdg()), num(t, h.getEnergy());
  if (!coll) id(t, h.getMother()), id(t, h.getClu());
  ids(t, h.getKids()), ids(t, h.getHits());
  if (coll) id(t, h.getMother()), id(t, h.getClu());
  for (auto x : h.getCodes()) num(t, x);
  for (auto& x : h.getPts()) v3(t, x);
}
void want(Toks& t, const dm::Clu& h, bool coll) {
  id(t, h), num(t, h.getEnergy());
  if (!coll) id(t, h.getLead());
  ids(t, h.getSubs());
  if (coll) id(t, h.getLead());
  for (auto x : h.getW()) num(t, x);
}
void want(Toks& t, const dm::Obs& h, bool coll) {
  id(t, h), num(t, h.getN());
  if (!coll) id(t, h.getAny()), id(t, h.getNext());
  ids(t, h.getThings()), ids(t, h.getClus());
  if (coll) id(t, h.getAny()), id(t, h.getNext());
}
void want(Toks& t, const Plain& h, bool) { id(t, h), num(t, h.getN()); }
template <typename F, typename T, bool M> void want(Toks& t, const podio::LinkT<F, T, M>& h, bool) { id(t, h), num(t, h.getWeight()), id(t, h.getFrom()), id(t, h.getTo()); }
void want(Toks& t, const cyc::A& h, bool coll) {
  id(t, h), num(t, h.n()), num(t, h.p().x), num(t, h.p().k[0]), num(t, h.p().k[1]);
  ids(t, h.bs()), ids(t, h.any());
}
void want(Toks& t, const cyc::B& h, bool coll) {
  id(t, h), num(t, h.y());
  if (!coll) id(t, h.one());
  ids(t, h.as());
  if (coll) id(t, h.one());
}
// ---------------------------------------------------------------- what the JSON has to be
using nlohmann::json;
json jid(const podio::ObjectID& o) { return json::object({{"collectionID", o.collectionID}, {"index", o.index}}); }
template <typename R> json jids(const R& r) {
  auto j = json::array();
  for (const auto& h : r) j.push_back(jid(h.getObjectID()));
  return j;
}
/// one related object: a list of one
template <typename H> json jone(const H& h) { return json::array({jid(h.getObjectID())}); }
json jv3(const dm::V3& v) { return json::object({{"a", v.a}, {"b", v.b}, {"c", json::array({v.c[0], v.c[1], v.c[2]})}}); }
json jwant(const dm::Hit& h) {
  const auto n = h.getNest();
  const auto a = h.getArr();
  return json::object({{"cell", h.getCell()}, {"energy", h.getEnergy()}, {"nest", json::object({{"v", jv3(n.v)}, {"flag", n.flag}})}, {"arr", json::array({a[0], a[1]})}, {"on", h.getOn()}});
}
json jwant(const dm::Part& h) {
  auto c = json::array(), p = json::array();
  for (auto x : h.getCodes()) c.push_back(x);
  for (auto& x : h.getPts()) p.push_back(jv3(x));
  return json::object({{"pdg", h.getPdg()}, {"energy", h.getEnergy()}, {"codes", c}, {"pts", p}, {"mother", jone(h.getMother())}, {"clu", jone(h.getClu())}, {"kids", jids(h.getKids())}, {"hits", jids(h.getHits())}});
}
json jwant(const dm::Clu& h) {
  auto w = json::array();
  for (auto x : h.getW()) w.push_back(x);
  return json::object({{"energy", h.getEnergy()}, {"w", w}, {"lead", jone(h.getLead())}, {"subs", jids(h.getSubs())}});
}
json jwant(const dm::Obs& h) {
  return json::object({{"n", h.getN()}, {"any", jone(h.getAny())}, {"next", jone(h.getNext())}, {"things", jids(h.getThings())}, {"clus", jids(h.getClus())}});
}
json jwant(const Plain& h) { return json::object({{"n", h.getN()}}); }
template <typename F, typename T, bool M> json jwant(const podio::LinkT<F, T, M>& h) { return json::object({{"weight", h.getWeight()}, {"from", jid(h.getFrom().getObjectID())}, {"to", jid(h.getTo().getObjectID())}}); }
json jwant(const cyc::A& h) {
  return json::object({{"n", h.n()}, {"p", json::object({{"x", h.p().x}, {"k", json::array({h.p().k[0], h.p().k[1]})}})}, {"bs", jids(h.bs())}, {"any", jids(h.any())}});
}
json jwant(const cyc::B& h) { return json::object({{"y", h.y()}, {"one", jone(h.one())}, {"as", jids(h.as())}}); }
/// an object that is not there has nothing to convert
template <typename H> json jelem(const H& h) { return h.isAvailable() ? jwant(h) : json(nullptr); }
template <typename C> json jcoll(const C& c) {
  auto j = json::array();
  for (const auto& h : c) {
    if constexpr (dml::isUserColl<C>) j.push_back(h);
    else if (c.isSubsetCollection() && !dml::isLinkColl<C>) j.push_back(jid(h.getObjectID()));
    else j.push_back(jelem(h));
  }
  return j;
}
template <typename X> std::string jtext(const X& x, bool look, const json* want) {
  const json j{{"it", x}};
  const auto r = j["it"].dump();
  if (look) SIM_CHECK(r == want->dump(), P, "the JSON is %s instead of %s", r.substr(0, 300).c_str(), want->dump().substr(0, 300).c_str());
  return r;
}
template <typename H> std::string jobj(const H& h, bool look) {
  if (!look) return jtext(h, false, nullptr);
  const json w = jelem(h);
  return jtext(h, true, &w);
}

void contains(const std::string& s, const Toks& ts, int precision, const char* what) {
  std::vector<std::string> have(1);
  for (char c : s)
    if (isspace((unsigned char)c) || c == '|' || c == ',' || c == '[' || c == ']') {
      if (!have.back().empty()) have.emplace_back();
    } else have.back() += c;
  size_t k = 0;
  const double eps = std::pow(10., 1 - precision);
  for (auto& t : ts) {
    bool found = false;
    for (; k < have.size() && !found; ++k) {
      char* end;
      if (t.id) {
        found = strtoull(have[k].c_str(), &end, 16) == t.o.collectionID && !*end && k + 1 < have.size() && strtol(have[k + 1].c_str(), &end, 10) == t.o.index && !*end;
        if (found) ++k;
      } else {
        const double d = strtod(have[k].c_str(), &end);
        found = end != have[k].c_str() && !*end && (d == t.d || std::abs(d - t.d) <= eps * std::max(std::abs(d), std::abs(t.d)));
      }
    }
    if (!found) {
      if (t.id) sim::fail(P, "%s: the ID %x of number %d is not in the text", what, t.o.collectionID, t.o.index);
      sim::fail(P, "%s: the value %g is not in the text", what, t.d);
    }
  }
}

// ---------------------------------------------------------------- the things to print
struct World {
  dml::MFrame m;
  dml::Avail av;
  dml::Colls own;
  std::unique_ptr<podio::Frame> f;
  podio::GenericParameters pars;
  std::unique_ptr<cyc::ACollection> as;
  std::unique_ptr<cyc::BCollection> bs;
  const podio::CollectionBase* coll(int i) const { return f ? f->get(m.c[i].name) : own[i].get(); }
};
struct Item {
  int what, c, i; // what, collection, element
  Style s;
};
enum { COLL, COLL_OP, ELEM, REL, IFACE, PARS, A_, B_, A_COLL, B_COLL, EMPTY_, JCOLL, JELEM, JREL, JCYC, NWHAT };

template <typename H> std::string show(const Style& s, const H& h) {
  return text(s, [&](std::ostream& os) { os << h; });
}
template <typename H> std::string checked(const Style& s, const H& h, bool look) {
  auto r = show(s, h);
  if (look && s.plain && h.isAvailable()) {
    Toks t;
    want(t, h, false);
    contains(r, t, s.precision, "an object");
  }
  return r;
}
std::string one(const World& w, const Item& it, bool look) {
  const auto& s = it.s;
  auto& mc = w.m.c[it.c];
  switch (it.what) {
  case COLL: case COLL_OP: {
    auto* cb = w.coll(it.c);
    if (!cb) return "";
    if (it.what == COLL) {
      const bool flush = it.i % 2;
      return text(s, [&](std::ostream& os) { cb->print(os, flush); });
    }
    return dml::withKind(mc.kind, [&](auto* t) {
      using C = std::remove_pointer_t<decltype(t)>;
      const C& c = static_cast<const C&>(*cb);
      auto r = show(s, c);
      if (look && s.plain) {
        Toks ts;
        if constexpr (dml::isUserColl<C>) {
          if (sizeof(typename C::value_type) > 1)
            for (auto v : c) num(ts, (double)v);
        } else {
          for (auto h : c)
            if (h.isAvailable()) want(ts, h, true);
            else id(ts, h);
        }
        contains(r, ts, s.precision, "a collection");
      }
      return r;
    });
  }
  case ELEM: case REL: case IFACE: {
    auto* cb = w.coll(it.c);
    if (!cb || !cb->size()) return "";
    return dml::withKind(mc.kind, [&](auto* t) -> std::string {
      using C = std::remove_pointer_t<decltype(t)>;
      const C& c = static_cast<const C&>(*cb);
      if constexpr (dml::isUserColl<C>) {
        return "";
      } else {
        const auto h = c[it.i % c.size()];
        if (it.what == ELEM) return checked(s, h, look);
        if (it.what == IFACE) {
          if constexpr (requires { dm::HasE(h); }) {
            auto r = show(s, dm::HasE(h));
            SIM_CHECK(r == show(s, h), P, "an interface handle prints something else than the object");
            return r;
          }
          return "";
        }
        if (!h.isAvailable()) return "";
        std::string r;
        if constexpr (std::is_same_v<C, dm::PartCollection>) {
          r += checked(s, h.getMother(), look) + checked(s, h.getClu(), look);
          for (auto k : h.getKids()) r += checked(s, k, look);
          for (auto k : h.getHits()) r += checked(s, k, look);
        } else if constexpr (std::is_same_v<C, dm::ObsCollection>) {
          r += checked(s, h.getNext(), look) + show(s, h.getAny());
          for (auto k : h.getThings()) r += show(s, k);
        } else if constexpr (dml::isLinkColl<C>) {
          r += show(s, h.getFrom()) + show(s, h.getTo());
        }
        return r;
      }
    });
  }
  case JCOLL: case JELEM: case JREL: {
    auto* cb = w.coll(it.c);
    if (!cb) return "";
    return dml::withKind(mc.kind, [&](auto* t) -> std::string {
      using C = std::remove_pointer_t<decltype(t)>;
      const C& c = static_cast<const C&>(*cb);
      if (it.what == JCOLL) {
        if (!look) return jtext(c, false, nullptr);
        const json want = jcoll(c);
        return jtext(c, true, &want);
      }
      if constexpr (dml::isUserColl<C>) {
        return "";
      } else {
        if (c.empty()) return "";
        const auto h = c[it.i % c.size()];
        if (it.what == JELEM) return jobj(h, look);
        if (!h.isAvailable()) return "";
        std::string r;
        if constexpr (std::is_same_v<C, dm::PartCollection>) {
          r += jobj(h.getMother(), look) + jobj(h.getClu(), look);
          for (auto k : h.getKids()) r += jobj(k, look);
          for (auto k : h.getHits()) r += jobj(k, look);
        } else if constexpr (std::is_same_v<C, dm::CluCollection>) {
          r += jobj(h.getLead(), look);
          for (auto k : h.getSubs()) r += jobj(k, look);
        } else if constexpr (std::is_same_v<C, dm::ObsCollection>) {
          r += jobj(h.getNext(), look);
          for (auto k : h.getClus()) r += jobj(k, look);
        }
        return r;
      }
    });
  }
  case JCYC:
    switch (it.i % 4) {
    case 0: return w.as->empty() ? "" : jobj(std::as_const(*w.as)[it.c % w.as->size()], look);
    case 1: return w.bs->empty() ? "" : jobj(std::as_const(*w.bs)[it.c % w.bs->size()], look);
    case 2: {
      const json want = jcoll(*w.as);
      return jtext(*w.as, look, &want);
    }
    default: {
      const json want = jcoll(*w.bs);
      return jtext(*w.bs, look, &want);
    }
    }
  case PARS: {
    auto r = text(s, [&](std::ostream& os) { (w.f && it.c % 2 ? w.f->getParameters() : w.pars).print(os, it.i % 2); });
    if (look && s.plain) {
      auto all = [&](auto& map) {
        for (auto& [k, v] : map) {
          SIM_CHECK(r.find(k) != std::string::npos, P, "the parameter %s is not in the text", k.c_str());
          Toks t;
          if constexpr (std::is_same_v<std::decay_t<decltype(v)>, std::vector<std::string>>) {
            for (auto& x : v) SIM_CHECK(r.find(x) != std::string::npos, P, "the value %s is not in the text", x.c_str());
          } else {
            for (auto& x : v)
              if (std::isfinite((double)x)) num(t, (double)x);
          }
          contains(r, t, s.precision, "parameters");
        }
      };
      all(w.m.p.i), all(w.m.p.f), all(w.m.p.d), all(w.m.p.s);
    }
    return r;
  }
  case A_: return w.as->empty() ? "" : checked(s, std::as_const(*w.as)[it.i % w.as->size()], look);
  case B_: return w.bs->empty() ? "" : checked(s, std::as_const(*w.bs)[it.i % w.bs->size()], look);
  case A_COLL: case B_COLL: {
    std::string r;
    Toks ts;
    if (it.what == A_COLL) {
      r = text(s, [&](std::ostream& os) { w.as->print(os); });
      for (auto h : *w.as) want(ts, cyc::A(h), true);
    } else {
      r = text(s, [&](std::ostream& os) { w.bs->print(os); });
      for (auto h : *w.bs) want(ts, cyc::B(h), true);
    }
    if (look && s.plain) contains(r, ts, s.precision, "a collection");
    return r;
  }
  case EMPTY_:
    switch (it.i % 10) {
    case 5: return jobj(dm::Part::makeEmpty(), look);
    case 6: return jobj(dm::Hit::makeEmpty(), look);
    case 7: return jobj(dm::HitPart::makeEmpty(), look);
    case 8: return jobj(cyc::B::makeEmpty(), look);
    case 0: return show(s, dm::Part::makeEmpty());
    case 1: return show(s, dm::HasE::makeEmpty());
    case 2: return show(s, dm::Obs::makeEmpty());
    case 3: return show(s, dm::HitPart::makeEmpty());
    default: return show(s, cyc::B::makeEmpty());
    }
  }
  return "";
}
} // namespace

SIM_WORKLOAD(print) {
  World w;
  dml::GenCfg g;
  g.hugeOneIn = 60;
  w.m = dml::gen(g);
  w.av = dml::all(w.m);
  const int how = sim::w(3);
  int lost = -1;
  if (how == 0) {
    w.own = dml::build(w.m);
  } else if (how == 1) {
    w.f = std::make_unique<podio::Frame>();
    dml::toFrame(*w.f, w.m);
  } else {
    if (sim::w(3))
      for (auto& a : w.av) a = sim::w(4) != 3;
    // a subset collection that lost (some of) its elements
    std::vector<int> subs;
    for (size_t i = 0; i < w.m.c.size(); ++i)
      if (w.m.c[i].subset && !w.m.c[i].refs.empty()) subs.push_back(i);
    if (!subs.empty() && sim::w(4)) {
      lost = subs[sim::w(subs.size())];
      w.av[lost] = true;
      auto& refs = w.m.c[lost].refs;
      w.av[refs[sim::w(refs.size())].c] = false;
      sim::count("op:subset lost elements");
    }
    podio::Frame src;
    dml::toFrame(src, w.m);
    w.f = std::make_unique<podio::Frame>(dml::MemData::from(src, dml::namesOf(w.m, w.av)));
  }
  // parameters of its own, and possibly of a Frame
  for (auto& [k, v] : w.m.p.i) w.pars.set(k, v);
  for (auto& [k, v] : w.m.p.f) w.pars.set(k, v);
  for (auto& [k, v] : w.m.p.d) w.pars.set(k, v);
  for (auto& [k, v] : w.m.p.s) w.pars.set(k, v);
  // objects that have each other
  w.as = std::make_unique<cyc::ACollection>();
  w.bs = std::make_unique<cyc::BCollection>();
  const int na = sim::w(5), nb = sim::w(5);
  for (int i = 0; i < na; ++i) {
    auto a = w.as->create();
    a.n(i + 10);
    a.p({i + 0.5f, {i, -i}});
  }
  for (int i = 0; i < nb; ++i) w.bs->create().y(i + 0.25);
  for (int i = 0; i < na; ++i) {
    for (int k = nb ? sim::w(4) : 0; k; --k) (*w.as)[i].addbs((*w.bs)[sim::w(nb)]);
    for (int k = sim::w(3); k; --k) {
      (*w.as)[i].addany((*w.as)[sim::w(na)]);
    }
  }
  for (int i = 0; i < nb && na; ++i) {
    if (sim::w(2)) (*w.bs)[i].one((*w.as)[sim::w(na)]);
    for (int k = sim::w(4); k; --k) (*w.bs)[i].addas((*w.bs)[sim::w(nb)]);
  }
  auto item = [&] {
    Item it{(int)sim::w(NWHAT), (int)sim::w(w.m.c.size()), (int)sim::w(12), style()};
    if (w.m.c.size() > 8 || (lost >= 0 && sim::w(2))) it.what = (int[]){COLL, COLL_OP, ELEM, REL, IFACE, JCOLL, JELEM, JREL}[it.what % 8];
    if (w.m.c.size() > 5 && sim::w(2)) it.c = w.m.c.size() - 1 - sim::w(4);
    if (lost >= 0 && sim::w(2)) it.c = lost;
    return it;
  };
  const int nthreads = 1 + sim::w(4);
  std::vector<std::vector<Item>> plan(nthreads);
  std::vector<std::vector<std::string>> got(nthreads);
  for (auto& p : plan)
    for (int n = 1 + sim::w(3); n; --n) p.push_back(item());
  // before, in half of the runs; without it the threads are the first to look at anything
  std::vector<std::vector<std::string>> before(nthreads);
  const bool first = sim::w(2);
  if (first)
    for (int t = 0; t < nthreads; ++t)
      for (auto& it : plan[t]) before[t].push_back(one(w, it, false));
  for (int t = 0; t < nthreads; ++t)
    sim::spawn([&, t] {
      for (auto& it : plan[t]) {
        sim::ev("print %d of collection %d, %d", it.what, it.c, it.i);
        got[t].push_back(one(w, it, false));
        sim::count("op:print");
      }
    });
  sim::join_all();
  for (int t = 0; t < nthreads; ++t)
    for (size_t k = 0; k < plan[t].size(); ++k) {
      const auto now = one(w, plan[t][k], true);
      SIM_CHECK(got[t][k] == now, P, "printing %d of collection %d gave another text while other threads printed", plan[t][k].what, plan[t][k].c);
      if (first) SIM_CHECK(before[t][k] == now, P, "printing %d of collection %d for the second time gives another text", plan[t][k].what, plan[t][k].c);
      sim::mix(sim::hashs(now));
    }
  // nothing has changed
  if (w.f) dml::checkFrame(*w.f, w.m, w.av, "after printing");
  for (int i = 0; i < na; ++i) SIM_CHECK((*w.as)[i].n() == i + 10, P, "printing changed an object");
  // what is stored prints the same as what was not
  if (how == 1) {
    World r;
    r.m = w.m;
    r.av = w.av;
    r.f = std::make_unique<podio::Frame>(dml::rawFrame(w.m, w.av));
    for (int k = 0; k < 4; ++k) {
      Item it = item();
      if (it.what >= PARS && it.what < JCOLL || it.what == JCYC) it.what = COLL;
      SIM_CHECK(one(w, it, true) == one(r, it, true), P, "%d of collection %s prints another text after it has been stored", it.what, w.m.c[it.c].name.c_str());
    }
    sim::count("op:compared after storing");
  }
  if (dml::totalElems(w.m) > 1) sim::nontrivial();
}
