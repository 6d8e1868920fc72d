// O01: handles of the same objects, copied, converted, compared, stored and
// dropped by several threads, each with handles of its own; collections of a
// Frame read by several threads.
#include "dmlib.h"
#include "podio/LinkNavigator.h"
#include <algorithm>
#include <unordered_set>
#include <variant>

using namespace dml;
namespace {
using H = std::variant<std::monostate, dm::Hit, dm::MutableHit, dm::Part, dm::MutablePart, dm::Clu, dm::MutableClu, dm::Obs, dm::MutableObs, dm::HitPart, dm::MutableHitPart, dm::HasE>;
constexpr const char* K = "wrong-object";

struct Obj {
  int kind, v;       // HIT, PART, CLU, OBS, LHP
  int rel = -1;      // object one of its relations refers to
  int many = -1;     // object another one refers to
};
struct World {
  std::vector<Obj> o;
  std::vector<H> first; // one handle of each object
};
H fresh(int kind, int v) {
  switch (kind) {
  case HIT: { dm::MutableHit h; fill(h, v); return h; }
  case PART: { dm::MutablePart h; fill(h, v); return h; }
  case CLU: { dm::MutableClu h; fill(h, v); return h; }
  case OBS: { dm::MutableObs h; fill(h, v); return h; }
  default: { dm::MutableHitPart h; h.setWeight(v * 0.5f); return h; }
  }
}
World makeWorld(int n) {
  World w;
  static const int kinds[] = {HIT, PART, CLU, OBS, LHP};
  for (int i = 0; i < n; ++i) {
    Obj x{kinds[sim::w(5)], i + 1};
    H h = fresh(x.kind, x.v);
    auto earlier = [&](int kind) {
      std::vector<int> c;
      for (int j = 0; j < i; ++j)
        if (kind < 0 ? hasE(w.o[j].kind) : w.o[j].kind == kind) c.push_back(j);
      return c.empty() || sim::w(4) == 3 ? -1 : c[sim::w(c.size())];
    };
    if (auto* p = std::get_if<dm::MutablePart>(&h)) {
      if ((x.rel = earlier(CLU)) >= 0) p->setClu(std::get<dm::MutableClu>(w.first[x.rel]));
      if ((x.many = earlier(HIT)) >= 0) p->addToHits(std::get<dm::MutableHit>(w.first[x.many]));
    } else if (auto* p = std::get_if<dm::MutableClu>(&h)) {
      if ((x.rel = earlier(PART)) >= 0) p->setLead(std::get<dm::MutablePart>(w.first[x.rel]));
      if ((x.many = earlier(CLU)) >= 0) p->addToSubs(std::get<dm::MutableClu>(w.first[x.many]));
    } else if (auto* p = std::get_if<dm::MutableObs>(&h)) {
      x.rel = earlier(-1);
      if (x.rel >= 0) std::visit([&](auto& t) { if constexpr (requires { p->setAny(t); }) p->setAny(t); }, w.first[x.rel]);
      x.many = earlier(-1);
      if (x.many >= 0) std::visit([&](auto& t) { if constexpr (requires { p->addToThings(t); }) p->addToThings(t); }, w.first[x.many]);
    } else if (auto* p = std::get_if<dm::MutableHitPart>(&h)) {
      if ((x.rel = earlier(HIT)) >= 0) p->setFrom(std::get<dm::MutableHit>(w.first[x.rel]));
      if ((x.many = earlier(PART)) >= 0) p->setTo(std::get<dm::MutablePart>(w.first[x.many]));
    }
    w.o.push_back(x);
    w.first.push_back(std::move(h));
  }
  return w;
}
void check(const H& h, const Obj& x) {
  std::visit(
      [&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if constexpr (std::is_same_v<Y, std::monostate>) sim::fail("harness", "no handle");
        else if constexpr (std::is_same_v<Y, dm::HasE>) {
          const double want = x.kind == HIT ? x.v * 0.5 : x.kind == PART ? x.v * 0.75 : x.v * 1.25;
          SIM_CHECK(y.isAvailable() && y.getEnergy() == want, K, "an interface handle shows another object");
        } else {
          SIM_CHECK(y.isAvailable() && is(y, x.v), K, "a handle shows another object");
          SIM_CHECK(y.getObjectID().index == podio::ObjectID::untracked, K, "a free object has an index");
        }
      },
      h);
}
struct Thread {
  const World& w;
  std::vector<std::pair<H, int>> s; // handles of its own
  explicit Thread(const World& ww) : w(ww) { s.reserve(16); }
  void step() {
    if (s.empty()) return;
    const int i = sim::w(s.size());
    const int n = s[i].second;
    const Obj& x = w.o[n];
    const int what = sim::w(12);
    sim::count("op:handle");
    switch (what) {
    case 0: // copy
      if (s.size() < 16) s.push_back(s[i]);
      break;
    case 1: // drop
      s.erase(s.begin() + i);
      break;
    case 2: { // immutable copy replaces it
      H r;
      std::visit([&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if constexpr (std::is_same_v<Y, dm::MutableHit>) r = dm::Hit(y);
        else if constexpr (std::is_same_v<Y, dm::MutablePart>) r = dm::Part(y);
        else if constexpr (std::is_same_v<Y, dm::MutableClu>) r = dm::Clu(y);
        else if constexpr (std::is_same_v<Y, dm::MutableObs>) r = dm::Obs(y);
        else if constexpr (std::is_same_v<Y, dm::MutableHitPart>) r = dm::HitPart(y);
        else r = y;
      }, s[i].first);
      s[i].first = std::move(r);
      break;
    }
    case 3: { // interface handle
      H r;
      std::visit([&](auto& y) { if constexpr (requires { dm::HasE(y); }) r = dm::HasE(y); else r = y; }, s[i].first);
      s[i].first = std::move(r);
      break;
    }
    case 4: // look
      check(s[i].first, x);
      break;
    case 5: { // assign over another one
      const int j = sim::w(s.size());
      s[j] = s[i];
      break;
    }
    case 6: { // clone it and drop the clone
      std::visit([&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if constexpr (!std::is_same_v<Y, std::monostate> && !std::is_same_v<Y, dm::HasE>) {
          auto c = y.clone(sim::w(2));
          SIM_CHECK(is(c, x.v) && c != y, K, "a clone is wrong");
        }
      }, s[i].first);
      break;
    }
    case 7: { // follow a relation
      H r;
      int t = -1;
      auto take = [&](auto&& y, int target) {
        if (target < 0) {
          SIM_CHECK(!y.isAvailable(), K, "an unset relation gives an object");
          return;
        }
        t = target;
        r = y;
      };
      const bool m = sim::w(2);
      std::visit([&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if constexpr (std::is_same_v<Y, dm::Part> || std::is_same_v<Y, dm::MutablePart>) {
          if (!m) take(y.getClu(), x.rel);
          else if (x.many >= 0) take(y.getHits()[0], x.many);
        } else if constexpr (std::is_same_v<Y, dm::Clu> || std::is_same_v<Y, dm::MutableClu>) {
          if (!m) take(y.getLead(), x.rel);
          else if (x.many >= 0) take(y.getSubs(0), x.many);
        } else if constexpr (std::is_same_v<Y, dm::Obs> || std::is_same_v<Y, dm::MutableObs>) {
          if (!m) take(y.getAny(), x.rel);
          else if (x.many >= 0) take(*y.getThings().begin(), x.many);
        } else if constexpr (std::is_same_v<Y, dm::HitPart> || std::is_same_v<Y, dm::MutableHitPart>) {
          if (!m) take(y.getFrom(), x.rel);
          else take(y.getTo(), x.many);
        } else if constexpr (std::is_same_v<Y, dm::HasE>) {
          if (x.kind == HIT) take(y.template as<dm::Hit>(), n);
          else if (x.kind == PART) take(y.template as<dm::Part>(), n);
          else take(y.template as<dm::Clu>(), n);
        }
      }, s[i].first);
      if (t >= 0) s[i] = {std::move(r), t};
      break;
    }
    case 8: { // relate an object of its own to it
      std::visit([&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if constexpr (std::is_same_v<Y, dm::Part> || std::is_same_v<Y, dm::MutablePart>) {
          dm::MutablePart p;
          p.setMother(y);
          p.addToKids(y);
          p.addToKids(y);
          SIM_CHECK(is(p.getMother(), x.v) && p.getMother() == y && p.getKids()[1] == y, K, "a relation gives another object");
        } else if constexpr (requires { dm::HasE(y); }) {
          if constexpr (!std::is_same_v<Y, std::monostate>) {
            dm::MutableObs p;
            p.setAny(y);
            p.addToThings(y);
            SIM_CHECK(p.getAny() == dm::HasE(y), K, "a relation gives another object");
          }
        }
      }, s[i].first);
      break;
    }
    case 9: { // keep some in containers
      std::visit([&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if constexpr (std::is_same_v<Y, dm::Part> || std::is_same_v<Y, dm::MutablePart>) {
          std::set<dm::Part> a;
          std::unordered_set<dm::Part> b;
          for (int k = 0; k < 3; ++k) {
            a.insert(y);
            b.insert(y);
          }
          SIM_CHECK(a.size() == 1 && b.size() == 1 && *a.begin() == y, K, "copies of a handle are different");
        } else {
          // sometimes more than a small counter can count
          const size_t copies = sim::w1in(10) ? sim::w1in(20) ? 65530 + sim::w(20) : 250 + sim::w(20) : 3;
          if (copies > 3) sim::count("op:many copies");
          std::vector<Y> v(copies, y);
          v.push_back(v[0]);
          v.erase(v.begin());
        }
      }, s[i].first);
      break;
    }
    case 10: { // swap
      const int j = sim::w(s.size());
      std::swap(s[i], s[j]);
      break;
    }
    case 11: { // a self assignment
      auto& h = s[i].first;
      auto& same = h;
      h = same;
      break;
    }
    }
  }
};
} // namespace

SIM_WORKLOAD(handles_mt) {
  const int n = 1 + sim::w(5), nthreads = 2 + sim::w(4);
  auto w = std::make_unique<World>(makeWorld(n));
  std::vector<std::unique_ptr<Thread>> th;
  for (int t = 0; t < nthreads; ++t) {
    th.push_back(std::make_unique<Thread>(*w));
    const int k = 1 + sim::w(3);
    for (int i = 0; i < k; ++i) {
      const int x = sim::w(n);
      th.back()->s.push_back({w->first[x], x});
    }
  }
  const bool keep = sim::w(3) == 2;
  if (!keep)
    for (auto& h : w->first) h = std::monostate{};
  for (int t = 0; t < nthreads; ++t) {
    const int steps = 1 + sim::w(7);
    sim::spawn([&, t, steps] {
      for (int i = 0; i < steps; ++i) th[t]->step();
      for (auto& [h, x] : th[t]->s) check(h, w->o[x]);
      th[t]->s.clear(); // its handles go
    });
  }
  sim::join_all();
  if (keep)
    for (int i = 0; i < n; ++i) check(w->first[i], w->o[i]);
  if (n > 1 || nthreads > 2) sim::nontrivial();
}

/// several threads read the same collections, take handles, build collections
/// of their own from them and navigate links
SIM_WORKLOAD(shared_mt) {
  GenCfg g;
  g.maxColls = 4;
  g.maxElems = 3;
  g.params = false;
  g.hugeOneIn = 200;
  const auto m = gen(g);
  const int nthreads = 2 + sim::w(3);
  std::unique_ptr<podio::Frame> f;
  if (sim::w(2)) f = std::make_unique<podio::Frame>(rawFrame(m, all(m)));
  else {
    f = std::make_unique<podio::Frame>();
    toFrame(*f, m);
  }
  const auto av = all(m);
  const Checker chk(*f, m, av, "shared");
  std::vector<std::vector<std::pair<int, int>>> plan(nthreads);
  for (auto& p : plan) {
    const int k = 1 + sim::w(4);
    for (int i = 0; i < k; ++i) {
      const int ci = sim::w(m.c.size());
      p.emplace_back(ci, sim::w(isLink(m.c[ci].kind) ? 9 : 6));
    }
  }
  // navigators that all threads use
  std::vector<std::shared_ptr<void>> navs(m.c.size());
  for (size_t ci = 0; ci < m.c.size(); ++ci)
    if (isLink(m.c[ci].kind) && sim::w(2))
      withKind(m.c[ci].kind, [&](auto* p) {
        using C = std::remove_pointer_t<decltype(p)>;
        if constexpr (isLinkColl<C>) navs[ci] = std::make_shared<podio::LinkNavigator<C>>(f->get<C>(m.c[ci].name));
      });
  for (int t = 0; t < nthreads; ++t)
    sim::spawn([&, t] {
      for (auto [ci, what] : plan[t]) {
        sim::count("op:shared");
        withKind(m.c[ci].kind, [&, ci = ci, what = what](auto* p) {
          using C = std::remove_pointer_t<decltype(p)>;
          const C& c = f->get<C>(m.c[ci].name);
          if constexpr (isUserColl<C>) chk.coll(&c, ci);
          else {
            using I = typename C::value_type;
            switch (what) {
            case 0: chk.coll(&c, ci); break;
            case 1: { // handles kept for a while
              std::vector<I> v(c.begin(), c.end());
              std::unordered_set<I> s(v.begin(), v.end());
              SIM_CHECK(m.c[ci].subset || s.size() == c.size(), K, "handles of different elements are equal");
              for (size_t i = 0; i < v.size(); ++i) SIM_CHECK(v[i] == c[i], K, "a handle is not that of its element");
              break;
            }
            case 2: { // a subset collection
              C sub;
              sub.setSubsetCollection();
              for (const auto& x : c) sub.push_back(x);
              SIM_CHECK(sub.size() == c.size(), K, "a subset collection has another size");
              for (size_t i = 0; i < c.size(); ++i) SIM_CHECK(static_cast<const C&>(sub)[i] == c[i], K, "a subset collection has another element");
              break;
            }
            case 3: { // clones
              C own;
              for (const auto& x : c) own.push_back(x.clone());
              for (size_t i = 0; i < c.size(); ++i) SIM_CHECK(own[i] != c[i] && own[i].getObjectID().index == (int)i, K, "a clone is wrong");
              break;
            }
            case 4: {
              auto sub = C::from(c);
              SIM_CHECK(sub.isSubsetCollection() && sub.size() == c.size(), K, "a collection from a range is wrong");
              break;
            }
            default:
              if constexpr (isLinkColl<C>) {
                std::optional<podio::LinkNavigator<C>> own;
                if (!navs[ci]) own.emplace(c);
                const auto& nav = own ? *own : *static_cast<const podio::LinkNavigator<C>*>(navs[ci].get());
                size_t n = 0;
                std::set<typename C::from_type> froms;
                for (const auto& l : c)
                  if (l.getFrom().isAvailable()) froms.insert(l.getFrom());
                for (auto& x : froms) n += nav.getLinkedTo(x).size();
                size_t want = 0;
                for (const auto& l : c) want += l.getFrom().isAvailable();
                SIM_CHECK(n == want, K, "the navigator gives another number of links");
                size_t nth = 0;
                for (const auto& l : c) {
                  if (nth++ % (1 + c.size() / 50)) continue; // of many links only some: each may have as many others
                  auto with = [&](const auto& found, const auto& o) {
                    size_t k = 0;
                    for (const auto& [x, weight] : found) k += x == o && weight == l.getWeight();
                    return k;
                  };
                  if (!l.getFrom().isAvailable() || !l.getTo().isAvailable()) continue;
                  const size_t a = with(nav.getLinkedTo(l.getFrom()), l.getTo()), b = with(nav.getLinkedFrom(l.getTo()), l.getFrom());
                  SIM_CHECK(a > 0 && a == b, K, "the navigator finds a link %zu times in one direction and %zu times in the other", a, b);
                }
              } else {
                for (auto it = c.rbegin(); it != c.rend(); ++it) (void)(*it).getObjectID();
              }
              break;
            }
          }
        });
      }
    });
  sim::join_all();
  checkFrame(*f, m, "after sharing");
  if (totalElems(m) > 1) sim::nontrivial();
}
