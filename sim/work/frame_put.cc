// C01: puts, gets and listings of one Frame from several threads
#include "dmlib.h"
#include "lin.h"

namespace {
enum { PUT, GET, AVAIL, NAME, IDS, TYPED, WRONG, PUTPTR, FAILED };
struct Op {
  int kind, key, v;
  long res = 0;                  // PUT: 1 ok, 0 rejected; GET: value or 0
  std::map<int, int> seen;       // AVAIL: key -> times listed; IDS: key -> 1
  int fault = 0;                 // the allocation that fails
};
/// the reference: a map from names to contents
struct Model {
  std::map<int, int> m;
  bool faults = false; // a put that failed may have left its name in the ID table
  std::set<int> ids; // the names in the ID table: these and those of collections that were not read
  bool apply(const Op& o) {
    auto it = m.find(o.key);
    switch (o.kind) {
    case PUT: case PUTPTR:
      if (it != m.end()) return o.res == 0;
      if (!o.res) return false;
      m[o.key] = o.v;
      ids.insert(o.key);
      return true;
    case FAILED: return true;
    case GET: case TYPED: return o.res == (it == m.end() ? 0 : it->second);
    case WRONG: return o.res == 0; // a get with another type never succeeds
    case NAME: return o.res == (it == m.end() ? 0 : 1);
    case IDS:
      if (o.seen.size() != ids.size() && !faults) return false;
      for (int k : ids) {
        auto s = o.seen.find(k);
        if (s == o.seen.end() || s->second != 1) return false;
      }
      return true;
    case AVAIL: {
      if (o.seen.size() != m.size()) return false;
      for (auto& [k, _] : m) {
        auto s = o.seen.find(k);
        if (s == o.seen.end() || s->second != 1) return false;
      }
      return true;
    }
    }
    return false;
  }
  uint64_t hash() const {
    uint64_t h = 99;
    for (auto& [k, v] : m) h = (h * 0x100000001b3ull ^ (uint64_t)(k + 1)) * 0x9E3779B97F4A7C15ull ^ (uint64_t)v;
    return h;
  }
};
std::string nm(int k) { return dml::collName(k); }
int keyOf(const std::string& s) {
  for (int k = 0; k < 9; ++k)
    if (s == nm(k)) return k;
  sim::fail("wrong-data", "a collection nobody put is listed: '%s'", s.c_str());
}
PlainCollection makeColl(int v) {
  PlainCollection c;
  const int n = 1 + v % 3;
  for (int i = 0; i < n; ++i) c.create().setN(v * 10 + i);
  return c;
}
template <typename F> auto faulty(const Op& o, F&& f) {
  sim::AllocFault af(o.fault);
  return f();
}
int readColl(const PlainCollection& c) {
  SIM_CHECK(c.size() > 0, "wrong-data", "a collection lost its elements");
  const int v = c[0].getN() / 10;
  SIM_CHECK((int)c.size() == 1 + v % 3, "wrong-data", "collection %d has %zu elements instead of %d", v, c.size(), 1 + v % 3);
  for (size_t i = 0; i < c.size(); ++i) {
    SIM_CHECK(c[i].getN() == v * 10 + (int)i, "wrong-data", "element %zu of collection %d is %d", i, v, c[i].getN());
    SIM_CHECK(c[i].getObjectID().index == (int)i && c[i].getObjectID().collectionID == c.getID(), "wrong-data", "element %zu of collection %d has another ID than its collection", i, v);
  }
  return v;
}
} // namespace

namespace {
void framePut(bool faults) {
  const int nthreads = 2 + sim::w(5), nkeys = 1 + sim::w(4);
  int next = 1;
  const bool raw = sim::w(2);
  Model init;
  init.faults = faults;
  std::vector<std::string> rawNames;
  podio::Frame* frame;
  {
    podio::Frame src;
    const int nraw = raw ? 1 + sim::w(3) : 0;
    for (int i = 0; i < nraw; ++i) {
      const int k = sim::w(nkeys);
      if (init.ids.count(k)) continue;
      src.put(makeColl(next), nm(k));
      init.ids.insert(k);
      if (sim::w(4) == 3) { // known to the table, but not read
        ++next;
        continue;
      }
      rawNames.push_back(nm(k));
      init.m[k] = next++;
    }
    frame = raw ? new podio::Frame(dml::MemData::from(src, rawNames)) : new podio::Frame();
  }
  const int npre = sim::w(2);
  std::map<int, const void*> addr; // filled and compared only outside of the concurrent phase
  for (int i = 0; i < npre; ++i) {
    const int k = sim::w(nkeys);
    if (init.m.count(k)) continue;
    addr[k] = &frame->put(makeColl(next), nm(k));
    init.m[k] = next++;
    init.ids.insert(k);
  }
  std::vector<std::vector<Op>> plan(nthreads);
  int total = 0;
  for (auto& p : plan) {
    const int n = 1 + sim::w(4);
    for (int i = 0; i < n && total < 16; ++i, ++total) {
      static const int kinds[] = {GET, PUT, AVAIL, PUT, GET, TYPED, NAME, IDS, WRONG, PUT, PUTPTR, GET};
      Op o{kinds[sim::w(12)], (int)sim::w(nkeys), 0};
      if (o.kind == PUT || o.kind == PUTPTR) o.v = next++;
      // a get that fails while it unpacks raw data is in frame_get_alloc
      const bool unpacks = raw && (o.kind == GET || o.kind == TYPED || o.kind == WRONG || o.kind == NAME);
      if (faults && !unpacks && sim::f(2)) o.fault = 1 + sim::f(sim::f(3) ? 6 : 20);
      p.push_back(o);
    }
  }
  struct Seen { int key; const void* p; };
  std::vector<std::vector<Seen>> seen(nthreads);
  std::vector<std::vector<lin::Rec<Op>>> hist(nthreads);
  for (int t = 0; t < nthreads; ++t) { seen[t].reserve(16); hist[t].reserve(16); }
  for (int t = 0; t < nthreads; ++t)
    sim::spawn([&, t] {
      podio::Frame& f = *frame;
      for (auto& p : plan[t]) {
        lin::Rec<Op> r{0, 0, p};
        Op& o = r.op;
        const std::string name = nm(o.key);
        static const char* kn[] = {"put", "get", "available", "getName", "id table", "get<T>", "get<wrong T>", "put(unique_ptr)"};
        sim::ev("%s '%s' %d", kn[o.kind], name.c_str(), o.v);
        try {
        switch (o.kind) {
        case PUT: {
          auto c = makeColl(o.v);
          r.inv = sim::stamp();
          try {
            const auto& ref = [&]() -> decltype(auto) {
              sim::AllocFault af(o.fault);
              return f.put(std::move(c), name);
            }();
            r.res = sim::stamp();
            o.res = 1;
            seen[t].push_back({o.key, &ref});
            SIM_CHECK(readColl(ref) == o.v, "wrong-data", "put returned another collection");
          } catch (const std::invalid_argument&) { r.res = sim::stamp(); }
          break;
        }
        case PUTPTR: {
          auto c = std::make_unique<PlainCollection>(makeColl(o.v));
          r.inv = sim::stamp();
          try {
            sim::AllocFault af(o.fault);
            f.put(std::move(c), name);
            o.res = 1;
          } catch (const std::invalid_argument&) {}
          r.res = sim::stamp();
          break;
        }
        case GET: {
          r.inv = sim::stamp();
          auto* c = faulty(o, [&] { return f.get(name); });
          r.res = sim::stamp();
          if (c) {
            auto* pc = dynamic_cast<const PlainCollection*>(c);
            SIM_CHECK(pc, "wrong-data", "collection has another type");
            o.res = readColl(*pc);
            seen[t].push_back({o.key, pc});
          }
          break;
        }
        case TYPED:
          r.inv = sim::stamp();
          try {
            auto& c = *faulty(o, [&] { return &f.get<PlainCollection>(name); });
            r.res = sim::stamp();
            o.res = readColl(c);
            seen[t].push_back({o.key, &c});
          } catch (const std::runtime_error&) { r.res = sim::stamp(); }
          break;
        case WRONG:
          r.inv = sim::stamp();
          try {
            faulty(o, [&] { return &f.get<dm::HitCollection>(name); });
            o.res = 1;
          } catch (const std::runtime_error&) {}
          r.res = sim::stamp();
          break;
        case NAME: {
          r.inv = sim::stamp();
          auto* c = faulty(o, [&] { return f.get(name); });
          if (c) {
            auto n = f.getName(*c);
            SIM_CHECK(n && *n == name, "wrong-data", "getName of collection '%s' gives '%s'", name.c_str(), n ? n->c_str() : "nothing");
            o.res = 1;
          }
          r.res = sim::stamp();
          if (!c) o.kind = GET; // same as a get that found nothing
          break;
        }
        case AVAIL: {
          r.inv = sim::stamp();
          auto v = faulty(o, [&] { return f.getAvailableCollections(); });
          r.res = sim::stamp();
          for (auto& s : v) o.seen[keyOf(s)]++;
          break;
        }
        case IDS: {
          r.inv = sim::stamp();
          auto tb = faulty(o, [&] { return f.getCollectionIDTableForWrite(); });
          r.res = sim::stamp();
          SIM_CHECK(tb.ids().size() == tb.names().size(), "wrong-data", "the ID table has %zu IDs and %zu names", tb.ids().size(), tb.names().size());
          for (auto& s : tb.names()) {
            o.seen[keyOf(s)]++;
            auto id = tb.collectionID(s);
            SIM_CHECK(id && tb.name(*id) == s, "wrong-data", "the ID table is inconsistent for '%s'", s.c_str());
          }
          break;
        }
        }
        } catch (const std::bad_alloc&) {
          SIM_CHECK(o.fault, "wrong-data", "bad_alloc without a failing allocation");
          r.res = sim::stamp();
          o.kind = FAILED;
          sim::count("fault:allocation");
        }
        sim::ev("  -> %ld", o.res);
        hist[t].push_back(std::move(r));
        sim::count("op:frame");
      }
    });
  sim::join_all();
  std::vector<lin::Rec<Op>> all;
  for (auto& h : hist) all.insert(all.end(), h.begin(), h.end());
  auto fin = [&](Op o, auto&& fn) {
    lin::Rec<Op> r{sim::stamp(), 0, o};
    fn(r.op);
    r.res = sim::stamp();
    all.push_back(r);
  };
  for (int k = 0; k < nkeys; ++k)
    fin(Op{GET, k, 0}, [&](Op& o) {
      auto* c = frame->get(nm(k));
      if (c) {
        o.res = readColl(dynamic_cast<const PlainCollection&>(*c));
        auto id = frame->getCollectionIDTableForWrite().collectionID(nm(k));
        SIM_CHECK(id && *id == c->getID(), "wrong-data", "collection '%s' has another ID than the table", nm(k).c_str());
        for (auto& s : seen)
          for (auto& x : s)
            if (x.key == k) SIM_CHECK(x.p == dynamic_cast<const void*>(c) || x.p == c, "wrong-data", "collection '%s' is at two addresses", nm(k).c_str());
        if (addr.count(k)) SIM_CHECK(addr[k] == c, "wrong-data", "collection '%s' moved", nm(k).c_str());
      }
      sim::mix(k * 1000 + o.res);
    });
  fin(Op{AVAIL, 0, 0}, [&](Op& o) {
    for (auto& s : frame->getAvailableCollections()) o.seen[keyOf(s)]++;
  });
  if (total >= 3) sim::nontrivial();
  if (!lin::linearizable(all, init)) {
    std::string d;
    for (auto& r : all) {
      d += "[" + std::to_string(r.inv) + "," + std::to_string(r.res) + "] k" + std::to_string(r.op.kind) + " '" + nm(r.op.key).substr(0, 6) + "' v" + std::to_string(r.op.v) + " -> " + std::to_string(r.op.res);
      for (auto& [k, n] : r.op.seen) d += " " + nm(k).substr(0, 6) + "*" + std::to_string(n);
      d += "; ";
    }
    sim::fail("not-linearizable", "no one-at-a-time order explains the results: %s", d.c_str());
  }
  delete frame;
}
} // namespace
SIM_WORKLOAD(frame_put) { framePut(false); }
SIM_WORKLOAD(frame_put_alloc) { framePut(true); }
