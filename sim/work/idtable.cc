// C04: names and IDs of collections
#include "lin.h"
#include "podio/CollectionIDTable.h"
#include <map>
#include <set>
#include <memory>
#include <sstream>

namespace {
const int NN = 16;
const std::string& nameOf(int k) {
  static const std::string n[NN] = {"a", "b", "", "ab", "ba", std::string("a\0", 2), std::string("a\0b", 3), "a collection name that does not fit into the string object itself, 0",
                                    "a collection name that does not fit into the string object itself, 1", "hits", "Hits", "hits ", "\xff\xfe\x80", std::string(300, 'x'),
                                    "hits24696", "hits3450"}; // the last two have the same hash
  return n[k];
}
int keyOf(const std::string& s) {
  for (int k = 0; k < NN; ++k)
    if (s == nameOf(k)) return k;
  sim::fail("wrong-data", "the table gives a name nobody added");
}
/// the ID of a name
uint32_t g_id[NN];
/// the names with the same ID as name k (itself included)
uint32_t sameId(int k) {
  uint32_t r = 0;
  for (int i = 0; i < NN; ++i) r |= (uint32_t)(g_id[i] == g_id[k]) << i;
  return r;
}
/// names "filler <i>" that are in the table before anything happens, and their IDs
int g_fill;
std::vector<uint32_t> g_fillId;
std::string fillName(int i) { return "filler " + std::to_string(i); }
/// what podio-test-hashes and earlier processes say the ID of a name is: the 32 bit MurmurHash3 with seed 0
uint32_t hashOf(const std::string& s) {
  auto rot = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
  auto at = [&](size_t i) { return (uint32_t)(uint8_t)s[i]; };
  uint32_t h = 0;
  const size_t nb = s.size() / 4;
  for (size_t b = 0; b < nb; ++b) {
    const uint32_t k = at(4 * b) | at(4 * b + 1) << 8 | at(4 * b + 2) << 16 | at(4 * b + 3) << 24;
    h = rot(h ^ rot(k * 0xcc9e2d51u, 15) * 0x1b873593u, 13) * 5 + 0xe6546b64u;
  }
  uint32_t k = 0;
  for (size_t i = s.size(); i-- > 4 * nb;) k = k << 8 | at(i);
  h ^= rot(k * 0xcc9e2d51u, 15) * 0x1b873593u;
  h ^= (uint32_t)s.size();
  h = (h ^ h >> 16) * 0x85ebca6bu;
  h = (h ^ h >> 13) * 0xc2b2ae35u;
  return h ^ h >> 16;
}

enum { ADD, ID, NAME, HAS, HASID, EMPTY };
struct Op {
  int kind, key;
  uint32_t id = 0;
  int other = 0; // NAME: the name found
  long res = 0; // ADD: 1 added, 0 failed with bad_alloc; lookups: 1 found
};
struct Model {
  uint32_t has = 0;
  bool apply(const Op& o) {
    const bool h = has >> o.key & 1;
    switch (o.kind) {
    case ADD:
      if (!o.res) return true; // failed: nothing happened
      has |= 1u << o.key;
      return o.id == g_id[o.key];
    case ID: return o.res == h && (!h || o.id == g_id[o.key]);
    case HAS: return o.res == h;
    case NAME: return o.res == ((has & sameId(o.key)) != 0) && (!o.res || has >> o.other & 1);
    case HASID: return o.res == ((has & sameId(o.key)) != 0);
    case EMPTY: return o.res == (has == 0 && !g_fill);
    }
    return false;
  }
  uint64_t hash() const { return has * 0x9E3779B97F4A7C15ull; }
};
/// a sequential table gives the same answers as the set of names says
void checkTable(const podio::CollectionIDTable& t, uint32_t has, const char* what) {
  SIM_CHECK(t.ids().size() == t.names().size(), "wrong-data", "%s: %zu IDs and %zu names", what, t.ids().size(), t.names().size());
  SIM_CHECK((int)t.names().size() == __builtin_popcount(has) + g_fill, "wrong-data", "%s: %zu names instead of %d", what, t.names().size(), __builtin_popcount(has) + g_fill);
  SIM_CHECK(t.empty() == (has == 0 && !g_fill), "wrong-data", "%s: empty() is wrong", what);
  for (size_t i = 0; i < t.names().size(); ++i) {
    if (t.names()[i].starts_with("filler ")) {
      const size_t f = std::stoul(t.names()[i].substr(7));
      SIM_CHECK(f < g_fillId.size() && t.names()[i] == fillName(f) && t.ids()[i] == g_fillId[f], "wrong-data", "%s: the listed ID of %s is wrong", what, t.names()[i].c_str());
      continue;
    }
    const int k = keyOf(t.names()[i]);
    SIM_CHECK(has >> k & 1, "wrong-data", "%s: name %d is listed but was not added", what, k);
    SIM_CHECK(t.ids()[i] == g_id[k], "wrong-data", "%s: the listed ID of name %d is wrong", what, k);
  }
  for (int k = 0; k < NN; ++k) {
    const bool h = has >> k & 1;
    auto id = t.collectionID(nameOf(k));
    auto n = t.name(g_id[k]);
    const uint32_t same = has & sameId(k);
    SIM_CHECK(id.has_value() == h && t.present(nameOf(k)) == h, "wrong-data", "%s: name %d should%s be there", what, k, h ? "" : " not");
    SIM_CHECK(n.has_value() == (same != 0) && t.present(g_id[k]) == (same != 0), "wrong-data", "%s: the ID of name %d should%s be there", what, k, same ? "" : " not");
    if (h) SIM_CHECK(*id == g_id[k], "wrong-data", "%s: name %d has another ID", what, k);
    if (n) SIM_CHECK(same >> keyOf(*n) & 1, "wrong-data", "%s: the ID of name %d leads to the name %s", what, k, n->c_str());
  }
  for (int i = 0; i < g_fill; i += 1 + i / 3) {
    auto id = t.collectionID(fillName(i));
    auto n = id ? t.name(*id) : std::optional<const std::string>{};
    SIM_CHECK(id && *id == g_fillId[i] && n && *n == fillName(i), "wrong-data", "%s: %s and its ID do not match", what, fillName(i).c_str());
  }
}
} // namespace

SIM_WORKLOAD(idtable) {
  {
    // one table per name, built at arbitrary addresses
    std::vector<std::unique_ptr<char[]>> junk;
    std::set<uint32_t> ids;
    for (int k = 0; k < NN; ++k) {
      podio::CollectionIDTable t;
      if (sim::w(8) == 7) junk.push_back(std::make_unique<char[]>(1 + sim::w(500)));
      g_id[k] = t.add(nameOf(k));
      SIM_CHECK(g_id[k] == hashOf(nameOf(k)), "wrong-data", "the ID of name %d is not the hash of the name", k);
      SIM_CHECK(ids.insert(g_id[k]).second || k == NN - 1, "wrong-data", "two of a dozen names have one ID");
    }
  }
  const int nkeys = 1 + sim::w(NN), shift = sim::w(NN), nthreads = 2 + sim::w(4);
  auto rk = [&] { return (int)((sim::w(nkeys) + shift) % NN); };
  uint32_t pre = 0;
  std::unique_ptr<podio::CollectionIDTable> tab;
  {
    auto t = std::make_unique<podio::CollectionIDTable>();
    g_fill = sim::w1in(6) ? sim::w(120) : 0;
    g_fillId.clear();
    for (int i = 0; i < g_fill; ++i) g_fillId.push_back(t->add(fillName(i)));
    for (int i = 0; i < g_fill; ++i) SIM_CHECK(g_fillId[i] == hashOf(fillName(i)), "wrong-data", "the ID of %s is not its hash", fillName(i).c_str());
    const int npre = sim::w(5);
    for (int i = 0; i < npre; ++i) {
      const int k = rk();
      t->add(nameOf(k));
      pre |= 1u << k;
    }
    // the table itself, one moved from it, one rebuilt from what would be stored, or from what a file written before IDs were
    // hashes holds
    switch (sim::w(5)) {
    case 4: {
      std::vector<uint32_t> ids;
      const auto names = t->names();
      const uint32_t start = sim::w(2) ? 1 : sim::w(1u << 30), step = 1 + sim::w(3);
      for (size_t i = 0; i < names.size(); ++i) {
        ids.push_back(start + step * (uint32_t)i);
        if (names[i].starts_with("filler ")) g_fillId[std::stoul(names[i].substr(7))] = ids.back();
        else g_id[keyOf(names[i])] = ids.back();
      }
      sim::count("op:old-ids");
      tab = std::make_unique<podio::CollectionIDTable>(std::move(ids), std::vector<std::string>(names));
      break;
    }
    case 0: tab = std::move(t); break;
    case 1: tab = std::make_unique<podio::CollectionIDTable>(t->ids(), t->names()); break;
    case 2: tab = std::make_unique<podio::CollectionIDTable>(std::vector<uint32_t>(t->ids()), std::vector<std::string>(t->names())); break;
    default: tab = std::make_unique<podio::CollectionIDTable>(std::move(*t)); break;
    }
  }
  checkTable(*tab, pre, "before");
  std::vector<std::vector<Op>> plan(nthreads);
  std::vector<std::vector<uint64_t>> fault(nthreads);
  int total = 0;
  for (int t = 0; t < nthreads; ++t) {
    const int n = 1 + sim::w(5);
    for (int i = 0; i < n && total < 18; ++i, ++total) {
      static const int kinds[] = {ADD, ID, NAME, ADD, HAS, HASID, ADD, EMPTY};
      plan[t].push_back(Op{kinds[sim::w(8)], rk()});
      fault[t].push_back(sim::f(4) == 3 ? 1 + sim::f(4) : 0);
    }
  }
  std::vector<std::vector<lin::Rec<Op>>> hist(nthreads);
  for (auto& h : hist) h.reserve(20);
  podio::CollectionIDTable& T = *tab;
  for (int t = 0; t < nthreads; ++t)
    sim::spawn([&, t] {
      for (size_t i = 0; i < plan[t].size(); ++i) {
        lin::Rec<Op> r{0, 0, plan[t][i]};
        Op& o = r.op;
        static const char* kn[] = {"add", "collectionID", "name", "present(name)", "present(id)", "empty"};
        sim::ev("%s %d%s", kn[o.kind], o.key, fault[t][i] ? " (allocation fails)" : "");
        const std::string& name = nameOf(o.key);
        r.inv = sim::stamp();
        switch (o.kind) {
        case ADD:
          try {
            sim::AllocFault af(fault[t][i]);
            o.id = T.add(name);
            o.res = 1;
          } catch (const std::bad_alloc&) { sim::count("op:add-failed"); }
          break;
        case ID: {
          auto x = T.collectionID(name);
          o.res = x.has_value();
          if (x) o.id = *x;
          break;
        }
        case NAME: {
          auto x = T.name(g_id[o.key]);
          o.res = x.has_value();
          if (x) {
            o.other = keyOf(*x);
            SIM_CHECK(sameId(o.key) >> o.other & 1, "wrong-data", "the ID of name %d leads to name %s", o.key, x->c_str());
          }
          break;
        }
        case HAS: o.res = T.present(name); break;
        case HASID: o.res = T.present(g_id[o.key]); break;
        case EMPTY: o.res = T.empty(); break;
        }
        r.res = sim::stamp();
        sim::ev("  -> %ld", o.res);
        hist[t].push_back(std::move(r));
        sim::count("op:idtable");
      }
    });
  sim::join_all();
  std::vector<lin::Rec<Op>> all;
  for (auto& h : hist) all.insert(all.end(), h.begin(), h.end());
  uint32_t has = pre;
  for (auto& r : all)
    if (r.op.kind == ADD && r.op.res) has |= 1u << r.op.key;
  Model m{pre};
  if (!lin::linearizable(all, m)) {
    std::string d;
    for (auto& r : all)
      d += "[" + std::to_string(r.inv) + "," + std::to_string(r.res) + "] k" + std::to_string(r.op.kind) + " n" + std::to_string(r.op.key) + " -> " + std::to_string(r.op.res) + " id " + std::to_string(r.op.id) + " of " + std::to_string(g_id[r.op.key]) + "; ";
    sim::fail("not-linearizable", "no one-at-a-time order explains the results: %s", d.c_str());
  }
  checkTable(T, has, "after");
  sim::mix(has);
  // stored and rebuilt, then extended: still the same
  podio::CollectionIDTable re(T.ids(), T.names());
  checkTable(re, has, "rebuilt");
  const int k = rk();
  SIM_CHECK(re.add(nameOf(k)) == g_id[k], "wrong-data", "adding name %d to a rebuilt table gives another ID", k);
  checkTable(re, has | 1u << k, "rebuilt and extended");
  checkTable(T, has, "original of a rebuilt table");
  if (total >= 3) sim::nontrivial();
}
