// S09: the generic Reader and Writer, with the SIO backend and stand-ins for
// the ROOT backends
#include "siolib.h"
#include "globdisk.h"
#include "podio/Reader.h"
#include "podio/Writer.h"
#include "podio/utilities/Glob.h"
#include "rootstub.h"

#include <fnmatch.h>

namespace {
/// names with expected suffix
struct Name {
  const char* path;
  bool sio;
};
const Name NAMES[] = {{"/sim/a.sio", true},    {"/sim/b.sio", true},    {"/sim/a.root", false},    {"/sim/b.root", false},
                      {"/sim/b1.root", false}, {"/sim/d/c.sio", true},  {"/sim/d/a.root", false},  {"/sim/e/a.root", false},
                      {"/sim/x.root.sio", true}, {"/sim/x.sio.root", false}, {"/sim/.h.root", false}};
const char* TYPES[] = {"default", "root", "rntuple", "ROOT", "RNTuple", "sio", "tape"};
const char* PATTERNS[] = {"/sim/*.sio", "/sim/?.root", "/sim/b*.root", "/sim/*.root", "/sim/{a,b}.root", "/sim/{b,a}.root", "/sim/d/*.sio",
                          "/sim/*/a.root", "/sim/{b,d/a,a}.root", "/sim/[ab].sio", "/sim/[!a].root", "/sim/none*", "/sim/*/*.root",
                          "/sim/{a.sio,none.sio}", "/sim/a.*", "/sim/d/c.{sio,root}", "/sim/{e,d}/a.root", "/sim/x*o", "/*/a.sio"};

struct Written {
  stub::Kind kind = stub::SIO;
  Content c;
};
using Disk = std::map<std::string, Written>;

/// what a pattern matches, in order
std::vector<std::string> matches(const std::string& pat, const Disk& files) {
  const auto o = pat.find('{');
  if (o != pat.npos) {
    const auto e = pat.find('}', o);
    std::vector<std::string> r;
    for (size_t i = o + 1; i <= e;) {
      const auto k = std::min(pat.find(',', i), e);
      auto m = matches(pat.substr(0, o) + pat.substr(i, k - i) + pat.substr(e + 1), files);
      r.insert(r.end(), m.begin(), m.end());
      i = k + 1;
    }
    return r;
  }
  std::vector<std::string> r;
  for (auto& [n, _] : files) {
    const auto dir = n.substr(0, n.rfind('/'));
    const bool hidden = globdisk::closed().count(dir) && pat.substr(pat.rfind('/')).find_first_of("*?[") != pat.npos;
    const bool above = globdisk::closed().count("/sim") && dir != "/sim" && pat.substr(0, pat.rfind('/')).find('*') != pat.npos;
    if (!hidden && !above && fnmatch(pat.c_str(), n.c_str(), FNM_PATHNAME | FNM_PERIOD) == 0) r.push_back(n);
  }
  return r;
}
void checkGlob(const std::string& pat, const Disk& files) {
  std::vector<std::string> got, want = matches(pat, files);
  bool threw = false;
  const bool nomem = sim::f(12) == 11;
  if (nomem) globdisk::nospace() = 0;
  try {
    sim::AllocFault af(sim::f(8) == 7 ? 1 + sim::f(6) : 0);
    got = podio::utils::expand_glob(pat);
  } catch (const std::bad_alloc&) {
    // nothing is left behind
    globdisk::nospace() = -1;
    sim::count("op:pattern without memory");
    return;
  } catch (const std::runtime_error&) {
    threw = true;
  }
  globdisk::nospace() = -1;
  // the C library gives back a list of names of which none is there
  if (!threw && want.empty() && pat.find('{') != pat.npos) want = {pat};
  SIM_CHECK(threw == (want.empty() || nomem), BIG, "expanding '%s' %s", pat.c_str(), threw ? "is refused" : "yields something though nothing matches");
  if (!threw) SIM_CHECK(got == want, BIG, "expanding '%s' yields %zu names instead of %zu, or in another order", pat.c_str(), got.size(), want.size());
  sim::count("op:pattern");
}
/// where a writer without or with some type has to write to
std::optional<stub::Kind> backend(bool sio, const std::string& type, bool env) {
  if (sio) return stub::SIO;
  if (type == "default") return env ? stub::RNT : stub::TREE;
  std::string l;
  for (char c : type) l += c >= 'A' && c <= 'Z' ? c + 32 : c;
  if (l == "root") return stub::TREE;
  if (l == "rntuple") return stub::RNT;
  return std::nullopt;
}
template <typename F> bool refused(F&& f) {
  try {
    f();
    return false;
  } catch (const std::exception& e) {
    sim::ev("refused: %s", e.what());
    return true;
  }
}
bool chance(int n) { return sim::w(n) == uint64_t(n - 1); }

struct Out {
  std::string path;
  stub::Kind kind;
  std::unique_ptr<podio::Writer> w;
};
void end(Out& o) {
  switch (sim::w(4)) {
  case 0: o.w->finish(); break;
  case 1: break;
  case 2: o.w->finish(); o.w->finish(); break;
  case 3: {
    podio::Writer v(std::move(*o.w));
    if (sim::w(2)) v.finish();
    break;
  }
  }
  o.w.reset();
}
/// a writer, possibly not through the factory
Out open(const Name& n, bool env) {
  const std::string type = TYPES[sim::w(sim::w(3) ? 5 : 7)];
  const auto kind = backend(n.sio, type, env);
  Out o{n.path, kind.value_or(stub::SIO), nullptr};
  if (n.sio && chance(5)) {
    o.w = std::make_unique<podio::Writer>(std::make_unique<podio::SIOWriter>(n.path));
    return o;
  }
  const bool was = disk::st().files.count(n.path);
  sim::ev("open %s for writing as %s", n.path, type.c_str());
  const bool no = refused([&] {
    if (type == "default" && sim::w(2)) o.w = std::make_unique<podio::Writer>(podio::makeWriter(n.path));
    else o.w = std::make_unique<podio::Writer>(podio::makeWriter(n.path, type));
  });
  SIM_CHECK(no == !kind, BIG, "a writer for %s as '%s' is %s", n.path, type.c_str(), no ? "refused" : "made");
  if (no) {
    SIM_CHECK(disk::st().files.count(n.path) == was, BIG, "a writer that was refused made %s", n.path);
    return o;
  }
  auto it = stub::kinds().find(n.path);
  const auto is = it == stub::kinds().end() ? stub::SIO : it->second;
  SIM_CHECK(is == *kind, BIG, "%s as '%s' is written by backend %d instead of %d", n.path, type.c_str(), is, *kind);
  return o;
}
void write(podio::Writer& w, Content& c, int base) {
  Entry e{dml::gen(small(), base), {}};
  e.av = dml::all(e.m);
  auto f = source(e.m);
  const bool event = sim::w(2);
  const std::string cat = event ? "events" : CATS[sim::w(4)];
  if (chance(10)) {
    std::vector<std::string> bad = dml::namesOf(e.m, e.av);
    bad.insert(bad.begin() + sim::w(bad.size() + 1), "not there");
    SIM_CHECK(refused([&] { event ? w.writeEvent(*f, bad) : w.writeFrame(*f, cat, bad); }), BIG, "writing a collection that the frame does not have is not reported");
    sim::count("op:unknown collection selected for writing");
  }
  if (chance(3)) {
    for (auto& a : e.av) a = sim::w(3) != 2;
    auto names = dml::namesOf(e.m, e.av);
    for (size_t k = names.size(); k > 1; --k) std::swap(names[k - 1], names[sim::w(k)]);
    event ? w.writeEvent(*f, names) : w.writeFrame(*f, cat, names);
    sim::ev("write %zu of %zu collections as %s", names.size(), e.m.c.size(), cat.c_str());
    sim::count("op:part of a frame written");
  } else {
    event ? w.writeEvent(*f) : w.writeFrame(*f, cat);
    sim::ev("write %zu collections as %s", e.m.c.size(), cat.c_str());
    sim::count("op:frame written");
  }
  c[cat].push_back(std::move(e));
}
/// the entries of files read as one
std::map<std::string, std::vector<const Entry*>> together(const std::vector<std::string>& fs, const Disk& d) {
  std::map<std::string, std::vector<const Entry*>> r;
  for (auto& f : fs)
    for (auto& [cat, es] : d.at(f).c)
      for (auto& e : es) r[cat].push_back(&e);
  return r;
}
using All = std::map<std::string, std::vector<const Entry*>>;
void checkAbout(podio::Reader& r, const std::vector<std::string>& fs, const All& a, stub::Kind k) {
  std::multiset<std::string> have, want;
  for (auto n : r.getAvailableCategories()) have.insert(std::string(n));
  for (auto& [n, _] : a) want.insert(n);
  SIM_CHECK(have == want, BIG, "there are %zu categories instead of %zu", have.size(), want.size());
  for (auto& [n, es] : a) SIM_CHECK(r.getEntries(n) == es.size(), BIG, "%zu entries of %s instead of %zu", r.getEntries(n), n.c_str(), es.size());
  SIM_CHECK(r.getEntries("nothing") == 0, BIG, "entries of a category that is not there");
  SIM_CHECK(r.getEvents() == (a.count("events") ? a.at("events").size() : 0), BIG, "%zu events", r.getEvents());
  SIM_CHECK(r.currentFileVersion() == podio::version::build_version, BIG, "the files have another version");
  podio::SIOReader plain;
  plain.openFile(fs[0]);
  SIM_CHECK(r.getAvailableDatamodels() == plain.getAvailableDatamodels(), BIG, "the generic reader knows other data models");
  for (const char* n : {"dm", "nothing", ""}) {
    SIM_CHECK(r.getDatamodelDefinition(n) == plain.getDatamodelDefinition(n), BIG, "the generic reader has another definition of '%s'", n);
    SIM_CHECK(r.currentFileVersion(n) == plain.currentFileVersion(n), BIG, "the generic reader has another version of '%s'", n);
  }
  for (const char* n : {"events", "nothing"}) {
    const auto s = r.getSizeStats(n);
    if (k != stub::TREE || !a.count(n)) SIM_CHECK(!s, BIG, "the reader knows sizes that it cannot know");
    else SIM_CHECK(s && s->size() == 1 && s->begin()->second.numBytes == a.at(n).size(), BIG, "the sizes are others");
  }
}
void checkOne(podio::Frame f, const Entry& e, const char* what) {
  if (sim::w(3) == 2) {
    podio::Frame g(std::move(f));
    dml::checkFrame(g, e.m, e.av, what);
  } else
    dml::checkFrame(f, e.m, e.av, what);
  sim::count("op:entry read");
}
} // namespace

SIM_WORKLOAD(sio_generic) {
  auto& d = disk::st();
  d.rough = sim::w(4) == 3;
  globdisk::closed().clear();
  const int envk = sim::w(4);
  if (envk == 0) unsetenv("PODIO_DEFAULT_WRITE_RNTUPLE");
  else setenv("PODIO_DEFAULT_WRITE_RNTUPLE", envk == 1 ? "" : envk == 2 ? "1" : "0", 1);
  Disk files;
  {
    std::vector<Out> ws;
    const int n = 1 + sim::w(10);
    for (int i = 0; i < n; ++i) {
      const int what = sim::w(12);
      if (ws.empty() || what >= 9) {
        if (chance(8)) {
          const char* bad[] = {"/sim/none.txt", "/sim/none", "/sim/none.sio.gz", "/sim/sio", "/sim/none.SIO"};
          const std::string p = bad[sim::w(5)], t = TYPES[sim::w(7)];
          SIM_CHECK(refused([&] { podio::makeWriter(p, t); }), BIG, "a writer for %s as '%s' is made", p.c_str(), t.c_str());
          SIM_CHECK(!d.files.count(p), BIG, "a writer that was refused made %s", p.c_str());
          sim::count("op:unknown suffix for writing");
          continue;
        }
        const Name& nm = NAMES[sim::w(std::size(NAMES))];
        size_t k = 0;
        while (k < ws.size() && ws[k].path != nm.path) ++k;
        if (k < ws.size()) { // the same name again: the other one is finished before
          end(ws[k]);
          ws.erase(ws.begin() + k);
        }
        Out o = open(nm, envk >= 2);
        if (!o.w) continue;
        files[o.path] = {o.kind, {}};
        if (o.kind == stub::SIO) SIM_CHECK(!stub::kinds().count(o.path), BIG, "%s is not written by the SIO backend", o.path.c_str());
        if (chance(5) && !ws.empty()) { // takes the place of another one, which finishes it
          const size_t q = sim::w(ws.size());
          *ws[q].w = std::move(*o.w);
          ws[q].path = o.path;
          ws[q].kind = o.kind;
          sim::count("op:writer assigned");
        } else
          ws.push_back(std::move(o));
        continue;
      }
      Out& o = ws[sim::w(ws.size())];
      write(*o.w, files[o.path].c, 1 + 1000 * i);
    }
    for (auto& o : ws) {
      if (chance(6)) { // read while the writer still exists
        o.w->finish();
        if (o.kind == stub::SIO) {
          auto r = podio::makeReader(o.path);
          checkAbout(r, {o.path}, together({o.path}, files), o.kind);
        }
      }
      end(o);
    }
    SIM_CHECK(disk::openHandles() == 0, "resource", "a finished writer leaves its file open");
  }
  for (auto& [n, w] : files) sim::mix(sim::hashs(d.files[n]) + w.kind);
  struct R {
    std::unique_ptr<podio::Reader> r;
    std::vector<std::string> fs;
    All all;
    stub::Kind kind;
    std::map<std::string, uint64_t> next;
  };
  struct Kept {
    std::unique_ptr<podio::Frame> f;
    const Entry* e;
  };
  std::vector<R> rs;
  std::vector<Kept> kept;
  size_t reads = 0;
  std::vector<std::string> names;
  for (auto& [n, _] : files) names.push_back(n);
  const int ops = 4 + sim::w(20);
  for (int o = 0; o < ops; ++o) {
    if (rs.empty() || chance(6)) {
      // open files, one way or another
      std::vector<std::string> fs;
      std::string pat;
      const int how = sim::w(5);
      if (how == 0 || names.empty()) {
        fs = {chance(6) || names.empty() ? "/sim/none.sio" : pick(names)};
        pat = fs[0];
      } else if (how == 1) {
        pat = PATTERNS[sim::w(std::size(PATTERNS))];
        if (sim::f(6) == 5) globdisk::closed().insert(sim::f(2) ? "/sim/d" : "/sim");
        checkGlob(pat, files);
        fs = matches(pat, files);
      } else {
        for (int k = chance(6) ? 0 : 1 + sim::w(3); k > 0; --k) fs.push_back(pick(names));
        if (chance(10)) fs.insert(fs.begin() + sim::w(fs.size() + 1), chance(2) ? "/sim/none.root" : "/sim/none.txt");
      }
      auto known = [&](const std::string& s) { return files.count(s); };
      bool good = !fs.empty() && known(fs[0]);
      if (good) {
        const auto suffix = [](const std::string& s) { return s.substr(s.rfind('.')); };
        const auto& first = files[fs[0]];
        good = first.kind != stub::SIO || fs.size() == 1;
        for (auto& f : fs) good = good && known(f) && files[f].kind == first.kind && suffix(f) == suffix(fs[0]);
      }
      R x{nullptr, fs, {}, stub::SIO, {}};
      std::string list;
      for (auto& f : fs) list += " " + f;
      sim::ev("open%s (%s)", list.c_str(), pat.c_str());
      const bool no = refused([&] { x.r = std::make_unique<podio::Reader>(pat.empty() ? podio::makeReader(fs) : podio::makeReader(pat)); });
      globdisk::closed().clear();
      SIM_CHECK(no == !good, BIG, "opening%s (%s) is %s", list.c_str(), pat.c_str(), no ? "refused" : "not refused");
      if (no) {
        sim::count("op:open refused");
        continue;
      }
      x.kind = files[fs[0]].kind;
      x.all = together(fs, files);
      checkAbout(*x.r, fs, x.all, x.kind);
      sim::count(x.kind == stub::SIO ? "op:SIO file opened" : "op:file of another backend opened");
      rs.push_back(std::move(x));
      continue;
    }
    R& x = rs[sim::w(rs.size())];
    static const std::vector<const Entry*> none;
    const bool event = sim::w(2);
    const std::string cat = event ? "events" : chance(10) ? "nothing" : CATS[sim::w(4)];
    const auto& es = x.all.count(cat) ? x.all[cat] : none;
    const int op = sim::w(10);
    if (op == 8) {
      checkAbout(*x.r, x.fs, x.all, x.kind);
      continue;
    }
    if (op == 9) {
      if (chance(2) && !kept.empty()) {
        const size_t k = sim::w(kept.size());
        dml::checkFrame(*kept[k].f, kept[k].e->m, kept[k].e->av, "a frame used later");
        kept.erase(kept.begin() + k);
      } else if (chance(2)) {
        R y{std::make_unique<podio::Reader>(std::move(*x.r)), x.fs, x.all, x.kind, x.next};
        x = std::move(y);
        sim::count("op:reader moved");
      } else {
        rs.erase(rs.begin() + (&x - rs.data()));
      }
      continue;
    }
    const bool next = op < 4;
    uint64_t i = x.next[cat];
    if (!next) {
      i = sim::w(es.size() + 2);
      const int far = sim::w(8);
      if (far == 7) i += uint64_t(1) << (32 + sim::w(3));
      if (far == 6) i += 0xfffffff0u;
      x.next[cat] = i;
    }
    const bool there = i < es.size();
    std::vector<std::string> want;
    Entry e;
    bool bad = false;
    if (there) {
      e = *es[i];
      if (chance(3)) {
        auto av = e.av;
        for (auto& a : av) a = a && sim::w(3) != 2;
        want = dml::namesOf(e.m, av);
        for (size_t q = want.size(); q > 1; --q) std::swap(want[q - 1], want[sim::w(q)]);
        if (!want.empty()) e.av = av;
        if (chance(6)) {
          bad = true;
          want.insert(want.begin() + sim::w(want.size() + 1), "not there");
        }
      }
    }
    std::unique_ptr<podio::Frame> f;
    sim::ev("%s %s %llu of%s", next ? "next" : "read", cat.c_str(), (unsigned long long)i, x.fs[0].c_str());
    sim::mix(sim::hashs(cat) + i * 31 + next);
    const bool no = refused([&] {
      auto get = [&]() -> podio::Frame {
        if (want.empty()) {
          if (next) return event ? x.r->readNextEvent() : x.r->readNextFrame(cat);
          return event ? x.r->readEvent(i) : x.r->readFrame(cat, i);
        }
        if (next) return event ? x.r->readNextEvent(want) : x.r->readNextFrame(cat, want);
        return event ? x.r->readEvent(i, want) : x.r->readFrame(cat, i, want);
      };
      f = std::make_unique<podio::Frame>(get());
    });
    if (bad) {
      SIM_CHECK(no, BIG, "selecting a collection that the entry does not have is not reported");
      // where the reader is then is not said
      x.next.erase(cat);
      if (es.size() && !refused([&] { f = std::make_unique<podio::Frame>(x.r->readFrame(cat, 0)); })) checkOne(std::move(*f), *es[0], "read after a selection that was refused");
      else SIM_CHECK(es.empty(), BIG, "nothing can be read after a selection that was refused");
      x.next[cat] = 1;
      sim::count("op:unknown collection selected for reading");
      continue;
    }
    SIM_CHECK(no == !there, BIG, "entry %llu of %s, which has %zu, is %s", (unsigned long long)i, cat.c_str(), es.size(), no ? "refused" : "handed out");
    if (!there) {
      sim::count("op:past the end");
      if (i > 0xffffffffu) { // where the reader is then is not said
        x.next.erase(cat);
        if (es.size()) checkOne(x.r->readFrame(cat, 0), *es[0], "read after an impossible number");
        x.next[cat] = es.size() ? 1 : 0;
      }
      continue;
    }
    ++x.next[cat];
    ++reads;
    if (chance(3) && want.empty()) kept.push_back({std::move(f), es[i]});
    else checkOne(std::move(*f), e, "read by the generic reader");
  }
  if (chance(2)) rs.clear();
  for (auto& k : kept) dml::checkFrame(*k.f, k.e->m, k.e->av, "a frame used later");
  kept.clear();
  rs.clear();
  SIM_CHECK(disk::openHandles() == 0, "resource", "a destroyed reader leaves its file open");
  SIM_CHECK(stub::readers(stub::TREE) == 0 && stub::readers(stub::RNT) == 0, "resource", "a reader of a backend is left");
  if (reads > 1) sim::nontrivial();
}

/// whether a text is a pattern; failing storage below the generic classes
SIM_WORKLOAD(generic_fail) {
  {
    std::string s;
    const int n = sim::w(12);
    for (int i = 0; i < n; ++i) s += "\\\\ab*?[]{}/."[sim::w(12)];
    bool magic = false;
    for (size_t i = 0; i < s.size(); ++i) {
      if (s[i] == '\\') ++i;
      else magic |= s[i] == '*' || s[i] == '?' || s[i] == '[' || s[i] == '{';
    }
    SIM_CHECK(podio::utils::is_glob_pattern(s) == magic, BIG, "'%s' is %s pattern", s.c_str(), magic ? "not taken for a" : "taken for a");
  }
  auto& d = disk::st();
  podio::SIOBlockLibraryLoader::instance();
  d.rough = sim::w(3) == 2;
  const int style = sim::f(5);
  switch (style) {
  case 0: break;
  case 1: d.space = sim::f(2) ? sim::f(200) : sim::f(6000); break;
  case 2: d.eioWrite = sim::f(12), d.eioWriteN = 1 + sim::f(3); break;
  case 3: d.eioClose = 0; break;
  case 4: d.openFail = 0; break;
  }
  const bool alloc = style == 0;
  Content c;
  std::unique_ptr<podio::Writer> w;
  if (refused([&] {
        sim::AllocFault af(alloc && sim::f(6) == 5 ? 1 + sim::f(40) : 0);
        w = std::make_unique<podio::Writer>(podio::makeWriter("/sim/a.sio"));
      })) {
    SIM_CHECK(disk::openHandles() == 0, "resource", "a writer that could not be made leaves its file open");
    return;
  }
  SIM_CHECK(style != 4, "lost", "a file that cannot be opened is not reported");
  const int n = sim::w(4);
  for (int i = 0; i < n; ++i) {
    Entry e{dml::gen(small(), 1 + 1000 * i), {}};
    maybeBig(e.m);
    e.av = dml::all(e.m);
    const bool event = sim::w(2);
    podio::Frame f;
    dml::toFrame(f, e.m);
    if (!refused([&] {
          sim::AllocFault af(alloc && sim::f(2) ? 1 + sim::f(sim::f(2) ? 30 : 150) : 0);
          event ? w->writeEvent(f) : w->writeFrame(f, "runs");
        }))
      c[event ? "events" : "runs"].push_back(std::move(e));
  }
  bool fin;
  if (sim::w(2)) {
    fin = !refused([&] {
      sim::AllocFault af(alloc && sim::f(2) ? 1 + sim::f(60) : 0);
      w->finish();
    });
    w.reset();
  } else {
    w.reset();
    fin = !d.fired;
  }
  SIM_CHECK(disk::openHandles() == 0, "resource", "a destroyed writer leaves its file open");
  disk::calm();
  sim::mix(sim::hashs(d.files["/sim/a.sio"]) + d.fired * 7 + fin);
  std::unique_ptr<podio::Reader> r;
  const bool no = refused([&] {
    sim::AllocFault af(fin ? 0 : sim::f(3) == 2 ? 1 + sim::f(100) : 0);
    r = std::make_unique<podio::Reader>(podio::makeReader(std::vector<std::string>{"/sim/a.sio"}));
  });
  if (fin) {
    SIM_CHECK(!no, "lost", "the writer finished normally, but the file cannot be opened");
    for (auto& [cat, es] : c) {
      SIM_CHECK(r->getEntries(cat) == es.size(), "lost", "the writer finished normally, but there are %zu entries of %s instead of %zu", r->getEntries(cat), cat.c_str(), es.size());
      for (auto& e : es) {
        std::unique_ptr<podio::Frame> f;
        SIM_CHECK(!refused([&] { f = std::make_unique<podio::Frame>(r->readNextFrame(cat)); }), "lost", "the writer finished normally, but an entry of %s cannot be read", cat.c_str());
        checkOne(std::move(*f), e, "accepted and finished");
      }
    }
    sim::count("result:finished");
  } else if (!no) {
    for (auto& [cat, es] : c)
      for (size_t i = 0; i < r->getEntries(cat); ++i) {
        std::unique_ptr<podio::Frame> f;
        if (refused([&] { f = std::make_unique<podio::Frame>(r->readFrame(cat, i)); })) continue;
        SIM_CHECK(i < es.size(), BIG, "there is an entry that was never written");
        if (!refused([&] { for (auto& mc : es[i].m.c) f->get(mc.name); })) checkOne(std::move(*f), es[i], "a frame of a damaged file");
      }
    sim::count("result:damaged file read");
  } else {
    sim::count("result:refused");
  }
  sim::nontrivial();
}
