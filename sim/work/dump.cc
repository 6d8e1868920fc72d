// S11: podio-dump
#include "siolib.h"
#include "dm/DatamodelDefinition.h"
#include "podio/podioVersion.h"
#include <cerrno>
#include <cstdio>
#include <iostream>
#include <sstream>

namespace tool {
std::string outText, errText;
FILE *fout, *ferr;
FILE* out() { return fout; }
FILE* err() { return ferr; }
struct Exit {
  int status;
};
int64_t space = -1; // that is left where standard output goes to; -1: enough
bool full = false;  // something did not fit
ssize_t put(void* to, const char* s, size_t n) {
  sim::Quiet q;
  if (to == &outText && space >= 0) {
    if (n > size_t(space)) full = true;
    n = std::min<size_t>(n, space);
    space -= n;
    if (!n) errno = ENOSPC;
  }
  static_cast<std::string*>(to)->append(s, n);
  return n;
}
/// what std::cout and std::cerr are: the same as stdout and stderr, without a buffer
struct Buf : std::streambuf {
  FILE*& f;
  explicit Buf(FILE*& f) : f(f) {}
  int overflow(int c) override { return c == EOF ? 0 : fputc(c, f); }
  std::streamsize xsputn(const char* s, std::streamsize n) override { return fwrite(s, 1, n, f); }
};
} // namespace tool
int podio_dump_main(int argc, char* argv[]);

namespace {
constexpr const char* P = "wrong-dump";
struct Result {
  int status; // 134: an exception ended it
  std::string out, err;
};
Result run(std::vector<std::string> args, int buffer) {
  using namespace tool;
  Result r;
  outText.clear(), errText.clear();
  cookie_io_functions_t io{};
  io.write = put;
  fout = fopencookie(&outText, "w", io);
  ferr = fopencookie(&errText, "w", io);
  setvbuf(ferr, nullptr, _IONBF, 0);
  static char buf[4096];
  if (buffer) setvbuf(fout, buf, buffer % 2 ? _IOLBF : _IOFBF, buffer);
  Buf bo(fout), be(ferr);
  auto *co = std::cout.rdbuf(&bo), *ce = std::cerr.rdbuf(&be);
  args.insert(args.begin(), "podio-dump-tool");
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(a.data());
  argv.push_back(nullptr);
  try {
    r.status = podio_dump_main(args.size(), argv.data());
  } catch (const Exit& e) {
    r.status = e.status;
  } catch (const std::exception& e) {
    sim::ev("ended by %s", e.what());
    r.status = 134;
  }
  std::cout.rdbuf(co), std::cerr.rdbuf(ce);
  std::cout.clear(), std::cerr.clear();
  fclose(fout), fclose(ferr);
  r.out = outText, r.err = errText;
  std::string().swap(outText), std::string().swap(errText);
  return r;
}
/// the words of a text, without lines that are drawn
std::vector<std::string> words(const std::string& s, bool& cut) {
  std::vector<std::string> v;
  std::istringstream is(s);
  for (std::string w; is >> w;)
    if (w.find_first_not_of("-#") != w.npos) v.push_back(w);
  cut = !s.empty() && !isspace((unsigned char)s.back());
  return v;
}
std::string lower(std::string s) {
  for (auto& c : s) c = std::tolower((unsigned char)c);
  return s;
}
template <typename V> std::vector<std::string> sorted(const V& v) {
  std::vector<std::string> r(v.begin(), v.end());
  std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return lower(a) < lower(b); });
  return r;
}
template <typename M> void parRows(std::ostream& os, const M& m, const char* type) {
  std::vector<std::string> keys;
  for (auto& [k, _] : m) keys.push_back(k);
  for (auto& k : sorted(keys)) os << k << ' ' << type << ' ' << m.at(k).size() << '\n';
}
/// what has to be shown of one entry
void wantEntry(std::ostream& os, const Entry& e, const std::string& cat, size_t i, bool detailed) {
  os << cat << ": " << i << "\nCollections:\n";
  podio::Frame f;
  dml::toFrame(f, e.m);
  std::vector<std::string> names;
  for (auto& c : e.m.c) names.push_back(c.name);
  names = sorted(names);
  if (!detailed) os << "Name (s = subset collection) ValueType Size ID\n";
  for (auto& n : names) {
    const auto& mc = *std::find_if(e.m.c.begin(), e.m.c.end(), [&](auto& c) { return c.name == n; });
    auto* c = f.get(n);
    os << n << (mc.subset ? " (s)" : "");
    if (detailed) {
      os << '\n';
      c->print(os);
      os << '\n';
    } else {
      char id[16];
      snprintf(id, sizeof id, "%08x", c->getID());
      os << ' ' << c->getValueTypeName() << ' ' << mc.size() << ' ' << id << '\n';
    }
  }
  os << "\nParameters:\n";
  if (detailed) {
    f.getParameters().print(os);
  } else {
    os << "Name Type Elements\n";
    parRows(os, e.m.p.i, "int");
    parRows(os, e.m.p.f, "float");
    parRows(os, e.m.p.d, "double");
    parRows(os, e.m.p.s, "std::string");
  }
  os << '\n';
}
} // namespace

SIM_WORKLOAD(dump) {
  disk::st().rough = sim::w(2);
  const std::string path = "/sim/d.sio";
  Content all_;
  bool model_ = false;
  {
    podio::SIOWriter w(path);
    const int n = sim::w(5);
    for (int i = 0; i < n; ++i) {
      dml::GenCfg g = small();
      g.hugeOneIn = 50;
      Entry e{dml::gen(g, 1 + 40 * i), {}};
      e.av = dml::all(e.m);
      // names that are the same but for their case come in any order
      std::set<std::string> names;
      for (auto& mc : e.m.c) {
        while (!names.insert(lower(mc.name)).second) mc.name += "_2";
        model_ |= !dml::isUser(mc.kind) && !dml::isLink(mc.kind);
      }
      const std::string cat = CATS[sim::w(3)];
      auto f = source(e.m);
      sim::ev("entry of %s with %zu collections", cat.c_str(), e.m.c.size());
      w.writeFrame(*f, cat, dml::namesOf(e.m, e.av));
      all_[cat].push_back(std::move(e));
    }
    w.finish();
  }
  const auto file = disk::st().files[path];
  for (int k = 1 + sim::w(3); k; --k) {
    // the command line
    std::vector<std::vector<std::string>> parts{{path}};
    bool bad = false, detailed = false, all = false, noFile = false;
    std::string edm, cat = "events";
    std::vector<size_t> entries{0};
    if (sim::w(3)) {
      if (!all_.empty() && sim::w(5) < 4) cat = std::next(all_.begin(), sim::w(all_.size()))->first;
      else cat = NOCATS[sim::w(std::size(NOCATS))];
      parts.push_back({sim::w(2) ? "-c" : "--category", cat});
    }
    const size_t thereAre = all_.count(cat) ? all_[cat].size() : 0;
    auto some = [&] { return thereAre && sim::w(6) < 5 ? sim::w(thereAre) : thereAre + sim::w(3); };
    auto num = [](size_t x) { return std::to_string(x); };
    if (const int how = sim::w(6)) {
      std::string v;
      switch (how) {
      case 1: v = num((entries = {some()})[0]); break;
      case 2:
        entries.clear();
        for (int n = 2 + sim::w(3); n; --n) {
          entries.push_back(some());
          v += (v.empty() ? "" : ",") + num(entries.back());
        }
        break;
      case 3: {
        const size_t a = some(), b = a + sim::w(3);
        entries.clear();
        for (size_t i = a; i <= b; ++i) entries.push_back(i);
        v = num(a) + ":" + num(b);
        break;
      }
      case 4: v = "-1"; all = true; break;
      case 5: {
        static const char* BAD[] = {"x", "1,x", "1:", ":1", "0:1:2", "-2", "1.5", "+1", " 1", "0x1", "1,", ",1", "18446744073709551616", "0,-1", "1;2", "0:x"};
        v = BAD[sim::w(std::size(BAD))];
        bad = true;
      }
      }
      parts.push_back({sim::w(2) ? "-e" : "--entries", v});
    }
    if (all) {
      entries.clear();
      for (size_t i = 0; i < thereAre; ++i) entries.push_back(i);
    }
    if (sim::w(2)) detailed = true, parts.push_back({sim::w(2) ? "-d" : "--detailed"});
    if (sim::w(4) == 3) parts.push_back({sim::w(2) ? "-s" : "--size-stats"});
    if (sim::w(5) == 4) parts.push_back({"--dump-edm", edm = sim::w(3) ? "dm" : "d"});
    int special = sim::w(12);
    if (special == 11) parts.push_back({sim::w(2) ? "-h" : "--help"});
    else if (special == 10) parts.push_back({"--version"});
    else if (special == 9) bad = true, parts.push_back({sim::w(2) ? path : "--no-such-flag"});
    else if (special == 8) noFile = true, parts[0][0] = "/sim/e.sio";
    std::vector<std::string> args;
    for (; !parts.empty();) {
      const auto i = sim::w(parts.size());
      for (auto& a : parts[i]) args.push_back(a);
      parts.erase(parts.begin() + i);
    }
    if (special == 7) {
      // a flag without its value, or a second one
      static const char* FLAGS[] = {"-c", "--category", "-e", "--entries", "--dump-edm"};
      bad = true;
      args.push_back(FLAGS[sim::w(5)]);
      if (sim::w(3) == 2) args.back() = args[0];
      sim::count("op:incomplete command line");
    }
    // faults
    bool fault = false, cutFile = false;
    switch (sim::f(5)) {
    case 3: disk::st().eioRead = sim::f(12); break;
    case 2:
      tool::space = sim::f(sim::f(2) ? 400 : 6000);
      break;
    case 4:
      fault = cutFile = true;
      disk::st().files[path].resize(sim::f(file.size()));
      sim::count("fault:file cut");
      break;
    }
    const auto firedBefore = disk::st().fired;
    std::string line;
    for (auto& a : args) line += " '" + a + "'";
    sim::ev("podio-dump%s", line.c_str());
    tool::full = false;
    static const int SIZES[] = {0, 4096, 255, 16};
    const auto r = run(args, SIZES[sim::w(4)]);
    tool::space = -1;
    if (tool::full) {
      sim::count("fault:no space for the output");
      SIM_CHECK(r.status != 0, P, "podio-dump%s ends with status 0 though its output could not be written", line.c_str());
    }
    fault |= tool::full || disk::st().fired != firedBefore;
    disk::calm();
    disk::st().files[path] = file;
    sim::ev("status %d, %zu bytes", r.status, r.out.size());

    // a file whose end is missing may be shown as one without entries
    const bool none = cutFile && r.status == 0 || cutFile && !r.out.empty() && special < 10 && edm.empty();
    const Content& c = none ? Content{} : ::std::as_const(all_);
    const bool model = !none && model_;
    const size_t have = c.count(cat) ? c.at(cat).size() : 0;
    if (none && all) entries.clear();

    // what has to come out
    bool ok = true; // the status is 0
    std::ostringstream want;
    if (special == 11) {
      if (r.status == 0) {
        for (auto x : {"-c", "-e", "-d", "-s", "--dump-edm", "--version", "inputfile"}) SIM_CHECK(r.out.find(x) != r.out.npos, P, "the help does not mention %s", x);
      } else SIM_CHECK(fault, P, "showing the help ends with status %d", r.status);
      continue;
    }
    if (special == 10) {
      want << "podio " << podio::version::build_version;
    } else if (bad || noFile) {
      ok = false;
    } else if (!edm.empty()) {
      ok = edm == "dm" && model;
      if (ok) want << dm::meta::dm__JSONDefinition;
    } else {
      want << "input file: " << path << "\n(written with podio version: " << podio::version::build_version << ")\ndatamodel model definitions stored in this file:\n";
      if (model) want << " - dm\n";
      want << "Frame categories in this file:\nName Entries\n";
      std::vector<std::string> cats;
      for (auto& [n, _] : c) cats.push_back(n);
      for (auto& n : sorted(cats)) want << n << ' ' << c.at(n).size() << '\n';
      for (auto i : entries) {
        if (i >= have) {
          ok = false;
          break;
        }
        wantEntry(want, c.at(cat)[i], cat, i, detailed);
      }
    }
    bool cut, dummy;
    auto got = words(r.out, cut);
    const auto exp = words(want.str(), dummy);
    if (r.status != 0) SIM_CHECK(!ok || fault, P, "podio-dump%s ends with status %d: %s", line.c_str(), r.status, r.err.c_str());
    else SIM_CHECK(ok, P, "podio-dump%s ends with status 0", line.c_str());
    // if it failed on the way the beginning has to be right
    const bool part = r.status != 0 && fault;
    if (part && cut && !got.empty()) {
      const auto w = got.back();
      got.pop_back();
      SIM_CHECK(got.size() < exp.size() && exp[got.size()].starts_with(w), P, "podio-dump%s shows %s at the end of what it showed before it failed", line.c_str(), w.c_str());
    }
    const size_t n = std::min(got.size(), exp.size());
    if (getenv("SIM_SHOW")) fprintf(stderr, "GOT\n%s\nWANT\n%s\n", r.out.c_str(), want.str().c_str());
    for (size_t i = 0; i < n; ++i)
      SIM_CHECK(got[i] == exp[i], P, "podio-dump%s shows '%s' instead of '%s' after %zu words, the last of them '%s'", line.c_str(), got[i].c_str(), exp[i].c_str(), i, i ? exp[i - 1].c_str() : "");
    SIM_CHECK(got.size() <= exp.size(), P, "podio-dump%s shows '%s' in addition", line.c_str(), got[n].c_str());
    SIM_CHECK(part || got.size() == exp.size(), P, "podio-dump%s does not show '%s' and what comes after it", line.c_str(), exp[n].c_str());
    sim::mix(sim::hashs(r.out) + r.status);
    sim::count(r.status ? "op:failed dump" : "op:dump");
    if (r.out.size() > 300) sim::nontrivial();
  }
  SIM_CHECK(disk::openHandles() == 0, "leak", "files are still open");
}
