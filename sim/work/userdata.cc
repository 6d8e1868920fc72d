// O02, O06: user data collections of every type against a plain vector
#include "podio/Frame.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/UserDataCollection.h"
#include "simrt.h"
#include <map>
#include <list>
#include <optional>
#include <ranges>
#include <sstream>

namespace {
constexpr const char* P = "wrong-content";
/// an index that is not below n
size_t wrongIndex(size_t n) {
  switch (sim::w(6)) {
  case 1: return n + (size_t(1) << 32);
  case 2: return size_t(1) << (56 + sim::w(8));
  case 3: return size_t(-1) - sim::w(3);
  case 4: return n + sim::w(100);
  }
  return n;
}
struct MemData {
  std::map<std::string, podio::CollectionReadBuffers> bufs;
  std::vector<uint32_t> ids;
  std::vector<std::string> names;
  podio::CollectionIDTable getIDTable() const { return {ids, names}; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& n) {
    auto it = bufs.find(n);
    if (it == bufs.end()) return std::nullopt;
    auto b = std::move(it->second);
    bufs.erase(it);
    return b;
  }
  std::vector<std::string> getAvailableCollections() const {
    std::vector<std::string> v;
    for (auto& [k, _] : bufs) v.push_back(k);
    return v;
  }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(); }
};
template <typename T> struct Run {
  using C = podio::UserDataCollection<T>;
  struct X {
    std::unique_ptr<C> c;
    std::vector<T> m;
    uint32_t id;
  };
  bool faults;
  std::vector<X> x;
  std::unique_ptr<podio::Frame> f;
  std::map<std::string, std::pair<std::vector<T>, uint32_t>> in; // in the frame
  int next = 1;
  T val() { ++next; return static_cast<T>(next * 37); }

  template <typename F> bool call(F&& fn) {
    if (!faults || sim::w(2)) {
      fn();
      return true;
    }
    sim::AllocFault af(1 + sim::f(10));
    try {
      fn();
      return true;
    } catch (const std::bad_alloc&) {
      SIM_CHECK(af.fired(), P, "bad_alloc although no allocation failed");
      sim::count("fault:allocation");
      return false;
    }
  }
  void check(const C& c, const std::vector<T>& m, uint32_t id) {
    SIM_CHECK(c.size() == m.size() && c.empty() == m.empty(), P, "%zu values instead of %zu", c.size(), m.size());
    SIM_CHECK(c.getID() == id, P, "ID %08x instead of %08x", c.getID(), id);
    SIM_CHECK(!c.isSubsetCollection(), P, "a subset collection of user data");
    SIM_CHECK(c.vec() == m, P, "other values");
    for (size_t i = 0; i < m.size(); ++i) SIM_CHECK(c[i] == m[i] && c.at(i) == m[i], P, "another value at %zu", i);
    size_t i = 0;
    for (auto v : c) SIM_CHECK(v == m[i++], P, "iteration gives another value");
    SIM_CHECK(i == m.size(), P, "iteration stops early");
    for (auto it = c.rbegin(); it != c.rend(); ++it) SIM_CHECK(*it == m[--i], P, "reverse iteration gives another value");
    auto wb = const_cast<C&>(c).getBuffers();
    SIM_CHECK(*static_cast<std::vector<T>*>(wb.vecPtr) == m && **static_cast<std::vector<T>**>(wb.data) == m, P, "the write buffers have other values");
    SIM_CHECK(c.cend() - c.cbegin() == (ptrdiff_t)m.size(), P, "iterators are wrong");
    try {
      (void)c.at(wrongIndex(m.size()));
      sim::fail(P, "access out of range does not throw");
    } catch (const std::out_of_range&) {
    }
  }
  void all() {
    for (auto& y : x) check(*y.c, y.m, y.id);
    for (auto& [n, y] : in) check(f->get<C>(n), y.first, y.second);
  }
  void run() {
    f = std::make_unique<podio::Frame>();
    const int n = 3 + sim::w(25);
    for (int s = 0; s < n; ++s) {
      if (x.empty() || (x.size() < 4 && sim::w(6) == 5)) {
        auto c = std::make_unique<C>();
        const uint32_t id = c->getID();
        x.push_back({std::move(c), {}, id});
      }
      const size_t k = sim::w(x.size());
      X& y = x[k];
      C& c = *y.c;
      const int op = sim::w(17);
      sim::mix(op * 64 + y.m.size());
      switch (op) {
      case 0: case 1: {
        const T v = val();
        if (call([&] { c.push_back(v); })) y.m.push_back(v);
        break;
      }
      case 2: {
        const T v = val();
        if (call([&] { c.create() = v; })) y.m.push_back(v);
        break;
      }
      case 3: {
        const size_t z = sim::w1in(20) ? 200 + sim::w(70000) : sim::w(12);
        if (call([&] { c.resize(z); })) y.m.resize(z);
        break;
      }
      case 4: c.clear(); y.m.clear(); break;
      case 5:
        if (!y.m.empty()) {
          const size_t i = sim::w(y.m.size());
          const T v = val();
          if (sim::w(2)) c[i] = v;
          else c.at(i) = v;
          y.m[i] = v;
        }
        break;
      case 6: {
        std::unique_ptr<C> m;
        if (call([&] { m = std::make_unique<C>(std::move(c)); })) y.c = std::move(m);
        break;
      }
      case 7: {
        const size_t j = sim::w(x.size());
        if (j == k) break;
        *x[j].c = std::move(c);
        x[j].m = y.m;
        x[j].id = y.id;
        y.c = std::make_unique<C>();
        y.m.clear();
        y.id = y.c->getID();
        break;
      }
      case 8: {
        std::vector<T> v;
        const int z = sim::w(5);
        for (int i = 0; i < z; ++i) v.push_back(val());
        const auto m = v;
        std::unique_ptr<C> nc;
        const std::list<T> l(v.begin(), v.end());
        const int range = sim::w(5);
        if (!call([&] {
              switch (range) {
              case 0: nc = std::make_unique<C>(C::from(v)); break;
              case 1: nc = std::make_unique<C>(C::from(l)); break;
              case 2: nc = std::make_unique<C>(C::from(l | std::views::transform([](T t) { return t; }))); break;
              case 3: nc = std::make_unique<C>(C::from(std::views::iota(0, 2 * z) | std::views::filter([](int i) { return i % 2 == 0; }) | std::views::transform([&](int i) { return m[i / 2]; }))); break;
              default: nc = std::make_unique<C>(std::move(v));
              }
            }))
          break;
        y.c = std::move(nc);
        y.m = m;
        y.id = y.c->getID();
        break;
      }
      case 9: c.vec().push_back(T(5)); y.m.push_back(T(5)); break;
      case 10: y.id = 77 + next++; c.setID(y.id); break;
      case 11: c.setSubsetCollection(true); break;
      case 12: {
        if (!y.m.empty()) for (auto& v : c) v = static_cast<T>(v + 1);
        for (auto& v : y.m) v = static_cast<T>(v + 1);
        break;
      }
      case 15: // values of its own
        if (!y.m.empty()) {
          const int times = sim::w1in(6) ? 1 + sim::w(200) : 1 + sim::w(4);
          bool ok = true;
          for (int i = 0; i < times && ok; ++i) {
            const size_t k = sim::w(3) ? sim::w(y.m.size()) : 0;
            const T v = y.m[k];
            ok = call([&] { k % 2 ? c.push_back(c[k]) : c.push_back(*(c.begin() + k)); });
            if (ok) y.m.push_back(v);
          }
          sim::count("op:own value added");
        }
        break;
      case 16: { // print does not change anything
        sim::Quiet q;
        std::ostringstream os;
        c.print(os, sim::w(2));
        break;
      }
      case 13: { // into the frame
        const std::string name = "u" + std::to_string(next++);
        bool ok = call([&] { f->put(std::move(c), name); });
        if (ok) in[name] = {y.m, f->get(name)->getID()};
        else SIM_CHECK(!f->get(name), P, "put failed but the collection is there");
        x.erase(x.begin() + k);
        break;
      }
      case 14: { // through storage
        auto d = std::make_unique<MemData>();
        for (auto& [nm, e] : in) {
          auto* cc = const_cast<podio::CollectionBase*>(f->getCollectionForWrite(nm));
          cc->prepareForWrite();
          auto wb = cc->getBuffers();
          auto rb = podio::CollectionBufferFactory::instance().createBuffers(std::string(C::typeName), cc->getSchemaVersion(), false);
          SIM_CHECK(rb.has_value(), P, "no read buffers");
          *static_cast<std::vector<T>*>(rb->data) = *static_cast<std::vector<T>*>(wb.vecPtr);
          SIM_CHECK(**static_cast<std::vector<T>**>(wb.data) == e.first, P, "the write buffers have other values");
          d->bufs.emplace(nm, std::move(*rb));
        }
        auto t = f->getCollectionIDTableForWrite();
        d->ids = t.ids();
        d->names = t.names();
        f = std::make_unique<podio::Frame>(std::move(d));
        sim::count("op:through storage", in.size());
        break;
      }
      }
      sim::count("op:user data");
      if (sim::w(3) == 0) all();
    }
    all();
    if (n > 5) sim::nontrivial();
  }
};
void go(bool faults) {
  switch (sim::w(10)) {
  case 0: return Run<int32_t>{faults}.run();
  case 1: return Run<float>{faults}.run();
  case 2: return Run<double>{faults}.run();
  case 3: return Run<int8_t>{faults}.run();
  case 4: return Run<int16_t>{faults}.run();
  case 5: return Run<int64_t>{faults}.run();
  case 6: return Run<uint8_t>{faults}.run();
  case 7: return Run<uint16_t>{faults}.run();
  case 8: return Run<uint32_t>{faults}.run();
  default: return Run<uint64_t>{faults}.run();
  }
}
} // namespace
SIM_WORKLOAD(userdata) { go(false); }
SIM_WORKLOAD(userdata_alloc) { go(true); }
