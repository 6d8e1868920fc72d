seed("relation-at-wraps", "O04",
 [("include/podio/RelationRange.h", '''    if (i < m_size) {
      auto it = m_begin;
      std::advance(it, i);
      return *it;
    }
    throw''', '''    if (const auto it = m_begin + i; m_begin <= it && it < m_end) {
      return *it;
    }
    throw''')],
 "asking a range of relations for an entry at an index so large that the address wraps around",
 "the check compares addresses, so that the index 2^60 is taken for 0 instead of being rejected",
 r'''
#include "mini/NodeCollection.h"
#include <stdexcept>
int main() {
  mini::NodeCollection c;
  auto a = c.create(), b = c.create();
  a.addToKids(b);
  int thrown = 0;
  volatile int up = 63;
  for (; up >= 40; up = up - 1) {
    try {
      if (a.getKids().at(size_t(1) << up).isAvailable()) return 1;
    } catch (const std::out_of_range&) {
      ++thrown;
    }
  }
  return thrown != 24;
}
''', "model")

seed("params-set-erase-first", "O06",
 [("include/podio/GenericParameters.h", '''    std::lock_guard lock{mtx};
    map.insert_or_assign(key, std::move(value));
''', '''    std::lock_guard lock{mtx};
    map.erase(key);
    map.emplace(key, std::move(value));
''')],
 "memory running out while the value of an existing parameter is replaced",
 "the old value is erased before the new one has been stored",
 r'''
#include "podio/GenericParameters.h"
#include <cstdlib>
#include <new>
static int left = -1;
void* operator new(std::size_t n) {
  if (left >= 0 && left-- == 0) throw std::bad_alloc();
  return std::malloc(n);
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
  const std::string key = "a key that does not fit into a string object";
  for (int fail = 0; fail < 8; ++fail) {
    podio::GenericParameters p;
    p.set(key, std::vector<int>{1, 2, 3});
    std::vector<int> next{4, 5};
    bool thrown = false;
    left = fail;
    try {
      p.set(key, next);
    } catch (const std::bad_alloc&) {
      thrown = true;
    }
    left = -1;
    const auto v = p.get<std::vector<int>>(key);
    if (!v || *v != (thrown ? std::vector<int>{1, 2, 3} : next)) return 1;
  }
  return 0;
}
''', "core")

seed("navigator-remembers-range", "O05",
 [("include/podio/LinkNavigator.h", '''    const auto& [begin, end] = m_to2from.equal_range(object);
    std::vector<WeightedObject<FromT>> result;
    result.reserve(std::distance(begin, end));
''', '''    // Objects are often looked up several times in a row
    if (!m_lastTo || !(*m_lastTo == object)) {
      m_lastTo = object;
      m_lastRange = m_to2from.equal_range(object);
    }
    const auto [begin, end] = m_lastRange;
    std::vector<WeightedObject<FromT>> result;
    result.reserve(std::distance(begin, end));
'''), ("include/podio/LinkNavigator.h", '''  std::multimap<ToT, WeightedObject<FromT>> m_to2from{}; ///< Map the to to the from objects
''', '''  std::multimap<ToT, WeightedObject<FromT>> m_to2from{}; ///< Map the to to the from objects
  using ToRange = typename std::multimap<ToT, WeightedObject<FromT>>::const_iterator;
  mutable std::optional<ToT> m_lastTo{};
  mutable std::pair<ToRange, ToRange> m_lastRange{};
'''), ("include/podio/LinkNavigator.h", '''#include <map>
''', '''#include <map>
#include <optional>
''')],
 "two threads that use one navigator, or a navigator that was copied after it had been used and outlives the original",
 "the range of the last lookup is kept in the navigator, without a lock and pointing into the maps of the navigator it was copied from",
 r'''
#include "podio/LinkNavigator.h"
#include "mini/CellCollection.h"
#include "mini/CellNodeCollection.h"
#include "mini/NodeCollection.h"
#include <memory>
#include <thread>
using N = podio::LinkNavigator<mini::CellNodeCollection>;
int main() {
  mini::CellCollection cells;
  mini::NodeCollection nodes;
  mini::CellNodeCollection links;
  for (int i = 0; i < 4; ++i) {
    cells.create();
    nodes.create();
    auto l = links.create();
    l.setFrom(cells[i]);
    l.setTo(nodes[i]);
  }
  const N nav(links);
  int bad[2] = {};
  std::thread t[2];
  for (int k = 0; k < 2; ++k)
    t[k] = std::thread([&, k] {
      for (int i = 0; i < 2000; ++i) {
        const mini::Node n = nodes[(i * (k + 1)) % 4];
        const auto r = nav.getLinkedFrom(n);
        bad[k] += r.size() != 1 || r[0].o != cells[(i * (k + 1)) % 4];
      }
    });
  for (auto& x : t) x.join();
  return bad[0] || bad[1];
}
''', "model-tsan")
