// Linearizability check of a recorded concurrent history against a sequential
// reference model: depth-first search over the orders that respect real time,
// with memoisation of (set of linearised operations, model state).
#ifndef LIN_H
#define LIN_H
#include "simrt.h"
#include <cstdint>
#include <string>
#include <unordered_set>
#include <vector>
namespace lin {
template <typename Op>
struct Rec {
  uint64_t inv, res;
  Op op;
};
/// Model: value type with `bool apply(const Op&)` (false: the result of the
/// operation is not what the model gives) and `uint64_t hash() const`
template <typename Model, typename Op>
bool search(const std::vector<Rec<Op>>& h, const Model& init, uint64_t maxNodes, bool memo) {
  const size_t n = h.size();
  if (n > 64) sim::fail("harness", "history too long");
  std::unordered_set<uint64_t> seen;
  uint64_t nodes = 0;
  struct Fr { uint64_t mask; Model m; };
  std::vector<Fr> st;
  st.push_back({0, init});
  const uint64_t all = n == 64 ? ~0ull : ((1ull << n) - 1);
  while (!st.empty()) {
    Fr f = std::move(st.back());
    st.pop_back();
    if (f.mask == all) return true;
    if (++nodes > maxNodes) { sim::count("lin:gave-up"); return memo; }
    uint64_t minres = ~0ull;
    for (size_t i = 0; i < n; ++i)
      if (!(f.mask >> i & 1) && h[i].res < minres) minres = h[i].res;
    for (size_t i = 0; i < n; ++i) {
      if (f.mask >> i & 1) continue;
      if (h[i].inv > minres) continue; // some pending operation returned before this one was called
      Model m = f.m;
      if (!m.apply(h[i].op)) continue;
      uint64_t nm = f.mask | 1ull << i;
      const uint64_t in[2] = {m.hash(), nm};
      const uint64_t key = sim::hash64(in, sizeof in);
      if (!memo || seen.insert(key).second) st.push_back({nm, std::move(m)});
    }
  }
  return false;
}
template <typename Model, typename Op>
bool linearizable(const std::vector<Rec<Op>>& h, const Model& init) {
  // before it is a verdict, look again without trusting the hash of the model
  return search(h, init, 3000000, true) || search(h, init, 2000000, false);
}
} // namespace lin
#endif
