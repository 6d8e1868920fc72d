// Deterministic simulation runtime: public interface for the workloads.
//
// One process run = one simulated execution.  Threads are fibers on a single
// OS thread; every instrumented memory access and every synchronisation
// operation is a point at which the seeded scheduler may switch.  All
// decisions come from four recorded choice streams, so an execution is a
// function of these streams and can be replayed and minimised.
#ifndef SIMRT_H
#define SIMRT_H
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

enum Stream { W = 0, S = 1, B = 2, F = 3 }; // workload, schedule, blocked picks, faults
constexpr int NSTREAMS = 4;

/// One choice in [0, n); 0 is the simplest
uint64_t choose(Stream s, uint64_t n);
inline uint64_t w(uint64_t n) { return choose(W, n); }
inline uint64_t f(uint64_t n) { return choose(F, n); }
/// lo..hi inclusive
inline int64_t wr(int64_t lo, int64_t hi) { return lo + (int64_t)w((uint64_t)(hi - lo + 1)); }
/// true with probability 1/n (0 == false is the simple choice)
inline bool w1in(uint64_t n) { return w(n) == n - 1; }
inline bool f1in(uint64_t n) { return f(n) == n - 1; }

/// Start a simulated thread / wait until all of them are finished
void spawn(std::function<void()> fn);
void join_all();
/// id of the running simulated thread (0 is the main one)
int tid();
/// Strictly increasing event counter
uint64_t stamp();
/// An explicit scheduling point
void yield_point();

/// Report a violation and end this execution
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, kind, ...)                                                                                     \
  do {                                                                                                                 \
    if (!(cond)) ::sim::fail(kind, __VA_ARGS__);                                                                       \
  } while (0)

/// Log an event to the trace of the execution
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/// Count something for the evidence: a fault kind that fired, an operation, ...
void count(const char* what, uint64_t n = 1);
/// Mix something into the signature of the execution (state measure)
void mix(uint64_t h);
void nontrivial(); ///< mark this execution as non-trivial

/// Failing allocations: while such an object is armed, the n-th (1 = next)
/// allocation through operator new in this thread fails, n == 0: none
struct AllocFault {
  explicit AllocFault(uint64_t n);
  ~AllocFault();
  bool fired() const;
  AllocFault(const AllocFault&) = delete;
};
/// Number of operator new calls so far in this execution
uint64_t allocs();
/// suspend injection / scheduling while the harness looks at something
struct Quiet {
  Quiet();
  ~Quiet();
};

/// workloads register themselves
struct Workload {
  Workload(const char* name, void (*fn)());
};
#define SIM_WORKLOAD(name)                                                                                             \
  static void name();                                                                                                  \
  static ::sim::Workload reg_##name(#name, name);                                                                      \
  static void name()

/// parameter of the run, e.g. "tier"
bool thorough();

uint64_t hash64(const void* p, size_t n, uint64_t seed = 0);
inline uint64_t hashs(const std::string& s) { return hash64(s.data(), s.size()); }
} // namespace sim
#endif
