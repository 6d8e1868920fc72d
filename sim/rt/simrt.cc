// Deterministic simulation runtime, see simrt.h.  Compiled without
// instrumentation.  Replaces the ThreadSanitizer run time library: code
// compiled with -fsanitize=thread calls the __tsan_* functions below.
#include "simrt.h"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uintptr_t uptr;

extern "C" char __libc_single_threaded;
extern "C" char __data_start, _end, __executable_start, etext;

// ---------------------------------------------------------------- layout
static const uptr ARENA = 0x100000000000ull;
static const uptr ARENA_SZ = 1ull << 30;
static const uptr ASH = 0x110000000000ull;   // 1 byte per 8: allocation state
static const uptr RSH = 0x120000000000ull;   // 128 bytes per 8: race shadow (arena)
static const uptr GSH = 0x130000000000ull;   // 128 bytes per 8: race shadow (globals)
static const uptr STK = 0x140000000000ull;   // fiber stacks
static const uptr STK_SZ = 1ull << 20;
static const uptr SHM = 0x150000000000ull;
static const int MAXT = 8;

enum : u8 { ST_NONE = 0, ST_FREED = 0xFD, ST_RZ = 0xFA };

struct BlkHdr { // 32 bytes, directly before the user memory (counts as redzone)
  u32 magic;
  u32 prevoff; // distance to previous header / 16 (for walking back)
  u64 size;
  u32 kind; // 0 malloc, 1 new, 2 new[]
  u32 seq;
  u32 pc_alloc, pc_free;
};
static const u32 MAGIC = 0xB10CB10C, MAGIC_FREE = 0xDEADB10C;

static uptr g_brk = 0;           // arena bump pointer
static bool g_arena_ready = false;
static u32 g_alloc_seq = 0;
static uptr g_run_start = 0;     // arena offset at the start of the execution
static u32 g_free_violation = 0;

// ---------------------------------------------------------------- result shared with the driver
struct Counter { char name[40]; u64 n; };
static const int MAXCHOICE = 1 << 16;
struct Result {
  volatile int status; // 0 running, 1 ok, 2 violation, 3 harness error
  int nontriv;
  char kind[96];
  char msg[8192];
  u64 steps, switches, syncs, threads, ilhash, statehash, allocs, events;
  Counter ctr[96];
  int nctr;
  u32 nch[sim::NSTREAMS];
  u32 ch[sim::NSTREAMS][MAXCHOICE];
  u32 loglen;
  char log[1 << 18];
};
static Result* R = nullptr;

// ---------------------------------------------------------------- run configuration
static bool g_replay = false;
static const u32* g_rep[sim::NSTREAMS];
static u32 g_repn[sim::NSTREAMS];
static u32 g_reppos[sim::NSTREAMS];
static u64 g_rng[sim::NSTREAMS];
static bool g_trace = false;
static bool g_thorough = false;
static bool g_in_run = false;     // an execution is in progress (memory checks on)
static bool g_conc = false;       // more than one simulated thread: race detection and scheduling on
static int g_quiet = 0;
static bool g_dead = false;       // reporting: no more checks

static inline u64 splitmix(u64& x) {
  u64 z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

// ---------------------------------------------------------------- fibers
enum FState { FREE_, RUNNABLE, BLOCKED, DONE };
struct Fiber {
  void* sp;
  FState st;
  uptr waiting; // address waited for
  u32 vc[MAXT];
  std::function<void()>* fn;
  uptr callstk[512];
  int depth;
  u64 alloc_fault; // countdown; 0 = off
  bool fault_fired;
  u8 tls[4096];
  struct { void (*dtor)(void*); void* obj; } tlsd[64]; // destructors of its thread_local objects
  int ntlsd;
};
static Fiber g_f[MAXT];
static int g_cur = 0;
static int g_live = 1;
static u8* g_tls = nullptr;
static size_t g_tlssz = 0;
static u8 g_tls0[4096];
static u64 g_gap = 0; // countdown to the next preemption, 0 = none
static int g_unit = 0; // 0: accesses, 1: sync operations only
static u64 g_gapmode = 0;
static u64 g_steps = 0, g_maxsteps = 300000000ull, g_busy = 0;
static u64 g_il = 0x1234567;

extern "C" void sim_switch_asm(void** save, void* to);
asm(R"(
.text
.globl sim_switch_asm
.type sim_switch_asm,@function
sim_switch_asm:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch_asm,.-sim_switch_asm
.globl sim_entry_asm
.type sim_entry_asm,@function
sim_entry_asm:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp,%ebp
  callq sim_fiber_main
  ud2
  .cfi_endproc
.size sim_entry_asm,.-sim_entry_asm
)");
extern "C" void sim_entry_asm();

namespace sim {
static void vfail(const char* kind, const char* fmt, va_list ap) __attribute__((noreturn));
}

// ---------------------------------------------------------------- choices
namespace sim {
uint64_t choose(Stream s, uint64_t n) {
  if (n <= 1) return 0;
  u64 v;
  if (g_replay) {
    v = g_reppos[s] < g_repn[s] ? g_rep[s][g_reppos[s]] : 0;
    g_reppos[s]++;
    if (v >= n) v %= n;
  } else {
    v = splitmix(g_rng[s]) % n;
  }
  if (R) {
    if (R->nch[s] < MAXCHOICE) R->ch[s][R->nch[s]] = (u32)v;
    R->nch[s]++;
  }
  return v;
}
uint64_t hash64(const void* p, size_t n, uint64_t seed) {
  u64 h = 1469598103934665603ull ^ seed;
  const u8* b = (const u8*)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
  h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
  return h;
}
int tid() { return g_cur; }
uint64_t stamp() { return R ? ++R->events : 0; }
bool thorough() { return g_thorough; }
void mix(uint64_t h) { if (R) { u64 x = R->statehash ^ h; R->statehash = splitmix(x); } }
void nontrivial() { if (R) R->nontriv = 1; }
void count(const char* what, uint64_t n) {
  if (!R) return;
  for (int i = 0; i < R->nctr; ++i)
    if (!strncmp(R->ctr[i].name, what, sizeof(R->ctr[i].name) - 1)) { R->ctr[i].n += n; return; }
  if (R->nctr < 96) { strncpy(R->ctr[R->nctr].name, what, sizeof(R->ctr[0].name) - 1); R->ctr[R->nctr++].n = n; }
}
struct Silent { // the C library calls wrapped functions while formatting
  Silent() { ++g_quiet; }
  ~Silent() { --g_quiet; }
};
static void logv(const char* fmt, va_list ap) {
  if (!R) return;
  Silent silent;
  size_t room = sizeof(R->log) - R->loglen;
  if (room < 300) return;
  int k = snprintf(R->log + R->loglen, room, "[%d] ", g_cur);
  R->loglen += k; room -= k;
  k = vsnprintf(R->log + R->loglen, room - 2, fmt, ap);
  if (k > (int)room - 3) k = (int)room - 3;
  R->loglen += k;
  R->log[R->loglen++] = '\n';
}
void ev(const char* fmt, ...) {
  if (!g_trace) return;
  va_list ap; va_start(ap, fmt); logv(fmt, ap); va_end(ap);
}
static void append(char* dst, size_t cap, const char* fmt, ...) {
  size_t l = strlen(dst);
  if (l + 2 >= cap) return;
  va_list ap; va_start(ap, fmt); vsnprintf(dst + l, cap - l, fmt, ap); va_end(ap);
}
static void finish_stats() {
  R->steps = g_steps; R->ilhash = g_il;
}
static void vfail(const char* kind, const char* fmt, va_list ap) {
  g_dead = true;
  if (!R) { vfprintf(stderr, fmt, ap); fputc('\n', stderr); _exit(3); }
  snprintf(R->kind, sizeof R->kind, "%s", kind);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  // call stack of the failing simulated thread
  append(R->msg, sizeof R->msg, "\n@thread %d stack:", g_cur);
  Fiber& me = g_f[g_cur];
  for (int i = std::min(me.depth, 512) - 1, k = 0; i >= 0 && k < 14; --i, ++k)
    append(R->msg, sizeof R->msg, " 0x%lx", (unsigned long)me.callstk[i]);
  finish_stats();
  R->status = 2;
  _exit(0);
}
void fail(const char* kind, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vfail(kind, fmt, ap);
}
uint64_t allocs() { return g_alloc_seq; }
Quiet::Quiet() { ++g_quiet; }
Quiet::~Quiet() { --g_quiet; }
} // namespace sim
using sim::fail;

// ---------------------------------------------------------------- arena allocator
static void* map_at(uptr at, size_t sz, int extra = 0) {
  void* p = mmap((void*)at, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE | extra, -1, 0);
  if (p != (void*)at) { const char m[] = "simrt: cannot map\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
  return p;
}
static uptr gbase, gsize;
static uptr g_pre_brk; // end of what was allocated before the execution
static void arena_init() {
  if (g_arena_ready) return;
  g_arena_ready = true;
  map_at(ARENA, ARENA_SZ);
  map_at(ASH, ARENA_SZ / 8);
  map_at(RSH, ARENA_SZ * 16);
  gbase = (uptr)&__data_start & ~7ull;
  gsize = ((uptr)&_end - gbase + 7) & ~7ull;
  map_at(GSH, (gsize * 16 + 4095) & ~4095ull);
  map_at(STK, STK_SZ * MAXT);
  g_brk = ARENA + 4096;
}
static inline u8* ash(uptr a) { return (u8*)(ASH + ((a - ARENA) >> 3)); }
static inline bool in_arena(uptr a) { return a - ARENA < ARENA_SZ; }

static uptr cur_pc() {
  Fiber& me = g_f[g_cur];
  return me.depth > 0 && me.depth <= 512 ? me.callstk[me.depth - 1] : 0;
}
// Where memory comes from, drawn per execution: one address after the other (what
// has been freed stays inaccessible), freed blocks again, or all over the place
struct Region { uptr start, end, brk; };
static Region g_reg[6];
static int g_nreg = 0;
static int g_place = 0; // 0 in order, 1 reuse, 2 reuse and scattered
static u64 g_placerng = 0;
static const size_t RECLASS = 1024;
static u32 g_freelist[RECLASS + 1]; // offset in the arena / 16 of the block freed last, by size / 16
static inline u32 place_rnd(u32 n) { g_placerng = g_placerng * 6364136223846793005ull + 1442695040888963407ull; return (u32)((g_placerng >> 33) % n); }
static void sync_forget(uptr a, size_t n);
static inline size_t size_class(size_t sz) { return sz ? (sz + 15) / 16 : 1; }
static void* reuse(size_t sz, u32 kind, uptr pc) {
  const size_t c = size_class(sz);
  if (c > RECLASS || !g_freelist[c]) return nullptr;
  uptr p = ARENA + (uptr)g_freelist[c] * 16;
  BlkHdr* h = (BlkHdr*)(p - sizeof(BlkHdr));
  g_freelist[c] = h->prevoff;
  h->magic = MAGIC; h->size = sz; h->kind = kind; h->seq = ++g_alloc_seq; h->pc_alloc = (u32)pc; h->pc_free = 0;
  memset(ash(p), ST_RZ, c * 2);
  if (sz) memset(ash(p), 8, sz >> 3);
  if (sz & 7) *ash(p + (sz & ~7ull)) = sz & 7;
  memset((void*)(RSH + ((p - ARENA) >> 3) * 128), 0, c * 256);
  sync_forget(p, c * 16);
  memset((void*)p, 0, sz);
  R->allocs++;
  return (void*)p;
}
static void* arena_alloc(size_t sz, size_t align, u32 kind, uptr pc) {
  arena_init();
  if (sz > ARENA_SZ / 4) return nullptr;
  if (align < 16) align = 16;
  Region* reg = nullptr;
  if (g_place && g_in_run) {
    if (align == 16 && place_rnd(4))
      if (void* q = reuse(sz, kind, pc)) return q;
    if (g_place == 2) {
      reg = &g_reg[place_rnd(g_nreg)];
      if (reg->end - reg->brk < sz + align + 256) reg = &g_reg[0];
      if (reg->end - reg->brk < sz + align + 256) return nullptr;
      g_brk = reg->brk;
    }
  }
  struct Back { Region* r; ~Back() { if (r) r->brk = g_brk; } } back{reg};
  uptr p = (g_brk + sizeof(BlkHdr) + align - 1) & ~(uptr)(align - 1);
  size_t rs = (sz + 7) & ~7ull;
  uptr end = p + std::max<size_t>(rs, 8) + 16; // trailing redzone
  end = (end + 15) & ~15ull;
  if (end > ARENA + ARENA_SZ) return nullptr;
  BlkHdr* h = (BlkHdr*)(p - sizeof(BlkHdr));
  h->magic = MAGIC; h->size = sz; h->kind = kind; h->seq = ++g_alloc_seq; h->pc_alloc = (u32)pc; h->pc_free = 0;
  h->prevoff = (u32)((p - g_brk) / 1);
  memset(ash(g_brk), ST_RZ, ((end - g_brk) >> 3));
  if (sz) memset(ash(p), 8, sz >> 3);
  if (sz & 7) *ash(p + (sz & ~7ull)) = sz & 7;
  g_brk = end;
  if (g_in_run && R) R->allocs++;
  return (void*)p;
}
static BlkHdr* hdr(void* p) { return (BlkHdr*)((uptr)p - sizeof(BlkHdr)); }
static void race_write_range(uptr a, size_t n, uptr pc);
static void describe(uptr a, char* out, size_t cap) {
  out[0] = 0;
  if (!in_arena(a)) return;
  // walk back to the header
  uptr q = a & ~7ull;
  for (int i = 0; i < 100000 && q > ARENA + 4096; q -= 8, ++i) {
    BlkHdr* h = (BlkHdr*)q;
    if (h->magic == MAGIC || h->magic == MAGIC_FREE) {
      uptr u = q + sizeof(BlkHdr);
      snprintf(out, cap, "%ld bytes %s a %s block of %lu bytes (#%u) allocated by 0x%x%s0x%x", (long)(a >= u + h->size ? a - (u + h->size) : a - u),
               a < u ? "before" : a >= u + h->size ? "after" : "inside", h->magic == MAGIC ? "live" : "freed", (unsigned long)h->size, h->seq, h->pc_alloc,
               h->magic == MAGIC ? " " : ", freed by ", h->pc_free);
      return;
    }
  }
}
static void arena_free(void* p, u32 kind, uptr pc) {
  if (!p) return;
  uptr a = (uptr)p;
  if (!in_arena(a)) { if (g_in_run && !g_dead) fail("memory", "free of a pointer that was not allocated: %p", p); return; }
  BlkHdr* h = hdr(p);
  if (h->magic != MAGIC) {
    if (!g_dead && g_in_run) {
      char d[256]; describe(a, d, sizeof d);
      fail("memory", "%s: %p, %s", h->magic == MAGIC_FREE ? "double free" : "invalid free", p, d);
    }
    return;
  }
  if (g_in_run && !g_dead && h->kind != kind && (h->kind == 2) != (kind == 2))
    fail("memory", "mismatched deallocation (allocated as %u, freed as %u) allocated by 0x%x", h->kind, kind, h->pc_alloc);
  if (g_conc && !g_dead) race_write_range(a, h->size, pc);
  h->magic = MAGIC_FREE;
  h->pc_free = (u32)pc;
  memset(ash(a), ST_FREED, ((h->size + 7) >> 3));
  if (g_place && g_in_run && a >= g_run_start && size_class(h->size) <= RECLASS && (a & 15) == 0) {
    h->prevoff = g_freelist[size_class(h->size)];
    g_freelist[size_class(h->size)] = (u32)((a - ARENA) / 16);
  }
}

extern "C" {
void* malloc(size_t n) { return arena_alloc(n, 16, 0, (uptr)__builtin_return_address(0)); }
void free(void* p) { arena_free(p, 0, (uptr)__builtin_return_address(0)); }
void* calloc(size_t a, size_t b) { return arena_alloc(a * b, 16, 0, (uptr)__builtin_return_address(0)); } // fresh memory is zero
void* realloc(void* p, size_t n) {
  void* q = arena_alloc(n, 16, 0, (uptr)__builtin_return_address(0));
  if (p && q) { memcpy(q, p, std::min<size_t>(n, hdr(p)->size)); arena_free(p, 0, 0); }
  return q;
}
void* memalign(size_t al, size_t n) { return arena_alloc(n, al, 0, 0); }
void* aligned_alloc(size_t al, size_t n) { return arena_alloc(n, al, 0, 0); }
int posix_memalign(void** o, size_t al, size_t n) { *o = arena_alloc(n, al, 0, 0); return *o ? 0 : ENOMEM; }
void* valloc(size_t n) { return arena_alloc(n, 4096, 0, 0); }
void* pvalloc(size_t n) { return arena_alloc(n, 4096, 0, 0); }
size_t malloc_usable_size(void* p) { return p ? hdr(p)->size : 0; }
}

static void* op_new(size_t n, size_t al, u32 kind, uptr pc, bool nothrow) {
  if (g_in_run && !g_quiet && !g_dead) {
    Fiber& me = g_f[g_cur];
    if (me.alloc_fault && --me.alloc_fault == 0) {
      me.fault_fired = true;
      sim::ev("fault: allocation of %lu bytes fails at 0x%lx", (unsigned long)n, (unsigned long)pc);
      sim::count("fault:alloc");
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  void* p = arena_alloc(n, al, kind, pc);
  if (!p) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  if (g_in_run) memset(p, 0xA5, n); // uninitialised memory is recognisable
  return p;
}
#define PC ((uptr)__builtin_return_address(0))
void* operator new(size_t n) { return op_new(n, 16, 1, PC, false); }
void* operator new[](size_t n) { return op_new(n, 16, 2, PC, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, 1, PC, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, 2, PC, true); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, 1, PC, false); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, 2, PC, false); }
void operator delete(void* p) noexcept { arena_free(p, 1, PC); }
void operator delete[](void* p) noexcept { arena_free(p, 2, PC); }
void operator delete(void* p, size_t) noexcept { arena_free(p, 1, PC); }
void operator delete[](void* p, size_t) noexcept { arena_free(p, 2, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arena_free(p, 1, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { arena_free(p, 2, PC); }
void operator delete(void* p, std::align_val_t) noexcept { arena_free(p, 1, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { arena_free(p, 2, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { arena_free(p, 1, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { arena_free(p, 2, PC); }

namespace sim {
AllocFault::AllocFault(uint64_t n) { g_f[g_cur].alloc_fault = n; g_f[g_cur].fault_fired = false; }
AllocFault::~AllocFault() { g_f[g_cur].alloc_fault = 0; }
bool AllocFault::fired() const { return g_f[g_cur].fault_fired; }
} // namespace sim

// ---------------------------------------------------------------- vector clocks and sync objects
struct SyncObj {
  uptr addr;
  u32 vc[MAXT];
  // mutex / rwlock / once / guard state
  int owner; // -1 none
  int count;
  int readers[MAXT];
  int nreaders;
  int phase; // once: 0 not run, 1 running, 2 done
  u32 ordinal;
};
static const u32 NSYNC = 1 << 15;
static SyncObj g_sync[NSYNC];
static u32 g_nsync = 0;
static SyncObj& syncobj(uptr a) {
  u32 i = (u32)((a >> 2) * 2654435761u) & (NSYNC - 1);
  while (g_sync[i].addr && g_sync[i].addr != a) i = (i + 1) & (NSYNC - 1);
  SyncObj& s = g_sync[i];
  if (!s.addr) {
    if (++g_nsync > NSYNC - 100) fail("harness", "too many sync objects");
    s.addr = a; s.owner = -1; s.ordinal = g_nsync;
  }
  return s;
}
static void sync_forget(uptr a, size_t n) {
  if (!g_nsync) return;
  for (uptr q = a; q < a + n; q += 4) {
    u32 i = (u32)((q >> 2) * 2654435761u) & (NSYNC - 1);
    while (g_sync[i].addr && g_sync[i].addr != q) i = (i + 1) & (NSYNC - 1);
    SyncObj& s = g_sync[i];
    if (s.addr) { memset(s.vc, 0, sizeof s.vc); s.owner = -1; s.count = 0; memset(s.readers, 0, sizeof s.readers); s.nreaders = 0; s.phase = 0; }
  }
}
static inline void vc_join(u32* d, const u32* s) { for (int i = 0; i < MAXT; ++i) if (s[i] > d[i]) d[i] = s[i]; }
static inline void acquire(SyncObj& s) { vc_join(g_f[g_cur].vc, s.vc); }
static inline void release_join(SyncObj& s) { vc_join(s.vc, g_f[g_cur].vc); g_f[g_cur].vc[g_cur]++; }
static inline void release_set(SyncObj& s) { memcpy(s.vc, g_f[g_cur].vc, sizeof s.vc); g_f[g_cur].vc[g_cur]++; }

// ---------------------------------------------------------------- scheduler
static void draw_gap() {
  // mixture; mode chosen once per execution, the drawn values are recorded
  u64 v;
  if (g_replay) {
    v = sim::choose(sim::S, 1u << 20);
  } else {
    u64 r = splitmix(g_rng[sim::S]);
    switch (g_gapmode % 8) {
      case 0: v = 1 + r % 3; break;
      case 1: v = 1 + r % 16; break;
      case 2: v = 1 + r % 80; break;
      case 3: v = 1 + r % 400; break;
      case 4: v = 1 + r % 2000; break;
      case 5: { u64 e = (r >> 32) % 12; v = 1 + (r & ((1ull << e) - 1)); break; }
      case 6: v = (r >> 40) % 3 ? 1 + r % 600 : 1 + r % 4; break; // bursts
      default: v = 1 + r % 8; break; // only sync operations count, see g_unit
    }
    if (R) {
      if (R->nch[sim::S] < MAXCHOICE) R->ch[sim::S][R->nch[sim::S]] = (u32)v;
      R->nch[sim::S]++;
    }
  }
  g_gap = v;
}
static void switch_to(int t) {
  if (t == g_cur) return;
  Fiber& a = g_f[g_cur];
  Fiber& b = g_f[t];
  if (g_tlssz) { memcpy(a.tls, g_tls, g_tlssz); memcpy(g_tls, b.tls, g_tlssz); }
  int was = g_cur;
  (void)was;
  g_cur = t;
  if (R) R->switches++;
  g_il = g_il * 0x9E3779B97F4A7C15ull + (u64)t + 1;
  sim_switch_asm(&a.sp, b.sp);
}
/// pick another runnable thread; -1 if there is none
static int pick_other(sim::Stream st) {
  int c[MAXT], n = 0;
  for (int i = 0; i < MAXT; ++i)
    if (i != g_cur && g_f[i].st == RUNNABLE) c[n++] = i;
  if (!n) return -1;
  return c[sim::choose(st, n)];
}
static void preempt() {
  // the access counter reached zero
  draw_gap();
  int t = pick_other(sim::S);
  if (t >= 0) {
    g_il ^= g_steps * 0x2545F4914F6CDD1Dull;
    switch_to(t);
  }
}
static inline void step_access() {
  if (!g_conc || g_quiet || g_dead) return;
  if (++g_steps > g_maxsteps) fail("hang", "no end after %lu steps", (unsigned long)g_steps);
  if (g_unit == 0 && g_gap && --g_gap == 0) preempt();
}
static inline void step_sync() {
  if (!g_conc || g_quiet || g_dead) return;
  if (R) R->syncs++;
  if (++g_steps > g_maxsteps) fail("hang", "no end after %lu steps", (unsigned long)g_steps);
  if (g_gap && --g_gap == 0) preempt();
}
static void block_on(uptr what) {
  g_f[g_cur].st = BLOCKED;
  g_f[g_cur].waiting = what;
  int t = pick_other(sim::B);
  if (t < 0) {
    g_f[g_cur].st = RUNNABLE;
    fail("deadlock", "all simulated threads are blocked");
  }
  switch_to(t);
}
static void wake_all(uptr what) {
  for (int i = 0; i < MAXT; ++i)
    if (g_f[i].st == BLOCKED && g_f[i].waiting == what) { g_f[i].st = RUNNABLE; g_f[i].waiting = 0; }
}
static void sync_event(int kind, SyncObj& s) {
  if (g_conc) g_il = g_il * 0xD6E8FEB86659FD93ull + ((u64)s.ordinal << 8 | (u64)kind << 4 | (u64)g_cur);
}

/// thread_local objects of the code under test belong to the simulated thread and are destroyed at its end
extern "C" int __wrap___cxa_thread_atexit(void (*dtor)(void*), void* obj, void*) {
  Fiber& f = g_f[g_cur];
  if (f.ntlsd < 64) f.tlsd[f.ntlsd++] = {dtor, obj};
  return 0;
}
extern "C" void sim_fiber_main() {
  int me = g_cur;
  try {
    (*g_f[me].fn)();
    while (g_f[me].ntlsd) { auto d = g_f[me].tlsd[--g_f[me].ntlsd]; d.dtor(d.obj); }
  } catch (const std::exception& e) {
    fail("uncaught", "exception leaves a simulated thread: %s", e.what());
  } catch (...) {
    fail("uncaught", "unknown exception leaves a simulated thread");
  }
  delete g_f[me].fn;
  g_f[me].fn = nullptr;
  g_f[me].st = DONE;
  --g_live;
  wake_all(1); // joiners
  g_gap = g_gap ? g_gap : 0;
  for (;;) {
    int t = pick_other(sim::B);
    if (t < 0) fail("deadlock", "a simulated thread ended and all others are blocked");
    switch_to(t);
  }
}
namespace sim {
void spawn(std::function<void()> fn) {
  int t = -1;
  for (int i = 1; i < MAXT; ++i)
    if (g_f[i].st == FREE_) { t = i; break; }
  if (t < 0) fail("harness", "too many threads");
  Fiber& n = g_f[t];
  Fiber& me = g_f[g_cur];
  u32 own = n.vc[t];
  memcpy(n.vc, me.vc, sizeof n.vc);
  n.vc[t] = std::max(own, n.vc[t]) + 1;
  me.vc[g_cur]++;
  n.fn = new std::function<void()>(std::move(fn));
  n.depth = 0;
  n.ntlsd = 0;
  n.alloc_fault = 0;
  n.st = RUNNABLE;
  memcpy(n.tls, g_tls0, g_tlssz);
  uptr top = STK + STK_SZ * (t + 1) - 64;
  top &= ~15ull;
  u64* sp = (u64*)top;
  *--sp = 0;
  *--sp = 0;                       // alignment: the entry is reached by ret and calls on
  *--sp = (u64)&sim_entry_asm;     // return address of the switch
  for (int i = 0; i < 6; ++i) *--sp = 0;
  n.sp = sp;
  if (!g_conc) {
    g_conc = true;
    g_unit = (int)choose(S, 2);
    if (!g_replay && g_gapmode % 8 != 7) { if (R && R->nch[S] <= MAXCHOICE) R->ch[S][R->nch[S] - 1] = 0; g_unit = 0; }
    if (!g_replay && g_gapmode % 8 == 7) { if (R && R->nch[S] <= MAXCHOICE) R->ch[S][R->nch[S] - 1] = 1; g_unit = 1; }
    draw_gap();
  }
  ++g_live;
  if (R) R->threads++;
}
void join_all() {
  for (;;) {
    bool all = true;
    for (int i = 1; i < MAXT; ++i)
      if (g_f[i].st == RUNNABLE || g_f[i].st == BLOCKED) all = false;
    if (all) break;
    block_on(1);
  }
  for (int i = 1; i < MAXT; ++i)
    if (g_f[i].st == DONE) { vc_join(g_f[0].vc, g_f[i].vc); g_f[i].st = FREE_; }
  g_conc = false;
}
void yield_point() { step_sync(); }
} // namespace sim

// ---------------------------------------------------------------- race detection
struct Rec { u32 clk, pc; };
struct Cell { // 128 bytes
  Rec w;
  Rec r[MAXT];
  u8 wtid, wmask, watomic, pad;
  u8 rmask[MAXT], ratomic[MAXT];
  u8 fill[128 - 8 - 64 - 4 - 16];
};
static_assert(sizeof(Cell) == 128, "cell");

static inline Cell* cell(uptr a) {
  if (in_arena(a)) return (Cell*)(RSH + ((a - ARENA) >> 3) * 128);
  if (a - gbase < gsize) return (Cell*)(GSH + ((a - gbase) >> 3) * 128);
  return nullptr;
}
static void report_race(uptr a, const char* what, uptr pc, const char* prev, u32 ppc, int ptid) {
  char d[256];
  describe(a, d, sizeof d);
  fail("race", "data race: %s by thread %d at 0x%lx, earlier %s by thread %d at 0x%x; address %s", what, g_cur, (unsigned long)pc, prev, ptid, ppc,
       in_arena(a) ? d : "in static storage");
}
static inline void race_granule(uptr a, u8 mask, bool wr, bool atomic, uptr pc) {
  Cell* c = cell(a);
  if (!c) return;
  Fiber& me = g_f[g_cur];
  const int t = g_cur;
  if (c->w.clk && c->wtid != t && (c->wmask & mask) && c->w.clk > me.vc[c->wtid] && !(atomic && c->watomic))
    report_race(a, wr ? (atomic ? "atomic write" : "write") : (atomic ? "atomic read" : "read"), pc, c->watomic ? "atomic write" : "write", c->w.pc, c->wtid);
  if (wr) {
    for (int i = 0; i < MAXT; ++i)
      if (i != t && c->r[i].clk && (c->rmask[i] & mask) && c->r[i].clk > me.vc[i] && !(atomic && c->ratomic[i]))
        report_race(a, atomic ? "atomic write" : "write", pc, c->ratomic[i] ? "atomic read" : "read", c->r[i].pc, i);
    if (c->wtid == t && c->w.clk == me.vc[t]) { c->wmask |= mask; c->watomic &= atomic; }
    else { c->wmask = mask; c->watomic = atomic; }
    c->wtid = t;
    c->w.clk = me.vc[t];
    c->w.pc = (u32)pc;
  } else {
    if (c->r[t].clk == me.vc[t]) { c->rmask[t] |= mask; c->ratomic[t] &= atomic; }
    else { c->rmask[t] = mask; c->ratomic[t] = atomic; }
    c->r[t].clk = me.vc[t];
    c->r[t].pc = (u32)pc;
  }
}
static void race_range(uptr a, size_t n, bool wr, bool atomic, uptr pc) {
  uptr e = a + n;
  while (a < e) {
    uptr g = a & ~7ull;
    unsigned lo = a - g, hi = e - g < 8 ? (unsigned)(e - g) : 8;
    u8 mask = (u8)(((1u << hi) - 1) & ~((1u << lo) - 1));
    race_granule(g, mask, wr, atomic, pc);
    a = g + 8;
  }
}
static void race_write_range(uptr a, size_t n, uptr pc) { race_range(a, n, true, false, pc); }

static void bad_access(uptr a, size_t n, bool wr, uptr pc) {
  char d[256];
  describe(a, d, sizeof d);
  u8 s = *ash(a);
  fail("memory", "%s of %lu bytes at 0x%lx by 0x%lx: %s; %s", wr ? "write" : "read", (unsigned long)n, (unsigned long)a, (unsigned long)pc,
       s == ST_FREED ? "use after free" : s == ST_RZ ? "out of bounds" : "outside of any allocation or partly outside", d);
}
static inline void mem_check(uptr a, size_t n, bool wr, uptr pc) {
  if (!in_arena(a)) return;
  uptr e = a + n;
  while (a < e) {
    u8 s = *ash(a);
    unsigned lo = a & 7;
    uptr g = a & ~7ull;
    unsigned hi = e - g < 8 ? (unsigned)(e - g) : 8;
    if (__builtin_expect(s != 8 && (s > 8 || s < hi || s == 0), 0)) bad_access(a, n, wr, pc);
    (void)lo;
    a = g + 8;
  }
}
static inline void on_access(uptr a, size_t n, bool wr, uptr pc) {
  if (!g_in_run || g_dead) return;
  if (a < 4096) return; // the fault comes by itself
  const bool heap = in_arena(a);
  if (!heap && a - gbase >= gsize) return;
  if (heap) mem_check(a, n, wr, pc);
  if (g_conc && !g_quiet) {
    step_access();
    if (heap) mem_check(a, n, wr, pc);
    race_range(a, n, wr, false, pc);
  }
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  Fiber& me = g_f[g_cur];
  if (me.depth < 512) me.callstk[me.depth] = (uptr)pc;
  me.depth++;
}
void __tsan_func_exit() { if (g_f[g_cur].depth > 0) g_f[g_cur].depth--; }
#define RW(n)                                                                                                          \
  void __tsan_read##n(void* p) { on_access((uptr)p, n, false, PC); }                                                   \
  void __tsan_write##n(void* p) { on_access((uptr)p, n, true, PC); }                                                   \
  void __tsan_unaligned_read##n(void* p) { on_access((uptr)p, n, false, PC); }                                         \
  void __tsan_unaligned_write##n(void* p) { on_access((uptr)p, n, true, PC); }                                         \
  void __tsan_read_write##n(void* p) { on_access((uptr)p, n, false, PC); on_access((uptr)p, n, true, PC); }            \
  void __tsan_unaligned_read_write##n(void* p) { on_access((uptr)p, n, false, PC); on_access((uptr)p, n, true, PC); }  \
  void __tsan_volatile_read##n(void* p) { on_access((uptr)p, n, false, PC); }                                          \
  void __tsan_volatile_write##n(void* p) { on_access((uptr)p, n, true, PC); }                                          \
  void __tsan_unaligned_volatile_read##n(void* p) { on_access((uptr)p, n, false, PC); }                                \
  void __tsan_unaligned_volatile_write##n(void* p) { on_access((uptr)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) on_access((uptr)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { on_access((uptr)p, 8, false, PC); }
void __tsan_read_range(void* p, size_t n) { on_access((uptr)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { on_access((uptr)p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (n) { on_access((uptr)s, n, false, PC); on_access((uptr)d, n, true, PC); }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (n) { on_access((uptr)s, n, false, PC); on_access((uptr)d, n, true, PC); }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  if (n) on_access((uptr)d, n, true, PC);
  return memset(d, c, n);
}
// ---- atomics: sequentially consistent execution; happens-before by the stated order
static inline void at_pre(uptr a, size_t n, bool wr, uptr pc) {
  if (!g_in_run || g_dead) return;
  if (in_arena(a)) mem_check(a, n, wr, pc);
  if (g_conc && !g_quiet) {
    step_sync();
    if (in_arena(a)) mem_check(a, n, wr, pc);
    race_range(a, n, wr, true, pc);
  }
}
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline void at_acq(uptr a, int mo) { if (g_in_run && (mo == 1 || mo == 2 || mo >= 4)) acquire(syncobj(a)); }
static inline void at_rel_rmw(uptr a, int mo) { if (g_in_run && mo >= 3) release_join(syncobj(a)); }
static inline void at_rel_store(uptr a, int mo) {
  if (!g_in_run) return;
  SyncObj& s = syncobj(a);
  if (mo >= 3) release_set(s);
  else memset(s.vc, 0, sizeof s.vc);
}
#define ATOMICS(bits, T)                                                                                               \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                                          \
    at_pre((uptr)a, sizeof(T), false, PC);                                                                             \
    at_acq((uptr)a, mo);                                                                                               \
    return *a;                                                                                                         \
  }                                                                                                                    \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                                       \
    at_pre((uptr)a, sizeof(T), true, PC);                                                                              \
    at_rel_store((uptr)a, mo);                                                                                         \
    *a = v;                                                                                                            \
  }                                                                                                                    \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                                       \
    at_pre((uptr)a, sizeof(T), true, PC);                                                                              \
    at_acq((uptr)a, mo);                                                                                               \
    at_rel_rmw((uptr)a, mo);                                                                                           \
    T o = *a;                                                                                                          \
    *a = v;                                                                                                            \
    return o;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {                       \
    at_pre((uptr)a, sizeof(T), true, PC);                                                                              \
    if (*a == *c) {                                                                                                    \
      at_acq((uptr)a, mo);                                                                                             \
      at_rel_rmw((uptr)a, mo);                                                                                         \
      *a = v;                                                                                                          \
      return 1;                                                                                                        \
    }                                                                                                                  \
    at_acq((uptr)a, fmo);                                                                                              \
    *c = *a;                                                                                                           \
    return 0;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {                         \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                                            \
  }                                                                                                                    \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                             \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);                                                  \
    return c;                                                                                                          \
  }
#define RMW(bits, T, name, expr)                                                                                       \
  T __tsan_atomic##bits##_fetch_##name(volatile T* a, T v, int mo) {                                                   \
    at_pre((uptr)a, sizeof(T), true, PC);                                                                              \
    at_acq((uptr)a, mo);                                                                                               \
    at_rel_rmw((uptr)a, mo);                                                                                           \
    T o = *a;                                                                                                          \
    *a = (T)(expr);                                                                                                    \
    return o;                                                                                                          \
  }
#define ALLAT(bits, T)                                                                                                 \
  ATOMICS(bits, T)                                                                                                     \
  RMW(bits, T, add, o + v) RMW(bits, T, sub, o - v) RMW(bits, T, and, o & v) RMW(bits, T, or, o | v)                   \
  RMW(bits, T, xor, o ^ v) RMW(bits, T, nand, ~(o & v))
ALLAT(8, uint8_t)
ALLAT(16, uint16_t)
ALLAT(32, uint32_t)
ALLAT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
  if (!g_in_run) return;
  step_sync();
  SyncObj& s = syncobj(8); // one global fence object: over-approximates happens-before
  acquire(s);
  release_join(s);
}
void __tsan_atomic_signal_fence(int) {}
void __tsan_acquire(void* a) { acquire(syncobj((uptr)a)); }
void __tsan_release(void* a) { release_join(syncobj((uptr)a)); }
void __tsan_ignore_thread_begin() { ++g_quiet; }
void __tsan_ignore_thread_end() { --g_quiet; }

// ---- pthread primitives (linked with --wrap)
int __real_pthread_mutex_lock(pthread_mutex_t*);
static bool recursive_kind(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static void obj_check(void* m, size_t n, uptr pc) { if (!g_dead && in_arena((uptr)m)) mem_check((uptr)m, n, true, pc); }

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!g_in_run || g_dead) return 0;
  obj_check(m, 8, PC);
  step_sync();
  obj_check(m, 8, PC);
  SyncObj& s = syncobj((uptr)m);
  for (;;) {
    if (s.owner < 0) break;
    if (s.owner == g_cur) {
      if (recursive_kind(m)) { s.count++; return 0; }
      fail("deadlock", "a simulated thread locks a mutex it already holds");
    }
    if (!g_conc) fail("deadlock", "mutex is left locked by a finished thread");
    block_on((uptr)m);
    obj_check(m, 8, PC);
  }
  s.owner = g_cur;
  s.count = 1;
  acquire(s);
  sync_event(1, s);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!g_in_run || g_dead) return 0;
  obj_check(m, 8, PC);
  step_sync();
  SyncObj& s = syncobj((uptr)m);
  if (s.owner >= 0) {
    if (s.owner == g_cur && recursive_kind(m)) { s.count++; return 0; }
    sync_event(2, s);
    // std::lock tries again and again: without end if a mutex is given to it twice
    if (++g_busy > 20000) fail("hang", "trying to lock the same mutexes again and again without success");
    return EBUSY;
  }
  s.owner = g_cur;
  s.count = 1;
  acquire(s);
  sync_event(1, s);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!g_in_run || g_dead) return 0;
  obj_check(m, 8, PC);
  SyncObj& s = syncobj((uptr)m);
  if (s.owner != g_cur) fail("mutex", "unlock of a mutex that this thread does not hold");
  if (--s.count > 0) return 0;
  s.owner = -1;
  release_set(s);
  wake_all((uptr)m);
  sync_event(3, s);
  step_sync();
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!g_in_run || g_dead) return 0;
  obj_check(m, 8, PC);
  step_sync();
  SyncObj& s = syncobj((uptr)m);
  while (s.owner >= 0) {
    if (s.owner == g_cur) fail("deadlock", "read lock while holding the write lock");
    block_on((uptr)m);
  }
  s.readers[g_cur]++;
  s.nreaders++;
  acquire(s);
  sync_event(4, s);
  return 0;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (!g_in_run || g_dead) return 0;
  step_sync();
  SyncObj& s = syncobj((uptr)m);
  if (s.owner >= 0) return EBUSY;
  s.readers[g_cur]++;
  s.nreaders++;
  acquire(s);
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!g_in_run || g_dead) return 0;
  obj_check(m, 8, PC);
  step_sync();
  SyncObj& s = syncobj((uptr)m);
  while (s.owner >= 0 || s.nreaders > 0) {
    if (s.owner == g_cur || s.readers[g_cur]) fail("deadlock", "write lock while already holding the lock");
    block_on((uptr)m);
  }
  s.owner = g_cur;
  acquire(s);
  sync_event(1, s);
  return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (!g_in_run || g_dead) return 0;
  step_sync();
  SyncObj& s = syncobj((uptr)m);
  if (s.owner >= 0 || s.nreaders > 0) return EBUSY;
  s.owner = g_cur;
  acquire(s);
  return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!g_in_run || g_dead) return 0;
  obj_check(m, 8, PC);
  SyncObj& s = syncobj((uptr)m);
  if (s.owner == g_cur) s.owner = -1;
  else if (s.readers[g_cur] > 0) { s.readers[g_cur]--; s.nreaders--; }
  else fail("mutex", "unlock of a lock that this thread does not hold");
  release_join(s);
  wake_all((uptr)m);
  sync_event(3, s);
  step_sync();
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!g_in_run || g_dead) return 0;
  __wrap_pthread_mutex_unlock(m);
  block_on((uptr)c);
  return __wrap_pthread_mutex_lock(m);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!g_in_run || g_dead) return 0;
  int n[MAXT], k = 0;
  for (int i = 0; i < MAXT; ++i)
    if (g_f[i].st == BLOCKED && g_f[i].waiting == (uptr)c) n[k++] = i;
  if (k) { int i = n[sim::choose(sim::B, k)]; g_f[i].st = RUNNABLE; g_f[i].waiting = 0; }
  step_sync();
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!g_in_run || g_dead) return 0;
  wake_all((uptr)c);
  step_sync();
  return 0;
}
int __wrap_pthread_once(pthread_once_t* o, void (*fn)()) {
  // phases are kept here, so that executions forked from one process agree
  if (!g_in_run) {
    if (*(int*)o == 0) { *(int*)o = 2; fn(); }
    return 0;
  }
  SyncObj& s = syncobj((uptr)o);
  if (*(int*)o == 2) { acquire(s); step_sync(); return 0; }
  while (s.phase == 1) block_on((uptr)o);
  if (*(int*)o == 2) { acquire(s); return 0; }
  s.phase = 1;
  try { fn(); } catch (...) { s.phase = 0; wake_all((uptr)o); throw; }
  *(int*)o = 2;
  s.phase = 2;
  release_join(s);
  wake_all((uptr)o);
  step_sync();
  return 0;
}
int __wrap___cxa_guard_acquire(u64* g) {
  if (*(u8*)g) { if (g_in_run) acquire(syncobj((uptr)g)); return 0; }
  if (!g_in_run) return 1;
  SyncObj& s = syncobj((uptr)g);
  step_sync();
  while (s.phase == 1) {
    if (s.owner == g_cur) fail("deadlock", "recursive initialisation of a static local variable");
    block_on((uptr)g);
  }
  if (*(u8*)g) { acquire(s); return 0; }
  s.phase = 1;
  s.owner = g_cur;
  return 1;
}
void __wrap___cxa_guard_release(u64* g) {
  *(u8*)g = 1;
  if (!g_in_run) return;
  SyncObj& s = syncobj((uptr)g);
  s.phase = 2;
  s.owner = -1;
  release_set(s);
  wake_all((uptr)g);
  step_sync();
}
void __wrap___cxa_guard_abort(u64* g) {
  if (!g_in_run) return;
  SyncObj& s = syncobj((uptr)g);
  s.phase = 0;
  s.owner = -1;
  wake_all((uptr)g);
}
int __wrap_sched_yield() { step_sync(); return 0; }

// ---- functions of the C and C++ libraries that touch memory of the code under test
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (g_in_run && n) { on_access((uptr)a, n, false, PC); on_access((uptr)b, n, false, PC); }
  return __real_memcmp(a, b, n);
}
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) {
  size_t n = __real_strlen(s);
  if (g_in_run) on_access((uptr)s, n + 1, false, PC);
  return n;
}
}
namespace std {
struct _Rb_tree_node_base;
} // namespace std
#define RBI _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
extern "C" {
#define WRAPN(x) __wrap_##x
#define REALN(x) __real_##x
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h) {
  on_access((uptr)x, 32, true, PC);
  on_access((uptr)p, 32, true, PC);
  on_access((uptr)h, 32, true, PC);
  __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
void* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void*, void*);
void* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* h) {
  on_access((uptr)z, 32, true, PC);
  on_access((uptr)h, 32, true, PC);
  return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}
#define RBSTEP(sym)                                                                                                    \
  void* __real_##sym(void*);                                                                                           \
  void* __wrap_##sym(void* x) {                                                                                        \
    on_access((uptr)x, 32, false, PC);                                                                                 \
    void* r = __real_##sym(x);                                                                                         \
    on_access((uptr)r, 32, false, PC);                                                                                 \
    return r;                                                                                                          \
  }
RBSTEP(_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base)
RBSTEP(_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base)
RBSTEP(_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base)
RBSTEP(_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base)
// std::__detail::_Prime_rehash_policy::_M_need_rehash(size_t,size_t,size_t) const -> pair<bool,size_t>
struct PairBS { u64 a, b; };
PairBS __real__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(void*, size_t, size_t, size_t);
PairBS __wrap__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(void* p, size_t a, size_t b, size_t c) {
  on_access((uptr)p + 8, 8, true, PC);
  return __real__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(p, a, b, c);
}
size_t __real__ZSt11_Hash_bytesPKvmm(const void*, size_t, size_t);
size_t __wrap__ZSt11_Hash_bytesPKvmm(const void* p, size_t n, size_t s) {
  if (n) on_access((uptr)p, n, false, PC);
  return __real__ZSt11_Hash_bytesPKvmm(p, n, s);
}
}

// ---------------------------------------------------------------- leak check
struct LeakCtx { std::unordered_set<uptr>* dummy; };
static void leak_check() {
  // candidates: live blocks of this execution; roots: static storage and older blocks
  struct Blk { uptr p, n; bool marked; };
  std::vector<Blk> bl;
  g_in_run = false;
  // walk the arena by scanning headers
  std::vector<uptr> roots;
  if (g_place != 2) { g_reg[0] = {g_run_start, ARENA + ARENA_SZ, g_brk}; g_nreg = 1; }
  for (int ri = -1; ri < g_nreg; ++ri)
  for (uptr q = ri < 0 ? ARENA + 4096 : g_reg[ri].start, top = ri < 0 ? g_pre_brk : g_reg[ri].brk; q + sizeof(BlkHdr) <= top;) {
    BlkHdr* h = (BlkHdr*)q;
    if (h->magic == MAGIC || h->magic == MAGIC_FREE) {
      uptr u = q + sizeof(BlkHdr);
      if (*ash(q) == ST_RZ && (*ash(u) != ST_RZ || h->size == 0)) {
        if (h->magic == MAGIC) {
          if (u >= g_run_start) bl.push_back({u, std::max<uptr>(h->size, 1), false});
          else roots.push_back(u);
        }
        q = u + ((h->size + 15) & ~15ull);
        continue;
      }
    }
    q += 16;
  }
  if (bl.empty()) return;
  std::vector<size_t> work;
  auto mark = [&](uptr v) {
    if (v < g_run_start || v >= ARENA + ARENA_SZ) return;
    size_t lo = 0, hi = bl.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (bl[m].p <= v) lo = m + 1; else hi = m; }
    if (!lo) return;
    Blk& b = bl[lo - 1];
    if (v < b.p + b.n + 1 && !b.marked) { b.marked = true; work.push_back(lo - 1); }
  };
  auto scan = [&](uptr p, uptr n) { for (uptr q = (p + 7) & ~7ull; q + 8 <= p + n; q += 8) mark(*(uptr*)q); };
  scan(gbase, gsize);
  if (g_tls) scan((uptr)g_tls, g_tlssz);
  for (uptr r : roots) scan(r, hdr((void*)r)->size);
  while (!work.empty()) { size_t i = work.back(); work.pop_back(); scan(bl[i].p, bl[i].n); }
  u64 n = 0, bytes = 0;
  BlkHdr* first = nullptr;
  for (auto& b : bl)
    if (!b.marked) { ++n; bytes += b.n; if (!first) first = hdr((void*)b.p); }
  if (n) fail("leak", "%lu blocks (%lu bytes) are leaked; the first is #%u, %lu bytes, allocated by 0x%x", (unsigned long)n, (unsigned long)bytes, first->seq,
              (unsigned long)first->size, first->pc_alloc);
}

// ---------------------------------------------------------------- workloads and driver
namespace {
struct Reg { const char* name; void (*fn)(); };
Reg g_regs[128];
int g_nregs = 0;
} // namespace
namespace sim {
Workload::Workload(const char* name, void (*fn)()) { g_regs[g_nregs++] = {name, fn}; }
} // namespace sim

static void on_signal(int sig, siginfo_t* si, void* ctx) {
  if (g_dead) _exit(3);
  ucontext_t* uc = (ucontext_t*)ctx;
  signal(sig, SIG_DFL);
  fail("crash", "signal %d (%s), fault address %p, at 0x%llx", sig, strsignal(sig), si->si_addr, (unsigned long long)uc->uc_mcontext.gregs[REG_RIP]);
}
static void on_terminate() {
  const char* what = "no exception";
  static char buf[512];
  if (std::current_exception()) {
    try { throw; }
    catch (const std::exception& e) { snprintf(buf, sizeof buf, "%s", e.what()); what = buf; }
    catch (...) { what = "unknown exception"; }
  }
  fail("terminate", "std::terminate: %s", what);
}

static std::vector<u32> g_streams[sim::NSTREAMS];

/// executes one run in a forked child
static void child_main(void (*fn)(), u64 seed, bool replay) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  static u8 alt[65536];
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  g_replay = replay;
  for (int i = 0; i < sim::NSTREAMS; ++i) {
    g_rep[i] = g_streams[i].data(); g_repn[i] = g_streams[i].size(); g_reppos[i] = 0;
    u64 x = seed * 4 + i; splitmix(x);
    g_rng[i] = splitmix(x) ^ (u64)(i + 1) * 0x9E3779B97F4A7C15ull;
  }
  u64 m = seed ^ 0xABCDEF; 
  g_gapmode = splitmix(m);
  memset(g_f[0].vc, 0, sizeof g_f[0].vc);
  for (int i = 0; i < MAXT; ++i) { memset(g_f[i].vc, 0, sizeof g_f[i].vc); g_f[i].vc[i] = 1; g_f[i].st = FREE_; g_f[i].depth = 0; }
  g_f[0].st = RUNNABLE;
  g_cur = 0; g_live = 1; g_steps = 0; g_conc = false; g_quiet = 0;
  // the same addresses in every execution, whatever the harness has allocated
  if (g_brk > ARENA + ARENA_SZ / 4) { fprintf(stderr, "harness memory exhausted\n"); _exit(3); }
  g_pre_brk = g_brk;
  g_brk = ARENA + ARENA_SZ / 4;
  g_run_start = g_brk;
  g_alloc_seq = 0;
  const u32 place = sim::w(64);
  g_place = place < 32 ? 0 : place < 48 ? 1 : 2;
  g_placerng = place * 0x9E3779B97F4A7C15ull;
  if (g_place == 2) {
    const uptr len = (ARENA_SZ - ARENA_SZ / 4) / 8;
    for (int i = 0; i < 6; ++i) { // the first one takes what does not fit elsewhere
      uptr at = g_run_start + (i ? i + 2 : 0) * len;
      g_reg[g_nreg++] = {at, at + (i ? 1 : 3) * len, at};
    }
  }
  if (g_place) sim::count(g_place == 1 ? "memory: reused" : "memory: reused and scattered");
  g_in_run = true;
  try {
    fn();
  } catch (const std::exception& e) {
    fail("uncaught", "exception leaves the simulated main thread: %s", e.what());
  }
  if (g_conc) fail("harness", "threads left");
  leak_check();
  sim::finish_stats();
  R->status = 1;
  _exit(0);
}

static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void run_one(void (*fn)(), u64 seed, bool replay, bool trace) {
  // reset header part of the shared result
  memset((void*)R, 0, offsetof(Result, ch));
  R->loglen = 0;
  g_trace = trace;
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) child_main(fn, seed, replay);
  int st = 0;
  double t0 = now_s();
  // poll with a generous wall clock limit (a harness error, never a verdict by itself)
  for (int i = 0;; ++i) {
    pid_t r = waitpid(p, &st, i < 50000 ? WNOHANG : WNOHANG);
    if (r == p) break;
    if (i > 200) { timespec ts{0, 50000}; nanosleep(&ts, nullptr); } else sched_yield();
    if (now_s() - t0 > 120) { kill(p, SIGKILL); waitpid(p, &st, 0); snprintf(R->kind, sizeof R->kind, "hang"); snprintf(R->msg, sizeof R->msg, "wall clock limit of 120 s for one execution"); R->status = 2; return; }
  }
  if (R->status == 0) {
    snprintf(R->kind, sizeof R->kind, "crash");
    snprintf(R->msg, sizeof R->msg, "the simulated process ended with wait status 0x%x without a report", st);
    R->status = 2;
  }
}

// signature: kind + message without numbers
static std::string sig_of() {
  std::string s = R->kind;
  s += "|";
  const char* m = R->msg;
  for (; *m && *m != '\n'; ++m) {
    if (*m == '0' && m[1] == 'x') { m += 2; while (isxdigit(*m)) ++m; --m; s += 'X'; continue; }
    if (isdigit((unsigned char)*m)) { if (s.back() != '#') s += '#'; continue; }
    s += *m;
  }
  return s;
}
static void save_streams() {
  for (int i = 0; i < sim::NSTREAMS; ++i) g_streams[i].assign(R->ch[i], R->ch[i] + std::min<u32>(R->nch[i], MAXCHOICE));
}
static bool truncated() {
  for (int i = 0; i < sim::NSTREAMS; ++i) if (R->nch[i] > MAXCHOICE) return true;
  return false;
}
static bool still(void (*fn)(), const std::string& kind) {
  run_one(fn, 0, true, false);
  return R->status == 2 && kind == R->kind;
}
static void shrink(void (*fn)(), double budget) {
  std::string kind = R->kind;
  double end = now_s() + budget;
  auto attempt = [&](std::vector<u32> (&cand)[sim::NSTREAMS]) {
    std::vector<u32> old[sim::NSTREAMS];
    for (int i = 0; i < sim::NSTREAMS; ++i) { old[i] = g_streams[i]; g_streams[i] = cand[i]; }
    if (still(fn, kind)) { 
      // keep only what was consumed
      for (int i = 0; i < sim::NSTREAMS; ++i) if (g_streams[i].size() > R->nch[i]) g_streams[i].resize(R->nch[i]);
      return true; 
    }
    for (int i = 0; i < sim::NSTREAMS; ++i) g_streams[i] = old[i];
    return false;
  };
  bool progress = true;
  while (progress && now_s() < end) {
    progress = false;
    const int order[] = {sim::S, sim::F, sim::W, sim::B};
    for (int s : order) {
      // delete chunks
      for (size_t len = std::max<size_t>(1, g_streams[s].size() / 2); len >= 1 && now_s() < end; len /= 2) {
        for (size_t i = 0; i + len <= g_streams[s].size() && now_s() < end;) {
          std::vector<u32> c[sim::NSTREAMS];
          for (int k = 0; k < sim::NSTREAMS; ++k) c[k] = g_streams[k];
          c[s].erase(c[s].begin() + i, c[s].begin() + i + len);
          if (attempt(c)) { progress = true; continue; }
          // zero the chunk
          bool nz = false;
          for (int k = 0; k < sim::NSTREAMS; ++k) c[k] = g_streams[k];
          for (size_t j = i; j < i + len; ++j) { nz |= c[s][j] != 0; c[s][j] = 0; }
          if (nz && attempt(c)) progress = true;
          i += len;
        }
        if (len == 1) break;
      }
      // reduce single values
      for (size_t i = 0; i < g_streams[s].size() && now_s() < end; ++i) {
        while (g_streams[s].size() > i && g_streams[s][i] > 1 && now_s() < end) {
          std::vector<u32> c[sim::NSTREAMS];
          for (int k = 0; k < sim::NSTREAMS; ++k) c[k] = g_streams[k];
          c[s][i] /= 2;
          if (!attempt(c)) break;
          progress = true;
        }
      }
    }
  }
  run_one(fn, 0, true, true);
}

static std::string jstr(const char* s) {
  std::string o = "\"";
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static void write_violation(FILE* f, const char* wl, u64 seed, bool known_seed) {
  fprintf(f, "{\"workload\": \"%s\", \"seed\": %llu, \"kind\": %s, \"signature\": %s, \"message\": %s,\n", wl, (unsigned long long)seed, jstr(R->kind).c_str(),
          jstr(sig_of().c_str()).c_str(), jstr(R->msg).c_str());
  fprintf(f, "\"streams\": [");
  for (int i = 0; i < sim::NSTREAMS; ++i) {
    fprintf(f, "%s[", i ? "," : "");
    for (size_t k = 0; k < g_streams[i].size(); ++k) fprintf(f, "%s%u", k ? "," : "", g_streams[i][k]);
    fprintf(f, "]");
  }
  R->log[std::min<size_t>(R->loglen, sizeof R->log - 1)] = 0;
  fprintf(f, "],\n\"steps\": %llu, \"switches\": %llu, \"trace\": %s}", (unsigned long long)R->steps, (unsigned long long)R->switches, jstr(R->log).c_str());
  (void)known_seed;
}

struct Shared {
  std::atomic<u64> next;
  std::atomic<int> stop;
  std::atomic<int> nviol;
};

struct WorkerOut { // per worker aggregate, written to a file as JSON
};

int main(int argc, char** argv) {
  __libc_single_threaded = 0;
  arena_init();
  dl_iterate_phdr(
      [](dl_phdr_info* i, size_t, void*) -> int {
        for (int k = 0; k < i->dlpi_phnum; ++k)
          if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
            g_tls = (u8*)i->dlpi_tls_data;
            g_tlssz = i->dlpi_phdr[k].p_memsz;
          }
        return 0;
      },
      nullptr);
  if (g_tlssz > sizeof(g_tls0)) { fprintf(stderr, "TLS too big: %zu\n", g_tlssz); return 3; }
  if (g_tls) memcpy(g_tls0, g_tls, g_tlssz);
  R = (Result*)mmap((void*)SHM, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);

  std::string wl, replay, outf;
  u64 seed = 1, cnt = 100;
  int jobs = 8;
  double budget = 1e9, shrinkb = 20;
  bool list = false, exact = false;
  std::vector<std::string> ignore; // signatures (substrings) that are known
  u64 maxviol = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--workload") wl = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--count") cnt = strtoull(val().c_str(), 0, 10);
    else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--shrink") shrinkb = atof(val().c_str());
    else if (a == "--out") outf = val();
    else if (a == "--replay") replay = val();
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--maxviol") maxviol = strtoull(val().c_str(), 0, 10);
    else if (a == "--maxsteps") g_maxsteps = strtoull(val().c_str(), 0, 10);
    else if (a == "--exact") { seed = strtoull(val().c_str(), 0, 10); exact = true; }
    else if (a == "--list") list = true;
    else if (a == "--one") { cnt = 1; jobs = 1; g_trace = true; }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  if (list) { for (int i = 0; i < g_nregs; ++i) puts(g_regs[i].name); return 0; }
  void (*fn)() = nullptr;
  for (int i = 0; i < g_nregs; ++i) if (wl == g_regs[i].name) fn = g_regs[i].fn;
  if (!fn) { fprintf(stderr, "unknown workload %s\n", wl.c_str()); return 3; }

  if (!replay.empty() || exact) {
    // four lines of numbers, or the seed alone
    FILE* f = exact ? nullptr : fopen(replay.c_str(), "r");
    if (!f && !exact) { perror("replay"); return 3; }
    for (int i = 0; f && i < sim::NSTREAMS; ++i) {
      long n = 0;
      if (fscanf(f, "%ld", &n) != 1) return 3;
      for (long k = 0; k < n; ++k) { unsigned v; if (fscanf(f, "%u", &v) != 1) return 3; g_streams[i].push_back(v); }
    }
    if (f) fclose(f);
    run_one(fn, exact ? seed : 0, !exact, true);
    FILE* o = outf.empty() ? stdout : fopen(outf.c_str(), "w");
    if (R->status == 2) { write_violation(o, wl.c_str(), 0, false); fputc('\n', o); }
    else fprintf(o, "{\"workload\": \"%s\", \"kind\": \"none\"}\n", wl.c_str());
    if (o != stdout) fclose(o);
    return R->status == 2 ? 1 : 0;
  }
  if (g_trace) {
    run_one(fn, seed, false, true);
    R->log[std::min<size_t>(R->loglen, sizeof R->log - 1)] = 0;
    printf("%s\nstatus %d kind %s\n%s\nsteps %llu switches %llu allocs %llu\n", R->log, R->status, R->kind, R->msg, (unsigned long long)R->steps,
           (unsigned long long)R->switches, (unsigned long long)R->allocs);
    for (int i = 0; i < R->nctr; ++i) printf("  %s %llu\n", R->ctr[i].name, (unsigned long long)R->ctr[i].n);
    return R->status == 2;
  }

  Shared* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared{};
  double t0 = now_s();
  std::vector<pid_t> kids;
  std::string base = outf.empty() ? "/tmp/simout" : outf;
  for (int j = 0; j < jobs; ++j) {
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      munmap(R, sizeof(Result));
      R = (Result*)mmap((void*)SHM, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
      std::string fnm = base + "." + std::to_string(j);
      FILE* o = fopen(fnm.c_str(), "w");
      u64 twice = 0, differ = 0, runs = 0, steps = 0, sw = 0, syncs = 0, nontriv = 0, threads = 0, allocs = 0, events = 0;
      std::map<std::string, u64> ctr;
      std::unordered_set<u64> il, stt;
      std::vector<std::string> viols;
      std::string sample;
      for (;;) {
        if (sh->stop.load() || now_s() - t0 > budget) break;
        u64 i = sh->next.fetch_add(1);
        if (i >= cnt) break;
        u64 sd = seed * 1000003ull + i;
        run_one(fn, sd, false, runs == 0 && j == 0);
        ++runs;
        if (i % 64 == 5 && R->status == 1) { // one seed is one execution: look at some twice
          u64 a[] = {R->steps, R->switches, R->ilhash, R->statehash, R->allocs, R->events};
          run_one(fn, sd, false, false);
          ++twice;
          u64 b[] = {R->steps, R->switches, R->ilhash, R->statehash, R->allocs, R->events};
          if (R->status != 1 || memcmp(a, b, sizeof a)) ++differ;
        }
        steps += R->steps; sw += R->switches; syncs += R->syncs; nontriv += R->nontriv; threads += R->threads; allocs += R->allocs; events += R->events;
        if (R->nontriv) il.insert(R->ilhash ^ R->statehash * 31);
        stt.insert(R->statehash);
        for (int k = 0; k < R->nctr; ++k) ctr[R->ctr[k].name] += R->ctr[k].n;
        if (runs == 1 && j == 0) { R->log[std::min<size_t>(R->loglen, 1500)] = 0; sample = R->log; }
        if (R->status == 2) {
          if (sh->nviol.fetch_add(1) >= (int)maxviol) { sh->stop = 1; break; }
          bool trunc = truncated();
          std::string sig0 = sig_of(), msg0 = R->msg, kind0 = R->kind;
          save_streams();
          // gate 1: the recorded choices reproduce it in a fresh execution
          int repro = 0;
          if (!trunc) {
            run_one(fn, 0, true, false);
            repro = R->status == 2 && kind0 == R->kind;
            if (repro) shrink(fn, shrinkb);
          }
          FILE* v = fopen((base + ".viol." + std::to_string(sd)).c_str(), "w");
          fprintf(v, "{\"reproduced\": %d, \"original_message\": %s, \"v\": ", repro, jstr(msg0.c_str()).c_str());
          write_violation(v, wl.c_str(), sd, true);
          fprintf(v, "}\n");
          fclose(v);
          viols.push_back(std::to_string(sd));
          if (sh->nviol.load() >= (int)maxviol) { sh->stop = 1; break; }
        } else if (R->status == 3) { fprintf(stderr, "harness error: %s %s\n", R->kind, R->msg); _exit(3); }
      }
      fprintf(o, "{\"runs\": %llu, \"steps\": %llu, \"switches\": %llu, \"syncs\": %llu, \"nontrivial\": %llu, \"threads\": %llu, \"allocs\": %llu, \"events\": %llu, \"sample\": %s, \"counters\": {",
              (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)syncs, (unsigned long long)nontriv, (unsigned long long)threads,
              (unsigned long long)allocs, (unsigned long long)events, jstr(sample.c_str()).c_str());
      bool first = true;
      for (auto& [k, v] : ctr) { fprintf(o, "%s\"%s\": %llu", first ? "" : ", ", k.c_str(), (unsigned long long)v); first = false; }
      fprintf(o, "}, \"violations\": [");
      for (size_t k = 0; k < viols.size(); ++k) fprintf(o, "%s%s", k ? "," : "", viols[k].c_str());
      fprintf(o, "], \"il\": [");
      first = true;
      for (u64 h : il) { fprintf(o, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
      fprintf(o, "], \"states\": %zu, \"twice\": %llu, \"differ\": %llu}\n", stt.size(), (unsigned long long)twice, (unsigned long long)differ);
      fclose(o);
      _exit(0);
    }
    kids.push_back(p);
  }
  int bad = 0;
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (st) bad = 1; }
  if (bad) { fprintf(stderr, "a worker failed\n"); return 3; }
  return 0;
}
