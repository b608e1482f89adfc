// Deterministic thread scheduler, happens-before race detector and heap-access checker.
// The code under test is compiled with -fsanitize=thread and linked against this file instead of the
// ThreadSanitizer runtime, so each of its memory accesses and atomic operations calls in here.
#ifdef SIM_SCHED
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include "core.hpp"
#include "sched.hpp"

extern "C" {
long __real_syscall(long, ...);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
void* __real_malloc(size_t);
extern char __data_start[];
extern char _end[];
}

namespace sim {
namespace {
constexpr int kMaxThreads = 12;
constexpr uintptr_t kArena = 0x200000000000ull;
constexpr size_t kArenaSize = 1ull << 30;
constexpr uintptr_t kValid = 0x210000000000ull;   // one byte per granule: 0 = not addressable, n = first n bytes
constexpr uintptr_t kShadow = 0x220000000000ull;  // cells of the arena
constexpr uintptr_t kShadowData = 0x240000000000ull;
constexpr int kSlots = 4;

struct Slot {
  uint32_t clock;  // 0 = empty
  uint8_t tid;
  uint8_t mask;
  uint8_t flags;  // 1 write, 2 atomic
  uint8_t pad;
  uint32_t pc;
};
struct Cell {
  Slot s[kSlots];
};

struct VC {
  uint32_t c[kMaxThreads];
};

enum State { UNUSED, RUNNABLE, BLOCKED, DONE };
struct Thread {
  State state = UNUSED;
  int go = 0;
  pthread_t pt{};
  void (*fn)(void*) = nullptr;
  void* arg = nullptr;
  VC vc{};
  uintptr_t wait_addr = 0;
  int wait_kind = 0;
  int64_t prio = 0;
  bool joined = false;
  uint32_t atomics = 0;  // consecutive atomic reads (spinning)
};

Thread g_t[kMaxThreads];
int g_nthreads = 0;
bool g_active = false;
int g_cur = 0;
thread_local int t_self = -1;
pthread_key_t g_key;

uint64_t g_steps = 0, g_switches = 0, g_seq = 0, g_hash = 1469598103934665603ull;
uint64_t g_step_cap = 400'000'000ull;

// policy
enum Mode { RANDOM, PCT, EXPLICIT } g_mode = RANDOM;
Rng g_rng(1);
uint64_t g_tick_seed = 0;
double g_tick_chance = 0, g_tick_lo = 0, g_tick_hi = 0;
double g_mean = 100;
double g_sync_p = 0;  // chance of a switch at a lock, unlock or atomic operation, on top of the mean
uint64_t g_next_switch = 0;
constexpr int kMaxPoints = 4096;
struct Sw {
  uint64_t at;
  int to;
};
Sw* g_points = nullptr;  // explicit switches (sorted) or PCT change points
int g_npoints = 0, g_ip = 0;
int64_t g_low = -1;

char* g_rec = nullptr;
size_t g_rec_n = 0, g_rec_cap = 60000;
bool g_rec_full = false;

uintptr_t g_bump = kArena;
bool g_arena_ready = false;
bool g_child = false;
uintptr_t g_data_lo = 0, g_data_hi = 0;

void Raw(const char* s) {
  ssize_t r = ::write(2, s, __builtin_strlen(s));
  (void)r;
}
void MapAt(uintptr_t a, size_t n) {
  void* p = mmap(reinterpret_cast<void*>(a), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) {
    Raw("sched: cannot map arena\n");
    _exit(3);
  }
}
void InitArena() {
  if (g_arena_ready) return;
  g_arena_ready = true;
  MapAt(kArena, kArenaSize);
  MapAt(kValid, kArenaSize / 8);
  MapAt(kShadow, kArenaSize / 8 * sizeof(Cell));
  g_data_lo = reinterpret_cast<uintptr_t>(__data_start) & ~7ull;
  g_data_hi = (reinterpret_cast<uintptr_t>(_end) + 7) & ~7ull;
  MapAt(kShadowData, (g_data_hi - g_data_lo) / 8 * sizeof(Cell) + 4096);
}

void FutexWait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) __real_syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
void FutexWake(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  __real_syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void Record(int to) {
  g_hash = HashU(g_steps * 16 + static_cast<uint64_t>(to), g_hash);
  if (!g_rec || g_rec_full) return;
  char b[40];
  const int n = snprintf(b, sizeof b, "%s%lu:%d", g_rec_n ? "," : "", static_cast<unsigned long>(g_steps), to);
  if (g_rec_n + static_cast<size_t>(n) + 1 >= g_rec_cap) {
    g_rec_full = true;
    g_rec_n = 0;
    g_rec[0] = 0;
    return;
  }
  memcpy(g_rec + g_rec_n, b, static_cast<size_t>(n) + 1);
  g_rec_n += static_cast<size_t>(n);
}

uint64_t Mix(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

// Simulated time passes while another thread runs.
void Tick() {
  if (g_tick_chance <= 0) return;
  Rng r(Mix(g_tick_seed ^ (g_steps * 0x9E3779B97F4A7C15ull)));
  if (r.chance(g_tick_chance)) AdvanceTime(static_cast<int64_t>(r.log10uni(g_tick_lo, g_tick_hi)));
}

void SwitchTo(int to) {
  if (to == g_cur) return;
  const int me = g_cur;
  Record(to);
  g_switches++;
  Tick();
  g_cur = to;
  FutexWake(&g_t[to].go);
  if (g_t[me].state != DONE) FutexWait(&g_t[me].go);
}

int PickRunnable(int exclude) {
  int cand[kMaxThreads], n = 0;
  for (int i = 0; i < g_nthreads; ++i)
    if (i != exclude && g_t[i].state == RUNNABLE) cand[n++] = i;
  if (!n) return -1;
  if (g_mode == PCT) {
    int best = cand[0];
    for (int i = 1; i < n; ++i)
      if (g_t[cand[i]].prio > g_t[best].prio) best = cand[i];
    return best;
  }
  if (g_mode == EXPLICIT) return cand[0];
  return cand[g_rng.below(static_cast<uint64_t>(n))];
}

int ExplicitAt() {
  while (g_ip < g_npoints && g_points[g_ip].at < g_steps) g_ip++;
  if (g_ip < g_npoints && g_points[g_ip].at == g_steps) return g_points[g_ip++].to;
  return -1;
}

// The current thread cannot continue.
void BlockAndSwitch() {
  g_steps++;
  int to = -1;
  if (g_mode == EXPLICIT) {
    to = ExplicitAt();
    if (to >= 0 && (to >= g_nthreads || g_t[to].state != RUNNABLE)) to = -1;
  }
  if (to < 0) to = PickRunnable(g_cur);
  if (to < 0) {
    if (g_t[g_cur].state == RUNNABLE) return;
    Violation("deadlock", "no thread can run: every live thread waits for a lock another one holds");
  }
  SwitchTo(to);
}

void Step(bool force) {
  g_steps++;
  if (g_steps > g_step_cap) Violation("hang", "no end after %lu scheduling steps", static_cast<unsigned long>(g_steps));
  int to = -1;
  if (force) {
    to = g_mode == EXPLICIT ? ExplicitAt() : -1;
    if (to < 0 || to >= g_nthreads || g_t[to].state != RUNNABLE) {
      if (g_mode == PCT) g_t[g_cur].prio = g_low--;
      to = PickRunnable(g_cur);
    }
  } else if (g_mode == RANDOM) {
    if (g_steps < g_next_switch) return;
    const double u = g_rng.u01();
    g_next_switch = g_steps + 1 + static_cast<uint64_t>(-g_mean * __builtin_log(1.0 - u));
    to = PickRunnable(g_cur);
  } else if (g_mode == PCT) {
    if (g_ip < g_npoints && g_points[g_ip].at <= g_steps) {
      g_ip++;
      g_t[g_cur].prio = g_low--;
      to = PickRunnable(-1);
    } else {
      return;
    }
  } else {
    to = ExplicitAt();
  }
  if (to < 0 || to == g_cur || to >= g_nthreads || g_t[to].state != RUNNABLE) return;
  SwitchTo(to);
}

void Nudge() {
  if (g_sync_p > 0 && g_mode == RANDOM && g_rng.chance(g_sync_p)) g_next_switch = g_steps + 1;
}

inline bool On() { return g_active && LibDepth() > 0; }

// ---------------------------------------------------------------- synchronization objects
struct Sync {
  uintptr_t addr;
  VC vc;
  int owner;    // mutex / write lock / guard in progress: sim tid + 1
  int readers;
  int depth;
  bool done;    // once / guard
};
constexpr int kMaxSync = 1 << 14;
Sync* g_sync = nullptr;
Sync* SyncOf(uintptr_t a) {
  if (!g_sync) {
    g_sync = static_cast<Sync*>(mmap(nullptr, sizeof(Sync) * kMaxSync, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  size_t h = static_cast<size_t>(Mix(a)) & (kMaxSync - 1);
  for (int k = 0; k < kMaxSync; ++k) {
    Sync* s = &g_sync[(h + static_cast<size_t>(k)) & (kMaxSync - 1)];
    if (s->addr == a) return s;
    if (s->addr == 0) {
      s->addr = a;
      return s;
    }
  }
  HarnessError("too many synchronization objects");
}
void Join(VC* a, const VC& b) {
  for (int i = 0; i < kMaxThreads; ++i)
    if (b.c[i] > a->c[i]) a->c[i] = b.c[i];
}
void Acquire(Sync* s) { Join(&g_t[g_cur].vc, s->vc); }
void Release(Sync* s) {
  Join(&s->vc, g_t[g_cur].vc);
  g_t[g_cur].vc.c[g_cur]++;
}
void Wait(uintptr_t addr) {
  Thread& me = g_t[g_cur];
  me.state = BLOCKED;
  me.wait_addr = addr;
  BlockAndSwitch();
}
void WakeAll(uintptr_t addr) {
  for (int i = 0; i < g_nthreads; ++i)
    if (g_t[i].state == BLOCKED && g_t[i].wait_addr == addr) {
      g_t[i].state = RUNNABLE;
      g_t[i].wait_addr = 0;
    }
}

// ---------------------------------------------------------------- memory accesses
void Describe(char* buf, size_t n, uintptr_t a) {
  if (a - kArena < kArenaSize)
    snprintf(buf, n, "heap memory");
  else
    snprintf(buf, n, "static memory at 0x%lx", static_cast<unsigned long>(a));
}

bool g_alone = false;  // every other thread has been joined: nothing can race any more

inline void CheckCell(Cell* cell, uintptr_t a, uint8_t mask, uint8_t flags, uint32_t pc) {
  if (g_alone) return;
  const Thread& me = g_t[g_cur];
  {
    const Slot& f = cell->s[0];
    if (f.clock == me.vc.c[g_cur] && f.tid == g_cur && f.flags == flags && !(mask & ~f.mask) && !cell->s[1].clock) return;
  }
  int free_slot = -1, same = -1;
  for (int i = 0; i < kSlots; ++i) {
    Slot& s = cell->s[i];
    if (!s.clock) {
      if (free_slot < 0) free_slot = i;
      continue;
    }
    if (s.tid == g_cur) {
      if (s.flags == flags && (s.mask & ~mask) == 0) same = i;
      continue;
    }
    if ((s.mask & mask) && ((s.flags | flags) & 1) && !((s.flags & flags) & 2) && s.clock > me.vc.c[s.tid]) {
      char what[64];
      Describe(what, sizeof what, a);
      Violation("race", "data race on %s: %s by thread %d (pc 0x%x) is not ordered with %s by thread %d (pc 0x%x)", what,
                (flags & 1) ? "write" : "read", g_cur, pc, (s.flags & 1) ? "write" : "read", s.tid, s.pc);
    }
    if (s.clock <= me.vc.c[s.tid] && (s.mask & ~mask) == 0 && (flags & 1) && free_slot < 0) free_slot = i;
  }
  int k = same >= 0 ? same : free_slot;
  if (k < 0) {
    // prefer an entry ordered before us, else rotate
    for (int i = 0; i < kSlots && k < 0; ++i)
      if (cell->s[i].clock <= me.vc.c[cell->s[i].tid] || cell->s[i].tid == g_cur) k = i;
    if (k < 0) k = static_cast<int>(g_steps % kSlots);
  }
  cell->s[k] = Slot{me.vc.c[g_cur], static_cast<uint8_t>(g_cur), mask, flags, 0, pc};
}

void Access(uintptr_t a, size_t n, uint8_t flags, void* pcv, bool step = true) {
  if (!On() || n == 0) return;
  const bool heap = a - kArena < kArenaSize;
  const bool data = !heap && a >= g_data_lo && a + n <= g_data_hi;
  if (!heap && !data) return;
  if (step) {
    if (!(flags & 2)) g_t[g_cur].atomics = 0;
    if (g_mode == RANDOM && g_steps + 1 < g_next_switch && g_steps < g_step_cap)
      g_steps++;
    else
      Step(false);
  }
  const uint32_t pc = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(pcv));
  uintptr_t p = a, end = a + n;
  while (p < end) {
    const uintptr_t g = p & ~7ull;
    const unsigned lo = static_cast<unsigned>(p - g);
    const unsigned hi = end - g < 8 ? static_cast<unsigned>(end - g) : 8u;
    const uint8_t mask = static_cast<uint8_t>(((1u << hi) - 1) & ~((1u << lo) - 1));
    if (heap) {
      const uint8_t v = reinterpret_cast<uint8_t*>(kValid)[(g - kArena) / 8];
      if (v == 0xFD)
        Violation("memory:use-after-free", "%s of freed memory by thread %d (pc 0x%x)", (flags & 1) ? "write" : "read", g_cur, pc);
      if (hi > v)
        Violation("memory:heap-overflow", "%s outside a heap block by thread %d (pc 0x%x)", (flags & 1) ? "write" : "read", g_cur, pc);
      CheckCell(reinterpret_cast<Cell*>(kShadow) + (g - kArena) / 8, p, mask, flags, pc);
    } else {
      CheckCell(reinterpret_cast<Cell*>(kShadowData) + (g - g_data_lo) / 8, p, mask, flags, pc);
    }
    p = g + 8;
  }
}

void ThreadDone(void*) {
  LibDepth() = 0;
  const int me = t_self;
  g_t[me].state = DONE;
  Release(SyncOf(0x1000 + static_cast<uintptr_t>(me)));
  WakeAll(0x1000 + static_cast<uintptr_t>(me));
  BlockAndSwitch();
  for (;;) {  // the rest of the thread's teardown is the C library's; keep it out of the simulation
    int never = 0;
    __real_syscall(SYS_futex, &never, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
}

void* ThreadMain(void* p) {
  const int me = static_cast<int>(reinterpret_cast<intptr_t>(p));
  t_self = me;
  pthread_setspecific(g_key, reinterpret_cast<void*>(static_cast<intptr_t>(me + 1)));
  FutexWait(&g_t[me].go);
  g_t[me].fn(g_t[me].arg);
  LibDepth() = 1;  // thread_local destructors of the code under test run next
  return nullptr;
}
}  // namespace

// ---------------------------------------------------------------- public interface
void* SchedArenaAlloc(size_t n) {
  if (!g_child) return __real_malloc(n);
  const size_t sz = (n + 15 + 32) & ~15ull;
  if (g_bump + sz > kArena + kArenaSize) return nullptr;
  void* p = reinterpret_cast<void*>(g_bump);
  g_bump += sz;
  return p;
}
bool SchedInArena(const void* p) { return reinterpret_cast<uintptr_t>(p) - kArena < kArenaSize; }
void SchedOnAlloc(void* p, size_t n) {
  if (!SchedInArena(p)) return;
  uint8_t* v = reinterpret_cast<uint8_t*>(kValid) + (reinterpret_cast<uintptr_t>(p) - kArena) / 8;
  __builtin_memset(v, 8, n / 8);
  if (n % 8) v[n / 8] = static_cast<uint8_t>(n % 8);
}
void SchedOnFree(void* p, size_t n) {
  if (!SchedInArena(p)) return;
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  // freeing counts as a write to the whole block (first bytes are enough to order it against other users)
  if (On()) Access(a, n < 64 ? n : 64, 1, __builtin_return_address(0), false);
  uint8_t* v = reinterpret_cast<uint8_t*>(kValid) + (a - kArena) / 8;
  __builtin_memset(v, 0xFD, (n + 7) / 8);
}
void SchedEnterChild() {
  InitArena();
  g_child = true;
}

void SchedConfigure(const Plan& plan) {
  g_rec = static_cast<char*>(mmap(nullptr, g_rec_cap + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  g_points = static_cast<Sw*>(mmap(nullptr, sizeof(Sw) * kMaxPoints, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for (const Item& it : plan.items) {
    if (it.type == "sched") {
      g_rng = Rng(it.u("seed", 1));
      g_mean = it.d("mean", 100);
      g_sync_p = it.d("sync", 0);
      const std::string m = it.s("mode", "rand");
      g_mode = m == "pct" ? PCT : (m == "explicit" ? EXPLICIT : RANDOM);
      g_tick_seed = it.u("tickseed", 1);
      g_tick_chance = it.d("tick", 0);
      g_tick_lo = it.d("ticklo", 0);
      g_tick_hi = it.d("tickhi", 6);
      if (g_mode == PCT) {
        const int d = static_cast<int>(it.i("d", 3));
        const uint64_t n = it.u("n", 1000);
        for (int i = 0; i < d && i < 64; ++i) g_points[g_npoints++] = Sw{1 + g_rng.below(n), 0};
        for (int i = 0; i < g_npoints; ++i)
          for (int j = i + 1; j < g_npoints; ++j)
            if (g_points[j].at < g_points[i].at) {
              const Sw t = g_points[i];
              g_points[i] = g_points[j];
              g_points[j] = t;
            }
        for (int i = 0; i < kMaxThreads; ++i) g_t[i].prio = static_cast<int64_t>(g_rng.below(1u << 30));
      }
      if (g_mode == RANDOM) g_next_switch = 1 + g_rng.below(static_cast<uint64_t>(g_mean) + 1);
    } else if (it.type == "sw" && g_npoints < kMaxPoints) {
      g_points[g_npoints++] = Sw{it.u("at", 0), static_cast<int>(it.i("to", 0))};
    }
  }
}

void SchedStart() {
  pthread_key_create(&g_key, ThreadDone);
  t_self = 0;
  g_nthreads = 1;
  g_cur = 0;
  g_t[0].state = RUNNABLE;
  g_t[0].vc.c[0] = 1;
  g_active = true;
}
int SchedSpawn(void (*fn)(void*), void* arg) {
  const int id = g_nthreads++;
  if (id >= kMaxThreads) HarnessError("too many simulated threads");
  Thread& t = g_t[id];
  g_alone = false;
  t.fn = fn;
  t.arg = arg;
  t.vc = g_t[g_cur].vc;
  t.vc.c[id] = 1;
  g_t[g_cur].vc.c[g_cur]++;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  if (pthread_create(&t.pt, &at, ThreadMain, reinterpret_cast<void*>(static_cast<intptr_t>(id)))) HarnessError("pthread_create failed");
  t.state = RUNNABLE;
  return id;
}
void SchedJoin(int tid) {
  while (g_t[tid].state != DONE) Wait(0x1000 + static_cast<uintptr_t>(tid));
  Acquire(SyncOf(0x1000 + static_cast<uintptr_t>(tid)));
  g_t[tid].joined = true;
  g_alone = true;
  for (int i = 0; i < g_nthreads; ++i)
    if (i != g_cur && !g_t[i].joined) g_alone = false;
}
void SchedPoint(int kind) {
  if (!On()) return;
  if (kind == 2) Nudge();
  Step(false);
}
void SchedYield() {
  if (g_active && t_self >= 0) Step(false);
}
int SchedSelf() { return t_self < 0 ? 0 : t_self; }
uint32_t SchedKernelTid(int tid) { return 7000u + 13u * static_cast<uint32_t>(tid); }
uint32_t SchedPid() { return 4242; }
uint64_t SchedSteps() { return g_steps; }
uint64_t SchedSwitches() { return g_switches; }
uint64_t SchedScheduleHash() { return g_hash; }
uint64_t SchedNow() { return ++g_seq; }
void SchedDumpSwitches(char* out, size_t n) {
  if (!n) return;
  out[0] = 0;
  if (!g_rec || g_rec_full || g_rec_n + 1 > n) return;
  memcpy(out, g_rec, g_rec_n + 1);
}
void SchedRealExit(int code) {
  __real_syscall(SYS_exit_group, code);
  __builtin_unreachable();
}

// ---------------------------------------------------------------- atomics
namespace {
bool IsAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool IsRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void AtomicPre(const volatile void* p, size_t n, bool write, int mo, void* pc) {
  if (!g_active || t_self < 0) return;
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (On()) {
    if (!write && ++g_t[g_cur].atomics > 2000) {
      g_t[g_cur].atomics = 0;
      Step(true);
    }
    Nudge();
    Access(a, n, static_cast<uint8_t>(2 | (write ? 1 : 0)), pc);
  }
  Sync* s = SyncOf(a);
  if (IsAcq(mo)) Acquire(s);
  if (write && IsRel(mo)) Release(s);
}
}  // namespace
}  // namespace sim

using namespace sim;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RA __builtin_return_address(0)
#define DEF(N)                                                                                             \
  void __tsan_read##N(void* p) { Access(reinterpret_cast<uintptr_t>(p), N, 0, RA); }                       \
  void __tsan_write##N(void* p) { Access(reinterpret_cast<uintptr_t>(p), N, 1, RA); }                      \
  void __tsan_unaligned_read##N(void* p) { Access(reinterpret_cast<uintptr_t>(p), N, 0, RA); }             \
  void __tsan_unaligned_write##N(void* p) { Access(reinterpret_cast<uintptr_t>(p), N, 1, RA); }            \
  void __tsan_volatile_read##N(void* p) { Access(reinterpret_cast<uintptr_t>(p), N, 0, RA); }              \
  void __tsan_volatile_write##N(void* p) { Access(reinterpret_cast<uintptr_t>(p), N, 1, RA); }
DEF(1) DEF(2) DEF(4) DEF(8) DEF(16)
void __tsan_read_range(void* p, size_t n) { Access(reinterpret_cast<uintptr_t>(p), n, 0, RA); }
void __tsan_write_range(void* p, size_t n) { Access(reinterpret_cast<uintptr_t>(p), n, 1, RA); }
void __tsan_vptr_read(void** p) { Access(reinterpret_cast<uintptr_t>(p), 8, 0, RA); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) Access(reinterpret_cast<uintptr_t>(p), 8, 1, RA);
}

#define ATOM(BITS, T)                                                                                                     \
  T __tsan_atomic##BITS##_load(const volatile T* p, int mo) {                                                             \
    AtomicPre(p, sizeof(T), false, mo, RA);                                                                               \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                          \
  }                                                                                                                       \
  void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) {                                                          \
    AtomicPre(p, sizeof(T), true, mo, RA);                                                                                \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                             \
  }                                                                                                                       \
  T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) {                                                          \
    AtomicPre(p, sizeof(T), true, mo, RA);                                                                                \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                   \
  }                                                                                                                       \
  T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo) {                                                         \
    AtomicPre(p, sizeof(T), true, mo, RA);                                                                                \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                                    \
  }                                                                                                                       \
  T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo) {                                                         \
    AtomicPre(p, sizeof(T), true, mo, RA);                                                                                \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                                    \
  }                                                                                                                       \
  T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo) {                                                         \
    AtomicPre(p, sizeof(T), true, mo, RA);                                                                                \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                                    \
  }                                                                                                                       \
  T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo) {                                                          \
    AtomicPre(p, sizeof(T), true, mo, RA);                                                                                \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                                     \
  }                                                                                                                       \
  T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo) {                                                         \
    AtomicPre(p, sizeof(T), true, mo, RA);                                                                                \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                                    \
  }                                                                                                                       \
  T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo) {                                                        \
    AtomicPre(p, sizeof(T), true, mo, RA);                                                                                \
    return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                                   \
  }                                                                                                                       \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) {                              \
    AtomicPre(p, sizeof(T), true, mo, RA);                                                                                \
    return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                   \
  }                                                                                                                       \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int) {                                \
    AtomicPre(p, sizeof(T), true, mo, RA);                                                                                \
    return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                   \
  }                                                                                                                       \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T c, T v, int mo, int) {                                    \
    AtomicPre(p, sizeof(T), true, mo, RA);                                                                                \
    __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                         \
    return c;                                                                                                             \
  }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!g_active || t_self < 0) return;
  SchedPoint(0);
  Sync* s = SyncOf(0x10);
  if (IsAcq(mo)) Acquire(s);
  if (IsRel(mo)) Release(s);
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- locks
static bool SimThread() { return g_active && t_self >= 0; }
static int LockMutex(void* m, bool try_only) {
  SchedPoint(2);
  Sync* s = SyncOf(reinterpret_cast<uintptr_t>(m));
  const int type = reinterpret_cast<pthread_mutex_t*>(m)->__data.__kind & 3;
  if (s->owner == g_cur + 1) {
    if (type == PTHREAD_MUTEX_RECURSIVE) {
      s->depth++;
      return 0;
    }
    if (try_only) return EBUSY;
    Violation("deadlock", "thread %d locks a mutex it already holds", g_cur);
  }
  while (s->owner) {
    if (try_only) return EBUSY;
    Count("sched.contended_locks");
    Wait(reinterpret_cast<uintptr_t>(m));
  }
  s->owner = g_cur + 1;
  s->depth = 1;
  Acquire(s);
  return 0;
}
static int UnlockMutex(void* m) {
  Sync* s = SyncOf(reinterpret_cast<uintptr_t>(m));
  if (s->owner != g_cur + 1) Violation("lock-misuse", "thread %d unlocks a mutex it does not hold", g_cur);
  if (--s->depth > 0) return 0;
  s->owner = 0;
  Release(s);
  WakeAll(reinterpret_cast<uintptr_t>(m));
  SchedPoint(2);
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return SimThread() ? LockMutex(m, false) : __real_pthread_mutex_lock(m); }
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return SimThread() ? LockMutex(m, true) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return SimThread() ? UnlockMutex(m) : __real_pthread_mutex_unlock(m); }

int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
static int RwLock(void* m, bool write, bool try_only) {
  SchedPoint(2);
  Sync* s = SyncOf(reinterpret_cast<uintptr_t>(m));
  while (s->owner || (write && s->readers)) {
    if (try_only) return EBUSY;
    if (s->owner == g_cur + 1) Violation("deadlock", "thread %d locks a lock it already holds", g_cur);
    Count("sched.contended_locks");
    Wait(reinterpret_cast<uintptr_t>(m));
  }
  if (write)
    s->owner = g_cur + 1;
  else
    s->readers++;
  Acquire(s);
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return SimThread() ? RwLock(m, false, false) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return SimThread() ? RwLock(m, true, false) : __real_pthread_rwlock_wrlock(m); }
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return SimThread() ? RwLock(m, false, true) : __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return SimThread() ? RwLock(m, true, true) : __real_pthread_rwlock_trywrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!SimThread()) return __real_pthread_rwlock_unlock(m);
  Sync* s = SyncOf(reinterpret_cast<uintptr_t>(m));
  if (s->owner == g_cur + 1)
    s->owner = 0;
  else if (s->readers > 0)
    s->readers--;
  else
    Violation("lock-misuse", "thread %d unlocks a lock nobody holds", g_cur);
  Release(s);
  WakeAll(reinterpret_cast<uintptr_t>(m));
  SchedPoint(2);
  return 0;
}

int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!SimThread()) return __real_pthread_cond_wait(c, m);
  Sync* s = SyncOf(reinterpret_cast<uintptr_t>(m));
  s->owner = 0;
  Release(s);
  WakeAll(reinterpret_cast<uintptr_t>(m));
  Wait(reinterpret_cast<uintptr_t>(c));
  return LockMutex(m, false);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!SimThread()) return __real_pthread_cond_signal(c);
  WakeAll(reinterpret_cast<uintptr_t>(c));  // spurious wake-ups are allowed
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!SimThread()) return __real_pthread_cond_broadcast(c);
  WakeAll(reinterpret_cast<uintptr_t>(c));
  return 0;
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!SimThread()) return __real_pthread_once(o, fn);
  SchedPoint(2);
  Sync* s = SyncOf(reinterpret_cast<uintptr_t>(o));
  if (*reinterpret_cast<int*>(o) == 2) s->done = true;  // completed before the simulation started
  while (!s->done) {
    if (!s->owner) {
      s->owner = g_cur + 1;
      try {
        fn();
      } catch (...) {
        s->owner = 0;
        WakeAll(reinterpret_cast<uintptr_t>(o));
        throw;
      }
      s->done = true;
      s->owner = 0;
      *reinterpret_cast<int*>(o) = 2;
      Release(s);
      WakeAll(reinterpret_cast<uintptr_t>(o));
      return 0;
    }
    Wait(reinterpret_cast<uintptr_t>(o));
  }
  Acquire(s);
  return 0;
}

// function-local statics
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) {
  if (!SimThread()) return __real___cxa_guard_acquire(g);
  SchedPoint(2);
  Sync* s = SyncOf(reinterpret_cast<uintptr_t>(g));
  for (;;) {
    if (*reinterpret_cast<unsigned char*>(g)) {
      Acquire(s);
      return 0;
    }
    if (!s->owner) {
      s->owner = g_cur + 1;
      Acquire(s);
      return 1;
    }
    if (s->owner == g_cur + 1) Violation("deadlock", "recursive initialization of a function-local static");
    Count("sched.contended_statics");
    Wait(reinterpret_cast<uintptr_t>(g));
  }
}
void __wrap___cxa_guard_release(uint64_t* g) {
  if (!SimThread()) {
    __real___cxa_guard_release(g);
    return;
  }
  Sync* s = SyncOf(reinterpret_cast<uintptr_t>(g));
  *reinterpret_cast<unsigned char*>(g) = 1;
  s->owner = 0;
  Release(s);
  WakeAll(reinterpret_cast<uintptr_t>(g));
  SchedPoint(2);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
  if (!SimThread()) {
    __real___cxa_guard_abort(g);
    return;
  }
  Sync* s = SyncOf(reinterpret_cast<uintptr_t>(g));
  s->owner = 0;
  Release(s);
  WakeAll(reinterpret_cast<uintptr_t>(g));
}

// ---------------------------------------------------------------- ids, sleeping, bulk memory
long __wrap_syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (g_child && g_seams_on) {  // also before the scheduler starts: the library may cache ids
    if (n == SYS_gettid) {
      SchedPoint(3);
      return SchedKernelTid(SchedSelf());
    }
    if (n == SYS_getpid) return SchedPid();
  }
  return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
pid_t __real_getpid();
pid_t __real_gettid();
pid_t __wrap_getpid() { return g_child && g_seams_on ? static_cast<pid_t>(SchedPid()) : __real_getpid(); }
pid_t __wrap_gettid() { return g_child && g_seams_on ? static_cast<pid_t>(SchedKernelTid(SchedSelf())) : __real_gettid(); }
int __real_sched_yield();
int __wrap_sched_yield() {
  if (!SimThread()) return __real_sched_yield();
  Step(true);
  return 0;
}
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) {
  if (!SimThread() || !g_seams_on) return __real_nanosleep(t, r);
  AdvanceTime(t->tv_sec * 1000000000ll + t->tv_nsec);
  Step(true);
  return 0;
}

static inline void RawCopy(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (On()) {
    Access(reinterpret_cast<uintptr_t>(s), n, 0, RA);
    Access(reinterpret_cast<uintptr_t>(d), n, 1, RA, false);
  }
  RawCopy(d, s, n);
  return d;
}
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (On()) {
    Access(reinterpret_cast<uintptr_t>(s), n, 0, RA);
    Access(reinterpret_cast<uintptr_t>(d), n, 1, RA, false);
  }
  return __real_memmove(d, s, n);
}
void* __real_memset(void*, int, size_t);
void* __wrap_memset(void* d, int c, size_t n) {
  if (On()) Access(reinterpret_cast<uintptr_t>(d), n, 1, RA);
  return __real_memset(d, c, n);
}
}  // extern "C"
#endif
