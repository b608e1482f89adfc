// Deterministic simulation core: plans, PRNG, event log, seams (memory, clock), result channel.
// One run = one forked child executing one Plan; everything the run does is a function of the Plan.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(Mix(Mix(seed + 0xD1B54A32D192ED03ull) ^ 0x2545F4914F6CDD1Dull)) {
    next();
    next();
  }
  static uint64_t Mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1))); }
  double u01() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double lo, double hi) { return lo + (hi - lo) * u01(); }
  bool chance(double p) { return u01() < p; }
  double log10uni(double lo, double hi);  // 10^uniform(lo,hi)
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plan
// A plan is a list of text lines: "<type> key=value key=value ...". The executor reads nothing else.
struct Item {
  std::string type;
  std::vector<std::pair<std::string, std::string>> kv;
  Item() = default;
  explicit Item(std::string t) : type(std::move(t)) {}
  const std::string* find(const std::string& k) const;
  bool has(const std::string& k) const { return find(k) != nullptr; }
  int64_t i(const std::string& k, int64_t def) const;
  uint64_t u(const std::string& k, uint64_t def) const;
  double d(const std::string& k, double def) const;
  std::string s(const std::string& k, const std::string& def) const;
  Item& set(const std::string& k, const std::string& v);
  Item& set(const std::string& k, const char* v) { return set(k, std::string(v)); }
  Item& set(const std::string& k, int64_t v) { return set(k, std::to_string(v)); }
  Item& set(const std::string& k, int v) { return set(k, std::to_string(v)); }
  Item& setu(const std::string& k, uint64_t v) { return set(k, std::to_string(v)); }
  Item& setd(const std::string& k, double v);
  std::string str() const;
};
struct Plan {
  std::string prop;
  std::string tier = "quick";
  uint64_t seed = 0;
  std::vector<Item> items;
  std::string str() const;
  static bool parse(const std::string& text, Plan* out, std::string* err);
};

// ---------------------------------------------------------------- result channel (shared memory)
struct Shared {
  int status;  // 0 running, 1 ok, 2 violation, 3 harness error
  char cls[160];
  char msg[6000];
  uint64_t loghash;
  uint64_t nlog;
  uint64_t sim_ns;       // simulated time covered
  uint32_t ncounters;
  struct C { char name[56]; uint64_t v; } counters[220];
  uint32_t nstates;
  uint64_t states[64];   // coverage state hashes of this run
  uint32_t nontrivial;   // the run counted as non-trivial
  char switches[1 << 16];  // schedule actually taken (sched variant)
};
extern Shared* g_shared;
extern int g_verbose;

[[noreturn]] void Violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void HarnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void FinishOk();
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void LogBits(const char* tag, const double* v, size_t n);
void Count(const char* name, uint64_t n = 1);
void State(uint64_t h);       // record a coverage state
void NonTrivial();
uint64_t Hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t HashU(uint64_t v, uint64_t h) { return Hash(&v, 8, h); }

// ---------------------------------------------------------------- library context
// Code under test runs inside LibScope; callbacks into the harness open a HarnessScope. Memory faults,
// preemption and race detection only apply in library context.
int& LibDepth();               // >0 : in library (per thread)
struct LibScope {
  int saved;
  LibScope() : saved(LibDepth()) { LibDepth() = 1; }
  ~LibScope() { LibDepth() = saved; }
};
struct HarnessScope {
  int saved;
  HarnessScope() : saved(LibDepth()) { LibDepth() = 0; }
  ~HarnessScope() { LibDepth() = saved; }
};

// ---------------------------------------------------------------- memory seam
struct MemFault {
  bool armed = false;
  bool only_new = false;       // fail operator new only (not malloc)
  uint64_t at = 0;             // ordinal (0-based) of the library allocation to fail
  uint64_t len = 1;            // how many consecutive allocations fail
};
struct MemStats {
  uint64_t lib_new = 0, lib_malloc = 0;  // allocations requested in library context since Reset
  uint64_t fired_new = 0, fired_malloc = 0;
};
extern MemFault g_memfault;
extern MemStats g_memstats;
extern int g_memfill;          // what fresh heap blocks hold: 0 NaN bytes, 1 arbitrary values, 2 zeros
void MemReset();               // zero g_memstats
uint64_t LibLiveBlocks();      // live blocks that were allocated in library context
void MemSnapshot();            // start of a leak window
// Number of blocks allocated in library context inside the current window that are still live.
uint64_t MemLeaked(std::string* what);
void MemCheckHeap();           // verify canaries of all live blocks; Violation on corruption

// ---------------------------------------------------------------- clock seam
struct Clock {
  int64_t mono_ns = 1'000'000'000'000ll;       // simulated CLOCK_MONOTONIC
  int64_t real_ns = 1'700'000'000'000'000'000ll;  // simulated CLOCK_REALTIME
  bool real_frozen = false;
  uint64_t reads_mono = 0, reads_real = 0, reads_other = 0;
};
extern Clock g_clock;
void AdvanceTime(int64_t ns);

void InstallSeams();           // called in the child before the run
extern bool g_seams_on;

// entry points implemented by worlds
struct PropDef {
  const char* id;
  void (*gen)(Plan* plan, Rng& rng, bool thorough);
  void (*run)(const Plan& plan);
};
const PropDef* FindProp(const std::string& id);

}  // namespace sim
