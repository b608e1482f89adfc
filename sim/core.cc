#include "core.hpp"

#include <errno.h>
#include <math.h>
#include <new>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include "sched.hpp"

namespace sim {

Shared* g_shared = nullptr;
int g_verbose = 0;
MemFault g_memfault;
MemStats g_memstats;
Clock g_clock;
bool g_seams_on = false;

double Rng::log10uni(double lo, double hi) { return ::pow(10.0, uni(lo, hi)); }

// ---------------------------------------------------------------- plan
const std::string* Item::find(const std::string& k) const {
  for (const auto& p : kv)
    if (p.first == k) return &p.second;
  return nullptr;
}
int64_t Item::i(const std::string& k, int64_t def) const {
  const std::string* v = find(k);
  return v ? strtoll(v->c_str(), nullptr, 10) : def;
}
uint64_t Item::u(const std::string& k, uint64_t def) const {
  const std::string* v = find(k);
  return v ? strtoull(v->c_str(), nullptr, 10) : def;
}
double Item::d(const std::string& k, double def) const {
  const std::string* v = find(k);
  return v ? strtod(v->c_str(), nullptr) : def;
}
std::string Item::s(const std::string& k, const std::string& def) const {
  const std::string* v = find(k);
  return v ? *v : def;
}
Item& Item::set(const std::string& k, const std::string& v) {
  for (auto& p : kv)
    if (p.first == k) {
      p.second = v;
      return *this;
    }
  kv.emplace_back(k, v);
  return *this;
}
Item& Item::setd(const std::string& k, double v) {
  char buf[40];
  snprintf(buf, sizeof buf, "%.17g", v);
  return set(k, std::string(buf));
}
std::string Item::str() const {
  std::string r = type;
  for (const auto& p : kv) {
    r += ' ';
    r += p.first;
    r += '=';
    r += p.second;
  }
  return r;
}
std::string Plan::str() const {
  std::string r = "plan prop=" + prop + " seed=" + std::to_string(seed) + " tier=" + tier + "\n";
  for (const auto& it : items) r += it.str() + "\n";
  return r;
}
bool Plan::parse(const std::string& text, Plan* out, std::string* err) {
  size_t pos = 0;
  bool have = false;
  while (pos < text.size()) {
    size_t e = text.find('\n', pos);
    if (e == std::string::npos) e = text.size();
    std::string line = text.substr(pos, e - pos);
    pos = e + 1;
    if (line.empty() || line[0] == '#') continue;
    Item it;
    size_t p = 0;
    bool first = true;
    while (p < line.size()) {
      while (p < line.size() && line[p] == ' ') ++p;
      size_t q = line.find(' ', p);
      if (q == std::string::npos) q = line.size();
      if (q == p) break;
      std::string tok = line.substr(p, q - p);
      p = q;
      if (first) {
        it.type = tok;
        first = false;
      } else {
        size_t eq = tok.find('=');
        if (eq == std::string::npos) {
          *err = "bad token " + tok;
          return false;
        }
        it.kv.emplace_back(tok.substr(0, eq), tok.substr(eq + 1));
      }
    }
    if (it.type == "plan") {
      out->prop = it.s("prop", "");
      out->seed = it.u("seed", 0);
      out->tier = it.s("tier", "quick");
      have = true;
    } else if (!it.type.empty()) {
      out->items.push_back(it);
    }
  }
  if (!have) *err = "no plan line";
  return have;
}

// ---------------------------------------------------------------- results
uint64_t Hash(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}

static void WriteErr(const char* s) {
  ssize_t r = ::write(2, s, strlen(s));
  (void)r;
}

void Violation(const char* cls, const char* fmt, ...) {
  g_seams_on = false;
  g_memfault.armed = false;
  va_list ap;
  va_start(ap, fmt);
  if (g_shared && g_shared->status == 0) {
    snprintf(g_shared->cls, sizeof g_shared->cls, "%s", cls);
    vsnprintf(g_shared->msg, sizeof g_shared->msg, fmt, ap);
    g_shared->status = 2;
    SchedDumpSwitches(g_shared->switches, sizeof g_shared->switches);
    g_shared->sim_ns = 0;
  }
  va_end(ap);
  if (g_verbose) {
    WriteErr("VIOLATION-IN-RUN ");
    WriteErr(g_shared ? g_shared->cls : cls);
    WriteErr(": ");
    if (g_shared) WriteErr(g_shared->msg);
    WriteErr("\n");
  }
  SchedRealExit(0);
}

void HarnessError(const char* fmt, ...) {
  g_seams_on = false;
  va_list ap;
  va_start(ap, fmt);
  if (g_shared) {
    snprintf(g_shared->cls, sizeof g_shared->cls, "harness");
    vsnprintf(g_shared->msg, sizeof g_shared->msg, fmt, ap);
    g_shared->status = 3;
  } else {
    vfprintf(stderr, fmt, ap);
    fputc('\n', stderr);
  }
  va_end(ap);
  SchedRealExit(0);
}

static int64_t g_mono_start = 1'000'000'000'000ll;
void FinishOk() {
  g_seams_on = false;
  if (g_shared && g_shared->status == 0) {
    g_shared->status = 1;
    g_shared->sim_ns = static_cast<uint64_t>(g_clock.mono_ns - g_mono_start);
    SchedDumpSwitches(g_shared->switches, sizeof g_shared->switches);
  }
  SchedRealExit(0);
}

void Log(const char* fmt, ...) {
  HarnessScope hs;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n > static_cast<int>(sizeof buf) - 1) n = sizeof buf - 1;
  if (g_shared) {
    g_shared->loghash = Hash(buf, static_cast<size_t>(n), g_shared->loghash);
    g_shared->nlog++;
  }
  if (g_verbose) {
    WriteErr(buf);
    WriteErr("\n");
  }
}

void LogBits(const char* tag, const double* v, size_t n) {
  HarnessScope hs;
  if (g_shared) {
    uint64_t h = Hash(tag, strlen(tag), g_shared->loghash);
    for (size_t i = 0; i < n; ++i) {
      double d = v[i];
      uint64_t b;
      memcpy(&b, &d, 8);
      if (d != d) b = 0x7ff8000000000000ull;
      h = HashU(b, h);
    }
    g_shared->loghash = h;
    g_shared->nlog++;
  }
  if (g_verbose) {
    char buf[64];
    WriteErr("  ");
    WriteErr(tag);
    for (size_t i = 0; i < n; ++i) {
      snprintf(buf, sizeof buf, " %.17g", v[i]);
      WriteErr(buf);
    }
    WriteErr("\n");
  }
}

void Count(const char* name, uint64_t n) {
  if (!g_shared) return;
  for (uint32_t i = 0; i < g_shared->ncounters; ++i) {
    if (strcmp(g_shared->counters[i].name, name) == 0) {
      g_shared->counters[i].v += n;
      return;
    }
  }
  if (g_shared->ncounters < 220) {
    auto& c = g_shared->counters[g_shared->ncounters++];
    snprintf(c.name, sizeof c.name, "%s", name);
    c.v = n;
  }
}
void State(uint64_t h) {
  if (g_shared && g_shared->nstates < 64) g_shared->states[g_shared->nstates++] = h;
}
void NonTrivial() {
  if (g_shared) g_shared->nontrivial = 1;
}

// ---------------------------------------------------------------- library context
static thread_local int t_lib_depth = 0;
int& LibDepth() { return t_lib_depth; }

void AdvanceTime(int64_t ns) {
  g_clock.mono_ns += ns;
  if (!g_clock.real_frozen) g_clock.real_ns += ns;
}


// ---------------------------------------------------------------- memory seam
namespace {
constexpr uint32_t kMagicLive = 0x51A11AAEu;
constexpr uint32_t kMagicDead = 0xDEADDEADu;
constexpr uint64_t kCanary = 0xC0FFEE5AC0FFEE5Aull;
#ifdef SIM_ASAN
constexpr size_t kTail = 0;
#else
constexpr size_t kTail = 16;
#endif
struct Hdr {
  uint32_t magic;
  uint32_t flags;  // 1 = library, 2 = operator new
  uint64_t size;
  uint64_t serial;
  Hdr* prev;
  Hdr* next;
  uint64_t pad;
};
static_assert(sizeof(Hdr) == 48, "");
Hdr g_list = {0, 0, 0, 0, &g_list, &g_list, 0};
uint64_t g_serial = 0, g_serial0 = 0;
uint64_t g_window = 0;
uint64_t g_lib_live = 0;
}  // namespace
int g_memfill = 0;

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
}

static bool FaultHere(bool is_new) {
  if (!g_seams_on || t_lib_depth == 0) return false;
  uint64_t ord;
  if (is_new)
    ord = g_memstats.lib_new++;
  else
    ord = g_memstats.lib_malloc++;
  if (g_memfault.armed) {
    uint64_t idx = g_memfault.only_new ? ord : (g_memstats.lib_new + g_memstats.lib_malloc - 1);
    if (g_memfault.only_new && !is_new) return false;
    if (idx >= g_memfault.at && idx < g_memfault.at + g_memfault.len) {
      if (is_new)
        g_memstats.fired_new++;
      else
        g_memstats.fired_malloc++;
      return true;
    }
  }
  return false;
}

static void* DoAlloc(size_t n, bool is_new) {
  if (n > (1ull << 40)) return nullptr;
#ifdef SIM_SCHED
  Hdr* h = static_cast<Hdr*>(SchedArenaAlloc(sizeof(Hdr) + n + kTail));
#else
  Hdr* h = static_cast<Hdr*>(__real_malloc(sizeof(Hdr) + n + kTail));
#endif
  if (!h) return nullptr;
  const bool lib = g_seams_on && t_lib_depth > 0;
  h->magic = kMagicLive;
  h->flags = (lib ? 1u : 0u) | (is_new ? 2u : 0u);
  h->size = n;
  h->serial = g_serial++;
  h->prev = h->next = h;
  if (lib) {
    h->next = &g_list;
    h->prev = g_list.prev;
    g_list.prev->next = h;
    g_list.prev = h;
    g_lib_live++;
  }
  char* p = reinterpret_cast<char*>(h + 1);
  if (g_seams_on && n < (1u << 20)) {
    if (g_memfill == 1) {  // what an earlier owner of the block may have left: values, never the same ones twice
      uint64_t x = (h->serial - g_serial0 + 1) * 0x9E3779B97F4A7C15ull;
      size_t i = 0;
      for (; i + 8 <= n; i += 8) {
        x ^= x << 13, x ^= x >> 7, x ^= x << 17;
        const double v = (static_cast<double>(x >> 12) * 0x1p-52 - 0.5) * ((x & 3) ? 2.0 : 200.0);
        __builtin_memcpy(p + i, &v, 8);
      }
      for (; i < n; ++i) p[i] = static_cast<char>(x >> (i & 7));
    } else {
      const char c = g_memfill == 2 ? 0 : static_cast<char>(0xFF);  // 0xFF: uninitialised doubles are NaN
      for (size_t i = 0; i < n; ++i) p[i] = c;
    }
  }
  if (kTail) {
    uint64_t c[2] = {kCanary, kCanary};
    __builtin_memcpy(p + n, c, 16);
  }
#ifdef SIM_SCHED
  SchedOnAlloc(p, n);
#endif
  return p;
}

static bool TailOk(Hdr* h) {
  if (!kTail) return true;
  uint64_t c[2];
  __builtin_memcpy(c, reinterpret_cast<char*>(h + 1) + h->size, 16);
  return c[0] == kCanary && c[1] == kCanary;
}

static void DoFree(void* p, const char* via) {
  if (!p) return;
  Hdr* h = static_cast<Hdr*>(p) - 1;
  if (h->magic != kMagicLive) {
    if (h->magic == kMagicDead) Violation("memory:double-free", "%s: block %p freed twice", via, p);
    Violation("memory:bad-free", "%s: %p is not a live heap block (header overwritten?)", via, p);
  }
  if (!TailOk(h))
    Violation("memory:heap-overflow", "write past the end of a heap block of %lu bytes",
              static_cast<unsigned long>(h->size));
  if (h->flags & 1u) {
    h->prev->next = h->next;
    h->next->prev = h->prev;
    g_lib_live--;
  }
  h->magic = kMagicDead;
  if (g_seams_on && h->size < (1u << 20)) {
    char* c = static_cast<char*>(p);
    for (size_t i = 0; i < h->size; ++i) c[i] = static_cast<char>(0xFD);
  }
#ifdef SIM_SCHED
  if (SchedInArena(h))
    SchedOnFree(p, h->size);  // never reused: later accesses are use-after-free
  else if (!g_seams_on)
    __real_free(h);
#else
  __real_free(h);
#endif
}

void InstallSeams() {
  g_serial0 = g_serial;
  g_seams_on = true;
}
void MemReset() { g_memstats = MemStats{}; }
uint64_t LibLiveBlocks() { return g_lib_live; }
void MemSnapshot() { g_window = g_serial; }
uint64_t MemLeaked(std::string* what) {
  uint64_t n = 0;
  char buf[80];
  for (Hdr* h = g_list.next; h != &g_list; h = h->next) {
    if (h->serial >= g_window) {
      ++n;
      if (what && n <= 4) {
        snprintf(buf, sizeof buf, "%s%lu bytes by %s", n > 1 ? ", " : "",
                 static_cast<unsigned long>(h->size), (h->flags & 2) ? "new" : "malloc");
        *what += buf;
      }
    }
  }
  return n;
}
void MemCheckHeap() {
  for (Hdr* h = g_list.next; h != &g_list; h = h->next) {
    if (h->magic != kMagicLive || !TailOk(h))
      Violation("memory:heap-overflow", "write past the end of a live heap block of %lu bytes",
                static_cast<unsigned long>(h->size));
  }
}

}  // namespace sim

using namespace sim;

extern "C" {
void* __wrap_malloc(size_t n) {
  if (FaultHere(false)) {
    errno = ENOMEM;
    return nullptr;
  }
  return DoAlloc(n, false);
}
void __wrap_free(void* p) { DoFree(p, "free"); }
void* __wrap_calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) return nullptr;
  if (FaultHere(false)) {
    errno = ENOMEM;
    return nullptr;
  }
  void* p = DoAlloc(a * b, false);
  if (p) __builtin_memset(p, 0, a * b);
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (FaultHere(false)) {
    errno = ENOMEM;
    return nullptr;
  }
  Hdr* h = static_cast<Hdr*>(p) - 1;
  if (h->magic != kMagicLive) Violation("memory:bad-free", "realloc of a block that is not live");
  void* q = DoAlloc(n, false);
  if (!q) return nullptr;
  __builtin_memcpy(q, p, h->size < n ? h->size : n);
  DoFree(p, "realloc");
  return q;
}
// operator new / delete families
void* __wrap__Znwm(size_t n) {
  if (FaultHere(true)) throw std::bad_alloc();
  void* p = DoAlloc(n, true);
  if (!p) throw std::bad_alloc();
  return p;
}
void* __wrap__Znam(size_t n) { return __wrap__Znwm(n); }
void* __wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t&) {
  if (FaultHere(true)) return nullptr;
  return DoAlloc(n, true);
}
void* __wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t& t) {
  return __wrap__ZnwmRKSt9nothrow_t(n, t);
}
void __wrap__ZdlPv(void* p) { DoFree(p, "delete"); }
void __wrap__ZdaPv(void* p) { DoFree(p, "delete[]"); }
void __wrap__ZdlPvm(void* p, size_t) { DoFree(p, "delete"); }
void __wrap__ZdaPvm(void* p, size_t) { DoFree(p, "delete[]"); }
void __wrap__ZdlPvRKSt9nothrow_t(void* p, const std::nothrow_t&) { DoFree(p, "delete"); }
void __wrap__ZdaPvRKSt9nothrow_t(void* p, const std::nothrow_t&) { DoFree(p, "delete[]"); }

// ---------------------------------------------------------------- clock seam
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_gettimeofday(struct timeval*, void*);
time_t __real_time(time_t*);
static int64_t SimClock(clockid_t id) {
  switch (id) {
    case CLOCK_REALTIME:
    case CLOCK_REALTIME_COARSE:
    case CLOCK_TAI:
      g_clock.reads_real++;
      return g_clock.real_ns;
    case CLOCK_MONOTONIC:
    case CLOCK_MONOTONIC_RAW:
    case CLOCK_BOOTTIME:
      g_clock.reads_mono++;
      return g_clock.mono_ns;
    case CLOCK_MONOTONIC_COARSE:  // 4 ms ticks
      g_clock.reads_mono++;
      return g_clock.mono_ns / 4000000 * 4000000;
    default:  // CPU-time clocks: simulated time passes without using CPU
      g_clock.reads_other++;
      return 1000000;
  }
}
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
  if (!g_seams_on) return __real_clock_gettime(id, ts);
  SchedPoint(1);
  const int64_t t = SimClock(id);
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
  if (!g_seams_on) return __real_gettimeofday(tv, tz);
  SchedPoint(1);
  const int64_t t = SimClock(CLOCK_REALTIME);
  tv->tv_sec = t / 1000000000;
  tv->tv_usec = (t % 1000000000) / 1000;
  return 0;
}
time_t __wrap_time(time_t* out) {
  if (!g_seams_on) return __real_time(out);
  const time_t t = SimClock(CLOCK_REALTIME) / 1000000000;
  if (out) *out = t;
  return t;
}
// std::chrono clocks (the library may call these without going through clock_gettime)
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  struct timespec ts;
  __wrap_clock_gettime(CLOCK_REALTIME, &ts);
  return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  struct timespec ts;
  __wrap_clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
}  // extern "C"
