// Thread world (sched variant): tracing under every interleaving, clock fault, allocation failure and shutdown
// order (C01, C02, C03), and concurrent / nested solves (C04).
#ifdef SIM_SCHED
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>
#include <set>

#include "mini_opt/qp.hpp"
#include "mini_opt/tracing.hpp"
#include "sched.hpp"
#include "thread_hist.hpp"
#include "worlds.hpp"

namespace sim {
namespace {

enum Mode { MODE_C01, MODE_C02, MODE_C03 };
Mode g_mode_w = MODE_C01;
TraceHistory* g_hist = nullptr;
bool g_exiting = false;

uint64_t FiredTotal() { return g_memstats.fired_new + g_memstats.fired_malloc; }

struct Thrown {
  int id;
  uint64_t tag;
};
struct ThrownStd : std::runtime_error {
  int id;
  explicit ThrownStd(int i) : std::runtime_error("thrown " + std::to_string(i)), id(i) {}
};

std::string MakeName(int id, int flavor) {
  const std::string n = "s" + std::to_string(id);
  switch (flavor) {
    case 1: return n + " \"quoted\"";
    case 2: return n + "\\back\\slash\\";
    case 3: return n + "\nline\ttab\rcr";
    case 4: return n + std::string("\x01\x1f\x7f", 3);
    case 5: return n + "{}{0}{name}";
    case 6: return n + "\xC3\xA9\xE2\x82\xAC";
    case 7: return n + std::string(300, 'x');
    case 8: return n + std::string("a\0b", 3);
    case 9: return n + ", \"ph\": \"X\" } ]";
    case 10: return n + "</script>%s%n/";
    case 11: return "operator()<" + n + ">";
    case 12: return n + "\b\f\v\"";
    default: return n;
  }
}

ScopeRec& NewScope(int parent, int flavor) {
  g_hist->scopes.emplace_back();
  ScopeRec& r = g_hist->scopes.back();
  r.tid = SchedSelf();
  r.parent = parent;
  r.name = MakeName(static_cast<int>(g_hist->scopes.size()) - 1, flavor);
  return r;
}

void Snapshot() {
  if (g_exiting) return;
  SnapRec s;
  s.tid = SchedSelf();
  s.fired_b = FiredTotal();
  SchedYield();
  s.b = SchedNow();
  try {
    LibScope ls;
    s.text = mini_opt::trace_collector::get_instance()->get_trace_json();
  } catch (const std::bad_alloc&) {
    LibDepth() = 0;
    s.threw = true;
  } catch (...) {
    LibDepth() = 0;
    Violation("snapshot-throw", "taking a snapshot raised an unexpected exception");
  }
  s.a = SchedNow();
  s.fired_a = FiredTotal();
  if (s.threw && s.fired_a == s.fired_b) Violation("snapshot-throw", "bad_alloc from a snapshot although no allocation failed");
  Count("snapshots");
  Log("snap t%d len %zu", s.tid, s.text.size());
  g_hist->snaps.push_back(std::move(s));
}

void ClockOp(const Item& o) {
  const std::string k = o.s("k", "");
  if (k == "adv") {
    AdvanceTime(static_cast<int64_t>(o.d("ns", 0)));
    Count("fault.clock.stall");
  } else if (k == "wall") {
    g_clock.real_ns += static_cast<int64_t>(o.d("ns", 0));
    Count(o.d("ns", 0) < 0 ? "fault.clock.step_back" : "fault.clock.step_forward");
  } else if (k == "freeze") {
    g_clock.real_frozen = o.i("on", 1) != 0;
    Count("fault.clock.freeze");
  }
}

struct NestCtx {
  Item o;
  Rng rng{1};
  int d = 1;
};

void Nest(NestCtx& c, int level, int parent);

// names that many scopes and submissions of a thread share
const char* const kShared[] = {"", "rep", "rep \"x\"", " "};

void SimpleScope(int parent, int flavor, bool throws, int shared = -1) {
  const size_t id = g_hist->scopes.size();
  ScopeRec& r = NewScope(parent, flavor);
  if (shared >= 0) {
    r.shared = true;
    r.name = kShared[shared % 4];
  }
  SchedYield();
  r.t_bb = g_clock.mono_ns;
  r.begin_b = SchedNow();
  try {
    LibScope ls;
    MINI_OPT_SCOPED_TRACE_STR(std::string_view(r.name));
    {
      HarnessScope hs;
      r.begin_a = SchedNow();
      r.t_ba = g_clock.mono_ns;
      r.fired_b = FiredTotal();
      r.end_b = SchedNow();
      r.t_eb = g_clock.mono_ns;
      if (throws) throw Thrown{static_cast<int>(id), 99};
      r.normal = true;
    }
  } catch (const Thrown& t) {
    if (t.id != static_cast<int>(id) || t.tag != 99) Violation("exception-changed", "the exception that left a scope is not the one thrown");
  }
  r.t_ea = g_clock.mono_ns;
  r.end_a = SchedNow();
  r.fired_a = FiredTotal();
  r.ended = true;
}

// opens a scope while an exception is propagating
struct UnwindGuard {
  int kind, parent;
  UnwindGuard(int k, int p) : kind(k), parent(p) {}
  ~UnwindGuard() {
    if (!kind) return;
    HarnessScope hs;
    SimpleScope(parent, 0, false);
    if (kind == 2) SimpleScope(parent, 0, true);
    if (kind == 3) {
      SimpleScope(parent, 0, true);
      SimpleScope(parent, 0, false);
    }
    Count("scopes_in_unwinding");
  }
};

void Nest(NestCtx& c, int level, int parent) {
  const int id = static_cast<int>(g_hist->scopes.size());
  ScopeRec& r = NewScope(parent, static_cast<int>(c.o.i("nm", 0)));
  const double lo = c.o.d("lo", 0), hi = c.o.d("hi", 0);
  auto pass = [&] {
    if (hi > 0 && c.rng.chance(0.7)) AdvanceTime(static_cast<int64_t>(c.rng.log10uni(lo, hi)));
  };
  const int catch_at = static_cast<int>(c.o.i("catch", 0));
  const int thr = static_cast<int>(c.o.i("thr", 0));
  SchedYield();
  r.t_bb = g_clock.mono_ns;
  r.begin_b = SchedNow();
  {
    LibScope ls;
    MINI_OPT_SCOPED_TRACE_STR(std::string_view(r.name));
    {
      HarnessScope hs;
      r.begin_a = SchedNow();
      r.t_ba = g_clock.mono_ns;
      pass();
      if (level >= c.d) {
        if (c.o.i("snap", 0)) Snapshot();
        if (thr) {
          UnwindGuard g(static_cast<int>(c.o.i("ud", 0)), id);
          r.end_b = SchedNow();
          r.t_eb = g_clock.mono_ns;
          r.ended = true;  // never a normal exit
          Count("fault.scope.exception");
          if (thr == 2) throw ThrownStd(77);
          throw Thrown{77, 0xBADC0DEull};
        }
      } else if (thr && level == catch_at) {
        bool got = false;
        try {
          Nest(c, level + 1, id);
        } catch (const Thrown& t) {
          LibDepth() = 0;
          got = thr == 1 && t.id == 77 && t.tag == 0xBADC0DEull;
        } catch (const ThrownStd& t) {
          LibDepth() = 0;
          got = thr == 2 && t.id == 77 && std::string(t.what()) == "thrown 77";
        } catch (...) {
          LibDepth() = 0;
        }
        if (!got) Violation("exception-changed", "the exception that left the scopes is not the one thrown");
      } else {
        r.ended = true;  // if unwound from below
        Nest(c, level + 1, id);
        r.ended = false;
      }
      pass();
      if (c.o.i("wall", 0)) g_clock.real_ns += static_cast<int64_t>(c.rng.uni(-1, 1) * c.rng.log10uni(3, 18));
      SchedYield();
      r.fired_b = FiredTotal();
      r.normal = true;
      r.t_eb = g_clock.mono_ns;
      r.end_b = SchedNow();
    }
  }
  r.t_ea = g_clock.mono_ns;
  r.end_a = SchedNow();
  r.fired_a = FiredTotal();
  r.ended = true;
}

struct TlObject {
  bool on = false;
  ~TlObject() {
    if (!on) return;
    HarnessScope hs;
    SimpleScope(-1, 0, false);
    Count("scopes_in_thread_exit");
  }
};
thread_local TlObject t_obj;

void DirectSubmit(const Item& o) {
  ScopeRec& r = NewScope(-1, static_cast<int>(o.i("nm", 0)));
  r.direct = true;
  if (o.i("rep", -1) >= 0) {
    r.shared = true;
    r.name = kShared[o.i("rep", 0) % 4];
  }
  r.ts = o.i("ts", 5);
  r.dur = o.i("dur", 1500);
  r.begin_b = r.begin_a = SchedNow();
  r.fired_b = FiredTotal();
  r.end_b = SchedNow();
  try {
    LibScope ls;
    mini_opt::trace_collector::get_instance()->submit_event(mini_opt::trace_event{r.name, r.ts, SchedPid(), SchedKernelTid(r.tid), r.dur});
    r.normal = true;
  } catch (const std::bad_alloc&) {
    LibDepth() = 0;
    if (FiredTotal() == r.fired_b) Violation("submit-throw", "bad_alloc although no allocation failed");
  }
  r.end_a = SchedNow();
  r.fired_a = FiredTotal();
  r.ended = true;
}

void ExitHandler(int which) {
  if (!g_exiting) return;
  HarnessScope hs;
  Log("exit handler %d", which);
  Count("scopes_during_exit");
  SimpleScope(-1, 0, false);
  NestCtx c;
  c.d = 2;
  Nest(c, 1, -1);
  SchedYield();
}
void EarlyAtexit() { ExitHandler(1); }
void LateAtexit() { ExitHandler(2); }
struct StaticObj {
  ~StaticObj() { ExitHandler(3); }
};
struct StaticObjTracesInCtor {
  StaticObjTracesInCtor() {
    HarnessScope hs;
    SimpleScope(-1, 0, false);
  }
  ~StaticObjTracesInCtor() { ExitHandler(4); }
};
void EnsureStatic(int kind) {
  // local statics of the traced program
  if (kind == 1) {
    static StaticObj* const o = [] {
      static StaticObj obj;
      return &obj;
    }();
    (void)o;
  } else if (kind == 2) {
    static StaticObjTracesInCtor o2;
    (void)o2;
  }
}

void RunOps(const std::vector<Item>& ops) {
  for (const Item& o : ops) {
    SchedYield();
    const std::string k = o.s("k", "scope");
    if (k == "scope") {
      NestCtx c;
      c.o = o;
      c.rng = Rng(o.u("seed", 1));
      c.d = static_cast<int>(o.i("d", 1));
      const int thr = static_cast<int>(o.i("thr", 0));
      if (thr && (o.i("catch", 0) <= 0 || o.i("catch", 0) >= c.d)) {
        try {
          Nest(c, 1, -1);
        } catch (const Thrown& t) {
          LibDepth() = 0;
          if (thr != 1 || t.id != 77 || t.tag != 0xBADC0DEull) Violation("exception-changed", "the exception that left the scopes is not the one thrown");
        } catch (const ThrownStd& t) {
          LibDepth() = 0;
          if (thr != 2 || t.id != 77 || std::string(t.what()) != "thrown 77") Violation("exception-changed", "the exception that left the scopes is not the one thrown");
        } catch (...) {
          LibDepth() = 0;
          Violation("exception-changed", "the exception that left the scopes is not the one thrown");
        }
      } else {
        Nest(c, 1, -1);
      }
    } else if (k == "snap") {
      Snapshot();
    } else if (k == "submit") {
      for (int i = 0, n = static_cast<int>(o.i("n", 1)); i < n && i < 9; ++i) DirectSubmit(o);
    } else if (k == "rep") {
      for (int i = 0, n = static_cast<int>(o.i("n", 1)); i < n && i < 9; ++i) SimpleScope(-1, 0, false, static_cast<int>(o.i("rep", 0)));
      Count("same_named_scopes", o.u("n", 1));
    } else if (k == "tl") {
      t_obj.on = true;
    } else if (k == "oom") {
      g_memfault.only_new = o.i("new", 0) != 0;
      g_memfault.at = (g_memfault.only_new ? g_memstats.lib_new : g_memstats.lib_new + g_memstats.lib_malloc) + o.u("at", 0);
      g_memfault.len = o.u("len", 1);
      g_memfault.armed = true;
    } else if (k == "static") {
      EnsureStatic(static_cast<int>(o.i("n", 1)));
    } else if (k == "atexit") {
      atexit(LateAtexit);
    } else if (k == "exit") {
      if (SchedSelf() == 0) {
        g_exiting = true;
        Count("fault.process.exit");
        Log("exit");
        NonTrivial();
        LibDepth() = 1;  // destructors of the code under test run inside exit()
        exit(0);
      }
    } else {
      ClockOp(o);
    }
    Log("op t%d %s", SchedSelf(), k.c_str());
  }
}

struct ThreadArg {
  std::vector<Item> ops;
  int tid;
};
void ThreadBody(void* p) {
  ThreadArg* a = static_cast<ThreadArg*>(p);
  RunOps(a->ops);
}

void RunTrace(const Plan& plan) {
  g_mode_w = plan.prop == "C02" ? MODE_C02 : plan.prop == "C03" ? MODE_C03 : MODE_C01;
  g_hist = new TraceHistory;
  g_hist->timing = g_mode_w == MODE_C02;
  std::map<int, std::unique_ptr<ThreadArg>> threads;
  bool early = false;
  uint64_t bulk = 0;
  int flavor_static = 0;
  threads[0] = std::make_unique<ThreadArg>();
  for (const Item& it : plan.items) {
    if (it.type == "O") {
      const int t = static_cast<int>(it.i("t", 0)) % 6;
      auto& a = threads[t];
      if (!a) a = std::make_unique<ThreadArg>();
      a->tid = t;
      a->ops.push_back(it);
    } else if (it.type == "bulk") {
      bulk = it.u("n", 0);
    } else if (it.type == "early") {
      early = true;
    } else if (it.type == "estatic") {
      flavor_static = static_cast<int>(it.i("n", 1));
    } else if (it.type == "clk") {
      g_clock.mono_ns = static_cast<int64_t>(it.d("mono", 1e12));
      g_clock.real_ns = static_cast<int64_t>(it.d("real", 1.7e18));
    }
  }
  if (bulk > 120000) bulk = 120000;
  const int64_t mono0 = g_clock.mono_ns;
  if (early) atexit(EarlyAtexit);
  SchedConfigure(plan);
  if (bulk) {
    static const char kBulk[] = "bulk";
    LibScope ls;
    auto* c = mini_opt::trace_collector::get_instance();
    for (uint64_t i = 0; i < bulk; ++i)
      c->submit_event(mini_opt::trace_event{kBulk, static_cast<int64_t>(i), SchedPid(), SchedKernelTid(0), static_cast<int64_t>(i % 7) * 1000});
    g_hist->bulk = bulk;
  }
  SchedStart();
  if (flavor_static) EnsureStatic(flavor_static);
  std::vector<int> ids;
  for (auto& t : threads)
    if (t.first != 0) ids.push_back(SchedSpawn(ThreadBody, t.second.get()));
  RunOps(threads[0]->ops);
  for (int id : ids) SchedJoin(id);
  g_memfault.armed = false;
  Snapshot();
  if (bulk < 50000) Snapshot();
  MemCheckHeap();
  CheckTraceHistory(*g_hist);
  Count("sched.switches", SchedSwitches());
  Count("sched.steps", SchedSteps());
  if (SchedSwitches() > ids.size() || FiredTotal() || g_mode_w == MODE_C02) NonTrivial();
  State(SchedScheduleHash());
  if (FiredTotal()) Count("fault.alloc", FiredTotal());
  Log("schedule %016lx", static_cast<unsigned long>(SchedScheduleHash()));
  g_clock.mono_ns = g_clock.mono_ns - mono0 + 1'000'000'000'000ll;
}

// ---------------------------------------------------------------- generation
Item GenSched(Rng& rng, bool clock_ticks, double big = 1.0) {
  Item s("sched");
  s.setu("seed", rng.next() >> 24);
  if (rng.chance(0.35)) {
    s.set("mode", "pct").set("d", rng.range(1, 6)).setu("n", static_cast<uint64_t>(rng.log10uni(1.5, 4.2) * big));
  } else {
    s.setd("mean", std::floor(rng.log10uni(0.3, 3.5) * big));
    if (rng.chance(0.4)) s.setd("sync", rng.uni(0.05, 0.9));
  }
  if (clock_ticks) s.setd("tick", rng.uni(0.1, 1)).setd("ticklo", rng.uni(0, 4)).setd("tickhi", rng.uni(4, 12)).setu("tickseed", rng.next() >> 24);
  return s;
}

void GenTrace(Plan* plan, Rng& rng, bool thorough, Mode mode) {
  // around the retention limit (slow runs)
  const bool cap = mode != MODE_C02 && rng.chance((thorough ? 0.025 : 0.014) * (mode == MODE_C03 ? 0.2 : 1));
  int cap_snaps = rng.range(1, 2);
  const int nt = cap ? rng.range(2, 3) : rng.range(mode == MODE_C01 ? 2 : 1, thorough ? 5 : 4);
  plan->items.push_back(GenSched(rng, mode == MODE_C02 || rng.chance(0.3)));
  if (mode == MODE_C02 && rng.chance(0.4))
    plan->items.push_back(Item("clk").setd("mono", std::floor(rng.chance(0.5) ? rng.log10uni(0, 7) : rng.log10uni(12, 18))).setd("real", std::floor(rng.chance(0.3) ? -rng.log10uni(3, 18) : rng.log10uni(0, 18.5))));
  const bool special = rng.chance(0.3);
  bool exits = false;
  if (cap) {
    plan->items.push_back(Item("bulk").set("n", rng.chance(0.5) ? rng.range(99994, 100001) : rng.chance(0.7) ? rng.range(99950, 100010) : rng.range(100010, 100100)));
  } else if (rng.chance(0.4)) {
    plan->items.push_back(Item("bulk").set("n", rng.range(1, 80)));
  }
  if (mode == MODE_C03) {
    if (rng.chance(0.5)) plan->items.push_back(Item("early"));
    if (rng.chance(0.3)) plan->items.push_back(Item("estatic").set("n", rng.range(1, 2)));
    exits = rng.chance(0.5);
  }
  const double p_snap = mode == MODE_C01 ? 0.3 : 0.1;
  for (int t = 0; t < nt; ++t) {
    const int n = rng.range(1, thorough ? 9 : 6);
    if (mode == MODE_C03 && rng.chance(0.2)) plan->items.push_back(Item("O").set("t", t).set("k", "tl"));
    for (int k = 0; k < n; ++k) {
      Item o("O");
      o.set("t", t);
      if (rng.chance(p_snap) && (!cap || cap_snaps-- > 0)) {
        o.set("k", "snap");
      } else if (mode == MODE_C02 && rng.chance(0.35)) {
        const int w = rng.range(0, 3);
        if (w == 0) o.set("k", "adv").setd("ns", std::floor(rng.log10uni(0, 15)));
        if (w == 1 || w == 2) o.set("k", "wall").setd("ns", std::floor((rng.chance(0.5) ? -1 : 1) * rng.log10uni(2, 18)));
        if (w == 3) o.set("k", "freeze").set("on", rng.range(0, 1));
      } else if (mode == MODE_C01 && rng.chance(0.1)) {
        o.set("k", "submit").set("ts", rng.range(0, 100000)).set("dur", rng.range(0, 5000000));
        if (!cap && rng.chance(0.4)) o.set("rep", rng.range(0, 3)).set("n", rng.range(1, 4));
      } else if (mode == MODE_C01 && !cap && rng.chance(0.12)) {
        o.set("k", "rep").set("rep", rng.range(0, 3)).set("n", rng.range(1, 4));
      } else if (mode == MODE_C03 && rng.chance(0.35)) {
        o.set("k", "oom").set("at", rng.range(0, rng.chance(0.5) ? 3 : 20)).set("len", rng.chance(0.6) ? 1 : rng.range(2, 40));
        if (rng.chance(0.5)) o.set("new", 1);
      } else if (mode == MODE_C03 && rng.chance(0.08)) {
        o.set("k", rng.chance(0.5) ? "static" : "atexit").set("n", rng.range(1, 2));
      } else {
        o.set("k", "scope").set("d", rng.chance(0.5) ? 1 : rng.range(2, 5)).setu("seed", rng.next() >> 30);
        if (special && rng.chance(0.5)) o.set("nm", rng.range(1, 12));
        if (mode == MODE_C02 || rng.chance(0.3)) {
          const double lo = rng.uni(0, 6);
          o.setd("lo", lo).setd("hi", lo + rng.uni(0.1, rng.chance(0.2) ? 9 : 3));
          if (rng.chance(0.5)) o.set("wall", 1);
        }
        if (rng.chance(mode == MODE_C03 ? 0.4 : 0.12)) {
          o.set("thr", rng.range(1, 2)).set("catch", rng.range(0, 3));
          if (rng.chance(0.5)) o.set("ud", rng.range(1, 3));
        }
        if (!cap && rng.chance(p_snap / 3)) o.set("snap", 1);
      }
      plan->items.push_back(o);
    }
    if (t == 0 && exits) plan->items.push_back(Item("O").set("t", 0).set("k", "exit"));
  }
}
void GenC01(Plan* p, Rng& r, bool th) { GenTrace(p, r, th, MODE_C01); }
void GenC02(Plan* p, Rng& r, bool th) { GenTrace(p, r, th, MODE_C02); }
void GenC03(Plan* p, Rng& r, bool th) { GenTrace(p, r, th, MODE_C03); }

// ---------------------------------------------------------------- C04
struct Job {
  int thread = 0;
  Inst* inst = nullptr;
  SolveRec like;   // parameters, start, faults
  Item item;
  std::vector<Field> want;
  std::string want_desc;
  int nest_in = -1;     // index of the job whose callback runs this one
  int nest_at = 0, nest_site = -1;
  bool qp = false;
  std::shared_ptr<QpBox> box;
  uint64_t overlap = 0;
};
std::deque<Job>* g_jobs = nullptr;
int g_running = 0;

void RunJob(size_t k, std::map<std::pair<Inst*, bool>, std::unique_ptr<Solver>>* pool);

std::vector<Field> SolveJob(size_t k, std::string* desc, bool nested, std::map<std::pair<Inst*, bool>, std::unique_ptr<Solver>>* pool) {
  Job& j = (*g_jobs)[k];
  if (j.qp) return QpBoxSolve(*j.box, j.item);
  SolveRec r;
  r.params = j.like.params;
  r.start = j.like.start;
  r.has_cb = j.like.has_cb;
  r.cancel_at = j.like.cancel_at;
  r.faults = j.like.faults;
  r.record = false;
  int calls = 0;
  if (nested) {
    bool any = false;
    for (const Job& q : *g_jobs) any = any || q.nest_in == static_cast<int>(k);
    if (any || g_jobs)
      r.hook = [&calls, k](int site) {
        SchedYield();
        ++calls;
        for (size_t q = 0; q < g_jobs->size(); ++q) {
          const Job& c = (*g_jobs)[q];
          if (c.nest_in == static_cast<int>(k) && q > k && calls == c.nest_at && (c.nest_site < 0 || c.nest_site == site)) {
            Count("nested_solves");
            RunJob(q, nullptr);
          }
        }
      };
  }
  std::unique_ptr<Solver> own;
  Solver* s;
  if (pool) {
    auto& p = (*pool)[{j.inst, r.has_cb}];
    if (!p) {
      p = std::make_unique<Solver>();
      MakeSolver(p.get(), j.inst, r.has_cb);
    }
    s = p.get();
  } else {
    own = std::make_unique<Solver>();
    MakeSolver(own.get(), j.inst, r.has_cb);
    s = own.get();
  }
  RunSolve(s, &r);
  std::vector<Field> f = Flatten(r);
  *desc = Describe(r);
  if (own) DestroySolver(own.get());
  return f;
}

void RunJob(size_t k, std::map<std::pair<Inst*, bool>, std::unique_ptr<Solver>>* pool) {
  Job& j = (*g_jobs)[k];
  if (++g_running > 1) Count("overlapping_solves");
  std::string desc;
  const std::vector<Field> got = SolveJob(k, &desc, true, pool);
  --g_running;
  const std::string d = DiffFields(got, j.want);
  if (!d.empty())
    Violation("isolation", "solve %zu on thread %d differs from the same solve alone: %s", k, SchedSelf(), d.c_str());
  Log("job %zu t%d ok", k, SchedSelf());
  Count("solves");
}

struct SolveThread {
  std::vector<size_t> jobs;
  std::map<size_t, int> snaps;
};
void SolveThreadBody(void* p) {
  SolveThread* a = static_cast<SolveThread*>(p);
  std::map<std::pair<Inst*, bool>, std::unique_ptr<Solver>> pool;
  for (size_t k : a->jobs) {
    SchedYield();
    RunJob(k, (*g_jobs)[k].item.i("own", 0) ? nullptr : &pool);
    if ((*g_jobs)[k].item.i("snap", 0)) {
      LibScope ls;
      const std::string s = mini_opt::trace_collector::get_instance()->get_trace_json();
    }
  }
  for (auto& s : pool) DestroySolver(s.second.get());
}

void RunC04(const Plan& plan) {
  g_jobs = new std::deque<Job>;
  World w(plan);
  std::vector<std::shared_ptr<QpBox>> boxes;
  for (const Item& it : plan.items)
    if (it.type == "Q") boxes.push_back(MakeQpBox(it));
  int k = 0;
  std::map<int, SolveThread> threads;
  threads[0];
  for (const Item& it : plan.items) {
    if (it.type != "R" && it.type != "V") continue;
    if (it.type == "V" && boxes.empty()) continue;
    g_jobs->emplace_back();
    Job& j = g_jobs->back();
    j.item = it;
    j.thread = static_cast<int>(it.i("t", 0)) % 6;
    if (it.type == "V") {
      j.qp = true;
      j.box = boxes[static_cast<size_t>(it.i("q", 0)) % boxes.size()];
    } else {
      j.inst = w.inst(static_cast<int>(it.i("s", 0)));
      j.like = MakeRec(j.inst, it);
      j.like.faults = FaultsOf(plan, k);
    }
    j.nest_in = static_cast<int>(it.i("in", -1));
    j.nest_at = static_cast<int>(it.i("at", 1));
    if (j.nest_in >= k || (j.nest_in >= 0 && (*g_jobs)[static_cast<size_t>(j.nest_in)].qp)) j.nest_in = -1;
    if (j.nest_in < 0) threads[j.thread].jobs.push_back(static_cast<size_t>(k));
    ++k;
  }
  for (size_t q = 0; q < g_jobs->size(); ++q) (*g_jobs)[q].want = SolveJob(q, &(*g_jobs)[q].want_desc, false, nullptr);
  SchedConfigure(plan);
  SchedStart();
  std::vector<int> ids;
  for (auto& t : threads)
    if (t.first != 0) ids.push_back(SchedSpawn(SolveThreadBody, &t.second));
  SolveThreadBody(&threads[0]);
  for (int id : ids) SchedJoin(id);
  MemCheckHeap();
  Count("sched.switches", SchedSwitches());
  Count("sched.steps", SchedSteps());
  State(SchedScheduleHash());
  if (SchedSwitches() > ids.size()) NonTrivial();
}

void GenC04(Plan* plan, Rng& rng, bool thorough) {
  plan->items.push_back(GenSched(rng, false, 30.0));
  const int np = rng.range(1, 2);
  for (int i = 0; i < np; ++i) plan->items.push_back(GenAnyProblem(rng, i, thorough ? 5 : 4));
  const bool qp = rng.chance(0.35);
  if (qp) plan->items.push_back(QpGenProblem(rng, 0, rng.chance(0.7)));
  const int nt = rng.range(1, thorough ? 4 : 3);
  int k = 0;
  std::vector<int> nls_jobs;
  std::vector<Item> faults;
  for (int t = 0; t < nt; ++t) {
    const int n = rng.range(1, nt == 1 ? 3 : 2);
    for (int q = 0; q < n; ++q) {
      if (qp && rng.chance(0.4)) {
        plan->items.push_back(QpGenOp(rng, 1).set("t", t));
      } else {
        Item r = GenAnySolve(rng, rng.range(0, np - 1));
        r.set("t", t).set("mi", rng.range(1, 4));
        if (rng.chance(0.3)) r.set("own", 1);
        if (rng.chance(0.15)) r.set("snap", 1);
        if (rng.chance(0.1)) r.set("cancel", rng.range(0, 2));
        plan->items.push_back(r);
        nls_jobs.push_back(k);
        if (rng.chance(0.35)) {
          static const std::vector<std::string> kinds = {"nan", "inf", "throw", "throwpod", "perturb", "scale", "zero"};
          static const std::vector<std::string> sites = {"eval", "trial", "lin", "retr", "cb"};
          Item f("F");
          const std::string site = rng.pick(sites);
          const std::string kind = site == "cb" ? "throw" : rng.pick(kinds);
          f.set("r", k).set("site", site).set("kind", kind).set("pos", rng.range(0, 15)).set("comp", rng.range(0, 4)).set("id", k + 1);
          if (kind == "perturb" || kind == "scale") f.setd("mag", rng.log10uni(-2, 2));
          faults.push_back(f);
        }
      }
      ++k;
    }
  }
  if (!nls_jobs.empty() && (nt == 1 || rng.chance(0.35))) {
    const int n = rng.range(1, 2);
    for (int q = 0; q < n; ++q) {
      Item r = (qp && rng.chance(0.3)) ? QpGenOp(rng, 1) : GenAnySolve(rng, rng.range(0, np - 1));
      r.set("in", rng.pick(nls_jobs)).set("at", rng.range(1, rng.chance(0.5) ? 6 : 30)).set("mi", rng.range(1, 4));
      plan->items.push_back(r);
    }
  }
  for (Item& f : faults) plan->items.push_back(f);
}
}  // namespace

void RegisterThreads(std::vector<PropDef>* t) {
  t->push_back({"C01", GenC01, RunTrace});
  t->push_back({"C02", GenC02, RunTrace});
  t->push_back({"C03", GenC03, RunTrace});
  t->push_back({"C04", GenC04, RunC04});
}

// Registered before every static object exists, so it runs after all of them are gone.
static void LastHandler() {
  if (!g_exiting) return;
  HarnessScope hs;
  ExitHandler(5);
  Count("exits_completed");
  // let the other threads go on for a while, they too may still leave scopes
  for (int i = 0; i < 40; ++i) SchedYield();
  Log("exit complete schedule %016lx", static_cast<unsigned long>(SchedScheduleHash()));
  State(SchedScheduleHash());
  if (FiredTotal()) Count("fault.alloc", FiredTotal());
  FinishOk();
}
__attribute__((constructor(101))) static void RegisterLast() { atexit(LastHandler); }

}  // namespace sim
#endif
