// Generators and runners for the nonlinear-solver properties C05..C13, C15.
#include <cmath>
#include <set>

#include <Eigen/Dense>

#include "nls.hpp"
#include "worlds.hpp"

namespace sim {

// ---------------------------------------------------------------- generation helpers
struct GenOpts {
  std::vector<std::string> fams;
  int eq = 1;    // 0 never, 1 sometimes, 2 always
  int box = 1;
  int nleq = 1;
  int retr = 1;  // 0 none, 1 sometimes, 2 only additive without wrap
  int maxn = 5;
  double whole = 0;  // how often the problem is in multiples of a quarter
};
static const std::vector<std::string> kAllFams = {"lin", "rosen", "himmel", "circle", "exp", "log",
                                                  "link", "wavy", "atan", "pow", "lin", "rankdef"};

static Item GenProblem(Rng& rng, int id, const GenOpts& o) {
  Item p("P");
  const std::string fam = rng.pick(o.fams);
  const int n = rng.range(1, rng.chance(0.8) ? std::min(4, o.maxn) : o.maxn);
  p.set("id", id).set("fam", fam).set("n", n).setu("seed", rng.next() >> 20);
  const bool eq = o.eq == 2 || (o.eq == 1 && rng.chance(0.4));
  const bool box = o.box == 2 || (o.box == 1 && rng.chance(0.45));
  if (eq) p.set("eq", rng.range(1, std::max(1, n - 1)));
  if (eq && o.nleq && rng.chance(0.5)) p.set("nleq", 1);
  if (fam == "circle" && o.nleq && rng.chance(0.7) && o.eq) p.set("eq", 1).set("nleq", 1);
  if (box) p.set("box", rng.range(1, 2 + n));
  if (rng.chance(0.25)) p.setd("cscale", rng.log10uni(-3, 3));
  if (o.retr == 1 && rng.chance(0.5)) p.set("retr", rng.range(1, 2));
  if (o.retr == 2 && rng.chance(0.5)) p.set("retr", 1);
  if (fam == "log" && o.box && rng.chance(0.5)) p.set("guard", 0);
  if (fam == "log" && !o.box) p.set("guard", 0);
  if (n > 1 && (fam == "lin" || fam == "rankdef" || p.has("eq")) && rng.chance(0.2)) p.set("twice", 1);
  if (o.whole > 0 && rng.chance(o.whole)) p.set("whole", 1);
  return p;
}

static Item GenSolve(Rng& rng, int s, bool feasible) {
  Item r("R");
  r.set("s", s);
  RandomParams(rng, &r, 0);
  r.setu("xs", rng.next() >> 30);
  if (feasible) r.set("feas", 1);
  r.setd("scale", rng.chance(0.2) ? rng.uni(1, 20) : (rng.chance(0.25) ? rng.log10uni(-6, -1) : rng.uni(0.1, 1)));
  if (rng.chance(0.15)) r.set("cb", 0);
  return r;
}

// Response faults: values come back wrong, transiently or for a while.
static void GenResponseFaults(Rng& rng, Plan* plan, int r, int count, const std::vector<std::string>& kinds,
                              double p_trial = 0.5) {
  for (int k = 0; k < count; ++k) {
    Item f("F");
    const std::string kind = rng.pick(kinds);
    f.set("r", r).set("id", k + 1);
    const double u = rng.u01();
    std::string site = u < p_trial ? "trial" : (u < p_trial + 0.3 ? "lin" : "eval");
    if (rng.chance(0.05)) site = "retr";
    f.set("site", site).set("kind", kind);
    f.setu("pos", rng.chance(0.5) ? rng.below(12) : rng.below(60));
    if (rng.chance(0.5)) f.set("len", rng.chance(0.6) ? rng.range(2, 6) : rng.range(6, 60));
    f.set("comp", rng.range(0, 8));
    if (site != "trial" && rng.chance(0.4)) f.set("where", 1);
    if (kind == "scale") f.setd("mag", rng.chance(0.3) ? -1.0 : rng.log10uni(-3, 3));
    if (kind == "perturb") f.setd("mag", (rng.chance(0.5) ? -1 : 1) * rng.log10uni(-6, 3));
    if (kind == "stall") f.setd("mag", rng.log10uni(3, 12));
    plan->items.push_back(f);
  }
}
static const std::vector<std::string> kWarp = {"scale", "perturb", "perturb", "negJ", "zero", "huge", "stall"};
static const std::vector<std::string> kNonFinite = {"nan", "inf", "ninf", "huge"};

Item GenAnyProblem(Rng& rng, int id, int maxn) {
  GenOpts o;
  o.fams = kAllFams;
  o.maxn = maxn;
  return GenProblem(rng, id, o);
}
Item GenAnySolve(Rng& rng, int s) { return GenSolve(rng, s, rng.chance(0.5)); }

// ---------------------------------------------------------------- running helpers
World::World(const Plan& plan) {
  for (const Item& it : plan.items)
    if (it.type == "P") insts.push_back(BuildInst(it));
  if (insts.empty()) {
    Item p("P");
    p.set("fam", "lin").set("n", 2).set("seed", 1);
    insts.push_back(BuildInst(p));
  }
}
Inst* World::inst(int i) { return insts[static_cast<size_t>(i < 0 ? 0 : i) % insts.size()].get(); }

SolveRec MakeRec(Inst* inst, const Item& it) {
  SolveRec r;
  r.inst = inst;
  r.params = ParamsFromItem(it);
  r.start = MakeStart(*inst, it.u("xs", 1), it.i("feas", 0) != 0, it.d("scale", 1.0));
  if (it.has("odd") && r.start.rows() > 0) {  // a start that is not finite: no result to speak of, but the same one each time
    const uint64_t o = it.u("odd", 0);
    r.start[static_cast<long>(o / 3 % static_cast<uint64_t>(r.start.rows()))] = o % 3 == 0 ? std::numeric_limits<double>::quiet_NaN() : o % 3 == 1 ? std::numeric_limits<double>::infinity() : 1e200;
    Count("fault.start.nonfinite");
  }
  r.has_cb = it.i("cb", 1) != 0;
  r.cancel_at = static_cast<int>(it.i("cancel", -1));
  return r;
}
// Faults of the k-th R item; throw positions wrap into the undisturbed run's counts.
std::vector<FaultSpec> FaultsOf(const Plan& plan, int k) {
  std::vector<FaultSpec> v;
  for (const Item& it : plan.items)
    if (it.type == "F" && it.i("r", 0) == k) v.push_back(FaultFromItem(it));
  return v;
}
void WrapPositions(std::vector<FaultSpec>* fs, const SolveRec& golden) {
  for (FaultSpec& f : *fs) {
    uint64_t n = f.site == "lin" ? golden.n_lin : f.site == "trial" ? golden.n_trial : f.site == "retr" ? golden.n_retr
               : f.site == "cb" ? golden.n_cb : golden.n_eval;
    if (n) f.pos %= n;
  }
}
SolveRec Golden(Inst* inst, const SolveRec& like, bool record) {
  SolveRec g;
  g.params = like.params;
  g.start = like.start;
  g.has_cb = like.has_cb;
  g.record = record;
  Solver s;
  MakeSolver(&s, inst, like.has_cb);
  RunSolve(&s, &g);
  DestroySolver(&s);
  return g;
}

static void CountOutcome(const SolveRec& r) {
  Count("solves");
  Count("evaluations", r.n_eval);
  if (r.threw) {
    Count(("outcome.threw." + r.ex.substr(0, 24)).c_str());
  } else if (r.out) {
    static const char* nm[] = {"outcome.max_iterations", "outcome.absolute", "outcome.relative", "outcome.first_order",
                               "outcome.max_lambda", "outcome.indefinite", "outcome.user"};
    Count(nm[static_cast<int>(r.out->termination_state) % 7]);
    static const char* sn[] = {"step.success", "step.max_iterations", "step.first_order", "step.positive_derivative",
                               "step.non_finite", "step.invalid_alpha"};
    for (auto& it : r.out->iterations) Count(sn[static_cast<int>(it.step_result) % 6]);
    if (r.out->iterations.size() >= 2) NonTrivial();
  }
  if (r.fired) NonTrivial();
  State(OutcomeShape(r));
}

// Solves of a plan, each on a per-problem solver object that lives for the whole run.
template <typename F>
static void ForEachSolve(const Plan& plan, F&& after) {
  World w(plan);
  std::vector<std::unique_ptr<Solver>> solvers(w.insts.size() * 2);
  int k = 0;
  for (const Item& it : plan.items) {
    if (it.type != "R") continue;
    const size_t pi = static_cast<size_t>(it.i("s", 0)) % w.insts.size();
    Inst* inst = w.insts[pi].get();
    SolveRec r = MakeRec(inst, it);
    r.faults = FaultsOf(plan, k);
    if (!r.faults.empty()) {
      const SolveRec g = Golden(inst, r, false);
      WrapPositions(&r.faults, g);
    }
    auto& sp = solvers[pi * 2 + (r.has_cb ? 1 : 0)];
    if (!sp) {
      sp = std::make_unique<Solver>();
      MakeSolver(sp.get(), inst, r.has_cb);
    }
    Log("solve %d problem %zu", k, pi);
    RunSolve(sp.get(), &r);
    LogOutcome("outcome", r);
    CountOutcome(r);
    after(r, *inst);
    ++k;
  }
  for (auto& s : solvers)
    if (s) DestroySolver(s.get());
  MemCheckHeap();
}

// ---------------------------------------------------------------- C08 .. C13, C15
static void GenC08(Plan* plan, Rng& rng, bool thorough) {
  GenOpts o;
  o.fams = kAllFams;
  o.whole = 0.15;
  o.maxn = thorough ? 7 : 5;
  plan->items.push_back(GenProblem(rng, 0, o));
  const int runs = rng.range(1, thorough ? 5 : 3);
  for (int k = 0; k < runs; ++k) plan->items.push_back(GenSolve(rng, 0, rng.chance(0.6)));
  for (int k = 0; k < runs; ++k) {
    if (rng.chance(0.15)) continue;
    GenResponseFaults(rng, plan, k, rng.range(1, 3), kNonFinite);
    if (rng.chance(0.3)) GenResponseFaults(rng, plan, k, 1, kWarp);
    if (rng.chance(0.2)) plan->items.push_back(Item("F").set("r", k).set("site", "retr").set("kind", "nan").setu("pos", rng.below(20)).set("comp", rng.range(0, 4)).set("id", 9));
  }
}
static void RunC08(const Plan& plan) {
  ForEachSolve(plan, [](SolveRec& r, Inst&) { CheckC08(r, Segment(r)); });
}

static void GenWarp(Plan* plan, Rng& rng, bool thorough) {
  GenOpts o;
  o.fams = kAllFams;
  o.whole = 0.15;
  o.maxn = thorough ? 7 : 5;
  const int probs = rng.chance(0.8) ? 1 : 2;
  for (int i = 0; i < probs; ++i) plan->items.push_back(GenProblem(rng, i, o));
  const int runs = rng.range(1, thorough ? 5 : 3);
  for (int k = 0; k < runs; ++k) {
    Item r = GenSolve(rng, rng.range(0, probs - 1), rng.chance(0.5));
    if (rng.chance(0.12)) r.set("cancel", rng.range(0, 5));
    plan->items.push_back(r);
  }
  for (int k = 0; k < runs; ++k) {
    if (rng.chance(0.3)) continue;
    GenResponseFaults(rng, plan, k, rng.range(1, 4), kWarp, 0.7);
    if (rng.chance(0.2)) GenResponseFaults(rng, plan, k, 1, kNonFinite);
    if (rng.chance(0.06)) {
      plan->items.push_back(Item("F").set("r", k).set("site", rng.chance(0.5) ? "eval" : "cb").set("kind", "throw").setu("pos", rng.below(40)).set("id", 77));
    }
  }
}
static void RunC09(const Plan& plan) {
  ForEachSolve(plan, [](SolveRec& r, Inst&) { CheckC09(r, Segment(r)); });
}
static void RunC10(const Plan& plan) {
  ForEachSolve(plan, [](SolveRec& r, Inst&) { CheckC10(r, Segment(r)); });
}
static void RunC12(const Plan& plan) {
  ForEachSolve(plan, [](SolveRec& r, Inst&) { CheckC12(r, Segment(r)); });
}
static void RunC13(const Plan& plan) {
  ForEachSolve(plan, [](SolveRec& r, Inst&) { CheckC13(r, Segment(r)); });
}
// C10: aim at the thresholds: tolerances chosen next to values the undisturbed solve produces.
static void GenC10(Plan* plan, Rng& rng, bool thorough) {
  GenWarp(plan, rng, thorough);
  for (Item& it : plan->items)
    if (it.type == "R" && rng.chance(0.6)) it.set("aim", rng.range(1, 4)).set("aimk", rng.range(0, 6)).setd("aimf", rng.log10uni(-0.7, 0.7));
}
static void RunC10Aimed(const Plan& plan) {
  Plan p = plan;
  World w(plan);
  for (Item& it : p.items) {
    if (it.type != "R" || !it.has("aim")) continue;
    Inst* inst = w.inst(static_cast<int>(it.i("s", 0)));
    const SolveRec g = Golden(inst, MakeRec(inst, it), false);
    if (!g.out || g.out->iterations.empty()) continue;
    const auto& rec = g.out->iterations[static_cast<size_t>(it.i("aimk", 0)) % g.out->iterations.size()];
    const double f = it.d("aimf", 1.0);
    switch (it.i("aim", 0)) {
      case 1:
        if (!rec.line_search_steps.empty()) {
          const double v = rec.line_search_steps.back().errors.LInfinity() * f;
          if (v > 1e-200 && v < 1e200) it.setd("abs", v);
        }
        break;
      case 2:
        if (!rec.line_search_steps.empty()) {
          const double m0 = rec.errors_initial.Total(rec.penalty), m1 = rec.line_search_steps.back().errors.Total(rec.penalty);
          const double v = (1 - m1 / m0) * f;
          if (v >= 0 && v <= 1) it.setd("rel", v);
        }
        break;
      case 3: {
        const double a = std::abs(rec.directional_derivatives.d_f), b = std::abs(rec.directional_derivatives.d_equality);
        // between the two, or next to the larger one
        const double v = (f < 1 && std::min(a, b) > 0) ? std::sqrt(a * b) : std::max(a, b) * f;
        if (v >= 0 && v < 1e200) it.setd("fo", v);
        break;
      }
      case 4: {
        const double v = std::max(rec.lambda, it.d("lf", 1e-2)) * 10 * f;
        if (v >= it.d("l0", 0.0) && v >= it.d("lmin", 0.0) && v < 1e12) it.setd("lmax", v);
        break;
      }
    }
  }
  RunC10(p);
}

static void GenC15(Plan* plan, Rng& rng, bool thorough) {
  GenOpts o;
  o.fams = kAllFams;
  o.box = 2;
  o.retr = 2;
  o.maxn = thorough ? 7 : 5;
  plan->items.push_back(GenProblem(rng, 0, o));
  const int runs = rng.range(1, thorough ? 5 : 3);
  for (int k = 0; k < runs; ++k) {
    Item r = GenSolve(rng, 0, true);
    if (rng.chance(0.4)) r.set("mq", rng.range(1, 4));
    if (rng.chance(0.1)) r.set("cancel", rng.range(0, 5));
    if (k > 0 && rng.chance(0.5)) r.set("cont", 1);  // continue from the current variables
    plan->items.push_back(r);
  }
  for (int k = 0; k < runs; ++k) {
    if (rng.chance(0.35)) continue;
    GenResponseFaults(rng, plan, k, rng.range(1, 3), kWarp, 0.5);
    if (rng.chance(0.3)) GenResponseFaults(rng, plan, k, 1, kNonFinite, 0.8);
    if (rng.chance(0.1)) plan->items.push_back(Item("F").set("r", k).set("site", "eval").set("kind", "throw").setu("pos", rng.below(40)).set("id", 77));
  }
}
static void RunC15(const Plan& plan) {
  World w(plan);
  std::vector<std::unique_ptr<Solver>> solvers(w.insts.size());
  int k = 0;
  for (const Item& it : plan.items) {
    if (it.type != "R") continue;
    const size_t pi = static_cast<size_t>(it.i("s", 0)) % w.insts.size();
    Inst* inst = w.insts[pi].get();
    SolveRec r = MakeRec(inst, it);
    r.has_cb = true;
    r.start = MakeStart(*inst, it.u("xs", 1), true, it.d("scale", 1.0));
    r.faults = FaultsOf(plan, k);
    // NaN or perturbed candidate points are the retraction's doing, not the solver's
    for (size_t i = r.faults.size(); i-- > 0;)
      if (r.faults[i].site == "retr" && r.faults[i].kind != "throw") r.faults.erase(r.faults.begin() + static_cast<long>(i));
    if (!solvers[pi]) {
      solvers[pi] = std::make_unique<Solver>();
      MakeSolver(solvers[pi].get(), inst, true);
    } else if (it.i("cont", 0)) {
      const Vec v = solvers[pi]->impl->variables();
      if (inst->Feasible(v, 0.0)) r.start = v;
    }
    if (!inst->Feasible(r.start, 0.0)) {
      Count("skip.infeasible_start");
      ++k;
      continue;
    }
    // non-finite Jacobians make the candidate non-finite; such points satisfy no inequality
    for (FaultSpec& f : r.faults)
      if (f.kind == "nan" || f.kind == "inf" || f.kind == "ninf" || f.kind == "huge") {
        f.where = 0;
        if (f.site != "trial") f.site = "trial";
      }
    RunSolve(solvers[pi].get(), &r);
    LogOutcome("outcome", r);
    CountOutcome(r);
    CheckC15(r);
    ++k;
  }
  for (auto& s : solvers)
    if (s) DestroySolver(s.get());
}

// ---------------------------------------------------------------- C05
static void GenC05(Plan* plan, Rng& rng, bool thorough) {
  GenOpts o;
  o.fams = kAllFams;
  o.whole = 0.15;
  o.maxn = thorough ? 6 : 4;
  plan->items.push_back(GenProblem(rng, 0, o));
  Item r = GenSolve(rng, 0, rng.chance(0.6));
  if (rng.chance(0.8)) r.set("cb", 1);
  r.set("mi", rng.range(1, 10));
  plan->items.push_back(r);
  Item r2 = GenSolve(rng, 0, rng.chance(0.6));
  r2.set("next", 1).set("cb", r.i("cb", 1) != 0 ? 1 : 0);
  if (rng.chance(0.5)) plan->items.push_back(r2);
  const int shots = rng.range(2, thorough ? 10 : 5);
  for (int k = 0; k < shots; ++k) {
    if (rng.chance(0.5)) {
      Item f("A");  // an abort by exception
      const double u = rng.u01();
      f.set("site", u < 0.35 ? "eval" : u < 0.5 ? "lin" : u < 0.75 ? "trial" : u < 0.87 ? "retr" : "cb");
      f.set("kind", rng.chance(0.7) ? "throw" : "throwpod").setu("pos", rng.below(100000)).set("id", k + 1).set("comp", rng.range(0, 5));
      if (rng.chance(0.3)) f.set("same", 1);
      plan->items.push_back(f);
    } else {
      Item f("A");  // an abort by allocation failure
      f.set("site", rng.chance(0.6) ? "new" : "malloc").setu("pos", rng.below(1000000)).set("len", rng.chance(0.8) ? 1 : rng.range(2, 20)).set("id", k + 1);
      if (rng.chance(0.3)) f.set("same", 1);
      plan->items.push_back(f);
    }
  }
}

struct AbortCase {
  bool oom = false;
  bool only_new = false;
  uint64_t at = 0, len = 1;
  FaultSpec f;
};
static void ExpectedVariables(const SolveRec& g, const SolveRec& a, const Vec& before, std::vector<Vec>* allowed) {
  // a's events are a prefix of g's
  const History hg = Segment(g);
  size_t m = a.evs.size();
  if (m == 0) {
    allowed->push_back(a.start);
    allowed->push_back(before);  // nothing had begun yet
    return;
  }
  size_t seen = 0;
  for (size_t k = 0; k < hg.it.size(); ++k) {
    const IterView& v = hg.it[k];
    const size_t nj = v.jev.size();
    size_t nt = 0;
    for (const Trial& t : v.trials) nt += t.evals.size() + (t.retr ? 1 : 0);
    const size_t nc = v.cb ? 1 : 0;
    const Vec* nextx = k + 1 < hg.it.size() && hg.it[k + 1].complete ? &hg.it[k + 1].x : (g.threw ? nullptr : &g.final);
    if (m <= seen + nj + nt + nc) {
      const size_t in = m - seen;
      if (in <= nj) {
        allowed->push_back(v.complete ? v.x : g.start);
        if (in == nj && nt == 0 && nextx) allowed->push_back(*nextx);
        return;
      }
      if (in <= nj + nt) {
        allowed->push_back(v.x);
        if (in == nj + nt && nextx) allowed->push_back(*nextx);
        return;
      }
      if (nextx) allowed->push_back(*nextx);
      allowed->push_back(v.cb->x_in);
      return;
    }
    seen += nj + nt + nc;
  }
  allowed->push_back(g.final);
}
static bool SameVec(const Vec& a, const Vec& b) {
  if (a.rows() != b.rows()) return false;
  for (int i = 0; i < a.rows(); ++i) {
    double x = a[i], y = b[i];
    if (x != x && y != y) continue;
    if (memcmp(&x, &y, 8) != 0) return false;
  }
  return true;
}
static std::string VecStr(const Vec& v) {
  std::string s = "[";
  char buf[40];
  for (int i = 0; i < v.rows(); ++i) {
    snprintf(buf, sizeof buf, "%s%.17g", i ? " " : "", v[i]);
    s += buf;
  }
  return s + "]";
}
static bool SameEv(const Ev& a, const Ev& b) {
  if (a.t != b.t || a.spec != b.spec || a.hasJ != b.hasJ) return false;
  auto eq = [](const std::vector<double>& x, const std::vector<double>& y) {
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); ++i)
      if (!(x[i] != x[i] && y[i] != y[i]) && memcmp(&x[i], &y[i], 8) != 0) return false;
    return true;
  };
  if (a.t == Ev::EVAL) return eq(a.p, b.p);
  if (a.t == Ev::RETR) return a.alpha == b.alpha && SameVec(a.x_in, b.x_in) && SameVec(a.dx, b.dx);
  return SameVec(a.x_in, b.x_in);
}

// Runs: solver constructed, (optionally an earlier good solve,) aborted solve, good solve, destroyed.
// Returns leaked block count.
static uint64_t AbortScenario(Inst* inst, const SolveRec& proto, const SolveRec& next, const AbortCase& ac,
                              const SolveRec& g, const std::vector<Field>& want_next, bool warm_first, bool judge,
                              std::string* leak) {
  MemSnapshot();
  const bool has_cb = proto.has_cb;
  {
    Solver s;
    MakeSolver(&s, inst, has_cb);
    if (warm_first) {
      SolveRec w;
      w.params = next.params;
      w.start = next.start;
      w.record = false;
      RunSolve(&s, &w);
    }
    const Vec before = s.impl->variables();
    SolveRec a;
    a.params = proto.params;
    a.start = proto.start;
    if (ac.oom) {
      MemReset();
      g_memfault.armed = true;
      g_memfault.only_new = ac.only_new;
      g_memfault.at = ac.at;
      g_memfault.len = ac.len;
    } else {
      a.faults.push_back(ac.f);
    }
    const uint64_t f0 = g_memstats.fired_new + g_memstats.fired_malloc;
    RunSolve(&s, &a);
    g_memfault.armed = false;
    const bool fired = ac.oom ? g_memstats.fired_new + g_memstats.fired_malloc > f0 : a.fired > 0;
    if (judge) {
      LogOutcome(ac.oom ? "aborted-oom" : "aborted", a);
      State(HashU(static_cast<uint64_t>(a.evs.size()), OutcomeShape(a)));
      Count(a.threw ? "aborted_solves" : "completed_solves");
      if (fired) NonTrivial();
      for (size_t i = 0; i < a.evs.size(); ++i)
        if (i >= g.evs.size() || !SameEv(a.evs[i], g.evs[i]))
          Violation("abort-diverged", "event %zu of the solve before the abort differs from the undisturbed solve", i);
      if (fired && !a.threw) {
        // a failed allocation may be absorbed if the solve did not need it
        const std::string d = ac.oom ? DiffFields(Flatten(a), Flatten(g)) : "no exception reached the caller";
        if (!d.empty())
          Violation("abort-swallowed", "%s at %s #%lu: the solve returned normally: %s", ac.oom ? "allocation failure" : "exception",
                    ac.oom ? (ac.only_new ? "operator new" : "allocation") : ac.f.site.c_str(),
                    static_cast<unsigned long>(ac.oom ? ac.at : ac.f.pos), d.c_str());
      }
      if (a.threw && fired) {
        const std::string want = ac.oom ? "bad_alloc" : (ac.f.kind == "throwpod" ? "InjectedPod" : "InjectedStd");
        if (a.ex != want || (!ac.oom && a.ex_id != ac.f.id))
          Violation("abort-exception", "injected %s, caller received %s (id %d)", want.c_str(), a.ex.c_str(), a.ex_id);
        std::vector<Vec> allowed;
        ExpectedVariables(g, a, before, &allowed);
        bool ok = false;
        for (const Vec& v : allowed) ok = ok || SameVec(v, a.final);
        if (!ok) {
          std::string al;
          for (const Vec& v : allowed) al += VecStr(v) + " ";
          Violation("abort-variables", "after the aborted solve variables are %s, last accepted iterate is %s", VecStr(a.final).c_str(), al.c_str());
        }
      }
    }
    SolveRec b;
    b.params = next.params;
    b.start = next.start;
    b.record = false;
    RunSolve(&s, &b);
    if (judge) {
      const std::string d = DiffFields(Flatten(b), want_next);
      if (!d.empty()) Violation("abort-next", "the solve after the aborted one differs from a new solver's: %s", d.c_str());
      MemCheckHeap();
    }
    DestroySolver(&s);
  }
  return MemLeaked(leak);
}

static void RunC05(const Plan& plan) {
  World w(plan);
  Inst* inst = w.inst(0);
  const Item* ra = nullptr;
  const Item* rn = nullptr;
  for (const Item& it : plan.items)
    if (it.type == "R") {
      if (it.i("next", 0))
        rn = &it;
      else if (!ra)
        ra = &it;
    }
  if (!ra) return;
  if (!rn) rn = ra;
  SolveRec proto = MakeRec(inst, *ra), next = MakeRec(inst, *rn);
  next.has_cb = proto.has_cb;
  MemReset();
  const SolveRec g0 = Golden(inst, proto, true);
  // allocation counts of an undisturbed solve on a new object (after warm-up of lazily created state)
  uint64_t n_new = 0, n_all = 0;
  SolveRec g;
  {
    Solver s;
    MakeSolver(&s, inst, proto.has_cb);
    g.params = proto.params;
    g.start = proto.start;
    MemReset();
    RunSolve(&s, &g);
    n_new = g_memstats.lib_new;
    n_all = g_memstats.lib_new + g_memstats.lib_malloc;
    DestroySolver(&s);
  }
  {
    const std::string d = DiffFields(Flatten(g), Flatten(g0));
    if (!d.empty()) Violation("not-repeatable", "two undisturbed solves differ: %s", d.c_str());
  }
  LogOutcome("golden", g);
  CountOutcome(g);
  // Eigen's resize is not exception safe (a failing reallocation leaves the freed pointer behind), so raw
  // malloc failures are only injected where no buffer changes size mid-solve.
  bool malloc_ok = true;
  for (const IterView& v : Segment(g).it) {
    if (!v.finite_all) malloc_ok = false;
    if (malloc_ok && v.A.rows() > 0) {
      const Vec sv = Eigen::JacobiSVD<Mat>(v.A).singularValues();
      if (!(sv.minCoeff() > 1e-6 * sv.maxCoeff())) malloc_ok = false;
    }
  }
  const SolveRec gn = Golden(inst, next, false);
  const auto want_next = Flatten(gn);
  for (const Item& it : plan.items) {
    if (it.type != "A") continue;
    AbortCase ac;
    const std::string site = it.s("site", "eval");
    bool warm = it.i("same", 0) != 0;
    if (site == "new" || site == "malloc") {
      ac.oom = true;
      ac.only_new = site == "new";
      const uint64_t n = ac.only_new ? n_new : n_all;
      if (!n || g.threw || (!ac.only_new && !malloc_ok)) continue;
      ac.at = it.u("pos", 0) % n;
      ac.len = it.u("len", 1);
      warm = false;
    } else {
      ac.f = FaultFromItem(it);
      ac.f.len = 1;
      std::vector<FaultSpec> v{ac.f};
      WrapPositions(&v, g);
      ac.f = v[0];
      const uint64_t n = site == "lin" ? g.n_lin : site == "trial" ? g.n_trial : site == "retr" ? g.n_retr : site == "cb" ? g.n_cb : g.n_eval;
      if (!n) continue;
    }
    std::string leak;
    if (AbortScenario(inst, proto, next, ac, g, want_next, warm, true, &leak)) {
      // storage may be kept for later solves, but the same history must not take more each time
      uint64_t again = 0;
      int more = 0;
      for (int rep = 0; rep < 3; ++rep) {
        leak.clear();
        const uint64_t live = LibLiveBlocks();
        again = AbortScenario(inst, proto, next, ac, g, want_next, warm, false, &leak);
        more += again && LibLiveBlocks() > live;
      }
      if (more == 3) Violation("abort-leak", "%lu blocks are never freed after the aborted solve and the solver's destruction: %s",
                               static_cast<unsigned long>(again), leak.c_str());
    }
  }
}

// ---------------------------------------------------------------- C06
static void GenC06Nls(Plan* plan, Rng& rng, bool thorough) {
  GenOpts o;
  o.fams = kAllFams;
  o.whole = 0.15;
  o.maxn = thorough ? 6 : 5;
  plan->items.push_back(GenProblem(rng, 0, o));
  const int ops = rng.range(2, thorough ? 12 : 7);
  int r = 0;
  for (int k = 0; k < ops; ++k) {
    if (k > 0 && rng.chance(0.35)) {
      Item e("E");
      const double u = rng.u01();
      e.set("op", u < 0.28 ? "addcost" : u < 0.4 ? "dropcost" : u < 0.6 ? "addineq" : u < 0.7 ? "clearineq" : u < 0.8 ? "otherineq" : "othereq");
      e.setu("seed", rng.next() >> 30);
      if (rng.chance(0.4)) e.set("big", rng.chance(0.5) ? 5 : 7);
      plan->items.push_back(e);
    }
    Item it = GenSolve(rng, 0, rng.chance(0.5));
    it.set("mi", rng.range(0, 8));
    if (rng.chance(0.2)) it.set("cancel", rng.range(0, 4));
    if (rng.chance(0.3)) it.set("cont", 1);
    if (rng.chance(0.3)) it.set("evalpub", 1);
    if (rng.chance(0.15)) it.set("evalcb", rng.range(0, 3));
    if (k > 0 && rng.chance(0.2)) it.set("copy", rng.range(1, 4));
    if (rng.chance(0.12)) it.set("cbcopy", rng.range(0, 3));
    if (rng.chance(0.12)) it.set("cbset", rng.range(0, 1));
    if (rng.chance(0.04)) it.setu("odd", rng.below(1000));
    plan->items.push_back(it);
    if (rng.chance(0.3)) {
      if (rng.chance(0.4))
        plan->items.push_back(Item("F").set("r", r).set("site", rng.chance(0.6) ? "eval" : rng.chance(0.5) ? "cb" : "retr").set("kind", "throw").setu("pos", rng.below(40)).set("id", 1));
      else if (rng.chance(0.5))
        GenResponseFaults(rng, plan, r, rng.range(1, 2), kWarp);
      else
        GenResponseFaults(rng, plan, r, 1, kNonFinite);
    } else if (rng.chance(0.12)) {
      plan->items.push_back(Item("M").set("r", r).setu("pos", rng.below(100000)));
    }
    ++r;
  }
}

static void ApplyEdit(Inst* inst, const Item& e) {
  Rng rng(e.u("seed", 1));
  const std::string op = e.s("op", "addcost");
  if (op == "addcost") {
    auto s = std::make_shared<ResSpec>();
    s->type = M_LIN;
    const int big = static_cast<int>(e.i("big", 0));
    if (big) {
      s->R = big == 5 ? 5 : 7;
      s->idx = {static_cast<int>(rng.below(static_cast<uint64_t>(inst->n)))};
    } else {
      s->R = rng.range(1, 3);
      s->idx = {static_cast<int>(rng.below(static_cast<uint64_t>(inst->n)))};
      s->dynamic = true;
    }
    s->P = 1;
    s->c.resize(static_cast<size_t>(2 * s->R));
    for (double& v : s->c) v = rng.uni(-2, 2);
    inst->costs.push_back(s);
    inst->problem.costs.push_back(MakeRes(inst, s));
  } else if (op == "dropcost") {
    if (inst->costs.size() > 1) {
      inst->costs.pop_back();
      inst->problem.costs.pop_back();
    }
  } else if (op == "addineq") {
    const int v = static_cast<int>(rng.below(static_cast<uint64_t>(inst->n)));
    const double a = rng.chance(0.5) ? 1.0 : -1.0;
    inst->problem.inequality_constraints.emplace_back(v, a, rng.uni(0.05, 2) - a * inst->xref[v]);
  } else if (op == "otherineq") {
    for (auto& c : inst->problem.inequality_constraints) {
      const int v = static_cast<int>(rng.below(static_cast<uint64_t>(inst->n)));
      const double a = rng.chance(0.5) ? 1.0 : -1.0;
      c = mini_opt::LinearInequalityConstraint(v, a, rng.uni(0.05, 2) - a * inst->xref[v]);
    }
  } else if (op == "othereq") {  // equality constraints on other variables, as many rows in all
    auto& eq = inst->problem.equality_constraints;
    if (eq.empty()) return;
    if (rng.chance(0.3)) {
      std::reverse(eq.begin(), eq.end());
      std::reverse(inst->eqs.begin(), inst->eqs.end());
    } else {
      const size_t at = rng.below(eq.size());
      const int rows = inst->eqs[at]->R;
      eq.erase(eq.begin() + static_cast<long>(at));
      inst->eqs.erase(inst->eqs.begin() + static_cast<long>(at));
      for (int k = 0; k < rows; ++k) {
        auto s = std::make_shared<ResSpec>();
        s->type = M_LIN;
        s->R = s->P = 1;
        s->dynamic = rng.chance(0.5);
        s->idx = {static_cast<int>(rng.below(static_cast<uint64_t>(inst->n)))};
        s->c = {rng.uni(0.3, 2), rng.uni(-1, 1)};
        inst->eqs.push_back(s);
        eq.push_back(MakeRes(inst, s));
      }
    }
  } else {
    inst->problem.inequality_constraints.clear();
  }
  Count(("edit." + op).c_str());
}

void RunC06Nls(const Plan& plan) {
  World w(plan);
  Inst* inst = w.inst(0);
  Solver s;
  MakeSolver(&s, inst, true);
  int k = 0, aborted = 0, prior = 0;
  for (const Item& it : plan.items) {
    if (it.type == "E") {
      ApplyEdit(inst, it);
      continue;
    }
    if (it.type != "R") continue;
    if (it.i("copy", 0)) {
      if (k == 0) {
        // the constructor leaves the variables unset; give a copy something to copy
        SolveRec z;
        z.start = Vec::Zero(inst->n);
        z.params.max_iterations = 0;
        RunSolve(&s, &z);
      }
      if (ReplaceByCopy(&s, static_cast<int>(it.i("copy", 1)), it.u("xs", 1))) Count("copied_or_moved");
    }
    if (it.has("cbset")) {
      SetCallback(&s, it.i("cbset", 1) != 0);
      Count("callback_replaced");
    }
    const bool cb = s.has_cb;
    SolveRec r = MakeRec(inst, it);
    r.has_cb = cb;
    if (it.i("cont", 0) && k > 0) r.start = s.impl->variables();
    r.faults = FaultsOf(plan, k);
    std::unique_ptr<ConstrainedNonlinearLeastSquares> from_callback;
    if (it.has("evalcb") || it.has("cbcopy")) {
      int cbs = 0;
      r.hook = [&, cbs](int site) mutable {
        if (site != 3) return;
        const int at = cbs++;
        const bool armed = g_memfault.armed;
        g_memfault.armed = false;
        if (it.has("evalcb") && it.i("evalcb", 0) == at) {
          // the client asks for errors from inside its exit callback
          const Vec x = it.u("xs", 1) % 3 ? MakeStart(*inst, it.u("xs", 1) + 29, false, 1.0) : Vec(s.impl->variables());
          const mini_opt::Errors a = QueryErrors(&s, x);
          Solver f;
          MakeSolver(&f, inst, true);
          const mini_opt::Errors b = QueryErrors(&f, x);
          DestroySolver(&f);
          Count("queried_in_callback");
          if (memcmp(&a, &b, sizeof a) != 0 && !(a.ContainsInvalidValues() && b.ContainsInvalidValues()))
            Violation("history-errors", "errors evaluated inside the exit callback %.17g/%.17g, on a new solver %.17g/%.17g", a.f, a.equality, b.f, b.equality);
        }
        if (it.has("cbcopy") && it.i("cbcopy", 0) == at) from_callback = CopyOf(s);
        g_memfault.armed = armed;
      };
    }
    uint64_t oom = 0;
    bool has_oom = false;
    for (const Item& m : plan.items)
      if (m.type == "M" && m.i("r", 0) == k) {
        has_oom = true;
        oom = m.u("pos", 0);
      }
    if (it.i("evalpub", 0)) {
      // public error evaluation on the used object against a new one
      Vec x = MakeStart(*inst, it.u("xs", 1) + 17, false, 1.0);
      mini_opt::Errors a, b;
      {
        LibScope ls;
        a = s.impl->EvaluateNonlinearErrors(x);
      }
      MemCheckHeap();
      Solver f;
      MakeSolver(&f, inst, true);
      {
        LibScope ls;
        b = f.impl->EvaluateNonlinearErrors(x);
      }
      DestroySolver(&f);
      if (memcmp(&a, &b, sizeof a) != 0 && !(a.ContainsInvalidValues() && b.ContainsInvalidValues()))
        Violation("history-errors", "errors evaluated on the used object %.17g/%.17g, on a new one %.17g/%.17g", a.f, a.equality, b.f, b.equality);
    }
    SolveRec g = r;  // the same solve on a new object; faults at the same ordinals
    g.hook = nullptr;
    if (!r.faults.empty()) {
      SolveRec plain = r;
      plain.hook = nullptr;
      const SolveRec g0 = Golden(inst, plain, false);
      WrapPositions(&r.faults, g0);
      g.faults = r.faults;
    }
    Solver f;
    MakeSolver(&f, inst, cb);
    MemReset();
    RunSolve(&f, &g);
    const uint64_t n_new = g_memstats.lib_new;
    DestroySolver(&f);
    if (has_oom && n_new) {
      MemReset();
      g_memfault.armed = true;
      g_memfault.only_new = true;
      g_memfault.at = oom % n_new;
      g_memfault.len = 1;
    }
    RunSolve(&s, &r);
    g_memfault.armed = false;
    MemCheckHeap();
    LogOutcome("reused", r);
    LogOutcome("fresh", g);
    Count("solves");
    State(HashU(static_cast<uint64_t>(prior) * 4 + static_cast<uint64_t>(aborted), OutcomeShape(r)));
    if (r.threw) {
      ++aborted;
      Count("aborted_solves");
    }
    if (!has_oom) {
      const std::string d = DiffFields(Flatten(r), Flatten(g));
      if (!d.empty())
        Violation("history", "solve %d (after %d solves, %d aborted) differs from a new solver's: %s", k, prior, aborted, d.c_str());
      if (prior) {
        Count("compared_after_history");
        NonTrivial();
      }
    }
    ++prior;
    ++k;
  }
  DestroySolver(&s);
}

// ---------------------------------------------------------------- C07
static void GenC07(Plan* plan, Rng& rng, bool thorough) {
  GenOpts o;
  o.fams = kAllFams;
  o.whole = 0.15;
  o.maxn = thorough ? 6 : 5;
  plan->items.push_back(GenProblem(rng, 0, o));
  Item r = GenSolve(rng, 0, rng.chance(0.5));
  r.set("cb", 1).set("mi", rng.range(1, thorough ? 25 : 12));
  if (rng.chance(0.5)) r.setd("rel", 0.0).setd("abs", 1e-300).setd("fo", 0.0);
  plan->items.push_back(r);
  if (rng.chance(0.6)) GenResponseFaults(rng, plan, 0, rng.range(1, 3), kWarp, 0.6);
  if (rng.chance(0.15)) GenResponseFaults(rng, plan, 0, 1, kNonFinite, 0.8);
  const int c = rng.range(2, 4);
  for (int k = 0; k < c; ++k) plan->items.push_back(Item("C").set("k", rng.range(0, 12)).set("how", rng.range(0, 2)));
}
static void RunC07(const Plan& plan) {
  World w(plan);
  Inst* inst = w.inst(0);
  const Item* ri = nullptr;
  for (const Item& it : plan.items)
    if (it.type == "R" && !ri) ri = &it;
  if (!ri) return;
  SolveRec proto = MakeRec(inst, *ri);
  proto.has_cb = true;
  proto.cancel_at = -1;
  {
    auto fs = FaultsOf(plan, 0);
    WrapPositions(&fs, Golden(inst, proto, false));
    proto.faults = fs;
  }
  SolveRec g = proto;
  Solver s0;
  MakeSolver(&s0, inst, true);
  RunSolve(&s0, &g);
  LogOutcome("golden", g);
  CountOutcome(g);
  auto in_order = [&](const SolveRec& r, const char* what) {
    if (!r.out) return;
    if (r.cb_records.size() != r.out->iterations.size())
      Violation("callback-count", "%s: %zu iterations completed, callback invoked %zu times", what, r.out->iterations.size(), r.cb_records.size());
    for (size_t i = 0; i < r.cb_records.size(); ++i) {
      std::vector<Field> a, b;
      FlattenIteration(r.cb_records[i], static_cast<int>(i), &a);
      FlattenIteration(r.out->iterations[i], static_cast<int>(i), &b);
      const std::string d = DiffFields(a, b);
      if (!d.empty()) Violation("callback-record", "%s: callback %zu was given another record: %s", what, i, d.c_str());
    }
    // the callback is the last user code of its iteration and sees the applied step
    const History h = Segment(r);
    for (size_t k = 0; k < h.it.size(); ++k) {
      const IterView& v = h.it[k];
      if (!v.cb) {
        if (!(r.out->termination_state == NLSTerminationState::QP_INDEFINITE && k + 1 == h.it.size()))
          Violation("callback-missing", "%s: no callback in iteration %zu", what, k);
        continue;
      }
      const Vec* nx = k + 1 < h.it.size() ? (h.it[k + 1].complete ? &h.it[k + 1].x : nullptr) : &r.final;
      if (nx && !SameVec(*nx, v.cb->x_in))
        Violation("callback-variables", "%s: callback %zu saw %s, then the variables were %s", what, k, VecStr(v.cb->x_in).c_str(), VecStr(*nx).c_str());
      if (v.rec && v.rec->step_result == StepSizeSelectionResult::SUCCESS && !v.trials.empty() && v.trials.back().complete &&
          !SameVec(v.trials.back().x, v.cb->x_in))
        Violation("callback-before-step", "%s: callback %zu saw %s although %s had been accepted", what, k, VecStr(v.cb->x_in).c_str(), VecStr(v.trials.back().x).c_str());
    }
    if (!h.problem.empty()) Violation("callback-order", "%s: %s", what, h.problem.c_str());
  };
  in_order(g, "undisturbed solve");
  const size_t N = g.cb_records.size();
  std::vector<Vec> after;  // variables after iteration k
  for (const Ev& e : g.evs)
    if (e.t == Ev::CB) after.push_back(e.x_in);
  for (const Item& it : plan.items) {
    if (it.type != "C" || N == 0) continue;
    const int how = static_cast<int>(it.i("how", 0));
    const size_t k = static_cast<size_t>(it.i("k", 0)) % N;  // cancel at the end of iteration k
    Solver fresh;
    const bool reuse = (it.i("k", 0) & 1) != 0;
    if (!reuse) MakeSolver(&fresh, inst, true);
    Solver& s = reuse ? s0 : fresh;
    SolveRec r = proto;
    r.evs.clear();
    r.cb_records.clear();
    char what[60];
    if (how == 2) {
      r.params.max_iterations = static_cast<int>(k) + 1;
      snprintf(what, sizeof what, "iteration limit %zu", k + 1);
    } else {
      r.cancel_at = static_cast<int>(k);
      snprintf(what, sizeof what, "cancelled at iteration %zu", k);
    }
    RunSolve(&s, &r);
    if (!reuse) DestroySolver(&fresh);
    LogOutcome(what, r);
    State(HashU(k * 4 + static_cast<uint64_t>(how), OutcomeShape(r)));
    NonTrivial();
    if (!r.out) Violation("cancel-threw", "%s: threw %s", what, r.ex.c_str());
    in_order(r, what);
    // prefix of the undisturbed solve
    if (r.out->iterations.size() != k + 1)
      Violation("cancel-count", "%s: %zu iterations performed", what, r.out->iterations.size());
    SolveRec ga;  // compare first k+1 records
    for (size_t i = 0; i <= k; ++i) {
      std::vector<Field> a, b;
      FlattenIteration(r.out->iterations[i], static_cast<int>(i), &a);
      FlattenIteration(g.cb_records[i], static_cast<int>(i), &b);
      const std::string d = DiffFields(a, b);
      if (!d.empty()) Violation("cancel-prefix", "%s: record %zu differs from the undisturbed solve: %s", what, i, d.c_str());
    }
    if (!SameVec(r.final, after[k]))
      Violation("cancel-variables", "%s: variables are %s, undisturbed solve had %s", what, VecStr(r.final).c_str(), VecStr(after[k]).c_str());
    // events: exactly the first ones, nothing after the callback returned false
    size_t cbs = 0, ev = 0;
    for (; ev < g.evs.size() && cbs <= k; ++ev)
      if (g.evs[ev].t == Ev::CB) ++cbs;
    if (r.evs.size() != ev)
      Violation("cancel-extra-work", "%s: %zu calls into user code, undisturbed solve made %zu up to there", what, r.evs.size(), ev);
    for (size_t i = 0; i < ev; ++i)
      if (!SameEv(r.evs[i], g.evs[i])) Violation("cancel-prefix", "%s: call %zu into user code differs", what, i);
    // reported reason
    const NLSTerminationState ts = r.out->termination_state;
    const bool last_of_golden = k + 1 == N && g.out && g.out->termination_state != NLSTerminationState::QP_INDEFINITE;
    const bool own_stop = last_of_golden && g.out->termination_state != NLSTerminationState::MAX_ITERATIONS;
    if (own_stop) {
      if (ts != g.out->termination_state)
        Violation("cancel-reason", "%s: iteration met stopping condition %d, %d reported", what, static_cast<int>(g.out->termination_state), static_cast<int>(ts));
      Count("probe.cancel_at_stop");
    } else if (how == 2) {
      if (ts != NLSTerminationState::MAX_ITERATIONS)
        Violation("limit-reason", "%s: reason %d reported", what, static_cast<int>(ts));
      Count("probe.limit");
    } else {
      const bool at_limit = static_cast<int>(k) + 1 == r.params.max_iterations;
      if (ts != NLSTerminationState::USER_CALLBACK && !(at_limit && ts == NLSTerminationState::MAX_ITERATIONS))
        Violation("cancel-reason", "%s: reason %d reported", what, static_cast<int>(ts));
      Count("probe.cancel");
    }
  }
  DestroySolver(&s0);
}

// ---------------------------------------------------------------- C11
void GenC11Qp(Plan* plan, Rng& rng, bool thorough);
void RunC11Qp(const Plan& plan);
static void GenC11(Plan* plan, Rng& rng, bool thorough) {
  if (rng.chance(0.2)) {
    plan->items.push_back(Item("mode").set("m", "qp"));
    GenC11Qp(plan, rng, thorough);
    return;
  }
  if (rng.chance(0.5)) {
    GenWarp(plan, rng, thorough);
    plan->items.insert(plan->items.begin(), Item("mode").set("m", "bounds"));
    for (size_t k = 0; k < 2; ++k)
      if (rng.chance(0.3)) GenResponseFaults(rng, plan, static_cast<int>(k), rng.range(1, 3), kNonFinite);
    return;
  }
  plan->items.push_back(Item("mode").set("m", "recover"));
  Item p("P");
  const int n = rng.range(1, 4);
  p.set("id", 0).set("fam", "lin").set("n", n).setu("seed", rng.next() >> 20);
  int K = 0;
  if (n > 1 && rng.chance(0.4)) p.set("eq", K = rng.range(1, n - 1));
  if (rng.chance(0.6)) p.set("box", rng.range(1, K > 0 ? n - K : 4));
  if (rng.chance(0.3)) p.set("retr", 1);
  plan->items.push_back(p);
  const int runs = rng.range(1, 3);
  for (int k = 0; k < runs; ++k) {
    Item r("R");
    r.set("s", 0).setu("xs", rng.next() >> 30).set("feas", 1).setd("scale", rng.uni(0.1, 1));
    RandomParams(rng, &r, 0);
    if (k > 0) r.set("cont", 1);
    plan->items.push_back(r);
    std::vector<std::string> kinds = kWarp;
    kinds.insert(kinds.end(), {"nan", "inf", "throw", "throw"});
    GenResponseFaults(rng, plan, k, rng.range(1, 4), kinds, 0.5);
  }
  Item c("Z");  // the fault-free client
  RandomParams(rng, &c, 2);
  plan->items.push_back(c);
}

// Minimum of a strictly convex linear least-squares problem with linear equalities and bounds, by
// enumerating active sets.
static bool ReferenceMin(const Inst& I, Vec* best, bool dependent = false) {
  const int n = I.n;
  Mat G = Mat::Zero(n, n);
  Vec c = Vec::Zero(n);
  for (auto& s : I.costs) {
    if (s->type != M_LIN) return false;
    Mat J = Mat::Zero(s->R, n);
    Vec d(s->R);
    for (int i = 0; i < s->R; ++i) {
      for (int j = 0; j < s->P; ++j) J(i, s->idx[static_cast<size_t>(j)]) += s->c[static_cast<size_t>(j * s->R + i)];
      d[i] = -s->c[static_cast<size_t>(s->R * s->P + i)];
    }
    G += J.transpose() * J;
    c += J.transpose() * d;
  }
  int K = I.eq_rows();
  Mat A = Mat::Zero(K, n);
  Vec b = Vec::Zero(K);
  int row = 0;
  for (auto& s : I.eqs) {
    if (s->type != M_LIN) return false;
    for (int i = 0; i < s->R; ++i) {
      for (int j = 0; j < s->P; ++j) A(row + i, s->idx[static_cast<size_t>(j)]) += s->c[static_cast<size_t>(j * s->R + i)];
      b[row + i] = -s->c[static_cast<size_t>(s->R * s->P + i)];
    }
    row += s->R;
  }
  if (dependent) {  // keep the rows that do not follow from earlier ones (all are consistent)
    int kept = 0;
    for (int i = 0; i < K; ++i) {
      Vec rest = A.row(i).transpose();
      if (kept > 0) {
        const Mat T = A.topRows(kept).transpose();
        rest -= T * T.colPivHouseholderQr().solve(rest);
      }
      const double d = rest.norm(), full = A.row(i).norm();
      if (d <= 1e-12 * full) continue;
      if (d < 1e-2 * full) return false;
      A.row(kept) = A.row(i).eval();
      b[kept++] = b[i];
    }
    K = kept;
    A.conservativeResize(K, n);
    b.conservativeResize(K);
  }
  const Eigen::SelfAdjointEigenSolver<Mat> es(G);
  if (!(es.eigenvalues().minCoeff() > 1e-2 * es.eigenvalues().maxCoeff())) return false;
  if (K > 0) {
    const Vec sv = Eigen::JacobiSVD<Mat>(A).singularValues();
    if (!(sv.minCoeff() > 5e-2 * sv.maxCoeff())) return false;
    // No set of active bounds may make the constraints dependent: the inner solver's factorization
    // does not survive that, and the property does not promise it.
    std::set<int> bounded;
    for (auto& q : I.problem.inequality_constraints) bounded.insert(q.variable);
    const int free_n = n - static_cast<int>(bounded.size());
    if (!bounded.empty()) {
      if (free_n < K) return false;
      Mat AF(K, free_n);
      int col = 0;
      for (int i = 0; i < n; ++i)
        if (!bounded.count(i)) AF.col(col++) = A.col(i);
      const Vec sf = Eigen::JacobiSVD<Mat>(AF).singularValues();
      if (!(sf.minCoeff() > 5e-2 * sv.maxCoeff())) return false;
    }
  }
  const auto& cs = I.problem.inequality_constraints;
  const int m = static_cast<int>(cs.size());
  if (m > 10) return false;
  double bestf = std::numeric_limits<double>::infinity();
  for (int mask = 0; mask < (1 << m); ++mask) {
    std::vector<int> act;
    for (int i = 0; i < m; ++i)
      if (mask >> i & 1) act.push_back(i);
    const int E = K + static_cast<int>(act.size());
    if (E > n) continue;
    Mat M = Mat::Zero(n + E, n + E);
    Vec rhs(n + E);
    M.topLeftCorner(n, n) = G;
    rhs.head(n) = -c;
    for (int k = 0; k < K; ++k) {
      M.block(n + k, 0, 1, n) = A.row(k);
      rhs[n + k] = -b[k];
    }
    for (size_t i = 0; i < act.size(); ++i) {
      M(n + K + static_cast<int>(i), cs[static_cast<size_t>(act[i])].variable) = cs[static_cast<size_t>(act[i])].a;
      rhs[n + K + static_cast<int>(i)] = -cs[static_cast<size_t>(act[i])].b;
    }
    M.topRightCorner(n, E) = M.bottomLeftCorner(E, n).transpose();
    Eigen::FullPivLU<Mat> lu(M);
    if (!lu.isInvertible()) continue;
    const Vec x = lu.solve(rhs).head(n);
    if (!I.Feasible(x, 1e-9)) continue;
    const double f = 0.5 * x.dot(G * x) + c.dot(x);
    if (f < bestf) {
      bestf = f;
      *best = x;
    }
  }
  return std::isfinite(bestf);
}

static void RunRecovery(const Plan& plan, bool dependent);
static void RunC11(const Plan& plan) {
  std::string mode = "bounds";
  for (const Item& it : plan.items)
    if (it.type == "mode") mode = it.s("m", mode);
  if (mode == "qp") {
    RunC11Qp(plan);
    return;
  }
  if (mode == "bounds") {
    ForEachSolve(plan, [](SolveRec& r, Inst&) { CheckC11Bounds(r, Segment(r)); });
    return;
  }
  RunRecovery(plan, false);
}
static void RunRecovery(const Plan& plan, bool dependent) {
  World w(plan);
  Inst* inst = w.inst(0);
  Vec ref;
  if (!ReferenceMin(*inst, &ref, dependent)) {
    Count("skip.ill_conditioned");
    return;
  }
  Solver s;
  MakeSolver(&s, inst, true);
  int k = 0;
  Vec x = MakeStart(*inst, 1, true, 1.0);
  for (const Item& it : plan.items) {
    if (it.type != "R") continue;
    SolveRec r = MakeRec(inst, it);
    r.has_cb = true;
    if (it.i("cont", 0) && k > 0) r.start = s.impl->variables();
    if (!inst->Feasible(r.start, 1e-9)) r.start = inst->xref;
    r.faults = FaultsOf(plan, k);
    for (auto& f : r.faults)
      if (f.site == "retr") f.site = "trial";
    WrapPositions(&r.faults, Golden(inst, r, false));
    RunSolve(&s, &r);
    CountOutcome(r);
    LogOutcome("faulty", r);
    CheckC11Bounds(r, Segment(r));
    x = r.final;
    ++k;
  }
  for (int i = 0; i < x.rows(); ++i)
    if (!std::isfinite(x[i]) || std::abs(x[i]) > 1e4) {
      Count("skip.far_away");
      return;
    }
  const Item* z = nullptr;
  for (const Item& it : plan.items)
    if (it.type == "Z") z = &it;
  if (!z) return;
  int iters = 0, solves = 0;
  double dist = 0;
  const int max_solves = 12;
  for (; solves < max_solves; ++solves) {
    SolveRec r;
    r.params = ParamsFromItem(*z);
    r.start = x;
    RunSolve(&s, &r);
    CheckC11Bounds(r, Segment(r));
    if (r.threw) Violation("recovery-threw", "fault-free solve threw %s", r.ex.c_str());
    iters += static_cast<int>(r.out->iterations.size());
    x = r.final;
    dist = (x - ref).lpNorm<Eigen::Infinity>();
    LogOutcome("recover", r);
    if (dist <= 1e-3 * (1 + ref.lpNorm<Eigen::Infinity>())) break;
  }
  Count("probe.recovery");
  Count("recovery.iterations", static_cast<uint64_t>(iters));
  char nm[40];
  snprintf(nm, sizeof nm, "recovery.solves_%02d", solves + 1);
  Count(nm);
  if (solves == max_solves)
    Violation("no-recovery", "after faults stopped, %d solves (%d iterations) ended at %s, the minimum is %s (distance %g)", solves, iters,
              VecStr(x).c_str(), VecStr(ref).c_str(), dist);
  DestroySolver(&s);
}

// ---------------------------------------------------------------- C22: dependent and over-determined equalities
void GenC22Qp(Plan* plan, Rng& rng, bool thorough);
void RunC22Qp(const Plan& plan);
static void GenC22(Plan* plan, Rng& rng, bool thorough) {
  const double u = rng.u01();
  if (u < 0.5) {
    GenC22Qp(plan, rng, thorough);
    return;
  }
  if (u < 0.7) {
    do {
      plan->items.clear();
      GenC11(plan, rng, thorough);
    } while (plan->items[0].s("m", "") != "recover");
    for (Item& it : plan->items) {
      if (it.type != "P") continue;
      const int n = static_cast<int>(it.i("n", 1));
      it.set("box", 0).set("eq", rng.range(1, n)).set("dep", rng.range(1, n + 2));
    }
    return;
  }
  GenWarp(plan, rng, thorough);
  for (Item& it : plan->items) {
    if (it.type != "P") continue;
    const int n = static_cast<int>(it.i("n", 2));
    it.set("box", 0).set("guard", 0);
    if (it.i("eq", 0) == 0) it.set("eq", rng.range(1, std::max(1, n - 1)));
    if (rng.chance(0.1)) it.set("eq", n);
    if (rng.chance(0.9)) it.set("dep", rng.chance(0.7) ? rng.range(1, 2) : rng.range(1, n + 2));
  }
}
static void RunC22(const Plan& plan) {
  for (const Item& it : plan.items) {
    if (it.type == "Q") {
      RunC22Qp(plan);
      return;
    }
    if (it.type == "mode") {
      RunRecovery(plan, true);
      return;
    }
  }
  ForEachSolve(plan, [](SolveRec& r, Inst&) {
    const History h = Segment(r);
    CheckC12(r, h);
    CheckC09(r, h);
    CheckC10(r, h);
    CheckC13(r, h);
  });
}

// ---------------------------------------------------------------- table
void GenC06Qp(Plan* plan, Rng& rng, bool thorough);
void RunC06Qp(const Plan& plan);
static void GenC06(Plan* plan, Rng& rng, bool thorough) {
  if (rng.chance(0.3))
    GenC06Qp(plan, rng, thorough);
  else
    GenC06Nls(plan, rng, thorough);
}
static void RunC06(const Plan& plan) {
  for (const Item& it : plan.items)
    if (it.type == "Q") {
      RunC06Qp(plan);
      return;
    }
  RunC06Nls(plan);
}

void RegisterNls(std::vector<PropDef>* t) {
  t->push_back({"C05", GenC05, RunC05});
  t->push_back({"C06", GenC06, RunC06});
  t->push_back({"C07", GenC07, RunC07});
  t->push_back({"C08", GenC08, RunC08});
  t->push_back({"C09", GenWarp, RunC09});
  t->push_back({"C10", GenC10, RunC10Aimed});
  t->push_back({"C11", GenC11, RunC11});
  t->push_back({"C12", GenWarp, RunC12});
  t->push_back({"C13", GenWarp, RunC13});
  t->push_back({"C15", GenC15, RunC15});
  t->push_back({"C22", GenC22, RunC22});
}

}  // namespace sim
