// Invalid calls (C20): histories of valid solves and calls the library has to reject. Every valid call is also made on
// a twin object that never sees an invalid one; the two have to stay bit for bit alike.
#include <climits>
#include <cmath>
#include <functional>
#include <limits>

#include "nls.hpp"
#include "worlds.hpp"

namespace sim {
namespace {
constexpr double kNaN = std::numeric_limits<double>::quiet_NaN();
constexpr double kInf = std::numeric_limits<double>::infinity();

struct Bad {
  const char* name;
  std::vector<double> values;
  std::function<void(Params*, double)> set;
};
const std::vector<Bad>& BadParams() {
  static const std::vector<Bad> v = {
      {"max_iterations", {-1, -2, INT_MIN}, [](Params* p, double x) { p->max_iterations = static_cast<int>(x); }},
      {"max_qp_iterations", {0, -1, INT_MIN}, [](Params* p, double x) { p->max_qp_iterations = static_cast<int>(x); }},
      {"termination_kkt_tolerance", {0, -0.0, -1e-300, -1, kNaN, -kInf}, [](Params* p, double x) { p->termination_kkt_tolerance = x; }},
      {"absolute_exit_tol", {0, -0.0, -1e-300, -1, kNaN, -kInf}, [](Params* p, double x) { p->absolute_exit_tol = x; }},
      {"max_line_search_iterations", {-1, -2, INT_MIN}, [](Params* p, double x) { p->max_line_search_iterations = static_cast<int>(x); }},
      {"relative_exit_tol", {-1e-300, -1, 1 + 1e-15, 2, kNaN, kInf}, [](Params* p, double x) { p->relative_exit_tol = x; }},
      {"absolute_first_derivative_tol", {-1e-300, -1, kNaN, -kInf}, [](Params* p, double x) { p->absolute_first_derivative_tol = x; }},
      {"armijo_search_tau", {0, -0.0, -0.5, 1, 2, kNaN, kInf}, [](Params* p, double x) { p->armijo_search_tau = x; }},
      {"equality_penalty_initial", {-1e-300, -1, kNaN, -kInf}, [](Params* p, double x) { p->equality_penalty_initial = x; }},
      {"equality_penalty_scale_factor", {1 - 1e-15, 0, -1, kNaN}, [](Params* p, double x) { p->equality_penalty_scale_factor = x; }},
      {"equality_penalty_rho", {-1e-300, -1, 1, 2, kNaN}, [](Params* p, double x) { p->equality_penalty_rho = x; }},
      {"max_lambda", {-1e-300, -1, kNaN}, [](Params* p, double x) {
         p->max_lambda = x;
         if (x < 0) p->min_lambda = p->lambda_initial = 2 * x;
       }},
      {"max_lambda below lambda_initial", {0.5, 0.999, 0}, [](Params* p, double x) {
         p->min_lambda = 0;
         p->lambda_initial = 1e-3;
         p->max_lambda = 1e-3 * x;
       }},
      {"min_lambda", {1.001, 2, 1e9, kNaN, kInf}, [](Params* p, double x) {
         p->min_lambda = (p->max_lambda + 1e-9) * x;
       }},
      {"lambda_initial below min_lambda", {0.5, 0.999, 0, -1}, [](Params* p, double x) {
         p->min_lambda = std::min(1e-3, p->max_lambda);
         p->lambda_initial = p->min_lambda > 0 ? p->min_lambda * x : -1;
       }},
      {"lambda_initial", {kNaN, kInf, -kInf}, [](Params* p, double x) {
         if (!(p->max_lambda < kInf)) p->max_lambda = 1;
         p->lambda_initial = x;
       }},
      {"lambda_failure_init", {-1e-300, -1, kNaN, -kInf}, [](Params* p, double x) { p->lambda_failure_init = x; }},
      {"lambda_decrease_on_success", {-1e-300, -1, 1, 2, kNaN}, [](Params* p, double x) { p->lambda_decrease_on_success = x; }},
      {"lambda_decrease_on_restore", {-1e-300, -1, 1, 2, kNaN}, [](Params* p, double x) { p->lambda_decrease_on_restore = x; }},
  };
  return v;
}

struct Call {
  Params params;
  Vec start;
  std::string what;
  bool touches_problem = false;  // the fault is in the problem: user code may run before it is noticed
};

// Makes the invalid call of item x on s. Everything it must leave alone is compared here.
void RejectedCall(Solver* s, Inst* inst, const Item& x, const char* where) {
  Rng rng(x.u("seed", 1));
  Call c;
  c.params = ParamsFromItem(x);
  c.start = MakeStart(*inst, x.u("seed", 1), x.i("feas", 0) != 0, 1.0);
  const std::string what = x.s("what", "param");
  bool pop_ineq = false, pop_cost = false, pop_eq = false;
  std::vector<mini_opt::Residual> grown;  // the equality that the invalid one took the place of
  std::shared_ptr<ResSpec> grown_spec;
  if (what == "param") {
    const Bad& b = BadParams()[x.u("k", 0) % BadParams().size()];
    const double v = b.values[x.u("v", 0) % b.values.size()];
    b.set(&c.params, v);
    char buf[80];
    snprintf(buf, sizeof buf, "%s = %g", b.name, v);
    c.what = buf;
    Count("fault.invalid.param");
  } else if (what == "start") {
    const int n = inst->n;
    const int m = x.i("d", 1) > 0 ? n + static_cast<int>(x.i("d", 1)) : std::max(0, n + static_cast<int>(x.i("d", 1)));
    Vec v(m);
    for (int i = 0; i < m; ++i) v[i] = i < n ? c.start[i] : rng.uni(-1, 1);
    c.start = v;
    if (m == n) return;
    c.what = "start of length " + std::to_string(m) + " for " + std::to_string(n) + " variables";
    Count("fault.invalid.start");
  } else if (what == "ineq") {
    const int v = x.i("d", 1) > 0 ? inst->n + static_cast<int>(x.i("d", 1)) - 1 : static_cast<int>(x.i("d", -1));
    inst->problem.inequality_constraints.emplace_back(v, 1.0, 1.0);
    pop_ineq = c.touches_problem = true;
    c.what = "inequality on variable " + std::to_string(v);
    Count("fault.invalid.inequality");
  } else {
    auto spec = std::make_shared<ResSpec>();
    spec->type = M_LIN;
    spec->R = 1 + static_cast<int>(rng.below(3));
    if (what == "eq") {
      spec->idx = {static_cast<int>(rng.below(static_cast<uint64_t>(inst->n)))};
      c.what = "more equality rows than the solver was constructed for";
      if (!inst->eqs.empty() && rng.chance(0.6)) {
        // the last equality grew: its first rows still fit
        grown_spec = inst->eqs.back();
        grown.push_back(std::move(inst->problem.equality_constraints.back()));
        inst->problem.equality_constraints.pop_back();
        inst->eqs.pop_back();
        spec->R = grown_spec->R + 1 + static_cast<int>(rng.below(2));
        c.what += " (the last one grew)";
      }
      Count("fault.invalid.equality");
    } else {
      const int bad = x.i("d", 1) > 0 ? inst->n + static_cast<int>(x.i("d", 1)) - 1 : static_cast<int>(x.i("d", -1));
      spec->idx = {bad};
      if (rng.chance(0.6)) spec->idx.insert(rng.chance(0.5) ? spec->idx.begin() : spec->idx.end(), static_cast<int>(rng.below(static_cast<uint64_t>(inst->n))));
      c.what = "residual on variable " + std::to_string(bad);
      Count("fault.invalid.residual");
    }
    spec->P = static_cast<int>(spec->idx.size());
    spec->dynamic = rng.chance(0.5);
    spec->c.assign(static_cast<size_t>(spec->R * spec->P + spec->R), 1.0);
    c.touches_problem = true;
    pop_eq = what == "eq" || rng.chance(0.2);
    if (pop_eq) {
      inst->problem.equality_constraints.push_back(MakeRes(inst, spec));
      inst->eqs.push_back(spec);
    } else {
      pop_cost = true;
      inst->problem.costs.push_back(MakeRes(inst, spec));
      inst->costs.push_back(spec);
    }
  }
  const Vec before = s->impl->variables();
  SolveRec rec;
  rec.params = c.params;
  rec.start = c.start;
  if (x.has("oom")) {
    MemReset();
    g_memfault.armed = true;
    g_memfault.only_new = false;
    g_memfault.at = x.u("oom", 0) % 6;
    g_memfault.len = 1;
  }
  RunSolve(s, &rec);
  g_memfault.armed = false;
  if (pop_ineq) inst->problem.inequality_constraints.pop_back();
  if (pop_cost) {
    inst->problem.costs.pop_back();
    inst->costs.pop_back();
  }
  if (pop_eq) {
    inst->problem.equality_constraints.pop_back();
    inst->eqs.pop_back();
  }
  if (!grown.empty()) {
    inst->problem.equality_constraints.push_back(std::move(grown.back()));
    inst->eqs.push_back(grown_spec);
  }
  Count("invalid_calls");
  Log("invalid call (%s, %s) threw %d", c.what.c_str(), where, rec.threw);
  if (!rec.threw) Violation("accepted", "%s: a solve with %s returned normally", where, c.what.c_str());
  if (rec.ex == "unknown") Violation("exception-type", "%s: a solve with %s threw something that is not an exception class", where, c.what.c_str());
  if (!c.touches_problem) {
    if (rec.n_eval || rec.n_retr || rec.n_cb)
      Violation("worked", "%s: a solve with %s called user code %lu times before it was rejected", where, c.what.c_str(),
                static_cast<unsigned long>(rec.n_eval + rec.n_retr + rec.n_cb));
    const Vec& now = s->impl->variables();
    bool same = now.rows() == before.rows();
    for (int i = 0; same && i < now.rows(); ++i) {
      const double a = now[i], b = before[i];
      same = memcmp(&a, &b, 8) == 0;
    }
    if (!same) Violation("variables", "%s: a rejected solve with %s changed the current variables", where, c.what.c_str());
  } else if (rec.n_cb) {
    Violation("worked", "%s: a solve with %s completed an iteration before it was rejected", where, c.what.c_str());
  }
  MemCheckHeap();
}

Item GenX(Rng& rng, bool nested) {
  Item x("X");
  RandomParams(rng, &x, 0);
  x.setu("seed", rng.next() >> 30);
  const double u = rng.u01();
  if (u < 0.65 || nested)
    x.set("what", "param").set("k", rng.range(0, static_cast<int>(BadParams().size()) - 1)).set("v", rng.range(0, 6));
  else if (u < 0.8)
    x.set("what", "start").set("d", rng.chance(0.5) ? rng.range(1, 4) : -rng.range(1, 4));
  else
    x.set("what", u < 0.87 ? "ineq" : u < 0.95 ? "res" : "eq").set("d", rng.chance(0.5) ? rng.range(1, 3) : -rng.range(1, 3));
  if (nested && rng.chance(0.25)) x.set("what", "start").set("d", rng.chance(0.5) ? 1 : -1);
  if (!nested && rng.chance(0.15)) x.setu("oom", rng.below(6));
  return x;
}

void GenC20Nls(Plan* plan, Rng& rng, bool thorough) {
  plan->items.push_back(GenAnyProblem(rng, 0, thorough ? 6 : 4));
  const int ops = rng.range(2, thorough ? 14 : 8);
  int r = 0;
  for (int k = 0; k < ops; ++k) {
    if (rng.chance(0.55)) {
      plan->items.push_back(GenX(rng, false));
      continue;
    }
    Item it = GenAnySolve(rng, 0);
    it.set("mi", rng.range(0, 6)).set("cb", 1);
    if (rng.chance(0.2)) it.set("cancel", rng.range(0, 3));
    if (rng.chance(0.3)) it.set("cont", 1);
    plan->items.push_back(it);
    if (rng.chance(0.25))
      plan->items.push_back(Item("F").set("r", r).set("site", rng.chance(0.6) ? "eval" : "cb").set("kind", rng.chance(0.5) ? "throw" : "nan").setu("pos", rng.below(40)).set("id", 1));
    if (rng.chance(0.35)) {
      Item n = GenX(rng, true);
      n.type = "XC";  // an invalid call from inside the exit callback of solve r, on the solver that is running
      n.set("r", r).set("at", rng.range(0, 3));
      plan->items.push_back(n);
    }
    ++r;
  }
}

void RunC20Nls(const Plan& plan) {
  World w(plan);
  Inst* inst = w.inst(0);
  Solver s, twin;
  MakeSolver(&s, inst, true);
  MakeSolver(&twin, inst, true);
  {
    const Vec z = Vec::Zero(inst->n);  // the constructor leaves the variables unset
    SolveRec a, b;
    a.params.max_iterations = b.params.max_iterations = 0;
    a.start = b.start = z;
    RunSolve(&s, &a);
    RunSolve(&twin, &b);
  }
  int k = 0, invalid = 0, solves = 0;
  for (const Item& it : plan.items) {
    if (it.type == "X") {
      RejectedCall(&s, inst, it, "between solves");
      ++invalid;
      continue;
    }
    if (it.type != "R") continue;
    SolveRec r = MakeRec(inst, it), t = MakeRec(inst, it);
    if (it.i("cont", 0)) r.start = t.start = twin.impl->variables();
    r.faults = FaultsOf(plan, k);
    if (!r.faults.empty()) WrapPositions(&r.faults, Golden(inst, r, false));
    t.faults = r.faults;
    std::vector<const Item*> inner;
    for (const Item& x : plan.items)
      if (x.type == "XC" && x.i("r", 0) == k) inner.push_back(&x);
    int cbs = 0;
    if (!inner.empty()) {
      r.hook = [&](int site) {
        if (site != 3) return;
        const int at = cbs++;
        for (const Item* x : inner)
          if (x->i("at", 0) == at) {
            RejectedCall(&s, inst, *x, "inside the exit callback");
            ++invalid;
          }
      };
    }
    RunSolve(&twin, &t);
    RunSolve(&s, &r);
    LogOutcome("used", r);
    LogOutcome("twin", t);
    Count("solves");
    const std::string d = DiffFields(Flatten(r), Flatten(t));
    if (!d.empty()) Violation("effect", "solve %d, %d rejected calls earlier, differs from the same solve without them: %s", k, invalid, d.c_str());
    if (r.n_eval != t.n_eval) Violation("effect", "solve %d evaluates %lu residuals, %lu without the rejected calls", k, static_cast<unsigned long>(r.n_eval), static_cast<unsigned long>(t.n_eval));
    if (invalid) {
      NonTrivial();
      Count("compared_after_rejection");
    }
    State(HashU(static_cast<uint64_t>(invalid) * 16 + static_cast<uint64_t>(solves), OutcomeShape(r)));
    ++solves;
    ++k;
  }
  if (invalid) NonTrivial();
  State(HashU(static_cast<uint64_t>(invalid * 100 + solves), 5));
  DestroySolver(&s);
  DestroySolver(&twin);
  MemCheckHeap();
}

void GenC20(Plan* plan, Rng& rng, bool thorough) {
  if (rng.chance(0.5))
    GenC20Nls(plan, rng, thorough);
  else
    GenC20Qp(plan, rng, thorough);
}
void RunC20(const Plan& plan) {
  for (const Item& it : plan.items)
    if (it.type == "Q") return RunC20Qp(plan);
  RunC20Nls(plan);
}
}  // namespace

void RegisterReject(std::vector<PropDef>* t) { t->push_back({"C20", GenC20, RunC20}); }
}  // namespace sim
