// Oracles over recorded solve histories. They compare what the solver did and reported with what its
// callbacks were asked for and returned; nothing here looks inside the solver.
#include <algorithm>
#include <cmath>
#include <set>

#include <Eigen/Dense>

#include "nls.hpp"

namespace sim {

static constexpr double kEps = 2.220446049250313e-16;
static bool SameBits(const Vec& a, const Vec& b) {
  if (a.rows() != b.rows()) return false;
  for (int i = 0; i < a.rows(); ++i) {
    const bool na = a[i] != a[i], nb = b[i] != b[i];
    if (na && nb) continue;
    double x = a[i], y = b[i];
    if (memcmp(&x, &y, 8) != 0) return false;
  }
  return true;
}
static std::string V(const Vec& v) {
  std::string s = "[";
  char buf[40];
  for (int i = 0; i < v.rows(); ++i) {
    snprintf(buf, sizeof buf, "%s%.17g", i ? " " : "", v[i]);
    s += buf;
  }
  return s + "]";
}
static bool AllFinite(const Vec& v) {
  for (int i = 0; i < v.rows(); ++i)
    if (!std::isfinite(v[i])) return false;
  return true;
}
static bool Close(double a, double b, double rel, double abs = 0) {
  if (a == b) return true;
  if (!std::isfinite(a) || !std::isfinite(b)) return !std::isfinite(a) && !std::isfinite(b);
  return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + abs;
}

static void Gather(const Ev& e, Vec* x, std::vector<char>* have, bool* consistent) {
  for (size_t j = 0; j < e.spec->idx.size(); ++j) {
    const int v = e.spec->idx[j];
    if (v < 0 || v >= x->rows()) continue;
    if ((*have)[static_cast<size_t>(v)]) {
      double a = (*x)[v], b = e.p[j];
      if (!(a != a && b != b) && memcmp(&a, &b, 8) != 0) *consistent = false;
    }
    (*x)[v] = e.p[j];
    (*have)[static_cast<size_t>(v)] = 1;
  }
}

History Segment(const SolveRec& r) {
  History h;
  const Inst& I = *r.inst;
  std::vector<const ResSpec*> all;
  for (auto& c : I.costs) all.push_back(c.get());
  for (auto& c : I.eqs) all.push_back(c.get());
  h.recs = r.out ? &r.out->iterations : &r.cb_records;

  for (const Ev& e : r.evs) {
    if (e.t == Ev::EVAL && e.hasJ) {
      if (h.it.empty() || !h.it.back().trials.empty() || h.it.back().cb) h.it.emplace_back();
      for (const Ev* q : h.it.back().jev)
        if (q->spec == e.spec && h.problem.empty()) h.problem = "a residual was linearized twice in one iteration";
      h.it.back().jev.push_back(&e);
      continue;
    }
    if (h.it.empty()) {
      if (h.problem.empty()) h.problem = "user code called before any linearization";
      return h;
    }
    IterView& cur = h.it.back();
    if (e.t == Ev::CB) {
      if (cur.cb && h.problem.empty()) h.problem = "exit callback invoked twice in one iteration";
      cur.cb = &e;
    } else if (e.t == Ev::RETR) {
      if (cur.cb && h.problem.empty()) h.problem = "trial after the exit callback without a new linearization";
      cur.trials.emplace_back();
      cur.trials.back().retr = &e;
    } else {
      if (cur.cb && h.problem.empty()) h.problem = "trial after the exit callback without a new linearization";
      bool fresh = cur.trials.empty();
      if (!fresh)
        for (const Ev* q : cur.trials.back().evals)
          if (q->spec == e.spec) fresh = true;
      if (fresh) cur.trials.emplace_back();
      cur.trials.back().evals.push_back(&e);
    }
  }
  int k = 0;
  for (IterView& v : h.it) {
    v.x = Vec::Zero(I.n);
    std::vector<char> have(static_cast<size_t>(I.n), 0);
    std::set<const ResSpec*> seen;
    v.G = Mat::Zero(I.n, I.n);
    v.c = Vec::Zero(I.n);
    v.cmag = Vec::Zero(I.n);
    v.A = Mat::Zero(I.eq_rows(), I.n);
    v.b = Vec::Zero(I.eq_rows());
    for (const Ev* e : v.jev) {
      Gather(*e, &v.x, &have, &v.consistent);
      seen.insert(e->spec);
      const int R = e->spec->R, P = e->spec->P;
      for (double d : e->r)
        if (!std::isfinite(d)) v.finite_all = false;
      for (double d : e->J)
        if (!std::isfinite(d)) v.finite_all = false;
      if (!e->is_eq) {
        double s = 0;
        for (double d : e->r) s += d * d;
        v.f += 0.5 * s;
        for (int a = 0; a < P; ++a) {
          const int ga = e->spec->idx[static_cast<size_t>(a)];
          for (int i = 0; i < R; ++i) {
            const double Jia = e->J[static_cast<size_t>(a * R + i)];
            v.c[ga] += Jia * e->r[static_cast<size_t>(i)];
            v.cmag[ga] += std::abs(Jia * e->r[static_cast<size_t>(i)]);
            for (int b = 0; b < P; ++b)
              v.G(ga, e->spec->idx[static_cast<size_t>(b)]) += Jia * e->J[static_cast<size_t>(b * R + i)];
          }
        }
      } else {
        for (double d : e->r) v.eq += std::abs(d);
        int row = 0;
        for (auto& q : I.eqs) {
          if (q.get() == e->spec) break;
          row += q->R;
        }
        for (int i = 0; i < R; ++i) {
          v.b[row + i] = e->r[static_cast<size_t>(i)];
          for (int a = 0; a < P; ++a)
            v.A(row + i, e->spec->idx[static_cast<size_t>(a)]) += e->J[static_cast<size_t>(a * R + i)];
        }
      }
    }
    v.complete = seen.size() == all.size();
    for (char c : have)
      if (!c) v.complete = false;
    for (Trial& t : v.trials) {
      t.x = Vec::Zero(I.n);
      std::vector<char> hv(static_cast<size_t>(I.n), 0);
      for (const Ev* e : t.evals) {
        Gather(*e, &t.x, &hv, &t.consistent);
        double s = 0;
        for (double d : e->r) s += e->is_eq ? std::abs(d) : d * d;
        if (e->is_eq)
          t.eq += s;
        else
          t.f += 0.5 * s;
      }
      t.complete = t.evals.size() == all.size();
      // a residual left out of a trial that was not aborted: what it would have returned there
      const bool aborted = r.threw && &t == &v.trials.back() && &v == &h.it.back();
      const bool known = std::find(hv.begin(), hv.end(), 0) == hv.end();
      if (!t.complete && !aborted && known && t.consistent && t.finite()) {
        for (const ResSpec* q : all) {
          if (std::any_of(t.evals.begin(), t.evals.end(), [&](const Ev* e) { return e->spec == q; })) continue;
          std::vector<double> pv, rv(static_cast<size_t>(q->R));
          for (int g : q->idx) pv.push_back(t.x[g]);
          EvalModel(*q, pv.data(), rv.data(), nullptr);
          double sum = 0;
          const bool is_eq = std::any_of(I.eqs.begin(), I.eqs.end(), [&](const auto& e) { return e.get() == q; });
          for (double d : rv) sum += is_eq ? std::abs(d) : d * d;
          (is_eq ? t.eq : t.f) += is_eq ? sum : 0.5 * sum;
        }
        t.complete = true;
        Count("trials_with_residuals_left_out");
      }
      for (char c : hv)
        if (!c) t.complete = false;
      if (t.retr && !SameBits(t.x, t.retr->x_out) && t.complete) t.consistent = false;
    }
    if (!v.trials.empty()) {
      const Trial& t0 = v.trials.front();
      if (t0.retr) {
        v.dx = t0.retr->dx;
        v.dx_exact = true;
      } else if (t0.complete && v.complete) {
        v.dx = t0.x - v.x;
      }
    }
    if (k < static_cast<int>(h.recs->size())) v.rec = &(*h.recs)[static_cast<size_t>(k)];
    ++k;
  }
  return h;
}

// uncertainty of each component of the observed direction
static Vec DxErr(const IterView& v) {
  Vec e(v.x.rows());
  for (int i = 0; i < e.rows(); ++i)
    e[i] = v.dx_exact ? 0.0 : 4 * kEps * (std::abs(v.x[i]) + std::abs(v.dx[i]));
  return e;
}
struct Deriv {
  bool ok = false;
  double d_f = 0, d_eq = 0, tol_f = 0, tol_eq = 0;
};
static Deriv ComputeDeriv(const IterView& v) {
  Deriv d;
  if (!v.complete || !v.finite_all || v.dx.rows() != v.x.rows() || !AllFinite(v.dx)) return d;
  const Vec e = DxErr(v);
  for (int i = 0; i < v.x.rows(); ++i) {
    d.d_f += v.c[i] * v.dx[i];
    d.tol_f += 1e-12 * v.cmag[i] * std::abs(v.dx[i]) + v.cmag[i] * e[i];
  }
  for (int k = 0; k < v.A.rows(); ++k) {
    const double s = v.b[k] > 0 ? 1 : (v.b[k] < 0 ? -1 : 0);
    for (int i = 0; i < v.x.rows(); ++i) {
      d.d_eq += s * v.A(k, i) * v.dx[i];
      d.tol_eq += std::abs(s * v.A(k, i)) * (1e-12 * std::abs(v.dx[i]) + e[i]);
    }
  }
  d.ok = std::isfinite(d.d_f) && std::isfinite(d.d_eq) && std::isfinite(d.tol_f) && std::isfinite(d.tol_eq);
  return d;
}

static bool Huge(double a) { return !(std::abs(a) < 1e290); }

// Next current point after iteration k, if it was observed
static const Vec* NextX(const SolveRec& r, const History& h, size_t k) {
  if (k + 1 < h.it.size() && h.it[k + 1].complete) return &h.it[k + 1].x;
  if (k + 1 == h.it.size() && !r.threw) return &r.final;
  return nullptr;
}

// ---------------------------------------------------------------- C09
// The step length the polynomial strategy goes to next: the minimizer of the quadratic (one trial so far) or the cubic
// (through the last two) that has the merit value and derivative at zero. `dev` bounds what round-off can change.
struct PolyAlpha {
  bool ok = false;  // well determined
  bool none = false;  // no minimizer
  double alpha = 0, dev = 0;
};
static PolyAlpha PolynomialAlpha(double m0, double D, double tolD, const double* a, const double* m, int n) {
  using LD = long double;
  struct R {
    bool none, sure;
    LD v, extra;
  };
  const LD kappa = n == 1 ? 1 : static_cast<LD>(a[0]) / (static_cast<LD>(a[0]) - a[1]);
  LD d[4];
  d[0] = 2e-15L * kappa * std::abs(m0);
  d[1] = static_cast<LD>(tolD) + 2e-15L * kappa * std::abs(D);
  for (int i = 0; i < n; ++i) d[2 + i] = 2e-15L * kappa * (std::abs(m[i]) + std::abs(m0));
  auto eval = [&](const LD* p) {
    R r{false, true, 0, 0};
    const LD q0 = m0 + p[0], Dq = D + p[1];
    if (n == 1) {
      const LD num = m[0] + p[2] - Dq * a[0] - q0;
      if (num <= 0) {
        r.none = true;
        return r;
      }
      r.v = -Dq * a[0] * a[0] / (2 * num);
      return r;
    }
    const LD a0 = a[0], a1 = a[1], r0 = m[0] + p[2] - q0 - Dq * a0, r1 = m[1] + p[3] - q0 - Dq * a1;
    const LD A = (r0 / (a0 * a0) - r1 / (a1 * a1)) / (a0 - a1), B = r1 / (a1 * a1) - A * a1;
    if (!(std::abs(A) < 1e140L && std::abs(B) < 1e140L && std::abs(Dq) < 1e140L && a1 > 1e-60L)) r.sure = false;  // the squares overflow
    const LD arg = B * B - 3 * A * Dq;
    if (A == 0 || arg < 0) {
      r.none = true;
      r.sure = r.sure && arg < -1e-11L;  // values just below zero may count as zero
      return r;
    }
    r.v = (-B + std::sqrt(arg)) / (3 * A);
    r.extra = 1e-15L * (std::abs(B) + std::sqrt(arg)) / std::abs(3 * A);
    return r;
  };
  PolyAlpha out;
  LD zero[4] = {0, 0, 0, 0};
  const R base = eval(zero);
  LD dev = base.extra;
  bool same = base.sure;
  for (int i = 0; i < 2 + n && same; ++i)
    for (int sgn = -1; sgn <= 1; sgn += 2) {
      LD p[4] = {0, 0, 0, 0};
      p[i] = sgn * 8 * d[i];
      const R r = eval(p);
      if (r.none != base.none || !r.sure) same = false;
      dev += std::abs(r.v - base.v);
    }
  out.none = base.none;
  out.alpha = static_cast<double>(base.v);
  out.dev = static_cast<double>(4 * dev);
  out.ok = same && std::isfinite(out.alpha) && std::isfinite(out.dev) && (out.none || out.dev < 1e-2 * std::abs(out.alpha));
  return out;
}

void CheckC09(const SolveRec& r, const History& h) {
  const Params& P = r.params;
  if (!h.it.empty() && h.it[0].complete && !SameBits(h.it[0].x, r.start))
    Violation("start", "first linearization at %s, started at %s", V(h.it[0].x).c_str(), V(r.start).c_str());
  for (size_t k = 0; k < h.it.size(); ++k) {
    const IterView& v = h.it[k];
    if (!v.complete || !v.consistent) {
      if (!v.consistent) Violation("point-torn", "residuals linearized at different points in iteration %zu", k);
      continue;
    }
    const Vec* nx = NextX(r, h, k);
    if (v.cb && nx && !SameBits(v.cb->x_in, *nx))
      Violation("moved-after-callback", "iteration %zu: callback saw %s, solver then continued from %s", k,
                V(v.cb->x_in).c_str(), V(*nx).c_str());
    if (!nx && v.cb) nx = &v.cb->x_in;
    // trials
    double prev = 0;
    for (size_t j = 0; j < v.trials.size(); ++j) {
      const Trial& t = v.trials[j];
      if (!t.consistent)
        Violation("trial-torn", "iteration %zu trial %zu: residuals evaluated at different points or not at the retraction's output", k, j);
      double alpha = -1;
      if (t.retr) {
        alpha = t.retr->alpha;
        if (!SameBits(t.retr->x_in, v.x))
          Violation("trial-base", "iteration %zu trial %zu: retraction started from %s, current point is %s", k, j,
                    V(t.retr->x_in).c_str(), V(v.x).c_str());
        if (!SameBits(t.retr->dx, v.dx))
          Violation("trial-direction", "iteration %zu trial %zu: direction changed within one search", k, j);
      }
      if (v.rec && j < v.rec->line_search_steps.size()) {
        const double ra = v.rec->line_search_steps[j].alpha;
        if (t.retr && ra != alpha)
          Violation("trial-alpha", "iteration %zu trial %zu: step length %g used, %g recorded", k, j, alpha, ra);
        alpha = ra;
      }
      if (alpha == -1) continue;
      if (j == 0) {
        if (alpha != 1.0) Violation("alpha-first", "iteration %zu: first step length is %.17g", k, alpha);
      } else {
        if (!(alpha > 0 && alpha < prev))
          Violation("alpha-order", "iteration %zu trial %zu: step length %.17g after %.17g", k, j, alpha, prev);
        if (P.line_search_strategy == mini_opt::LineSearchStrategy::ARMIJO_BACKTRACK &&
            !Close(alpha, prev * P.armijo_search_tau, 1e-13))
          Violation("alpha-backtrack", "iteration %zu trial %zu: step length %.17g after %.17g with factor %g", k, j,
                    alpha, prev, P.armijo_search_tau);
      }
      prev = alpha;
      if (!t.retr && t.complete && v.dx.rows() == v.x.rows() && AllFinite(v.dx) && AllFinite(t.x)) {
        for (int i = 0; i < v.x.rows(); ++i) {
          const double want = v.x[i] + alpha * v.dx[i];
          if (!(std::abs(t.x[i] - want) <= 16 * kEps * (std::abs(v.x[i]) + std::abs(v.dx[i])) + 1e-300))
            Violation("trial-point", "iteration %zu trial %zu: evaluated at %s, expected x + %.17g*dx = %.17g in component %d",
                      k, j, V(t.x).c_str(), alpha, want, i);
        }
      }
    }
    if (v.rec && v.finite_lin() && v.rec->line_search_steps.size() == v.trials.size() && !v.trials.empty()) {
      const Deriv d = ComputeDeriv(v);
      const double pen = v.rec->penalty, D = d.d_f + pen * d.d_eq, tolD = d.tol_f + pen * d.tol_eq, m0 = v.f + pen * v.eq;
      const size_t nt = v.trials.size();
      std::vector<double> as, ms;
      bool fine = d.ok && std::isfinite(pen) && !Huge(m0) && !Huge(D) && std::isfinite(tolD);
      for (size_t j = 0; j < nt; ++j) {
        const Trial& t = v.trials[j];
        as.push_back(v.rec->line_search_steps[j].alpha);
        ms.push_back(t.f + pen * t.eq);
        if (!t.complete || !t.finite() || Huge(ms.back())) fine = false;
      }
      const auto res = v.rec->step_result;
      const bool searched = res == StepSizeSelectionResult::SUCCESS || res == StepSizeSelectionResult::MAX_ITERATIONS ||
                            res == StepSizeSelectionResult::FAILURE_INVALID_ALPHA;
      if (fine && searched) {
        // the first trial that decreases the merit function enough is the one accepted
        const size_t rejected = res == StepSizeSelectionResult::SUCCESS ? nt - 1 : nt;
        for (size_t j = 0; j < rejected; ++j) {
          const double tol = 1e-12 * (std::abs(m0) + std::abs(ms[j])) + 1e-4 * as[j] * tolD;
          if (ms[j] < m0 + 1e-4 * as[j] * D - tol)
            Violation("good-trial-rejected", "iteration %zu: trial %zu lowered the merit function from %.17g to %.17g (step %.17g, derivative %.17g) but was not accepted",
                      k, j, m0, ms[j], as[j], D);
        }
        Count("probe.rejections_checked", rejected);
        if (P.line_search_strategy == mini_opt::LineSearchStrategy::POLYNOMIAL_APPROXIMATION && D < -2 * tolD) {
          for (size_t j = 1; j < nt + (res == StepSizeSelectionResult::FAILURE_INVALID_ALPHA ? 1 : 0); ++j) {
            const PolyAlpha p = j == 1 ? PolynomialAlpha(m0, D, tolD, &as[0], &ms[0], 1) : PolynomialAlpha(m0, D, tolD, &as[j - 2], &ms[j - 2], 2);
            if (!p.ok) {
              Count("probe.interpolation_undetermined");
              continue;
            }
            Count(j == 1 ? "probe.quadratic_checked" : "probe.cubic_checked");
            if (j < nt) {
              if (p.none || !(std::abs(as[j] - p.alpha) <= p.dev + 1e-9 * std::abs(p.alpha)))
                Violation("alpha-polynomial", "iteration %zu trial %zu: step length %.17g, the interpolating polynomial has its minimum at %.17g (+- %g)%s", k, j, as[j],
                          p.alpha, p.dev, p.none ? " (none)" : "");
            } else if (!p.none && p.alpha > p.dev && p.alpha < as[j - 1] * (1 - 1e-9) - p.dev) {
              Violation("alpha-given-up", "iteration %zu: no step length found after %zu trials, the interpolating polynomial has its minimum at %.17g (+- %g; m0 %.17g D %.17g +- %g, last %.17g -> %.17g, before %.17g -> %.17g)", k, nt, p.alpha, p.dev, m0, D, tolD, as[j-1], ms[j-1], as[j>1?j-2:0], ms[j>1?j-2:0]);
            }
          }
        }
      }
    }
    if (!v.rec) {
      // no record: an unrecorded (indefinite) iteration must not move
      if (!r.threw && nx && v.trials.empty() && !SameBits(*nx, v.x))
        Violation("moved-without-step", "iteration %zu tried no step but the variables moved", k);
      continue;
    }
    if (!nx) continue;
    if (v.rec->step_result == StepSizeSelectionResult::SUCCESS) {
      if (v.trials.empty()) Violation("accept-without-trial", "iteration %zu accepted a step without evaluating one", k);
      const Trial& t = v.trials.back();
      if (t.complete && !SameBits(*nx, t.x))
        Violation("accepted-point", "iteration %zu: accepted trial was %s but variables became %s", k, V(t.x).c_str(),
                  V(*nx).c_str());
      const Deriv d = ComputeDeriv(v);
      const double pen = v.rec->penalty;
      const double alpha = prev;
      if (d.ok && t.complete && v.finite_lin() && std::isfinite(pen)) {
        const double D = d.d_f + pen * d.d_eq, tolD = d.tol_f + pen * d.tol_eq;
        const double m0 = v.f + pen * v.eq, m1 = t.f + pen * t.eq;
        if (Huge(m0) || Huge(m1) || Huge(D)) continue;
        const double tol = 1e-12 * (std::abs(m0) + std::abs(m1)) + 1e-4 * alpha * tolD;
        if (!(D <= tolD))
          Violation("uphill", "iteration %zu: step accepted along a direction with derivative %.17g > 0", k, D);
        if (!(m1 <= m0 + 1e-4 * alpha * D + tol))
          Violation("armijo", "iteration %zu: accepted merit %.17g from %.17g, step %.17g, derivative %.17g: insufficient decrease",
                    k, m1, m0, alpha, D);
        Count("probe.armijo_checked");
      }
    } else if (!SameBits(*nx, v.x)) {
      Violation("moved-on-failure", "iteration %zu: search failed but variables moved from %s to %s", k,
                V(v.x).c_str(), V(*nx).c_str());
    } else {
      Count("probe.failed_search");
    }
  }
  if (h.it.empty() && !r.threw && !SameBits(r.final, r.start))
    Violation("moved-without-step", "no iteration ran but the variables moved");
}

// ---------------------------------------------------------------- C08
void CheckC08(const SolveRec& r, const History& h) {
  if (!AllFinite(r.start)) return;
  if (!AllFinite(r.final)) Violation("nonfinite-variables", "variables are %s after the solve", V(r.final).c_str());
  for (size_t k = 0; k < h.it.size(); ++k) {
    const IterView& v = h.it[k];
    if (v.complete && !AllFinite(v.x))
      Violation("nonfinite-variables", "iteration %zu linearized at %s", k, V(v.x).c_str());
    if (v.cb && !AllFinite(v.cb->x_in))
      Violation("nonfinite-variables", "callback of iteration %zu saw %s", k, V(v.cb->x_in).c_str());
    if (v.complete && !v.finite_lin()) {
      Count("probe.nonfinite_linearization");
      if (k + 1 != h.it.size())
        Violation("continued-after-nonfinite", "iteration %zu: linearization cost was not finite but the solve went on", k);
      if (!r.threw && mini_opt::TerminationStateIndicatesSatisfiedTol(r.out->termination_state))
        Violation("satisfied-on-nonfinite", "linearization cost not finite but a tolerance was reported as satisfied");
    }
    for (size_t j = 0; j < v.trials.size(); ++j) {
      const Trial& t = v.trials[j];
      if (t.finite() || (Huge(t.f) && std::isfinite(t.f))) continue;
      if (t.evals.empty()) continue;
      Count("probe.nonfinite_trial");
      if (!v.rec) continue;
      if (v.rec->step_result != StepSizeSelectionResult::FAILURE_NON_FINITE_COST)
        Violation("nonfinite-not-recorded", "iteration %zu trial %zu had cost %g/%g but the step result is %d", k, j, t.f,
                  t.eq, static_cast<int>(v.rec->step_result));
      const Vec* nx = NextX(r, h, k);
      if (!nx && v.cb) nx = &v.cb->x_in;
      if (nx && v.complete && !SameBits(*nx, v.x))
        Violation("nonfinite-accepted", "iteration %zu: trial with non-finite cost moved the variables", k);
    }
    if (v.rec && v.rec->step_result == StepSizeSelectionResult::FAILURE_NON_FINITE_COST) {
      bool any = false;
      for (const Trial& t : v.trials)
        if (!t.finite() || Huge(t.f) || Huge(t.eq)) any = true;
      if (!any && !v.trials.empty() && v.trials.back().complete)
        Violation("finite-reported-nonfinite", "iteration %zu: every trial cost was finite but a non-finite failure was recorded", k);
    }
  }
  if (r.out && mini_opt::TerminationStateIndicatesSatisfiedTol(r.out->termination_state) && !h.it.empty()) {
    const IterView& v = h.it.back();
    if (!v.finite_all)
      Violation("satisfied-on-nonfinite", "a tolerance was reported as satisfied in an iteration whose linearization held a non-finite value");
    if (v.rec) {
      const bool dfin = std::isfinite(v.rec->directional_derivatives.d_f) &&
                        std::isfinite(v.rec->directional_derivatives.d_equality);
      const bool efin = !v.rec->line_search_steps.empty() &&
                        !v.rec->line_search_steps.back().errors.ContainsInvalidValues();
      if (!dfin || !efin)
        Violation("satisfied-on-nonfinite", "a tolerance was reported as satisfied with non-finite derivatives or errors on record");
    }
  }
}

// ---------------------------------------------------------------- damping reference
struct LambdaRef {
  double lambda;
  bool restoring = false;
  void Step(const Params& P, StepSizeSelectionResult s) {
    if (s == StepSizeSelectionResult::SUCCESS) {
      lambda = std::max(lambda * (restoring ? P.lambda_decrease_on_restore : P.lambda_decrease_on_success), P.min_lambda);
      restoring = false;
    } else if (s == StepSizeSelectionResult::MAX_ITERATIONS || s == StepSizeSelectionResult::POSITIVE_DERIVATIVE) {
      lambda = restoring ? lambda * 10.0 : std::max(P.lambda_failure_init, lambda * 10.0);
      restoring = true;
    }
  }
};

// ---------------------------------------------------------------- C10
void CheckC10(const SolveRec& r, const History& h) {
  if (!r.out) return;
  const Params& P = r.params;
  const auto& recs = r.out->iterations;
  const NLSTerminationState ts = r.out->termination_state;
  if (h.it.size() != recs.size() + (ts == NLSTerminationState::QP_INDEFINITE ? 1u : 0u)) {
    if (ts != NLSTerminationState::QP_INDEFINITE || h.it.size() != recs.size() + 1)
      Violation("iterations-vs-work", "%zu iterations recorded, %zu performed, reason %d", recs.size(), h.it.size(),
                static_cast<int>(ts));
  }
  LambdaRef L{P.lambda_initial};
  for (size_t k = 0; k < recs.size(); ++k) {
    const IterView& v = h.it[k];
    const NLSIteration& rec = recs[k];
    const bool last = k + 1 == recs.size() && ts != NLSTerminationState::QP_INDEFINITE;
    const Deriv d = ComputeDeriv(v);
    bool abs_true = false, rel_true = false, abs_poss = false, rel_poss = false;
    if (rec.step_result == StepSizeSelectionResult::SUCCESS && !v.trials.empty() && v.trials.back().complete) {
      const Trial& t = v.trials.back();
      const double li = std::max(t.f, t.eq);
      abs_true = li < P.absolute_exit_tol * (1 - 1e-9);
      abs_poss = li < P.absolute_exit_tol * (1 + 1e-9) + 1e-300;
      const double m0 = v.f + rec.penalty * v.eq, m1 = t.f + rec.penalty * t.eq;
      const double tol = 1e-11 * (std::abs(m0) + std::abs(m1));
      rel_true = m1 > m0 * (1 - P.relative_exit_tol) + tol;
      rel_poss = m1 > m0 * (1 - P.relative_exit_tol) - tol || Huge(m0) || Huge(m1);
    }
    const bool t0_finite = !v.trials.empty() && v.trials[0].complete && v.trials[0].finite() && !Huge(v.trials[0].f);
    const bool fo_true = d.ok && t0_finite && v.finite_lin() &&
                         std::abs(d.d_f) + d.tol_f < P.absolute_first_derivative_tol * (1 - 1e-9) &&
                         std::abs(d.d_eq) + d.tol_eq < P.absolute_first_derivative_tol * (1 - 1e-9);
    const bool fo_poss = !d.ok || (std::abs(d.d_f) - d.tol_f < P.absolute_first_derivative_tol * (1 + 1e-9) &&
                                   std::abs(d.d_eq) - d.tol_eq < P.absolute_first_derivative_tol * (1 + 1e-9));
    LambdaRef after = L;
    after.Step(P, rec.step_result);
    const bool failed = rec.step_result == StepSizeSelectionResult::MAX_ITERATIONS ||
                        rec.step_result == StepSizeSelectionResult::POSITIVE_DERIVATIVE;
    const bool lam_true = failed && after.lambda > P.max_lambda * (1 + 1e-9) + 1e-300;
    const bool lam_poss = failed && after.lambda > P.max_lambda * (1 - 1e-9);
    const bool cancelled = v.cb && !v.cb->cb_ret;
    if (!last) {
      const char* why = nullptr;
      if (abs_true) why = "the absolute tolerance was met";
      if (rel_true) why = "the merit decrease was within the relative tolerance";
      if (fo_true) why = "the first-order tolerance was met";
      if (rec.step_result == StepSizeSelectionResult::FIRST_ORDER_SATISFIED) why = "a first-order point was recorded";
      if (lam_true) why = "damping had passed its maximum";
      if (cancelled) why = "the exit callback had returned false";
      if (why) Violation("late-stop", "iteration %zu of %zu: %s but the solve went on", k, recs.size(), why);
    } else {
      switch (ts) {
        case NLSTerminationState::SATISFIED_ABSOLUTE_TOL:
          if (!abs_poss)
            Violation("false-absolute", "absolute tolerance reported; accepted cost %.17g equality %.17g tolerance %g",
                      v.trials.empty() ? -1 : v.trials.back().f, v.trials.empty() ? -1 : v.trials.back().eq, P.absolute_exit_tol);
          Count("probe.stop.absolute");
          break;
        case NLSTerminationState::SATISFIED_RELATIVE_TOL:
          if (!rel_poss) Violation("false-relative", "relative tolerance %g reported but the last step decreased the merit by more", P.relative_exit_tol);
          if (abs_true) Count("probe.stop.both");
          Count("probe.stop.relative");
          break;
        case NLSTerminationState::SATISFIED_FIRST_ORDER_TOL:
          if (!fo_poss)
            Violation("false-first-order", "first-order tolerance %g reported; derivatives are %.17g and %.17g",
                      P.absolute_first_derivative_tol, d.d_f, d.d_eq);
          Count("probe.stop.first_order");
          break;
        case NLSTerminationState::MAX_LAMBDA:
          if (!lam_poss)
            Violation("false-max-lambda", "maximum damping reported; damping after the last search is %.17g, maximum %g, step result %d",
                      after.lambda, P.max_lambda, static_cast<int>(rec.step_result));
          Count("probe.stop.max_lambda");
          break;
        case NLSTerminationState::MAX_ITERATIONS:
          if (static_cast<int>(recs.size()) != P.max_iterations)
            Violation("false-max-iterations", "iteration limit %d reported after %zu iterations", P.max_iterations, recs.size());
          if (abs_true || rel_true || fo_true || lam_true)
            Violation("late-stop", "iteration limit reported although the last iteration met another condition");
          Count("probe.stop.max_iterations");
          break;
        case NLSTerminationState::USER_CALLBACK:
          if (!cancelled) Violation("false-user-callback", "user cancellation reported but the callback did not return false");
          if (abs_true || rel_true || fo_true || lam_true)
            Violation("cancel-hides-reason", "user cancellation reported although the iteration met another stopping condition");
          Count("probe.stop.user");
          break;
        case NLSTerminationState::QP_INDEFINITE:
          break;
      }
    }
    L = after;
  }
  if (recs.empty() && ts != NLSTerminationState::QP_INDEFINITE) {
    if (!(ts == NLSTerminationState::MAX_ITERATIONS && P.max_iterations == 0))
      Violation("false-reason", "reason %d reported without any iteration", static_cast<int>(ts));
  }
  if (ts == NLSTerminationState::QP_INDEFINITE) {
    Count("probe.stop.indefinite");
    if (h.it.size() != recs.size() + 1)
      Violation("false-indefinite", "indefinite reported after %zu linearizations and %zu records", h.it.size(), recs.size());
    const IterView& v = h.it.back();
    if (r.inst->HasIneq() || r.inst->eqs.empty())
      Violation("false-indefinite", "indefinite reported for a problem without only equality constraints");
    if (v.complete && v.finite_all && !v.A.hasNaN()) {
      Eigen::ColPivHouseholderQR<Mat> qr(v.A.transpose());
      qr.setThreshold(1e-9);
      if (qr.rank() == v.A.rows() && v.A.rows() < r.inst->n) {
        const Mat Q = qr.matrixQ();
        const Mat Z = Q.rightCols(r.inst->n - v.A.rows());
        const Mat H = Z.transpose() * (v.G + L.lambda * Mat::Identity(r.inst->n, r.inst->n)) * Z;
        const double lo = Eigen::SelfAdjointEigenSolver<Mat>(H).eigenvalues().minCoeff();
        if (lo > 1e-9 * (1 + v.G.norm()))
          Violation("false-indefinite", "indefinite reported but the reduced Hessian's smallest eigenvalue is %g", lo);
      }
    }
  }
}

// ---------------------------------------------------------------- C11
void CheckC11Bounds(const SolveRec& r, const History& h) {
  const Params& P = r.params;
  if (!h.problem.empty()) Violation("work-structure", "%s", h.problem.c_str());
  if (static_cast<int>(h.it.size()) > P.max_iterations)
    Violation("too-many-iterations", "%zu iterations performed, limit %d", h.it.size(), P.max_iterations);
  if (r.out && static_cast<int>(r.out->iterations.size()) > P.max_iterations)
    Violation("too-many-iterations", "%zu iterations recorded, limit %d", r.out->iterations.size(), P.max_iterations);
  for (size_t k = 0; k < h.it.size(); ++k)
    if (static_cast<int>(h.it[k].trials.size()) > P.max_line_search_iterations + 1)
      Violation("too-many-trials", "iteration %zu: %zu trials, limit %d + 1", k, h.it[k].trials.size(), P.max_line_search_iterations);
  for (const NLSIteration& it : *h.recs) {
    if (auto* ip = std::get_if<mini_opt::QPInteriorPointSolverOutputs>(&it.qp_outputs)) {
      if (static_cast<int>(ip->iterations.size()) > P.max_qp_iterations)
        Violation("too-many-qp-iterations", "iteration %d: %zu inner iterations, limit %d", it.iteration,
                  ip->iterations.size(), P.max_qp_iterations);
    }
    if (static_cast<int>(it.line_search_steps.size()) > P.max_line_search_iterations + 1)
      Violation("too-many-trials", "iteration %d records %zu trials, limit %d + 1", it.iteration,
                it.line_search_steps.size(), P.max_line_search_iterations);
  }
}

// ---------------------------------------------------------------- C12
static void CheckDirection(const SolveRec& r, const IterView& v, size_t k, double lambda) {
  const Inst& I = *r.inst;
  const Vec e = DxErr(v);
  const Mat H = v.G + lambda * Mat::Identity(I.n, I.n);
  const Eigen::SelfAdjointEigenSolver<Mat> es(H);
  const double hi = es.eigenvalues().maxCoeff(), lo = es.eigenvalues().minCoeff();
  if (!(hi > 0) || !std::isfinite(hi)) return;
  const double errH = H.norm() * e.norm();
  // the direction is measured as a difference of points: nothing can be said about enormous ones
  if (!(errH < 1e100) || !(v.x.norm() < 1e100) || !(v.dx.norm() < 1e100)) return;
  const int K = static_cast<int>(v.A.rows());
  int rank = 0;
  Mat Z;
  if (K > 0) {
    Eigen::JacobiSVD<Mat> svd(v.A, Eigen::ComputeFullU | Eigen::ComputeFullV);
    const auto& sv = svd.singularValues();
    const double smax = sv.maxCoeff();
    while (rank < sv.rows() && sv[rank] > 1e-4 * std::max(1.0, smax)) ++rank;
    if (rank < K) {
      // dependent constraints: clearly so, consistent, and solved by the null-space solver, or nothing is claimed
      if (I.HasIneq() || (rank < sv.rows() && !(sv[rank] <= 1e-15 * smax))) return;
      const Vec off = svd.matrixU().rightCols(K - rank).transpose() * v.b;
      if (!(off.norm() <= 1e-13 * v.b.norm())) return;
      Count(K > I.n ? "probe.direction_over_determined" : "probe.direction_dependent");
    }
    Z = svd.matrixV().rightCols(I.n - rank);
  }
  if (!I.HasIneq()) {
    if (K == 0) {
      if (!(lo > 1e-7 * hi)) return;
      const Vec res = H * v.dx + v.c;
      const double scale = H.norm() * v.dx.norm() + v.cmag.norm();
      if (!(scale > 1e-100)) return;  // underflow
      if (!(res.norm() <= 1e-7 * scale + 10 * errH))
        Violation("direction", "iteration %zu: step does not solve the damped subproblem: residual %g, scale %g, damping %g", k,
                  res.norm(), scale, lambda);
      Count("probe.direction_unconstrained");
    } else {
      const Vec req = v.A * v.dx + v.b;
      const double sc = v.A.norm() * v.dx.norm() + v.b.norm();
      if (!(sc > 1e-100) && sc != 0) return;  // underflow
      if (!(req.norm() <= 1e-8 * sc + 10 * v.A.norm() * e.norm()))
        Violation("direction-equality", "iteration %zu: step leaves linearized equality residual %g", k, req.norm());
      if (I.n > rank) {
        const Mat HR = Z.transpose() * H * Z;
        const auto ev = Eigen::SelfAdjointEigenSolver<Mat>(HR).eigenvalues();
        if (!(ev.minCoeff() > 1e-6 * hi)) return;
        const Vec g = Z.transpose() * (H * v.dx + v.c);
        const double scale = H.norm() * v.dx.norm() + v.cmag.norm() + H.norm() * v.b.norm();
        if (!(scale > 1e-100)) return;
        if (!(g.norm() <= 1e-7 * scale + 10 * errH))
          Violation("direction", "iteration %zu: step is not the equality constrained minimizer: projected gradient %g, scale %g, damping %g",
                    k, g.norm(), scale, lambda);
      }
      Count("probe.direction_equality");
    }
    return;
  }
  // Bounds: only when the inner solver claims convergence.
  const auto* ip = std::get_if<mini_opt::QPInteriorPointSolverOutputs>(&v.rec->qp_outputs);
  if (!ip || ip->termination_state != mini_opt::QPInteriorPointTerminationState::SATISFIED_KKT_TOL) return;
  if (r.params.termination_kkt_tolerance > 1e-4) return;
  const double tol0 = r.params.termination_kkt_tolerance;
  const double M = static_cast<double>(I.problem.inequality_constraints.size());
  Vec g = H * v.dx + v.c;
  const double base = tol0 * 2 + 1e-9 * (H.norm() * v.dx.norm() + v.cmag.norm()) + 10 * errH;
  // allowance of each variable's gradient from multipliers of inactive bounds
  Vec lo_allow = Vec::Zero(I.n), hi_allow = Vec::Zero(I.n);  // g_i in [-hi, +lo] + [0, inf) for active lower...
  std::vector<char> act_lo(static_cast<size_t>(I.n), 0), act_hi(static_cast<size_t>(I.n), 0);
  for (const auto& c : I.problem.inequality_constraints) {
    const double slack = c.a * (v.x[c.variable] + v.dx[c.variable]) + c.b;
    const double zmax = M * 1.1e-6 / std::max(slack - 1e-5 * (1 + std::abs(c.a)), 1e-12);
    // stationarity: g = sum a z ; a>0 pushes g up
    const bool active = slack < 1e-2;
    if (c.a > 0) {
      if (active) act_lo[static_cast<size_t>(c.variable)] = 1;
      else lo_allow[c.variable] += c.a * zmax;
    } else {
      if (active) act_hi[static_cast<size_t>(c.variable)] = 1;
      else hi_allow[c.variable] += -c.a * zmax;
    }
  }
  std::vector<int> free_vars;
  for (int i = 0; i < I.n; ++i)
    if (!act_lo[static_cast<size_t>(i)] && !act_hi[static_cast<size_t>(i)]) free_vars.push_back(i);
  if (K > 0) {
    if (static_cast<int>(free_vars.size()) < K) return;
    Mat AF(K, static_cast<int>(free_vars.size()));
    Vec gF(static_cast<int>(free_vars.size()));
    for (size_t q = 0; q < free_vars.size(); ++q) {
      AF.col(static_cast<int>(q)) = v.A.col(free_vars[q]);
      gF[static_cast<int>(q)] = g[free_vars[q]];
    }
    Eigen::JacobiSVD<Mat> svd(AF.transpose(), Eigen::ComputeThinU | Eigen::ComputeThinV);
    if (!(svd.singularValues().minCoeff() > 1e-2)) return;
    const Vec y = svd.solve(gF);
    g -= v.A.transpose() * y;
    const Vec req = v.A * v.dx + v.b;
    if (!(req.norm() <= base * 10 + 1e-8 * (v.A.norm() * v.dx.norm() + v.b.norm()) + 10 * v.A.norm() * e.norm()))
      Violation("direction-equality", "iteration %zu: converged step leaves linearized equality residual %g", k, req.norm());
  }
  const double slop = 1e3 * base + (K > 0 ? 1e2 * (lo_allow.sum() + hi_allow.sum()) : 0.0);
  for (int i = 0; i < I.n; ++i) {
    const size_t s = static_cast<size_t>(i);
    if (!act_lo[s] && !(g[i] <= lo_allow[i] + slop))
      Violation("direction", "iteration %zu: converged step has gradient %g in variable %d with no active lower bound (damping %g)", k, g[i], i, lambda);
    if (!act_hi[s] && !(g[i] >= -hi_allow[i] - slop))
      Violation("direction", "iteration %zu: converged step has gradient %g in variable %d with no active upper bound (damping %g)", k, g[i], i, lambda);
  }
  Count("probe.direction_bounds");
}

void CheckC12(const SolveRec& r, const History& h) {
  const Params& P = r.params;
  LambdaRef L{P.lambda_initial};
  double pen_prev = P.equality_penalty_initial;
  for (size_t k = 0; k < h.recs->size() && k < h.it.size(); ++k) {
    const NLSIteration& rec = (*h.recs)[k];
    const IterView& v = h.it[k];
    if (!Close(rec.lambda, L.lambda, 1e-12))
      Violation("damping", "iteration %zu: damping %.17g recorded, expected %.17g", k, rec.lambda, L.lambda);
    // direction
    if (v.complete && v.finite_all && v.dx.rows() == v.x.rows() && AllFinite(v.dx) && v.G.norm() < 1e12 &&
        v.cmag.norm() < 1e12 && v.A.norm() < 1e12 && v.b.norm() < 1e12)
      CheckDirection(r, v, k, L.lambda);
    // how well the subproblem was solved: to the configured tolerance, or with all the iterations allowed
    if (auto* ip = std::get_if<mini_opt::QPInteriorPointSolverOutputs>(&rec.qp_outputs)) {
      auto worst = [](const mini_opt::KKTError& e) { return std::max(std::max(e.r_dual, e.r_comp), std::max(e.r_primal_eq, e.r_primal_ineq)); };
      if (ip->iterations.empty()) {
        Violation("inner", "iteration %zu: the inner solve records no iteration", k);
      } else if (ip->termination_state == mini_opt::QPInteriorPointTerminationState::SATISFIED_KKT_TOL) {
        if (!(worst(ip->iterations.back().kkt_final) < P.termination_kkt_tolerance))
          Violation("inner-tolerance", "iteration %zu: the inner solve ended at residual %g, the tolerance is %g", k,
                    worst(ip->iterations.back().kkt_final), P.termination_kkt_tolerance);
        Count("probe.inner_converged");
      } else if (static_cast<int>(ip->iterations.size()) != P.max_qp_iterations) {
        Violation("inner-limit", "iteration %zu: the inner solve gave up after %zu of %d iterations", k, ip->iterations.size(), P.max_qp_iterations);
      }
    }
    // penalty
    if (!(rec.penalty >= pen_prev))
      Violation("penalty-decreased", "iteration %zu: penalty %.17g after %.17g", k, rec.penalty, pen_prev);
    if (r.inst->eqs.empty()) {
      if (rec.penalty != pen_prev) Violation("penalty-without-equality", "iteration %zu: penalty changed to %g without equality constraints", k, rec.penalty);
    } else {
      double req = 0, err = 0;
      bool know = false;
      if (auto* ip = std::get_if<mini_opt::QPInteriorPointSolverOutputs>(&rec.qp_outputs)) {
        if (ip->lagrange_multipliers) {
          req = ip->lagrange_multipliers->l_infinity;
          know = std::isfinite(req);
        }
      } else if (v.complete && v.finite_all && v.dx.rows() == v.x.rows() && AllFinite(v.dx)) {
        const Mat H = v.G + L.lambda * Mat::Identity(v.x.rows(), v.x.rows());
        const Vec e = DxErr(v);
        const double q = v.dx.dot(H * v.dx);
        const double num = v.c.dot(v.dx) + 0.5 * std::max(0.0, q);
        const double den = (1 - P.equality_penalty_rho) * std::max(v.b.lpNorm<1>(), kEps);
        req = num / den;
        const double aq = v.dx.cwiseAbs().dot(H.cwiseAbs() * v.dx.cwiseAbs());
        err = (1e-12 * (v.cmag.dot(v.dx.cwiseAbs()) + aq) + v.cmag.dot(e) + 2 * e.dot(H.cwiseAbs() * (v.dx.cwiseAbs() + e))) / den +
              1e-12 * std::abs(req);
        know = std::isfinite(req) && std::isfinite(err);
      }
      if (know) {
        const double s = P.equality_penalty_scale_factor;
        if (req - err > pen_prev * (1 + 1e-6)) {
          if (!(std::abs(rec.penalty - req * s) <= s * err + 1e-6 * std::abs(req * s)))
            Violation("penalty-not-raised", "iteration %zu: bound %.17g exceeds penalty %.17g, so %.17g expected, %.17g recorded", k,
                      req, pen_prev, req * s, rec.penalty);
          Count("probe.penalty_raised");
        } else if (req + err < pen_prev * (1 - 1e-6)) {
          if (rec.penalty != pen_prev)
            Violation("penalty-raised", "iteration %zu: bound %.17g is below penalty %.17g but it became %.17g", k, req, pen_prev,
                      rec.penalty);
        }
      }
    }
    pen_prev = rec.penalty;
    const bool was = L.restoring;
    L.Step(P, rec.step_result);
    if (was && !L.restoring) Count("probe.restore_exit");
    if (L.restoring && was) Count("probe.restore_ramp");
    if ((rec.optimizer_state == mini_opt::OptimizerState::ATTEMPTING_RESTORE_LM) != L.restoring)
      Violation("optimizer-state", "iteration %zu: state %d recorded after step result %d", k,
                static_cast<int>(rec.optimizer_state), static_cast<int>(rec.step_result));
    const bool failed = rec.step_result == StepSizeSelectionResult::MAX_ITERATIONS ||
                        rec.step_result == StepSizeSelectionResult::POSITIVE_DERIVATIVE;
    if (failed && L.lambda > P.max_lambda * (1 + 1e-9) + 1e-300) {
      if (k + 1 != h.recs->size() || (r.out && r.out->termination_state != NLSTerminationState::MAX_LAMBDA))
        Violation("damping-limit", "iteration %zu: damping %g passed its maximum %g without ending the solve", k, L.lambda, P.max_lambda);
    }
  }
}

// ---------------------------------------------------------------- C13
void CheckC13(const SolveRec& r, const History& h) {
  const Params& P = r.params;
  if (!h.problem.empty()) Violation("log-structure", "%s", h.problem.c_str());
  if (r.out) {
    const size_t extra = r.out->termination_state == NLSTerminationState::QP_INDEFINITE ? 1 : 0;
    if (h.it.size() != r.out->iterations.size() + extra)
      Violation("log-count", "%zu iterations performed, %zu recorded", h.it.size(), r.out->iterations.size());
    if (r.has_cb) {
      if (r.cb_records.size() != r.out->iterations.size())
        Violation("log-callback", "%zu records given to the callback, %zu returned", r.cb_records.size(), r.out->iterations.size());
      for (size_t k = 0; k < r.cb_records.size(); ++k) {
        std::vector<Field> a, b;
        FlattenIteration(r.cb_records[k], static_cast<int>(k), &a);
        FlattenIteration(r.out->iterations[k], static_cast<int>(k), &b);
        const std::string d = DiffFields(a, b);
        if (!d.empty()) Violation("log-callback", "record given to the callback differs from the returned one: %s", d.c_str());
      }
    }
    size_t qp = 0, ls = 0, fails = 0;
    for (auto& it : r.out->iterations) {
      auto* ip = std::get_if<mini_opt::QPInteriorPointSolverOutputs>(&it.qp_outputs);
      qp += ip ? ip->iterations.size() : 1;
      ls += it.line_search_steps.size();
      fails += it.step_result != StepSizeSelectionResult::SUCCESS &&
               it.step_result != StepSizeSelectionResult::FIRST_ORDER_SATISFIED;
    }
    if (qp != r.out->NumQPIterations() || ls != r.out->NumLineSearchSteps() || fails != r.out->NumFailedLineSearches())
      Violation("log-counters", "summary counts %zu/%zu/%zu, records hold %zu/%zu/%zu", r.out->NumQPIterations(),
                r.out->NumLineSearchSteps(), r.out->NumFailedLineSearches(), qp, ls, fails);
  }
  LambdaRef L{P.lambda_initial};
  for (size_t k = 0; k < h.recs->size() && k < h.it.size(); ++k) {
    const NLSIteration& rec = (*h.recs)[k];
    const IterView& v = h.it[k];
    if (rec.iteration != static_cast<int>(k)) Violation("log-number", "record %zu is numbered %d", k, rec.iteration);
    if (!v.complete) Violation("log-structure", "iteration %zu did not linearize every residual", k);
    if (!Close(rec.lambda, L.lambda, 1e-9, 1e-300))
      Violation("log-damping", "iteration %zu records damping %.17g; it was solved with %.17g", k, rec.lambda, L.lambda);
    if (!Close(rec.errors_initial.f, v.f, 1e-11, 1e-300) || !Close(rec.errors_initial.equality, v.eq, 1e-11, 1e-300)) {
      if (!Huge(v.f) && !Huge(v.eq))
        Violation("log-initial", "iteration %zu records initial errors %.17g/%.17g, callbacks returned %.17g/%.17g", k,
                  rec.errors_initial.f, rec.errors_initial.equality, v.f, v.eq);
    }
    if (rec.line_search_steps.size() != v.trials.size())
      Violation("log-trials", "iteration %zu records %zu trials, %zu were evaluated", k, rec.line_search_steps.size(), v.trials.size());
    for (size_t j = 0; j < v.trials.size(); ++j) {
      const Trial& t = v.trials[j];
      const auto& s = rec.line_search_steps[j];
      if (t.complete && !Huge(t.f) && !Huge(t.eq)) {
        if (!Close(s.errors.f, t.f, 1e-11, 1e-300) || !Close(s.errors.equality, t.eq, 1e-11, 1e-300))
          Violation("log-trial", "iteration %zu trial %zu records errors %.17g/%.17g, callbacks returned %.17g/%.17g", k, j,
                    s.errors.f, s.errors.equality, t.f, t.eq);
      }
      if (t.retr && t.retr->alpha != s.alpha)
        Violation("log-alpha", "iteration %zu trial %zu records step length %.17g, %.17g was used", k, j, s.alpha, t.retr->alpha);
      if (!t.retr && t.complete && v.dx.rows() == v.x.rows() && AllFinite(v.dx) && AllFinite(t.x))
        for (int i = 0; i < v.x.rows(); ++i)
          if (!(std::abs(t.x[i] - (v.x[i] + s.alpha * v.dx[i])) <= 16 * kEps * (std::abs(v.x[i]) + std::abs(v.dx[i])) + 1e-300))
            Violation("log-alpha", "iteration %zu trial %zu records step length %.17g, which is not where it was evaluated", k, j, s.alpha);
    }
    const Deriv d = ComputeDeriv(v);
    if (d.ok && !Huge(d.d_f) && !Huge(d.d_eq)) {
      if (!(std::abs(rec.directional_derivatives.d_f - d.d_f) <= d.tol_f + 1e-300) ||
          !(std::abs(rec.directional_derivatives.d_equality - d.d_eq) <= d.tol_eq + 1e-300))
        Violation("log-derivative", "iteration %zu records derivatives %.17g/%.17g, callbacks gave %.17g/%.17g", k,
                  rec.directional_derivatives.d_f, rec.directional_derivatives.d_equality, d.d_f, d.d_eq);
      Count("probe.derivative_checked");
    }
    // step result against what was seen
    const double D = d.d_f + rec.penalty * d.d_eq, tolD = d.tol_f + rec.penalty * d.tol_eq;
    const bool last_complete = !v.trials.empty() && v.trials.back().complete;
    bool any_nonfinite = false;
    for (const Trial& t : v.trials)
      if (!t.finite() || Huge(t.f) || Huge(t.eq)) any_nonfinite = true;
    switch (rec.step_result) {
      case StepSizeSelectionResult::MAX_ITERATIONS:
        if (static_cast<int>(v.trials.size()) != P.max_line_search_iterations + 1)
          Violation("log-step-result", "iteration %zu says the search ran out of trials after %zu of %d", k, v.trials.size(),
                    P.max_line_search_iterations + 1);
        break;
      case StepSizeSelectionResult::POSITIVE_DERIVATIVE:
        if (d.ok && !Huge(D) && !Huge(rec.penalty) && !(D > -tolD)) Violation("log-step-result", "iteration %zu says the derivative was positive; it is %.17g", k, D);
        break;
      case StepSizeSelectionResult::FIRST_ORDER_SATISFIED:
        if (d.ok && !(std::abs(d.d_f) - d.tol_f < P.absolute_first_derivative_tol * (1 + 1e-9)))
          Violation("log-step-result", "iteration %zu says first-order satisfied; derivative is %.17g", k, d.d_f);
        break;
      case StepSizeSelectionResult::FAILURE_NON_FINITE_COST:
        if (!any_nonfinite && last_complete) Violation("log-step-result", "iteration %zu says a cost was not finite; all were", k);
        break;
      case StepSizeSelectionResult::FAILURE_INVALID_ALPHA:
        if (P.line_search_strategy == mini_opt::LineSearchStrategy::ARMIJO_BACKTRACK)
          Violation("log-step-result", "iteration %zu says a backtracking search produced an invalid step", k);
        Count("probe.invalid_alpha");
        break;
      case StepSizeSelectionResult::SUCCESS:
        break;
    }
    if (rec.qp_eigenvalues.has_value() != P.log_qp_eigenvalues)
      Violation("log-eigen", "iteration %zu: eigenvalue statistics %s", k, P.log_qp_eigenvalues ? "missing" : "present but not requested");
    if (rec.qp_eigenvalues && v.finite_all && v.G.norm() < 1e100) {
      const Mat H = v.G + L.lambda * Mat::Identity(r.inst->n, r.inst->n);
      const Vec ev = Eigen::SelfAdjointEigenSolver<Mat>(H).eigenvalues();
      const double tol = 1e-10 * (H.norm() + 1e-300);
      if (!(std::abs(rec.qp_eigenvalues->min - ev.minCoeff()) <= tol) ||
          !(std::abs(rec.qp_eigenvalues->max - ev.maxCoeff()) <= tol) ||
          !(std::abs(rec.qp_eigenvalues->abs_min - ev.cwiseAbs().minCoeff()) <= tol))
        Violation("log-eigen", "iteration %zu records eigenvalues %.17g..%.17g (abs %.17g), the damped Hessian has %.17g..%.17g", k,
                  rec.qp_eigenvalues->min, rec.qp_eigenvalues->max, rec.qp_eigenvalues->abs_min, ev.minCoeff(), ev.maxCoeff());
      Count("probe.eigen_checked");
    }
    L.Step(P, rec.step_result);
  }
}

// ---------------------------------------------------------------- C15
void CheckC15(const SolveRec& r) {
  const auto& cs = r.inst->problem.inequality_constraints;
  if (cs.empty()) return;
  double worst = 0, reach = 0;
  // A direction may overflow to NaN (inconsistent constraints, enormous values); such a trial is not a point
  // outside the bounds and C08 says what has to happen to it. The variables themselves get no such allowance.
  std::function<double()> inner_scale;
  auto check = [&](int var, double x, const char* where, size_t ev, bool trial) {
    if (std::isfinite(x))
      reach = std::max(reach, std::abs(x));
    else if (trial) {
      Count("nonfinite_trial_points");
      return;
    }
    for (const auto& c : cs) {
      if (c.variable != var) continue;
      const double g = c.a * x + c.b;
      const double tol = 1e-7 * (1 + std::abs(c.a) * (1 + std::abs(x))) + 1e-14 * std::abs(c.a) * reach;
      if (!(g >= -tol) && !(g >= -tol - 1e-14 * std::abs(c.a) * inner_scale()))
        Violation("bound-violated", "%s (event %zu): variable %d = %.17g violates %g*x %+g >= 0 by %g", where, ev, var, x, c.a,
                  c.b, -g);
      if (-g > worst) worst = -g;
    }
  };
  // The inner QP starts from the minimizer under the equalities alone, which is enormous when they are close to
  // dependent; round-off is relative to it. Worked out only when a bound looks violated.
  double inner = -1;
  inner_scale = [&] {
    if (inner >= 0) return inner;
    inner = 0;
    const History h = Segment(r);
    for (const IterView& v : h.it) {
      if (!v.complete || v.A.rows() == 0) continue;
      const long nn = v.G.rows(), kk = v.A.rows();
      if (!v.G.allFinite() || !v.A.allFinite() || !v.c.allFinite() || !v.b.allFinite()) continue;
      Mat K = Mat::Zero(nn + kk, nn + kk);
      K.topLeftCorner(nn, nn) = v.G + (v.rec ? v.rec->lambda : 0.0) * Mat::Identity(nn, nn);
      K.bottomLeftCorner(kk, nn) = v.A;
      K.topRightCorner(nn, kk) = v.A.transpose();
      const Vec sv = Eigen::JacobiSVD<Mat>(K).singularValues();
      const double lo = std::max(sv.minCoeff(), 1e-16 * sv.maxCoeff());
      if (lo > 0) inner = std::max(inner, std::sqrt(v.c.squaredNorm() + v.b.squaredNorm()) / lo);
    }
    if (inner > 1e6) Count("probe.huge_inner_start");
    return inner;
  };
  size_t n = 0;
  for (const Ev& e : r.evs) {
    ++n;
    if (e.t == Ev::EVAL) {
      for (size_t j = 0; j < e.spec->idx.size(); ++j)
        check(e.spec->idx[j], e.p[j], e.hasJ ? "linearization point" : "trial point", n, !e.hasJ);
    } else if (e.t == Ev::CB) {
      for (int i = 0; i < e.x_in.rows(); ++i) check(i, e.x_in[i], "variables in the exit callback", n, false);
    } else if (e.t == Ev::RETR && r.inst->retr == 1) {
      for (int i = 0; i < e.x_out.rows(); ++i) check(i, e.x_out[i], "candidate point", n, true);
    }
  }
  for (int i = 0; i < r.final.rows(); ++i) check(i, r.final[i], "variables after the solve", n, false);
  if (worst > 1e-10) Count("probe.bound_slop_1e-10");
  if (worst > 1e-8) Count("probe.bound_slop_1e-8");
}

}  // namespace sim
