#include "nls.hpp"

#include <cmath>
#include <new>

#include "sched.hpp"

namespace sim {

// ---------------------------------------------------------------- models
void EvalModel(const ResSpec& s, const double* p, double* r, double* J) {
  const int R = s.R, P = s.P;
  const std::vector<double>& c = s.c;
  switch (s.type) {
    case M_LIN: {
      for (int i = 0; i < R; ++i) {
        double v = -c[R * P + i];
        for (int j = 0; j < P; ++j) v += c[j * R + i] * p[j];
        r[i] = v;
      }
      if (J)
        for (int k = 0; k < R * P; ++k) J[k] = c[k];
      break;
    }
    case M_ROSEN:
      r[0] = c[0] * (p[1] - p[0] * p[0]);
      r[1] = c[1] - p[0];
      if (J) {
        J[0] = -2 * c[0] * p[0];
        J[1] = -1;
        J[2] = c[0];
        J[3] = 0;
      }
      break;
    case M_HIMMEL:
      r[0] = p[0] * p[0] + p[1] - 11;
      r[1] = p[0] + p[1] * p[1] - 7;
      if (J) {
        J[0] = 2 * p[0];
        J[1] = 1;
        J[2] = 1;
        J[3] = 2 * p[1];
      }
      break;
    case M_CIRCLE:
      r[0] = p[0] * p[0] + p[1] * p[1] - c[0];
      if (J) {
        J[0] = 2 * p[0];
        J[1] = 2 * p[1];
      }
      break;
    case M_EXPFIT:
      for (int i = 0; i < 3; ++i) {
        const double e = std::exp(p[1] * c[i]);
        r[i] = p[0] * e - c[3 + i];
        if (J) {
          J[i] = e;
          J[3 + i] = p[0] * c[i] * e;
        }
      }
      break;
    case M_LOG:
      r[0] = std::log(p[0]) - c[0];
      if (J) J[0] = 1.0 / p[0];
      break;
    case M_SQRT:
      r[0] = std::sqrt(p[0]) - c[0];
      if (J) J[0] = 0.5 / std::sqrt(p[0]);
      break;
    case M_TWOLINK: {
      const double a = p[0], ab = p[0] + p[1];
      r[0] = c[0] * std::cos(a) + c[1] * std::cos(ab) - c[2];
      r[1] = c[0] * std::sin(a) + c[1] * std::sin(ab) - c[3];
      if (J) {
        J[0] = -c[0] * std::sin(a) - c[1] * std::sin(ab);
        J[1] = c[0] * std::cos(a) + c[1] * std::cos(ab);
        J[2] = -c[1] * std::sin(ab);
        J[3] = c[1] * std::cos(ab);
      }
      break;
    }
    case M_PROD:
      r[0] = p[0] * p[1] - c[0];
      if (J) {
        J[0] = p[1];
        J[1] = p[0];
      }
      break;
    case M_WAVY:
      r[0] = c[0] * std::sin(c[1] * p[0]) + c[2] * p[0] - c[3];
      if (J) J[0] = c[0] * c[1] * std::cos(c[1] * p[0]) + c[2];
      break;
    case M_ATAN:
      r[0] = std::atan(c[0] * p[0] - c[1]) + 0.0 * p[0];
      if (J) {
        const double u = c[0] * p[0] - c[1];
        J[0] = c[0] / (1 + u * u);
      }
      break;
    case M_CUBIC:
      r[0] = p[0] * p[0] * p[0] - c[0];
      if (J) J[0] = 3 * p[0] * p[0];
      break;
    case M_POW:
      r[0] = c[0] * p[0] * p[0] + c[1] * p[0] + c[2];
      if (J) J[0] = 2 * c[0] * p[0] + c[1];
      break;
    case M_ZERO: {
      double v = 0;
      for (int j = 0; j < P; ++j) v += 0.0 * p[j];
      r[0] = v;
      if (J)
        for (int j = 0; j < P; ++j) J[j] = 0;
      break;
    }
  }
}

// ---------------------------------------------------------------- environment
static thread_local SolveRec* t_rec = nullptr;

static bool Hit(const FaultSpec& f, uint64_t ord) { return ord >= f.pos && ord < f.pos + f.len; }

static void Fired(SolveRec* rec, const FaultSpec& f) {
  rec->fired++;
  rec->fired_ids.push_back(f.id);
  char nm[56];
  snprintf(nm, sizeof nm, "fault.%s.%s", f.site.c_str(), f.kind.c_str());
  Count(nm);
}

static double BadValue(const std::string& kind) {
  if (kind == "nan") return std::numeric_limits<double>::quiet_NaN();
  if (kind == "inf") return std::numeric_limits<double>::infinity();
  if (kind == "ninf") return -std::numeric_limits<double>::infinity();
  return 1.0e160;  // "huge": squares overflow
}

static void DoThrow(SolveRec* rec, const FaultSpec& f) {
  Fired(rec, f);
  if (f.kind == "throwpod") throw InjectedPod{f.id, 0xABCDEF0123456789ull + static_cast<uint64_t>(f.id)};
  throw InjectedStd(f.id);
}

static void EnvEval(const ResSpec& s, bool is_eq, const double* p, double* r, double* J) {
  HarnessScope hs;
  SolveRec* rec = t_rec;
  EvalModel(s, p, r, J);
  if (!rec) return;
  if (rec->hook) rec->hook(J ? 0 : 1);
  t_rec = rec;
  const uint64_t oe = rec->n_eval++;
  const uint64_t ol = J ? rec->n_lin++ : 0;
  const uint64_t ot = J ? 0 : rec->n_trial++;
  bool faulted = false;
  const FaultSpec* thrower = nullptr;
  for (const FaultSpec& f : rec->faults) {
    bool hit = false;
    if (f.site == "eval")
      hit = Hit(f, oe);
    else if (f.site == "lin")
      hit = J && Hit(f, ol);
    else if (f.site == "trial")
      hit = !J && Hit(f, ot);
    if (!hit) continue;
    if (f.kind == "throw" || f.kind == "throwpod") {
      thrower = &f;
      continue;
    }
    const int rc = f.comp % s.R, jc = f.comp % (s.R * s.P);
    if (f.kind == "nan" || f.kind == "inf" || f.kind == "ninf" || f.kind == "huge") {
      if (f.where == 1 && !J) continue;
      if (f.where == 1)
        J[jc] = BadValue(f.kind);
      else
        r[rc] = BadValue(f.kind);
    } else if (f.kind == "scale") {
      for (int i = 0; i < s.R; ++i) r[i] *= f.mag;
      if (J && f.where == 1)
        for (int i = 0; i < s.R * s.P; ++i) J[i] *= f.mag;
    } else if (f.kind == "perturb") {
      if (f.where == 1) {
        if (!J) continue;
        J[jc] += f.mag;
      } else {
        r[rc] += f.mag;
      }
    } else if (f.kind == "negJ") {
      if (!J) continue;
      for (int i = 0; i < s.R * s.P; ++i) J[i] = -J[i];
    } else if (f.kind == "zero") {
      for (int i = 0; i < s.R; ++i) r[i] = 0;
      if (J && f.where == 1)
        for (int i = 0; i < s.R * s.P; ++i) J[i] = 0;
    } else if (f.kind == "stall") {
      AdvanceTime(static_cast<int64_t>(f.mag));
    } else {
      HarnessError("unknown fault kind %s", f.kind.c_str());
    }
    faulted = true;
    Fired(rec, f);
  }
  // A residual of a non-finite point is never finite (the assumption behind C08).
  for (int j = 0; j < s.P; ++j)
    if (!std::isfinite(p[j]))
      for (int i = 0; i < s.R; ++i)
        if (std::isfinite(r[i])) r[i] = std::numeric_limits<double>::quiet_NaN();
  if (rec->record) {
    Ev e;
    e.t = Ev::EVAL;
    e.spec = &s;
    e.is_eq = is_eq;
    e.hasJ = J != nullptr;
    e.faulted = faulted;
    e.p.assign(p, p + s.P);
    e.r.assign(r, r + s.R);
    if (J) e.J.assign(J, J + s.R * s.P);
    rec->evs.push_back(std::move(e));
  }
  LogBits(J ? "J" : "r", r, static_cast<size_t>(s.R));
  if (thrower) DoThrow(rec, *thrower);
}

template <int R, int P>
struct Fn {
  std::shared_ptr<ResSpec> spec;
  bool is_eq;
  Eigen::Matrix<double, R, 1> operator()(const Eigen::Matrix<double, P, 1>& p,
                                         Eigen::Matrix<double, R, P>* J) const {
    Eigen::Matrix<double, R, 1> r;
    EnvEval(*spec, is_eq, p.data(), r.data(), J ? J->data() : nullptr);
    return r;
  }
};

template <int R, int P>
static mini_opt::Residual MakeT(const std::shared_ptr<ResSpec>& s, bool is_eq) {
  if constexpr (P == Eigen::Dynamic) {
    return mini_opt::MakeResidual<R, P>(s->idx, Fn<R, P>{s, is_eq});
  } else {
    std::array<int, static_cast<size_t>(P)> a{};
    for (int i = 0; i < P; ++i) a[static_cast<size_t>(i)] = s->idx[static_cast<size_t>(i)];
    return mini_opt::MakeResidual<R, P>(a, Fn<R, P>{s, is_eq});
  }
}

static mini_opt::Residual MakeResEq(const std::shared_ptr<ResSpec>& s, bool is_eq) {
  if (s->dynamic) {
    if (s->R == 1) return MakeT<1, Eigen::Dynamic>(s, is_eq);
    if (s->R == 2) return MakeT<2, Eigen::Dynamic>(s, is_eq);
    return MakeT<3, Eigen::Dynamic>(s, is_eq);
  }
  switch (s->R * 10 + s->P) {
    case 11: return MakeT<1, 1>(s, is_eq);
    case 12: return MakeT<1, 2>(s, is_eq);
    case 13: return MakeT<1, 3>(s, is_eq);
    case 22: return MakeT<2, 2>(s, is_eq);
    case 23: return MakeT<2, 3>(s, is_eq);
    case 32: return MakeT<3, 2>(s, is_eq);
    case 33: return MakeT<3, 3>(s, is_eq);
    case 51: return MakeT<5, 1>(s, is_eq);
    case 71: return MakeT<7, 1>(s, is_eq);
    default: break;
  }
  s->dynamic = true;
  return MakeResEq(s, is_eq);
}

mini_opt::Residual MakeRes(Inst*, const std::shared_ptr<ResSpec>& spec) {
  return MakeResEq(spec, false);
}

// ---------------------------------------------------------------- problem families
bool Inst::Feasible(const Vec& x, double tol) const {
  for (const auto& c : problem.inequality_constraints)
    if (!(c.a * x[c.variable] + c.b >= -tol)) return false;
  return true;
}
void ClipToBoxes(const Inst& inst, Vec* x) {
  for (int pass = 0; pass < 2; ++pass)
    for (const auto& c : inst.problem.inequality_constraints) {
      const double v = (*x)[c.variable];
      if (!(c.a * v + c.b >= 0)) {
        double w = -c.b / c.a;
        // nudge inside until the constraint holds in floating point
        for (int k = 0; k < 8 && !(c.a * w + c.b >= 0); ++k)
          w += (c.a > 0 ? 1 : -1) * std::max(std::abs(w), 1.0) * 1e-16 * std::pow(4.0, k);
        (*x)[c.variable] = w;
      }
    }
}

static std::vector<int> PickIdx(Rng& rng, int n, int P) {
  std::vector<int> all(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i) all[static_cast<size_t>(i)] = i;
  for (int i = 0; i < P; ++i) std::swap(all[static_cast<size_t>(i)], all[static_cast<size_t>(i) + rng.below(static_cast<uint64_t>(n - i))]);
  all.resize(static_cast<size_t>(P));
  return all;
}

// Problems in multiples of a quarter: values that are equal, or zero, come out exactly so.
static bool g_whole = false;
static double Whole(double v) {
  if (!g_whole) return v;
  const double w = std::round(v * 4) / 4;
  return w == 0 ? std::copysign(0.25, v) : w;
}

static std::shared_ptr<ResSpec> LinSpec(Rng& rng, int R, std::vector<int> idx, const Vec* through,
                                        double noise) {
  auto s = std::make_shared<ResSpec>();
  s->type = M_LIN;
  s->R = R;
  s->P = static_cast<int>(idx.size());
  s->idx = std::move(idx);
  s->c.resize(static_cast<size_t>(R * s->P + R));
  for (int k = 0; k < R * s->P; ++k) s->c[static_cast<size_t>(k)] = Whole(rng.uni(-2, 2));
  for (int i = 0; i < R; ++i) {
    double v = 0;
    if (through)
      for (int j = 0; j < s->P; ++j) v += s->c[static_cast<size_t>(j * R + i)] * (*through)[s->idx[static_cast<size_t>(j)]];
    s->c[static_cast<size_t>(R * s->P + i)] = v + (noise == 0 ? 0 : Whole(noise * rng.uni(-1, 1)));
  }
  s->dynamic = rng.chance(0.3);
  return s;
}
static std::shared_ptr<ResSpec> Spec(ModelType t, int R, std::vector<int> idx, std::vector<double> c,
                                     bool dyn = false) {
  auto s = std::make_shared<ResSpec>();
  s->type = t;
  s->R = R;
  s->P = static_cast<int>(idx.size());
  s->idx = std::move(idx);
  s->c = std::move(c);
  s->dynamic = dyn;
  return s;
}

std::unique_ptr<Inst> BuildInst(const Item& it) {
  auto I = std::make_unique<Inst>();
  I->id = static_cast<int>(it.i("id", 0));
  I->fam = it.s("fam", "lin");
  Rng rng(it.u("seed", 1));
  int n = static_cast<int>(it.i("n", 2));
  const int eq = static_cast<int>(it.i("eq", 0));    // rows of equality constraints wanted
  const int box = static_cast<int>(it.i("box", 0));  // number of one-sided bounds wanted
  const double cscale = it.d("cscale", 1.0);         // scale of the costs
  I->retr = static_cast<int>(it.i("retr", 0));
  const std::string& f = I->fam;
  auto add = [&](std::shared_ptr<ResSpec> s) { I->costs.push_back(std::move(s)); };
  auto addeq = [&](std::shared_ptr<ResSpec> s) { I->eqs.push_back(std::move(s)); };

  if (f == "rosen" || f == "himmel" || f == "exp" || f == "link") n = std::max(n, 2);
  if (f == "circle") n = std::max(n, 2);
  I->n = n;
  I->xref.resize(n);
  g_whole = it.i("whole", 0) != 0;
  I->whole = g_whole;
  for (int i = 0; i < n; ++i) I->xref[i] = Whole(rng.uni(-2, 2));

  if (f == "lin" || f == "rankdef") {
    I->linear = true;
    I->start_scale = 5.0;
    int rows = 0;
    const int want = f == "lin" ? n + rng.range(0, 3) : std::max(1, n - 1);
    const double noise = rng.chance(0.3) ? 0.0 : rng.uni(0.1, 3.0);
    while (rows < want) {
      int R = rng.range(1, 3);
      if (f == "rankdef") R = std::min(R, want - rows);
      const int P = std::min(n, rng.range(1, 3) + (rng.chance(0.2) ? 2 : 0));
      add(LinSpec(rng, R, PickIdx(rng, n, P), &I->xref, noise));
      rows += R;
    }
    if (f == "lin") {
      // identity-like rows keep the problem strictly convex
      for (int i = 0; i < n; ++i) {
        const double w = Whole(rng.uni(0.3, 2.0));
        add(Spec(M_LIN, 1, {i}, {w, w * (I->xref[i] + (noise == 0 ? 0 : Whole(noise * rng.uni(-1, 1))))}, rng.chance(0.2)));
      }
    }
  } else if (f == "rosen") {
    add(Spec(M_ROSEN, 2, {0, 1}, {Whole(rng.log10uni(-0.5, 2)), Whole(rng.uni(0.5, 2))}));
    if (rng.chance(0.3)) I->costs.back()->idx = {1, 0};
    I->start_scale = 2.0;
  } else if (f == "himmel") {
    add(Spec(M_HIMMEL, 2, {0, 1}, {}, rng.chance(0.3)));
    I->start_scale = 4.0;
  } else if (f == "circle") {
    for (int i = 0; i < n; ++i) add(Spec(M_LIN, 1, {i}, {1.0, Whole(rng.uni(-2, 2))}));
    I->start_scale = 2.0;
  } else if (f == "exp") {
    std::vector<double> c(6);
    const double a = rng.uni(0.5, 2), b = rng.uni(-1, 1);
    for (size_t i = 0; i < 3; ++i) {
      c[i] = rng.uni(0, 2);
      c[3 + i] = a * std::exp(b * c[i]) + rng.uni(-0.2, 0.2);
    }
    add(Spec(M_EXPFIT, 3, {0, 1}, c));
    I->polynomial = false;
    I->xref[0] = a;
    I->xref[1] = b;
  } else if (f == "log") {
    for (int i = 0; i < n; ++i) {
      I->xref[i] = rng.uni(0.3, 3);
      if (rng.chance(0.5))
        add(Spec(M_LOG, 1, {i}, {std::log(I->xref[i]) + rng.uni(-1, 1)}));
      else
        add(Spec(M_SQRT, 1, {i}, {std::sqrt(I->xref[i]) + rng.uni(-0.5, 1)}));
    }
    I->polynomial = false;
  } else if (f == "link") {
    const double l1 = rng.uni(0.5, 2), l2 = rng.uni(0.5, 2);
    const double a = rng.uni(-3, 3), b = rng.uni(-2.5, 2.5);
    add(Spec(M_TWOLINK, 2, {0, 1},
             {l1, l2, l1 * std::cos(a) + l2 * std::cos(a + b), l1 * std::sin(a) + l2 * std::sin(a + b)}));
    I->xref[0] = a;
    I->xref[1] = b;
    for (int i = 2; i < n; ++i) add(Spec(M_LIN, 1, {i}, {1.0, rng.uni(-1, 1)}));
    I->polynomial = false;
    I->start_scale = 1.5;
  } else if (f == "wavy") {
    for (int i = 0; i < n; ++i)
      add(Spec(M_WAVY, 1, {i}, {rng.uni(0.2, 3), rng.uni(1, 6), rng.uni(0.05, 1), rng.uni(-1, 1)}));
    I->start_scale = 3.0;
    I->polynomial = false;
  } else if (f == "atan") {
    for (int i = 0; i < n; ++i) add(Spec(M_ATAN, 1, {i}, {rng.log10uni(-0.5, 1), rng.uni(-1, 1)}));
    I->start_scale = 4.0;
    I->polynomial = false;
  } else if (f == "pow") {
    for (int i = 0; i < n; ++i) {
      if (rng.chance(0.5))
        add(Spec(M_POW, 1, {i}, {rng.uni(0.2, 2), rng.uni(-1, 1), rng.uni(0.1, 2)}));
      else
        add(Spec(M_CUBIC, 1, {i}, {rng.uni(-4, 4)}));
    }
    I->start_scale = 3.0;
  } else {
    HarnessError("unknown family %s", f.c_str());
  }
  // every variable is seen by some cost
  {
    std::vector<bool> seen(static_cast<size_t>(n), false);
    for (auto& c : I->costs)
      for (int v : c->idx) seen[static_cast<size_t>(v)] = true;
    std::vector<int> rest;
    for (int i = 0; i < n; ++i)
      if (!seen[static_cast<size_t>(i)]) rest.push_back(i);
    if (!rest.empty()) {
      if (f == "rankdef")
        add(Spec(M_ZERO, 1, rest, {}, true));
      else
        for (int v : rest) {
          const double w = Whole(rng.uni(0.5, 1.5));
          add(Spec(M_LIN, 1, {v}, {w, w * I->xref[v]}));
        }
    }
  }
  if (cscale != 1.0 && !g_whole)
    for (auto& c : I->costs)
      if (c->type == M_LIN)
        for (double& v : c->c) v *= cscale;
  // shuffle the order of the costs a little
  if (I->costs.size() > 1 && rng.chance(0.5)) std::swap(I->costs.front(), I->costs.back());

  // equality constraints, all satisfied at xref
  int rows = 0;
  const bool nonlin_eq = it.i("nleq", 0) != 0;
  while (rows < eq && rows < n) {
    if (nonlin_eq && n >= 2 && rng.chance(0.7)) {
      auto ix = PickIdx(rng, n, 2);
      const double a = I->xref[ix[0]], b = I->xref[ix[1]];
      if (rng.chance(0.5))
        addeq(Spec(M_CIRCLE, 1, ix, {a * a + b * b}));
      else
        addeq(Spec(M_PROD, 1, ix, {a * b}));
      I->linear = false;
      rows += 1;
    } else {
      const int R = std::min({rng.range(1, 2), eq - rows, n - rows});
      const int P = std::min(n, std::max(R, rng.range(1, 3)));
      auto s = LinSpec(rng, R, PickIdx(rng, n, P), &I->xref, 0.0);
      s->dynamic = rng.chance(0.3);
      if (R == 2 && s->P < 2) s->dynamic = true;
      addeq(std::move(s));
      rows += R;
    }
  }
  // residuals that name a variable twice: its derivative is the sum
  if (it.i("twice", 0)) {
    Rng tr(it.u("seed", 1) * 17 + 3);
    for (auto* list : {&I->costs, &I->eqs})
      for (auto& s : *list) {
        if (s->type != M_LIN || s->P < 2 || (list == &I->costs && f != "lin") || !tr.chance(0.6)) continue;
        const auto u = static_cast<size_t>(tr.below(static_cast<uint64_t>(s->P)));
        const auto w = (u + 1 + tr.below(static_cast<uint64_t>(s->P - 1))) % static_cast<size_t>(s->P);
        if (list == &I->eqs) {  // still satisfied at xref
          for (int i = 0; i < s->R; ++i)
            s->c[static_cast<size_t>(s->R * s->P + i)] += s->c[w * static_cast<size_t>(s->R) + static_cast<size_t>(i)] * (I->xref[s->idx[u]] - I->xref[s->idx[w]]);
        }
        s->idx[w] = s->idx[u];
      }
  }
  // constraints that follow from the ones above: repeated, scaled, or the sum of two
  if (const int dep = static_cast<int>(it.i("dep", 0)); dep > 0 && !I->eqs.empty()) {
    Rng dr(it.u("seed", 1) * 31 + 7);
    const size_t base = I->eqs.size();
    for (int e = 0; e < dep; ++e) {
      const auto& src = I->eqs[dr.below(base)];
      auto d = std::make_shared<ResSpec>(*src);
      if (src->type == M_LIN) {
        const double f = (dr.chance(0.5) ? 1 : -1) * std::ldexp(1.0, dr.range(-1, 2));
        const auto& src2 = I->eqs[dr.below(base)];
        if (dr.chance(0.3)) {
          for (double& v : d->c) v *= f;
        } else if (dr.chance(0.4) && src2->type == M_LIN && src2 != src && src2->R == src->R) {
          // the sum, over the variables of both
          d->idx = src->idx;
          for (int v : src2->idx)
            if (std::find(d->idx.begin(), d->idx.end(), v) == d->idx.end()) d->idx.push_back(v);
          d->P = static_cast<int>(d->idx.size());
          d->dynamic = true;
          d->c.assign(static_cast<size_t>(d->R * d->P + d->R), 0.0);
          for (const auto* t : {src.get(), src2.get()}) {
            for (int j = 0; j < t->P; ++j) {
              const auto at = std::find(d->idx.begin(), d->idx.end(), t->idx[static_cast<size_t>(j)]) - d->idx.begin();
              for (int i = 0; i < d->R; ++i)
                d->c[static_cast<size_t>(at * d->R + i)] += t->c[static_cast<size_t>(j * d->R + i)];
            }
            for (int i = 0; i < d->R; ++i) d->c[static_cast<size_t>(d->R * d->P + i)] += t->c[static_cast<size_t>(t->R * t->P + i)];
          }
        }
      }
      if (dr.chance(0.5))
        I->eqs.push_back(std::move(d));
      else
        I->eqs.insert(I->eqs.begin() + static_cast<long>(dr.below(base)), std::move(d));
    }
  }
  // bounds containing xref
  I->problem.dimension = n;
  for (int k = 0; k < box; ++k) {
    const int v = static_cast<int>(rng.below(static_cast<uint64_t>(n)));
    const double a = (rng.chance(0.5) ? 1.0 : -1.0) * (rng.chance(0.4) ? 1.0 : Whole(rng.log10uni(-1, 0.7)));
    double margin = Whole(rng.log10uni(-2, 0.5));
    if (f == "log" && a > 0) margin = std::min(margin, 0.5 * I->xref[v]);
    // a*xref + b = |a|*margin
    I->problem.inequality_constraints.emplace_back(v, a, std::abs(a) * margin - a * I->xref[v]);
  }
  if (f == "log" && it.i("guard", 1)) {
    for (int i = 0; i < n; ++i)
      I->problem.inequality_constraints.emplace_back(i, 1.0, -rng.log10uni(-4, -1));
  }
  for (auto& c : I->costs) I->problem.costs.push_back(MakeResEq(c, false));
  for (auto& c : I->eqs) I->problem.equality_constraints.push_back(MakeResEq(c, true));
  g_whole = false;
  return I;
}

Vec MakeStart(const Inst& inst, uint64_t seed, bool feasible, double scale) {
  Rng rng(seed * 77 + 5);
  Vec x(inst.n);
  for (int i = 0; i < inst.n; ++i) x[i] = inst.xref[i] + scale * inst.start_scale * rng.uni(-1, 1);
  if (inst.fam == "log")
    for (int i = 0; i < inst.n; ++i) x[i] = std::max(std::abs(x[i]), 0.2);
  if (inst.whole) {
    const int how = rng.range(0, 3);
    for (int i = 0; i < inst.n; ++i) {
      x[i] = std::round(x[i] * 4) / 4;
      if (how == 0 || (how == 1 && rng.chance(0.5))) x[i] = inst.xref[i];
    }
  }
  if (feasible) {
    ClipToBoxes(inst, &x);
    // half of the time pull strictly inside, otherwise leave clipped coordinates on the bound
    if (rng.chance(0.5)) x = 0.75 * x + 0.25 * inst.xref;
    if (!inst.Feasible(x, 0.0)) ClipToBoxes(inst, &x);
    if (!inst.Feasible(x, 0.0)) x = inst.xref;
  }
  return x;
}

// ---------------------------------------------------------------- parameters
Params ParamsFromItem(const Item& it) {
  Params p;
  p.max_iterations = static_cast<int>(it.i("mi", p.max_iterations));
  p.max_qp_iterations = static_cast<int>(it.i("mq", p.max_qp_iterations));
  p.termination_kkt_tolerance = it.d("kkt", p.termination_kkt_tolerance);
  p.absolute_exit_tol = it.d("abs", p.absolute_exit_tol);
  p.relative_exit_tol = it.d("rel", p.relative_exit_tol);
  p.absolute_first_derivative_tol = it.d("fo", p.absolute_first_derivative_tol);
  p.max_line_search_iterations = static_cast<int>(it.i("ls", p.max_line_search_iterations));
  p.line_search_strategy = it.i("bt", 0) ? mini_opt::LineSearchStrategy::ARMIJO_BACKTRACK
                                         : mini_opt::LineSearchStrategy::POLYNOMIAL_APPROXIMATION;
  p.armijo_search_tau = it.d("tau", p.armijo_search_tau);
  p.equality_penalty_initial = it.d("pen", p.equality_penalty_initial);
  p.equality_penalty_scale_factor = it.d("pens", p.equality_penalty_scale_factor);
  p.equality_penalty_rho = it.d("rho", p.equality_penalty_rho);
  p.lambda_initial = it.d("l0", p.lambda_initial);
  p.lambda_failure_init = it.d("lf", p.lambda_failure_init);
  p.lambda_decrease_on_success = it.d("lds", p.lambda_decrease_on_success);
  p.lambda_decrease_on_restore = it.d("ldr", p.lambda_decrease_on_restore);
  p.max_lambda = it.d("lmax", p.max_lambda);
  p.min_lambda = it.d("lmin", p.min_lambda);
  p.log_qp_eigenvalues = it.i("eig", 0) != 0;
  return p;
}

void RandomParams(Rng& rng, Item* it, int profile) {
  auto maybe = [&](double pr) { return rng.chance(pr); };
  if (profile == 2) {  // recovery client
    it->set("mi", rng.range(10, 30)).set("mq", rng.range(15, 40));
    if (maybe(0.5)) it->set("bt", 1);
    it->set("ls", rng.range(1, 6)).setd("fo", 1e-11);
    return;
  }
  it->set("mi", maybe(0.7) ? rng.range(1, 12) : maybe(0.9) ? rng.range(12, 30) : rng.range(31, 80));
  if (maybe(0.6)) it->set("mq", rng.range(1, 25));
  if (maybe(0.3)) it->setd("kkt", rng.log10uni(-10, -2));
  if (maybe(0.5)) it->setd("abs", rng.log10uni(-16, -1));
  if (maybe(0.6)) it->setd("rel", maybe(0.3) ? 0.0 : (maybe(0.1) ? 1.0 : rng.log10uni(-8, -0.3)));
  if (maybe(0.6)) it->setd("fo", maybe(0.3) ? 0.0 : rng.log10uni(-10, 0));
  it->set("ls", maybe(0.9) ? rng.range(0, 8) : rng.range(9, 40));
  if (maybe(0.5)) it->set("bt", 1);
  if (maybe(0.6)) it->setd("tau", maybe(0.3) ? 0.5 : rng.uni(0.05, 0.95));
  if (maybe(0.5)) it->setd("pen", rng.log10uni(-3, 2));
  if (maybe(0.5)) it->setd("pens", rng.uni(1.0, 3.0));
  if (maybe(0.5)) it->setd("rho", rng.uni(0.0, 0.9));
  double lmin = 0, lmax = 1;
  if (maybe(0.4)) it->setd("lmax", lmax = (maybe(0.1) ? 0.0 : rng.log10uni(-3, 6)));
  if (maybe(0.3)) it->setd("lmin", lmin = lmax * rng.log10uni(-6, -0.1));
  if (maybe(0.5))
    it->setd("l0", lmin + (lmax - lmin) * (maybe(0.5) ? rng.log10uni(-6, 0) : rng.u01()));
  else if (lmin > 0)
    it->setd("l0", lmin);
  if (maybe(0.5)) it->setd("lf", maybe(0.1) ? 0.0 : rng.log10uni(-5, 1));
  if (maybe(0.5)) it->setd("lds", maybe(0.1) ? 0.0 : rng.uni(0.01, 0.99));
  if (maybe(0.5)) it->setd("ldr", maybe(0.1) ? 0.0 : rng.uni(0.01, 0.99));
  if (maybe(0.4)) it->set("eig", 1);
}

FaultSpec FaultFromItem(const Item& it) {
  FaultSpec f;
  f.site = it.s("site", "eval");
  f.kind = it.s("kind", "throw");
  f.pos = it.u("pos", 0);
  f.len = it.u("len", 1);
  f.comp = static_cast<int>(it.i("comp", 0));
  f.where = static_cast<int>(it.i("where", 0));
  f.mag = it.d("mag", 1.0);
  f.id = static_cast<int>(it.i("id", 0));
  return f;
}

// ---------------------------------------------------------------- running
// Installs, replaces or removes the exit callback.
void SetCallback(Solver* s, bool on) {
  s->has_cb = on;
  LibScope ls;
  if (!on) {
    s->impl->SetUserExitCallback(nullptr);
  } else {
    s->impl->SetUserExitCallback([s](const NLSIteration& it) -> bool {
      HarnessScope hs;
      SolveRec* rec = t_rec;
      if (!rec) return true;
      if (rec->hook) rec->hook(3);
      t_rec = rec;
      const uint64_t ord = rec->n_cb++;
      Ev e;
      e.t = Ev::CB;
      e.x_in = s->impl->variables();
      e.cb_ret = !(rec->cancel_at >= 0 && static_cast<uint64_t>(rec->cancel_at) == ord);
      if (!e.cb_ret) Count("fault.cb.cancel");
      const bool ret = e.cb_ret;
      LogBits("cb", e.x_in.data(), static_cast<size_t>(e.x_in.rows()));
      if (rec->record) {
        e.rec_index = static_cast<int>(rec->cb_records.size());
        rec->cb_records.push_back(it);
        rec->evs.push_back(std::move(e));
      }
      for (const FaultSpec& f : rec->faults) {
        if (f.site == "cb" && Hit(f, ord)) {
          if (f.kind == "throw" || f.kind == "throwpod") DoThrow(rec, f);
          if (f.kind == "stall") {
            AdvanceTime(static_cast<int64_t>(f.mag));
            Fired(rec, f);
          }
        }
      }
      return ret;
    });
  }
}
void MakeSolver(Solver* s, Inst* inst, bool has_cb) {
  s->inst = inst;
  s->has_cb = has_cb;
  ConstrainedNonlinearLeastSquares::Retraction retr = nullptr;
  if (inst->retr) {
    const int kind = inst->retr;
    const bool wrap2 = inst->fam == "link" && kind == 2;
    retr = [wrap2](Vec& x, mini_opt::ConstVectorBlock dx, double alpha) {
      HarnessScope hs;
      SolveRec* rec = t_rec;
      Ev e;
      e.t = Ev::RETR;
      e.x_in = x;
      e.dx = dx;
      e.alpha = alpha;
      x += dx * alpha;
      if (wrap2)
        for (int i = 0; i < 2 && i < x.rows(); ++i) x[i] = std::remainder(x[i], 2 * M_PI);
      if (!rec) return;
      if (rec->hook) rec->hook(2);
      t_rec = rec;
      const uint64_t ord = rec->n_retr++;
      const FaultSpec* thrower = nullptr;
      for (const FaultSpec& f : rec->faults) {
        if (f.site != "retr" || !Hit(f, ord)) continue;
        if (f.kind == "throw" || f.kind == "throwpod") {
          thrower = &f;
          // an aborted retraction leaves its output half written
          x[f.comp % x.rows()] = -12345.678;
          continue;
        }
        if (f.kind == "perturb")
          x[f.comp % x.rows()] += f.mag;
        else if (f.kind == "stall")
          AdvanceTime(static_cast<int64_t>(f.mag));
        else
          x[f.comp % x.rows()] = BadValue(f.kind);
        e.faulted = true;
        Fired(rec, f);
      }
      e.x_out = x;
      LogBits("retr", e.x_out.data(), static_cast<size_t>(e.x_out.rows()));
      LogBits("  dx", e.dx.data(), static_cast<size_t>(e.dx.rows()));
      LogBits("  alpha", &e.alpha, 1);
      if (rec->record) rec->evs.push_back(std::move(e));
      if (thrower) DoThrow(rec, *thrower);
    };
  }
  {
    LibScope ls;
    s->impl = std::make_unique<ConstrainedNonlinearLeastSquares>(&inst->problem, std::move(retr));
  }
  if (has_cb) SetCallback(s, true);
}
void DestroySolver(Solver* s) {
  LibScope ls;
  s->impl.reset();
}

namespace {
template <typename S>
bool Replace(Solver* s, std::unique_ptr<S>* other, int how) {
  LibScope ls;
  if (how == 1) {
    if constexpr (std::is_copy_constructible_v<S>) {
      s->impl = std::make_unique<S>(static_cast<const S&>(*s->impl));
      return true;
    }
  } else if (how == 2) {
    if constexpr (std::is_move_constructible_v<S>) {
      s->impl = std::make_unique<S>(std::move(*s->impl));
      return true;
    }
  } else if (how == 3) {
    if constexpr (std::is_copy_assignable_v<S>) {
      **other = static_cast<const S&>(*s->impl);
      s->impl = std::move(*other);
      return true;
    }
  } else {
    if constexpr (std::is_move_assignable_v<S>) {
      **other = std::move(*s->impl);
      s->impl = std::move(*other);
      return true;
    }
  }
  return false;
}
template <typename S>
std::unique_ptr<S> CopyIfPossible(const S& s) {
  if constexpr (std::is_copy_constructible_v<S>) {
    LibScope ls;
    return std::make_unique<S>(s);
  } else {
    return nullptr;
  }
}
}  // namespace
bool ReplaceByCopy(Solver* s, int how, uint64_t seed) {
  Solver other;
  if (how >= 3) {
    MakeSolver(&other, s->inst, false);
    SolveRec r;
    r.start = MakeStart(*s->inst, seed, false, 1.0);
    r.record = false;
    r.params.max_iterations = static_cast<int>(seed % 4);
    RunSolve(&other, &r);
  }
  const Vec before = s->impl->variables();
  const bool done = Replace(s, &other.impl, how);
  DestroySolver(&other);
  if (!done) return false;
  MemCheckHeap();
  const Vec& now = s->impl->variables();
  bool same = now.rows() == before.rows();
  for (int i = 0; same && i < now.rows(); ++i) {
    const double a = now[i], b = before[i];
    same = memcmp(&a, &b, 8) == 0;
  }
  if (!same) Violation("copy-variables", "a %s solver does not hold the variables of the original", how == 1 || how == 3 ? "copied" : "moved");
  return true;
}
std::unique_ptr<ConstrainedNonlinearLeastSquares> CopyOf(const Solver& s) { return CopyIfPossible(*s.impl); }
mini_opt::Errors QueryErrors(Solver* s, const Vec& x) {
  SolveRec* prev = t_rec;
  t_rec = nullptr;
  mini_opt::Errors e;
  {
    LibScope ls;
    e = s->impl->EvaluateNonlinearErrors(x);
  }
  t_rec = prev;
  return e;
}
void RunSolve(Solver* s, SolveRec* rec) {
  SolveRec* prev = t_rec;
  t_rec = rec;
  rec->inst = s->inst;
  rec->has_cb = s->has_cb;
  const uint64_t news = g_memstats.fired_new, mallocs = g_memstats.fired_malloc;
  auto caught = [&](const char* cls, int id) {
    g_memfault.armed = false;
    LibDepth() = 0;
    rec->threw = true;
    rec->ex = cls;
    rec->ex_id = id;
  };
  try {
    LibScope ls;
    rec->out.emplace(s->impl->Solve(rec->params, rec->start));
  } catch (const InjectedStd& e) {
    caught("InjectedStd", e.id);
    if (std::string(e.what()) != "injected " + std::to_string(e.id)) rec->ex = "InjectedStd(damaged)";
  } catch (const InjectedPod& e) {
    caught("InjectedPod", e.id);
    if (e.tag != 0xABCDEF0123456789ull + static_cast<uint64_t>(e.id)) rec->ex = "InjectedPod(damaged)";
  } catch (const std::bad_alloc&) {
    caught("bad_alloc", -1);
  } catch (const assert::default_error&) {
    caught("assert", -1);
  } catch (const mini_opt::FailedFactorization&) {
    caught("FailedFactorization", -1);
  } catch (const std::exception& e) {
    caught("std::exception", -1);
    rec->ex = std::string("std::exception ") + e.what();
  } catch (...) {
    caught("unknown", -1);
  }
  t_rec = prev;
  if (g_memstats.fired_new > news) Count("fault.alloc.new", g_memstats.fired_new - news);
  if (g_memstats.fired_malloc > mallocs) Count("fault.alloc.malloc", g_memstats.fired_malloc - mallocs);
  rec->final = s->impl->variables();
}

// ---------------------------------------------------------------- digests
static uint64_t Bits(double d) {
  if (d != d) return 0x7ff8000000000000ull;
  uint64_t b;
  memcpy(&b, &d, 8);
  return b;
}
void FlattenIteration(const NLSIteration& it, int k, std::vector<Field>* o) {
  auto D = [&](const char* n, double v, int j = 0) { o->push_back({n, k, j, Bits(v)}); };
  auto U = [&](const char* n, uint64_t v, int j = 0) { o->push_back({n, k, j, v}); };
  U("iteration", static_cast<uint64_t>(it.iteration));
  U("optimizer_state", static_cast<uint64_t>(it.optimizer_state));
  D("lambda", it.lambda);
  D("errors_initial.f", it.errors_initial.f);
  D("errors_initial.equality", it.errors_initial.equality);
  U("qp_outputs.index", it.qp_outputs.index());
  if (auto* ip = std::get_if<mini_opt::QPInteriorPointSolverOutputs>(&it.qp_outputs)) {
    U("qp.termination_state", static_cast<uint64_t>(ip->termination_state));
    U("qp.iterations.size", ip->iterations.size());
    int j = 0;
    for (auto& q : ip->iterations) {
      D("qp.kkt_initial.r_dual", q.kkt_initial.r_dual, j);
      D("qp.kkt_initial.r_comp", q.kkt_initial.r_comp, j);
      D("qp.kkt_initial.r_primal_eq", q.kkt_initial.r_primal_eq, j);
      D("qp.kkt_initial.r_primal_ineq", q.kkt_initial.r_primal_ineq, j);
      D("qp.kkt_final.r_dual", q.kkt_final.r_dual, j);
      D("qp.kkt_final.r_comp", q.kkt_final.r_comp, j);
      D("qp.kkt_final.r_primal_eq", q.kkt_final.r_primal_eq, j);
      D("qp.kkt_final.r_primal_ineq", q.kkt_final.r_primal_ineq, j);
      D("qp.mu", q.ip_outputs.mu, j);
      D("qp.alpha.primal", q.ip_outputs.alpha.primal, j);
      D("qp.alpha.dual", q.ip_outputs.alpha.dual, j);
      D("qp.alpha_probe.primal", q.ip_outputs.alpha_probe.primal, j);
      D("qp.alpha_probe.dual", q.ip_outputs.alpha_probe.dual, j);
      D("qp.mu_affine", q.ip_outputs.mu_affine, j);
      ++j;
    }
    U("qp.has_lagrange", ip->lagrange_multipliers.has_value());
    if (ip->lagrange_multipliers) {
      D("qp.lagrange.min", ip->lagrange_multipliers->min);
      D("qp.lagrange.l_infinity", ip->lagrange_multipliers->l_infinity);
    }
  } else {
    U("qp.null_space_state",
      static_cast<uint64_t>(std::get<mini_opt::QPNullSpaceTerminationState>(it.qp_outputs)));
  }
  U("has_eigenvalues", it.qp_eigenvalues.has_value());
  if (it.qp_eigenvalues) {
    D("eig.min", it.qp_eigenvalues->min);
    D("eig.max", it.qp_eigenvalues->max);
    D("eig.abs_min", it.qp_eigenvalues->abs_min);
  }
  D("d_f", it.directional_derivatives.d_f);
  D("d_equality", it.directional_derivatives.d_equality);
  D("penalty", it.penalty);
  U("step_result", static_cast<uint64_t>(it.step_result));
  U("steps.size", it.line_search_steps.size());
  int j = 0;
  for (auto& s : it.line_search_steps) {
    D("step.alpha", s.alpha, j);
    D("step.f", s.errors.f, j);
    D("step.equality", s.errors.equality, j);
    ++j;
  }
}

std::vector<Field> Flatten(const SolveRec& r, int max_iterations) {
  std::vector<Field> o;
  o.push_back({"threw", 0, 0, r.threw});
  if (r.threw) {
    o.push_back({"exception", 0, 0, Hash(r.ex.data(), r.ex.size())});
    o.push_back({"exception_id", 0, 0, static_cast<uint64_t>(r.ex_id)});
  }
  if (r.out) {
    if (max_iterations < 0) {
      o.push_back({"termination_state", 0, 0, static_cast<uint64_t>(r.out->termination_state)});
      o.push_back({"iterations.size", 0, 0, r.out->iterations.size()});
    }
    int k = 0;
    for (auto& it : r.out->iterations) {
      if (max_iterations >= 0 && k >= max_iterations) break;
      FlattenIteration(it, k++, &o);
    }
  }
  if (max_iterations < 0) o.push_back({"exit_callback_calls", 0, 0, r.n_cb});
  if (max_iterations < 0)
    for (int i = 0; i < r.final.rows(); ++i) o.push_back({"variables", 0, i, Bits(r.final[i])});
  return o;
}
std::string DiffFields(const std::vector<Field>& x, const std::vector<Field>& y) {
  char buf[300];
  for (size_t i = 0; i < x.size() && i < y.size(); ++i) {
    if (strcmp(x[i].name, y[i].name) != 0 || x[i].a != y[i].a || x[i].b != y[i].b || x[i].bits != y[i].bits) {
      double dx, dy;
      memcpy(&dx, &x[i].bits, 8);
      memcpy(&dy, &y[i].bits, 8);
      snprintf(buf, sizeof buf, "field %s[%d,%d] = %.17g (0x%lx) vs %s[%d,%d] = %.17g (0x%lx)", x[i].name,
               x[i].a, x[i].b, dx, static_cast<unsigned long>(x[i].bits), y[i].name, y[i].a, y[i].b, dy,
               static_cast<unsigned long>(y[i].bits));
      return buf;
    }
  }
  if (x.size() != y.size()) {
    snprintf(buf, sizeof buf, "outcomes have %zu vs %zu fields", x.size(), y.size());
    return buf;
  }
  return "";
}
static const char* TermName(NLSTerminationState s) {
  switch (s) {
    case NLSTerminationState::MAX_ITERATIONS: return "MAX_ITERATIONS";
    case NLSTerminationState::SATISFIED_ABSOLUTE_TOL: return "SATISFIED_ABSOLUTE_TOL";
    case NLSTerminationState::SATISFIED_RELATIVE_TOL: return "SATISFIED_RELATIVE_TOL";
    case NLSTerminationState::SATISFIED_FIRST_ORDER_TOL: return "SATISFIED_FIRST_ORDER_TOL";
    case NLSTerminationState::MAX_LAMBDA: return "MAX_LAMBDA";
    case NLSTerminationState::QP_INDEFINITE: return "QP_INDEFINITE";
    case NLSTerminationState::USER_CALLBACK: return "USER_CALLBACK";
  }
  return "?";
}
std::string Describe(const SolveRec& r) {
  std::string s = r.inst ? "family=" + r.inst->fam + " n=" + std::to_string(r.inst->n) : "";
  if (r.threw)
    s += " threw " + r.ex;
  else if (r.out)
    s += std::string(" ended ") + TermName(r.out->termination_state) + " after " +
         std::to_string(r.out->iterations.size()) + " iterations";
  return s;
}
void LogOutcome(const char* tag, const SolveRec& r) {
  const auto f = Flatten(r);
  uint64_t h = 0xcbf29ce484222325ull;
  for (auto& x : f) h = HashU(x.bits, h);
  Log("%s %s digest=%016lx", tag, Describe(r).c_str(), static_cast<unsigned long>(h));
}
uint64_t OutcomeShape(const SolveRec& r) {
  uint64_t h = Hash(r.inst->fam.data(), r.inst->fam.size());
  h = HashU(static_cast<uint64_t>(r.threw), h);
  h = Hash(r.ex.data(), r.ex.size(), h);
  if (r.out) {
    h = HashU(static_cast<uint64_t>(r.out->termination_state), h);
    for (auto& it : r.out->iterations) {
      h = HashU(static_cast<uint64_t>(it.step_result) * 16 + it.line_search_steps.size() * 256 +
                    static_cast<uint64_t>(it.optimizer_state),
                h);
    }
  }
  return h;
}

}  // namespace sim
