// QP world: histories of set-ups, interrupted solves, warm restarts and aborted solves on one interior-point
// solver and one null-space solver (C14), and the same histories against new objects (C06).
#include <cmath>
#include <set>
#include <functional>
#include <limits>
#include <utility>

#include <Eigen/Dense>

#include "mini_opt/qp.hpp"
#include "worlds.hpp"

namespace sim {
using mini_opt::QP;
using mini_opt::QPInteriorPointSolver;
using mini_opt::QPInteriorPointSolverOutputs;
using mini_opt::QPInteriorPointTerminationState;
using mini_opt::QPNullSpaceSolver;
using mini_opt::QPNullSpaceTerminationState;

namespace {
struct QpInst {
  QP qp;
  int n, K, M;
  Vec x0;  // strictly inside the bounds, on the equalities
  bool spd;
};

std::unique_ptr<QpInst> BuildQp(const Item& it) {
  auto q = std::make_unique<QpInst>();
  Rng rng(it.u("seed", 1));
  const int n = std::max(1, static_cast<int>(it.i("n", 2)));
  const int K = std::min(n, static_cast<int>(it.i("K", 0)));
  const int M = static_cast<int>(it.i("M", 0));
  q->n = n;
  q->K = K;
  q->M = M;
  q->spd = it.i("ind", 0) == 0;
  Mat B(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) B(i, j) = rng.uni(-1, 1);
  const Mat Q = Eigen::HouseholderQR<Mat>(B).householderQ();
  Vec d(n);
  const double spread = it.d("spread", 1.0);
  for (int i = 0; i < n; ++i) d[i] = rng.log10uni(-spread, spread);
  if (!q->spd)
    for (int i = 0; i < n; ++i)
      if (rng.chance(0.4)) d[i] = -d[i];
  q->qp.G = Q * d.asDiagonal() * Q.transpose();
  if (it.i("lower", 0))  // only the lower triangle is promised to be read
    for (int i = 0; i < n; ++i)
      for (int j = i + 1; j < n; ++j) q->qp.G(i, j) = 1e6 * rng.uni(-1, 1);
  q->qp.c.resize(n);
  q->x0.resize(n);
  for (int i = 0; i < n; ++i) {
    q->qp.c[i] = rng.uni(-3, 3) * it.d("cs", 1.0);
    q->x0[i] = rng.uni(-2, 2);
  }
  if (it.has("gs")) {
    q->qp.G *= it.d("gs", 1.0);
    q->qp.c *= it.d("gs", 1.0);
  }
  // data in whole numbers: ties, zeros and steps that end exactly on a bound do occur
  const bool whole = it.i("whole", 0) != 0;
  if (whole) {
    const Mat W = (2 * B).array().round();
    q->qp.G = W.transpose() * W;
    q->qp.G.diagonal().array() += 1;
    for (int i = 0; i < n; ++i) {
      if (d[i] < 0) q->qp.G(i, i) -= std::round(q->qp.G(i, i)) + 1;
      q->qp.c[i] = std::round(q->qp.c[i]);
      q->x0[i] = std::round(q->x0[i]);
    }
    if (it.i("lower", 0))
      for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j) q->qp.G(i, j) = 1e6;
  }
  q->qp.A_eq.resize(K, n);
  q->qp.b_eq.resize(K);
  if (K > 0) {
    for (int i = 0; i < K; ++i)
      for (int j = 0; j < n; ++j) q->qp.A_eq(i, j) = rng.uni(-2, 2);
    if (whole) q->qp.A_eq = q->qp.A_eq.array().round().matrix().eval();
    if (it.has("es")) q->qp.A_eq *= it.d("es", 1.0);
    if (it.i("whole", 0) == 2 && K < n) {
      // constraints on single variables, and no curvature at all along one that is left free
      const int flat = static_cast<int>(rng.below(static_cast<uint64_t>(n)));
      q->qp.G.row(flat).setZero();
      q->qp.G.col(flat).setZero();
      q->qp.A_eq.setZero();
      for (int i = 0; i < K; ++i)
        q->qp.A_eq(i, (flat + 1 + static_cast<int>(rng.below(static_cast<uint64_t>(n - 1)))) % n) = (rng.chance(0.5) ? 1 : -1) * rng.range(1, 4);
    }
    q->qp.b_eq = -q->qp.A_eq * q->x0;
  }
  // rows that follow from the others (consistently, unless asked otherwise), anywhere among them
  const int extra = K > 0 ? static_cast<int>(it.i("dep", 0)) : 0;
  if (extra > 0) {
    Rng dr(it.u("seed", 1) * 31 + 7);
    const int kinds = static_cast<int>(it.i("dk", 0));  // 0 any, 1 repeated rows only, 2 zero rows only
    Mat A = q->qp.A_eq;
    Vec b = q->qp.b_eq;
    for (int e = 0; e < extra; ++e) {
      const int m = static_cast<int>(A.rows());
      const int i = static_cast<int>(dr.below(static_cast<uint64_t>(m))), j = static_cast<int>(dr.below(static_cast<uint64_t>(m)));
      Vec row = Vec::Zero(n);
      double rb = 0;
      const int kind = kinds == 2 ? 3 : kinds == 1 ? 0 : dr.range(0, 3);
      if (kind == 0) {
        row = A.row(i).transpose();
        rb = b[i];
      } else if (kind == 1) {
        const double f = (dr.chance(0.5) ? 1 : -1) * std::ldexp(1.0, dr.range(-2, 2));
        row = f * A.row(i).transpose();
        rb = f * b[i];
      } else if (kind == 2) {
        const double f = dr.uni(-2, 2), h = dr.uni(-2, 2);
        row = f * A.row(i).transpose() + h * A.row(j).transpose();
        rb = f * b[i] + h * b[j];
      }
      const int at = static_cast<int>(dr.below(static_cast<uint64_t>(m + 1)));
      Mat A2(m + 1, n);
      Vec b2(m + 1);
      A2.topRows(at) = A.topRows(at);
      A2.row(at) = row.transpose();
      A2.bottomRows(m - at) = A.bottomRows(m - at);
      b2.head(at) = b.head(at);
      b2[at] = rb;
      b2.tail(m - at) = b.tail(m - at);
      A = A2;
      b = b2;
    }
    if (it.i("incons", 0)) b[static_cast<int>(dr.below(static_cast<uint64_t>(b.rows())))] += dr.uni(0.5, 1);
    q->qp.A_eq = A;
    q->qp.b_eq = b;
    q->K = static_cast<int>(A.rows());
  }
  for (int k = 0; k < M; ++k) {
    const int v = static_cast<int>(rng.below(static_cast<uint64_t>(n)));
    const double a = (rng.chance(0.5) ? 1.0 : -1.0) * (rng.chance(0.5) ? 1.0 : rng.log10uni(-1, 1));
    const double margin = rng.log10uni(-1.5, 0.5);
    if (whole)
      q->qp.constraints.emplace_back(v, a > 0 ? 1.0 : -1.0, std::ceil(margin) - (a > 0 ? 1.0 : -1.0) * q->x0[v]);
    else
      q->qp.constraints.emplace_back(v, a, std::abs(a) * margin - a * q->x0[v]);
  }
  return q;
}

Item GenQ(Rng& rng, int id, bool ip, bool thorough) {
  Item q("Q");
  const int n = rng.range(1, thorough ? 8 : 5);
  q.set("id", id).set("n", n).setu("seed", rng.next() >> 20);
  if (ip) {
    if (n > 1 && rng.chance(0.5)) q.set("K", rng.range(1, n - 1));
    if (rng.chance(0.75)) q.set("M", rng.range(1, n + 2));
  } else {
    q.set("K", rng.chance(0.15) ? n : rng.range(1, std::max(1, n - 1)));
    if (rng.chance(0.3)) q.set("ind", 1);
  }
  const bool flat = !ip && rng.chance(0.06);
  if (rng.chance(0.3)) q.setd("spread", rng.uni(0, 3));
  if (rng.chance(0.3)) q.setd("cs", rng.log10uni(-2, 2));
  if (rng.chance(0.3)) q.set("lower", 1);
  if (rng.chance(0.12)) q.set("whole", 1);
  if (rng.chance(0.15)) q.setd("gs", rng.log10uni(-4, 3));
  if (q.has("K") && rng.chance(0.2)) q.setd("es", rng.log10uni(-2, ip ? 7 : 3));
  if (flat) {
    Item f("Q");
    f.set("id", id).set("n", std::max(n, 2)).setu("seed", q.u("seed", 1)).set("K", std::min<int>(static_cast<int>(q.i("K", 1)), std::max(n, 2) - 1)).set("whole", 2);
    if (q.has("lower")) f.set("lower", 1);
    return f;
  }
  return q;
}

Item GenU(Rng& rng, int nq) {
  Item u("U");
  u.set("q", rng.range(0, nq - 1));
  u.set("strat", rng.range(0, 2)).set("guess", rng.range(0, 1));
  if (rng.chance(0.4)) u.setd("mu", rng.log10uni(-4, 2));
  if (rng.chance(0.5)) u.setd("sigma", rng.chance(0.15) ? 1.0 : rng.uni(0.01, 0.95));
  if (rng.chance(0.6)) u.setd("tol", rng.log10uni(-10, -2));
  if (rng.chance(0.5)) u.setd("ctol", rng.log10uni(-9, 1));
  u.set("mi", rng.chance(0.4) ? rng.range(1, 5) : rng.range(5, 40));
  if (rng.chance(0.2)) u.set("dec", 1);
  if (rng.chance(0.3)) u.set("initmu", 1);
  return u;
}

QPInteriorPointSolver::Params IpParams(const Item& u) {
  QPInteriorPointSolver::Params p;
  p.initial_mu = u.d("mu", p.initial_mu);
  p.sigma = u.d("sigma", p.sigma);
  p.termination_kkt_tol = u.d("tol", p.termination_kkt_tol);
  p.termination_complementarity_tol = u.d("ctol", p.termination_complementarity_tol);
  p.max_iterations = static_cast<int>(u.i("mi", p.max_iterations));
  p.barrier_strategy = static_cast<mini_opt::BarrierStrategy>(u.i("strat", 0) % 3);
  p.decrease_mu_only_on_small_error = u.i("dec", 0) != 0;
  p.initial_guess_method = static_cast<mini_opt::InitialGuessMethod>(u.i("guess", 0) % 3);
  p.initialize_mu_with_complementarity = u.i("initmu", 0) != 0;
  return p;
}

struct IpOutcome {
  bool threw = false;
  std::string ex;
  std::optional<QPInteriorPointSolverOutputs> out;
  Vec vars;
};
template <typename F>
void Guard(IpOutcome* o, F&& f) {
  auto caught = [&](const std::string& s) {
    g_memfault.armed = false;
    LibDepth() = 0;
    o->threw = true;
    o->ex = s;
  };
  const uint64_t a = g_memstats.fired_new, b = g_memstats.fired_malloc;
  try {
    LibScope ls;
    f();
  } catch (const std::bad_alloc&) {
    caught("bad_alloc");
  } catch (const mini_opt::FailedFactorization&) {
    caught("FailedFactorization");
  } catch (const assert::default_error&) {
    caught("assert");
  } catch (const std::exception& e) {
    caught(e.what());
  }
  if (g_memstats.fired_new > a) Count("fault.alloc.new", g_memstats.fired_new - a);
  if (g_memstats.fired_malloc > b) Count("fault.alloc.malloc", g_memstats.fired_malloc - b);
}
uint64_t B(double d) {
  if (d != d) return 0x7ff8000000000000ull;
  uint64_t b;
  memcpy(&b, &d, 8);
  return b;
}
std::vector<Field> FlattenIp(const IpOutcome& r) {
  std::vector<Field> o;
  o.push_back({"threw", 0, 0, r.threw});
  o.push_back({"exception", 0, 0, r.threw ? Hash(r.ex.data(), r.ex.size()) : 0});
  if (r.out) {
    o.push_back({"termination_state", 0, 0, static_cast<uint64_t>(r.out->termination_state)});
    o.push_back({"iterations.size", 0, 0, r.out->iterations.size()});
    int j = 0;
    for (auto& q : r.out->iterations) {
      const double v[] = {q.kkt_initial.r_dual, q.kkt_initial.r_comp, q.kkt_initial.r_primal_eq, q.kkt_initial.r_primal_ineq,
                          q.kkt_final.r_dual, q.kkt_final.r_comp, q.kkt_final.r_primal_eq, q.kkt_final.r_primal_ineq,
                          q.ip_outputs.mu, q.ip_outputs.alpha.primal, q.ip_outputs.alpha.dual, q.ip_outputs.alpha_probe.primal,
                          q.ip_outputs.alpha_probe.dual, q.ip_outputs.mu_affine};
      for (int k = 0; k < 14; ++k) o.push_back({"qp.iteration", j, k, B(v[k])});
      ++j;
    }
    o.push_back({"has_lagrange", 0, 0, r.out->lagrange_multipliers.has_value()});
    if (r.out->lagrange_multipliers) {
      o.push_back({"lagrange.min", 0, 0, B(r.out->lagrange_multipliers->min)});
      o.push_back({"lagrange.l_infinity", 0, 0, B(r.out->lagrange_multipliers->l_infinity)});
    }
    for (int i = 0; i < r.vars.rows(); ++i) o.push_back({"variables", 0, i, B(r.vars[i])});
  }
  return o;
}
uint64_t Digest(const IpOutcome& r) {
  uint64_t h = 1;
  for (auto& f : FlattenIp(r)) h = HashU(f.bits, h);
  return h;
}

// ---------------------------------------------------------------- C14 oracle
void CheckIp(const QpInst& q, const QPInteriorPointSolver& s, const QPInteriorPointSolver::Params& P, const QPInteriorPointSolverOutputs& o) {
  const Mat G = q.qp.G.selfadjointView<Eigen::Lower>();
  const Vec x = s.x_block(), sl = s.s_block(), y = s.y_block(), z = s.z_block();
  if (x.rows() != q.n || sl.rows() != q.M || y.rows() != q.K || z.rows() != q.M)
    Violation("qp-dims", "held blocks have sizes %ld/%ld/%ld/%ld", static_cast<long>(x.rows()), static_cast<long>(sl.rows()), static_cast<long>(y.rows()), static_cast<long>(z.rows()));
  if (o.iterations.empty() || static_cast<int>(o.iterations.size()) > P.max_iterations)
    Violation("qp-iterations", "%zu iterations, limit %d", o.iterations.size(), P.max_iterations);
  const bool sat = o.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
  if (!sat && static_cast<int>(o.iterations.size()) != P.max_iterations)
    Violation("qp-termination", "iteration limit reported after %zu of %d iterations", o.iterations.size(), P.max_iterations);
  // The statement is about arithmetic that stays in range: a diverging solve may overflow.
  for (const auto& it : o.iterations) {
    const double v[] = {it.kkt_initial.r_dual, it.kkt_initial.r_comp, it.kkt_final.r_dual, it.kkt_final.r_comp, it.kkt_final.r_primal_eq,
                        it.kkt_final.r_primal_ineq, it.ip_outputs.mu};
    for (double d : v)
      if (std::abs(d) > 1e100) {
        Count("overflowed_solves");
        return;
      }
  }
  // recomputed residuals of the held values, with their own rounding scale
  Vec rd = G * x + q.qp.c, rpe(q.K), rpi(q.M), sz(q.M);
  double md = (G.cwiseAbs() * x.cwiseAbs() + q.qp.c.cwiseAbs()).norm(), mpe = 0, mpi = 0;
  if (q.K > 0) {
    rd -= q.qp.A_eq.transpose() * y;
    md += (q.qp.A_eq.transpose().cwiseAbs() * y.cwiseAbs()).norm();
    rpe = q.qp.A_eq * x + q.qp.b_eq;
    mpe = (q.qp.A_eq.cwiseAbs() * x.cwiseAbs() + q.qp.b_eq.cwiseAbs()).norm();
  }
  bool finite = std::isfinite(md);
  for (int i = 0; i < q.M; ++i) {
    const auto& c = q.qp.constraints[static_cast<size_t>(i)];
    rd[c.variable] -= c.a * z[i];
    md += std::abs(c.a * z[i]);
    rpi[i] = c.a * x[c.variable] + c.b - sl[i];
    mpi += std::abs(c.a * x[c.variable]) + std::abs(c.b) + std::abs(sl[i]);
    sz[i] = sl[i] * z[i];
    // predictor-corrector aims at mu = 0 and may drive a multiplier into underflow when run far past convergence
    if (P.barrier_strategy == mini_opt::BarrierStrategy::PREDICTOR_CORRECTOR && o.iterations.size() >= 10 && sl[i] > 0 && z[i] == 0 &&
        o.iterations[o.iterations.size() - 2].ip_outputs.mu < 1e-100) {
      Count("underflowed_multipliers");
      continue;
    }
    if (!(sl[i] > 0) || !(z[i] > 0)) Violation("qp-positivity", "slack %g, multiplier %g of inequality %d after %zu iterations", sl[i], z[i], i, o.iterations.size());
    finite = finite && std::isfinite(sz[i]);
  }
  const auto& last = o.iterations.back();
  // the largest recorded residual, worked out here and not by the library
  const double rec_max = std::max(std::max(last.kkt_final.r_dual, last.kkt_final.r_comp), std::max(last.kkt_final.r_primal_eq, last.kkt_final.r_primal_ineq));
  const double tol = 1e-11;
  auto close = [&](double rec, double now, double mag) { return std::abs(rec - now) <= tol * (mag + std::abs(now)) + 1e-300; };
  if (finite) {
    if (!close(last.kkt_final.r_dual, rd.norm(), md)) Violation("qp-log", "final r_dual %.17g recorded, held values give %.17g", last.kkt_final.r_dual, rd.norm());
    if (!close(last.kkt_final.r_primal_eq, rpe.norm(), mpe)) Violation("qp-log", "final r_primal_eq %.17g recorded, held values give %.17g", last.kkt_final.r_primal_eq, rpe.norm());
    if (!close(last.kkt_final.r_primal_ineq, rpi.norm(), mpi)) Violation("qp-log", "final r_primal_ineq %.17g recorded, held values give %.17g", last.kkt_final.r_primal_ineq, rpi.norm());
    if (P.barrier_strategy != mini_opt::BarrierStrategy::PREDICTOR_CORRECTOR && q.M > 0) {
      const double rc = (sz.array() - last.ip_outputs.mu).matrix().norm();
      const double mag = std::max(last.ip_outputs.mu, sz.lpNorm<Eigen::Infinity>());
      if (!(std::abs(last.kkt_final.r_comp - rc) <= 1e-7 * mag + 1e-300))
        Violation("qp-log", "final r_comp %.17g recorded, held values give %.17g", last.kkt_final.r_comp, rc);
    }
  }
  for (size_t k = 0; k < o.iterations.size(); ++k) {
    const auto& it = o.iterations[k];
    const auto& a = it.ip_outputs.alpha;
    if (!(a.primal > 0 && a.primal <= 1 && a.dual > 0 && a.dual <= 1))
      Violation("qp-step", "iteration %zu step lengths %g/%g", k, a.primal, a.dual);
    if (k > 0) {
      const auto& p = o.iterations[k - 1].kkt_final;
      auto same = [](double u, double v) { return u == v || std::abs(u - v) <= 1e-12 * std::max(std::abs(u), std::abs(v)) || (u != u && v != v); };
      if (!same(p.r_dual, it.kkt_initial.r_dual) || !same(p.r_primal_eq, it.kkt_initial.r_primal_eq) || !same(p.r_primal_ineq, it.kkt_initial.r_primal_ineq))
        Violation("qp-log", "iteration %zu starts from other residuals than iteration %zu ended with", k, k - 1);
      // the solve ends at the first iteration that satisfies the tolerances
    }
  }
  if (sat) {
    Count("probe.qp_satisfied");
    const double t = P.termination_kkt_tol;
    if (!(rec_max < t)) Violation("qp-false-success", "success claimed with recorded residual %g, tolerance %g", rec_max, t);
    if (finite && (rd.norm() > t + tol * md || rpe.norm() > t + tol * mpe || rpi.norm() > t + tol * mpi))
      Violation("qp-false-success", "success claimed to %g but held values have residuals %g/%g/%g", t, rd.norm(), rpe.norm(), rpi.norm());
    if (q.M > 0 && !(sz.sum() / q.M < P.termination_complementarity_tol * (1 + 1e-9)))
      Violation("qp-false-success", "success claimed with complementarity %g, tolerance %g", sz.sum() / q.M, P.termination_complementarity_tol);
  } else {
    Count("probe.qp_unsatisfied");
    if (finite && q.M > 0 && P.barrier_strategy != mini_opt::BarrierStrategy::PREDICTOR_CORRECTOR) {
      const double t = P.termination_kkt_tol;
      if (rec_max < t * (1 - 1e-9) && sz.sum() / q.M < P.termination_complementarity_tol * (1 - 1e-9))
        Violation("qp-missed-success", "iteration limit reported although the tolerances are met");
    }
  }
  if (o.lagrange_multipliers.has_value() != (q.K > 0)) Violation("qp-multipliers", "multiplier summary %s", q.K > 0 ? "missing" : "present without equalities");
  if (q.K > 0 && y.allFinite()) {
    if (o.lagrange_multipliers->min != y.minCoeff() || o.lagrange_multipliers->l_infinity != y.lpNorm<Eigen::Infinity>())
      Violation("qp-multipliers", "multiplier summary %g/%g, held multipliers give %g/%g", o.lagrange_multipliers->min,
                o.lagrange_multipliers->l_infinity, y.minCoeff(), y.lpNorm<Eigen::Infinity>());
  }
}

// Is there a variable that no constraint names and along which the objective has no curvature at all, in data simple
// enough (whole numbers, constraints on single variables) for the null space to be computed without any round-off?
bool ExactlyFlat(const Mat& G, const Mat& A) {
  std::vector<bool> named(static_cast<std::size_t>(A.cols()), false);
  for (int i = 0; i < A.rows(); ++i) {
    int count = 0;
    for (int j = 0; j < A.cols(); ++j) {
      if (A(i, j) == 0) continue;
      if (std::abs(A(i, j)) > 1000 || A(i, j) != std::round(A(i, j)) || ++count > 1) return false;
      named[static_cast<std::size_t>(j)] = true;
    }
  }
  for (int i = 0; i < G.rows(); ++i)
    for (int j = 0; j < G.cols(); ++j)
      if (std::abs(G(i, j)) > 1e6 || G(i, j) != std::round(G(i, j))) return false;
  for (int j = 0; j < A.cols(); ++j)
    if (!named[static_cast<std::size_t>(j)] && G.row(j).isZero(0.0)) return true;
  return false;
}

void CheckNull(const QpInst& q, QPNullSpaceTerminationState st, const Vec& x) {
  const Mat G = q.qp.G.selfadjointView<Eigen::Lower>();
  const Mat& A = q.qp.A_eq;
  const Eigen::JacobiSVD<Mat> svd(A, Eigen::ComputeFullU | Eigen::ComputeFullV);
  const Vec sv = svd.singularValues();
  const double smax = sv.maxCoeff();
  int rank = 0;
  while (rank < sv.rows() && sv[rank] > 1e-3 * smax) ++rank;
  if (rank < sv.rows() && !(sv[rank] <= 1e-14 * smax)) return;  // nearly dependent: nothing is claimed
  if (rank < q.K) {
    // consistent up to round-off, or nothing is claimed
    const Vec off = svd.matrixU().rightCols(q.K - rank).transpose() * q.qp.b_eq;
    if (!(off.norm() <= 1e-13 * (q.qp.b_eq.norm() + smax))) {
      Count("probe.inconsistent");
      return;
    }
    Count(q.K > q.n ? "probe.over_determined" : "probe.dependent");
  }
  const Mat Z = svd.matrixV().rightCols(q.n - rank);
  double lo = 1, hi = 1;
  if (q.n > rank) {
    const Mat H = Z.transpose() * G * Z;
    const Vec ev = Eigen::SelfAdjointEigenSolver<Mat>(H).eigenvalues();
    lo = ev.minCoeff();
    hi = ev.cwiseAbs().maxCoeff();
  }
  const double gn = std::max(G.norm(), hi);
  if (st == QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE) {
    Count("probe.nullspace_indefinite");
    if (ExactlyFlat(G, A)) Count("probe.nullspace_singular");
    if (lo > 1e-9 * gn) Violation("null-false-indefinite", "not positive definite reported; smallest reduced eigenvalue %g", lo);
    return;
  }
  Count("probe.nullspace_success");
  if (lo < -1e-9 * gn) Violation("null-missed-indefinite", "success reported; smallest reduced eigenvalue %g", lo);
  if (ExactlyFlat(G, A)) Violation("null-missed-singular", "success reported, but the reduced Hessian has a row of zeros");
  if (lo < 1e-6 * gn) return;
  if (x.rows() != q.n) Violation("null-dims", "solution has %ld entries for %d variables", static_cast<long>(x.rows()), q.n);
  const Vec r = A * x + q.qp.b_eq;
  const double ms = A.norm() * x.norm() + q.qp.b_eq.norm();
  if (!(r.norm() <= 1e-9 * ms)) Violation("null-equality", "success reported with equality residual %g (scale %g)", r.norm(), ms);
  if (q.n > rank) {
    const Vec g = Z.transpose() * (G * x + q.qp.c);
    const double gs = G.norm() * x.norm() + q.qp.c.norm();
    if (!(g.norm() <= 1e-8 * gs)) Violation("null-optimality", "success reported with projected gradient %g (scale %g)", g.norm(), gs);
  }
}

void GenQpOps(Plan* plan, Rng& rng, bool thorough, bool c06, bool dep = false) {
  const bool ip = !dep && rng.chance(0.75);
  const int nq = rng.range(1, 4);
  for (int i = 0; i < nq; ++i) {
    Item q = GenQ(rng, i, ip, thorough);
    if (dep && rng.chance(0.8)) {
      q.set("dep", rng.chance(0.7) ? rng.range(1, 3) : rng.range(1, static_cast<int>(q.i("n", 1)) + 4));
      if (rng.chance(0.3)) q.set("dk", rng.range(1, 2));
      if (rng.chance(0.1)) q.set("incons", 1);
    }
    plan->items.push_back(q);
  }
  const int ops = rng.range(2, thorough ? 14 : 8);
  for (int k = 0; k < ops; ++k) {
    if (!ip) {
      Item o("N");
      o.set("q", rng.range(0, nq - 1));
      if (rng.chance(0.1)) o.setu("oom", rng.below(100000));
      if (k > 0 && rng.chance(0.2)) o.setu("edit", rng.next() >> 30);
      if (k > 0 && rng.chance(0.15)) o.set("copy", rng.range(1, 4));
      plan->items.push_back(o);
      continue;
    }
    Item u = GenU(rng, nq);
    if (k > 0 && !c06) {
      if (rng.chance(0.35)) u.set("keep", 1).set("guess", 2);          // resume where the last solve stopped
      else if (rng.chance(0.2)) u.set("guess", 2).setu("warm", rng.next() >> 30);  // user-provided start
    } else if (c06 && rng.chance(0.3)) {
      u.set("guess", 2).setu("warm", rng.next() >> 30);
    }
    if (rng.chance(0.12)) u.setu("oom", rng.below(100000)).set("onlynew", rng.chance(0.5) ? 1 : 0);
    if (u.has("warm") && rng.chance(0.4)) u.setd("wd", rng.log10uni(0, 3));
    if (rng.chance(0.2)) u.set("ctor", 1);
    if (k > 0 && rng.chance(0.2)) u.setu("edit", rng.next() >> 30);
    if (k > 0 && rng.chance(0.15)) u.set("copy", rng.range(1, 4));
    plan->items.push_back(u);
  }
}

Vec WarmStart(const QpInst& q, uint64_t seed, double dist) {
  Rng rng(seed);
  Vec v(q.n + 2 * q.M + q.K);
  for (int i = 0; i < q.n; ++i) v[i] = q.x0[i] + dist * rng.uni(-1, 1);
  for (int i = 0; i < q.M; ++i) v[q.n + i] = rng.log10uni(-3, 1);
  for (int i = 0; i < q.K; ++i) v[q.n + q.M + i] = rng.uni(-2, 2);
  for (int i = 0; i < q.M; ++i) v[q.n + q.M + q.K + i] = rng.log10uni(-3, 1);
  return v;
}

// New values for a problem that stays where it is and keeps its shape.
void EditQp(QpInst* q, uint64_t seed) {
  Rng rng(seed);
  mini_opt::QP& p = q->qp;
  const double u = rng.u01();
  if (u < 0.4) {
    for (int i = 0; i < p.c.rows(); ++i) p.c[i] += rng.uni(-1, 1) * (1 + std::abs(p.c[i]));
  } else if (u < 0.6) {
    p.G *= rng.chance(0.5) ? 2.0 : 0.5;
  } else if (u < 0.8 && p.A_eq.rows() > 0) {
    p.A_eq *= rng.chance(0.5) ? 2.0 : 0.5;
    p.b_eq *= rng.chance(0.5) ? 2.0 : 1.0;
  } else {
    for (auto& c : p.constraints) c.b += std::abs(c.a) * rng.u01();  // looser
    p.c *= 1.5;
  }
  Count("edited_in_place");
}

// Goes on with a copy (1), a moved object (2), or an object with a history of its own assigned to (3, 4).
template <typename S, typename F>
int ReplaceQp(S* s, int how, F&& history) {
  LibScope ls;
  if (how == 1) {
    if constexpr (std::is_copy_constructible_v<S> && std::is_move_assignable_v<S>) {
      S t(static_cast<const S&>(*s));
      *s = std::move(t);
      return 1;
    }
  } else if (how == 2) {
    if constexpr (std::is_move_constructible_v<S> && std::is_move_assignable_v<S>) {
      S t(std::move(*s));
      *s = std::move(t);
      return 1;
    }
  } else {
    if constexpr (std::is_copy_assignable_v<S>) {
      S t;
      try {
        history(&t);
      } catch (const std::exception&) {
      }
      if (how == 3)
        t = static_cast<const S&>(*s);
      else
        t = std::move(*s);
      *s = t;
      return 1;
    }
  }
  return 0;
}

void RunQpOps(const Plan& plan, bool c06) {
  std::vector<std::unique_ptr<QpInst>> qs;
  for (const Item& it : plan.items)
    if (it.type == "Q") qs.push_back(BuildQp(it));
  if (qs.empty()) return;
  QPInteriorPointSolver solver;
  QPNullSpaceSolver ns;
  QpInst* cur = nullptr;
  int op = 0, prior = 0;
  bool ns_any = false;
  for (const Item& u : plan.items) {
    if (u.type == "N") {
      QpInst& q = *qs[static_cast<size_t>(u.i("q", 0)) % qs.size()];
      if (q.K == 0) continue;
      if (u.has("edit")) EditQp(&q, u.u("edit", 1));
      if (u.i("copy", 0) && ns_any) Count("copied_or_moved", ReplaceQp(&ns, static_cast<int>(u.i("copy", 0)), [&](QPNullSpaceSolver* o) { (void)o->Solve(q.qp); }));
      IpOutcome r;
      QPNullSpaceTerminationState st{};
      uint64_t total = 0;
      QPNullSpaceTerminationState st2{};
      Vec x2;
      IpOutcome f;
      {
        QPNullSpaceSolver fresh;
        MemReset();
        Guard(&f, [&] { st2 = fresh.Solve(q.qp); });
        total = g_memstats.lib_malloc + g_memstats.lib_new;
        x2 = fresh.variables();
      }
      // allocation failures only while every buffer keeps its size (Eigen's resize is not exception safe)
      bool oom = u.has("oom") && total && !ns_any;
      if (oom) {
        QPNullSpaceSolver victim;
        MemReset();
        g_memfault.armed = true;
        g_memfault.only_new = false;
        g_memfault.at = u.u("oom", 0) % total;
        g_memfault.len = 1;
        Guard(&r, [&] { st = victim.Solve(q.qp); });
        g_memfault.armed = false;
        if (!f.threw && r.threw && r.ex != "bad_alloc") Violation("qp-abort", "allocation failure surfaced as %s", r.ex.c_str());
        r = IpOutcome{};
        Guard(&r, [&] { st = victim.Solve(q.qp); });
        if (r.threw != f.threw || (!r.threw && (st != st2 || (st == QPNullSpaceTerminationState::SUCCESS && (victim.variables() - x2).norm() != 0))))
          Violation("null-history", "solve after an aborted solve differs from a new solver's");
        if (!r.threw) CheckNull(q, st, victim.variables());
        Count("aborted_solves");
        r = IpOutcome{};
      }
      Guard(&r, [&] { st = ns.Solve(q.qp); });
      ns_any = true;
      Count("solves");
      Log("N %d state %d threw %d", op, static_cast<int>(st), r.threw);
      if (r.threw != f.threw || (!r.threw && st != st2)) Violation("null-history", "reused solver: state %d threw %d, new solver: state %d threw %d", static_cast<int>(st), r.threw, static_cast<int>(st2), f.threw);
      if (!r.threw && st == QPNullSpaceTerminationState::SUCCESS) {
        const Vec x = ns.variables();
        LogBits("x", x.data(), static_cast<size_t>(x.rows()));
        if (x.rows() != x2.rows() || memcmp(x.data(), x2.data(), sizeof(double) * static_cast<size_t>(x.rows())) != 0) {
          if (c06 || !(x.rows() == x2.rows() && (x - x2).norm() == 0))
            Violation("null-history", "solution on the reused solver differs from a new solver's");
        }
      }
      if (!r.threw && !c06) CheckNull(q, st, ns.variables());
      if (prior++) NonTrivial();
      State(HashU(static_cast<uint64_t>(prior * 4 + static_cast<int>(st)), HashU(static_cast<uint64_t>(q.n * 16 + q.K), 3)));
      MemCheckHeap();
      ++op;
      continue;
    }
    if (u.type != "U") continue;
    // A client resumes only from a point it may provide (slacks and multipliers positive): an abort can leave none.
    const bool held_ok = cur != nullptr && solver.variables().allFinite() && (std::as_const(solver).s_block().array() > 0.0).all() &&
                         (std::as_const(solver).z_block().array() > 0.0).all();
    const bool keep = u.i("keep", 0) != 0 && held_ok;
    QpInst& q = keep ? *cur : *qs[static_cast<size_t>(u.i("q", 0)) % qs.size()];
    if (u.has("edit")) EditQp(&q, u.u("edit", 1));  // the solver refers to the problem: it has to see the new values
    if (u.i("copy", 0) && cur)
      Count("copied_or_moved", ReplaceQp(&solver, static_cast<int>(u.i("copy", 0)), [&](QPInteriorPointSolver* o) {
              o->Setup(&qs[0]->qp);
              (void)o->Solve(IpParams(u));
            }));
    Item pu = u;
    if (!keep && !u.has("warm") && u.i("guess", 0) == 2) pu.set("guess", 0);
    const QPInteriorPointSolver::Params P = IpParams(pu);
    const bool warm = u.has("warm");
    const Vec wv = warm ? WarmStart(q, u.u("warm", 1), u.d("wd", 1.0)) : Vec();
    // the same operation on a new solver
    IpOutcome f;
    uint64_t total = 0, total_new = 0;
    {
      std::unique_ptr<QPInteriorPointSolver> fs;
      const Vec held = keep ? solver.variables() : Vec();
      Guard(&f, [&] {
        if (u.i("ctor", 0))
          fs = std::make_unique<QPInteriorPointSolver>(&q.qp);
        else {
          fs = std::make_unique<QPInteriorPointSolver>();
          fs->Setup(&q.qp);
        }
        if (keep) fs->SetVariables(held);
        if (warm) fs->SetVariables(wv);
        MemReset();
        f.out.emplace(fs->Solve(P));
      });
      total = g_memstats.lib_malloc + g_memstats.lib_new;
      total_new = g_memstats.lib_new;
      if (fs) f.vars = fs->variables();
    }
    IpOutcome r;
    Guard(&r, [&] {
      if (!keep) solver.Setup(&q.qp);
      if (warm) solver.SetVariables(wv);
    });
    if (r.threw) Violation("qp-setup", "set-up of a valid problem threw %s", r.ex.c_str());
    cur = &q;
    const bool oom = u.has("oom") && total;
    if (oom) {
      const bool on = u.i("onlynew", 0) != 0;
      MemReset();
      g_memfault.armed = true;
      g_memfault.only_new = on;
      const uint64_t n = on ? total_new : total;
      g_memfault.at = n ? u.u("oom", 0) % n : 0;
      g_memfault.len = 1;
    }
    Guard(&r, [&] { r.out.emplace(solver.Solve(P)); });
    const bool fired = oom && g_memstats.fired_new + g_memstats.fired_malloc > 0;
    g_memfault.armed = false;
    r.vars = solver.variables();
    Log("U %d threw %d %s digest %016lx", op, r.threw, r.ex.substr(0, 30).c_str(), static_cast<unsigned long>(Digest(r)));
    Count("solves");
    MemCheckHeap();
    if (r.threw) Count(("outcome.threw." + r.ex.substr(0, 20)).c_str());
    if (fired && !f.threw && r.threw && r.ex != "bad_alloc") Violation("qp-abort", "allocation failure surfaced as %s", r.ex.c_str());
    if (fired) NonTrivial();
    if (c06) {
      if (!fired) {
        const std::string d = DiffFields(FlattenIp(r), FlattenIp(f));
        if (!d.empty()) Violation("qp-history", "solve %d on the reused solver differs from a new solver's: %s", op, d.c_str());
        if (prior) {
          Count("compared_after_history");
          NonTrivial();
        }
      }
    } else if (r.out) {
      CheckIp(q, solver, P, *r.out);
      if (prior || r.out->iterations.size() > 1) NonTrivial();
    }
    if (r.out) {
      uint64_t h = HashU(static_cast<uint64_t>(q.n * 1000 + q.K * 100 + q.M * 10 + u.i("strat", 0)), 7);
      h = HashU(r.out->iterations.size() * 2 + static_cast<uint64_t>(r.out->termination_state), h);
      State(HashU(static_cast<uint64_t>(keep) * 4 + warm * 2 + fired, h));
    }
    ++prior;
    ++op;
  }
}
// ---------------------------------------------------------------- C20: calls that have to be rejected
bool SameBits(const Vec& a, const Vec& b) {
  return a.rows() == b.rows() && (a.rows() == 0 || memcmp(a.data(), b.data(), sizeof(double) * static_cast<size_t>(a.rows())) == 0);
}
std::string BreakQp(const Item& x, QP* q) {
  const Eigen::Index n = q->G.rows(), K = q->A_eq.rows();
  const Eigen::Index d = x.i("d", 0) ? 1 : -1;
  switch (x.u("k", 0) % 8) {
    case 0:
      q->G = Mat::Identity(n + d > 0 ? n + d : n + 1, n);
      return "a Hessian that is not square";
    case 1:
      q->c = Vec::Ones(n + d);
      return "a gradient of the wrong length";
    case 2:
      q->b_eq = Vec::Ones(K + 1);
      return "more equality values than rows";
    case 3:
      q->A_eq = Mat::Ones(std::max<Eigen::Index>(K, 1), n + d > 0 ? n + d : n + 1);
      q->b_eq = Vec::Ones(q->A_eq.rows());
      return "equality rows of the wrong length";
    case 4:
      q->constraints.emplace_back(static_cast<int>(n) + static_cast<int>(x.i("v", 0)), 1.0, 1.0);
      return "an inequality on a variable past the end";
    case 5:
      q->constraints.emplace_back(-1 - static_cast<int>(x.i("v", 0)), 1.0, 1.0);
      return "an inequality on a negative variable";
    case 6:
      if (K > 0) {
        q->b_eq = Vec::Ones(K - 1);
        return "fewer equality values than rows";
      }
      q->b_eq = Vec::Ones(2);
      return "equality values without rows";
    default:
      q->G = Mat::Identity(n + d, n + d);
      return "a Hessian of another size than the gradient";
  }
}
std::string BreakIpParams(const Item& x, QPInteriorPointSolver::Params* p) {
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  const double low[] = {0.0, -0.0, -1e-300, -1.0, nan, -inf};
  const uint64_t v = x.u("v", 0);
  switch (x.u("k", 0) % 5) {
    case 0:
      p->initial_mu = low[v % 6];
      return "initial_mu = " + std::to_string(p->initial_mu);
    case 1:
      p->sigma = low[v % 6];
      return "sigma = " + std::to_string(p->sigma);
    case 2:
      p->sigma = v % 2 ? 1 + 1e-15 : 2.0;
      return "sigma above 1";
    case 3:
      p->termination_kkt_tol = low[v % 6];
      return "termination_kkt_tol = " + std::to_string(p->termination_kkt_tol);
    default:
      p->max_iterations = v % 3 == 0 ? 0 : v % 3 == 1 ? -1 : std::numeric_limits<int>::min();
      return "max_iterations = " + std::to_string(p->max_iterations);
  }
}
}  // namespace

void GenC20Qp(Plan* plan, Rng& rng, bool thorough) {
  const bool ip = rng.chance(0.75);
  const int nq = rng.range(1, 3);
  for (int i = 0; i < nq; ++i) plan->items.push_back(GenQ(rng, i, ip, thorough));
  const int ops = rng.range(2, thorough ? 16 : 9);
  for (int k = 0; k < ops; ++k) {
    if (rng.chance(0.55)) {
      Item x("X");
      x.set("q", rng.range(0, nq - 1)).set("k", rng.range(0, 39)).set("v", rng.range(0, 5)).set("d", rng.range(0, 1));
      const double u = rng.u01();
      x.set("what", !ip ? "null" : u < 0.4 ? "setup" : u < 0.5 ? "ctor" : u < 0.8 ? "param" : u < 0.93 ? "vars" : u < 0.96 ? "nullptr" : "unset");
      if (rng.chance(0.15)) x.setu("oom", rng.below(6));
      plan->items.push_back(x);
      continue;
    }
    if (!ip) {
      plan->items.push_back(Item("N").set("q", rng.range(0, nq - 1)));
      continue;
    }
    Item u = GenU(rng, nq);
    if (rng.chance(0.5)) u.set("keep", 1).set("guess", 2);
    plan->items.push_back(u);
  }
}

void RunC20Qp(const Plan& plan) {
  std::vector<std::unique_ptr<QpInst>> qs;
  for (const Item& it : plan.items)
    if (it.type == "Q") qs.push_back(BuildQp(it));
  if (qs.empty()) return;
  std::vector<std::unique_ptr<QP>> broken;  // outlive the solvers, as a client's would
  QPInteriorPointSolver solver, twin;
  QPNullSpaceSolver ns, ns_twin;
  const QpInst* cur = nullptr;
  int invalid = 0, solves = 0;
  for (const Item& x : plan.items) {
    if (x.type == "N") {
      const QpInst& q = *qs[static_cast<size_t>(x.i("q", 0)) % qs.size()];
      if (q.K == 0) continue;
      IpOutcome a, b;
      QPNullSpaceTerminationState sa{}, sb{};
      Guard(&b, [&] { sb = ns_twin.Solve(q.qp); });
      Guard(&a, [&] { sa = ns.Solve(q.qp); });
      Count("solves");
      if (a.threw != b.threw || sa != sb || !SameBits(ns.variables(), ns_twin.variables()))
        Violation("effect", "null-space solve %d, %d rejected calls earlier, differs from the same solve without them", solves, invalid);
      ++solves;
      continue;
    }
    if (x.type == "U") {
      const bool held_ok = cur != nullptr && twin.variables().allFinite() && (std::as_const(twin).s_block().array() > 0.0).all() &&
                           (std::as_const(twin).z_block().array() > 0.0).all();
      const bool keep = x.i("keep", 0) != 0 && held_ok;
      const QpInst& q = keep ? *cur : *qs[static_cast<size_t>(x.i("q", 0)) % qs.size()];
      Item pu = x;
      if (!keep && x.i("guess", 0) == 2) pu.set("guess", 0);
      const QPInteriorPointSolver::Params P = IpParams(pu);
      IpOutcome a, b;
      Guard(&b, [&] {
        if (!keep) twin.Setup(&q.qp);
        b.out.emplace(twin.Solve(P));
      });
      Guard(&a, [&] {
        if (!keep) solver.Setup(&q.qp);
        a.out.emplace(solver.Solve(P));
      });
      cur = &q;
      a.vars = solver.variables();
      b.vars = twin.variables();
      Log("U %d threw %d digest %016lx", solves, a.threw, static_cast<unsigned long>(Digest(a)));
      Count("solves");
      std::string d = DiffFields(FlattenIp(a), FlattenIp(b));
      if (d.empty() && !SameBits(a.vars, b.vars)) d = "variables";
      if (!d.empty()) Violation("effect", "solve %d (%s), %d rejected calls earlier, differs from the same solve without them: %s", solves, keep ? "resumed" : "new set-up", invalid, d.c_str());
      if (invalid) {
        NonTrivial();
        Count("compared_after_rejection");
      }
      State(HashU(static_cast<uint64_t>(invalid) * 64 + static_cast<uint64_t>(solves) * 2 + keep, a.out ? a.out->iterations.size() : 0));
      ++solves;
      continue;
    }
    if (x.type != "X") continue;
    const QpInst& q = *qs[static_cast<size_t>(x.i("q", 0)) % qs.size()];
    const std::string what = x.s("what", "setup");
    std::string desc;
    const Vec before = solver.variables(), ns_before = ns.variables();
    broken.push_back(std::make_unique<QP>(q.qp));
    QP& bad = *broken.back();
    QPInteriorPointSolver::Params P = IpParams(x);
    IpOutcome r;
    std::function<void()> call;
    if (what == "setup" || what == "ctor") {
      desc = BreakQp(x, &bad);
      if (what == "setup")
        call = [&] { solver.Setup(&bad); };
      else
        call = [&] { QPInteriorPointSolver other(&bad); };
    } else if (what == "param") {
      if (!cur) continue;
      desc = BreakIpParams(x, &P);
      call = [&] { r.out.emplace(solver.Solve(P)); };
    } else if (what == "vars") {
      if (!cur) continue;
      const Eigen::Index m = before.rows() + (x.i("d", 0) ? 1 + x.i("v", 0) : -1 - x.i("v", 0));
      const Vec v = Vec::Ones(std::max<Eigen::Index>(0, m));
      if (v.rows() == before.rows()) continue;
      desc = "variables of the wrong length";
      call = [&solver, v] { solver.SetVariables(v); };
    } else if (what == "nullptr") {
      desc = "no problem";
      call = [&] { solver.Setup(nullptr); };
    } else if (what == "unset") {
      desc = "no set-up at all";
      call = [&] {
        QPInteriorPointSolver other;
        if (x.i("d", 0))
          r.out.emplace(other.Solve(P));
        else
          (void)other.problem();
      };
    } else {
      const uint64_t k = x.u("k", 0) % 9;
      if (k == 8 || (k != 0 && k != 1 && k != 7 && q.K == 0)) {
        bad.A_eq.resize(0, q.n);
        bad.b_eq.resize(0);
        desc = "no equality constraints";
      } else if (k == 4 || k == 5) {
        bad.b_eq = Vec::Ones(q.K + 1);
        desc = "more equality values than rows";
      } else {
        desc = BreakQp(x, &bad);
        if (x.u("k", 0) % 8 == 4 || x.u("k", 0) % 8 == 5) continue;  // this solver reads no inequalities
      }
      call = [&] { (void)ns.Solve(bad); };
    }
    Count(("fault.invalid." + what).c_str());
    if (x.has("oom")) {
      MemReset();
      g_memfault.armed = true;
      g_memfault.only_new = false;
      g_memfault.at = x.u("oom", 0);
      g_memfault.len = 1;
    }
    Guard(&r, call);
    g_memfault.armed = false;
    ++invalid;
    NonTrivial();
    Count("invalid_calls");
    Log("invalid %s (%s) threw %d", what.c_str(), desc.c_str(), r.threw);
    if (!r.threw) Violation("accepted", "%s with %s returned normally", what.c_str(), desc.c_str());
    if (!SameBits(before, solver.variables()) || !SameBits(ns_before, ns.variables()))
      Violation("variables", "rejected %s with %s changed the variables held", what.c_str(), desc.c_str());
    if (cur) {
      const QP* held = nullptr;
      IpOutcome h;
      Guard(&h, [&] { held = &solver.problem(); });
      if (held != &cur->qp) Violation("problem", "after a rejected %s with %s the solver is no longer set up with the problem it had", what.c_str(), desc.c_str());
    }
    MemCheckHeap();
  }
}
namespace {
}  // namespace

struct QpBox {
  std::unique_ptr<QpInst> q;
};
std::shared_ptr<QpBox> MakeQpBox(const Item& it) {
  auto b = std::make_shared<QpBox>();
  b->q = BuildQp(it);
  return b;
}
Item QpGenProblem(Rng& rng, int id, bool ip) { return GenQ(rng, id, ip, false); }
Item QpGenOp(Rng& rng, int nq) {
  Item u = GenU(rng, nq);
  u.type = "V";
  u.set("mi", rng.range(1, 6));
  if (rng.chance(0.3)) u.set("ns", 1);
  return u;
}
std::vector<Field> QpBoxSolve(const QpBox& b, const Item& u) {
  IpOutcome o;
  const QP& qp = b.q->qp;
  if (u.i("ns", 0) && b.q->K > 0) {
    QPNullSpaceSolver ns;
    QPNullSpaceTerminationState st = QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE;
    Guard(&o, [&] { st = ns.Solve(qp); });
    std::vector<Field> f = FlattenIp(o);
    f.push_back(Field{"null.state", 0, 0, static_cast<uint64_t>(st)});
    if (!o.threw && st == QPNullSpaceTerminationState::SUCCESS)
      for (int i = 0; i < ns.variables().rows(); ++i) {
        Field e{"null.x", i, 0, 0};
        memcpy(&e.bits, &ns.variables()[i], 8);
        f.push_back(e);
      }
    return f;
  }
  Item v = u;
  if (v.i("guess", 0) == 2) v.set("guess", 0);
  const QPInteriorPointSolver::Params P = IpParams(v);
  std::unique_ptr<QPInteriorPointSolver> s;
  Guard(&o, [&] {
    s = std::make_unique<QPInteriorPointSolver>(&qp);
    o.out.emplace(s->Solve(P));
    o.vars = s->variables();
  });
  LibScope ls;
  s.reset();
  LibDepth() = 0;
  return FlattenIp(o);
}

// ---------------------------------------------------------------- C11: a solve that is left alone succeeds
void GenC11Qp(Plan* plan, Rng& rng, bool thorough) {
  const int nq = rng.range(1, 3);
  for (int i = 0; i < nq; ++i) {
    Item q("Q");
    const int n = rng.range(1, thorough ? 7 : 5);
    q.set("id", i).set("n", n).setu("seed", rng.next() >> 20).setd("spread", rng.uni(0, 0.7));
    int K = 0;
    if (n > 1 && rng.chance(0.4)) q.set("K", K = rng.range(1, n - 1));
    if (rng.chance(0.85)) q.set("M", K ? rng.range(1, n - K) : rng.range(1, n + 2));
    if (rng.chance(0.3)) q.setd("cs", rng.log10uni(-1, 1));
    if (rng.chance(0.3)) q.set("lower", 1);
    plan->items.push_back(q);
  }
  const int ops = rng.range(0, thorough ? 8 : 4);
  for (int k = 0; k < ops; ++k) {
    Item u = GenU(rng, nq);
    if (rng.chance(0.2)) u.set("guess", 2).setu("warm", rng.next() >> 30);
    if (rng.chance(0.5)) u.setu("oom", rng.below(100000));
    if (rng.chance(0.15)) u.setu("edit", rng.next() >> 30);
    plan->items.push_back(u);
  }
  Item l("L");
  l.set("q", rng.range(0, nq - 1)).set("strat", rng.range(0, 1)).set("guess", rng.range(0, 1)).set("mi", 120);
  if (rng.chance(0.5)) l.setd("mu", rng.log10uni(-2, 1));
  if (rng.chance(0.5)) l.setd("sigma", rng.uni(0.05, 0.7));
  l.setd("tol", rng.log10uni(-9, -3)).setd("ctol", rng.log10uni(-9, -2));
  if (rng.chance(0.3)) l.set("initmu", 1);
  plan->items.push_back(l);
}
void RunC11Qp(const Plan& plan) {
  std::vector<std::unique_ptr<QpInst>> qs;
  for (const Item& it : plan.items)
    if (it.type == "Q") qs.push_back(BuildQp(it));
  if (qs.empty()) return;
  QPInteriorPointSolver solver;
  bool faults = false;
  for (const Item& u : plan.items) {
    if (u.type != "U" && u.type != "L") continue;
    QpInst& q = *qs[static_cast<size_t>(u.i("q", 0)) % qs.size()];
    if (u.has("edit")) EditQp(&q, u.u("edit", 1));
    const QPInteriorPointSolver::Params P = IpParams(u);
    IpOutcome r;
    Guard(&r, [&] {
      solver.Setup(&q.qp);
      if (u.has("warm")) solver.SetVariables(WarmStart(q, u.u("warm", 1), 1.0));
    });
    if (r.threw) Violation("qp-setup", "set-up of a valid problem threw %s", r.ex.c_str());
    if (u.type == "U") {
      MemReset();
      if (u.has("oom")) {
        g_memfault.armed = true;
        g_memfault.only_new = false;
        g_memfault.at = u.u("oom", 0) % 400;
        g_memfault.len = 1;
      }
      Guard(&r, [&] { r.out.emplace(solver.Solve(P)); });
      g_memfault.armed = false;
      if (g_memstats.fired_new + g_memstats.fired_malloc > 0) {
        faults = true;
        Count("fault.alloc");
      }
      if (r.out && r.out->termination_state != QPInteriorPointTerminationState::SATISFIED_KKT_TOL) Count("interrupted_solves");
      MemCheckHeap();
      continue;
    }
    Guard(&r, [&] { r.out.emplace(solver.Solve(P)); });
    // a start off the equalities together with bounds that compete with them may stall the method
    std::set<int> bounded;
    for (const auto& c : q.qp.constraints) bounded.insert(c.variable);
    if (q.K > 0 && (static_cast<int>(bounded.size()) < q.M || q.M + q.K > q.n)) {
      Count("undisturbed_unjudged");
      continue;
    }
    if (r.threw) Violation("qp-liveness", "an undisturbed solve of a well-posed problem threw %s", r.ex.c_str());
    Count("undisturbed_solves");
    if (faults || r.out->iterations.size() > 2) NonTrivial();
    State(HashU(static_cast<uint64_t>(q.n * 1000 + q.K * 100 + q.M * 10 + u.i("strat", 0)), HashU(r.out->iterations.size(), 77)));
    if (r.out->termination_state != QPInteriorPointTerminationState::SATISFIED_KKT_TOL) {
      const auto& e = r.out->iterations.back().kkt_final;
      Violation("qp-liveness", "an undisturbed solve of a well-posed problem (n %d, K %d, M %d, strategy %d, guess %d, sigma %g) did not succeed in %d iterations: r_dual %g r_comp %g r_primal_eq %g r_primal_ineq %g", q.n, q.K, q.M,
                static_cast<int>(u.i("strat", 0)), static_cast<int>(u.i("guess", 0)), P.sigma, P.max_iterations, e.r_dual, e.r_comp, e.r_primal_eq, e.r_primal_ineq);
    }
    Log("L state %d it %zu", static_cast<int>(r.out->termination_state), r.out->iterations.size());
  }
}

// ---------------------------------------------------------------- C14 and others
static void GenC14(Plan* plan, Rng& rng, bool thorough) { GenQpOps(plan, rng, thorough, false); }
static void RunC14(const Plan& plan) { RunQpOps(plan, false); }
void GenC22Qp(Plan* plan, Rng& rng, bool thorough) { GenQpOps(plan, rng, thorough, false, true); }
void RunC22Qp(const Plan& plan) { RunQpOps(plan, false); }
void GenC06Qp(Plan* plan, Rng& rng, bool thorough) { GenQpOps(plan, rng, thorough, true); }
void RunC06Qp(const Plan& plan) { RunQpOps(plan, true); }

// ---------------------------------------------------------------- C23: every iteration of the interior-point method
namespace {
struct IpState {
  Vec x, s, y, z;
  Vec all;
};
IpState Split(const QpInst& q, const Vec& v) {
  IpState r;
  r.all = v;
  r.x = v.head(q.n);
  r.s = v.segment(q.n, q.M);
  r.y = v.segment(q.n + q.M, q.K);
  r.z = v.tail(q.M);
  return r;
}
struct Kkt {
  Vec d, pe, pi, sz;
  double md = 0, mpe = 0, mpi = 0;  // size of the terms that cancel in each
  bool finite = true;
};
Kkt Residuals(const QpInst& q, const Mat& G, const IpState& v) {
  Kkt r;
  r.d = G * v.x + q.qp.c;
  r.md = (G.cwiseAbs() * v.x.cwiseAbs() + q.qp.c.cwiseAbs()).norm();
  r.pe.resize(q.K);
  if (q.K > 0) {
    r.d -= q.qp.A_eq.transpose() * v.y;
    r.md += (q.qp.A_eq.transpose().cwiseAbs() * v.y.cwiseAbs()).norm();
    r.pe = q.qp.A_eq * v.x + q.qp.b_eq;
    r.mpe = (q.qp.A_eq.cwiseAbs() * v.x.cwiseAbs() + q.qp.b_eq.cwiseAbs()).norm();
  }
  r.pi.resize(q.M);
  for (int i = 0; i < q.M; ++i) {
    const auto& c = q.qp.constraints[static_cast<size_t>(i)];
    r.d[c.variable] -= c.a * v.z[i];
    r.md += std::abs(c.a * v.z[i]);
    r.pi[i] = c.a * v.x[c.variable] + c.b - v.s[i];
    r.mpi += std::abs(c.a * v.x[c.variable]) + std::abs(c.b) + std::abs(v.s[i]);
  }
  r.sz = v.s.cwiseProduct(v.z);
  r.finite = v.all.allFinite() && std::isfinite(r.md) && r.sz.allFinite() && v.all.lpNorm<Eigen::Infinity>() < 1e100 && r.md < 1e100;
  return r;
}
// the log of one point: all four residuals with barrier value mu
void CheckLogged(const char* what, size_t k, const QpInst& q, const Kkt& r, double mu, const mini_opt::KKTError& e, double slack = 1) {
  if (!r.finite) return;
  const double tol = 1e-11 * slack;
  auto one = [&](const char* name, double rec, double now, double mag) {
    if (!(std::abs(rec - now) <= tol * (mag + std::abs(now)) + 1e-300))
      Violation("ip-log", "iteration %zu: %s %s recorded as %.17g, the variables give %.17g", k, what, name, rec, now);
  };
  one("r_dual", e.r_dual, r.d.norm(), r.md);
  one("r_primal_eq", e.r_primal_eq, r.pe.norm(), r.mpe);
  one("r_primal_ineq", e.r_primal_ineq, r.pi.norm(), r.mpi);
  if (q.M > 0) {
    // worked out in the library as a difference of squares
    const double rc = (r.sz.array() - mu).matrix().norm(), mag = std::max(std::abs(mu), r.sz.lpNorm<Eigen::Infinity>()) * std::sqrt(static_cast<double>(q.M));
    if (!(std::abs(e.r_comp - rc) <= 1e-7 * mag + 1e-150))
      Violation("ip-log", "iteration %zu: %s r_comp recorded as %.17g, the variables and the barrier value %.17g give %.17g", k, what, e.r_comp, mu, rc);
  } else if (e.r_comp != 0) {
    Violation("ip-log", "iteration %zu: %s r_comp is %g without inequalities", k, what, e.r_comp);
  }
}
using LMat = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using LVec = Eigen::Matrix<long double, Eigen::Dynamic, 1>;
struct Newton {
  bool ok = false;
  LMat inv;            // of the reduced system
  double rel = 0, ninv = 0, cond = 0;
  double einv = 0;     // what a factorization without off-diagonal pivots loses: grows with |A|^2 / |G|, not with the condition
};
Newton Factor(const QpInst& q, const Mat& G, const IpState& v) {
  Newton w;
  LMat H = LMat::Zero(q.n + q.K, q.n + q.K);
  H.topLeftCorner(q.n, q.n) = G.cast<long double>();
  if (q.K > 0) {
    H.bottomLeftCorner(q.K, q.n) = q.qp.A_eq.cast<long double>();
    H.topRightCorner(q.n, q.K) = q.qp.A_eq.transpose().cast<long double>();
  }
  for (int i = 0; i < q.M; ++i) {
    const auto& c = q.qp.constraints[static_cast<size_t>(i)];
    H(c.variable, c.variable) += static_cast<long double>(c.a) * c.a * v.z[i] / v.s[i];
  }
  const Vec sv = Eigen::JacobiSVD<Mat>(H.cast<double>()).singularValues();
  if (!(sv.minCoeff() > 0) || !std::isfinite(sv.maxCoeff())) return w;
  w.cond = sv.maxCoeff() / sv.minCoeff();
  if (!(w.cond < 1e6)) return w;
  w.ninv = 1 / sv.minCoeff();
  w.inv = H.fullPivLu().inverse();
  const Mat Hd = H.cast<double>();
  const Eigen::LDLT<Mat, Eigen::Lower> ldlt(Hd);
  if (ldlt.info() != Eigen::Success) return w;
  Mat id = Mat::Identity(q.n + q.K, q.n + q.K);
  ldlt.solveInPlace(id);
  w.einv = (id.cast<long double>() - w.inv).norm();
  // the same in other orders of elimination
  const Mat lu = Hd.partialPivLu().inverse();
  w.einv = std::max<double>(w.einv, (lu.cast<long double>() - w.inv).norm());
  if (!(w.einv * sv.minCoeff() < 1e-4)) return w;
  w.rel = 1e-14 * w.cond;
  w.ok = true;
  return w;
}
struct Step {
  Vec dx, ds, dy, dz;
  double ex = 0;    // round-off to allow in dx, dy
  Vec es, ez;       // in ds, dz
};
Step Direction(const QpInst& q, const Newton& w, const IpState& v, const Kkt& r, double mu, const Vec* corr) {
  Step o;
  LVec rhs(q.n + q.K);
  Vec mag(q.n + q.K);
  rhs.head(q.n) = -r.d.cast<long double>();
  rhs.tail(q.K) = -r.pe.cast<long double>();
  mag.head(q.n) = Vec::Constant(q.n, r.md);
  mag.tail(q.K) = Vec::Constant(q.K, r.mpe);
  Vec t(q.M);
  for (int i = 0; i < q.M; ++i) {
    const auto& c = q.qp.constraints[static_cast<size_t>(i)];
    t[i] = r.sz[i] + (corr ? (*corr)[i] : 0.0) - mu;
    rhs[c.variable] -= static_cast<long double>(c.a) * (static_cast<long double>(v.z[i]) / v.s[i] * r.pi[i] + static_cast<long double>(t[i]) / v.s[i]);
    const double inner = std::abs(c.a * v.x[c.variable]) + std::abs(c.b) + std::abs(v.s[i]);
    mag[c.variable] += std::abs(c.a) * (v.z[i] / v.s[i] * inner + (std::abs(r.sz[i]) + std::abs(corr ? (*corr)[i] : 0.0) + std::abs(mu)) / v.s[i]);
  }
  const LVec u = w.inv * rhs;
  o.dx = u.head(q.n).cast<double>();
  o.dy = -u.tail(q.K).cast<double>();
  o.ex = (4000 * w.rel * w.ninv + 300 * w.einv) * mag.norm();
  o.ds.resize(q.M);
  o.dz.resize(q.M);
  o.es.resize(q.M);
  o.ez.resize(q.M);
  for (int i = 0; i < q.M; ++i) {
    const auto& c = q.qp.constraints[static_cast<size_t>(i)];
    o.ds[i] = c.a * o.dx[c.variable] + r.pi[i];
    o.es[i] = std::abs(c.a) * o.ex + 1e-13 * (std::abs(c.a * v.x[c.variable]) + std::abs(c.b) + std::abs(v.s[i]) + std::abs(o.ds[i]));
    const double zs = v.z[i] / v.s[i];
    o.dz[i] = -zs * o.ds[i] - t[i] / v.s[i];
    o.ez[i] = 4 * zs * o.es[i] + 1e-13 * (std::abs(zs * o.ds[i]) + (r.sz[i] + std::abs(corr ? (*corr)[i] : 0.0) + std::abs(mu)) / v.s[i]);
  }
  return o;
}
// step length along d: lo and hi bound what round-off in d permits
bool StepLength(const Vec& val, const Vec& d, const Vec& err, double tau, double* lo, double* hi) {
  *lo = *hi = 1;
  for (Eigen::Index i = 0; i < val.rows(); ++i) {
    const double upd = val[i] + d[i];
    if (upd > err[i]) continue;
    if (upd > -err[i]) {  // either
      *lo = std::min(*lo, tau * (1 - 1e-9) * val[i] / (std::abs(d[i]) + err[i]));
      continue;
    }
    const double a = -tau * val[i] / d[i], rel = err[i] / std::abs(d[i]);
    if (rel > 0.1) return false;
    *lo = std::min(*lo, a * (1 - 2 * rel - 1e-6));
    *hi = std::min(*hi, a * (1 + 2 * rel + 1e-6));
  }
  return true;
}
bool SameLog(const QPInteriorPointSolverOutputs& a, const QPInteriorPointSolverOutputs& b, size_t n) {
  if (a.iterations.size() < n || b.iterations.size() < n) return false;
  for (size_t k = 0; k < n; ++k)
    if (memcmp(&a.iterations[k].kkt_initial, &b.iterations[k].kkt_initial, sizeof(mini_opt::KKTError)) != 0 ||
        memcmp(&a.iterations[k].kkt_final, &b.iterations[k].kkt_final, sizeof(mini_opt::KKTError)) != 0) {
      IpOutcome x, y;  // equal but for the bits of a NaN?
      x.out.emplace(a);
      y.out.emplace(b);
      x.out->iterations.resize(n);
      y.out->iterations.resize(n);
      x.out->termination_state = y.out->termination_state;
      x.out->lagrange_multipliers = y.out->lagrange_multipliers;
      return DiffFields(FlattenIp(x), FlattenIp(y)).empty();
    }
  return true;
}
}  // namespace

static void GenC23(Plan* plan, Rng& rng, bool thorough) {
  const int nq = rng.range(1, 2);
  for (int i = 0; i < nq; ++i) plan->items.push_back(GenQ(rng, i, true, thorough));
  const int ops = rng.range(1, 2);
  for (int k = 0; k < ops; ++k) {
    Item u = GenU(rng, nq);
    u.set("mi", rng.chance(0.7) ? rng.range(1, 8) : rng.range(8, thorough ? 40 : 25));
    if (rng.chance(0.3)) {
      u.set("guess", 2).setu("warm", rng.next() >> 30);
      if (rng.chance(0.4)) u.setd("wd", rng.log10uni(0, 3));
    }
    u.setu("ord", rng.next() >> 30);
    if (rng.chance(0.5)) u.set("oom", rng.range(1, 4));
    plan->items.push_back(u);
  }
}

static void RunC23(const Plan& plan) {
  std::vector<std::unique_ptr<QpInst>> qs;
  for (const Item& it : plan.items)
    if (it.type == "Q") qs.push_back(BuildQp(it));
  if (qs.empty()) return;
  QPInteriorPointSolver reused;
  for (const Item& u : plan.items) {
    if (u.type != "U") continue;
    QpInst& q = *qs[static_cast<size_t>(u.i("q", 0)) % qs.size()];
    Item pu = u;
    const bool warm = u.has("warm");
    if (!warm && u.i("guess", 0) == 2) pu.set("guess", 0);
    QPInteriorPointSolver::Params P = IpParams(pu);
    const Vec wv = warm ? WarmStart(q, u.u("warm", 1), u.d("wd", 1.0)) : Vec();
    auto solve = [&](QPInteriorPointSolver* s, int limit) {
      IpOutcome r;
      Guard(&r, [&] {
        s->Setup(&q.qp);
        if (warm) s->SetVariables(wv);
        QPInteriorPointSolver::Params p = P;
        p.max_iterations = limit;
        r.out.emplace(s->Solve(p));
      });
      r.vars = s->variables();
      return r;
    };
    QPInteriorPointSolver first;
    const IpOutcome full = solve(&first, P.max_iterations);
    size_t len = full.out ? full.out->iterations.size() : static_cast<size_t>(P.max_iterations);
    Count("solves");
    Log("full threw %d digest %016lx", full.threw, static_cast<unsigned long>(Digest(full)));
    if (full.out && (len == 0 || len > static_cast<size_t>(P.max_iterations))) Violation("ip-iterations", "%zu iterations, limit %d", len, P.max_iterations);
    // every shorter limit, in a seeded order, on one object
    std::vector<size_t> order;
    for (size_t k = 1; k <= len; ++k) order.push_back(k);
    Rng rng(u.u("ord", 1));
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
    std::vector<IpOutcome> stop(len + 1);
    for (size_t k : order) stop[k] = solve(&reused, static_cast<int>(k));
    size_t good = 0;
    while (good < len && !stop[good + 1].threw) ++good;
    for (size_t k = 1; k <= len; ++k) {
      const IpOutcome& r = stop[k];
      if (k > good) {
        if (!full.threw || !r.threw || r.ex != full.ex) Violation("ip-prefix", "limited to %zu iterations the solve threw '%s', to %zu '%s', to %d '%s'", good + 1, stop[good + 1].ex.c_str(), k, r.ex.c_str(), P.max_iterations, full.ex.c_str());
        continue;
      }
      const bool sat = r.out->termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL;
      if (r.out->iterations.size() != k && !full.threw) Violation("ip-prefix", "limited to %zu iterations the solve did %zu, with more allowed it did %zu", k, r.out->iterations.size(), len);
      const QPInteriorPointSolverOutputs& ref = full.out ? *full.out : *stop[good].out;
      if (!SameLog(*r.out, ref, k)) Violation("ip-prefix", "limited to %zu iterations the solve logs other iterations than with a limit of %d", k, P.max_iterations);
      if (k < len && sat && !full.threw) Violation("ip-prefix", "limited to %zu iterations the solve reports success, with more allowed it went on", k);
      if (k < good && sat) Violation("ip-prefix", "success after %zu iterations, but the longer solve went on", k);
    }
    if (full.out) {
      const std::string d = DiffFields(FlattenIp(stop[len]), FlattenIp(full));
      if (!d.empty()) Violation("ip-prefix", "limited to the %zu iterations it needs, the solve differs: %s", len, d.c_str());
    }
    Count("iterations_checked", good);
    if (good >= 2) NonTrivial();
    if (good == 0) continue;
    const QPInteriorPointSolverOutputs& o = full.out ? *full.out : *stop[good].out;
    // the point the first iteration starts from: given, or left behind by a solve that ran out of memory right after
    std::vector<Vec> v(good + 1);
    for (size_t k = 1; k <= good; ++k) v[k] = stop[k].vars;
    uint64_t total = 0, start_ord = 0;
    {
      QPInteriorPointSolver s;
      Guard(const_cast<IpOutcome*>(&stop[0]), [&] {
        s.Setup(&q.qp);
        if (warm) s.SetVariables(wv);
        QPInteriorPointSolver::Params p = P;
        p.max_iterations = static_cast<int>(good);
        MemReset();
        (void)s.Solve(p);
      });
      total = g_memstats.lib_malloc + g_memstats.lib_new;
    }
    auto aborted = [&](uint64_t ord, bool* threw) {
      QPInteriorPointSolver s;
      IpOutcome r;
      Guard(&r, [&] {
        s.Setup(&q.qp);
        s.SetVariables(warm ? wv : Vec::Constant(q.n + 2 * q.M + q.K, -1.0));  // a guess not made yet is recognised
        QPInteriorPointSolver::Params p = P;
        p.max_iterations = static_cast<int>(good);
        MemReset();
        g_memfault.armed = true;
        g_memfault.only_new = false;
        g_memfault.at = ord;
        g_memfault.len = 1;
        (void)s.Solve(p);
      });
      g_memfault.armed = false;
      *threw = r.threw;
      if (r.threw && r.ex != "bad_alloc") Violation("ip-abort", "allocation failure surfaced as %s", r.ex.c_str());
      return Vec(s.variables());
    };
    if (warm) v[0] = wv;
    bool found = warm;
    if (!found && q.M == 0 && P.initial_guess_method == mini_opt::InitialGuessMethod::NAIVE) {
      v[0] = Vec::Zero(q.n + q.K);
      found = true;
    }
    if (!found && q.M > 0)
      for (uint64_t ord = 0; ord < total && ord < 40; ++ord) {
        bool threw;
        const Vec a = aborted(ord, &threw);
        if (threw && (a.segment(q.n, q.M).array() > 0).all() && (a.tail(q.M).array() > 0).all()) {
          v[0] = a;
          found = true;
          start_ord = ord;
          break;
        }
      }
    if (found && !warm) Count("probe.initial_guess_seen");
    if (found && (warm || q.M > 0) && u.has("oom") && total > start_ord) {
      for (int64_t n = u.i("oom", 1); n > 0; --n) {
        bool threw;
        const Vec a = aborted(start_ord + rng.below(total - start_ord), &threw);
        bool known = false;
        for (const Vec& w : v) known = known || SameBits(w, a);
        if (!known) {
          bool nan = false;
          for (const Vec& w : v) nan = nan || !w.allFinite();
          if (!nan) Violation("ip-abort", "after an allocation failure the solver holds variables no number of whole iterations gives");
        }
        Count("fault.abort");
      }
    }
    // ---- each iteration against the reference step
    const Mat G = q.qp.G.selfadjointView<Eigen::Lower>();
    const bool pc = P.barrier_strategy == mini_opt::BarrierStrategy::PREDICTOR_CORRECTOR;
    double mu = P.initial_mu;
    bool mu_known = true;
    if (P.initialize_mu_with_complementarity) {
      mu_known = found || q.M == 0;
      mu = q.M == 0 ? 0 : found ? Split(q, v[0]).s.dot(Split(q, v[0]).z) / q.M : 0;
    }
    if (!mu_known && !pc) {
      mu = o.iterations[0].ip_outputs.mu;
      mu_known = true;
    }
    if (found && !warm && q.M > 0) {
      // automatic starts lie inside the bounds whenever there is a point inside
      const IpState s0 = Split(q, v[0]);
      for (int i = 0; i < q.M; ++i) {
        const auto& c = q.qp.constraints[static_cast<size_t>(i)];
        const double val = c.a * s0.x[c.variable] + c.b, mag = std::abs(c.a * s0.x[c.variable]) + std::abs(c.b);
        if (val < -1e-12 * mag) Violation("ip-start", "the initial guess violates inequality %d by %g", i, -val);
        if (std::abs(s0.s[i] - val) > 1e-8 + 1e-12 * mag) Violation("ip-start", "slack %d starts at %g, the constraint has %g", i, s0.s[i], val);
      }
    }
    for (size_t k = 0; k < good; ++k) {
      const auto& it = o.iterations[k];
      const auto& io = it.ip_outputs;
      const bool have = k > 0 || found;
      if (v[k + 1].size() == 0 || !v[k + 1].allFinite() || v[k + 1].lpNorm<Eigen::Infinity>() > 1e100) {
        Count("overflowed_solves");
        break;
      }
      const IpState b = Split(q, v[k + 1]);
      const Kkt rb = Residuals(q, G, b);
      if (!rb.finite) break;
      if (q.M > 0 && !((b.s.array() > 0).all() && (b.z.array() > 0).all())) {
        if (pc && k >= 8) break;  // C14 knows about multipliers that underflow
        Violation("ip-positivity", "a slack or multiplier is not positive after %zu iterations", k + 1);
      }
      if (mu_known && !(std::abs(mu) < 1e100)) break;
      if (mu_known && (!pc || q.M == 0) && !(std::abs(io.mu - mu) <= 1e-12 * std::abs(mu) + 1e-300))
        Violation("ip-barrier", "iteration %zu uses the barrier value %.17g, the parameters give %.17g", k, io.mu, mu);
      if (mu_known) CheckLogged("final", k, q, rb, mu, it.kkt_final);
      if (!(io.alpha.primal > 0 && io.alpha.primal <= 1 && io.alpha.dual > 0 && io.alpha.dual <= 1))
        Violation("ip-step", "iteration %zu: step lengths %g/%g", k, io.alpha.primal, io.alpha.dual);
      if (have) {
        const IpState a = Split(q, v[k]);
        const Kkt ra = Residuals(q, G, a);
        if (ra.finite && mu_known) CheckLogged("initial", k, q, ra, mu, it.kkt_initial);
        if (ra.finite) {
          const Newton w = Factor(q, G, a);
          if (w.ok && std::abs(io.mu) < 1e100) {
            Step d;
            Vec corr;
            bool judge = true;
            if (pc && q.M > 0) {
              const Step af = Direction(q, w, a, ra, 0.0, nullptr);
              corr = af.ds.cwiseProduct(af.dz);
              Vec ec = af.es.cwiseProduct(af.dz.cwiseAbs()) + af.ez.cwiseProduct(af.ds.cwiseAbs()) + af.es.cwiseProduct(af.ez);
              double lo, hi;
              if (StepLength(a.s, af.ds, af.es, 1.0, &lo, &hi) && !(io.alpha_probe.primal >= lo && io.alpha_probe.primal <= hi))
                Violation("ip-step", "iteration %zu: probing step length %.17g, expected %.17g to %.17g", k, io.alpha_probe.primal, lo, hi);
              if (StepLength(a.z, af.dz, af.ez, 1.0, &lo, &hi) && !(io.alpha_probe.dual >= lo && io.alpha_probe.dual <= hi))
                Violation("ip-step", "iteration %zu: probing dual step length %.17g, expected %.17g to %.17g", k, io.alpha_probe.dual, lo, hi);
              if (mu_known && mu > 1e-100) {
                // the barrier value is cut by the cube of the fraction of it that the probing step would leave
                const double ap = io.alpha_probe.primal, ad = io.alpha_probe.dual, M = q.M;
                const double want = std::max(0.0, mu + (ad * a.s.dot(af.dz) + ap * a.z.dot(af.ds) + ap * ad * af.ds.dot(af.dz)) / M);
                const double err = (ad * a.s.dot(af.ez) + ap * a.z.dot(af.es) + ap * ad * ec.sum()) / M +
                                   1e-12 * (mu + (ad * a.s.dot(af.dz.cwiseAbs()) + ap * a.z.dot(af.ds.cwiseAbs()) + ap * ad * af.ds.cwiseAbs().dot(af.dz.cwiseAbs())) / M);
                if (!(std::abs(io.mu_affine - want) <= err))
                  Violation("ip-barrier", "iteration %zu: mu_affine %.17g, the probing step gives %.17g (allowed error %g)", k, io.mu_affine, want, err);
                const double cut = mu * std::pow(io.mu_affine / mu, 3);
                if (!(std::abs(io.mu - cut) <= 1e-12 * cut + 1e-300))
                  Violation("ip-barrier", "iteration %zu uses the barrier value %.17g, expected %.17g", k, io.mu, cut);
                Count("probe.corrector_checked");
              }
              d = Direction(q, w, a, ra, io.mu, &corr);
              // what the uncertainty of the correction adds
              for (int i = 0; i < q.M; ++i) {
                const auto& c = q.qp.constraints[static_cast<size_t>(i)];
                d.ex += 2 * w.ninv * std::abs(c.a) * ec[i] / a.s[i];
              }
              for (int i = 0; i < q.M; ++i) {
                const auto& c = q.qp.constraints[static_cast<size_t>(i)];
                d.es[i] += std::abs(c.a) * d.ex;
                d.ez[i] += a.z[i] / a.s[i] * d.es[i] + 2 * ec[i] / a.s[i];
              }
            } else {
              d = Direction(q, w, a, ra, io.mu, nullptr);
            }
            if (judge) {
              Count("steps_checked");
              double lo, hi;
              if (q.M > 0) {
                if (StepLength(a.s, d.ds, d.es, 0.995, &lo, &hi) && !(io.alpha.primal >= lo && io.alpha.primal <= hi))
                  Violation("ip-step", "iteration %zu: primal step length %.17g, expected %.17g to %.17g", k, io.alpha.primal, lo, hi);
                if (StepLength(a.z, d.dz, d.ez, 0.995, &lo, &hi) && !(io.alpha.dual >= lo && io.alpha.dual <= hi))
                  Violation("ip-step", "iteration %zu: dual step length %.17g, expected %.17g to %.17g", k, io.alpha.dual, lo, hi);
              } else if (io.alpha.primal != 1 || io.alpha.dual != 1) {
                Violation("ip-step", "iteration %zu: step lengths %g/%g without inequalities", k, io.alpha.primal, io.alpha.dual);
              }
              auto moved = [&](const char* name, const Vec& from, const Vec& to, const Vec& dir, double alpha, const Vec& err) {
                for (Eigen::Index i = 0; i < from.rows(); ++i) {
                  const double want = from[i] + alpha * dir[i];
                  if (!(std::abs(to[i] - want) <= alpha * err[i] + 1e-14 * (std::abs(from[i]) + alpha * std::abs(dir[i]))))
                    Violation("ip-direction", "iteration %zu: %s[%ld] became %.17g, the Newton step gives %.17g (allowed error %g)", k, name, static_cast<long>(i), to[i], want, alpha * err[i]);
                }
              };
              moved("x", a.x, b.x, d.dx, io.alpha.primal, Vec::Constant(q.n, d.ex));
              moved("s", a.s, b.s, d.ds, io.alpha.primal, d.es);
              moved("y", a.y, b.y, d.dy, io.alpha.dual, Vec::Constant(q.K, d.ex));
              moved("z", a.z, b.z, d.dz, io.alpha.dual, d.ez);
            }
          } else {
            Count("ill_conditioned_steps");
          }
        }
      }
      // stop as soon as, and only when, both tolerances are met
      const double rec = std::max(std::max(it.kkt_final.r_dual, it.kkt_final.r_comp), std::max(it.kkt_final.r_primal_eq, it.kkt_final.r_primal_ineq));
      const double comp = q.M ? rb.sz.sum() / q.M : 0;
      if (k + 1 < good && rec < P.termination_kkt_tol && comp < P.termination_complementarity_tol * (1 - 1e-9))
        Violation("ip-late-stop", "both tolerances were met after %zu iterations, but the solve went on", k + 1);
      if (!std::isfinite(rec)) break;
      // the next barrier value
      if (mu_known) {
        if (P.decrease_mu_only_on_small_error && std::abs(rec - mu) <= 1e-12 * mu) break;
        if (rec <= mu || !P.decrease_mu_only_on_small_error)
          mu = P.barrier_strategy == mini_opt::BarrierStrategy::FIXED_DECREASE ? mu * P.sigma : P.sigma * comp;
      } else if (!P.decrease_mu_only_on_small_error) {
        mu = P.barrier_strategy == mini_opt::BarrierStrategy::FIXED_DECREASE ? mu * P.sigma : P.sigma * comp;
        mu_known = P.barrier_strategy != mini_opt::BarrierStrategy::FIXED_DECREASE;
      }
    }
    State(HashU(static_cast<uint64_t>(q.n * 1000 + q.K * 100 + q.M * 10 + u.i("strat", 0)), HashU(good, static_cast<uint64_t>(full.threw) * 2 + warm)));
  }
}

void RegisterQp(std::vector<PropDef>* t) {
  t->push_back({"C14", GenC14, RunC14});
  t->push_back({"C23", GenC23, RunC23});
}

}  // namespace sim
