// Residual world (C18): histories of accumulations into shared buffers. Each residual is asked for its Hessian,
// Jacobian or error in seeded order, while its function throws or returns non-finite values, allocations fail, and
// calls with unsuitable buffers are made in between; residuals are moved about. After every call all buffers are
// compared with a reference.
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>

#include "nls.hpp"
#include "worlds.hpp"

namespace sim {
namespace {
struct AState {
  int R = 1, P = 1;
  std::vector<int> idx;
  Mat W, Q;
  Vec t;
  // environment of the next call
  int abort = 0;  // 1 std exception, 2 other exception
  int bad = 0;    // 1 NaN, 2 infinity
  int where = 0, comp = 0;
  int spec = 0;  // an exceptional but finite response
  // observed
  int calls = 0;
  bool gotJ = false, shapeJ = true;
  Vec p, r;
  Mat J;
};

template <int R, int P>
struct AFn {
  std::shared_ptr<AState> st;
  Eigen::Matrix<double, R, 1> operator()(const Eigen::Matrix<double, P, 1>& p, Eigen::Matrix<double, R, P>* J) const {
    HarnessScope hs;
    AState& s = *st;
    s.calls++;
    s.p = p;
    s.gotJ = J != nullptr;
    if (s.abort == 1) {
      Count("fault.residual.throw");
      throw InjectedStd(s.comp);
    }
    if (s.abort == 2) {
      Count("fault.residual.throwpod");
      throw InjectedPod{s.comp, 0xABCDEF0123456789ull + static_cast<uint64_t>(s.comp)};
    }
    s.r = s.W * s.p + s.Q * s.p.cwiseProduct(s.p) - s.t;
    s.J = s.W;
    for (int j = 0; j < s.P; ++j) s.J.col(j) += 2 * s.p[j] * s.Q.col(j);
    const int pick = s.comp % s.P, line = s.comp % s.R;
    switch (s.spec) {
      case 1: s.r.setZero(); break;
      case 2: s.J.setZero(); break;
      case 3: s.J.col(pick).setZero(); break;
      case 4: s.r[line] = 0; break;
      case 5: s.r *= 1e100; s.J *= 1e100; break;
      case 6: s.r *= 1e-120; s.J *= 1e-120; break;
      case 7: s.J.col(pick) = s.J.col(0); break;
      case 8: s.J.row(line).setZero(); break;
      case 9: s.J.col(pick) *= -1e80; break;
      case 10: s.r = -s.r.cwiseAbs(); s.J = -s.J.cwiseAbs(); break;
      case 11: s.r.setOnes(); s.J.setOnes(); break;
      default: break;
    }
    if (s.spec) Count("responses.exceptional");
    if (s.bad) {
      const double v = s.bad == 1 ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
      if (s.where == 0)
        s.r[s.comp % s.R] = v;
      else
        s.J(s.comp % s.R, (s.comp / s.R) % s.P) = v;
      Count("fault.residual.nonfinite");
    }
    if (J) {
      s.shapeJ = J->rows() == s.R && J->cols() == s.P;
      if (!s.shapeJ) Violation("jacobian-shape", "the function got a %ld x %ld Jacobian for %d x %d", static_cast<long>(J->rows()), static_cast<long>(J->cols()), s.R, s.P);
      *J = s.J;
    }
    return Eigen::Matrix<double, R, 1>(s.r);
  }
};
template <int R, int P>
mini_opt::Residual Make(const std::shared_ptr<AState>& s, bool dynamic) {
  if (!dynamic) {
    std::array<int, static_cast<size_t>(P)> a{};
    for (size_t i = 0; i < static_cast<size_t>(P); ++i) a[i] = s->idx[i];
    return mini_opt::MakeResidual<R, P>(a, AFn<R, P>{s});
  }
  return mini_opt::MakeResidual<R, Eigen::Dynamic>(s->idx, AFn<R, Eigen::Dynamic>{s});
}
template <int R>
mini_opt::Residual MakeP(const std::shared_ptr<AState>& s, bool dynamic) {
  switch (s->P) {
    case 1: return Make<R, 1>(s, dynamic);
    case 2: return Make<R, 2>(s, dynamic);
    case 3: return Make<R, 3>(s, dynamic);
    case 4: return Make<R, 4>(s, dynamic);
    default: return Make<R, 1>(s, true);
  }
}
mini_opt::Residual MakeA(const std::shared_ptr<AState>& s, bool dynamic) {
  switch (s->R) {
    case 1: return MakeP<1>(s, dynamic);
    case 2: return MakeP<2>(s, dynamic);
    case 3: return MakeP<3>(s, dynamic);
    default: return MakeP<5>(s, dynamic);
  }
}

struct Buffers {
  Mat G, A;
  Vec c, b, e;
};
bool SameBits(const double* a, const double* b, long n) { return n == 0 || memcmp(a, b, sizeof(double) * static_cast<size_t>(n)) == 0; }
bool SameBuffers(const Buffers& a, const Buffers& b) {
  return SameBits(a.G.data(), b.G.data(), a.G.size()) && SameBits(a.A.data(), b.A.data(), a.A.size()) && SameBits(a.c.data(), b.c.data(), a.c.size()) &&
         SameBits(a.b.data(), b.b.data(), a.b.size()) && SameBits(a.e.data(), b.e.data(), a.e.size());
}
// `got` has to be `before` with `want` in place of touched entries
bool Near(double got, long double want, long double mag) {
  if (!std::isfinite(static_cast<double>(want))) return !std::isfinite(got);
  return std::fabs(static_cast<long double>(got) - want) <= 1e-13L * mag;
}

Vec RandomVec(Rng& rng, int n) {
  Vec v(n);
  for (int i = 0; i < n; ++i) v[i] = rng.chance(0.1) ? 0.0 : rng.uni(-3, 3) * (rng.chance(0.2) ? rng.log10uni(-6, 6) : 1.0);
  return v;
}

void GenC18(Plan* plan, Rng& rng, bool thorough) {
  const int n = rng.range(1, thorough ? 12 : 7);
  plan->items.push_back(Item("N").set("n", n).set("rows", rng.range(5, 12)).setu("seed", rng.next() >> 24));
  const int nr = rng.range(1, 5);
  for (int i = 0; i < nr; ++i) {
    Item r("R");
    const int R = rng.range(1, 4);
    const bool dup = rng.chance(0.3);
    const int P = dup ? rng.range(1, 5) : rng.range(1, std::min(n, 5));
    r.set("r", R == 4 ? 5 : R).set("p", P).setu("seed", rng.next() >> 24);
    if (dup) r.set("dup", 1);
    if (rng.chance(0.5)) r.set("dyn", 1);
    plan->items.push_back(r);
  }
  const int ops = rng.range(3, thorough ? 40 : 20);
  for (int k = 0; k < ops; ++k) {
    Item o("O");
    static const char* kinds[] = {"H", "J", "E", "Q", "M", "X"};
    const double u = rng.u01();
    const char* kind = kinds[u < 0.4 ? 0 : u < 0.65 ? 1 : u < 0.78 ? 2 : u < 0.85 ? 3 : u < 0.91 ? 4 : 5];
    o.set("k", kind).set("i", rng.range(0, nr - 1)).setu("seed", rng.next() >> 30);
    if (kind[0] == 'M') o.set("how", rng.range(0, 2));
    if (kind[0] == 'X') o.set("what", rng.range(0, 8));
    if (strchr("HJEQ", kind[0])) {
      if (rng.chance(0.15)) o.set("odd", rng.range(1, 2));
      if (rng.chance(0.12)) o.set("abort", rng.range(1, 2)).set("comp", rng.range(0, 100));
      else if (rng.chance(0.15)) o.set("bad", rng.range(1, 2)).set("where", rng.range(0, 1)).set("comp", rng.range(0, 20));
      else if (rng.chance(0.3)) o.set("spec", rng.range(1, 11)).set("comp", rng.range(0, 20));
      else if (rng.chance(0.2)) o.setu("oom", rng.below(1000));
    }
    plan->items.push_back(o);
  }
}

void RunC18(const Plan& plan) {
  int n = 3, rows = 6;
  uint64_t seed = 1;
  for (const Item& it : plan.items)
    if (it.type == "N") {
      n = std::max(1, static_cast<int>(it.i("n", 3)));
      rows = std::max(5, static_cast<int>(it.i("rows", 6)));
      seed = it.u("seed", 1);
    }
  std::vector<std::shared_ptr<AState>> st;
  std::vector<mini_opt::Residual> res;
  for (const Item& it : plan.items) {
    if (it.type != "R") continue;
    Rng rng(it.u("seed", 1));
    auto s = std::make_shared<AState>();
    s->R = static_cast<int>(it.i("r", 1));
    if (s->R != 1 && s->R != 2 && s->R != 3) s->R = 5;
    s->P = std::max(1, static_cast<int>(it.i("p", 1)));
    const bool dup = it.i("dup", 0) != 0;
    if (!dup) s->P = std::min(s->P, n);
    std::vector<int> all;
    for (int i = 0; i < n; ++i) all.push_back(i);
    for (int j = 0; j < s->P; ++j) {
      if (dup) {
        s->idx.push_back(static_cast<int>(rng.below(static_cast<uint64_t>(n))));
      } else {
        const size_t k = rng.below(all.size());
        s->idx.push_back(all[k]);
        all.erase(all.begin() + static_cast<long>(k));
      }
    }
    s->W.resize(s->R, s->P);
    s->Q = Mat::Zero(s->R, s->P);
    s->t.resize(s->R);
    for (int i = 0; i < s->R; ++i) {
      for (int j = 0; j < s->P; ++j) {
        s->W(i, j) = rng.uni(-2, 2);
        if (rng.chance(0.3)) s->Q(i, j) = rng.uni(-1, 1);
      }
      s->t[i] = rng.uni(-2, 2);
    }
    {
      LibScope ls;
      res.push_back(MakeA(s, it.i("dyn", 0) != 0));
    }
    if (res.back().Dimension() != s->R) Violation("dimension", "dimension %d reported for %d", res.back().Dimension(), s->R);
    st.push_back(s);
  }
  if (res.empty()) return;
  try {  // the unwinder allocates its tables when the first exception is thrown
    LibScope ls;
    throw InjectedStd(0);
  } catch (const std::exception&) {
  }
  LibDepth() = 0;
  Rng grng(seed);
  std::map<uint64_t, int> grown;
  Buffers B;
  B.G.resize(n, n);
  B.A.resize(rows, n);
  B.c = RandomVec(grng, n);
  B.b = RandomVec(grng, rows);
  B.e = RandomVec(grng, rows);
  for (int i = 0; i < n; ++i) B.G.col(i) = RandomVec(grng, n);
  for (int i = 0; i < n; ++i) B.A.col(i) = RandomVec(grng, rows);
  int op = 0;
  for (const Item& it : plan.items) {
    if (it.type != "O") continue;
    const size_t i = static_cast<size_t>(it.i("i", 0)) % res.size();
    AState& s = *st[i];
    Rng rng(it.u("seed", 1));
    Vec x = RandomVec(rng, n);
    const int odd = static_cast<int>(it.i("odd", 0));  // 1: only in variables the residual does not name, 2: anywhere
    if (odd) {
      static const double vals[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), -0.0, 1e-310, 1e300};
      for (int j = 0; j < n; ++j) {
        const bool mine = std::find(s.idx.begin(), s.idx.end(), j) != s.idx.end();
        const double v = vals[rng.below(6)];
        if (mine ? odd == 2 && rng.chance(0.4) : rng.chance(0.7)) x[j] = v;
      }
      Count("fault.variables.nonfinite");
    }
    const int row = static_cast<int>(rng.below(static_cast<uint64_t>(rows - s.R + 1)));
    const char k = it.s("k", "H")[0];
    const Buffers before = B;
    if (k == 'M') {
      // moved about: it has to act as before, and what is left behind has to be refused
      const int how = static_cast<int>(it.i("how", 0));
      LibScope ls;
      if (how == 0) {
        mini_opt::Residual tmp(std::move(res[i]));
        bool refused = false;
        try {
          (void)res[i].UpdateHessian(x, &B.G, &B.c);
        } catch (const assert::default_error&) {
          refused = true;
        }
        if (!refused) Violation("moved-from", "op %d: a moved-from residual was evaluated", op);
        res[i] = std::move(tmp);
      } else if (how == 1) {
        std::vector<mini_opt::Residual> other;
        for (auto& r : res) other.push_back(std::move(r));
        res = std::move(other);
      } else {
        const size_t j = static_cast<size_t>(rng.below(res.size()));
        std::swap(res[i], res[j]);
        std::swap(st[i], st[j]);
      }
      Count("moved");
      if (!SameBuffers(B, before)) Violation("rejected-call-wrote", "op %d: using a moved-from residual changed the buffers", op);
      ++op;
      continue;
    }
    if (k == 'X') {
      // unsuitable buffers or variables: refused, and nothing is touched
      const int what = static_cast<int>(it.i("what", 0)) % 9;
      const int top = *std::max_element(s.idx.begin(), s.idx.end());
      s.abort = s.bad = s.spec = 0;
      bool refused = false, made = true;
      {
        LibScope ls;
        Vec small = x.head(top);  // does not reach the last variable named
        Mat H2(n, n + 1);
        Vec c2(n + 1), e2(s.R + 1);
        e2.setZero();
        try {
          switch (what) {
            case 0: (void)res[i].UpdateHessian(small, &B.G, &B.c); break;
            case 1: res[i].UpdateJacobian(small, B.A.middleRows(row, s.R), B.b.segment(row, s.R)); break;
            case 2: res[i].ErrorVector(small, B.e.segment(row, s.R)); break;
            case 3: res[i].ErrorVector(x, e2.head(s.R + 1)); break;
            case 4: (void)res[i].UpdateHessian(x, &H2, &B.c); break;
            case 5: (void)res[i].UpdateHessian(x, &B.G, &c2); break;
            case 7: case 8: {  // buffers that do not reach the last variable named
              HarnessScope hs;
              Mat G3 = B.G.topLeftCorner(top, top), A3 = B.A.leftCols(top);
              Vec c3 = B.c.head(top), b3 = B.b;
              const Mat G4 = G3, A4 = A3;
              const Vec c4 = c3;
              try {
                LibScope ls2;
                if (what == 7) (void)res[i].UpdateHessian(x, &G3, &c3);
                else res[i].UpdateJacobian(x, A3.middleRows(row, s.R), b3.segment(row, s.R));
              } catch (const assert::default_error&) {
                refused = true;
              }
              if (!SameBits(G3.data(), G4.data(), G3.size()) || !SameBits(c3.data(), c4.data(), c3.size()) || !SameBits(A3.data(), A4.data(), A3.size()) || !SameBits(b3.data(), B.b.data(), b3.size()))
                Violation("rejected-call-wrote", "op %d: a refused call (%d) changed the buffers", op, what);
              break;
            }
            default:
              if (rows < s.R + 1) {
                made = false;
                break;
              }
              res[i].UpdateJacobian(x, B.A.middleRows(0, s.R + 1), B.b.segment(0, s.R + 1));
          }
        } catch (const assert::default_error&) {
          refused = true;
        }
      }
      if (made && !refused) Violation("not-rejected", "op %d: an unsuitable call (%d) was accepted", op, what);
      if (!SameBuffers(B, before)) Violation("rejected-call-wrote", "op %d: a refused call (%d) changed the buffers", op, what);
      Count("rejected_calls");
      ++op;
      continue;
    }
    s.abort = static_cast<int>(it.i("abort", 0));
    s.bad = static_cast<int>(it.i("bad", 0));
    s.spec = static_cast<int>(it.i("spec", 0));
    s.where = static_cast<int>(it.i("where", 0));
    s.comp = static_cast<int>(it.i("comp", 0));
    s.calls = 0;
    double ret = 0;
    auto call = [&](Buffers* o) {
      switch (k) {
        case 'H': ret = res[i].UpdateHessian(x, &o->G, &o->c); break;
        case 'J': res[i].UpdateJacobian(x, o->A.middleRows(row, s.R), o->b.segment(row, s.R)); break;
        case 'E': res[i].ErrorVector(x, o->e.segment(row, s.R)); break;
        default: ret = res[i].QuadraticError(x);
      }
    };
    uint64_t total = 0;
    const bool oom = it.has("oom");
    if (oom) {
      Buffers copy = B;
      MemReset();
      {
        LibScope ls;
        call(&copy);
      }
      total = g_memstats.lib_malloc + g_memstats.lib_new;
      s.calls = 0;
    }
    int threw = 0;  // 1 std, 2 pod, 3 bad_alloc, 4 other
    int id = -1;
    if (oom && total) {
      MemReset();
      g_memfault.armed = true;
      g_memfault.only_new = false;
      g_memfault.at = it.u("oom", 0) % total;
      g_memfault.len = 1;
    }
    const uint64_t live = LibLiveBlocks();
    try {
      LibScope ls;
      call(&B);
    } catch (const InjectedStd& e) {
      threw = 1;
      id = e.id;
    } catch (const InjectedPod& e) {
      threw = e.tag == 0xABCDEF0123456789ull + static_cast<uint64_t>(e.id) ? 2 : 4;
      id = e.id;
    } catch (const std::bad_alloc&) {
      threw = 3;
    } catch (...) {
      threw = 4;
    }
    LibDepth() = 0;
    g_memfault.armed = false;
    const bool fired = oom && total && g_memstats.fired_new + g_memstats.fired_malloc > 0;
    if (fired) Count("fault.alloc");
    // storage may be kept for later calls, but the very same call must not take more each time
    if (LibLiveBlocks() > live && ++grown[static_cast<uint64_t>(i) * 1024 + static_cast<uint64_t>(k) * 8 + static_cast<uint64_t>(threw)] > 1) {
      const int calls = s.calls;
      const Vec given = s.p;
      const double value = ret;
      int more = 0;
      for (int rep = 0; rep < 4; ++rep) {
        Buffers copy = before;
        const uint64_t at = LibLiveBlocks();
        s.calls = 0;
        if (fired) {
          MemReset();
          g_memfault.armed = true;
          g_memfault.only_new = false;
          g_memfault.at = it.u("oom", 0) % total;
          g_memfault.len = 1;
        }
        try {
          LibScope ls;
          call(&copy);
        } catch (...) {
        }
        LibDepth() = 0;
        g_memfault.armed = false;
        more += LibLiveBlocks() > at;
      }
      s.calls = calls;
      s.p = given;
      ret = value;
      if (more == 4) Violation("leak", "op %d (%c): memory is left allocated by each such call", op, k);
    }
    Log("op %d %c i %zu threw %d", op, k, i, threw);
    if (s.abort && (threw != s.abort || id != s.comp)) Violation("exception-lost", "op %d (%c): the function's exception arrived as kind %d", op, k, threw);
    if (!s.abort && threw && !(threw == 3 && fired)) Violation("unexpected-exception", "op %d (%c): exception of kind %d", op, k, threw);
    if (threw) {
      if (!SameBuffers(B, before)) Violation("aborted-call-wrote", "op %d (%c): a call that threw changed the buffers", op, k);
      Count("aborted_calls");
      NonTrivial();
      State(HashU(static_cast<uint64_t>(k) * 8 + static_cast<uint64_t>(threw), 11));
      ++op;
      continue;
    }
    // what the function was given
    if (s.calls != 1) Violation("function-calls", "op %d (%c): the function was called %d times", op, k, s.calls);
    if (s.p.rows() != s.P) Violation("arguments", "op %d: the function got %ld values for %d", op, static_cast<long>(s.p.rows()), s.P);
    for (int j = 0; j < s.P; ++j)
      if (B.c.rows() && memcmp(&s.p[j], &x[s.idx[static_cast<size_t>(j)]], sizeof(double)) != 0)
        Violation("arguments", "op %d: argument %d is %.17g, variable %d is %.17g", op, j, s.p[j], s.idx[static_cast<size_t>(j)], x[s.idx[static_cast<size_t>(j)]]);
    // what became of the buffers
    Buffers want = before;
    if (k == 'H') {
      Eigen::Matrix<long double, -1, -1> D(n, n), M(n, n);
      Eigen::Matrix<long double, -1, 1> d(n), m(n);
      D.setZero();
      M.setZero();
      d.setZero();
      m.setZero();
      std::vector<char> named(static_cast<size_t>(n), 0);
      for (int a = 0; a < s.P; ++a) {
        const int ga = s.idx[static_cast<size_t>(a)];
        named[static_cast<size_t>(ga)] = 1;
        for (int q = 0; q < s.R; ++q) {
          d[ga] += static_cast<long double>(s.J(q, a)) * s.r[q];
          m[ga] += std::fabs(static_cast<long double>(s.J(q, a)) * s.r[q]);
          for (int b = 0; b < s.P; ++b) {
            const long double v = static_cast<long double>(s.J(q, a)) * s.J(q, b);
            D(ga, s.idx[static_cast<size_t>(b)]) += v;
            M(ga, s.idx[static_cast<size_t>(b)]) += std::fabs(v);
          }
        }
      }
      for (int a = 0; a < n; ++a)
        for (int b = 0; b <= a; ++b) {
          if (!named[static_cast<size_t>(a)] || !named[static_cast<size_t>(b)]) continue;
          if (!Near(B.G(a, b), before.G(a, b) + D(a, b), std::fabs(static_cast<long double>(before.G(a, b))) + M(a, b)))
            Violation("hessian", "op %d: entry (%d, %d) went from %.17g to %.17g, the contribution is %.17Lg", op, a, b, before.G(a, b), B.G(a, b), D(a, b));
          want.G(a, b) = B.G(a, b);
        }
      for (int a = 0; a < n; ++a) {
        if (!named[static_cast<size_t>(a)]) continue;
        if (!Near(B.c[a], before.c[a] + d[a], std::fabs(static_cast<long double>(before.c[a])) + m[a]))
          Violation("gradient", "op %d: entry %d went from %.17g to %.17g, the contribution is %.17Lg", op, a, before.c[a], B.c[a], d[a]);
        want.c[a] = B.c[a];
      }
      Count("probe.hessian");
    } else if (k == 'J') {
      Mat D = Mat::Zero(s.R, n), M = Mat::Zero(s.R, n);
      std::vector<int> named(static_cast<size_t>(n), 0);
      for (int a = 0; a < s.P; ++a) {
        const int g = s.idx[static_cast<size_t>(a)];
        D.col(g) += s.J.col(a);
        M.col(g) += s.J.col(a).cwiseAbs();
        if (named[static_cast<size_t>(g)]++) Count("probe.named_twice");
      }
      for (int a = 0; a < n; ++a) {
        if (!named[static_cast<size_t>(a)]) continue;
        for (int q = 0; q < s.R; ++q) {
          if (!Near(B.A(row + q, a), D(q, a), named[static_cast<size_t>(a)] > 1 ? M(q, a) : 0.0L))
            Violation("jacobian", "op %d: entry (%d, %d) is %.17g, the function returned %.17g", op, row + q, a, B.A(row + q, a), D(q, a));
          want.A(row + q, a) = B.A(row + q, a);
        }
      }
      want.b.segment(row, s.R) = s.r;
      for (int q = 0; q < s.R; ++q)
        if (s.r[q] != s.r[q] && B.b[row + q] != B.b[row + q]) want.b[row + q] = B.b[row + q];
      Count("probe.jacobian");
    } else if (k == 'E') {
      want.e.segment(row, s.R) = s.r;
      for (int q = 0; q < s.R; ++q)
        if (s.r[q] != s.r[q] && B.e[row + q] != B.e[row + q]) want.e[row + q] = B.e[row + q];
      Count("probe.error");
    }
    if (k == 'H' || k == 'Q') {
      long double f = 0;
      for (int q = 0; q < s.R; ++q) f += 0.5L * s.r[q] * s.r[q];
      if (!Near(ret, f, f)) Violation("error-value", "op %d (%c): %.17g returned, the residual gives %.17Lg", op, k, ret, f);
    }
    if (!SameBuffers(B, want)) Violation("wrote-elsewhere", "op %d (%c): entries that are not the residual's changed, or its error is not what the function returned", op, k);
    if (op > 0) NonTrivial();
    State(HashU(static_cast<uint64_t>(k) * 64 + static_cast<uint64_t>(s.R * 8 + s.P), HashU(static_cast<uint64_t>(s.bad + 4 * s.spec), 5)));
    // non-finite values would hide what later calls do
    if (s.bad || odd) {
      for (Mat* z : {&B.G, &B.A})
        for (int j = 0; j < z->size(); ++j)
          if (!std::isfinite(z->data()[j])) z->data()[j] = 0.5;
      for (Vec* z : {&B.c, &B.b, &B.e})
        for (int j = 0; j < z->size(); ++j)
          if (!std::isfinite((*z)[j])) (*z)[j] = 0.5;
    }
    MemCheckHeap();
    ++op;
  }
  {
    LibScope ls;
    res.clear();
  }
}
}  // namespace

void RegisterAccum(std::vector<PropDef>* t) { t->push_back({"C18", GenC18, RunC18}); }
}  // namespace sim
