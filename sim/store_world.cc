// Storage world: results of (faulty) solves go through JSON text on a simulated disk and come back (C16);
// the stored text is damaged the way disks and crashes damage files, then read (C17).
#include <cmath>
#include <limits>
#include <sstream>

#include <nlohmann/json.hpp>

#include "mini_opt/serialization.hpp"
#include "worlds.hpp"

namespace sim {
using json = nlohmann::json;

namespace {
// ---------------------------------------------------------------- simulated disk
// A file written by a client that handles short writes, interrupted calls and a full disk by retrying.
struct SimFile {
  std::string data;
};
struct DiskFaults {
  int chunk = 0;       // client buffer size, 0 = whole document
  int short_every = 0; // every n-th write only stores a part
  int eintr_every = 0; // every n-th write fails before storing anything
  int full_at = -1;    // the disk is full once when this many bytes are stored, then frees up
};
struct SimDisk {
  DiskFaults f;
  uint64_t calls = 0;
  bool was_full = false;
  // returns bytes stored or -1 (retry) or -2 (no space: the client truncates and starts over)
  long Write(SimFile* file, const char* p, size_t n) {
    ++calls;
    if (f.eintr_every && calls % static_cast<uint64_t>(f.eintr_every) == 0) {
      Count("fault.disk.eintr");
      return -1;
    }
    if (f.full_at >= 0 && !was_full && file->data.size() + n > static_cast<size_t>(f.full_at)) {
      was_full = true;
      const size_t k = static_cast<size_t>(f.full_at) > file->data.size() ? static_cast<size_t>(f.full_at) - file->data.size() : 0;
      file->data.append(p, std::min(k, n));
      Count("fault.disk.full");
      return -2;
    }
    size_t k = n;
    if (f.short_every && calls % static_cast<uint64_t>(f.short_every) == 0 && n > 1) {
      k = 1 + n / 3;
      Count("fault.disk.short_write");
    }
    file->data.append(p, k);
    return static_cast<long>(k);
  }
};
void Store(SimDisk* d, SimFile* file, const std::string& text) {
  size_t pos = 0;
  file->data.clear();
  while (pos < text.size()) {
    const size_t want = d->f.chunk > 0 ? std::min(text.size() - pos, static_cast<size_t>(d->f.chunk)) : text.size() - pos;
    const long k = d->Write(file, text.data() + pos, want);
    if (k == -1) continue;
    if (k == -2) {
      file->data.clear();
      pos = 0;
      continue;
    }
    pos += static_cast<size_t>(k);
  }
}

// ---------------------------------------------------------------- results to store
double OddValue(Rng& rng) {
  switch (rng.range(0, 13)) {
    case 0: return std::numeric_limits<double>::quiet_NaN();
    case 1: return std::numeric_limits<double>::infinity();
    case 2: return -std::numeric_limits<double>::infinity();
    case 3: return -0.0;
    case 4: return std::numeric_limits<double>::denorm_min();
    case 5: return -std::numeric_limits<double>::min();
    case 6: return std::numeric_limits<double>::max();
    case 7: return std::numeric_limits<double>::lowest();
    case 8: return 1.0 + std::numeric_limits<double>::epsilon();
    case 9: return 0.1 + 0.2;
    case 10: return 9007199254740993.0;
    case 11: return 123456789012345680000.0;
    default: {
      uint64_t b = rng.next();
      double d;
      memcpy(&d, &b, 8);
      return d;
    }
  }
}
// Replaces some numbers of a real result by values other solves might produce.
void Decorate(NLSSolverOutputs* o, Rng& rng, int count) {
  for (int c = 0; c < count; ++c) {
    if (o->iterations.empty()) return;
    NLSIteration& it = o->iterations[rng.below(o->iterations.size())];
    auto* qp = std::get_if<mini_opt::QPInteriorPointSolverOutputs>(&it.qp_outputs);
    switch (rng.range(0, 14)) {
      case 0: it.lambda = OddValue(rng); break;
      case 1: it.errors_initial.f = OddValue(rng); break;
      case 2: it.errors_initial.equality = OddValue(rng); break;
      case 3: it.directional_derivatives.d_f = OddValue(rng); break;
      case 4: it.directional_derivatives.d_equality = OddValue(rng); break;
      case 5: it.penalty = OddValue(rng); break;
      case 6:
        if (!it.line_search_steps.empty()) {
          auto& s = it.line_search_steps[rng.below(it.line_search_steps.size())];
          (rng.chance(0.3) ? s.alpha : rng.chance(0.5) ? s.errors.f : s.errors.equality) = OddValue(rng);
        } else {
          it.line_search_steps.push_back({OddValue(rng), {OddValue(rng), OddValue(rng)}});
        }
        break;
      case 7: it.qp_eigenvalues = mini_opt::QPEigenvalues{OddValue(rng), OddValue(rng), OddValue(rng)}; break;
      case 8: it.iteration = rng.chance(0.5) ? std::numeric_limits<int>::max() : static_cast<int>(rng.next()); break;
      case 9: it.step_result = static_cast<StepSizeSelectionResult>(rng.range(0, 5)); break;
      case 10: o->termination_state = static_cast<NLSTerminationState>(rng.range(0, 6)); break;
      case 11:
        it.optimizer_state = static_cast<mini_opt::OptimizerState>(rng.range(0, 1));
        if (!qp) it.qp_outputs = static_cast<mini_opt::QPNullSpaceTerminationState>(rng.range(0, 1));
        break;
      case 12:
        if (!qp) {
          mini_opt::QPInteriorPointSolverOutputs q;
          q.termination_state = static_cast<mini_opt::QPInteriorPointTerminationState>(rng.range(0, 1));
          it.qp_outputs = q;
          break;
        }
        if (rng.chance(0.3)) {
          if (rng.chance(0.5))
            qp->lagrange_multipliers = mini_opt::QPLagrangeMultipliers{OddValue(rng), OddValue(rng)};
          else
            qp->lagrange_multipliers.reset();
        } else if (!qp->iterations.empty()) {
          auto& q = qp->iterations[rng.below(qp->iterations.size())];
          double* f[] = {&q.kkt_initial.r_dual, &q.kkt_initial.r_comp, &q.kkt_initial.r_primal_eq, &q.kkt_initial.r_primal_ineq,
                         &q.kkt_final.r_dual, &q.kkt_final.r_comp, &q.kkt_final.r_primal_eq, &q.kkt_final.r_primal_ineq,
                         &q.ip_outputs.mu, &q.ip_outputs.alpha.primal, &q.ip_outputs.alpha.dual, &q.ip_outputs.alpha_probe.primal,
                         &q.ip_outputs.alpha_probe.dual, &q.ip_outputs.mu_affine};
          // one field, or an iteration as the predictor-corrector strategy would leave it
          if (rng.chance(0.5)) *f[rng.below(sizeof f / sizeof f[0])] = OddValue(rng);
          else for (double* d : f) *d = rng.chance(0.1) ? OddValue(rng) : rng.uni(0, 1);
        }
        break;
      case 13: {  // a long line search
        const int more = rng.range(1, 30);
        for (int q = 0; q < more; ++q) it.line_search_steps.push_back({rng.u01(), {rng.chance(0.1) ? OddValue(rng) : rng.uni(-10, 10), rng.uni(0, 10)}});
        break;
      }
      case 14:
        if (qp) {
          const int more = rng.range(1, 6);
          for (int q = 0; q < more && !qp->iterations.empty(); ++q) {
            mini_opt::QPInteriorPointIteration copy = qp->iterations[rng.below(qp->iterations.size())];
            copy.kkt_initial = copy.kkt_final;
            copy.ip_outputs.mu *= rng.u01();
            copy.ip_outputs.mu_affine = copy.ip_outputs.mu * rng.u01();
            copy.ip_outputs.alpha_probe.primal = rng.u01();
            copy.ip_outputs.alpha_probe.dual = rng.u01();
            qp->iterations.push_back(copy);
          }
        }
        break;
    }
  }
}

bool Encode(const NLSSolverOutputs& o, int indent, std::string* text) {
  LibScope ls;
  const json j = o;
  *text = j.dump(indent);
  return true;
}

std::vector<Field> FlattenOut(const NLSSolverOutputs& o) {
  SolveRec r;
  r.out.emplace(o);
  return Flatten(r);
}

void GenStoreSolves(Plan* plan, Rng& rng, bool thorough, int runs) {
  plan->items.push_back(GenAnyProblem(rng, 0, 4));
  for (int k = 0; k < runs; ++k) {
    Item r = GenAnySolve(rng, 0);
    if (rng.chance(0.6)) r.set("mi", rng.range(1, thorough ? 12 : 6));
    if (rng.chance(0.1)) r.set("cancel", rng.range(0, 3));
    if (rng.chance(0.3)) r.set("deco", rng.range(1, 6)).setu("ds", rng.next() >> 30);
    plan->items.push_back(r);
  }
  for (int k = 0; k < runs; ++k) {
    if (rng.chance(0.4)) continue;
    static const std::vector<std::string> kinds = {"nan", "inf", "ninf", "huge", "perturb", "scale", "zero", "negJ"};
    static const std::vector<std::string> sites = {"eval", "trial", "trial", "lin"};
    const int n = rng.range(1, 2);
    for (int q = 0; q < n; ++q) {
      Item f("F");
      const std::string kind = rng.pick(kinds);
      f.set("r", k).set("site", rng.pick(sites)).set("kind", kind).set("pos", rng.range(0, 20)).set("comp", rng.range(0, 4)).set("id", q + 1);
      if (rng.chance(0.4)) f.set("len", rng.range(2, 20));
      if (rng.chance(0.3)) f.set("where", 1);
      if (kind == "perturb" || kind == "scale") f.setd("mag", rng.log10uni(-3, 3));
      plan->items.push_back(f);
    }
  }
}

std::vector<NLSSolverOutputs> ProduceResults(const Plan& plan) {
  std::vector<NLSSolverOutputs> v;
  World w(plan);
  int k = 0;
  for (const Item& it : plan.items) {
    if (it.type != "R") continue;
    Inst* inst = w.inst(static_cast<int>(it.i("s", 0)));
    SolveRec r = MakeRec(inst, it);
    r.faults = FaultsOf(plan, k++);
    r.record = false;
    Solver s;
    MakeSolver(&s, inst, r.has_cb);
    RunSolve(&s, &r);
    DestroySolver(&s);
    if (!r.out) continue;
    if (it.i("deco", 0)) {
      Rng rng(it.u("ds", 1));
      Decorate(&*r.out, rng, static_cast<int>(it.i("deco", 0)));
      Count("decorated_results");
    }
    State(OutcomeShape(r));
    v.push_back(*r.out);
  }
  return v;
}

// ---------------------------------------------------------------- C16
void GenC16(Plan* plan, Rng& rng, bool thorough) {
  GenStoreSolves(plan, rng, thorough, rng.range(1, 3));
  Item s("S");
  if (rng.chance(0.7)) s.set("chunk", rng.range(1, 400));
  if (rng.chance(0.4)) s.set("short", rng.range(2, 6));
  if (rng.chance(0.4)) s.set("eintr", rng.range(2, 6));
  if (rng.chance(0.3)) s.set("full", rng.range(0, 3000));
  s.set("indent", rng.chance(0.7) ? -1 : rng.range(0, 4)).set("how", rng.range(0, 2));
  plan->items.push_back(s);
}
void RunC16(const Plan& plan) {
  const std::vector<NLSSolverOutputs> res = ProduceResults(plan);
  Item s("S");
  for (const Item& it : plan.items)
    if (it.type == "S") s = it;
  for (const NLSSolverOutputs& o : res) {
    std::string text;
    try {
      Encode(o, static_cast<int>(s.i("indent", -1)), &text);
    } catch (const std::exception& e) {
      LibDepth() = 0;
      Violation("store-encode", "storing a result failed: %s", e.what());
    }
    SimDisk d;
    d.f.chunk = static_cast<int>(s.i("chunk", 0));
    d.f.short_every = static_cast<int>(s.i("short", 0));
    d.f.eintr_every = static_cast<int>(s.i("eintr", 0));
    if (d.f.eintr_every == 1) d.f.eintr_every = 2;
    d.f.full_at = static_cast<int>(s.i("full", -1));
    SimFile file;
    Store(&d, &file, text);
    Log("stored %zu bytes %016lx", file.data.size(), static_cast<unsigned long>(Hash(file.data.data(), file.data.size())));
    std::optional<NLSSolverOutputs> back;
    try {
      LibScope ls;
      json j;
      switch (s.i("how", 0) % 3) {
        case 0: j = json::parse(file.data); break;
        case 1: {
          std::istringstream in(file.data);
          in >> j;
          break;
        }
        case 2: j = json::parse(file.data.begin(), file.data.end()); break;
      }
      back.emplace(j.get<NLSSolverOutputs>());
    } catch (const std::exception& e) {
      LibDepth() = 0;
      Violation("store-decode", "a stored result cannot be read back: %s", e.what());
    }
    const std::vector<Field> a = FlattenOut(o), b = FlattenOut(*back);
    const std::string diff = DiffFields(b, a);
    if (!diff.empty()) Violation("store-changed", "read back %s stored", diff.c_str());
    std::string again;
    Encode(*back, static_cast<int>(s.i("indent", -1)), &again);
    if (again != text) Violation("store-unstable", "storing the result that was read back gives different text");
    Count("round_trips");
    bool odd = false;
    for (const Field& f : a) {
      double v;
      memcpy(&v, &f.bits, 8);
      (void)v;
    }
    for (auto& it : o.iterations) odd = odd || !std::isfinite(it.errors_initial.f) || !std::isfinite(it.lambda) || !std::isfinite(it.directional_derivatives.d_f);
    if (odd) Count("records_with_nonfinite");
    if (!o.iterations.empty()) NonTrivial();
  }
}

// ---------------------------------------------------------------- C21: text summaries
void GenC21(Plan* plan, Rng& rng, bool thorough) {
  GenStoreSolves(plan, rng, thorough, rng.range(1, 3));
  const int n = rng.range(1, 4);
  for (int k = 0; k < n; ++k) {
    Item t("T");
    t.set("color", rng.range(0, 1)).set("qp", rng.range(0, 1));
    if (rng.chance(0.5)) t.setu("oom", rng.below(100000)).set("len", rng.chance(0.7) ? 1 : rng.range(2, 50));
    plan->items.push_back(t);
  }
}
struct Want {
  bool word = false, any = false;
  std::string w;
  double v = 0, tol = 0;
  const char* what = "";
};
struct Wants {
  std::vector<Want> v;
  void Num(const char* what, double x, double tol = 0) {
    Want w;
    w.v = x;
    w.tol = tol;
    w.what = what;
    v.push_back(w);
  }
  void Any(const char* what) {
    Want w;
    w.any = true;
    w.what = what;
    v.push_back(w);
  }
  void Word(const char* what, std::string s) {
    Want w;
    w.word = true;
    w.w = std::move(s);
    w.what = what;
    v.push_back(w);
  }
};
const char* const kStepNames[] = {"SUCCESS", "MAX_ITERATIONS", "FIRST_ORDER_SATISFIED", "POSITIVE_DERIVATIVE", "FAILURE_NON_FINITE_COST", "FAILURE_INVALID_ALPHA"};
const char* const kTermNames[] = {"MAX_ITERATIONS", "SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL", "MAX_LAMBDA", "QP_INDEFINITE", "USER_CALLBACK"};
const char* const kOtherNames[] = {"NOMINAL", "ATTEMPTING_RESTORE_LM", "SATISFIED_KKT_TOL", "NOT_POSITIVE_DEFINITE"};
void WantTotal(Wants* w, const mini_opt::Errors& e, double penalty) {
  const double pe = penalty * e.equality, t = e.f + pe;
  if (std::isfinite(e.f) && std::isfinite(pe) && std::isfinite(t))
    w->Num("total", t, 1e-15 * (std::abs(e.f) + std::abs(pe)) + 1e-320);
  else
    w->Any("total");
}
void WantKkt(Wants* w, const char* what, const mini_opt::KKTError& e) {
  const double v[] = {e.r_dual, e.r_comp, e.r_primal_eq, e.r_primal_ineq};
  double m = v[0];
  for (double d : v) {
    if (d != d) {
      w->Any(what);
      return;
    }
    m = std::max(m, d);
  }
  w->Num(what, m);
}
void WantIteration(Wants* w, const NLSIteration& it, bool qp) {
  w->Num("iteration", it.iteration);
  w->Word("optimizer state", kOtherNames[static_cast<int>(it.optimizer_state)]);
  w->Num("lambda", it.lambda);
  w->Num("index", 0);
  w->Num("f", it.errors_initial.f);
  w->Num("index", 0);
  w->Num("equality", it.errors_initial.equality);
  WantTotal(w, it.errors_initial, it.penalty);
  if (it.qp_eigenvalues) {
    w->Num("eigenvalue min", it.qp_eigenvalues->min);
    w->Num("eigenvalue max", it.qp_eigenvalues->max);
    w->Num("eigenvalue abs min", it.qp_eigenvalues->abs_min);
  }
  w->Num("penalty", it.penalty, 1.1e-16);
  const auto* ip = std::get_if<mini_opt::QPInteriorPointSolverOutputs>(&it.qp_outputs);
  if (ip) {
    w->Word("QP state", ip->termination_state == mini_opt::QPInteriorPointTerminationState::SATISFIED_KKT_TOL ? "SATISFIED_KKT_TOL" : "MAX_ITERATIONS");
    w->Num("QP iterations", static_cast<double>(ip->iterations.size()));
  } else {
    w->Word("QP state", std::get<mini_opt::QPNullSpaceTerminationState>(it.qp_outputs) == mini_opt::QPNullSpaceTerminationState::SUCCESS ? "SUCCESS" : "NOT_POSITIVE_DEFINITE");
  }
  w->Num("df", it.directional_derivatives.d_f);
  w->Num("dc", it.directional_derivatives.d_equality);
  w->Word("search result", kStepNames[static_cast<int>(it.step_result)]);
  for (size_t i = 0; i < it.line_search_steps.size(); ++i) {
    const auto& s = it.line_search_steps[i];
    w->Num("index", static_cast<double>(i));
    w->Num("trial f", s.errors.f);
    w->Num("index", static_cast<double>(i));
    w->Num("trial equality", s.errors.equality);
    WantTotal(w, s.errors, it.penalty);
    w->Num("alpha", s.alpha, 0.51e-10);
  }
  if (ip && qp)
    for (const auto& q : ip->iterations) {
      WantKkt(w, "kkt max before", q.kkt_initial);
      WantKkt(w, "kkt max after", q.kkt_final);
      w->Num("mu", q.ip_outputs.mu);
      w->Num("alpha primal", q.ip_outputs.alpha.primal);
      w->Num("alpha dual", q.ip_outputs.alpha.dual);
      if (!std::isnan(q.ip_outputs.mu_affine)) {
        w->Num("probe primal", q.ip_outputs.alpha_probe.primal);
        w->Num("probe dual", q.ip_outputs.alpha_probe.dual);
        w->Num("mu affine", q.ip_outputs.mu_affine);
      }
      w->Num("r_dual before", q.kkt_initial.r_dual);
      w->Num("r_dual after", q.kkt_final.r_dual);
      w->Num("r_comp before", q.kkt_initial.r_comp);
      w->Num("r_comp after", q.kkt_final.r_comp);
      w->Num("r_p_eq before", q.kkt_initial.r_primal_eq);
      w->Num("r_p_eq after", q.kkt_final.r_primal_eq);
      w->Num("r_p_ineq before", q.kkt_initial.r_primal_ineq);
      w->Num("r_p_ineq after", q.kkt_final.r_primal_ineq);
    }
}
bool IsStateName(const std::string& s) {
  for (auto* n : kStepNames)
    if (s == n) return true;
  for (auto* n : kTermNames)
    if (s == n) return true;
  for (auto* n : kOtherNames)
    if (s == n) return true;
  return false;
}
// Removes colour codes; colours is what they were.
std::string StripColour(const std::string& t, std::vector<std::string>* colours) {
  std::string r;
  for (size_t i = 0; i < t.size(); ++i) {
    if (t[i] == '\033') {
      const size_t e = t.find('m', i);
      if (e == std::string::npos || t[i + 1] != '[') Violation("text-colour", "a colour code is not complete");
      colours->push_back(t.substr(i + 2, e - i - 2));
      i = e;
      continue;
    }
    r += t[i];
  }
  return r;
}
void CheckText(const std::string& plain, const Wants& w) {
  size_t next = 0;
  size_t i = 0;
  while (i <= plain.size()) {
    size_t e = i;
    while (e < plain.size() && !strchr(" ,()=:\n\t", plain[e])) ++e;
    const std::string tok = plain.substr(i, e - i);
    i = e + 1;
    if (tok.empty()) continue;
    const bool word = IsStateName(tok);
    char* end = nullptr;
    const double v = strtod(tok.c_str(), &end);
    const bool num = !word && end && *end == 0 && (isdigit(static_cast<unsigned char>(tok.back())) || tok.find("nan") != std::string::npos || tok.find("inf") != std::string::npos || tok.back() == '.');
    if (!word && !num) continue;
    if (next >= w.v.size()) Violation("text-extra", "the text holds \"%s\" after everything the record holds", tok.c_str());
    const Want& x = w.v[next++];
    if (x.any && num) continue;
    if (x.word) {
      if (!word || tok != x.w) Violation("text-state", "%s is %s, the text says %s", x.what, x.w.c_str(), tok.c_str());
      continue;
    }
    const bool same = num && (v == x.v || (v != v && x.v != x.v) || std::abs(v - x.v) <= x.tol);
    if (!same) Violation("text-value", "%s is %.17g, the text says %s", x.what, x.v, tok.c_str());
  }
  if (next != w.v.size()) Violation("text-missing", "%s is not in the text", w.v[next].what);
}
void RunC21(const Plan& plan) {
  const std::vector<NLSSolverOutputs> res = ProduceResults(plan);
  for (const NLSSolverOutputs& o : res) {
    const std::vector<Field> bits = FlattenOut(o);
    for (const Item& t : plan.items) {
      if (t.type != "T") continue;
      const bool colour = t.i("color", 0) != 0, qp = t.i("qp", 0) != 0;
      std::string text;
      MemReset();
      {
        LibScope ls;
        text = o.ToString(colour, qp);
      }
      const uint64_t total = g_memstats.lib_malloc + g_memstats.lib_new;
      Log("text %zu bytes %016lx", text.size(), static_cast<unsigned long>(Hash(text.data(), text.size())));
      Wants w;
      std::string joined;
      for (const auto& it : o.iterations) {
        WantIteration(&w, it, qp);
        LibScope ls;
        joined += it.ToString(colour, qp);
      }
      w.Word("termination", kTermNames[static_cast<int>(o.termination_state)]);
      if (text.compare(0, joined.size(), joined) != 0) Violation("text-parts", "the text of the result does not start with the texts of its iterations");
      std::vector<std::string> colours;
      const std::string plain = StripColour(text, &colours);
      if (!colour && !colours.empty()) Violation("text-colour", "colour codes in a text without colours");
      CheckText(plain, w);
      if (colour) {
        std::string without;
        {
          LibScope ls;
          without = o.ToString(false, qp);
        }
        if (without != plain) Violation("text-colour", "the text with colours says something else");
        // one colour and one reset for each iteration and for the stopping reason; green is success and nothing else
        if (colours.size() != 2 * o.iterations.size() + 2) Violation("text-colour", "%zu colour codes for %zu iterations", colours.size(), o.iterations.size());
        for (size_t k = 0; k < colours.size(); k += 2) {
          const size_t i = k / 2;
          const bool ok = i < o.iterations.size() ? o.iterations[i].step_result == StepSizeSelectionResult::SUCCESS
                                                  : o.termination_state == NLSTerminationState::SATISFIED_ABSOLUTE_TOL ||
                                                        o.termination_state == NLSTerminationState::SATISFIED_RELATIVE_TOL ||
                                                        o.termination_state == NLSTerminationState::SATISFIED_FIRST_ORDER_TOL;
          if ((colours[k] == "38;5;112") != ok) Violation("text-colour", "item %zu is coloured %s", i, colours[k].c_str());
          if (colours[k + 1] != "0") Violation("text-colour", "item %zu is not reset", i);
        }
      }
      Count("texts");
      if (t.has("oom") && total) {
        MemReset();
        MemSnapshot();
        g_memfault.armed = true;
        g_memfault.only_new = false;
        g_memfault.at = t.u("oom", 0) % total;
        g_memfault.len = static_cast<uint64_t>(t.i("len", 1));
        bool threw = false, other = false;
        {
          std::string cut;
          try {
            LibScope ls;
            cut = o.ToString(colour, qp);
          } catch (const std::bad_alloc&) {
            threw = true;
          } catch (...) {
            other = true;
          }
          LibDepth() = 0;
          g_memfault.armed = false;
          if (other) Violation("text-abort", "running out of memory surfaced as something else than std::bad_alloc");
          if (!threw && cut != text) Violation("text-abort", "a text made while memory ran out is not the record's text");
        }
        if (g_memstats.fired_new + g_memstats.fired_malloc > 0) {
          Count("fault.alloc.text");
          std::string again;
          {
            LibScope ls;
            again = o.ToString(colour, qp);
          }
          if (again != text) Violation("text-abort", "after a text that ran out of memory the record's text is another");
        }
      }
      if (!DiffFields(FlattenOut(o), bits).empty()) Violation("text-changed-record", "making the text changed the record");
      NonTrivial();
    }
  }
}

// ---------------------------------------------------------------- C17
void GenC17(Plan* plan, Rng& rng, bool thorough) {
  GenStoreSolves(plan, rng, thorough, rng.range(1, 2));
  plan->items.push_back(Item("S").set("indent", rng.chance(0.8) ? -1 : 2));
  const int n = rng.range(3, thorough ? 40 : 20);
  static const std::vector<std::string> kinds = {"trunc", "zero", "stale", "lose", "dup", "flip", "byte", "swap", "digit",
                                                 "rmkey", "rmkey", "rmkey", "null", "null", "settype", "settype", "settype", "enum", "enum",
                                                 "int", "rmelem", "dupelem", "rename", "case"};
  for (int k = 0; k < n; ++k) {
    Item d("D");
    d.set("k", rng.pick(kinds)).setu("at", rng.next() >> 34).setu("n", rng.next() >> 40);
    if (rng.chance(0.15)) d.set("more", 1);  // applied on top of the previous damage
    plan->items.push_back(d);
  }
}

std::string Escaped(const std::string& key) {  // as a JSON pointer token
  std::string r;
  for (char c : key) {
    if (c == '~')
      r += "~0";
    else if (c == '/')
      r += "~1";
    else
      r += c;
  }
  return r;
}
void CollectPaths(const json& j, const std::string& path, std::vector<std::string>* objs, std::vector<std::string>* leaves, std::vector<std::string>* arrays) {
  if (j.is_object()) {
    for (auto it = j.begin(); it != j.end(); ++it) {
      const std::string sub = path + "/" + Escaped(it.key());
      objs->push_back(sub);
      CollectPaths(it.value(), sub, objs, leaves, arrays);
    }
  } else if (j.is_array()) {
    if (!j.empty()) arrays->push_back(path);
    for (size_t i = 0; i < j.size(); ++i) CollectPaths(j[i], path + "/" + std::to_string(i), objs, leaves, arrays);
  } else {
    leaves->push_back(path);
  }
}
const char* const kWords[] = {"SUCCES", "success", "", "UNKNOWN", "MAX_ITERATIONSX", "NOMINAL ", "SATISFIED_TOL", "MAX-LAMBDA", "0", "null", "NaN", "Infinity"};
json OtherType(uint64_t n) {
  switch (n % 10) {
    case 0: return json(nullptr);
    case 1: return json(true);
    case 2: return json(false);
    case 3: return json("1.5");
    case 4: return json(1.5);
    case 5: return json(-3);
    case 6: return json(3000000000ull);
    case 7: return json::array();
    case 8: return json::object();
    default: return json(1e300);
  }
}

// damages one document; text is the current content, other an older or neighbouring document
void Damage(const Item& d, std::string* text, const std::string& other) {
  const std::string k = d.s("k", "trunc");
  const uint64_t at = d.u("at", 0), n = d.u("n", 0);
  const size_t len = text->size();
  if (len == 0) return;
  Count(("fault.store." + k).c_str());
  auto seg = [&](size_t* a, size_t* b) {
    *a = at % len;
    const size_t span = 1 + (n % 5 == 0 ? n / 5 % len : n / 5 % std::min<size_t>(len, 64));
    *b = std::min(len, *a + span);
  };
  size_t a, b;
  seg(&a, &b);
  if (k == "trunc") {
    text->resize(a);
  } else if (k == "zero") {
    for (size_t i = a; i < b; ++i) (*text)[i] = '\0';
  } else if (k == "stale") {  // new data up to a, the older file's bytes behind it
    *text = text->substr(0, a) + (other.size() > a ? other.substr(a) : std::string());
  } else if (k == "lose") {
    text->erase(a, b - a);
  } else if (k == "dup") {
    text->insert(b, text->substr(a, b - a));
  } else if (k == "flip") {
    (*text)[a] = static_cast<char>((*text)[a] ^ (1 << (n % 8)));
  } else if (k == "byte") {
    static const char pool[] = "0123456789.-+eE\"{}[]:, \\nulltrueX\x80";
    (*text)[a] = pool[n % (sizeof pool - 1)];
  } else if (k == "digit") {  // overwrite a digit by something a number may hold
    static const char pool[] = "0123456789.e-";
    for (size_t i = 0; i < len; ++i) {
      const size_t p = (a + i) % len;
      if ((*text)[p] >= '0' && (*text)[p] <= '9') {
        (*text)[p] = pool[n % (sizeof pool - 1)];
        break;
      }
    }
  } else if (k == "swap") {
    const size_t c = n % len;
    std::swap((*text)[a], (*text)[c]);
  } else if (k == "case") {
    for (size_t i = 0; i < len; ++i) {
      const size_t p = (a + i) % len;
      if (((*text)[p] >= 'A' && (*text)[p] <= 'Z') || ((*text)[p] >= 'a' && (*text)[p] <= 'z')) {
        (*text)[p] = static_cast<char>((*text)[p] ^ 32);
        break;
      }
    }
  } else {
    json j = json::parse(*text, nullptr, false);
    if (j.is_discarded()) return;
    std::vector<std::string> objs, leaves, arrays;
    CollectPaths(j, "", &objs, &leaves, &arrays);
    auto pick = [&](const std::vector<std::string>& v) { return json::json_pointer(v[at % v.size()]); };
    if (k == "rmkey" && !objs.empty()) {
      const auto p = pick(objs);
      json& parent = j[p.parent_pointer()];
      if (parent.is_object()) parent.erase(p.back());
    } else if (k == "rename" && !objs.empty()) {
      const auto p = pick(objs);
      json& parent = j[p.parent_pointer()];
      if (parent.is_object()) {
        std::string key = p.back();
        json v = parent[key];
        parent.erase(key);
        key[n % key.size()] = static_cast<char>(key[n % key.size()] ^ (1 << (n / 7 % 3)));
        parent[key] = v;
      }
    } else if (k == "null" && !objs.empty()) {
      j[pick(objs)] = nullptr;
    } else if (k == "settype") {
      const std::vector<std::string>& v = (n & 1) && !leaves.empty() ? leaves : objs;
      if (!v.empty()) j[pick(v)] = OtherType(n / 2);
    } else if (k == "enum") {
      std::vector<std::string> strs;
      for (const std::string& l : leaves)
        if (j[json::json_pointer(l)].is_string()) strs.push_back(l);
      if (!strs.empty()) {
        json& v = j[pick(strs)];
        std::string s = v.get<std::string>();
        if (n % 3 == 0 && !s.empty())
          s.resize(n / 3 % s.size());
        else if (n % 3 == 1 && !s.empty())
          s[n / 3 % s.size()] ^= 1;
        else
          s = kWords[n / 3 % (sizeof kWords / sizeof kWords[0])];
        v = s;
      }
    } else if (k == "int") {
      std::vector<std::string> ints;
      for (const std::string& l : leaves)
        if (j[json::json_pointer(l)].is_number_integer()) ints.push_back(l);
      if (!ints.empty()) {
        json& v = j[pick(ints)];
        switch (n % 7) {
          case 0: v = 1.5; break;
          case 1: v = 4294967296ll + 7; break;
          case 2: v = 18446744073709551615ull; break;
          case 3: v = -9223372036854775807ll; break;
          case 4: v = true; break;
          case 5: v = "7"; break;
          case 6: v = 2147483648ll; break;
        }
      }
    } else if ((k == "rmelem" || k == "dupelem") && !arrays.empty()) {
      json& v = j[pick(arrays)];
      if (v.is_array() && !v.empty()) {
        const size_t i = n % v.size();
        if (k == "rmelem")
          v.erase(v.begin() + static_cast<long>(i));
        else
          v.push_back(v[i]);
      }
    }
    *text = j.dump();
  }
}

// Every value of the decoded result's own stored form must be stated by the text.
std::string Disagree(const json& got, const json& said, const std::string& path) {
  if (got.is_object()) {
    if (!said.is_object()) return path + ": the text has no object here";
    for (auto it = got.begin(); it != got.end(); ++it) {
      auto f = said.find(it.key());
      if (f == said.end()) return path + "/" + it.key() + ": missing in the text, but read as " + it.value().dump().substr(0, 60);
      const std::string d = Disagree(it.value(), *f, path + "/" + it.key());
      if (!d.empty()) return d;
    }
    return "";
  }
  if (got.is_array()) {
    if (!said.is_array() || said.size() != got.size()) return path + ": array sizes differ";
    for (size_t i = 0; i < got.size(); ++i) {
      const std::string d = Disagree(got[i], said[i], path + "/" + std::to_string(i));
      if (!d.empty()) return d;
    }
    return "";
  }
  const std::string g = got.dump(), s = said.dump();
  if (got.is_number() && said.is_number()) {
    if (got.is_number_float()) {
      const double a = got.get<double>();
      const double b = said.get<double>();
      if (a == b || (a != a && b != b)) return "";
    } else if (got == said) {
      return "";
    }
  } else if (got.type() == said.type() && got == said) {
    return "";
  }
  return path + ": the text says " + s.substr(0, 60) + ", read as " + g.substr(0, 60);
}

void RunC17(const Plan& plan) {
  std::vector<NLSSolverOutputs> res = ProduceResults(plan);
  if (res.empty()) return;
  int indent = -1;
  for (const Item& it : plan.items)
    if (it.type == "S") indent = static_cast<int>(it.i("indent", -1));
  std::vector<std::string> texts;
  for (const NLSSolverOutputs& o : res) {
    std::string t;
    Encode(o, indent, &t);
    texts.push_back(t);
  }
  // an older, shorter record of the same solve
  {
    NLSSolverOutputs o = res[0];
    if (o.iterations.size() > 1) o.iterations.pop_back();
    std::string t;
    Encode(o, indent, &t);
    texts.push_back(t);
  }
  std::string cur = texts[0];
  int k = 0;
  for (const Item& d : plan.items) {
    if (d.type != "D") continue;
    if (!d.i("more", 0)) cur = texts[static_cast<size_t>(k) % (texts.size() - 1)];
    Damage(d, &cur, texts[(static_cast<size_t>(k) + 1) % texts.size()]);
    ++k;
    // read it the way a client does
    std::optional<NLSSolverOutputs> back;
    std::string what;
    json said;
    try {
      LibScope ls;
      said = json::parse(cur);
      back.emplace(said.get<NLSSolverOutputs>());
    } catch (const std::exception& e) {
      LibDepth() = 0;
      what = e.what();
    } catch (...) {
      LibDepth() = 0;
      Violation("damaged-exception", "damage %d (%s): something that is not a std::exception was thrown", k, d.s("k", "").c_str());
    }
    Log("damage %d %s -> %s", k, d.s("k", "").c_str(), back ? "read" : "rejected");
    if (!back) {
      Count(said.is_discarded() || said.is_null() ? "rejected.text" : "rejected.content");
      NonTrivial();
      State(HashU(Hash(d.s("k", "").data(), d.s("k", "").size()), Hash(what.data(), std::min<size_t>(what.size(), 40))));
      continue;
    }
    Count("accepted");
    std::string again;
    json got;
    try {
      LibScope ls;
      got = json::parse(json(*back).dump());
    } catch (const std::exception& e) {
      LibDepth() = 0;
      Violation("damaged-reencode", "damage %d (%s): the result read cannot be stored again: %s", k, d.s("k", "").c_str(), e.what());
    }
    const std::string dis = Disagree(got, said, "");
    if (!dis.empty()) Violation("damaged-misread", "damage %d (%s) was read without complaint but differently: %s", k, d.s("k", "").c_str(), dis.c_str());
    NonTrivial();
  }
}
}  // namespace

void RegisterStore(std::vector<PropDef>* t) {
  t->push_back({"C16", GenC16, RunC16});
  t->push_back({"C21", GenC21, RunC21});
  t->push_back({"C17", GenC17, RunC17});
}
}  // namespace sim
