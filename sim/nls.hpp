// Nonlinear least-squares world: problem families, callback environment with fault injection,
// recorded solve histories, and outcome digests.
#pragma once
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include <Eigen/Core>

#include "core.hpp"
#include "mini_opt/nonlinear.hpp"

namespace sim {
using mini_opt::ConstrainedNonlinearLeastSquares;
using mini_opt::NLSIteration;
using mini_opt::NLSSolverOutputs;
using mini_opt::NLSTerminationState;
using mini_opt::StepSizeSelectionResult;
using Params = ConstrainedNonlinearLeastSquares::Params;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;

enum ModelType {
  M_LIN, M_ROSEN, M_HIMMEL, M_CIRCLE, M_EXPFIT, M_LOG, M_SQRT, M_TWOLINK, M_PROD, M_WAVY, M_ATAN,
  M_CUBIC, M_POW, M_ZERO
};
struct ResSpec {
  ModelType type = M_LIN;
  int R = 1, P = 1;
  bool dynamic = false;         // use the Eigen::Dynamic parameter path
  std::vector<int> idx;
  std::vector<double> c;        // model coefficients
};
// r: R values, J: column-major R x P or null
void EvalModel(const ResSpec& s, const double* p, double* r, double* J);

struct Inst {
  int id = 0;
  std::string fam;
  int n = 0;
  std::vector<std::shared_ptr<ResSpec>> costs, eqs;
  mini_opt::Problem problem{};
  int retr = 0;                 // 0 none, 1 additive, 2 additive with angle wrapping
  Vec xref;                     // a point satisfying boxes and (linear / chosen) equalities
  bool linear = false;          // all residuals linear
  bool polynomial = true;       // no saturating or domain-limited models
  double start_scale = 1.0;
  bool whole = false;  // data and starts in multiples of a quarter
  int eq_rows() const {
    int k = 0;
    for (auto& e : eqs) k += e->R;
    return k;
  }
  bool HasIneq() const { return !problem.inequality_constraints.empty(); }
  bool Feasible(const Vec& x, double tol) const;
};

// Builds a problem from a plan item: "P id= fam= n= seed= eq= box= ..."
std::unique_ptr<Inst> BuildInst(const Item& it);
mini_opt::Residual MakeRes(Inst* inst, const std::shared_ptr<ResSpec>& spec);
Vec MakeStart(const Inst& inst, uint64_t seed, bool feasible, double scale);
void ClipToBoxes(const Inst& inst, Vec* x);

struct InjectedStd : std::runtime_error {
  int id;
  explicit InjectedStd(int i) : std::runtime_error("injected " + std::to_string(i)), id(i) {}
};
struct InjectedPod {
  int id;
  uint64_t tag;
};

struct FaultSpec {
  std::string site;   // eval, lin (J evaluations), trial (plain evaluations), retr, cb
  std::string kind;   // throw, throwpod, nan, inf, ninf, huge, scale, perturb, negJ, zero, stall
  uint64_t pos = 0;   // ordinal at that site within the solve
  uint64_t len = 1;
  int comp = 0;       // component selector
  int where = 0;      // 0 residual, 1 jacobian
  double mag = 1.0;
  int id = 0;
};

struct Ev {
  enum T { EVAL, RETR, CB } t = EVAL;
  const ResSpec* spec = nullptr;
  bool is_eq = false;
  bool hasJ = false;
  bool faulted = false;
  std::vector<double> p, r, J;   // EVAL
  Vec x_in, dx, x_out;           // RETR; CB: x_in = variables() snapshot
  double alpha = 0;
  int rec_index = -1;            // CB: index into SolveRec::cb_records
  bool cb_ret = true;
};

struct Solver;
struct SolveRec {
  Inst* inst = nullptr;
  Params params;
  Vec start;
  bool has_cb = true;
  int cancel_at = -1;            // callback returns false on its k-th invocation (0-based)
  std::vector<FaultSpec> faults;
  std::function<void(int)> hook; // called at every callback invocation (harness context)
  bool record = true;
  // observed
  std::vector<Ev> evs;
  std::vector<NLSIteration> cb_records;
  uint64_t n_eval = 0, n_lin = 0, n_trial = 0, n_retr = 0, n_cb = 0;
  uint64_t fired = 0;
  std::vector<int> fired_ids;
  // outcome
  bool threw = false;
  std::string ex;                // exception class name
  int ex_id = -1;
  std::optional<NLSSolverOutputs> out;
  Vec final;
};

struct Solver {
  Inst* inst = nullptr;
  bool has_cb = true;
  std::unique_ptr<ConstrainedNonlinearLeastSquares> impl;
};
// (re)creates the solver object in library context
void MakeSolver(Solver* s, Inst* inst, bool has_cb);
void DestroySolver(Solver* s);
void RunSolve(Solver* s, SolveRec* rec);
// The solver object as a value: how = 1 copied, 2 moved, 3 copy-assigned, 4 move-assigned over an object that has
// solved something else. false where the class does not offer the operation.
void SetCallback(Solver* s, bool on);
bool ReplaceByCopy(Solver* s, int how, uint64_t seed);
std::unique_ptr<ConstrainedNonlinearLeastSquares> CopyOf(const Solver& s);  // null where there is no copy constructor
// EvaluateNonlinearErrors outside of any record (also from inside a callback of a running solve)
mini_opt::Errors QueryErrors(Solver* s, const Vec& x);

Params ParamsFromItem(const Item& it);
void RandomParams(Rng& rng, Item* it, int profile);
FaultSpec FaultFromItem(const Item& it);

// Flattened outcome for bitwise comparison
struct Field {
  const char* name;
  int a, b;
  uint64_t bits;
};
std::vector<Field> Flatten(const SolveRec& r, int max_iterations = -1);
void FlattenIteration(const NLSIteration& it, int k, std::vector<Field>* out);
std::string DiffFields(const std::vector<Field>& x, const std::vector<Field>& y);  // "" if equal
std::string Describe(const SolveRec& r);
void LogOutcome(const char* tag, const SolveRec& r);

// ---------------------------------------------------------------- history reconstruction
struct Trial {
  std::vector<const Ev*> evals;
  const Ev* retr = nullptr;
  Vec x;
  bool complete = false;
  bool consistent = true;
  double f = 0, eq = 0;          // recomputed from returned values
  double fmag = 0;
  bool finite() const { return std::isfinite(f) && std::isfinite(eq); }
};
struct IterView {
  std::vector<const Ev*> jev;
  Vec x;
  bool complete = false;         // every residual was linearized once
  bool consistent = true;
  std::vector<Trial> trials;
  const Ev* cb = nullptr;
  const NLSIteration* rec = nullptr;  // matching record, if any
  double f = 0, eq = 0;
  Vec c, b, dx;                  // gradient, equality residual, direction (if observed)
  bool dx_exact = false;
  Mat G, A;                      // full symmetric JtJ (no damping), equality Jacobian
  Vec cmag;                      // sum |J||r| per variable
  bool finite_lin() const { return std::isfinite(f) && std::isfinite(eq); }
  bool finite_all = true;        // all r, J finite
};
struct History {
  std::vector<IterView> it;
  const std::vector<NLSIteration>* recs = nullptr;
  std::string problem;           // non-empty: log and evaluations do not line up
};
History Segment(const SolveRec& r);

// ---------------------------------------------------------------- oracles (report through Violation)
void CheckC08(const SolveRec& r, const History& h);
void CheckC09(const SolveRec& r, const History& h);
void CheckC10(const SolveRec& r, const History& h);
void CheckC11Bounds(const SolveRec& r, const History& h);
void CheckC12(const SolveRec& r, const History& h);
void CheckC13(const SolveRec& r, const History& h);
void CheckC15(const SolveRec& r);
uint64_t OutcomeShape(const SolveRec& r);  // coverage state of a solve

}  // namespace sim
