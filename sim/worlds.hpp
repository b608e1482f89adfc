#pragma once
#include <memory>
#include <vector>

#include "core.hpp"
#include "nls.hpp"

namespace sim {
struct World {
  std::vector<std::unique_ptr<Inst>> insts;
  explicit World(const Plan& plan);
  Inst* inst(int i);
};
SolveRec MakeRec(Inst* inst, const Item& it);
std::vector<FaultSpec> FaultsOf(const Plan& plan, int k);
void WrapPositions(std::vector<FaultSpec>* fs, const SolveRec& golden);
SolveRec Golden(Inst* inst, const SolveRec& like, bool record);

Item GenAnyProblem(Rng& rng, int id, int maxn);
Item GenAnySolve(Rng& rng, int s);

// invalid calls on the QP solvers
void GenC20Qp(Plan* plan, Rng& rng, bool thorough);
void RunC20Qp(const Plan& plan);

// QP solves for the thread world
struct QpBox;
std::shared_ptr<QpBox> MakeQpBox(const Item& it);
std::vector<Field> QpBoxSolve(const QpBox& q, const Item& u);
Item QpGenProblem(Rng& rng, int id, bool ip);
Item QpGenOp(Rng& rng, int nq);

void RegisterNls(std::vector<PropDef>* t);
void RegisterQp(std::vector<PropDef>* t);
void RegisterStore(std::vector<PropDef>* t);
void RegisterReject(std::vector<PropDef>* t);
void RegisterAccum(std::vector<PropDef>* t);
void RegisterThreads(std::vector<PropDef>* t);
}  // namespace sim
