#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so the long strings stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

TR = ["source/tracing.cc", "include/mini_opt/tracing.hpp"]
NL = ["source/nonlinear.cc", "include/mini_opt/nonlinear.hpp"]
QP = ["source/qp.cc", "include/mini_opt/qp.hpp"]
SE = ["source/serialization.cc", "include/mini_opt/serialization.hpp"]
ST = ["source/structs.cc", "include/mini_opt/structs.hpp"]
RE = ["include/mini_opt/residual.hpp", "source/residual.cc"]
NOTEST = "No test that runs links the nonlinear solver, serialization or tracing at all (the nonlinear tests need a missing dependency)"

prop("C01", "Trace events are recorded exactly once and snapshots are consistent",
 "Every traced scope that exits normally, on any thread, adds exactly one event to the process-wide trace, carrying that scope's name (any valid UTF-8 text), the process id and the id of the thread it ran on, in an order consistent with real-time completion. A snapshot taken at any moment by any thread is well-formed JSON holding exactly a prefix of that order: every event whose recording finished before the snapshot began, none whose recording had not begun, in order and unmodified. Once more than 100,000 events exist it holds exactly the most recent 100,000, and no interleaving of scopes and snapshots is a data race.",
 ["schedules", "histories"], "all interleavings of any number of threads opening/closing scopes, submitting events and taking snapshots, at memory-access granularity, and all history lengths around the retention cap",
 "Quantifies over thread schedules; no test touches the trace collector and none is multi-threaded.",
 TR, [("mutex around the event deque", "source/tracing.cc trace_collector::submit_event / get_trace_json"), ("thread_local pid/tid cache", "source/tracing.cc scoped_trace::~scoped_trace"), ("ring-buffer cap", "source/tracing.cc submit_event max_traces")],
 [("event log", "ordered recent events", "source/tracing.cc trace_collector_impl")], ["trace_collector::get_trace_json()"])

prop("C02", "Trace timestamps and durations are true under clock faults",
 "Each trace event's start and duration are the time that actually elapsed on one monotonic timeline shared by all threads, in whole microseconds, whatever the wall clock does meanwhile (steps backwards or forwards, freezes, long stalls, preemption inside the scope). Durations are therefore never negative, and an inner scope's interval lies within the interval of the scope enclosing it on the same thread.",
 ["schedules", "fault_sequences", "histories"], "all clock step/stall sequences and preemptions at any instant of a scope's life",
 "Depends on clock behaviour no test controls: a test run sees a well-behaved clock and asserts nothing about it.",
 TR, [("clock read at scope entry and exit", "include/mini_opt/tracing.hpp scoped_trace, source/tracing.cc ~scoped_trace")], [], ["ts and dur fields of get_trace_json()"])

prop("C03", "Tracing never brings down the traced program",
 "Leaving a traced scope never throws or terminates the process: when memory runs out while an event is recorded the event may be lost, but the program continues, events recorded earlier are kept and later scopes are recorded again (only taking a snapshot may then raise std::bad_alloc). A scope left by an exception records no event and the exception propagates unchanged. Scopes may still be left safely while the process is shutting down, during and after destruction of static objects, on any thread.",
 ["fault_sequences", "crash_points", "schedules"], "allocation failure at every allocation made while tracing, exceptions thrown at any depth of nested scopes, process exit at any instant relative to running scopes",
 "Needs allocation failures and exits placed at exact instants; no test injects either.",
 TR, [("uncaught_exceptions check", "source/tracing.cc ~scoped_trace"), ("global collector lifetime", "source/tracing.cc trace_collector::get_instance")], [], ["process survival, get_trace_json()"])

prop("C04", "Concurrent and nested solves are isolated from each other",
 "Solvers running at the same time on different threads, or nested inside another solver's callback on one thread, and sharing read-only problem definitions, each return bit for bit the outcome they return when run alone. This holds for every interleaving and when neighbouring solves are failing, cancelled or reporting non-finite values, and no interleaving is a data race.",
 ["schedules", "inputs"], "all interleavings at memory-access granularity of solves on separate solver objects over shared problems, including re-entrant nesting at any callback",
 "All tests are single threaded; a shared scratch buffer or hidden cache passes every one of them.",
 NL + QP + RE + TR, [("all scratch storage is per solver object", "include/mini_opt/nonlinear.hpp private members; include/mini_opt/qp.hpp private members"), ("residuals are evaluated through const objects without shared caches", "include/mini_opt/residual.hpp Residual::Model")], [], ["Solve() outputs and variables()"])

prop("C05", "A solve aborted at any point leaves the solver consistent and usable",
 "If a residual, retraction or exit callback throws, at any point of a solve, that same exception reaches the caller; if a memory allocation fails, the caller sees std::bad_alloc, or the solve completes with exactly the undisturbed outcome. Either way there is no crash and no leaked memory, and the solver's current variables are exactly the last accepted iterate (the starting point if none was accepted). The solver stays usable: its next solve returns exactly what a newly constructed solver returns.",
 ["crash_points", "fault_sequences"], "every callback invocation and every allocation of every solve as a possible abort point, and sequences of several aborts",
 "Quantifies over abort points; no test has a callback throw or an allocation fail.",
 NL + QP, [("candidate variables kept apart from current variables until acceptance", "source/nonlinear.cc RetractCandidateVars / UpdateLambdaAndCheckExitConditions"), ("per-solve state re-initialised on entry", "source/nonlinear.cc Solve")], [("current variables", "last accepted iterate", "variables()")], ["exception type and payload, variables(), next Solve()"])

prop("C06", "Results depend only on inputs, never on the solver object's history",
 "The outcome of a solve is a function of the problem, the parameters and the starting variables alone. Whatever the solver object did before (solves from other starting points or with other parameters, cancelled or aborted solves, error evaluations between solves or from the exit callback, being copied, moved or assigned, edits of the problem's costs and constraints between solves that keep its size, set-up with QPs of other sizes or shapes, new values written into the QP it refers to), the nonlinear, interior-point and null-space solvers return bit for bit what a newly constructed solver returns.",
 ["histories", "fault_sequences"], "all histories of set-ups, edits, solves, cancellations and aborts on one solver object",
 "The reuse tests cover one solver on same-shaped problems and compare loosely; histories are unbounded.",
 NL + QP, [("every buffer is re-sized and re-filled per solve", "source/qp.cc Setup, source/nonlinear.cc LinearizeAndFillQP"), ("inner solver re-selected per solve", "source/nonlinear.cc Solve")], [], ["Solve() outputs, variables()"])

prop("C07", "Cancellation takes effect at an iteration boundary and is exact",
 "The user's exit callback is invoked exactly once per completed iteration, in order, with that iteration's record and after its step has been applied. When it returns false the solve ends without evaluating any further user code, reporting user cancellation unless that iteration had itself met another stopping condition, which is then reported instead (using up the last allowed iteration at the same time may be reported as either). The records and variables of a solve cancelled after k iterations, or limited to k iterations, are exactly the first k iterations of the undisturbed solve.",
 ["crash_points", "histories"], "cancellation at every iteration of every solve, and every iteration limit",
 NOTEST + "; cancellation is a choice of instant, of which a test samples one.",
 NL, [("callback invoked after each iteration record is pushed", "source/nonlinear.cc Solve")], [], ["exit callback arguments, NLSSolverOutputs, variables()"])

prop("C08", "Non-finite values from user code never enter the solution",
 "A NaN or infinite value returned by any residual, Jacobian or retraction at any evaluation never becomes part of the solution (residuals of non-finite variables being non-finite themselves): a trial point whose cost is not finite is never accepted and is recorded as a non-finite-cost failure, and the current variables stay finite. No tolerance is ever reported as satisfied on the strength of a non-finite value; a linearization whose cost is not finite ends the solve with an exception or an unsuccessful state.",
 ["fault_sequences", "inputs"], "every placement of transient or persistent non-finite responses among the evaluations of a solve",
 NOTEST + "; the failure depends on which evaluation goes bad.",
 NL + QP, [("finite check on trial errors", "source/nonlinear.cc SelectStepSize"), ("finite precondition on linearization errors", "source/nonlinear.cc SelectStepSize")], [], ["step results, termination state, variables()"])

prop("C09", "Variables move only by accepted steps that reduce the merit function",
 "The current variables change only when a line search trial is accepted, and then become exactly that trial point; a search that fails for any reason leaves them bit for bit unchanged. An accepted trial lowers the merit function (cost plus penalty times the L1 equality violation) by at least 1e-4 times step length times the magnitude of its non-positive directional derivative. Within one search every trial starts from the current variables along one fixed direction, with step lengths that start at 1, strictly decrease and stay positive: backtracking multiplies by its configured factor, the polynomial strategy goes to the minimizer of the quadratic, then cubic, that interpolates the merit values seen, and gives up only if there is none between zero and the last step. The first trial that decreases the merit function enough ends the search.",
 ["fault_sequences", "histories", "inputs"], "all sequences of callback responses, including perturbed and failing trials, for both line-search strategies",
 NOTEST + "; the guarantee is over every sequence of trial outcomes.",
 NL, [("Armijo test", "source/nonlinear.cc SelectStepSize"), ("candidate swap only on success", "source/nonlinear.cc UpdateLambdaAndCheckExitConditions"), ("retraction always from current variables", "source/nonlinear.cc RetractCandidateVars")], [], ["trial points seen by residuals/retraction, variables()"])

prop("C10", "The reported stopping reason is true, and the solve stops as soon as one holds",
 "The stopping reason a nonlinear solve reports is true of the values its callbacks actually returned: absolute tolerance only if the accepted cost and equality violation are both below it, relative tolerance only if the last accepted merit decrease was within it, first-order only if the cost and constraint directional derivatives are both below it, maximum damping only after a failed search pushed damping past its limit, iteration limit only when all iterations were used, indefinite only if the reduced Hessian was not positive definite. The solve ends at the first iteration at which one of these conditions holds.",
 ["fault_sequences", "histories", "configurations"], "all solves under all response sequences and valid parameter settings",
 NOTEST + "; a wrong claim needs a particular sequence of step outcomes to show.",
 NL, [("exit-condition logic", "source/nonlinear.cc UpdateLambdaAndCheckExitConditions"), ("stationarity test", "source/nonlinear.cc SelectStepSize")], [], ["NLSSolverOutputs::termination_state"])

prop("C11", "Work is bounded, and solving recovers once faults stop",
 "A solve performs at most the configured number of iterations, at most one linearization and (line-search limit + 1) trials per iteration, and at most the configured number of inner QP iterations, and always returns or throws, whatever its callbacks return. Once transient callback faults stop, a client that re-solves from the current variables satisfying the bounds of a strictly convex, well-conditioned least-squares problem (linear residuals, with or without linear equalities and satisfiable box constraints whose active sets are independent) reaches the constrained minimum within a bounded number of iterations. Likewise an interior-point solve left undisturbed, with at least 120 iterations, the barrier strategies other than predictor-corrector and an automatic start, succeeds on every well-conditioned strictly convex QP whose bounds leave an interior (with equalities: bounds on distinct variables, no more than the equalities leave free), after any earlier interrupted, aborted or warm-started use of the solver.",
 ["fault_sequences", "schedules"], "all sequences of callback faults (non-finite, perturbed or throwing evaluations) followed by fault-free operation",
 NOTEST + "; progress after faults is a liveness statement over fault sequences.",
 NL + QP, [("loop bounds", "source/nonlinear.cc Solve / SelectStepSize; source/qp.cc Solve"), ("damping restore", "source/nonlinear.cc UpdateLambdaAndCheckExitConditions")], [], ["evaluation counts, outputs, variables()"])

prop("C12", "Damping and penalty follow their contract over every run of step outcomes",
 "Damping starts at its configured initial value, is multiplied by the configured success (or, when leaving recovery, restore) factor after each accepted step without going below its minimum, is set to at least the configured failure value on the first search that runs out of trials or meets a positive derivative and multiplied by ten by each further one, ends the solve when it passes its maximum, and is left alone by every other outcome. The equality penalty never decreases during a solve and is raised, by the configured scale, whenever the multiplier or predicted-decrease bound exceeds it. Each search direction solves the linearized subproblem built from the values the callbacks returned, with exactly the recorded damping added to the Hessian diagonal, to the configured tolerance unless all inner iterations were used.",
 ["fault_sequences", "histories", "configurations"], "all sequences of accepted and failed searches forced by callback responses, and all valid parameter settings",
 NOTEST + "; the schedule is a state machine whose transitions need specific failure sequences.",
 NL + QP, [("damping state machine", "source/nonlinear.cc UpdateLambdaAndCheckExitConditions"), ("penalty selection", "source/nonlinear.cc SelectPenalty / Solve"), ("damped Hessian", "source/nonlinear.cc LinearizeAndFillQP")], [("lambda, penalty, optimizer_state", "per-iteration record", "NLSIteration")], ["NLSIteration records, search direction passed to the retraction"])

prop("C13", "The iteration log is a faithful record of what happened",
 "Each iteration record states what that iteration really saw: its initial errors, the damping its step was computed with, each trial's step length and errors, and its directional derivatives are those of the values the callbacks returned for the current variables, in order, with none missing, repeated or stale. Iteration numbers are consecutive from zero, requested Hessian eigenvalue statistics are those of the damped Hessian used, and the summary counts (inner iterations, trials, failed searches) equal the totals over the records.",
 ["fault_sequences", "histories"], "all solves under all response sequences, including failing and perturbed trials",
 NOTEST + "; stale or misattributed records appear only in specific failure sequences.",
 NL + ST, [("record construction", "source/nonlinear.cc Solve, SelectStepSize (steps_)"), ("summary counters", "source/structs.cc NumQPIterations/NumLineSearchSteps/NumFailedLineSearches")], [], ["NLSIteration, NLSSolverOutputs counters"])

prop("C14", "QP solver success claims are true after any history",
 "Whenever the interior-point QP solver reports its tolerance satisfied, the x, slacks and multipliers it holds satisfy the KKT conditions to that tolerance; whatever it reports, slacks and inequality multipliers are strictly positive, step sizes lie in (0, 1], it used no more than the allowed iterations, and its residual log and multiplier summary describe the values it holds. Whenever the null-space solver reports success with independent equality constraints, its x satisfies them and minimizes the objective on them, and it reports not-positive-definite exactly when the reduced Hessian is not. This holds after any history of set-ups, interrupted solves, warm starts and aborted solves, and for every barrier and initial-guess strategy, as long as the arithmetic stays within the range of a double.",
 ["histories", "fault_sequences", "configurations"], "all histories of set-up, interrupted solve, warm restart and allocation-failure abort, for every strategy combination",
 "Tests use one barrier strategy on fresh or same-shaped problems; the predictor-corrector branch is never executed and no solve is interrupted or aborted.",
 QP, [("KKT evaluation and termination test", "source/qp.cc Solve / EvaluateKKTConditions / ComputeErrors"), ("fraction-to-boundary step", "source/qp.cc ComputeAlpha"), ("null-space factorization", "source/qp.cc QPNullSpaceSolver::Solve")], [], ["x/s/y/z blocks, QPInteriorPointSolverOutputs, QPNullSpaceSolver::variables()"])

prop("C15", "Box constraints are never violated once satisfied",
 "If the starting variables satisfy the inequality constraints and the constraints are jointly satisfiable, then every point at which any residual is evaluated and every current value of the variables satisfies them up to round-off, with the default additive update and finite derivatives. This holds for every sequence of accepted, shortened, failed, non-finite-cost, cancelled or aborted steps, whether or not the inner QP solver converged.",
 ["fault_sequences", "histories", "inputs"], "all sequences of step outcomes and interruption points, all inner iteration limits",
 NOTEST + "; feasibility along the whole trajectory under failures is not observable from end results.",
 NL + QP, [("constraints shifted to the linearization point", "source/nonlinear.cc LinearizeAndFillQP; include/mini_opt/qp.hpp ShiftTo"), ("initial guess clamped to the feasible region and slack kept positive", "source/qp.cc ComputeInitialGuess / ComputeAlpha")], [], ["residual evaluation points, variables()"])

prop("C16", "Stored solver results read back exactly",
 "Any result a solve can produce, including results of failed searches and records holding NaN or infinite values, survives being converted to JSON, written to storage as text, read back and converted again: every number is restored bit for bit (a NaN as a NaN, an infinity as the same infinity), and every state, optional and count is restored.",
 ["histories", "fault_sequences"], "all results of all solves, including those produced under callback faults, stored through any sequence of chunked, short or retried writes",
 NOTEST + "; only records produced by particular failures hold the awkward values.",
 SE + ST, [("field-by-field serializers", "source/serialization.cc")], [], ["nlohmann::json conversion of NLSSolverOutputs"])

prop("C17", "Damaged stored results are rejected, never misread",
 "Reading a stored result that was torn, truncated, overwritten in part, bit-flipped or that lost a field either raises an ordinary exception or yields a result whose own stored form agrees with every known field present in the damaged text. It never crashes, reads invalid memory, or silently substitutes a different state or value for what the text says or omits.",
 ["fault_sequences", "crash_points"], "all damage patterns (torn write at any byte, lost or duplicated block, stale tail, flipped byte, missing or nulled field) to any stored result",
 NOTEST + "; damage patterns are unbounded.",
 SE, [("field lookup and enum mapping on read", "source/serialization.cc from_json")], [], ["json::parse + get<NLSSolverOutputs>"])

prop("C18", "Residual values and derivatives go to the variables they belong to",
 "Through any history of residuals added to shared buffers, each residual sees exactly the values of the variables it names, in the order it names them; the Jacobian rows, vector b, Gauss-Newton Hessian (lower triangle) and quadratic errors hold exactly the sums of what the residuals returned, at the variables named, and nothing else of the buffers changes (strict upper triangle, other rows and entries). A variable named twice receives the sum of both columns. A residual that throws, an allocation that fails, and a call with a wrong index or dimension contribute nothing and leave the buffers as they were. Residuals that were moved act as before.",
 ["histories", "fault_sequences", "inputs"], "all histories of residuals of every static and dynamic size, index lists (unordered, repeated), injected throws, non-finite values, failing allocations and rejected calls",
 "Tests sample three index lists, each into zeroed buffers, with residuals that do not fail.",
 RE, [("index gather/scatter", "include/mini_opt/residual.hpp UpdateHessian / UpdateJacobian / GatherValues")], [("buffers", "H, b, J, error vector shared by the residuals of a problem", "include/mini_opt/residual.hpp")], ["Residual::ErrorVector, QuadraticError, UpdateHessian, UpdateJacobian, Dimension"])

prop("C19", "Scalar inequality helpers agree with each other",
 "Clamping a value to a constraint makes it feasible and moves it minimally, and shifting a constraint preserves feasibility of the shifted point, for every coefficient and value.",
 ["inputs"], "all coefficients and values",
 "Tests sample a handful of values.",
 ["include/mini_opt/qp.hpp"], [("IsFeasible/ClampX/ShiftTo", "include/mini_opt/qp.hpp")], [], ["LinearInequalityConstraint"])

prop("C20", "Rejected calls have no effect",
 "Every invalid call is rejected with an exception: a solve (nonlinear or QP) with a parameter outside the range the library requires (NaN included), initial variables or QP variables of the wrong length, a QP whose matrices do not fit together, an inequality or residual on a variable that does not exist, more equality rows than the solver was constructed for, a null problem, a solve before any set-up. Except where the fault is in the problem's own residuals or constraints (found while linearizing), no user code runs before the rejection. A rejected call has no effect: the solver keeps its current variables and the problem it is set up with, and every later solve (or the solve in progress, when the call is made from its exit callback) returns bit for bit what it returns without the rejected call.",
 ["histories", "fault_sequences", "configurations"], "all histories of valid calls and invalid calls of every kind, between solves, inside exit callbacks, and with memory failing during the rejection",
 "No test passes an invalid parameter or goes on using a solver after a rejected call.",
 NL + QP + RE, [("CheckParams and Setup assertions before any member changes", "source/nonlinear.cc CheckParams / Solve, source/qp.cc CheckParams / Setup / SetVariables / QPNullSpaceSolver::Solve"), ("index checks", "include/mini_opt/residual.hpp GatherValues; include/mini_opt/qp.hpp ShiftTo")], [], ["exceptions, variables(), problem(), results of later solves"])

prop("C21", "Text summaries describe the record they print",
 "The text summary of a result of any simulated solve (stopped, failed, cancelled or non-finite ones included) states every value the record holds, iteration by iteration and step by step, in the order of the record: numbers printed in full read back exactly (penalty to 1e-16, step lengths to 1e-10), and states, reasons and counts are those of the record. Colour codes only add escape sequences, and an item is green exactly if it stands for success. Producing a text changes nothing: the record and all later texts of it are the same, also when memory ran out while a text was made, which is reported by an exception.",
 ["histories", "fault_sequences", "configurations"], "all records of seeded faulty solves, all colour options, failing allocations",
 "No test that runs prints a nonlinear record.",
 ST, [("ToString", "source/structs.cc")], [], ["NLSSolverOutputs::ToString, QPInteriorPointSolverOutputs::ToString"])

prop("C22", "Dependent or over-determined equality constraints are handled",
 "Redundant but consistent equality constraints (repeated, scaled or combined rows, zero rows, more rows than variables, rows dependent only at some iterates) give the same result as the independent ones among them: the null-space QP solver returns the constrained minimiser and nonlinear solves without inequalities compute search directions that are KKT points of their subproblem and reach the constrained minimum, for every rank, after any earlier use of the solver object, interrupted or not, and whatever memory held before. No such problem makes the solver read or write outside its matrices. (Nearly dependent and inconsistent constraints, and the interior-point solver, are not included.)",
 ["histories", "fault_sequences", "inputs"], "all constraint matrices of any rank and shape, in histories of set-ups, solves, failed allocations and aborted solves on one object",
 "Tests use two full-rank problems on new solver objects.",
 QP + NL, [("rank-revealing QR", "source/qp.cc QPNullSpaceSolver::Solve")], [("null-space workspace", "reduced matrices, permuted right-hand side", "source/qp.cc QPNullSpaceSolver")], ["QPNullSpaceSolver::variables()", "ConstrainedNonlinearLeastSquares results"])

prop("C23", "Interior-point iterations are exact and can be stopped anywhere",
 "An interior-point QP solve stopped by its limit after k iterations holds exactly the variables and log of the first k iterations of the same solve allowed to go on, and one aborted by a failed allocation holds exactly the variables some whole number of its iterations gives (or those it started from). Each iteration moves x and the slacks by one common fraction, and the multipliers by another, of the Newton step of the barrier-perturbed KKT system at the current variables (with the second-order correction under predictor-corrector), the fraction being 1 if that keeps every slack (multiplier) positive and otherwise 99.5 % of the way to the first that would reach zero. It logs the residuals before and after, the barrier value and the fractions used. The barrier value starts and decreases as the parameters ask (predictor-corrector cuts it further within an iteration, by the cube of the fraction of it that the uncorrected step would leave), automatic starting points satisfy the inequalities (if they can be satisfied together) with slacks to match, and the solve ends at the first iteration after which both tolerances are met, never later.",
 ["crash_points", "histories", "configurations"], "every iteration limit and allocation failure of every solve, every barrier strategy, starting point and earlier use of the solver object",
 "Tests look at end results with one strategy and loose tolerances; an iteration that is slightly wrong still converges.",
 QP, [("Newton step by elimination and back-substitution", "source/qp.cc ComputeLDLT / SolveForUpdate"), ("fraction to the boundary", "source/qp.cc ComputeAlpha"), ("barrier schedule and stopping test", "source/qp.cc Solve")], [("variables", "x, slacks, multipliers", "source/qp.cc variables_")], ["variables(), QPInteriorPointSolverOutputs at every iteration limit"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
