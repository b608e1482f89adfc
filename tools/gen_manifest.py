#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
NOTE = {
 "C01": "Real tracing code under a seeded thread scheduler that may switch at every memory access, lock, atomic and static guard; happens-before race detection over all library accesses; snapshots checked against the exact completion order. Bounded: up to 6 threads, some histories past the 100,000-event cap.",
 "C02": "Real scopes under simulated monotonic and wall clocks with steps, freezes, stalls and preemption inside scopes; timestamps compared with the simulated truth to the microsecond.",
 "C03": "Every allocation made while tracing may fail, exceptions may cross scopes at any depth, and the process may exit at any point relative to running scopes, under the seeded scheduler.",
 "C04": "Real solvers on up to 4 simulated threads and re-entrant in callbacks, switch points at every memory access, happens-before race detection, bit-exact comparison with each solve run alone.",
 "C05": "Aborts by exceptions at seeded callback invocations and by failing seeded allocations, in sequences on one solver; AddressSanitizer, leak accounting and bit-exact comparison with a new solver. malloc (as opposed to operator new) is failed only where Eigen's own code is exception safe.",
 "C06": "Seeded histories of edits, set-ups, solves, cancellations and aborts on one object, each followed by a bit-exact comparison with a newly constructed solver; fresh memory is poisoned so reads of stale or uninitialised storage differ.",
 "C07": "Every cancellation instant and iteration limit of seeded solves under callback faults, compared record by record with the undisturbed solve.",
 "C08": "Non-finite responses at seeded evaluations (transient and persistent); variables, acceptance, step results and stop reasons checked at every event.",
 "C09": "Acceptance, Armijo decrease, trial geometry and step lengths checked at every trial from the values the callbacks returned, under injected responses.",
 "C10": "Stop reasons recomputed from the callback values for every iteration of every run by an independent reference state machine.",
 "C11": "Work counters bounded in every run; recovery judged as convergence to an independently computed constrained minimum within a bounded number of solves after the last fault.",
 "C12": "Damping and penalty replayed by a reference state machine; search directions checked against the KKT conditions of the damped subproblem assembled independently from callback values (floating-point tolerances).",
 "C13": "Every field of every record recomputed from what the callbacks saw and returned.",
 "C14": "KKT conditions and log of both QP solvers recomputed independently after seeded histories of set-ups, interruptions, warm starts and allocation failures (floating-point tolerances).",
 "C15": "Every residual evaluation point and current value checked against the box during runs with injected failures (round-off tolerance).",
 "C16": "Results of seeded faulty solves stored through a simulated disk with short, interrupted and out-of-space writes, read back three ways and compared bit for bit.",
 "C18": "Histories of real residuals of every size on shared buffers with throwing and non-finite residual functions, failing allocations, refused calls, moves and repeated variables; buffers compared entry by entry with a reference accumulation after each step; AddressSanitizer.",
 "C21": "Texts of the records of seeded faulty solves, in every colour option and with memory failing meanwhile, parsed back value by value and compared with the record.",
 "C22": "Histories of set-ups and solves with rank-deficient and over-determined constraints on one object with seeded memory contents, aborts and failing allocations; KKT conditions judged on the independent rows (SVD); AddressSanitizer. Nearly dependent constraints are not generated.",
 "C20": "Histories of valid solves and seeded invalid calls on one object, each compared bit for bit with a twin object that never sees the invalid calls; invalid calls also from inside callbacks and while memory fails; AddressSanitizer.",
 "C23": "Each solve re-run at every iteration limit in a seeded order on one object and aborted at seeded allocations: the variables after every iteration are thereby seen and compared with a reference step worked out in long double (round-off allowance from the conditioning; steps of systems with condition above 1e6 are not judged), step lengths, log, barrier schedule, start and stop included.",
 "C17": "Seeded damage (torn, lost, stale, duplicated and flipped data, missing, renamed, retyped fields) of stored results; AddressSanitizer with library and JSON assertions; whatever is accepted must restate the text.",
}
TECH = {k: "deterministic simulation: seeded search over fault sequences and histories, checked against a reference model" for k in NOTE}
for k in ("C01", "C02", "C03", "C04"):
    TECH[k] = "deterministic simulation: seeded thread schedules, clocks and faults at memory-access granularity, with history checks"
NA = {
 "C19": "A pure function of a coefficient and a value; there is nothing to schedule or inject.",
}
m = dict(version=1, setup_cmd="python3 check.py setup",
 checks=[dict(property=k, quick_cmd="python3 check.py check " + k, thorough_cmd="python3 check.py check " + k,
              technique=TECH[k], level="exploration", level_note=NOTE[k] + " Sampled, not exhaustive.") for k in sorted(NOTE)],
 not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
 notes="No hooks are needed in /repo: every seam is taken at link time (--wrap) or by compiling /repo's sources with -fsanitize=thread and supplying the runtime. See DESIGN.md.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
