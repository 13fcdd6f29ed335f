#!/usr/bin/env python3
"""Write MANIFEST.json.  CLAIMED: property -> what the proof covers; the rest goes to not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the C++ sources (own VC generator over the clang AST, loop invariants/summaries, z3 back end); failing obligations replayed on the compiled code"
TRUST = " Trusts: the clang front end, the verifier in vc/, z3, the contracts of Eigen/std listed in the evidence; doubles are treated as real numbers and int as unbounded integers."
CLAIMED = {
    "C01": "Every helper of the bound constraint class and both operators under contract, for all values.",
    "C02": "Residual and its functor model (static and dynamic residual size, dense and indexed parameters) under contract through instantiations of the templates; symbolic sizes where the template leaves them dynamic.",
    "C03": "Setup of both QP solvers and SetVariables raise exactly on malformed input; sizes after acceptance.",
    "C04": "EvaluateKKTConditions and ComputeErrors, any dimensions, any number of bounds per variable (loop summaries).",
    "C05": "ComputeLDLT, SolveForUpdate, SolveForUpdateNoInequalities and Iterate; LDLT trusted to return the inverse when it reports success.",
    "C06": "ComputeAlpha with a loop invariant, Iterate and Solve with the positivity invariant.",
    "C07": "ComputeInitialGuess including the clamping loop (invariant over jointly satisfiable bounds).",
    "C08": "Gap recurrence through Iterate and the loop of Solve.",
    "C09": "Solve: log, termination state and returned point, by a loop invariant over all iterations.",
    "C10": "Barrier updates in Solve and Iterate and the affine complementarity.",
    "C11": "QPNullSpaceSolver::Solve against a trusted contract of the pivoted QR and of LLT (rank decision exact).",
    "C12": "LinearizeAndFillQP (residuals under the contract of the Residual interface; loop summaries over all residuals and bounds) and EvaluateNonlinearErrors; Solve passes the result on unchanged.",
    "C13": "SelectStepSize with its loop invariant, the polynomial alpha choice and RetractCandidateVars; Solve uses the result.",
    "C14": "The three polynomial helpers, for all real inputs.",
    "C15": "UpdateLambdaAndCheckExitConditions for every branch, Solve by a loop invariant relating each iteration to the previous one.",
    "C16": "Solve, step direction and exit conditions, by a loop invariant over all iterations, in three constraint configurations.",
    "C17": "ComputeQPCostDerivative, SelectPenalty, the penalty sequence of Solve, and two lemmas that the resulting merit derivative is not positive.",
    "C18": "Setup and the entry of Solve of both QP solvers and the nonlinear Solve: everything read was written by this solve.",
    "C19": "The counters of the solver log (loop summaries), every enumeration printer, the termination-state predicate.",
    "C20": "to_json / from_json of every type of the log composed through a contract of nlohmann::json; enumerators one by one; numbers through the two field helpers.",
    "C21": "The collector as a monitor (its data owned by the mutex, invariant on release), the JSON text of entries and report, the scope object with the exception count.",
    "C22": "Every bounds, size, alias and null obligation the other contracts generate (element, segment and block accesses, operand sizes, overlap of source and destination, container and pointer accesses), for the functions of all other properties.",
    "C23": "Both CheckParams against the documented ranges (raises iff outside), called before any work.",
    "C24": "Composition of C08, the shifted bounds and alpha in (0,1] as an invariant of Solve and SelectStepSize.",
}
PENDING = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                 "technique": TECH, "level": "proof", "level_note": CLAIMED[p] + TRUST} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": PENDING.get(p, "contracts not built yet")} for p in props if p not in CLAIMED],
     "notes": "No hooks in /repo: the verifier reads the sources as they are. Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
