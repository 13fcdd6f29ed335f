#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

QP = "source/qp.cc"; QPH = "include/mini_opt/qp.hpp"; NL = "source/nonlinear.cc"; NLH = "include/mini_opt/nonlinear.hpp"
ST = "source/structs.cc"; STH = "include/mini_opt/structs.hpp"; RS = "include/mini_opt/residual.hpp"

prop("C01", "Bound constraints mean a*x+b>=0 in every helper",
     "A linear bound constraint built from coefficients, or with the `Var(i) >= v` / `Var(i) <= v` syntax, reports a value feasible exactly when a*x+b >= 0 (that is x >= v, respectively x <= v, for variable i). Clamping returns the closest feasible value (a feasible value unchanged, otherwise the boundary -b/a) and raises an error when a is zero. Shifting to a linearization point yields a constraint on the same variable that is feasible for dx exactly when the original is feasible for x+dx, and raises an error instead of reading outside the vector when the index is negative or too large.",
     ["inputs"], "every coefficient pair (a,b), both signs of a, every value x, dx and every variable index against every vector length",
     "qp_test samples a handful of (a,b,x); the guarantee is for all signs and magnitudes, including the error cases no test triggers.",
     [QPH], [("IsFeasible / ClampX / ShiftTo", QPH), ("Var comparison operators", QPH)],
     observe=["LinearInequalityConstraint methods", "Var operators"])
prop("C02", "Residual linearization lands on the right rows and columns",
     "For any residual function and any list of distinct variable indices in any order, accumulating it into a Gauss-Newton system adds exactly J^T*J to the lower triangle of the matrix at the mapped global indices and J^T*r to the vector, changes nothing else, and returns one half of the squared residual norm. Writing its Jacobian block puts each local column at its mapped column and the residual in the output vector without touching any other column; the error-only and quadratic-error queries return the same residual and half squared norm. An index outside the parameter vector, or beyond the target system, raises an error.",
     ["inputs"], "all residual functions, all distinct index lists (unsorted, with gaps, fixed or dynamic size), all parameter vectors",
     "residual_test checks a few fixed index lists and functions; arbitrary unsorted mappings and the untouched part of the outputs are not covered.",
     [RS, "source/residual.cc"], [("GatherValues", RS), ("Model::UpdateHessian / UpdateJacobian / ErrorVector", RS), ("QuadraticError", "source/residual.cc")],
     observe=["Residual::UpdateHessian", "Residual::UpdateJacobian", "Residual::ErrorVector", "Residual::QuadraticError"])
prop("C03", "Malformed QPs are rejected before any numerical work",
     "Handing a quadratic program to the interior-point solver, or to the null-space solver, raises an error whenever the problem is missing, the quadratic term is not square, or the linear term or the equality matrix or vector do not match in size, and the interior-point solver also rejects a bound on a variable index that is negative or not smaller than the problem dimension (the null-space solver takes no bounds); starting the interior-point solver without a problem, or setting variables of the wrong length, also raises an error. Every well-formed problem is accepted and sets the solver up with exactly one primal per variable, one slack and one multiplier per bound and one multiplier per equality row.",
     ["inputs", "configurations"], "all combinations of matrix, vector and constraint-list sizes including empty ones, and all constraint indices",
     "tests only pass well-formed problems; the error branches and the size combinations are never executed.",
     [QP], [("Setup validation", QP), ("null-space size checks", QP), ("SetVariables", QP)],
     observe=["QPInteriorPointSolver::Setup/constructor/Solve/SetVariables", "QPNullSpaceSolver::Solve"])
prop("C04", "KKT residuals and reported errors are exactly the KKT conditions",
     "For any problem and any current point, the optimality residuals the interior-point solver works with equal G*x + c - A_eq^T*y - A_i^T*z, s.*z, A_eq*x + b_eq and a_i*x + b_i - s, where only the lower triangle of G is read as a symmetric matrix and several bounds on one variable all count. The four errors it reports are the L2 norms of these residuals (the complementarity one after subtracting mu from every component, never NaN), a group with no constraints reports zero, and the reported maximum is the largest of the four.",
     ["inputs"], "all problem sizes, all bounds including repeated ones on one variable, all points and all mu",
     "qp_test compares the residual with a dense reference at a few points with exactly one or two bounds.",
     [QP, STH], [("EvaluateKKTConditions", QP), ("ComputeErrors", QP), ("KKTError::Max", STH)],
     state=[("r_", "stacked residual (dual, complementarity, primal eq, primal ineq)", QPH)],
     observe=["QPInteriorPointIteration::kkt_initial / kkt_final", "QPInteriorPointSolver state"])
prop("C05", "Interior-point direction solves the full Newton KKT system",
     "At any strictly interior iterate, whenever the reduced system is factorized successfully the search direction in primal, slack and both multiplier blocks satisfies every row of the full linearized KKT system, including the barrier term mu and, in the corrector step, the product of the affine slack and multiplier steps. This holds for any number of variables, equality rows and bounds, with any number of bounds on one variable, and the equality-constrained start solves the same system without bounds. A failed factorization raises an error rather than producing a direction.",
     ["inputs", "configurations"], "all QPs with nonsingular reduced matrix, all iterates with s,z > 0, all mu >= 0, all affine steps",
     "tests verify the elimination against a dense solve for a few sampled systems and never with a corrector term.",
     [QP], [("ComputeLDLT (reduced matrix assembly)", QP), ("SolveForUpdate", QP), ("SolveForUpdateNoInequalities", QP)],
     state=[("H_, H_inv_", "reduced KKT matrix and its inverse", QPH), ("delta_, delta_affine_", "search directions", QPH)],
     observe=["QPInteriorPointSolver::Solve (the iterate after each step)"])
prop("C06", "Slacks and bound multipliers stay strictly positive",
     "Starting from strictly positive slacks and bound multipliers (which the built-in initial guesses always provide) every step of the interior-point solver keeps all of them strictly positive, for every barrier strategy. The primal and dual step fractions it applies and logs lie in (0, 1]; each is the largest fraction not exceeding one for which no component falls below (1 - tau) times its value, with tau = 0.995 for the applied step, and one is used when there are no bounds. Slack and primal variables move by the same primal fraction, both kinds of multipliers by the same dual fraction.",
     ["inputs", "histories"], "all problems, all strictly positive starting points, all numbers of iterations and all strategies",
     "tests check positivity only implicitly on a few convergent problems; the predictor-corrector strategy is never run.",
     [QP], [("ComputeAlpha", QP), ("Iterate update", QP), ("positivity assertion in ComputeLDLT", QP)],
     observe=["QPInteriorPointSolver::s_block/z_block after Solve", "IPIterationOutputs::alpha / alpha_probe"])
prop("C07", "Interior-point initial guess is well-defined and feasible",
     "With the zero guess the solver starts from x=0, and with the equality-constrained guess from the solution of the QP without its bounds, in both cases moved into the bounds so that every bound holds whenever the bounds on each variable are jointly satisfiable; equality multipliers start at zero respectively at the multipliers of that solution. Every slack then starts at max(1e-9, a*x+b) and every bound multiplier at the reciprocal of its slack. With the user-provided guess all variables are left exactly as the user set them.",
     ["inputs", "configurations"], "all problems, all sets of bounds (several per variable, in any order), all three guess methods",
     "tests use at most one or two bounds per variable and only check the end result of the solve.",
     [QP], [("ComputeInitialGuess", QP), ("ClampX", QPH)],
     observe=["QPInteriorPointSolver state at the start of Solve"])
prop("C08", "QP solutions never leave the bounds",
     "When the bounds on each variable are jointly satisfiable and a built-in initial guess is used, the primal solution the interior-point solver returns satisfies every bound a*x + b >= -1e-9, whatever the termination state and however many iterations ran. Each step of primal fraction alpha shrinks the gap a*x + b - s of every bound by exactly the factor 1 - alpha, so the gap is never positive and never below -1e-9.",
     ["inputs", "histories"], "all QPs with consistent bounds, any number of iterations including stopping after the first, all barrier strategies (exact arithmetic)",
     "tests check the bounds only at the converged solution of a few problems.",
     [QP], [("SolveForUpdate (ds row)", QP), ("Iterate (same alpha for x and s)", QP), ("ComputeInitialGuess", QP)],
     observe=["QPInteriorPointSolver::x_block after Solve"])
prop("C09", "QP termination state and iteration log are honest",
     "The interior-point solver reports success only if, at the returned variables, the largest KKT error (for the barrier value in force) is below the KKT tolerance and the average complementarity product is below its tolerance; otherwise it reports hitting the iteration limit after exactly the maximum number of iterations. It stops at the first iteration that meets both tolerances, logs exactly one entry per iteration executed, in order, with the errors evaluated before and after that step at the barrier value in force, and the final entry describes the returned variables. The equality-multiplier summary is present exactly when there are equality rows and holds the smallest multiplier and the largest absolute multiplier.",
     ["inputs", "histories", "configurations"], "all problems and all valid parameter settings, any number of iterations",
     "tests assert success on problems that converge; that success is never reported early, or a log entry never misreports, is not sampled.",
     [QP], [("Solve loop", QP), ("ComputeLagrangeMultiplierSummary", QP)],
     observe=["QPInteriorPointSolverOutputs"])
prop("C10", "Barrier parameter follows the selected strategy",
     "The barrier value starts at the configured initial value, or at the average complementarity product s^T*z/M when so configured, and after each iteration becomes sigma times itself (fixed decrease) or sigma times the current average complementarity (other strategies), except that with the cautious option it is left unchanged while the largest KKT error exceeds it. It never becomes negative, each logged iteration holds the value its step actually used, and without bounds the step ignores it. In predictor-corrector mode the logged affine value is the average complementarity after the affine step (never negative) and the value used is the input scaled by the cube of its ratio to the current average complementarity.",
     ["inputs", "histories", "configurations"], "all problems, strategies and parameter settings, all iterations",
     "tests look at final convergence, never at the sequence of barrier values, and never run predictor-corrector mode.",
     [QP], [("Solve barrier update", QP), ("Iterate strategy selection", QP), ("ComputeMu / ComputePredictorCorrectorMuAffine", QP)],
     observe=["IPIterationOutputs::mu / mu_affine / alpha_probe"])
prop("C11", "Null-space QP solver returns the constrained minimizer",
     "When the null-space solver reports success for a problem with consistent equality constraints, its solution satisfies A_eq*x + b_eq = 0 and the gradient G*x + c (G read as symmetric from its lower triangle) is orthogonal to every direction that keeps the constraints satisfied, so it is the constrained minimizer. It reports non-positive-definite exactly when the Hessian projected on those directions fails the Cholesky factorization, and then claims no solution. Redundant (linearly dependent) equality rows are handled, and a problem without equality rows raises an error.",
     ["inputs"], "all G, c, A_eq, b_eq with at least one row, including rank-deficient A_eq and a null space of dimension zero",
     "tests use a few random full-rank systems; redundant rows, square systems and indefinite reduced Hessians are not settled by samples.",
     [QP], [("QPNullSpaceSolver::Solve", QP)], observe=["QPNullSpaceSolver::Solve result and variables()"])
prop("C12", "Linearized subproblem is exactly the Gauss-Newton model",
     "At every iteration of the nonlinear solver the quadratic subproblem holds, regardless of what earlier iterations left behind, the sum over all costs of J^T*J plus lambda on the diagonal, the sum of J^T*r, the stacked Jacobians and residuals of the equality constraints in declaration order, and exactly one shifted bound per problem bound in order. The errors it reports for the linearization point are the sum of half squared cost norms and the L1 norm of the stacked equality residuals, and agree with evaluating the nonlinear errors at that point.",
     ["inputs", "histories"], "all problems, linearization points and lambda >= 0, and any number of previous linearizations with the same storage",
     "no test that runs exercises the nonlinear solver; a stale entry or misplaced block shows only for particular residual structures.",
     [NL], [("LinearizeAndFillQP", NL), ("EvaluateNonlinearErrors", NL)],
     observe=["ConstrainedNonlinearLeastSquares::EvaluateNonlinearErrors", "NLSIteration::errors_initial", "the QP handed to the QP solver"])
prop("C13", "Line search only accepts steps with sufficient decrease",
     "A step is accepted only if all its costs are finite, the merit function f + penalty*|c| at the candidate is at most its initial value plus 1e-4 times alpha times the directional derivative, and that derivative is not positive. Step sizes tried start at 1, stay in (0, 1] and strictly decrease (by the configured factor for backtracking), at most the configured maximum plus one are tried, and each logged step records its alpha and the errors actually evaluated at that candidate; otherwise the reported outcome names the true reason (non-finite cost, invalid alpha, stationary point, positive derivative, or attempts exhausted).",
     ["inputs", "histories", "configurations"], "all cost sequences including NaN/Inf, all derivative values, penalties and both strategies",
     "no test that runs exercises the line search; rejecting every bad step for every cost function cannot be sampled.",
     [NL], [("SelectStepSize", NL), ("ComputeAlphaPolynomialApproximation", NL), ("RetractCandidateVars", NL)],
     observe=["NLSIteration::line_search_steps / step_result"])
prop("C14", "Polynomial step-size models are interpolating and minimized",
     "The quadratic line-search model returns the exact minimizer of the parabola with the given value and slope at zero and the given value at the trial step, and nothing when the slope is positive or the parabola has no minimum. The cubic model's coefficients interpolate both trial values, and its returned point is the stationary point with non-negative curvature of that cubic (never NaN for finite coefficients), or nothing when the cubic term is zero or there is no real stationary point (discriminants down to -1e-12 count as zero, to absorb rounding). Coefficients are only computed for trial steps with alpha0 > alpha1 > 0; anything else raises an error.",
     ["inputs"], "all real values of the samples, slopes and steps",
     "no running test calls these; a wrong sign or power agrees on special inputs.",
     [NL], [("QuadraticApproxMinimum", NL), ("CubicApproxCoeffs", NL), ("CubicApproxMinimum", NL)],
     observe=["ConstrainedNonlinearLeastSquares polynomial helpers", "line search alphas"])
prop("C15", "Variables move only on accepted steps; damping follows its rules",
     "The nonlinear solver's variables change only when a line search succeeds, and then become exactly the accepted candidate, so for a fixed penalty the merit value never increases. Damping lambda is multiplied by the success factor (or the restore factor when recovering) but never below its minimum after an accepted step, is raised to at least the failure value or tenfold on the first failure and tenfold on further failures (attempts exhausted or positive derivative), and is untouched otherwise. The solver gives up with the maximum-lambda state exactly when a raise takes lambda above its maximum, and the recovery mode is left exactly on success.",
     ["inputs", "histories", "configurations"], "all sequences of step outcomes and all valid parameters",
     "no running test drives the nonlinear solver, and the order of successes and failures is a history property.",
     [NL], [("UpdateLambdaAndCheckExitConditions", NL), ("Solve", NL)],
     observe=["ConstrainedNonlinearLeastSquares::variables", "NLSIteration::lambda / optimizer_state", "NLSSolverOutputs::termination_state"])
prop("C16", "Nonlinear solver reports the true reason and a complete log",
     "The nonlinear solver returns a tolerance-satisfied state only if the corresponding condition held at the last logged iteration (absolute: cost and constraint error of the accepted step below tolerance; relative: merit decrease below the relative tolerance; first order: derivative magnitudes below tolerance), the QP-indefinite state only when the equality-constrained subproblem failed, and the iteration-limit state only after exactly the maximum number of iterations. Iterations are logged once each, numbered consecutively from zero, with the lambda, penalty, errors, derivatives and line-search steps in force; a registered callback sees every logged iteration exactly once and can stop the solve, in which case the callback state is reported unless another exit already applied.",
     ["inputs", "histories", "configurations"], "all problems, parameters and callback behaviours, any number of iterations",
     "no running test exercises this loop.",
     [NL], [("Solve", NL), ("UpdateLambdaAndCheckExitConditions", NL), ("QPWasIndefinite", NL)],
     observe=["NLSSolverOutputs", "user exit callback"])
prop("C17", "Merit derivative and penalty updates are correct",
     "The directional derivative reported for a step dx is c^T*dx for the cost and the sum over equality rows of sign(residual) times (Jacobian row . dx) for the constraint norm (zero residuals contribute nothing). The penalty never decreases during a solve, and after each update is at least the largest absolute equality multiplier, or, for the null-space solver, at least (c^T*dx + half the curvature max(0, dx^T*G*dx)) / ((1-rho) * |c|_1); it is untouched without equality constraints. With that penalty the total directional derivative of the merit function is not positive for a step that meets the linearized constraints (and, for the interior-point solver, the optimality conditions of its QP) exactly, unless |c|_1 is below machine epsilon.",
     ["inputs", "histories"], "all subproblems, steps, multipliers and rho in [0,1), any number of iterations",
     "no running test covers it; sign errors show only for particular residual signs.",
     [NL, STH], [("ComputeQPCostDerivative", NL), ("SelectPenalty", NL), ("penalty update in Solve", NL)],
     observe=["NLSIteration::directional_derivatives / penalty"])
prop("C18", "Reusing a solver gives the same result as a fresh one",
     "Setting up and solving a QP with an interior-point or null-space solver that has previously solved other problems, of any size, gives exactly the same termination state, log and solution as a newly constructed solver, with every built-in initial guess. Likewise, solving with a nonlinear solver object that was used before depends only on the problem, parameters and starting variables, not on the earlier solve.",
     ["histories", "inputs"], "all pairs of consecutive problems on one solver object, all sizes, all built-in guess methods and strategies",
     "tests construct a new solver for each problem.",
     [QP, NL], [("Setup resets storage", QP), ("ComputeLDLT clears directions", QP), ("LinearizeAndFillQP resets the system", NL), ("Solve resets state and solver choice", NL)],
     observe=["second Setup+Solve on one object", "second ConstrainedNonlinearLeastSquares::Solve"])
prop("C19", "Summary counters and printed names match the log",
     "For any solver output the number of QP iterations counts every interior-point iteration and one per null-space solve, the number of line-search steps counts every logged step, and the number of failed line searches counts the iterations whose outcome is neither success nor first-order satisfied. Printing any enumeration value yields exactly its declared name, distinct for distinct values, and a termination state counts as tolerance-satisfied exactly for the absolute, relative and first-order tolerance states.",
     ["inputs"], "all iteration logs of any length and all enumerators",
     "no test looks at the counters or prints the values.",
     [ST, STH], [("NumQPIterations / NumLineSearchSteps / NumFailedLineSearches", ST), ("stream operators", ST), ("TerminationStateIndicatesSatisfiedTol", STH)],
     observe=["NLSSolverOutputs counters", "operator<<"])
prop("C20", "Solver outputs survive a JSON round trip",
     "Converting any nonlinear solver output to JSON text and back reproduces every field of every iteration: termination state, enumerations, numbers, optional values, line-search steps and whichever QP output alternative was stored. Each enumerator has its own distinct JSON name, unset probe values (NaN) come back as NaN, and no field is dropped or swapped with another.",
     ["inputs"], "all outputs: any number of iterations and steps, both QP alternatives, present and absent optionals, all enumerators, finite numbers and NaN",
     "no test calls serialization.",
     ["source/serialization.cc"], [("to_json / from_json definitions", "source/serialization.cc")],
     observe=["nlohmann::json conversion of NLSSolverOutputs"])
prop("C21", "Trace collector keeps the latest events and is thread-safe",
     "The trace collector keeps the submitted events in order, never more than 100000 of them, dropping the oldest first, and every access to its event list, including producing the JSON report, happens under its lock. The report has one entry per kept event with its name, process and thread id, its start in microseconds and its duration converted from nanoseconds to microseconds; a scope left by an exception submits nothing, any other traced scope submits exactly one event. (Names are the literals the tracing macros take; they need no JSON escaping.)",
     ["histories", "schedules", "inputs"], "all sequences of submissions from any number of threads, any interleaving with reports",
     "no test uses the trace collector; the bound needs more than 100000 events and races need interleavings.",
     ["source/tracing.cc"], [("submit_event", "source/tracing.cc"), ("get_trace_json", "source/tracing.cc"), ("~scoped_trace", "source/tracing.cc")],
     observe=["trace_collector::submit_event / get_trace_json", "scoped_trace"])
prop("C22", "No library routine reads or writes outside its storage",
     "For every problem, parameters and starting point the library accepts, every vector and matrix element, segment and block it reads or writes lies inside its container, sizes agree in every matrix operation, and no result is written over data still being read. Inputs for which this would fail (wrong vector lengths, indices out of range) raise an error instead.",
     ["inputs", "configurations"], "all problem sizes (including no bounds, no equality rows, square or redundant equality systems), all indices",
     "library builds switch Eigen's own checks off, so tests do not notice an out-of-bounds access unless it changes a sampled result.",
     [QP, NL, RS], [("block accessors", QP), ("Setup size checks", QP), ("index assertions", RS), ("starting vector size check", NL)],
     observe=["all public solver entry points"])
prop("C23", "Invalid solver parameters are refused, valid ones accepted",
     "Both solvers raise an error before doing any work exactly when a parameter lies outside its documented range: for the QP solver a non-positive initial barrier, sigma outside (0,1], a non-positive KKT tolerance or iteration limit; for the nonlinear solver negative limits or tolerances, a line-search factor outside (0,1), a penalty that is not positive, a penalty scale below 1, rho outside [0,1), damping bounds that are negative or inconsistent with the initial value, or decrease factors outside [0,1). Every parameter set inside the ranges runs without tripping a parameter error.",
     ["inputs", "configurations"], "all parameter values",
     "tests only pass valid parameters.",
     [QP, NL], [("CheckParams", QP), ("CheckParams", NL)], observe=["QPInteriorPointSolver::Solve", "ConstrainedNonlinearLeastSquares::Solve"])
prop("C24", "Nonlinear iterates respect the bounds",
     "When a nonlinear problem with bounds starts from a point satisfying every bound and uses the default additive update, every point the solver evaluates in a line search, and the variables it returns, satisfy each bound to within 1e-9, because the QP step satisfies the shifted bounds and step sizes never exceed one. This holds for every iteration, line-search strategy and termination state (exact arithmetic).",
     ["inputs", "histories"], "all problems with bounds, all feasible starting points, any number of iterations",
     "no running test exercises the nonlinear solver with bounds.",
     [NL, QP], [("ShiftTo in LinearizeAndFillQP", NL), ("RetractCandidateVars", NL), ("alpha in (0,1]", NL), ("QP bound guarantee", QP)],
     observe=["ConstrainedNonlinearLeastSquares::variables", "residual evaluation points"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
