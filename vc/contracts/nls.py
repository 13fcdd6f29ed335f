"""Contracts of the functions of ConstrainedNonlinearLeastSquares."""
from spec import *
import loops as L
from contracts.nls_poly import NLS

U = ("nonlinear",)
isfin = lambda x: bapp("isfinite", (x,))
ARMIJO = Fraction("1e-4")
EPS = Fraction("1e-9")


def errs(ex, name):
    return ex.new(Struct("Errors", {"f": var(name + ".f"), "equality": var(name + ".eq")}), name)


def total(e, pen):
    return e.f["f"] + pen * e.f["equality"]


class NLSState:
    """the solver object: problem of dimension n with symbolic costs / constraints"""
    def __init__(self, V, unit_dims=True):
        ex = V.ex
        self.V = V
        s = ex.sym("mini_opt::ConstrainedNonlinearLeastSquares", "nls")
        self.pref = s.f["p_"].ref
        p = ex.heap[self.pref.obj]
        n = p.f["dimension"]
        self.n = n
        self.C = p.f["costs"].len; self.E = p.f["equality_constraints"].len; self.M = p.f["inequality_constraints"].len
        ex.assume(s.f["p_"].nn, lt(0, n))
        for x in (self.C, self.E, self.M):
            ex.assume(le(0, x))
        self.sref = ex.new(s, "nls")
        V.st = self

    def s(self, o=None):
        h = o.heap if o is not None else self.V.ex.heap
        return h[self.sref.obj].f


# ---------------------------------------------------------------- parameters
def nls_bad(p):
    f = p.f
    lt0 = lambda k: lt(f[k], 0)
    le0 = lambda k: le(f[k], 0)
    return disj(lt0("max_iterations"), lt(f["max_qp_iterations"], 1), le0("termination_kkt_tolerance"), le0("absolute_exit_tol"),
                lt0("max_line_search_iterations"), lt0("relative_exit_tol"), lt(1, f["relative_exit_tol"]), lt0("absolute_first_derivative_tol"),
                le0("armijo_search_tau"), le(1, f["armijo_search_tau"]), le0("equality_penalty_initial"), lt(f["equality_penalty_scale_factor"], 1),
                lt0("equality_penalty_rho"), le(1, f["equality_penalty_rho"]), lt0("max_lambda"), lt0("min_lambda"), lt(f["max_lambda"], f["min_lambda"]),
                lt(f["lambda_initial"], f["min_lambda"]), lt(f["max_lambda"], f["lambda_initial"]), lt0("lambda_failure_init"),
                lt0("lambda_decrease_on_success"), le(1, f["lambda_decrease_on_success"]), lt0("lambda_decrease_on_restore"), le(1, f["lambda_decrease_on_restore"]))


@task("CheckParams (nonlinear)", "C23", units=U)
def check_params(V):
    ex = V.ex
    p = ex.sym("mini_opt::ConstrainedNonlinearLeastSquares::Params", "params")
    outs = V.run("CheckParams", None, None, [ex.new(p, "params")])
    V.throws_iff(outs, nls_bad(p), "a parameter is outside its documented range")


# ---------------------------------------------------------------- derivative and penalty
def sym_qp(V):
    ex = V.ex
    qp = ex.sym("mini_opt::QP", "qp")
    for m in ("G", "A_eq"):
        ex.assume(le(0, qp.f[m].rows)); ex.assume(le(0, qp.f[m].cols))
    for m in ("c", "b_eq"):
        ex.assume(le(0, qp.f[m].rows))
    ex.assume(le(0, qp.f["constraints"].len))
    return qp


sign = lambda x: ite(lt(0, x), num(1), ite(lt(x, 0), num(-1), ZERO))


@task("ComputeQPCostDerivative", "C17 C22", units=U)
def derivative(V):
    ex = V.ex
    qp = sym_qp(V)
    n, K = qp.f["c"].rows, qp.f["A_eq"].rows
    ex.assume(eq(qp.f["b_eq"].rows, K))
    dx = vecof(var("m", "Int"), "dx")
    ex.assume(le(0, dx.rows))
    outs = V.run("ComputeQPCostDerivative", NLS, None, [ex.new(qp, "qp"), ex.new(dx, "dx")])
    V.throws_iff(outs, disj(ne(n, dx.rows), ne(qp.f["A_eq"].cols, dx.rows)), "the sizes do not match", "C17")
    for o in V.rets(outs):
        r = o.val.f
        V.post(o, eq(r["d_f"], sumk(0, n, lambda i: qp.f["c"].at(i) * dx.at(i))), "cost derivative is c^T dx", "C17")
        V.post(o, eq(r["d_equality"], sumk(0, K, lambda k: sign(qp.f["b_eq"].at(k)) * sumk(0, n, lambda i: qp.f["A_eq"].at(k, i) * dx.at(i)))),
               "constraint derivative is the sum of sign(residual) times Jacobian row times dx", "C17")


@task("SelectPenalty", "C17 C22", units=U)
def penalty(V):
    ex = V.ex
    qp = sym_qp(V)
    n, K = qp.f["c"].rows, qp.f["A_eq"].rows
    ex.assume(eq(qp.f["b_eq"].rows, K)); ex.assume(eq(qp.f["G"].rows, n)); ex.assume(eq(qp.f["G"].cols, n))
    dx = vecof(n, "dx")
    rho = var("rho")
    ex.assume(le(0, rho)); ex.assume(lt(rho, 1))
    lm = ex.sym("std::optional<mini_opt::QPLagrangeMultipliers>", "lm")
    outs = V.run("SelectPenalty", NLS, None, [ex.new(qp, "qp"), ex.new(dx, "dx"), ex.new(lm, "lm"), rho])
    V.nothrow(outs, props="C17")
    G = qp.f["G"]
    low = lambda i, j: ite(le(j, i), G.at(i, j), G.at(j, i))
    l1 = sumk(0, K, lambda k: tabs(qp.f["b_eq"].at(k)))
    cd = sumk(0, n, lambda i: qp.f["c"].at(i) * dx.at(i))
    quad = sumk(0, n, lambda i: dx.at(i) * sumk(0, n, lambda j: low(i, j) * dx.at(j)))
    for o in V.rets(outs):
        V.post(o, implies(lm.has, eq(o.val, lm.val.f["l_infinity"])), "largest absolute multiplier when there are multipliers", "C17")
        eps = var("machine_eps")
        want = cd + Fraction(1, 2) * tmax(ZERO, quad)
        V.post(o, implies(conj(neg(lm.has), lt(EPS_MACHINE, l1)), eq(o.val * (1 - rho) * l1, want)), "null-space penalty: (c^T dx + half the curvature) / ((1 - rho) |c|_1)", "C17")
        # guarded against division by zero
        V.post(o, implies(conj(neg(lm.has), le(l1, EPS_MACHINE)), eq(o.val * (1 - rho) * EPS_MACHINE, want)), "a vanishing constraint norm is replaced by machine epsilon", "C17")


EPS_MACHINE = Fraction(1, 2 ** 52)


# ---------------------------------------------------------------- lambda rules and exit conditions
class Rule:
    pass


def update_rule(ex, pf, res, st0, lam0, last, E0, pen):
    """lambda, recovery mode and exit after a line search with outcome res (proved of UpdateLambdaAndCheckExitConditions)"""
    R = ex.enums["StepSizeSelectionResult"]; ST = ex.enums["OptimizerState"]; TS = ex.enums["NLSTerminationState"]
    r = Rule()
    r.succ = eq(res, R["SUCCESS"])
    r.fail = disj(eq(res, R["MAX_ITERATIONS"]), eq(res, R["POSITIVE_DERIVATIVE"]))
    r.fo = eq(res, R["FIRST_ORDER_SATISFIED"])
    nominal = eq(st0, ST["NOMINAL"])
    fac = ite(nominal, pf["lambda_decrease_on_success"], pf["lambda_decrease_on_restore"])
    r.lam = ite(r.succ, tmax(lam0 * fac, pf["min_lambda"]), ite(r.fail, ite(nominal, tmax(pf["lambda_failure_init"], 10 * lam0), 10 * lam0), lam0))
    r.state = ite(r.succ, num(ST["NOMINAL"]), ite(r.fail, num(ST["ATTEMPTING_RESTORE_LM"]), st0))
    r.absok = conj(r.succ, lt(tmax(last.f["f"], last.f["equality"]), pf["absolute_exit_tol"]))
    r.relok = conj(r.succ, neg(r.absok), lt(total(E0, pen) * (1 - pf["relative_exit_tol"]), total(last, pen)))
    r.lmax = conj(r.fail, lt(pf["max_lambda"], r.lam))
    r.has = disj(r.absok, r.relok, r.fo, r.lmax)
    r.val = ite(r.absok, num(TS["SATISFIED_ABSOLUTE_TOL"]), ite(r.relok, num(TS["SATISFIED_RELATIVE_TOL"]), ite(r.fo, num(TS["SATISFIED_FIRST_ORDER_TOL"]), num(TS["MAX_LAMBDA"]))))
    return r


@task("UpdateLambdaAndCheckExitConditions", "C15 C16 C22", units=U)
def update_lambda(V):
    ex = V.ex
    S = NLSState(V)
    E = ex.enums
    R = E["StepSizeSelectionResult"]; ST = E["OptimizerState"]; TS = E["NLSTerminationState"]
    p = ex.sym("mini_opt::ConstrainedNonlinearLeastSquares::Params", "params")
    ex.assume(neg(nls_bad(p)))
    res = var("result", "Int")
    ex.assume(disj(*[eq(res, x) for x in R.values()]))
    s0 = S.s()
    st0 = s0["state_"]
    ex.assume(disj(*[eq(st0, x) for x in ST.values()]))
    n = s0["steps_"].len
    ex.assume(le(0, n))
    e0 = errs(ex, "initial")
    E0 = ex.load(e0)
    lam0 = var("lambda0")
    ex.assume(le(p.f["min_lambda"], lam0))
    lam = ex.new(lam0, "lambda")
    pen = var("penalty")
    outs = V.run("UpdateLambdaAndCheckExitConditions", NLS, S.sref, [ex.new(p, "params"), res, e0, pen, lam])
    V.assumptions.append("UpdateLambdaAndCheckExitConditions: parameters in range and lambda >= min_lambda on entry (kept by every call)")
    succ = eq(res, R["SUCCESS"])
    V.throws_iff(outs, conj(succ, eq(n, 0)), "a success is reported without a logged step", "C15 C16")
    fail = disj(eq(res, R["MAX_ITERATIONS"]), eq(res, R["POSITIVE_DERIVATIVE"]))
    fo = eq(res, R["FIRST_ORDER_SATISFIED"])
    last = s0["steps_"].fn(n - 1).f["errors"]
    for o in V.rets(outs):
        s = S.s(o)
        l = o.heap[lam.obj]
        nominal = eq(st0, ST["NOMINAL"])
        pf = p.f
        # variables
        vs, cs = s["variables_"], s["candidate_vars_"]
        for path, q in value_eq(vs, s0["candidate_vars_"]):
            V.post(o, implies(succ, q), "an accepted candidate becomes the variables " + path, "C15")
        for path, q in value_eq(vs, s0["variables_"]):
            V.post(o, implies(neg(succ), q), "without an accepted step the variables stay " + path, "C15")
        # lambda
        fac = ite(nominal, pf["lambda_decrease_on_success"], pf["lambda_decrease_on_restore"])
        V.post(o, implies(succ, eq(l, tmax(lam0 * fac, pf["min_lambda"]))), "lambda after an accepted step", "C15")
        V.post(o, implies(conj(fail, nominal), eq(l, tmax(pf["lambda_failure_init"], 10 * lam0))), "lambda after the first failure", "C15")
        V.post(o, implies(conj(fail, neg(nominal)), eq(l, 10 * lam0)), "lambda after a further failure", "C15")
        V.post(o, implies(neg(disj(succ, fail)), eq(l, lam0)), "lambda is untouched otherwise", "C15")
        V.post(o, le(pf["min_lambda"], l), "lambda never falls below its minimum", "C15")
        # state
        V.post(o, implies(succ, eq(s["state_"], ST["NOMINAL"])), "success ends the recovery mode", "C15")
        V.post(o, implies(fail, eq(s["state_"], ST["ATTEMPTING_RESTORE_LM"])), "a failure starts or keeps the recovery mode", "C15")
        V.post(o, implies(neg(disj(succ, fail)), eq(s["state_"], st0)), "the mode is otherwise unchanged", "C15")
        # exit
        r = o.val
        tv = r.val if r.val is not None else num(-1)
        has = r.has
        absok = conj(succ, lt(tmax(last.f["f"], last.f["equality"]), pf["absolute_exit_tol"]))
        relok = conj(succ, neg(absok), lt(total(E0, pen) * (1 - pf["relative_exit_tol"]), total(last, pen)))
        lmax = conj(fail, lt(pf["max_lambda"], l))
        V.post(o, iff(conj(has, eq(tv, TS["SATISFIED_ABSOLUTE_TOL"])), absok), "absolute tolerance exactly when cost and constraint error of the accepted step are below it", "C16")
        V.post(o, iff(conj(has, eq(tv, TS["SATISFIED_RELATIVE_TOL"])), relok), "relative tolerance exactly when the merit decrease is too small", "C16")
        V.post(o, iff(conj(has, eq(tv, TS["SATISFIED_FIRST_ORDER_TOL"])), fo), "first order tolerance exactly when the line search found a stationary point", "C16")
        V.post(o, iff(conj(has, eq(tv, TS["MAX_LAMBDA"])), lmax), "maximum lambda exactly when a raise takes lambda above its maximum", "C15 C16")
        V.post(o, implies(has, disj(absok, relok, fo, lmax)), "no other reason to stop", "C16")
        u = update_rule(ex, pf, res, st0, lam0, last, E0, pen)
        V.post(o, conj(eq(l, u.lam), eq(s["state_"], u.state), iff(has, u.has), implies(has, eq(tv, u.val))), "summary used by Solve", "C15 C16")
        V.frame(o, S.sref, ("variables_", "candidate_vars_", "state_"), props="C15 C16")
        V.frame(o, S.pref, (), "problem unchanged", props="C15")


# ---------------------------------------------------------------- retraction
@task("RetractCandidateVars", "C13 C15 C22 C24", units=U)
def retract(V):
    ex = V.ex
    S = NLSState(V)
    s0 = S.s()
    n = S.n
    for f in ("variables_", "dx_"):
        ex.assume(eq(s0[f].rows, n))
    ex.assume(le(0, s0["candidate_vars_"].rows))
    has = bvar("has_retraction")

    def retraction(ex, args):
        x = ex.load(args[0])
        a = args[2]
        d = ex.load(args[1])
        for path, q in value_eq(x, s0["variables_"]):
            ex.oblige(q, "the custom retraction starts from the variables " + path, ("C13", "C15"), assume=False)
        for path, q in value_eq(d, s0["dx_"]):
            ex.oblige(q, "the custom retraction is given the direction " + path, ("C13", "C15"), assume=False)
        ex.oblige(eq(ex.load(a), var("alpha")), "the custom retraction is given the step size", ("C13",), assume=False)
        ex.store(args[0], vecof(n, "retracted"))
    ex.heap[S.sref.obj] = ex.heap[S.sref.obj].with_("custom_retraction_", Opaque("function", name="retraction", nn=has))
    outs = V.run("RetractCandidateVars", NLS, S.sref, [var("alpha")],
                 contracts={("function", "retraction"): lambda ex, f, args, node: retraction(ex, args)})
    V.nothrow(outs, props="C13")
    for o in V.rets(outs):
        c = S.s(o)["candidate_vars_"]
        V.post(o, eq(c.rows, n), "candidate has the length of the variables", "C13 C22 C24")
        V.post(o, implies(neg(has), allk(0, n, lambda i: eq(c.at(i), s0["variables_"].at(i) + var("alpha") * s0["dx_"].at(i)))), "default update adds alpha times the direction", "C13 C24 C15")
        V.post(o, implies(has, allk(0, n, lambda i: eq(c.at(i), app("retracted", (i,))))), "candidate is the result of the custom retraction", "C13 C15")
        V.frame(o, S.sref, ("candidate_vars_",), props="C13 C15 C24")


# ---------------------------------------------------------------- line search
AL = lambda j: app("AL", (P(j),))
CAND = lambda a: app("CAND", (a,), "Int")
ERF = lambda t: app("ERF", (t,))
ERE = lambda t: app("ERE", (t,))
VEC = lambda t, i: app("VECEL", (t, P(i)))


def tokvec(n, t):
    return Mat(n, 1, lambda i, j: VEC(t, i), tok=t)


def step_total(t, pen):
    return ERF(t) + pen * ERE(t)


class LineSearch(L.LoopSpec):
    props = ("C13", "C15", "C16")

    def __init__(self, V, S, a):
        self.V = V; self.S = S; self.a = a

    def start(self, ex, info):
        self.info = info
        if not any(w.obj == self.S.sref.obj and w.path and w.path[0][1] == "steps_" for w in info.W):
            raise L.Decline()
        solved = {s.loc for s in info.slots.values() if s.closed is not None}
        solved = {(l.obj, tuple(l.path)) for l in solved}
        self.alphas = [w for w in info.W if isinstance(info.pre[(w.obj, w.path)], Poly) and const_of(info.pre[(w.obj, w.path)]) == 1 and (w.obj, tuple(w.path)) not in solved]

    def facts(self, k):
        """about the steps before step k"""
        a = self.a
        j = [fresh("j") for _ in range(8)]
        rng = lambda x: conj(le(0, x), lt(x, k))
        t = lambda x: CAND(AL(x))
        out = [("every step size is in (0, 1]", forall([j[0]], implies(rng(j[0]), conj(lt(0, AL(j[0])), le(AL(j[0]), 1))))),
               ("the first step size is 1", implies(lt(0, k), eq(AL(0), 1))),
               ("step sizes strictly decrease", forall([j[1]], implies(conj(rng(j[1]), le(1, j[1])), lt(AL(j[1]), AL(j[1] - 1))))),
               ("backtracking multiplies by the configured factor", implies(a.backtrack, forall([j[2]], implies(conj(rng(j[2]), le(1, j[2])), eq(AL(j[2]), AL(j[2] - 1) * a.tau))))),
               ]
        return out

    def rejected(self, k):
        a = self.a
        j = [fresh("j") for _ in range(3)]
        rng = lambda x: conj(le(0, x), lt(x, k))
        t = lambda x: CAND(AL(x))
        return [("rejected steps had finite costs", forall([j[0]], implies(rng(j[0]), conj(isfin(ERF(t(j[0]))), isfin(ERE(t(j[0]))))))),
                ("rejected steps lack sufficient decrease", forall([j[1]], implies(rng(j[1]), neg(a.armijo(AL(j[1])))))),
                ("a search continues only with a non-positive derivative", implies(lt(0, k), conj(le(a.dd, 0), neg(a.stationary))))]

    def log(self, ex, k):
        st = ex.heap[self.S.sref.obj].f["steps_"]
        j = fresh("j")
        e = st.fn(j)
        return [("one logged step per attempt", eq(st.len, k)),
                ("logged step sizes and errors", forall([j], implies(conj(le(0, j), lt(j, k)), conj(
                    eq(e.f["alpha"], AL(j)), eq(e.f["errors"].f["f"], ERF(CAND(AL(j)))), eq(e.f["errors"].f["equality"], ERE(CAND(AL(j))))))))]

    def invariants(self, ex, k, info):
        out = self.log(ex, k) + self.facts(k) + self.rejected(k) + [("within the attempt limit", le(k, self.a.max + 1))]
        for w in self.alphas:
            out.append(("current step size", eq(ex.load(w.ref), ite(le(k, 0), ONE, AL(k - 1)))))
        return out

    def before(self, ex, k, info):
        ex.trace.append(("iter", k))
        self.k = k
        for w in info.W:
            pass

    def step(self, ex, pre_heap, k, info):
        st = ex.heap[self.S.sref.obj].f["steps_"]
        ex.ctx.assume(eq(AL(k), st.fn(k).f["alpha"]))

    def on_exit(self, ex, k, info):
        ex.trace.append(("exit", k))


class SearchArgs:
    pass


def search_contracts(V, S, a):
    def retract(ex, this, args, node):
        al = ex.load(args[0])
        s0 = ex.heap[S.sref.obj].f
        x, d = s0["variables_"], s0["dx_"]
        i, l = fresh("i"), fresh("l")
        # contract of RetractCandidateVars
        ex.ctx.assume(implies(a.default, forall([i], implies(conj(le(0, i), lt(i, S.n)), eq(VEC(CAND(al), i), x.at(i) + al * d.at(i))))))
        # lemma (C24): a bound that holds at the start and after the full step holds in between
        c = a.bound(l)
        A0 = c["a"] * x.at(c["variable"]) + c["b"]
        A1 = A0 + c["a"] * d.at(c["variable"])
        ex.oblige(conj(lt(0, al), le(al, 1)), "a candidate is tried with a step size in (0, 1]", ("C13", "C24"))
        ex.ctx.assume(forall([l], implies(conj(le(0, l), lt(l, S.M), le(-EPS, A0), le(-EPS, A1)), le(-EPS, A0 + al * (A1 - A0)))))
        ex.store(S.sref.f("candidate_vars_"), tokvec(S.n, CAND(al)))
        ex.trace.append(("retract", al))

    def evaluate(ex, this, args, node):
        v = ex.load(args[0])
        t = ex.token(v)
        l = fresh("l")
        c = a.bound(l)
        ex.oblige(implies(conj(a.default, a.inside), forall([l], implies(conj(le(0, l), lt(l, S.M)), le(-EPS, c["a"] * v.at(c["variable"]) + c["b"])))),
                  "every point evaluated in the line search satisfies the bounds to within 1e-9", ("C24",), assume=False)
        ex.trace.append(("evaluate", t))
        h = ex.heap[S.sref.obj]
        b = h.f["error_buffer_"]
        ex.store(S.sref.f("error_buffer_"), vecof(b.rows, "scratch%d" % ex._uid()))
        return Struct("Errors", {"f": ERF(t), "equality": ERE(t)})

    def poly(ex, this, args, node):
        it = ex.load(args[0])
        e = ex.load(args[1]); d = ex.load(args[2]); pen = ex.load(args[3])
        for nm, x, y in (("initial cost", e.f["f"], a.E.f["f"]), ("initial constraint norm", e.f["equality"], a.E.f["equality"]), ("cost derivative", d.f["d_f"], a.D.f["d_f"]),
                         ("constraint derivative", d.f["d_equality"], a.D.f["d_equality"]), ("penalty", pen, a.pen)):
            ex.oblige(eq(x, y), "the model is built from the " + nm + " of the search", ("C13", "C14"), assume=False)
        st = ex.heap[S.sref.obj].f["steps_"]
        n = st.len
        ex.oblige(conj(le(1, it), le(1, n), eq(it, n)), "the model of attempt n is built from n logged steps", ("C13", "C14", "C22"), assume=False)
        ex.oblige(lt(0, st.fn(n - 1).f["alpha"]), "the last step size is positive", ("C13", "C14"), assume=False)
        ex.oblige(implies(le(2, it), lt(st.fn(n - 1).f["alpha"], st.fn(n - 2).f["alpha"])), "the last two step sizes decrease", ("C13", "C14"), assume=False)
        ex.trace.append(("proposal", it))
        return OptV(bapp("PROPOSED", (it,)), app("PROPOSAL", (it,)), "double")
    return {(NLS, "RetractCandidateVars"): retract, (NLS, "EvaluateNonlinearErrors"): evaluate, (NLS, "ComputeAlphaPolynomialApproximation"): poly}


@task("SelectStepSize", "C13 C14 C15 C16 C22 C24", units=U)
def select_step(V):
    ex = V.ex
    S = NLSState(V)
    E = ex.enums
    R = E["StepSizeSelectionResult"]; LS = E["LineSearchStrategy"]
    a = SearchArgs()
    a.max = var("max_iterations", "Int"); a.tol = var("first_derivative_tol")
    a.strategy = var("strategy", "Int"); a.tau = var("tau")
    e0 = errs(ex, "pre")
    a.E = ex.load(e0)
    a.D = Struct("DirectionalDerivatives", {"d_f": var("d_f"), "d_equality": var("d_eq")})
    d0 = ex.new(a.D, "derivatives")
    a.pen = var("penalty"); a.c1 = var("c1")
    a.dd = a.D.f["d_f"] + a.pen * a.D.f["d_equality"]
    a.backtrack = eq(a.strategy, LS["ARMIJO_BACKTRACK"])
    a.stationary = lt(tmax(tabs(a.D.f["d_f"]), tabs(a.D.f["d_equality"])), a.tol)
    a.armijo = lambda al: le(step_total(CAND(al), a.pen), total(a.E, a.pen) + a.dd * al * a.c1)
    ex.assume(le(0, a.max)); ex.assume(disj(*[eq(a.strategy, x) for x in LS.values()]))
    ex.assume(lt(0, a.tau)); ex.assume(lt(a.tau, 1))
    V.assumptions.append("SelectStepSize: at least zero line search iterations and a backtracking factor in (0, 1) (CheckParams)")
    s0 = S.s()
    ex.assume(le(0, s0["steps_"].len)); ex.assume(le(0, s0["error_buffer_"].rows))
    ex.assume(eq(s0["variables_"].rows, S.n), eq(s0["dx_"].rows, S.n))
    # C24: the start and the full step satisfy the bounds to within 1e-9, and the update is additive
    a.default = bvar("additive_update"); a.inside = bvar("start_and_full_step_inside")
    bc = ex.heap[S.pref.obj].f["inequality_constraints"]
    a.bound = lambda l: bc.fn(l).f
    l = fresh("l")
    x, d = s0["variables_"], s0["dx_"]
    c = a.bound(l)
    A0 = c["a"] * x.at(c["variable"]) + c["b"]
    ex.assume(implies(a.inside, forall([l], implies(conj(le(0, l), lt(l, S.M)), conj(le(0, c["variable"]), lt(c["variable"], S.n), le(-EPS, A0), le(-EPS, A0 + c["a"] * d.at(c["variable"])))))))
    spec = LineSearch(V, S, a)
    outs = V.run("SelectStepSize", NLS, S.sref, [a.max, a.tol, e0, d0, a.pen, a.c1, a.strategy, a.tau],
                 contracts=search_contracts(V, S, a), loops=[lambda ex, node: spec])
    bad = disj(le(a.pen, 0), neg(isfin(a.E.f["f"])), neg(isfin(a.E.f["equality"])))
    V.throws_iff(outs, bad, "the penalty is not positive or the initial errors are not finite", "C13")
    for o in V.rets(outs):
        s = S.s(o)
        steps = s["steps_"]
        n = steps.len
        r = o.val
        c = o.ctx.copy()
        exitk = loop_left_at(o.trace, ("evaluate", "proposal"))
        its = [x[1] for x in o.trace if x[0] == "iter"]
        done = exitk[0] if exitk else its[-1]
        prop = [x[1] for x in o.trace if x[0] == "proposal"]
        invalid = conj(neg(a.backtrack), lt(0, done), disj(neg(bapp("PROPOSED", (done,))), neg(isfin(app("PROPOSAL", (done,)))), le(app("PROPOSAL", (done,)), 0),
                                                                           le(AL(done - 1), app("PROPOSAL", (done,)))))
        if not exitk and any(x[0] == "evaluate" for x in o.trace):
            # returned after logging step number `done`
            V.post(c, eq(n, done + 1), "one logged step per attempt", "C13 C16")
            last = steps.fn(done)
            c.assume(eq(AL(done), last.f["alpha"]))
            al = AL(done)
            V.post(c, conj(eq(last.f["errors"].f["f"], ERF(CAND(al))), eq(last.f["errors"].f["equality"], ERE(CAND(al)))), "the last step logs the errors of its candidate", "C13 C16 C15")
            for lab, q in spec.facts(done + 1):
                V.post(c, q, lab, "C13 C24")
            t = CAND(al)
            fin = conj(isfin(ERF(t)), isfin(ERE(t)))
            cases = {"FAILURE_NON_FINITE_COST": neg(fin), "FIRST_ORDER_SATISFIED": conj(fin, a.stationary), "POSITIVE_DERIVATIVE": conj(fin, neg(a.stationary), lt(0, a.dd)),
                     "SUCCESS": conj(fin, neg(a.stationary), le(a.dd, 0), a.armijo(al))}
            for nm, q in cases.items():
                V.post(c, iff(eq(r, R[nm]), q), "outcome %s exactly for its reason" % nm, "C13 C15 C16")
            V.post(c, disj(*[eq(r, R[x]) for x in cases]), "no other outcome after an evaluated step", "C13 C16")
            V.post(c, eq(ex.token(s["candidate_vars_"]), t), "the candidate left behind is the last one evaluated", "C13 C15 C24")
            V.post(c, conj(le(n, a.max + 1), le(1, n)), "between one and the maximum plus one attempts", "C13")
        else:
            V.post(c, eq(n, done), "one logged step per attempt", "C13 C16")
            for lab, q in spec.facts(done):
                V.post(c, q, lab, "C13 C24")
            V.post(c, iff(eq(r, R["FAILURE_INVALID_ALPHA"]), conj(lt(done, a.max + 1), invalid)), "outcome FAILURE_INVALID_ALPHA exactly for its reason", "C13 C16")
            V.post(c, iff(eq(r, R["MAX_ITERATIONS"]), eq(done, a.max + 1)), "outcome MAX_ITERATIONS exactly after the maximum plus one attempts", "C13 C15 C16")
            V.post(c, disj(eq(r, R["FAILURE_INVALID_ALPHA"]), eq(r, R["MAX_ITERATIONS"])), "no other outcome without an evaluated step", "C13 C16")
            V.post(c, le(n, a.max + 1), "at most the maximum plus one attempts", "C13")
        for lab, q in spec.rejected(done):
            V.post(c, q, lab, "C13 C16")
        j = fresh("j")
        e = steps.fn(j)
        V.post(c, forall([j], implies(conj(le(0, j), lt(j, n)), conj(
            eq(e.f["alpha"], AL(j)), eq(e.f["errors"].f["f"], ERF(CAND(AL(j)))), eq(e.f["errors"].f["equality"], ERE(CAND(AL(j))))))), "every logged step has its own step size and errors", "C13 C16")
        V.frame(o, S.sref, ("candidate_vars_", "steps_", "error_buffer_"), props="C13 C15 C24")
        V.frame(o, S.pref, (), "problem unchanged", props="C13")


@task("ComputeAlphaPolynomialApproximation", "C14 C13 C22", units=U)
def poly_alpha(V):
    ex = V.ex
    S = NLSState(V)
    e0 = errs(ex, "pre"); E0 = ex.load(e0)
    D = Struct("DirectionalDerivatives", {"d_f": var("d_f"), "d_equality": var("d_eq")})
    d0 = ex.new(D, "derivatives")
    pen = var("penalty"); it = var("iteration", "Int")
    st = S.s()["steps_"]
    n = st.len
    ex.assume(le(0, n))
    al = lambda j: st.fn(j).f["alpha"]
    tot = lambda j: total(st.fn(j).f["errors"], pen)
    # precondition proved at the call in SelectStepSize
    ex.assume(implies(le(1, it), eq(n, it)))
    ex.assume(implies(le(1, it), lt(0, al(n - 1)))); ex.assume(implies(le(2, it), lt(al(n - 1), al(n - 2))))
    V.assumptions.append("ComputeAlphaPolynomialApproximation: one logged step per attempt with positive, decreasing step sizes (proved at its call in SelectStepSize)")
    args_ = []

    def note(name, ret):
        def c(ex, this, args, node):
            args_.append((name, [ex.load(x) for x in args]))
            ex.trace.append((name, [ex.load(x) for x in args]))
            if name == "CubicApproxCoeffs":
                v = [ex.load(x) for x in args]
                ex.oblige(conj(lt(0, v[4]), lt(v[4], v[2])), "cubic model: alpha0 > alpha1 > 0", ("C14", "C13"), assume=False)
            return ret
        return c
    cs = {(NLS, "QuadraticApproxMinimum"): note("QuadraticApproxMinimum", OptV(bapp("QHAS", ()), var("QVAL"), "double")),
          (NLS, "CubicApproxCoeffs"): note("CubicApproxCoeffs", Mat(2, 1, lambda i, j: app("COEF", (i,)))),
          (NLS, "CubicApproxMinimum"): note("CubicApproxMinimum", OptV(bapp("CHAS", ()), var("CVAL"), "double"))}
    outs = V.run("ComputeAlphaPolynomialApproximation", NLS, S.sref, [it, e0, d0, pen], contracts=cs)
    V.throws_iff(outs, lt(it, 1), "the iteration is less than one", "C14")
    p0, d = total(E0, pen), D.f["d_f"] + pen * D.f["d_equality"]
    for o in V.rets(outs):
        tr = dict(x for x in o.trace if x[0] in ("QuadraticApproxMinimum", "CubicApproxCoeffs", "CubicApproxMinimum"))
        quad = "QuadraticApproxMinimum" in tr
        V.post(o, iff(TRUE if quad else FALSE, eq(it, 1)), "quadratic model on the first attempt after the full step, cubic afterwards", "C14")
        r = o.val
        if quad:
            a = tr["QuadraticApproxMinimum"]
            for nm, x, y in zip(("value at zero", "slope at zero", "trial step", "trial value"), a, (p0, d, al(0), tot(0))):
                V.post(o, eq(x, y), "quadratic model: " + nm, "C14")
            V.post(o, conj(iff(r.has, bapp("QHAS", ())), implies(r.has, eq(r.val, var("QVAL")))), "the quadratic minimizer is returned", "C14")
        if "CubicApproxCoeffs" in tr:
            a = tr["CubicApproxCoeffs"]
            for nm, x, y in zip(("value at zero", "slope at zero", "first trial step", "first trial value", "second trial step", "second trial value"), a,
                                (p0, d, al(n - 2), tot(n - 2), al(n - 1), tot(n - 1))):
                V.post(o, eq(x, y), "cubic model: " + nm, "C14")
        if "CubicApproxMinimum" in tr:
            a = tr["CubicApproxMinimum"]
            V.post(o, eq(a[0], d), "cubic minimum: slope at zero", "C14")
            V.post(o, allk(0, 2, lambda i: eq(a[1].at(i), app("COEF", (i,)))), "cubic minimum: of the interpolating coefficients", "C14")
            V.post(o, conj(iff(r.has, bapp("CHAS", ())), implies(r.has, eq(r.val, var("CVAL")))), "the cubic stationary point is returned", "C14")
        if not quad:
            V.post(o, TRUE if "CubicApproxMinimum" in tr and "CubicApproxCoeffs" in tr else FALSE, "the cubic model is used", "C14")
        V.frame(o, S.sref, (), props="C14")


@lemma("bound lemma: a bound that holds before and after the full step holds for every smaller step", "C24")
def step_bound_lemma(V):
    A0, A1, al = var("A0"), var("A1"), var("al")
    c = Ctx([le(-EPS, A0), le(-EPS, A1), lt(0, al), le(al, 1)])
    V.pre = c
    V.post(c, le(-EPS, A0 + al * (A1 - A0)), "between two admissible values")
    V.post(c, le(-EPS, A1), "at the full step")


# ---------------------------------------------------------------- the penalty makes the step a descent direction
def feasible_step(V):
    """A dx + b = 0: the constraint derivative of ComputeQPCostDerivative is -|b|_1"""
    K, n = var("K", "Int"), var("n", "Int")
    b = lambda k: app("b", (P(k),)); A = lambda k, i: app("A", (P(k), P(i))); dx = lambda i: app("dx", (P(i),))
    ad = lambda k: sumk(0, n, lambda i: A(k, i) * dx(i))
    c = Ctx([le(0, K), le(0, n)])
    c.assume(allk(0, K, lambda k: eq(ad(k) + b(k), 0)))
    V.pre = c.copy()
    l1 = sumk(0, K, lambda k: tabs(b(k)))
    de = sumk(0, K, lambda k: sign(b(k)) * ad(k))
    V.sum_nonneg(c, 0, K, lambda k: -tabs(b(k)) - sign(b(k)) * ad(k), "each row lowers the constraint norm by its size")
    V.sum_nonneg(c, 0, K, lambda k: tabs(b(k)) + sign(b(k)) * ad(k), "each row lowers the constraint norm by its size, no more")
    V.sum_nonneg(c, 0, K, lambda k: tabs(b(k)), "the constraint norm is not negative")
    V.post(c, eq(de, -l1), "the constraint derivative is minus the constraint norm")
    c.assume(eq(de, -l1))
    return c, K, n, b, A, dx, ad, l1, de


@lemma("penalty lemma: the null-space penalty makes a linearized-feasible step a descent direction of the merit function", "C17")
def penalty_lemma_nullspace(V):
    c, K, n, b, A, dx, ad, l1, de = feasible_step(V)
    cd, quad, rho, pen = var("cd"), var("quad"), var("rho"), var("pen")
    want = cd + Fraction(1, 2) * tmax(ZERO, quad)
    base = [le(0, rho), lt(rho, 1), lt(0, pen)]
    c = c.extend(base + [lt(EPS_MACHINE, l1)])
    L1, DE, NP = var("L1"), var("DE"), var("new_penalty")
    g = Ctx(base + [lt(EPS_MACHINE, L1), eq(DE, -L1), eq(NP * (1 - rho) * L1, want), le(NP, pen)])
    # (pen - NP) * L1 >= 0
    V.post(g, le(NP * L1, pen * L1), "the penalty in force is at least the selected one")
    g2 = g.extend([le(NP * L1, pen * L1)])
    V.post(g2, implies(le(0, want), le(want, NP * L1)), "dividing by 1 - rho does not lower a positive demand")
    g3 = g2.extend([implies(le(0, want), le(want, NP * L1)), le(0, pen * L1)])
    V.post(g2, le(0, pen * L1), "the penalty term is not negative")
    V.post(g3, le(cd + pen * DE, 0), "the merit function does not increase along the step")


@lemma("penalty lemma: a penalty of at least the largest multiplier makes an optimal interior-point step a descent direction", "C17")
def penalty_lemma_ip(V):
    c, K, n, b, A, dx, ad, l1, de = feasible_step(V)
    M = var("M", "Int")
    G = lambda i, j: app("G", (P(i), P(j)))
    y = lambda k: app("y", (P(k),)); z = lambda l: app("z", (P(l),)); a = lambda l: app("a", (P(l),)); v = lambda l: app("vv", (P(l),), "Int")
    bb = lambda l: app("bb", (P(l),))
    linf, pen = var("linf"), var("pen")
    c = c.extend([le(0, M)])
    # stationarity: G dx + c - A' y - sum_l a_l z_l e_{v(l)} = 0, so c is the following
    grad = lambda i: -sumk(0, n, lambda j: G(i, j) * dx(j)) + sumk(0, K, lambda k: A(k, i) * y(k)) + sumk(0, M, lambda l: bracket(eq(v(l), i)) * a(l) * z(l))
    quad = sumk(0, n, lambda i: dx(i) * sumk(0, n, lambda j: G(i, j) * dx(j)))
    c.assume(allk(0, M, lambda l: conj(le(0, v(l)), lt(v(l), n))))
    cd = sumk(0, n, lambda i: grad(i) * dx(i))
    rhs = -quad + sumk(0, K, lambda k: y(k) * ad(k)) + sumk(0, M, lambda l: z(l) * a(l) * dx(v(l)))
    V.post(c, eq(cd, rhs), "stationarity, multiplied by the step")
    # complementarity z (a dx + b) = 0, shifted bound values b >= 0 at the current point, z >= 0
    c1 = c.extend([allk(0, M, lambda l: conj(le(0, z(l)), le(0, bb(l)), eq(z(l) * (a(l) * dx(v(l)) + bb(l)), 0)))])
    V.sum_nonneg(c1, 0, M, lambda l: -(z(l) * a(l) * dx(v(l))), "an active bound does not add to the derivative")
    c2 = c.extend([allk(0, K, lambda k: le(tabs(y(k)), linf))])
    V.sum_nonneg(c2, 0, K, lambda k: linf * tabs(b(k)) - y(k) * ad(k), "each row contributes at most the largest multiplier times its residual")
    L1, DE, Q, Y, Z, CD = (var(x) for x in ("L1", "DE", "Q", "Y", "Z", "CD"))
    g = Ctx([eq(CD, -Q + Y + Z), le(Z, 0), le(Y, linf * L1), le(linf, pen), le(0, L1), eq(DE, -L1)])
    V.post(g, le(linf * L1, pen * L1), "the penalty in force is at least the largest multiplier")
    g2 = g.extend([le(linf * L1, pen * L1)])
    V.post(g2, le(CD + pen * DE, -Q), "the merit function decreases by at least the curvature along the step")
