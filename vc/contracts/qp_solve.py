"""Contract of QPInteriorPointSolver::Solve, over the contracts of the functions it calls.

Vectors are named by tokens: VEL(t, i) is component i of the vector named t, NEXT(t, mu, strategy) names the
variables after Iterate (which is a function of problem, variables, barrier and strategy: its contract is proved
without left-over contents).  TOK(j) / MUS(j) are ghost sequences: variables and barrier value before iteration j."""
from spec import *
import loops as L
from contracts.qp import *
from contracts.qp_guess import EPS

ERRF = ("r_dual", "r_comp", "r_primal_eq", "r_primal_ineq")
VEL = lambda t, i: app("VEL", (t, P(i)))
TOK = lambda j: app("TOK", (P(j),), "Int")
MUS = lambda j: app("MUS", (P(j),))
ERR = lambda f, t, mu: app("ERR_" + f, (t, mu))
ERRMAX = lambda t, mu: tmax(tmax(tmax(ERR("r_dual", t, mu), ERR("r_comp", t, mu)), ERR("r_primal_eq", t, mu)), ERR("r_primal_ineq", t, mu))
MUV = lambda t: app("MU", (t,))


def vec_of(S, t):
    return Mat(S.n, 1, lambda i, j: VEL(t, i), tok=t)


class SolveContracts(QPContracts):
    def __init__(self, V, S):
        self.V = V; self.S = S

    def positive_at(self, t):
        S = self.S
        out = []
        for off in (S.N, S.N + S.M + S.K):
            l = fresh("l")
            out.append(forall([l], implies(conj(le(off, l), lt(l, off + S.M)), lt(0, VEL(t, l)))))
        return conj(*out)

    def gap(self, t, l):
        S = self.S
        return S.a(l) * VEL(t, S.idx(l)) + S.b(l) - VEL(t, S.N + l)

    def gap_ok(self, t):
        S = self.S
        l = fresh("l")
        return forall([l], implies(conj(le(0, l), lt(l, S.M)), conj(le(-EPS, self.gap(t, l)), le(self.gap(t, l), 0))))

    def guess(self, ex, this, args, node):
        V, S = self.V, self.S
        p = ex.load(args[0])
        V.ex.trace.append(("guess",))
        self.V.note_params(ex, p)
        user = eq(p.f["initial_guess_method"], V.user)
        if ex.branch(user):
            return None
        c = ex.choose(3)
        if c == 1:
            raise X.ThrowExc("FailedFactorization")
        if c == 2:
            raise X.ThrowExc("a zero bound coefficient")
        t = app("GUESS", (p.f["initial_guess_method"],), "Int")
        self.setf(ex, variables_=vec_of(S, t), r_=vecof(S.n, "guess_r"), delta_=vecof(S.n, "guess_d"), delta_affine_=vecof(S.n, "guess_da"))
        ex.assume(self.positive_at(t), le(0, MUV(t)))
        ex.assume(implies(V.feasible, self.gap_ok(t)))
        return None

    def evaluate_kkt(self, ex, this, args, node):
        S = self.S
        if args and ex.load(args[0]) is not TRUE:
            raise Unsupported("residuals without bounds in Solve")
        t = ex.token(self.st(ex).f["variables_"])
        self.setf(ex, r_=Mat(S.n, 1, lambda i, j: app("KKT", (t, i))))

    def errors(self, ex, this, args, node):
        S = self.S
        s = self.st(ex)
        mu = ex.load(args[0])
        t = ex.token(s.f["variables_"])
        ex.oblige(allk(0, S.n, lambda i: eq(s.f["r_"].at(i), app("KKT", (t, i)))), "errors are computed from the residuals of the current variables", ("C09", "C04"), assume=False)
        ex.trace.append(("errors", t, mu))
        es = {f: ERR(f, t, mu) for f in ERRF}
        for f in ERRF:
            ex.assume(le(0, es[f]))
        return Struct("KKTError", es)

    def mu_(self, ex, this, args, node):
        S = self.S
        v = self.st(ex).f["variables_"]
        t = ex.token(v)
        return MUV(t)

    def iterate(self, ex, this, args, node):
        V, S = self.V, self.S
        s = self.st(ex)
        mu = ex.load(args[0]); strat = ex.load(args[1])
        v = s.f["variables_"]
        t = ex.token(v)
        for nme in ("s", "z"):
            off = {"s": S.N, "z": S.N + S.M + S.K}[nme]
            ex.oblige(allk(0, S.M, lambda l: lt(0, v.at(off + l))), "iteration: block %s is strictly positive" % nme, ("C06",), assume=False)
        ex.oblige(eq(strat, V.params.f["barrier_strategy"]), "iteration: uses the configured barrier strategy", ("C10",), assume=False)
        if ex.choose(2) == 1:
            raise X.ThrowExc("FailedFactorization")
        nt = app("NEXT", (t, mu, strat), "Int")
        self.setf(ex, variables_=vec_of(S, nt), r_=Mat(S.n, 1, lambda i, j: app("KKT", (t, i))), delta_=vecof(S.n, "it_d"), delta_affine_=vecof(S.n, "it_da"),
                  r_dual_aug_=vecof(S.N, "it_aug"))
        out = self.output(ex, t, mu, strat)
        ap = out.f["alpha"].f["primal"]
        ex.assume(implies(lt(0, S.M), conj(lt(0, ap), le(ap, 1))))
        ex.assume(implies(le(0, mu), le(0, out.f["mu"])))
        ex.assume(self.positive_at(nt), le(0, MUV(nt)))
        l = fresh("l")
        ex.assume(forall([l], implies(conj(le(0, l), lt(l, S.M)), eq(self.gap(nt, l), (ONE - ap) * self.gap(t, l)))))
        # a gap in [-1e-9, 0] stays there (proved in the Iterate task)
        ex.assume(implies(self.gap_ok(t), self.gap_ok(nt)))
        ex.trace.append(("iterate", t, mu))
        return out

    def output(self, ex, t, mu, strat):
        a = lambda nm: app("IT_" + nm, (t, mu, strat))
        return Struct("IPIterationOutputs", {"mu": a("mu"), "alpha": Struct("AlphaValues", {"primal": a("ap"), "dual": a("ad")}),
                                             "alpha_probe": Struct("AlphaValues", {"primal": a("pp"), "dual": a("pd")}), "mu_affine": a("aff")})

    def summary(self, ex, this, args, node):
        t = ex.token(self.st(ex).f["variables_"])
        return OptV(lt(0, self.S.K), Struct("QPLagrangeMultipliers", {"min": app("LMIN", (t,)), "l_infinity": app("LINF", (t,))}), "mini_opt::QPLagrangeMultipliers")

    def table(self):
        return {(IPM, "ComputeInitialGuess"): self.guess, (IPM, "EvaluateKKTConditions"): self.evaluate_kkt, (IPM, "ComputeErrors"): self.errors,
                (IPM, "ComputeMu"): self.mu_, (IPM, "Iterate"): self.iterate, (IPM, "ComputeLagrangeMultiplierSummary"): self.summary}


def entry_is(V, C, e, j):
    """log entry e describes iteration j"""
    p = V.params.f
    o = C.output(V.ex, TOK(j), MUS(j), p["barrier_strategy"])
    return [("errors before the step", conj(*[eq(e.f["kkt_initial"].f[f], ERR(f, TOK(j), MUS(j))) for f in ERRF])),
            ("errors after the step", conj(*[eq(e.f["kkt_final"].f[f], ERR(f, TOK(j + 1), MUS(j))) for f in ERRF])),
            ("step outputs", conj(*[q for _, q in value_eq(e.f["ip_outputs"], o)]))]


def stop_at(V, j):
    p = V.params.f
    return conj(lt(ERRMAX(TOK(j + 1), MUS(j)), p["termination_kkt_tol"]), lt(MUV(TOK(j + 1)), p["termination_complementarity_tol"]))


def mu_next(V, j):
    """barrier rule from iteration j to j + 1"""
    p = V.params.f
    t, m = TOK(j + 1), MUS(j)
    FD = V.ex.enums["BarrierStrategy"]["FIXED_DECREASE"]
    new = ite(eq(p["barrier_strategy"], FD), m * p["sigma"], p["sigma"] * MUV(t))
    return ite(conj(p["decrease_mu_only_on_small_error"], lt(m, ERRMAX(t, m))), m, new)


class SolveLoop(L.LoopSpec):
    props = ("C06", "C08", "C09", "C10", "C18")

    def __init__(self, V, S, C):
        self.V = V; self.S = S; self.C = C

    def start(self, ex, info):
        V, S = self.V, self.S
        ws = {(w.obj, tuple(w.path)): w for w in info.W}
        if not any(w.obj == S.sref.obj for w in info.W):
            raise L.Decline()
        self.sfields = [w.path[0][1] for w in info.W if w.obj == S.sref.obj and len(w.path) == 1]
        self.logs = [w for w in info.W if isinstance(info.pre[(w.obj, w.path)], VecV) and w.obj != S.sref.obj]
        p = V.params.f
        t0 = ex.token(info.heap0[S.sref.obj].f["variables_"])
        self.t0 = t0
        m0 = ite(p["initialize_mu_with_complementarity"], MUV(t0), p["initial_mu"])
        self.m0 = m0
        self.mus = []
        for w in info.W:
            v = info.pre[(w.obj, w.path)]
            if isinstance(v, Poly) and w.obj != S.sref.obj and (ex.ctx.decide(eq(v, m0)) or ex.ctx.simp(v - m0) is ZERO):
                self.mus.append(w)
        V.mu0_ok = bool(self.mus)
        if len(self.mus) != 1 and len(self.mus) == 0:
            ex.oblige(FALSE, "the barrier value starts at the configured initial value", ("C10",), assume=False)
            raise X.EndPath()
        # ghost sequences at 0
        ex.ctx.assume(eq(TOK(0), t0))
        ex.ctx.assume(eq(MUS(0), m0))
        self.after = False

    def put(self, ex, k):
        """name the variables of iteration k"""
        st = ex.heap[self.S.sref.obj]
        if "variables_" in self.sfields:
            ex.heap[self.S.sref.obj] = st.with_("variables_", vec_of(self.S, TOK(k)))

    def invariants(self, ex, k, info):
        V, S, C = self.V, self.S, self.C
        P0 = k is num(0) or const_of(k) == 0
        if not P0 and not self.after:
            self.put(ex, k)
        s = ex.heap[S.sref.obj].f
        v = s["variables_"]
        t = ex.token(v)
        out = [("variables", eq(t, TOK(k))), ("length", eq(v.rows, S.n)),
               ("residuals are current", conj(eq(s["r_"].rows, S.n), allk(0, S.n, lambda i: eq(s["r_"].at(i), app("KKT", (TOK(k), i))))))]
        for w in self.mus:
            out.append(("barrier value", eq(ex.load(w.ref), MUS(k))))
        out.append(("within the iteration limit", le(k, V.params.f["max_iterations"])))
        out.append(("barrier value is not negative", le(0, MUS(k))))
        j = fresh("j")
        out.append(("barrier values so far are not negative", forall([j], implies(conj(le(0, j), lt(j, k)), le(0, MUS(j))))))
        out.append(("slacks and bound multipliers are positive", C.positive_at(TOK(k))))
        out.append(("gaps in [-1e-9, 0] when the bounds are satisfiable", implies(conj(V.feasible, neg(V.is_user)), C.gap_ok(TOK(k)))))
        for w in self.logs:
            L_ = ex.load(w.ref)
            out.append(("one log entry per iteration", eq(L_.len, k)))
            j = fresh("j")
            parts = entry_is(V, C, L_.fn(j), j)
            for lab, q in parts:
                out.append(("log entries: " + lab, forall([j], implies(conj(le(0, j), lt(j, k)), q))))
        j = fresh("j")
        out.append(("no earlier iteration met both tolerances", forall([j], implies(conj(le(0, j), lt(j, k)), neg(stop_at(V, j))))))
        j = fresh("j")
        out.append(("barrier rule so far", forall([j], implies(conj(le(0, j), lt(j, k)), eq(MUS(j + 1), mu_next(V, j))))))
        return out

    def before(self, ex, k, info):
        self.k = k
        ex.trace.append(("iter", k))

    def step(self, ex, pre_heap, k, info):
        # ghost definitions at k + 1
        S, V = self.S, self.V
        t = ex.token(ex.heap[S.sref.obj].f["variables_"])
        ex.ctx.assume(eq(TOK(k + 1), t))
        ex.ctx.assume(eq(MUS(k + 1), ex.load(self.mus[0].ref)))
        its = [x for x in ex.trace if x[0] == "iterate"]
        if len(its) != 1:
            ex.oblige(FALSE, "exactly one step per iteration", ("C09",), assume=False)
        else:
            ex.oblige(eq(its[0][2], MUS(k)), "the step is given the barrier value in force", ("C10", "C09"), assume=False)
        self.after = True
        V.stepped = True
        inv = self.invariants

    def on_exit(self, ex, k, info):
        self.V.exit_k = k
        ex.trace.append(("exit", k))


def bad_params(p):
    f = p.f
    return disj(le(f["initial_mu"], 0), le(f["sigma"], 0), lt(1, f["sigma"]), le(f["termination_kkt_tol"], 0), le(f["max_iterations"], 0))


@task("QPInteriorPointSolver::Solve", "C06 C08 C09 C10 C18 C22 C23")
def solve_ip(V):
    ex = V.ex
    S = QPState(V)
    N, M, K = S.N, S.M, S.K
    t_in = var("t_in", "Int")
    s0 = ex.heap[S.sref.obj].with_("variables_", vec_of(S, t_in))
    ex.heap[S.sref.obj] = s0
    p = ex.sym("mini_opt::QPInteriorPointSolver::Params", "params")
    V.params = p
    pr = ex.new(p, "params")
    V.user = ex.enums["InitialGuessMethod"]["USER_PROVIDED"]
    V.is_user = eq(p.f["initial_guess_method"], V.user)
    V.feasible = bvar("jointly_satisfiable")
    E = ex.enums
    ex.assume(disj(*[eq(p.f["barrier_strategy"], x) for x in E["BarrierStrategy"].values()]))
    ex.assume(disj(*[eq(p.f["initial_guess_method"], x) for x in E["InitialGuessMethod"].values()]))
    C = SolveContracts(V, S)
    # products of positive slacks and multipliers have a non-negative average (ComputeMu task)
    ex.assume(implies(V.is_user, conj(C.positive_at(t_in), le(0, MUV(t_in)))))
    V.assumptions.append("Solve: user-provided variables have strictly positive slacks and bound multipliers")

    def note(ex, q):
        for path, g in value_eq(q, p):
            ex.oblige(g, "the initial guess is built from the parameters given " + path, ("C07",), assume=False)
    V.note_params = note
    specs = []

    def mk(ex, node):
        return SolveLoop(V, S, C)
    outs = V.run("Solve", IPM, S.sref, [pr], contracts=C.table(), loops=[mk])
    bad = bad_params(p)
    tg = ite(V.is_user, t_in, app("GUESS", (p.f["initial_guess_method"],), "Int"))
    OK = E["QPInteriorPointTerminationState"]["SATISFIED_KKT_TOL"]
    MAXI = E["QPInteriorPointTerminationState"]["MAX_ITERATIONS"]
    n_ret = 0
    for o in outs:
        if o.kind == "throw":
            if "FailedFactorization" in o.val.what or "zero bound" in o.val.what:
                V.post(o, neg(bad), "parameters are checked before any work", "C23")
                continue
            V.post(o, bad, "raises only for invalid parameters [%s]" % o.val.what, "C23")
            V.frame(o, S.sref, (), "invalid parameters leave the solver untouched:", props="C23")
            continue
    for o in V.rets(outs):
        n_ret += 1
        V.post(o, neg(bad), "raises for every invalid parameter", "C23")
        r = o.val.f
        s = o.heap[S.sref.obj].f
        v = s["variables_"]
        t = ex.token(v)
        it = r["iterations"]
        n = it.len
        # entry i of the log describes iteration i; the last one the returned variables
        its = [x for x in o.trace if x[0] == "iterate"]
        exitk = loop_left_at(o.trace, ("iterate",))
        ctx = o.ctx.copy()
        if not exitk:
            # returned from inside the loop: iteration number is len - 1
            if len(its) != 1:
                V.post(o, FALSE, "exactly one step per iteration", "C09")
                continue
            kk = [x[1] for x in o.trace if x[0] == "iter"][-1]
            ctx.assume(eq(TOK(kk + 1), t))
            V.post(ctx, eq(its[0][2], MUS(kk)), "the final step is given the barrier value in force", "C10 C09")
        else:
            kk = exitk[0] - 1
        V.post(ctx, eq(TOK(0), tg), "starts from the initial guess", "C09 C18")
        V.post(ctx, eq(MUS(0), ite(p.f["initialize_mu_with_complementarity"], MUV(tg), p.f["initial_mu"])), "barrier value starts at the configured initial value", "C10")
        V.post(ctx, eq(n, kk + 1), "one log entry per iteration", "C09 C18")
        V.post(ctx, eq(TOK(n), t), "the final entry describes the returned variables", "C09 C18")
        j = fresh("j")
        for lab, q in entry_is(V, C, it.fn(j), j):
            V.post(ctx, forall([j], implies(conj(le(0, j), lt(j, n)), q)), "log entries: " + lab, "C09 C18" if "step outputs" not in lab else "C09 C10 C18")
        V.post(ctx, forall([j], implies(conj(le(0, j), lt(j, n - 1)), neg(stop_at(V, j)))), "stops at the first iteration that meets both tolerances", "C09")
        V.post(ctx, forall([j], implies(conj(le(0, j), lt(j, n - 1)), eq(MUS(j + 1), mu_next(V, j)))), "barrier rule between iterations", "C10")
        V.post(ctx, forall([j], implies(conj(le(0, j), lt(j, n)), le(0, MUS(j)))), "the barrier value is never negative", "C10")
        last = n - 1
        V.post(ctx, implies(eq(r["termination_state"], OK), stop_at(V, last)), "success only if the returned variables meet both tolerances", "C09")
        V.post(ctx, implies(stop_at(V, last), eq(r["termination_state"], OK)), "success whenever the last iteration meets both tolerances", "C09")
        V.post(ctx, implies(ne(r["termination_state"], OK), conj(eq(r["termination_state"], MAXI), eq(n, p.f["max_iterations"]))), "otherwise the iteration limit after exactly that many iterations", "C09")
        V.post(ctx, le(n, p.f["max_iterations"]), "never more than the maximum number of iterations", "C09")
        lm = r["lagrange_multipliers"]
        V.post(ctx, iff(lm.has, lt(0, K)), "multiplier summary exactly when there are equality rows", "C09")
        V.post(ctx, implies(lt(0, K), conj(eq(lm.val.f["min"], app("LMIN", (t,))), eq(lm.val.f["l_infinity"], app("LINF", (t,))))), "multiplier summary is that of the returned variables", "C09")
        V.post(ctx, C.positive_at(t), "slacks and bound multipliers of the result are strictly positive", "C06")
        l = fresh("l")
        x = lambda i: VEL(t, i)
        V.post(ctx, implies(conj(V.feasible, neg(V.is_user)), forall([l], implies(conj(le(0, l), lt(l, M)), le(-EPS, S.a(l) * v.at(S.idx(l)) + S.b(l))))), "the returned primal solution satisfies every bound to within 1e-9", "C08")
        V.frame(o, S.pref, (), "problem unchanged", props="C08")
    V.post(V.pre, TRUE if n_ret >= 2 else FALSE, "both exits are reachable", "C09")


@task("ComputeLagrangeMultiplierSummary", "C09 C22")
def summary_task(V):
    ex = V.ex
    S = QPState(V)
    outs = V.run("ComputeLagrangeMultiplierSummary", IPM, S.sref, [])
    K = S.K
    for o in V.rets(outs):
        r = o.val
        V.post(o, iff(r.has, lt(0, K)), "present exactly when there are equality rows", "C09")
        if r.has is FALSE:
            continue
        mn, li = r.val.f["min"], r.val.f["l_infinity"]
        q, q2 = fresh("q"), fresh("q")
        V.post(o, implies(lt(0, K), conj(forall([q], implies(conj(le(0, q), lt(q, K)), le(mn, S.y(q)))), exists([q2], conj(le(0, q2), lt(q2, K), eq(mn, S.y(q2)))))), "smallest multiplier", "C09")
        V.post(o, implies(lt(0, K), conj(forall([q], implies(conj(le(0, q), lt(q, K)), le(tabs(S.y(q)), li))), exists([q2], conj(le(0, q2), lt(q2, K), eq(li, tabs(S.y(q2))))))), "largest absolute multiplier", "C09")
        V.frame(o, S.sref, (), props="C09")
    V.nothrow(outs, props="C09")
