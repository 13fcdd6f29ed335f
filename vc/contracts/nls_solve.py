"""Contracts of ConstrainedNonlinearLeastSquares: constructor, step direction, Solve.

Vectors are named by tokens: VEC(t, i) is component i of the vector named t.  The subproblem is a function of the
linearization point t and lambda (C12); the step DXT(t, lam), the QP outputs, the derivatives and the multipliers are
functions of the subproblem (C18 tasks of the QP solvers), and the line search is a function of those and the penalty."""
from spec import *
import loops as L
from values import scalar_leaves
from contracts.nls_poly import NLS
from contracts.nls import *
from contracts.nls_lin import DIMC, DIME, OFF, layout, ResidualContracts
from contracts.qp_guess import EPS
from contracts.qp_solve import bad_params as qp_bad_params

OUTS = "std::variant<mini_opt::QPNullSpaceTerminationState, mini_opt::QPInteriorPointSolverOutputs>"
IPM, NSS = "QPInteriorPointSolver", "QPNullSpaceSolver"


# ---------------------------------------------------------------- constructor
@task("ConstrainedNonlinearLeastSquares constructor", "C12 C18 C22", units=U)
def nls_ctor(V):
    ex = V.ex
    S = NLSState(V)
    n, C, E = S.n, S.C, S.E
    layout(ex, E)
    given = bvar("problem_given")
    n_ok = lt(0, n)
    ex.ctx.ground = [g for g in ex.ctx.ground if g is not n_ok]     # a problem without variables is allowed as input here
    ex.ctx._int = None; ex.ctx._cache = {}; ex.ctx._simp = {}
    s0 = S.s()
    blank = ex.sym("mini_opt::ConstrainedNonlinearLeastSquares", "blank")
    ref = ex.new(Struct(NLS, {k: None for k in blank.f}), "obj")
    retr = Opaque("function", name="retraction", nn=bvar("has_retraction"))
    spec = [CtorLoops(V, S, ref)]
    outs = V.run(NLS, NLS, ref, [PtrV(S.pref, given), retr], contracts=ResidualContracts(V, n).table(), loops=[lambda ex, nd: CtorLoops(V, S, ref)])
    V.throws_iff(outs, disj(neg(given), le(n, 0)), "the problem is missing or has no variables", "C12")
    for o in V.rets(outs):
        f = o.heap[ref.obj].f
        q = f["qp_"].f
        V.post(o, conj(eq(q["G"].rows, n), eq(q["G"].cols, n), eq(q["c"].rows, n)), "subproblem has one variable per problem variable", "C12 C22")
        V.post(o, conj(eq(q["A_eq"].rows, OFF(E)), eq(q["A_eq"].cols, n), eq(q["b_eq"].rows, OFF(E))), "one equality row per stacked constraint residual", "C12 C22")
        i, j = fresh("i"), fresh("j")
        b = f["error_buffer_"].rows
        V.post(o, conj(le(0, b), forall([i], implies(conj(le(0, i), lt(i, C)), le(DIMC(i), b))), forall([j], implies(conj(le(0, j), lt(j, E)), le(DIME(j), b)))), "the error buffer holds the largest residual", "C12 C22")
        for v in ("variables_", "candidate_vars_", "dx_"):
            V.post(o, eq(f[v].rows, n), v + " has one entry per variable", "C22")
        p = f["p_"]
        V.post(o, TRUE if isinstance(p, PtrV) and p.ref is not None and p.ref.obj == S.pref.obj else FALSE, "remembers the problem given", "C12")
        V.post(o, p.nn, "remembers a problem", "C12")
        V.post(o, TRUE if f["custom_retraction_"] is retr else FALSE, "remembers the retraction given", "C12 C24")
        V.post(o, conj(eq(q["constraints"].len, 0)), "no bounds before the first linearization", "C12")
        V.frame(o, S.pref, (), "problem unchanged", props="C12")


class CtorLoops(L.LoopSpec):
    """sum and maximum of the residual sizes"""
    props = ("C12", "C22")
    fallback = True

    def __init__(self, V, S, ref):
        self.V = V; self.S = S; self.ref = ref

    def start(self, ex, info):
        self.info = info
        self.sums = []; self.maxs = []
        for w in info.W:
            v = info.pre[(w.obj, w.path)]
            if not isinstance(v, Poly) or any(s.closed is not None and (s.loc.obj, s.loc.path) == (w.obj, w.path) for s in info.slots.values()):
                continue
            self.maxs.append((w, v))
        # which family of residuals does the loop run over?
        self.cost = info.trip is self.S.C

    def solve(self, ex, slot, x0, d, k):
        if slot.sort == "Int" and const_of(x0) == 0 and d is DIME(k):
            return lambda kk, idx: OFF(kk)
        return None

    def invariants(self, ex, k, info):
        D = DIMC if self.cost else DIME
        out = []
        for w, v0 in self.maxs:
            v = ex.load(w.ref)
            i = fresh("i")
            out += [("not below its start", le(v0, v)), ("not below the sizes seen", forall([i], implies(conj(le(0, i), lt(i, k)), le(D(i), v))))]
        return out


# ---------------------------------------------------------------- multipliers and status of the QP outputs
@task("MaybeGetLagrangeMultipliers", "C17 C22", units=U)
def multipliers(V):
    ex = V.ex
    out = ex.sym(OUTS, "out")
    ex.assume(disj(eq(out.tag, 0), eq(out.tag, 1)))
    r = ex.new(out, "out")
    outs = V.run("MaybeGetLagrangeMultipliers", NLS, None, [r])
    V.nothrow(outs, props="C17")
    for o in V.rets(outs):
        lm = out.alts[1].f["lagrange_multipliers"]
        V.post(o, iff(o.val.has, conj(eq(out.tag, 1), lm.has)), "present exactly when the interior-point outputs hold them", "C17")
        if o.val.val is not None:
            for path, q in value_eq(o.val.val, lm.val):
                V.post(o, implies(o.val.has, q), "the multipliers of the interior-point outputs " + path, "C17")
        V.frame(o, r, (), props="C17")


@task("QPWasIndefinite", "C16 C22", units=U)
def indefinite(V):
    ex = V.ex
    out = ex.sym(OUTS, "out")
    ex.assume(disj(eq(out.tag, 0), eq(out.tag, 1)))
    r = ex.new(out, "out")
    outs = V.run("QPWasIndefinite", NLS, None, [r])
    V.nothrow(outs, props="C16")
    bad = ex.enums["QPNullSpaceTerminationState"]["NOT_POSITIVE_DEFINITE"]
    for o in V.rets(outs):
        v = o.val if isinstance(o.val, B) else ne(o.val, 0)
        V.post(o, iff(v, conj(eq(out.tag, 0), eq(out.alts[0], bad))), "indefinite exactly when the null-space solver reports it", "C16")
        V.frame(o, r, (), props="C16")


# ---------------------------------------------------------------- step direction
def named(ex, ty, name, idx, fixed=None):
    """value of type ty whose leaves are functions `name` of idx"""
    return ex.sym(ty, name, idx)


class Subproblem:
    """the QP stored in the solver object, of n variables, Ke equality rows and M bounds"""
    def __init__(self, V, S):
        ex = V.ex
        self.V = V; self.S = S
        n, E, M = S.n, S.E, S.M
        self.Ke = OFF(E)
        q = S.s()["qp_"]
        q = q.with_("G", matof(n, n, "qG")).with_("c", vecof(n, "qc")).with_("A_eq", matof(self.Ke, n, "qA")).with_("b_eq", vecof(self.Ke, "qb"))
        bound = lambda l: Struct("LinearInequalityConstraint", {"variable": app("qi", (P(l),), "Int"), "a": app("qa", (P(l),)), "b": app("qbb", (P(l),))})
        q = q.with_("constraints", VecV(M, bound, "LinearInequalityConstraint"))
        self.q = q
        self.bound = bound
        l = fresh("l")
        ex.assume(forall([l], implies(conj(le(0, l), lt(l, M)), conj(le(0, bound(l).f["variable"]), lt(bound(l).f["variable"], n)))))


@task("ComputeStepDirection", "C08 C15 C16 C18 C22 C23 C24", units=U)
def step_direction(V):
    ex = V.ex
    S = NLSState(V)
    n, E, M = S.n, S.E, S.M
    layout(ex, E)
    Q = Subproblem(V, S)
    q = Q.q
    EN = ex.enums
    s0 = ex.heap[S.sref.obj]
    # stale contents of the step and of the solver
    s0 = s0.with_("qp_", q).with_("dx_", vecof(n, "stale_dx"))
    sv = s0.f["solver_"]
    ex.assume(disj(eq(sv.tag, 0), eq(sv.tag, 1)))
    null_case = conj(eq(M, 0), lt(0, E))
    ex.assume(iff(eq(sv.tag, 1), null_case))
    V.assumptions.append("ComputeStepDirection: the null-space solver is selected exactly for problems with equality constraints and no bounds (established by Solve)")
    ex.heap[S.sref.obj] = s0
    p = ex.sym("mini_opt::ConstrainedNonlinearLeastSquares::Params", "params")
    ex.assume(neg(nls_bad(p)))
    V.assumptions.append("ComputeStepDirection: parameters in range (CheckParams)")
    pr = ex.new(p, "params")
    ok = bvar("bounds_jointly_satisfiable")
    IPO = named(ex, "mini_opt::QPInteriorPointSolverOutputs", "IPO", ())
    X_ = vecof(n, "IPX")
    NX = vecof(n, "NSX")
    term = var("NSTERM", "Int")
    SUCC = EN["QPNullSpaceTerminationState"]["SUCCESS"]; NPD = EN["QPNullSpaceTerminationState"]["NOT_POSITIVE_DEFINITE"]

    def is_sub(ex, a):
        r = ex.load(a) if isinstance(a, Ref) and isinstance(ex.load(a), PtrV) else a
        if isinstance(r, PtrV):
            r = r.ref
        return isinstance(r, Ref) and r.obj == S.sref.obj and tuple(r.path) == (("f", "qp_"),)

    def setup(ex, this, args, node):
        a = args[0]
        ex.oblige(TRUE if is_sub(ex, a) else FALSE, "the solver is set up with the current subproblem", ("C15", "C16", "C18"), assume=False)
        ex.oblige(FALSE if [x for x in ex.trace if x[0] == "ip"] else TRUE, "the solver is set up before it solves", ("C18",), assume=False)
        ex.trace.append(("setup",))

    def ip_solve(ex, this, args, node):
        ex.oblige(TRUE if [x for x in ex.trace if x[0] == "setup"] else FALSE, "the solver is set up before it solves", ("C18", "C16"), assume=False)
        qp = ex.load(args[0])
        ex.oblige(neg(qp_bad_params(qp)), "the parameters handed to the QP solver are in its range", ("C23",), assume=False)
        ex.oblige(ne(qp.f["initial_guess_method"], EN["InitialGuessMethod"]["USER_PROVIDED"]), "a built-in initial guess is used", ("C24", "C18", "C08"), assume=False)
        ex.oblige(conj(eq(qp.f["max_iterations"], p.f["max_qp_iterations"]), eq(qp.f["termination_kkt_tol"], p.f["termination_kkt_tolerance"])), "configured QP iteration limit and tolerance are used", ("C16",), assume=False)
        leaves = list(scalar_leaves(qp))
        bad = sorted({x.a[0] for _, q in leaves for x in atoms_in(q) if x.k in ("var", "app") and str(x.a[0]).startswith(("nls", "stale", "uninit"))} - {"nls.p_^.equality_constraints#len", "nls.p_^.inequality_constraints#len"})
        ex.oblige(FALSE if bad else TRUE, "the QP parameters depend on parameters and problem only %s" % bad, ("C18",), assume=False)
        if ex.choose(2) == 1:
            raise X.ThrowExc("FailedFactorization or a zero bound coefficient")
        l = fresh("l")
        # contract of QPInteriorPointSolver::Solve (C08)
        ex.assume(implies(ok, forall([l], implies(conj(le(0, l), lt(l, M)), le(-EPS, Q.bound(l).f["a"] * X_.at(Q.bound(l).f["variable"]) + Q.bound(l).f["b"])))))
        ex.trace.append(("ip",))
        return IPO

    def x_block(ex, this, args, node):
        ex.oblige(TRUE if [x for x in ex.trace if x[0] == "ip"] else FALSE, "the direction is taken after the QP was solved", ("C15", "C18"), assume=False)
        return X_

    def ns_solve(ex, this, args, node):
        ex.oblige(TRUE if is_sub(ex, args[0]) else FALSE, "the current subproblem is solved", ("C15", "C16", "C18"), assume=False)
        if ex.choose(2) == 1:
            raise X.ThrowExc("no equality rows")
        ex.trace.append(("ns",))
        ex.assume(disj(eq(term, SUCC), eq(term, NPD)))
        return term

    def ns_vars(ex, this, args, node):
        ex.oblige(TRUE if [x for x in ex.trace if x[0] == "ns"] else FALSE, "the solution is taken after the QP was solved", ("C15", "C18"), assume=False)
        ex.oblige(eq(term, SUCC), "only a successful solution is used", ("C15", "C18"), assume=False)
        return ex.new(NX, "nsx")
    cs = {(IPM, "Setup"): setup, (IPM, "Solve"): ip_solve, (IPM, "x_block"): x_block, (NSS, "Solve"): ns_solve, (NSS, "variables"): ns_vars}
    outs = V.run("ComputeStepDirection", NLS, S.sref, [pr], contracts=cs)
    for o in outs:
        if o.kind == "throw":
            V.post(o, TRUE if "zero bound" in o.val.what or "no equality rows" in o.val.what else FALSE, "raises only what the QP solver raises [%s]" % o.val.what, "C16 C23")
    seen = set()
    for o in V.rets(outs):
        s = S.s(o)
        dx = s["dx_"]
        r = o.val
        V.post(o, eq(dx.rows, n), "the direction has one entry per variable", "C22 C24")
        ns = any(x[0] == "ns" for x in o.trace); ip = any(x[0] == "ip" for x in o.trace)
        seen.add("ns" if ns else "ip")
        V.post(o, TRUE if ns != ip else FALSE, "exactly one QP is solved", "C16 C18")
        V.post(o, iff(TRUE if ns else FALSE, null_case), "null-space solver exactly for equality constraints without bounds", "C16")
        if ip:
            V.post(o, allk(0, n, lambda i: eq(dx.at(i), X_.at(i))), "the direction is the solution of the subproblem", "C15 C18 C24")
            V.post(o, eq(r.tag, 1), "reports the interior-point outputs", "C16")
            V.same(o, r.alts[1], IPO, "reports the interior-point outputs", "C16 C18")
            l = fresh("l")
            b = Q.bound(l).f
            V.post(o, implies(ok, forall([l], implies(conj(le(0, l), lt(l, M)), le(-EPS, b["a"] * dx.at(b["variable"]) + b["b"])))), "the direction satisfies every shifted bound to within 1e-9", "C24")
        else:
            V.post(o, eq(r.tag, 0), "reports the null-space outcome", "C16")
            V.post(o, eq(r.alts[0], term), "reports the null-space outcome", "C16 C18")
            V.post(o, implies(eq(term, SUCC), allk(0, n, lambda i: eq(dx.at(i), NX.at(i)))), "the direction is the solution of the subproblem", "C15 C18")
            V.post(o, implies(ne(term, SUCC), allk(0, n, lambda i: eq(dx.at(i), 0))), "no direction when the subproblem failed", "C15 C18")
        V.frame(o, S.sref, ("dx_", "solver_"), props="C15 C18 C24")
        V.frame(o, S.pref, (), "problem unchanged", props="C15")
    V.post(V.pre, TRUE if seen == {"ns", "ip"} else FALSE, "both solvers are reachable", "C16")


# ---------------------------------------------------------------- Solve
XT = lambda j: app("XT", (P(j),), "Int")            # variables before iteration j
LAM = lambda j: app("LAM", (P(j),))                 # lambda before iteration j
PEN = lambda j: app("PENALTY", (P(j),))             # penalty before iteration j (iteration j uses PEN(j + 1))
STT = lambda j: app("STT", (P(j),), "Int")          # optimizer state before iteration j
CBK = lambda j: bapp("CALLBACK", (P(j),))           # answer of the callback to iteration j
DXT = lambda t, lam: app("DXT", (t, lam), "Int")
DDF = lambda t, lam: app("DDF", (t, lam))
DDE = lambda t, lam: app("DDE", (t, lam))
NEWPEN = lambda t, lam: app("NEWPEN", (t, lam))
SSR = lambda t, lam, pen: app("SSR", (t, lam, pen), "Int")
CANDT = lambda t, lam, pen: app("CANDT", (t, lam, pen), "Int")


class NLSModel:
    """the functions of one iteration, as functions of (variables, lambda, penalty, state) before it"""
    def __init__(self, V, S, p):
        self.V = V; self.S = S; self.p = p
        ex = V.ex
        self.E = ex.enums
        self.null_case = conj(eq(S.M, 0), lt(0, S.E))
        self.bc = ex.heap[S.pref.obj].f["inequality_constraints"]
        self.has_cb = bvar("has_callback")
        self.default = neg(bvar("has_retraction"))
        self.start_ok = conj(self.default, bvar("start_satisfies_every_bound"))

    def errors(self, t):
        return Struct("Errors", {"f": ERF(t), "equality": ERE(t)})

    def steps(self, t, lam, pen):
        return self.V.ex.sym("std::vector<mini_opt::LineSearchStep>", "STEPS", (t, lam, pen))

    def outputs(self, t, lam):
        v = self.V.ex.sym(OUTS, "QPO", (t, lam))
        return VarV(ite(self.null_case, num(0), num(1)), v.alts, v.types)

    def derivs(self, t, lam):
        return Struct("DirectionalDerivatives", {"d_f": DDF(t, lam), "d_equality": DDE(t, lam)})

    def eig(self, t, lam):
        return self.V.ex.sym("mini_opt::QPEigenvalues", "EIG", (t, lam))

    def indefinite(self, t, lam):
        o = self.outputs(t, lam)
        return conj(self.null_case, eq(o.alts[0], self.E["QPNullSpaceTerminationState"]["NOT_POSITIVE_DEFINITE"]))

    def has_lm(self, t, lam):
        return conj(neg(self.null_case), self.outputs(t, lam).alts[1].f["lagrange_multipliers"].has)

    def pen_next(self, t, lam, pen):
        new = NEWPEN(t, lam)
        return ite(conj(lt(0, self.S.E), lt(pen, new)), new * self.p.f["equality_penalty_scale_factor"], pen)

    def rule(self, t, lam, pen, stt):
        st = self.steps(t, lam, pen)
        return update_rule(self.V.ex, self.p.f, SSR(t, lam, pen), stt, lam, st.fn(st.len - 1).f["errors"], self.errors(t), pen)

    def at(self, j):
        """(t, lam, pen, state) of iteration j"""
        return XT(j), LAM(j), PEN(j + 1), STT(j)

    def dd(self, t, lam, pen):
        return DDF(t, lam) + pen * DDE(t, lam)

    def tot(self, t, pen):
        return ERF(t) + pen * ERE(t)

    def bounds_at(self, f):
        l = fresh("l")
        c = self.bc.fn(l).f
        return forall([l], implies(conj(le(0, l), lt(l, self.S.M)), le(-EPS, c["a"] * f(c["variable"]) + c["b"])))

    def inside(self, t):
        return self.bounds_at(lambda i: VEC(t, i))

    def check_iteration(self, trace, k):
        """the calls of one complete iteration"""
        kinds = [x[0] for x in trace]
        cb = kinds.count("callback")
        out = [("exactly one %s per iteration" % kd, TRUE if kinds.count(kd) == 1 else FALSE, props)
               for kd, props in (("linearize", ("C12", "C16")), ("step", ("C16",)), ("search", ("C13", "C15", "C16")), ("update", ("C15", "C16")))]
        out.append(("the callback sees every logged iteration exactly once", conj(TRUE if cb <= 1 else FALSE, iff(TRUE if cb == 1 else FALSE, self.has_cb)), ("C16",)))
        return out

    def search_facts(self, t, lam, pen):
        """postconditions of SelectStepSize"""
        R = self.E["StepSizeSelectionResult"]
        r = SSR(t, lam, pen)
        st = self.steps(t, lam, pen)
        last = st.fn(st.len - 1)
        c = CANDT(t, lam, pen)
        succ = eq(r, R["SUCCESS"])
        return [disj(*[eq(r, x) for x in R.values()]), le(0, st.len), le(st.len, self.p.f["max_line_search_iterations"] + 1),
                implies(succ, conj(le(1, st.len), eq(last.f["errors"].f["f"], ERF(c)), eq(last.f["errors"].f["equality"], ERE(c)), lt(0, last.f["alpha"]), le(last.f["alpha"], 1),
                                   le(self.dd(t, lam, pen), 0), le(self.tot(c, pen), self.tot(t, pen) + self.dd(t, lam, pen) * last.f["alpha"] * ARMIJO))),
                implies(eq(r, R["FIRST_ORDER_SATISFIED"]), lt(tmax(tabs(DDF(t, lam)), tabs(DDE(t, lam))), self.p.f["absolute_first_derivative_tol"])),
                implies(eq(r, R["POSITIVE_DERIVATIVE"]), lt(0, self.dd(t, lam, pen))),
                implies(eq(r, R["MAX_ITERATIONS"]), eq(st.len, self.p.f["max_line_search_iterations"] + 1))]


class NLSContracts:
    def __init__(self, V, S, Mo):
        self.V = V; self.S = S; self.M = Mo

    def st(self, ex):
        return ex.heap[self.S.sref.obj]

    def setf(self, ex, **kw):
        h = self.st(ex)
        for k, v in kw.items():
            h = h.with_(k, v)
            ex.log(self.S.sref.obj, (("f", k),))
        ex.heap[self.S.sref.obj] = h

    def is_field(self, ex, a, name):
        r = a
        if isinstance(r, Ref):
            v = ex.load(r)
            if isinstance(v, PtrV):
                r = v.ref
        elif isinstance(r, PtrV):
            r = r.ref
        if isinstance(r, Ref):
            return r.obj == self.S.sref.obj and tuple(r.path) == (("f", name),)
        return False

    def last(self, ex, kind):
        x = [x for x in ex.trace if x[0] == kind]
        return x[-1] if x else None

    def need(self, ex, cond, label, props):
        ex.oblige(TRUE if cond else FALSE, label, props, assume=False)
        if not cond:
            raise X.EndPath()

    def linearize(self, ex, this, args, node):
        S, M = self.S, self.M
        x = ex.load(args[0])
        t = ex.token(x)
        lam = ex.load(args[1])
        self.need(ex, isinstance(args[2], Ref) and args[2].obj == S.pref.obj and not args[2].path, "the problem of the solver is linearized", ("C12", "C16"))
        self.need(ex, self.is_field(ex, args[3], "qp_"), "the subproblem of the solver is filled", ("C12", "C16"))
        ex.oblige(eq(x.rows, S.n), "the linearization point has one entry per variable", ("C12", "C22"), assume=False)
        q = self.st(ex).f["qp_"]
        n, Ke = S.n, OFF(S.E)
        ex.oblige(conj(eq(q.f["G"].rows, n), eq(q.f["G"].cols, n), eq(q.f["c"].rows, n), eq(q.f["A_eq"].rows, Ke), eq(q.f["A_eq"].cols, n), eq(q.f["b_eq"].rows, Ke)),
                  "the subproblem has the sizes of the problem", ("C12", "C22"), assume=False)
        if ex.choose(2) == 1:
            raise X.ThrowExc("a bound on a missing variable")
        bc = M.bc

        def bound(l):
            c = bc.fn(l).f
            return Struct("LinearInequalityConstraint", {"variable": c["variable"], "a": c["a"], "b": c["a"] * VEC(t, c["variable"]) + c["b"]})
        q = q.with_("G", Mat(n, n, lambda i, j: app("LG", (t, lam, i, j)))).with_("c", Mat(n, 1, lambda i, j: app("LC", (t, lam, i)))) \
             .with_("A_eq", Mat(Ke, n, lambda i, j: app("LA", (t, lam, i, j)))).with_("b_eq", Mat(Ke, 1, lambda i, j: app("LB", (t, lam, i)))) \
             .with_("constraints", VecV(S.M, bound, "mini_opt::LinearInequalityConstraint"))
        self.setf(ex, qp_=q)
        l = fresh("l")
        iv = bc.fn(l).f["variable"]
        ex.assume(forall([l], implies(conj(le(0, l), lt(l, S.M)), conj(le(0, iv), lt(iv, n)))))
        ex.trace.append(("linearize", t, lam))
        return M.errors(t)

    def check(self, ex, this, args, node):
        """CheckParams (C23): raises exactly when a parameter is out of its range"""
        p = ex.load(args[0])
        if "equality_penalty_rho" not in p.f:
            return NotImplemented
        bad = nls_bad(p)
        if ex.branch(bad):
            raise X.ThrowExc("a parameter is out of range")

    def current(self, ex, what, props=("C15", "C16", "C17")):
        """the subproblem is the one of the last linearization"""
        l = self.last(ex, "linearize")
        self.need(ex, l is not None, what + ": the problem was linearized", props)
        return l[1], l[2]

    def step(self, ex, this, args, node):
        S, M = self.S, self.M
        t, lam = self.current(ex, "step direction")
        sv = self.st(ex).f["solver_"]
        ex.oblige(iff(eq(sv.tag, 1), M.null_case), "null-space solver exactly for equality constraints without bounds", ("C16", "C18", "C22"), assume=False)
        for path, q in value_eq(ex.load(args[0]), M.p):
            ex.oblige(q, "the step direction uses the parameters given " + path, ("C16",), assume=False)
        c = ex.choose(2)
        if c == 1:
            raise X.ThrowExc("QP solver: failed factorization, zero bound coefficient or missing equality rows")
        # the shifted bounds are satisfiable: going back to the start satisfies them
        qb = self.st(ex).f["qp_"].f["constraints"]
        l = fresh("l")
        e = qb.fn(l).f
        back = lambda i: VEC(XT(0), i) - VEC(t, i)
        ex.oblige(implies(M.start_ok, forall([l], implies(conj(le(0, l), lt(l, qb.len)), le(0, e["a"] * back(e["variable"]) + e["b"])))),
                  "the shifted bounds stay jointly satisfiable", ("C24",), assume=False)
        d = DXT(t, lam)
        out = M.outputs(t, lam)
        NPD = M.E["QPNullSpaceTerminationState"]
        ex.assume(implies(M.null_case, disj(*[eq(out.alts[0], x) for x in NPD.values()])))
        ex.assume(implies(M.start_ok, forall([l], implies(conj(le(0, l), lt(l, qb.len)), le(-EPS, e["a"] * VEC(d, e["variable"]) + e["b"])))))
        kinds = M.V.ex.sym("std::variant<mini_opt::QPInteriorPointSolver, mini_opt::QPNullSpaceSolver>", "solver_after%d" % ex._uid())
        self.setf(ex, dx_=tokvec(S.n, d), solver_=VarV(sv.tag, [a for a in sv.alts], sv.types))
        ex.trace.append(("step", t, lam))
        return out

    def indefinite(self, ex, this, args, node):
        M = self.M
        t, lam = self.current(ex, "definiteness")
        o = ex.load(args[0])
        return conj(eq(o.tag, 0), eq(o.alts[0], M.E["QPNullSpaceTerminationState"]["NOT_POSITIVE_DEFINITE"]))

    def lm(self, ex, this, args, node):
        o = ex.load(args[0])
        v = o.alts[1].f["lagrange_multipliers"]
        return OptV(conj(eq(o.tag, 1), v.has), v.val, v.elt)

    def sub_args(self, ex, args, what, props):
        self.need(ex, self.is_field(ex, args[0], "qp_"), what + " of the current subproblem", props)
        self.need(ex, self.last(ex, "step") is not None, what + " after the step was computed", props)
        t, lam = self.current(ex, what, props)
        d = ex.load(args[1])
        ex.oblige(eq(ex.token(d), DXT(t, lam)), what + " along the current step", props, assume=False)
        return t, lam

    def derivative(self, ex, this, args, node):
        t, lam = self.sub_args(ex, args, "derivative", ("C17", "C13", "C16"))
        ex.trace.append(("derivative",))
        return self.M.derivs(t, lam)

    def penalty(self, ex, this, args, node):
        M = self.M
        t, lam = self.sub_args(ex, args, "penalty", ("C17",))
        v = ex.load(args[2])
        lm = M.outputs(t, lam).alts[1].f["lagrange_multipliers"]
        ex.oblige(iff(v.has, M.has_lm(t, lam)), "penalty from the multipliers of the QP solver, when it has any", ("C17",), assume=False)
        if v.val is not None:
            for path, q in value_eq(v.val, lm.val):
                ex.oblige(implies(v.has, q), "penalty from the multipliers of the QP solver " + path, ("C17",), assume=False)
        ex.oblige(eq(ex.load(args[3]), M.p.f["equality_penalty_rho"]), "penalty with the configured rho", ("C17",), assume=False)
        new = NEWPEN(t, lam)
        ex.assume(implies(M.has_lm(t, lam), eq(new, lm.val.f["l_infinity"])))
        ex.trace.append(("penalty",))
        return new

    def search(self, ex, this, args, node):
        S, M, p = self.S, self.M, self.M.p.f
        t, lam = self.current(ex, "line search", ("C13", "C15", "C16"))
        self.need(ex, self.last(ex, "step") is not None, "the line search follows the step direction", ("C13", "C15"))
        s = self.st(ex).f
        ex.oblige(eq(ex.token(s["variables_"]), t), "the line search starts at the linearization point", ("C13", "C15", "C24"), assume=False)
        ex.oblige(eq(ex.token(s["dx_"]), DXT(t, lam)), "the line search goes along the step", ("C13", "C15", "C24"), assume=False)
        e = ex.load(args[2]); d = ex.load(args[3]); pen = ex.load(args[4])
        P13 = ("C13", "C15", "C16")
        for nm, x, y in (("maximum number of attempts", ex.load(args[0]), p["max_line_search_iterations"]), ("first derivative tolerance", ex.load(args[1]), p["absolute_first_derivative_tol"]),
                         ("initial cost", e.f["f"], ERF(t)), ("initial constraint norm", e.f["equality"], ERE(t)), ("cost derivative", d.f["d_f"], DDF(t, lam)),
                         ("constraint derivative", d.f["d_equality"], DDE(t, lam)), ("sufficient decrease constant", ex.load(args[5]), num(ARMIJO)),
                         ("strategy", ex.load(args[6]), p["line_search_strategy"]), ("backtracking factor", ex.load(args[7]), p["armijo_search_tau"])):
            ex.oblige(eq(x, y), "line search: " + nm, P13, assume=False)
        ex.oblige(lt(0, pen), "line search: the penalty is positive", ("C13", "C17", "C23"), assume=False)
        if ex.branch(disj(neg(isfin(ERF(t))), neg(isfin(ERE(t))))):
            raise X.ThrowExc("the errors at the linearization point are not finite")
        ex.assume(*M.search_facts(t, lam, pen))
        c = CANDT(t, lam, pen)
        # C24 (SelectStepSize task): inside at the start and after the full step implies inside at every candidate
        R = M.E["StepSizeSelectionResult"]
        full = M.bounds_at(lambda i: VEC(t, i) + VEC(DXT(t, lam), i))
        ex.oblige(implies(M.start_ok, M.inside(t)), "the line search starts inside the bounds", ("C24",), assume=False)
        ex.oblige(implies(M.start_ok, full), "the full step stays inside the bounds", ("C24",), assume=False)
        ex.assume(implies(conj(M.start_ok, eq(SSR(t, lam, pen), R["SUCCESS"])), M.inside(c)))
        nb = s["error_buffer_"].rows
        self.setf(ex, candidate_vars_=tokvec(S.n, c), steps_=M.steps(t, lam, pen), error_buffer_=vecof(nb, "scratch%d" % ex._uid()))
        ex.trace.append(("search", t, lam, pen))
        return SSR(t, lam, pen)

    def update(self, ex, this, args, node):
        S, M = self.S, self.M
        s = self.st(ex).f
        l = self.last(ex, "search")
        self.need(ex, l is not None, "lambda is updated after the line search", ("C15", "C16"))
        _, t, lam, pen = l
        P15 = ("C15", "C16")
        for path, q in value_eq(ex.load(args[0]), M.p):
            ex.oblige(q, "lambda rules use the parameters given " + path, P15, assume=False)
        res = ex.load(args[1])
        ex.oblige(eq(res, SSR(t, lam, pen)), "lambda rules use the outcome of the line search", P15, assume=False)
        e = ex.load(args[2])
        ex.oblige(conj(eq(e.f["f"], ERF(t)), eq(e.f["equality"], ERE(t))), "exit conditions compare with the errors before the step", P15, assume=False)
        ex.oblige(eq(ex.load(args[3]), pen), "exit conditions use the penalty of the line search", P15, assume=False)
        lref = args[4]
        lam0 = ex.load(lref)
        ex.oblige(eq(lam0, lam), "lambda rules start from the lambda in force", P15, assume=False)
        ex.oblige(le(M.p.f["min_lambda"], lam0), "lambda is not below its minimum", P15, assume=False)
        st = s["steps_"]
        R = M.E["StepSizeSelectionResult"]
        ex.oblige(implies(eq(res, R["SUCCESS"]), le(1, st.len)), "a success has logged a step", P15, assume=False)
        u = update_rule(ex, M.p.f, res, s["state_"], lam0, st.fn(st.len - 1).f["errors"], e, ex.load(args[3]))
        ex.store(lref, u.lam)
        xv, xc = ex.token(s["variables_"]), ex.token(s["candidate_vars_"])
        self.setf(ex, variables_=tokvec(S.n, ite(u.succ, xc, xv)), candidate_vars_=tokvec(S.n, ite(u.succ, xv, xc)), state_=u.state)
        ex.trace.append(("update", t))
        return OptV(u.has, u.val, "mini_opt::NLSTerminationState")

    def eigen(self, ex, this, args, node):
        self.need(ex, self.is_field(ex, this, "qp_"), "eigenvalues of the current subproblem", ("C16",))
        t, lam = self.current(ex, "eigenvalues", ("C16",))
        return self.M.eig(t, lam)

    def callback(self, ex, f, args, node):
        V, M = self.V, self.M
        it = [x[1] for x in ex.trace if x[0] == "iter"]
        self.need(ex, bool(it), "the callback runs inside an iteration", ("C16",))
        k = it[-1]
        e = ex.load(args[0])
        # ghost definitions up to this point of iteration k
        ex.trace.append(("callback", e))
        return CBK(k)

    def table(self):
        return {(NLS, "LinearizeAndFillQP"): self.linearize, (NLS, "ComputeStepDirection"): self.step, (NLS, "QPWasIndefinite"): self.indefinite,
                (NLS, "MaybeGetLagrangeMultipliers"): self.lm, (NLS, "ComputeQPCostDerivative"): self.derivative, (NLS, "SelectPenalty"): self.penalty,
                (None, "CheckParams", 1): self.check, (NLS, "SelectStepSize"): self.search, (NLS, "UpdateLambdaAndCheckExitConditions"): self.update, ("QP", "ComputeEigenvalueStats"): self.eigen,
                ("function", "user_callback"): self.callback}


class Iter:
    """values before and after iteration j; `pen` is the penalty the iteration used.  The ghost sequences XT, LAM, PEN,
    STT are defined by recursion: the values after iteration j are those the rules give (nls_rules)."""
    def __init__(self, M, j, **kw):
        self.j = j
        self.t, self.lam, self.pen0, self.st = XT(j), LAM(j), PEN(j), STT(j)
        self.pen, self.st1 = PEN(j + 1), STT(j + 1)
        for k, v in kw.items():
            setattr(self, k, v)
        self.u = M.rule(self.t, self.lam, self.pen, self.st)
        self.t1 = ite(self.u.succ, CANDT(self.t, self.lam, self.pen), self.t)


def nls_entry(M, e, I):
    """log entry e describes iteration I"""
    t, lam, pen = I.t, I.lam, I.pen
    p = M.p.f
    out = [("number", eq(e.f["iteration"], I.j)), ("optimizer state", eq(e.f["optimizer_state"], I.st1)), ("lambda in force", eq(e.f["lambda"], lam)),
           ("errors before the step", conj(eq(e.f["errors_initial"].f["f"], ERF(t)), eq(e.f["errors_initial"].f["equality"], ERE(t)))),
           ("QP outputs", conj(*[q for _, q in value_eq(e.f["qp_outputs"], M.outputs(t, lam))])),
           ("derivatives", conj(eq(e.f["directional_derivatives"].f["d_f"], DDF(t, lam)), eq(e.f["directional_derivatives"].f["d_equality"], DDE(t, lam)))),
           ("penalty in force", eq(e.f["penalty"], pen)), ("line search outcome", eq(e.f["step_result"], SSR(t, lam, pen))),
           ("line search steps", conj(*[q for _, q in value_eq(e.f["line_search_steps"], M.steps(t, lam, pen))]))]
    g = e.f["qp_eigenvalues"]
    w = M.eig(t, lam)
    q = iff(g.has, p["log_qp_eigenvalues"])
    if g.val is not None:
        q = conj(q, implies(g.has, conj(*[z for _, z in value_eq(g.val, w)])))
    else:
        q = conj(q, neg(g.has))
    out.append(("eigenvalues when configured", q))
    return out


def ghost_entry(M, j, like):
    """the log entry of iteration j, as the ghost sequences define it"""
    I = Iter(M, j)
    d = {"iteration": P(j), "optimizer_state": I.st1, "lambda": I.lam, "errors_initial": M.errors(I.t), "qp_outputs": M.outputs(I.t, I.lam),
         "qp_eigenvalues": OptV(M.p.f["log_qp_eigenvalues"], M.eig(I.t, I.lam), "mini_opt::QPEigenvalues"), "directional_derivatives": M.derivs(I.t, I.lam),
         "penalty": I.pen, "step_result": SSR(I.t, I.lam, I.pen), "line_search_steps": M.steps(I.t, I.lam, I.pen)}
    return Struct("NLSIteration", d)


def nls_rules(M, I, pen, x, lam, st):
    """the rules that lead from one iteration to the next, stated of the actual values"""
    return [("penalty rule", eq(pen, M.pen_next(I.t, I.lam, I.pen0)), ("C17", "C18")),
            ("the penalty never decreases", le(I.pen0, pen), ("C17",)),
            ("the penalty reaches the multipliers", implies(lt(0, M.S.E), le(NEWPEN(I.t, I.lam), pen)), ("C17",)),
            ("without equality constraints the penalty is untouched", implies(eq(M.S.E, 0), eq(pen, I.pen0)), ("C17",)),
            ("variables change only to an accepted candidate", eq(x, I.t1), ("C15", "C18", "C16", "C24")),
            ("lambda rule", eq(lam, I.u.lam), ("C15", "C18", "C16")),
            ("recovery mode rule", eq(st, I.u.state), ("C15", "C18", "C16")),
            ("the merit value never increases for a fixed penalty", implies(eq(x, I.t1), le(M.tot(I.t1, pen), M.tot(I.t, pen))), ("C15",))]


BASE = ("C12", "C13", "C15", "C16", "C17", "C18", "C24")


class NLSLoop(L.LoopSpec):
    props = BASE

    def __init__(self, V, S, M, C):
        self.V = V; self.S = S; self.M = M; self.C = C

    def start(self, ex, info):
        V, S, M = self.V, self.S, self.M
        if not any(w.obj == S.sref.obj for w in info.W):
            raise L.Decline()
        self.sfields = {w.path[0][1] for w in info.W if w.obj == S.sref.obj and w.path}
        self.logs = [w for w in info.W if isinstance(info.pre[(w.obj, w.path)], VecV) and w.obj != S.sref.obj]
        h = info.heap0[S.sref.obj].f
        p = M.p.f
        self.t0 = ex.token(h["variables_"])
        self.lams = []; self.pens = []
        solved = {(s.loc.obj, s.loc.path) for s in info.slots.values() if s.closed is not None}
        for w in info.W:
            v = info.pre[(w.obj, w.path)]
            if isinstance(v, Poly) and w.obj != S.sref.obj and (w.obj, w.path) not in solved:
                if ex.ctx.decide(eq(v, p["lambda_initial"])):
                    self.lams.append(w)
                elif ex.ctx.decide(eq(v, p["equality_penalty_initial"])):
                    self.pens.append(w)
        if not self.lams:
            ex.oblige(FALSE, "lambda starts at its configured initial value", ("C15",), assume=False)
        if not self.pens and M.has_eq:
            ex.oblige(FALSE, "the penalty starts at its configured initial value", ("C17",), assume=False)
        if not self.lams or not self.pens and M.has_eq:
            raise X.EndPath()
        if len(self.logs) != 1:
            raise L.Decline()
        ex.ctx.assume(eq(XT(0), self.t0)); ex.ctx.assume(eq(LAM(0), p["lambda_initial"])); ex.ctx.assume(eq(PEN(0), p["equality_penalty_initial"]))
        ex.ctx.assume(eq(STT(0), h["state_"]))
        ex.ctx.assume(implies(M.start_ok, self.start_bounds()))
        self.nb = h["error_buffer_"].rows
        self.tag0 = h["solver_"].tag
        self.after = None

    def start_bounds(self):
        l = fresh("l")
        c = self.M.bc.fn(l).f
        return forall([l], implies(conj(le(0, l), lt(l, self.S.M)), le(0, c["a"] * VEC(XT(0), c["variable"]) + c["b"])))

    def pen_value(self, ex, k):
        return ex.load(self.pens[0].ref) if self.pens else self.M.p.f["equality_penalty_initial"]

    def invariants(self, ex, k, info):
        V, S, M = self.V, self.S, self.M
        p = M.p.f
        n, Ke = S.n, OFF(S.E)
        E = M.E
        s = ex.heap[S.sref.obj].f
        q = s["qp_"].f
        size = [("length of the variables", eq(s["variables_"].rows, n), None),
                ("sizes of the subproblem", conj(eq(q["G"].rows, n), eq(q["G"].cols, n), eq(q["c"].rows, n), eq(q["A_eq"].rows, Ke), eq(q["A_eq"].cols, n), eq(q["b_eq"].rows, Ke)), None),
                ("solver kind", eq(s["solver_"].tag, self.tag0), None), ("sizes of the buffers", conj(eq(s["error_buffer_"].rows, self.nb), le(0, s["steps_"].len)), None)]
        log = ex.load(self.logs[0].ref)
        out = size + [("within the iteration limit", le(k, tmax(ZERO, p["max_iterations"])), None), ("one log entry per iteration", eq(log.len, k), ("C16", "C18"))]
        if self.after is None:
            x, lam, pen, st = ex.token(s["variables_"]), ex.load(self.lams[0].ref), self.pen_value(ex, k), s["state_"]
            out += [("variables", eq(x, XT(k)), None), ("lambda", eq(lam, LAM(k)), None), ("penalty", eq(pen, PEN(k)), None), ("optimizer state", eq(st, STT(k)), None)]
            x, lam, pen, st = XT(k), LAM(k), PEN(k), STT(k)
            if const_of(k) is None:
                # the same state, written with the ghosts
                ex.heap[S.sref.obj] = ex.heap[S.sref.obj].with_("variables_", tokvec(n, XT(k))).with_("state_", STT(k))
                ex.store(self.lams[0].ref, LAM(k))
                if self.pens:
                    ex.store(self.pens[0].ref, PEN(k))
                ex.store(self.logs[0].ref, VecV(k, lambda j: ghost_entry(M, j, None), log.elt))
        else:
            # one iteration further: the ghosts at k are defined by the rules (checked in step)
            I = self.after
            x, lam, pen, st = I.t1, I.u.lam, I.pen, I.u.state
            out += [("new log entry: " + lab, g, ("C16", "C18")) for lab, g in nls_entry(M, log.fn(I.j), I)]
            j = fresh("j")
            old = conj(*[g for _, g in value_eq(log.fn(j), ghost_entry(M, j, None))])
            out.append(("earlier log entries are kept", forall([j], implies(conj(le(0, j), lt(j, I.j)), old)), ("C16", "C18")))
        out += [("optimizer state is valid", disj(*[eq(st, x_) for x_ in E["OptimizerState"].values()]), ("C15", "C16", "C18")),
                ("lambda is not below its minimum", le(p["min_lambda"], lam), ("C15", "C16", "C18", "C23")),
                ("the penalty is positive", lt(0, pen), ("C17", "C13", "C23")),
                ("inside the bounds", implies(M.start_ok, M.inside(x)), ("C24",))]
        self.label_props = {lab: pr for lab, _, pr in out if pr}
        return [(lab, g) for lab, g, _ in out]

    def before(self, ex, k, info):
        self.after = None
        ex.trace.append(("iter", k))

    def step(self, ex, pre_heap, k, info):
        s = ex.heap[self.S.sref.obj].f
        for lab, g, props in self.M.check_iteration(ex.trace, k):
            ex.oblige(g, lab, props, assume=False)
        pen = self.pen_value(ex, k)
        # PEN(k + 1) is the penalty this iteration used
        I = self.after = Iter(self.M, k, pen=pen)
        I.st1 = I.u.state
        for lab, g, props in nls_rules(self.M, I, pen, ex.token(s["variables_"]), ex.load(self.lams[0].ref), s["state_"]):
            ex.oblige(g, lab, props, assume=False)
        ex.oblige(neg(I.u.has), "no further iteration after an exit condition", ("C16",), assume=False)
        ex.oblige(neg(self.M.indefinite(I.t, I.lam)), "no further iteration after an indefinite subproblem", ("C16",), assume=False)
        ex.oblige(implies(self.M.has_cb, CBK(k)), "no further iteration after the callback refused", ("C16",), assume=False)
        for x in ex.trace:
            if x[0] == "callback":
                for lab, g in nls_entry(self.M, x[1], I):
                    ex.oblige(g, "the callback is shown the logged iteration: " + lab, ("C16",), assume=False)

    def on_exit(self, ex, k, info):
        ex.trace.append(("exit", k))


CASES = {"no equality constraints": lambda E, M: eq(E, 0), "equality constraints only": lambda E, M: conj(lt(0, E), eq(M, 0)),
         "equality constraints and bounds": lambda E, M: conj(lt(0, E), lt(0, M))}


def solve_nls(V, case):
    ex = V.ex
    S = NLSState(V)
    n, E, M_ = S.n, S.E, S.M
    layout(ex, E)
    ex.assume(CASES[case](E, M_))
    p = ex.sym("mini_opt::ConstrainedNonlinearLeastSquares::Params", "params")
    pr = ex.new(p, "params")
    M = NLSModel(V, S, p)
    M.has_eq = case != "no equality constraints"
    M.null_case = TRUE if case == "equality constraints only" else FALSE
    EN = ex.enums
    ex.assume(disj(*[eq(p.f["line_search_strategy"], x) for x in EN["LineSearchStrategy"].values()]))
    # left-over contents of an earlier solve; only the sizes are known (constructor)
    s0 = ex.heap[S.sref.obj]
    Ke = OFF(E)
    q = s0.f["qp_"].with_("G", matof(n, n, "staleG")).with_("c", vecof(n, "stalec")).with_("A_eq", matof(Ke, n, "staleA")).with_("b_eq", vecof(Ke, "staleb"))
    ex.assume(le(0, q.f["constraints"].len))
    stale = ex.sym("mini_opt::ConstrainedNonlinearLeastSquares", "stale").f
    nb = var("buffer_size", "Int")
    ex.assume(le(0, nb))
    ex.assume(le(0, stale["steps_"].len), disj(eq(stale["solver_"].tag, 0), eq(stale["solver_"].tag, 1)))
    retr = Opaque("function", name="retraction", nn=bvar("has_retraction"))
    cb = Opaque("function", name="user_callback", nn=M.has_cb)
    for k, v in {"qp_": q, "variables_": vecof(stale["variables_"].rows, "stale_x"), "candidate_vars_": vecof(stale["candidate_vars_"].rows, "stale_c"), "dx_": vecof(stale["dx_"].rows, "stale_d"),
                 "error_buffer_": vecof(nb, "stale_b"), "steps_": stale["steps_"], "state_": stale["state_"], "solver_": stale["solver_"],
                 "custom_retraction_": retr, "user_exit_callback_": cb}.items():
        s0 = s0.with_(k, v)
    given = bvar("problem_given")
    s0 = s0.with_("p_", PtrV(S.pref, given))
    ex.heap[S.sref.obj] = s0
    t_in = var("x_tok", "Int")
    m = var("m", "Int")
    ex.assume(le(0, m))
    x = ex.new(Mat(m, 1, lambda i, j: VEC(t_in, i), tok=t_in), "variables")
    V.assumptions.append("Solve: residual functions, retraction and callback are deterministic and do not touch the solver; the problem is not changed between construction and Solve")
    C = NLSContracts(V, S, M)
    holder = []

    def mk(ex, nd):
        l = NLSLoop(V, S, M, C)
        holder.append(l)
        return l
    outs = V.run("Solve", NLS, S.sref, [pr, x], contracts=C.table(), loops=[mk])
    bad = disj(neg(given), nls_bad(p), ne(m, n))
    TS = EN["NLSTerminationState"]; R = EN["StepSizeSelectionResult"]
    late = ("a bound on a missing variable", "QP solver:", "not finite")
    for o in outs:
        if o.kind == "throw":
            if any(x in o.val.what for x in late):
                V.post(o, neg(bad), "problem, parameters and variables are checked before any work", "C23")
                continue
            V.post(o, bad, "raises only for a missing problem, a parameter out of range or variables of the wrong length [%s]" % o.val.what, "C23")
            V.frame(o, S.sref, (), "refused input leaves the solver untouched:", props="C23")
    nret = 0
    for o in V.rets(outs):
        nret += 1
        V.post(o, neg(bad), "raises for a missing problem, every parameter out of range and variables of the wrong length", "C23 C22")
        s = S.s(o)
        r = o.val.f
        it = r["iterations"]
        N_ = it.len
        term = r["termination_state"]
        kinds = [x[0] for x in o.trace]
        exitk = loop_left_at(o.trace)
        c = o.ctx.copy()
        lam0, pen0 = p.f["lambda_initial"], p.f["equality_penalty_initial"]
        t_out = ex.token(s["variables_"])
        last = None
        if exitk:
            k = exitk[0]                # all iterations complete
            V.post(c, eq(term, TS["MAX_ITERATIONS"]), "the iteration limit is reported when it is reached", "C16")
            V.post(c, eq(N_, tmax(ZERO, p.f["max_iterations"])), "the iteration limit only after exactly the maximum number of iterations", "C16")
            done = k
        else:
            k = [x[1] for x in o.trace if x[0] == "iter"][-1]
            if "search" in kinds:
                done = k + 1
                pen = [x for x in o.trace if x[0] == "search"][-1][3]
                I = last = Iter(M, k, pen=pen)
                I.st1 = I.u.state
                for lab, g, props in M.check_iteration(o.trace, k):
                    V.post(c, g, lab, props)
                u = I.u
                for lab, g, props in nls_rules(M, I, pen, t_out, u.lam, s["state_"]):
                    V.post(c, g, lab + " (last iteration)", props)
                for x in o.trace:
                    if x[0] == "callback":
                        for lab, g in nls_entry(M, x[1], I):
                            V.post(c, g, "the callback is shown the logged iteration: " + lab, "C16")
                pn, t, lam = pen, I.t, I.lam
                V.post(c, implies(u.has, eq(term, u.val)), "an exit condition of the last iteration is reported", "C16 C15")
                V.post(c, implies(neg(u.has), conj(eq(term, TS["USER_CALLBACK"]), M.has_cb, neg(CBK(k)))), "otherwise the callback stopped the solve", "C16")
                V.post(c, iff(eq(term, TS["MAX_LAMBDA"]), conj(u.has, u.lmax)), "maximum lambda exactly when a raise takes lambda above its maximum", "C15")
                V.post(c, iff(eq(term, TS["SATISFIED_ABSOLUTE_TOL"]), conj(u.succ, lt(tmax(ERF(I.t1), ERE(I.t1)), p.f["absolute_exit_tol"]))), "absolute tolerance: cost and constraint error of the accepted step are below it", "C16")
                V.post(c, implies(eq(term, TS["SATISFIED_RELATIVE_TOL"]), conj(u.succ, lt(M.tot(t, pn) * (1 - p.f["relative_exit_tol"]), M.tot(I.t1, pn)))), "relative tolerance: the merit decrease is below it", "C16")
                V.post(c, implies(eq(term, TS["SATISFIED_FIRST_ORDER_TOL"]), lt(tmax(tabs(DDF(t, lam)), tabs(DDE(t, lam))), p.f["absolute_first_derivative_tol"])), "first order tolerance: the derivatives are below it", "C16")
                V.post(c, neg(disj(eq(term, TS["MAX_ITERATIONS"]), eq(term, TS["QP_INDEFINITE"]))), "no other state after a complete iteration", "C16")
            else:
                done = k
                V.post(c, conj(eq(term, TS["QP_INDEFINITE"]), M.indefinite(XT(k), LAM(k))), "QP-indefinite only when the equality-constrained subproblem failed", "C16")
        V.post(c, eq(N_, done), "one log entry per completed iteration", "C16 C18")
        t_fin = last.t1 if last is not None else XT(done)
        V.post(c, eq(t_out, t_fin), "the variables returned are those after the last iteration", "C15 C16 C18 C24")
        V.post(c, eq(s["variables_"].rows, n), "the variables returned have one entry per variable", "C22")
        V.post(c, conj(eq(XT(0), t_in), eq(LAM(0), lam0)), "starts from the variables and lambda given", "C15 C18 C16")
        V.post(c, eq(PEN(0), pen0), "the penalty starts at its configured initial value", "C17 C18 C16")
        V.post(c, eq(STT(0), EN["OptimizerState"]["NOMINAL"]), "every solve starts in the nominal mode", "C15 C18")
        j = fresh("j")
        if last is not None:
            for lab, g in nls_entry(M, it.fn(k), last):
                V.post(c, g, "last log entry: " + lab, "C16 C18")
        old = conj(*[g for _, g in value_eq(it.fn(j), ghost_entry(M, j, None))])
        V.post(c, forall([j], implies(conj(le(0, j), lt(j, k)), old)), "earlier log entries", "C16 C18")
        V.post(c, le(N_, p.f["max_iterations"]), "never more than the maximum number of iterations", "C16")
        V.post(c, implies(M.start_ok, M.inside(t_fin)), "the variables returned satisfy every bound to within 1e-9", "C24")
        # the result is determined by problem, parameters and variables: nothing left over shows up in it
        used = set()
        for path, leaf in list(scalar_leaves(r["iterations"])) + [("term", term)]:
            used |= {x.a[0] for x in atoms_in(leaf) if x.k in ("var", "app")}
        left = sorted(x for x in used if str(x).startswith(("stale", "nls.", "uninit", "scratch")) and not str(x).startswith("nls.p_"))
        V.post(c, FALSE if left else TRUE, "the result does not depend on what was solved before %s" % left, "C18")
        V.frame(o, S.sref, ("qp_", "variables_", "candidate_vars_", "dx_", "error_buffer_", "steps_", "state_", "solver_"), props="C18 C24")
        V.frame(o, S.pref, (), "problem unchanged", props="C12 C15 C18")
        q = s["qp_"].f
        V.post(o, conj(eq(q["G"].rows, n), eq(q["G"].cols, n), eq(q["c"].rows, n), eq(q["A_eq"].rows, Ke), eq(q["A_eq"].cols, n), eq(q["b_eq"].rows, Ke), eq(s["error_buffer_"].rows, nb)),
               "sizes established by the constructor are kept", "C12 C22")
    V.post(V.pre, TRUE if nret >= 4 else FALSE, "all exits are reachable", "C16")


for _case in CASES:
    task("ConstrainedNonlinearLeastSquares::Solve (%s)" % _case, "C12 C13 C15 C16 C17 C18 C22 C23 C24", units=U)(lambda V, c=_case: solve_nls(V, c))
