"""Contracts of qp.hpp / qp.cc."""
from spec import *
import eigen
from fractions import Fraction
T.SYMMETRIC.add("Gs")

IPM = "QPInteriorPointSolver"
LIC = "LinearInequalityConstraint"


# ================================================================== shared state
class QPState:
    """a QP and an interior-point solver that has been Setup with it (class invariant)"""

    def __init__(self, V, pname="P", sname="S", vname="v"):
        ex = V.ex
        self.ex = ex
        self.N = var("N", "Int"); self.M = var("M", "Int"); self.K = var("K", "Int")
        N, M, K = self.N, self.M, self.K
        self.n = N + 2 * M + K
        q = ex.sym("mini_opt::QP", pname)
        cons = q.f["constraints"]
        self.q = q.with_("G", Mat(N, N, self.G)).with_("c", vecof(N, "c")) \
            .with_("A_eq", matof(K, N, "A")).with_("b_eq", vecof(K, "b")) \
            .with_("constraints", VecV(M, lambda l: Struct(LIC, {"variable": self.idx(l), "a": self.a(l), "b": self.b(l)}), cons.elt))
        self.pref = ex.new(self.q, "problem")
        s = ex.sym("mini_opt::QPInteriorPointSolver", sname)
        n = self.n
        self.s0 = s.with_("p_", PtrV(self.pref, TRUE)) \
            .with_("dims_", Struct("ProblemDims", {"N": N, "M": M, "K": K})) \
            .with_("variables_", vecof(n, vname)).with_("r_", vecof(n, "r")) \
            .with_("delta_", vecof(n, "stale_delta")).with_("delta_affine_", vecof(n, "stale_aff")) \
            .with_("r_dual_aug_", vecof(N, "stale_aug")) \
            .with_("H_", Mat(N + K, N + K, self.H0)).with_("H_inv_", matof(N + K, N + K, "HI"))
        self.sref = ex.new(self.s0, "self")
        self.vname = vname
        ex.assume(le(0, N), le(0, M), le(0, K))
        l = fresh("l")
        ex.assume(forall([l], implies(conj(le(0, l), lt(l, M)), conj(le(0, self.idx(l)), lt(self.idx(l), N)))))

    def G(self, i, j):
        # only the lower triangle is read as the symmetric matrix Gs; the upper one is unrelated
        return ite(le(j, i), self.Gs(i, j), app("Gup", (i, j)))

    def H0(self, i, j):
        # class invariant of H_: the bottom-right K x K block is zero, the rest is left over
        return ite(conj(le(self.N, i), le(self.N, j)), ZERO, app("stale_H", (i, j)))

    Gs = staticmethod(lambda i, j: app("Gs", (i, j)))
    c = staticmethod(lambda i: app("c", (i,)))
    A = staticmethod(lambda q, j: app("A", (q, j)))
    beq = staticmethod(lambda q: app("b", (q,)))
    idx = staticmethod(lambda l: app("idx", (l,), "Int"))
    a = staticmethod(lambda l: app("ia", (l,)))
    b = staticmethod(lambda l: app("ib", (l,)))

    def v(self, i): return app(self.vname, (P(i),))
    def x(self, i): return self.v(i)
    def s(self, l): return self.v(self.N + l)
    def y(self, q): return self.v(self.N + self.M + q)
    def z(self, l): return self.v(self.N + self.M + self.K + l)

    def blk(self, m, name, i):
        """component i of block `name` of a stacked vector value"""
        off = {"x": num(0), "s": self.N, "y": self.N + self.M, "z": self.N + self.M + self.K}[name]
        return m.at(off + i)

    # KKT residuals, eq. 19.2a-d with mu = 0, as functions of a point (x,s,y,z)
    def r_d(self, i, x=None, y=None, z=None, ineq=True):
        x = x or self.x; y = y or self.y; z = z or self.z
        r = sumk(0, self.N, lambda j: self.Gs(i, j) * x(j)) + self.c(i) - sumk(0, self.K, lambda q: self.A(q, i) * y(q))
        if ineq:
            r = r - sumk(0, self.M, lambda l: bracket(eq(self.idx(l), i)) * self.a(l) * z(l))
        return r

    def r_comp(self, l, s=None, z=None):
        return (s or self.s)(l) * (z or self.z)(l)

    def r_pe(self, q, x=None):
        x = x or self.x
        return sumk(0, self.N, lambda j: self.A(q, j) * x(j)) + self.beq(q)

    def r_pi(self, l, x=None, s=None):
        return self.a(l) * (x or self.x)(self.idx(l)) + self.b(l) - (s or self.s)(l)

    def kkt(self, ineq=True, old=None):
        """the whole residual vector as a value"""
        N, M, K = self.N, self.M, self.K
        old = old or (lambda i: app("r", (i,)))

        def fn(i, j):
            s_row = self.r_comp(i - N) if ineq else old(i)
            z_row = self.r_pi(i - (N + M + K)) if ineq else old(i)
            return ite(lt(i, N), self.r_d(i, ineq=ineq), ite(lt(i, N + M), s_row, ite(lt(i, N + M + K), self.r_pe(i - (N + M)), z_row)))
        return Mat(self.n, 1, fn)

    def blocks(self):
        return [("x", self.N), ("s", self.M), ("y", self.K), ("z", self.M)]

    def check_blocks(self, V, o, m, spec, label, props=None):
        """stacked vector m equals spec(block, i) block by block, and has the right length"""
        V.post(o, conj(eq(m.rows, self.n), eq(m.cols, 1)), label + " length", props)
        for name, size in self.blocks():
            f = spec.get(name)
            if f is None:
                continue
            i = fresh("i")
            V.post(o, forall([i], implies(conj(le(0, i), lt(i, size)), eq(self.blk(m, name, i), f(i)))), "%s block %s" % (label, name), props)

    def positive(self, blocks=("s", "z")):
        """s > 0, z > 0"""
        out = []
        for nme in blocks:
            off = {"s": self.N, "z": self.N + self.M + self.K}[nme]
            l = fresh("l")
            out.append(forall([l], implies(conj(le(off, l), lt(l, off + self.M)), lt(0, self.v(l)))))
        return out


def out_struct(V, o, ref):
    return o.heap[ref.obj]


# ================================================================== C01 bounds helpers
def lic(V, idx=None):
    ex = V.ex
    st = Struct(LIC, {"variable": var("cv", "Int"), "a": var("ca"), "b": var("cb")})
    return ex.new(st, "bound"), st


@task("LinearInequalityConstraint constructor", "C01 C22")
def lic_ctor(V):
    ex = V.ex
    ref = ex.new(ex.sym("mini_opt::LinearInequalityConstraint", "uninit"), "bound")
    i, a, b = var("i", "Int"), var("a"), var("b")
    outs = V.run(LIC, LIC, ref, [i, a, b], 3)
    for o in V.rets(outs):
        st = o.heap[ref.obj]
        V.post(o, conj(eq(st.f["variable"], i), eq(st.f["a"], a), eq(st.f["b"], b)), "stores index and coefficients")
    V.nothrow(outs)


@task("LinearInequalityConstraint::IsFeasible", "C01 C22")
def lic_feasible(V):
    ref, st = lic(V)
    x = var("x")
    outs = V.run("IsFeasible", LIC, ref, [x])
    for o in V.rets(outs):
        V.post(o, iff(o.val, le(0, st.f["a"] * x + st.f["b"])), "feasible iff a*x+b >= 0")
        V.frame(o, ref, ())
    V.nothrow(outs)


@task("LinearInequalityConstraint::ClampX", "C01 C22")
def lic_clamp(V):
    ref, st = lic(V)
    x = var("x")
    a, b = st.f["a"], st.f["b"]
    outs = V.run("ClampX", LIC, ref, [x])
    for o in V.rets(outs):
        r = o.val
        f = lambda t: le(0, a * t + b)
        V.post(o, implies(lt(0, a), eq(r, tmax(x, -b / a))), "a > 0: max(x, -b/a)")
        V.post(o, implies(lt(a, 0), eq(r, tmin(x, -b / a))), "a < 0: min(x, -b/a)")
        V.frame(o, ref, ())
    V.throws_iff(outs, eq(a, 0), "a = 0")


@lemma("bound lemma: clamped value is the closest feasible one", "C01")
def lic_clamp_lemma(V):
    a, b, x, t, q = var("a"), var("b"), var("x"), var("t"), var("q")
    # q stands for -b/a
    for sgn, r in ((lt(0, a), tmax(x, q)), (lt(a, 0), tmin(x, q))):
        c = Ctx([sgn, eq(a * q + b, 0)])
        V.pre = c
        V.post(c, le(0, a * r + b), "clamped value is feasible")
        V.post(c, implies(le(0, a * x + b), eq(r, x)), "a feasible value is unchanged")
        V.post(c, implies(neg(le(0, a * x + b)), eq(a * r + b, 0)), "an infeasible value moves to the boundary")
        V.post(c, implies(le(0, a * t + b), le(tabs(r - x), tabs(t - x))), "no feasible value is closer")


@task("LinearInequalityConstraint::ShiftTo(double)", "C01 C22")
def lic_shift(V):
    ref, st = lic(V)
    x, dx = var("x"), var("dx")
    a, b = st.f["a"], st.f["b"]
    outs = V.run("ShiftTo", LIC, ref, [x], pred=lambda f: "double" in X.qt(f))
    for o in V.rets(outs):
        r = o.val
        V.post(o, eq(r.f["variable"], st.f["variable"]), "same variable")
        V.post(o, iff(le(0, r.f["a"] * dx + r.f["b"]), le(0, a * (x + dx) + b)), "feasible for dx iff the original is feasible for x + dx")
        V.post(o, conj(eq(r.f["a"], a), eq(r.f["b"], a * x + b)), "coefficients a and a*x+b")
        V.frame(o, ref, ())
    V.nothrow(outs)


@task("LinearInequalityConstraint::ShiftTo(vector)", "C01 C22")
def lic_shift_vec(V):
    ex = V.ex
    ref, st = lic(V)
    n = var("n", "Int")
    ex.assume(le(0, n))
    xm = vecof(n, "x")
    xr = ex.new(xm, "x")
    i, a, b = st.f["variable"], st.f["a"], st.f["b"]
    outs = V.run("ShiftTo", LIC, ref, [xr], pred=lambda f: "Matrix" in X.qt(f) or "VectorXd" in X.qt(f))
    dx = var("dx")
    for o in V.rets(outs):
        r = o.val
        V.post(o, eq(r.f["variable"], i), "same variable", "C01")
        V.post(o, conj(eq(r.f["a"], a), eq(r.f["b"], a * xm.at(i) + b)), "coefficients a and a*x[i]+b", "C01")
        V.post(o, iff(le(0, r.f["a"] * dx + r.f["b"]), le(0, a * (xm.at(i) + dx) + b)), "feasible for dx iff the original is feasible for x + dx", "C01")
        V.same(o, ex_load(o, xr), xm, "point unchanged", "C01")
    V.throws_iff(outs, disj(lt(i, 0), le(n, i)), "the index is outside the vector", "C01 C22")


def ex_load(o, ref):
    v = o.heap[ref.obj]
    return v


@task("Var comparison operators", "C01 C22")
def var_ops(V):
    ex = V.ex
    i, v, x = var("i", "Int"), var("v"), var("x")
    for op, spec in (("operator<=", le(x, v)), ("operator>=", le(v, x))):
        ref = ex.new(Struct("Var", {"variable_": i}), "var")
        outs = V.run(op, "Var", ref, [v])
        for o in V.rets(outs):
            r = o.val
            V.post(o, eq(r.f["variable"], i), op + " refers to the variable")
            V.post(o, iff(le(0, r.f["a"] * x + r.f["b"]), spec), op + " is feasible exactly for the comparison")
            V.post(o, ne(r.f["a"], 0), op + " has a nonzero coefficient")
        V.nothrow(outs)


@task("Var constructor", "C01 C22")
def var_ctor(V):
    ex = V.ex
    ref = ex.new(ex.sym("mini_opt::Var", "uninit"), "var")
    i = var("i", "Int")
    outs = V.run("Var", "Var", ref, [i], 1, pred=lambda f: "int" in X.qt(f))
    for o in V.rets(outs):
        V.post(o, eq(o.heap[ref.obj].f["variable_"], i), "stores the index")
    V.nothrow(outs)


# ================================================================== C03 / C22 / C18: Setup and friends
def raw_problem(V, name="P"):
    """an arbitrary, possibly malformed problem"""
    ex = V.ex
    q = ex.sym("mini_opt::QP", name)
    for f in ("G", "A_eq"):
        m = q.f[f]
        ex.assume(le(0, m.rows), le(0, m.cols))
    for f in ("c", "b_eq"):
        ex.assume(le(0, q.f[f].rows))
    ex.assume(le(0, q.f["constraints"].len))
    return q, ex.new(q, "problem")


def malformed_ip(q):
    l = fresh("l")
    con = q.f["constraints"]
    N = q.f["G"].rows
    badidx = exists([l], conj(le(0, l), lt(l, con.len), disj(lt(con.fn(l).f["variable"], 0), le(N, con.fn(l).f["variable"]))))
    A, b = q.f["A_eq"], q.f["b_eq"]
    return disj(ne(q.f["G"].rows, q.f["G"].cols), ne(N, q.f["c"].rows), ne(A.rows, b.rows),
                conj(lt(0, A.rows), ne(A.cols, N)), badidx)


@task("QPInteriorPointSolver::Setup", "C03 C18 C22")
def setup(V):
    ex = V.ex
    q, pref = raw_problem(V)
    nn = bvar("given")
    s0 = ex.sym("mini_opt::QPInteriorPointSolver", "S")
    for f in ("variables_", "r_", "r_dual_aug_", "delta_", "delta_affine_", "H_", "H_inv_"):
        ex.assume(le(0, s0.f[f].rows), le(0, s0.f[f].cols))
    s0 = s0.with_("p_", PtrV(None, FALSE))
    ref = ex.new(s0, "self")
    # a problem without any variable is degenerate: equality rows over it have an empty matrix
    ex.assume(disj(lt(0, q.f["G"].rows), eq(q.f["A_eq"].rows, 0)))
    V.assumptions.append("Setup: problems with equality rows but no variable at all are excluded (an empty matrix has no row count Eigen could compare)")
    bad = disj(neg(nn), malformed_ip(q))
    outs = V.run("Setup", IPM, ref, [PtrV(pref, nn)])
    A = q.f["A_eq"]
    for o in outs:
        if o.kind == "throw":
            V.post(o, bad, "raises only for a missing or malformed problem [%s]" % o.val.what, "C03")
    for o in V.rets(outs):
        # one obligation per clause: each kind of malformed problem raises
        N = q.f["G"].rows
        l = fresh("l")
        con = q.f["constraints"]
        V.post(o, nn, "raises when the problem is missing", "C03")
        V.post(o, eq(N, q.f["G"].cols), "raises when G is not square", "C03")
        V.post(o, eq(N, q.f["c"].rows), "raises when c does not match G", "C03")
        V.post(o, eq(A.rows, q.f["b_eq"].rows), "raises when A_eq and b_eq differ in rows", "C03")
        V.post(o, implies(lt(0, A.rows), eq(A.cols, N)), "raises when A_eq does not match G", "C03")
        V.post(o, forall([l], implies(conj(le(0, l), lt(l, con.len)), conj(le(0, con.fn(l).f["variable"]), lt(con.fn(l).f["variable"], N)))),
               "raises when a bound's index is out of range", "C03")
        s = o.heap[ref.obj]
        M, K = con.len, A.rows
        d = s.f["dims_"].f
        n = N + 2 * M + K
        V.post(o, conj(eq(d["N"], N), eq(d["M"], M), eq(d["K"], K)), "one primal per variable, one slack per bound, one multiplier per equality row", "C03")
        V.post(o, conj(s.f["p_"].nn), "remembers the problem", "C03")
        if s.f["p_"].ref is None or s.f["p_"].ref.obj != pref.obj:
            V.post(o, FALSE, "remembers the problem given", "C03")
        V.post(o, eq(s.f["variables_"].rows, n), "variables have N+2M+K components", "C03 C22")
        for f in ("r_", "delta_", "delta_affine_"):
            V.post(o, eq(s.f[f].rows, n), f + " has N+2M+K components", "C22")
        V.post(o, eq(s.f["r_dual_aug_"].rows, N), "r_dual_aug_ has N components", "C22")
        for f in ("H_", "H_inv_"):
            V.post(o, conj(eq(s.f[f].rows, N + K), eq(s.f[f].cols, N + K)), f + " is (N+K) x (N+K)", "C22")
        i, j = fresh("i"), fresh("j")
        V.post(o, forall([i, j], implies(conj(le(N, i), le(N, j), lt(i, N + K), lt(j, N + K)), eq(s.f["H_"].at(i, j), 0))),
               "bottom-right block of H is cleared, whatever was solved before", "C18")
        V.frame(o, pref, (), "problem unchanged", "C03")


@task("QPInteriorPointSolver constructor", "C03 C22")
def ip_ctor(V):
    ex = V.ex
    q, pref = raw_problem(V)
    s0 = ex.sym("mini_opt::QPInteriorPointSolver", "S")
    ref = ex.new(s0, "self")
    calls = []

    def c_setup(ex, this, args, node):
        p = ex.load(args[0])
        ex.trace.append(("Setup", this, p))
    outs = V.run(IPM, IPM, ref, [PtrV(pref, bvar("given"))], 1, {(IPM, "Setup"): c_setup}, pred=lambda f: "QP" in X.qt(f) and "Solver" not in X.qt(f).split("(")[1])
    for o in outs:
        ok = len(o.trace) == 1 and o.trace[0][1].obj == ref.obj and o.trace[0][2].ref.obj == pref.obj
        V.post(o, TRUE if ok else FALSE, "constructing a solver sets up the problem given")
        if ok:
            V.post(o, iff(o.trace[0][2].nn, bvar("given")), "constructing a solver passes the problem on")


@task("QPInteriorPointSolver::SetVariables", "C03 C22")
def set_variables(V):
    ex = V.ex
    S = QPState(V)
    m = var("m", "Int")
    ex.assume(le(0, m))
    vm = vecof(m, "new")
    vr = ex.new(vm, "v")
    outs = V.run("SetVariables", IPM, S.sref, [vr])
    V.throws_iff(outs, ne(m, S.n), "the length is wrong", "C03 C22")
    for o in V.rets(outs):
        V.same(o, o.heap[S.sref.obj].f["variables_"], vm, "stores the variables", "C03")
        V.frame(o, S.sref, ("variables_",), props="C03")


@task("QPInteriorPointSolver::problem", "C03 C22")
def ip_problem(V):
    ex = V.ex
    S = QPState(V)
    nn = bvar("given")
    ex.heap[S.sref.obj] = S.s0.with_("p_", PtrV(S.pref, nn))
    outs = V.run("problem", IPM, S.sref, [])
    V.throws_iff(outs, neg(nn), "no problem was set", "C03")


@task("QPInteriorPointSolver::Solve without a problem", "C03 C22")
def solve_noproblem(V):
    ex = V.ex
    S = QPState(V)
    ex.heap[S.sref.obj] = S.s0.with_("p_", PtrV(None, FALSE))
    pr = ex.new(ex.sym("mini_opt::QPInteriorPointSolver::Params", "params"), "params")

    def never(ex, this, args, node):
        ex.oblige(FALSE, "no work before the missing problem is reported", ("C03",))
        raise X.EndPath()
    cs = {(IPM, n): never for n in ("ComputeInitialGuess", "EvaluateKKTConditions", "ComputeErrors", "Iterate", "ComputeLDLT", "ComputeMu")}
    outs = V.run("Solve", IPM, S.sref, [pr], contracts=cs)
    for o in outs:
        V.post(o, FALSE if o.kind != "throw" else TRUE, "raises when no problem was set")
        if o.kind == "throw":
            V.frame(o, S.sref, (), "solver untouched")


# ================================================================== C04: KKT residuals and errors
def kkt_task(ineq):
    def run(V):
        ex = V.ex
        S = QPState(V)
        outs = V.run("EvaluateKKTConditions", IPM, S.sref, [TRUE if ineq else FALSE], 1)
        for o in V.rets(outs):
            s = o.heap[S.sref.obj]
            spec = {"x": lambda i: S.r_d(i, ineq=ineq), "y": S.r_pe}
            if ineq:
                spec["s"] = S.r_comp
                spec["z"] = S.r_pi
            P4 = "C04" if ineq else "C07"
            V.post(o, eq(s.f["r_"].rows, S.n), "residual length kept", P4 + " C22")
            names = {"x": "dual residual is G x + c - A_eq^T y - A_i^T z" if ineq else "dual residual without bounds is G x + c - A_eq^T y",
                     "s": "complementarity residual is s.*z", "y": "equality residual is A_eq x + b_eq", "z": "bound residual is a x + b - s"}
            for name, size in S.blocks():
                if name in spec:
                    i = fresh("i")
                    V.post(o, forall([i], implies(conj(le(0, i), lt(i, size)), eq(S.blk(s.f["r_"], name, i), spec[name](i)))), names[name], P4)
            V.frame(o, S.sref, ("r_",), props=P4)
            V.frame(o, S.pref, (), "problem unchanged", props=P4)
            # independence of what was there before (C18)
            stale_free(V, o, [("r_ block " + nme, S, s.f["r_"], nme) for nme in spec])
        V.nothrow(outs, props=P4)
    return run


def stale_free(V, o, items, prefixes=("stale", "r", "uninit")):
    """the post-state does not mention left-over contents"""
    for label, S, m, name in items:
        i = fresh("i")
        size = dict(S.blocks())[name]
        ctx = o.ctx.extend([le(0, i), lt(i, size)])
        t = ctx.simp(S.blk(m, name, i))
        bad = sorted({x.a[0] for x in atoms_in(t) if x.k == "app" and (x.a[0].startswith("stale") or x.a[0].startswith("uninit") or x.a[0] == "r")})
        if bad:
            V.post(ctx, FALSE, "%s depends on left-over contents of %s" % (label, ", ".join(bad)), "C18")
        else:
            V.ex.covers.add("no left-over contents: " + label)


task("EvaluateKKTConditions (with bounds)", "C04 C18 C22")(kkt_task(True))
task("EvaluateKKTConditions (without bounds)", "C07 C18 C22")(kkt_task(False))


@task("ComputeErrors", "C04 C22")
def compute_errors(V):
    ex = V.ex
    S = QPState(V)
    mu = var("mu")
    outs = V.run("ComputeErrors", IPM, S.sref, [mu])
    N, M, K = S.N, S.M, S.K
    r = lambda i: app("r", (P(i),))
    sq = lambda off, size: sumk(0, size, lambda i: r(off + i) * r(off + i))
    for o in V.rets(outs):
        e = o.val.f
        V.squares_nonneg(o, num(0), M, lambda l: r(N + l) - mu)
        for nme, val, why in (("r_dual", sq(num(0), N), "dual error is the L2 norm"),
                              ("r_primal_eq", sq(N + M, K), "equality error is the L2 norm"),
                              ("r_primal_ineq", sq(N + M + K, M), "bound error is the L2 norm"),
                              ("r_comp", sumk(0, M, lambda l: (r(N + l) - mu) * (r(N + l) - mu)), "complementarity error is the L2 norm after subtracting mu")):
            V.post(o, conj(le(0, e[nme]), eq(e[nme] * e[nme], val)), why, "C04")
        V.post(o, implies(eq(K, 0), eq(e["r_primal_eq"], 0)), "no equality rows: zero error", "C04")
        V.post(o, implies(eq(M, 0), conj(eq(e["r_comp"], 0), eq(e["r_primal_ineq"], 0))), "no bounds: zero errors", "C04")
        V.frame(o, S.sref, (), props="C04")
    V.nothrow(outs, props="C04")


@task("KKTError::Max", "C04 C22", units=("qp",))
def kkt_max(V):
    ex = V.ex
    st = ex.sym("mini_opt::KKTError", "e")
    ref = ex.new(st, "err")
    outs = V.run("Max", "KKTError", ref, [])
    f = st.f
    for o in V.rets(outs):
        V.post(o, conj(*[le(f[k], o.val) for k in f]), "at least each of the four errors")
        V.post(o, disj(*[eq(f[k], o.val) for k in f]), "equal to one of them")
    V.nothrow(outs)
    V.post(V.pre, TRUE if len(f) == 4 else FALSE, "there are four errors")


# ================================================================== C05: Newton direction
def ldlt_contracts(V, S, want, props):
    """Eigen::LDLT: reads one triangle; solve() is multiplication by the inverse HI of the symmetric matrix it was
    given, provided info() == Success.  `want(i,j)` is the lower triangle the factorized matrix must have."""
    ex = V.ex
    ok = bvar("factorization_succeeded")

    def capture(ex, t, m):
        upper = "Upper" in t or ", 2>" in t
        i, j = fresh("i"), fresh("j")
        n = S.N + S.K
        ex.oblige(conj(eq(m.rows, n), eq(m.cols, n)), "factorized matrix is (N+K) x (N+K)", props + ("C22",))
        for lab, g in (("G block", conj(lt(i, S.N), lt(j, S.N))), ("A_eq block", conj(le(S.N, i), lt(j, S.N))), ("zero block", conj(le(S.N, i), le(S.N, j)))):
            ex.oblige(forall([i, j], implies(conj(le(0, j), le(j, i), lt(i, n), g), eq(m.at(j, i) if upper else m.at(i, j), want(i, j)))),
                      "factorized matrix is the reduced KKT matrix: " + lab, props, assume=False)
        return Opaque("LDLT", id=ex._uid())

    def construct(ex, t, vals, n):
        if not vals:
            return Opaque("LDLT", id=None)
        if len(vals) != 1 or not isinstance(vals[0], Mat):
            raise Unsupported("LDLT constructor")
        return capture(ex, t, vals[0])

    def compute(ex, ref, v, args, n):
        m = ex.load(args[0])
        ex.store(ref, capture(ex, "", m))
        return ref

    def info(ex, ref, v, args, n):
        return ite(ok, num(0), num(1))

    def solve_value(ex, rhs):
        ex.oblige(ok, "the factorization is only used when it succeeded", props, assume=False)
        ex.oblige(eq(rhs.rows, S.N + S.K), "sizes agree: LDLT solve", ("C22",))
        return Mat(rhs.rows, rhs.cols, lambda i, j: sumk(0, S.N + S.K, lambda k: app("HI", (i, k)) * rhs.fn(k, j)))

    def solve(ex, ref, v, args, n):
        return solve_value(ex, ex.load(args[0]))

    def solve_in_place(ex, ref, v, args, n):
        ex.store(args[0], solve_value(ex, ex.load(args[0])))
        return TRUE
    return ok, {("construct", "LDLT"): construct, ("LDLT", "info"): info, ("LDLT", "solve"): solve, ("LDLT", "solveInPlace"): solve_in_place, ("LDLT", "compute"): compute}


def barrier_curv(S, i, j):
    """(A_i^T Sigma A_i)(i,j)"""
    return sumk(0, S.M, lambda l: bracket(eq(S.idx(l), i)) * bracket(eq(S.idx(l), j)) * S.a(l) * S.a(l) * S.z(l) * inv(S.s(l)))


def ldlt_task(ineq):
    def run(V):
        ex = V.ex
        S = QPState(V)
        N, M, K = S.N, S.M, S.K
        want = lambda i, j: ite(lt(i, N), S.Gs(i, j) + (barrier_curv(S, i, j) if ineq else ZERO), ite(lt(j, N), S.A(i - N, j), ZERO))
        pr = "C05" if ineq else "C05 C07"
        ok, cs = ldlt_contracts(V, S, want, tuple(pr.split()))
        outs = V.run("ComputeLDLT", IPM, S.sref, [TRUE if ineq else FALSE], 1, cs)
        l = fresh("l")
        bad = neg(ok)
        if ineq:
            bad = disj(bad, exists([l], conj(le(0, l), lt(l, M), le(S.s(l), 0))))
        for o in outs:
            if o.kind == "throw":
                V.post(o, bad, "raises only if the factorization fails" + (" or a slack is not positive" if ineq else ""), pr)
        for o in V.rets(outs):
            s = o.heap[S.sref.obj].f
            V.post(o, ok, "raises when the factorization fails", pr)
            i, j = fresh("i"), fresh("j")
            n = N + K
            V.post(o, forall([i, j], implies(conj(le(0, i), lt(i, n), le(0, j), lt(j, n)), eq(s["H_inv_"].at(i, j), app("HI", (i, j))))), "H_inv_ is the inverse", pr)
            V.post(o, conj(eq(s["H_inv_"].rows, n), eq(s["H_inv_"].cols, n), eq(s["H_"].rows, n), eq(s["H_"].cols, n)), "sizes kept", "C22")
            V.post(o, forall([i, j], implies(conj(le(N, i), le(N, j), lt(i, n), lt(j, n)), eq(s["H_"].at(i, j), 0))), "bottom-right block of H_ stays zero", pr + " C18")
            for f in ("delta_", "delta_affine_"):
                V.post(o, conj(eq(s[f].rows, S.n), forall([i], implies(conj(le(0, i), lt(i, S.n)), eq(s[f].at(i), 0)))), f + " is cleared", pr + " C18")
            V.frame(o, S.sref, ("H_", "H_inv_", "delta_", "delta_affine_"), props=pr)
            V.frame(o, S.pref, (), "problem unchanged", props=pr)
    return run


task("ComputeLDLT (with bounds)", "C05 C18 C22")(ldlt_task(True))
task("ComputeLDLT (without bounds)", "C05 C07 C18 C22")(ldlt_task(False))


def inverse_rules(ctx, S, ineq=True):
    """H * H_inv = I for H = [[G + A_i^T Sigma A_i, A_eq^T], [A_eq, 0]], as rewrite rules for sums"""
    N, K = S.N, S.K
    n = N + K
    rng = lambda e, k: conj(le(0, e), lt(e, N), le(0, k), lt(k, n))
    HI = lambda i, j: app("HI", (i, j))

    def r1(i, k):
        r = bracket(eq(i, k)) - sumk(0, K, lambda q: S.A(q, i) * HI(N + q, k))
        if ineq:
            r = r - sumk(0, S.M, lambda l: bracket(eq(S.idx(l), i)) * S.a(l) * S.a(l) * S.z(l) * inv(S.s(l)) * HI(S.idx(l), k))
        return r
    ctx.hints.append(prover.contraction_rule("Gs", "HI", 0, N, r1, rng))
    ctx.hints.append(prover.contraction_rule("A", "HI", 0, N, lambda q, k: bracket(eq(N + q, k)), lambda q, k: conj(le(0, q), lt(q, K), le(0, k), lt(k, n))))
    ctx._simp = {}


def newton_rows(V, o, S, d, rhs, props, ineq=True):
    """d(name, i): direction blocks; rhs: residual blocks"""
    N, M, K = S.N, S.M, S.K
    dx, dy = (lambda i: d("x", i)), (lambda q: d("y", q))
    ds, dz = (lambda l: d("s", l)), (lambda l: d("z", l))
    i = fresh("i")
    row = sumk(0, N, lambda j: S.Gs(i, j) * dx(j)) - sumk(0, K, lambda q: S.A(q, i) * dy(q))
    if ineq:
        row = row - sumk(0, M, lambda l: bracket(eq(S.idx(l), i)) * S.a(l) * dz(l))
    V.post(o, forall([i], implies(conj(le(0, i), lt(i, N)), eq(row, -rhs["x"](i)))), "dual row: G dx - A_eq^T dy - A_i^T dz = -r_d", props)
    q = fresh("q")
    V.post(o, forall([q], implies(conj(le(0, q), lt(q, K)), eq(sumk(0, N, lambda j: S.A(q, j) * dx(j)), -rhs["y"](q)))), "equality row: A_eq dx = -r_pe", props)
    if ineq:
        l = fresh("l")
        V.post(o, forall([l], implies(conj(le(0, l), lt(l, M)), eq(S.z(l) * ds(l) + S.s(l) * dz(l), -rhs["s"](l)))), "complementarity row: z ds + s dz = -(s z - mu + ds_aff dz_aff)", props)
        l = fresh("l")
        V.post(o, forall([l], implies(conj(le(0, l), lt(l, M)), eq(S.a(l) * dx(S.idx(l)) - ds(l), -rhs["z"](l)))), "bound row: a dx - ds = -(a x + b - s)", props)


def simplified_blocks(V, o, S, m, names, props):
    """cut: block components in simplified form, each justified by its own obligation"""
    out = {}
    for nme, size in S.blocks():
        if nme not in names:
            continue
        i = fresh("i")
        c = o.ctx.extend([le(0, i), lt(i, size)])
        raw = S.blk(m, nme, i)
        t = c.simp(raw)
        V.post(o, forall([i], implies(conj(le(0, i), lt(i, size)), eq(raw, t))), "direction block %s in simplified form" % nme, props)
        bad = sorted({x.a[0] for x in atoms_in(t) if x.k == "app" and x.a[0].startswith(("stale", "uninit"))})
        if bad:
            V.post(c, FALSE, "direction block %s depends on left-over contents %s" % (nme, bad), "C05 C18")
        else:
            V.ex.covers.add("direction block %s free of left-over contents" % nme)
        out[nme] = (atom_of(i), t)
    return lambda nme, e: subst(out[nme][1], {out[nme][0]: P(e)})


@task("SolveForUpdate", "C05 C18 C22")
def solve_for_update(V):
    ex = V.ex
    S = QPState(V)
    N, M, K = S.N, S.M, S.K
    mu = var("mu")
    aff = vecof(S.n, "aff")
    ex.heap[S.sref.obj] = S.s0.with_("delta_affine_", aff)
    ex.assume(*S.positive(("s",)))
    outs = V.run("SolveForUpdate", IPM, S.sref, [mu])
    r = vecof(S.n, "r")
    for o in V.rets(outs):
        s = o.heap[S.sref.obj].f
        V.post(o, eq(s["delta_"].rows, S.n), "length kept", "C05 C22")
        V.post(o, eq(s["r_dual_aug_"].rows, N), "length kept: r_dual_aug_", "C22")
        V.frame(o, S.sref, ("delta_", "r_dual_aug_"), props="C05")
        V.frame(o, S.pref, (), "problem unchanged", props="C05")
        inverse_rules(o.ctx, S)
        rhs = {"x": lambda i: S.blk(r, "x", i), "y": lambda i: S.blk(r, "y", i), "z": lambda i: S.blk(r, "z", i),
               "s": lambda l: S.blk(r, "s", l) + S.blk(aff, "s", l) * S.blk(aff, "z", l) - mu}
        d = simplified_blocks(V, o, S, s["delta_"], "xsyz", "C05")
        newton_rows(V, o, S, d, rhs, "C05")
    V.nothrow(outs, props="C05")


@task("SolveForUpdateNoInequalities", "C05 C07 C18 C22")
def solve_noineq(V):
    ex = V.ex
    S = QPState(V)
    N, M, K = S.N, S.M, S.K
    outs = V.run("SolveForUpdateNoInequalities", IPM, S.sref, [])
    r = vecof(S.n, "r")
    for o in V.rets(outs):
        s = o.heap[S.sref.obj].f
        V.post(o, eq(s["delta_"].rows, S.n), "length kept", "C05 C07 C22")
        V.frame(o, S.sref, ("delta_",), props="C05 C07")
        V.frame(o, S.pref, (), "problem unchanged", props="C05 C07")
        inverse_rules(o.ctx, S, False)
        d = simplified_blocks(V, o, S, s["delta_"], "xy", "C05 C07")
        newton_rows(V, o, S, d, {"x": lambda i: S.blk(r, "x", i), "y": lambda i: S.blk(r, "y", i)}, "C05 C07", ineq=False)
    V.nothrow(outs, props="C05 C07")


# ================================================================== C06: step fractions
def alpha_facts(val, d, n, tau, alpha):
    """contract of the step fraction: in (0,1], keeps every component above (1 - tau) times its value, and is maximal"""
    j = fresh("j")
    return [conj(lt(0, alpha), le(alpha, 1)),
            forall([j], implies(conj(le(0, j), lt(j, n)), le((ONE - tau) * val(j), val(j) + alpha * d(j)))),
            disj(eq(alpha, 1), exists([j], conj(le(0, j), lt(j, n), lt(d(j), 0), eq(val(j) + alpha * d(j), (ONE - tau) * val(j)))))]


import loops as L


class AlphaSpec(L.LoopSpec):
    props = ("C06",)

    def __init__(self, val, d, tau):
        self.val = val; self.d = d; self.tau = tau

    def start(self, ex, info):
        self.locs = [w for w in info.W if isinstance(info.pre[(w.obj, w.path)], Poly) and info.pre[(w.obj, w.path)] is ONE]
        if not self.locs:
            raise Unsupported("no step fraction initialised to one is updated by the loop")

    def invariants(self, ex, k, info):
        out = []
        for w in self.locs:
            a = ex.load(w.ref)
            fs = alpha_facts(self.val, self.d, k, self.tau, a)
            out += list(zip(("0 < alpha <= 1", "no component below (1 - tau) times its value so far", "largest such fraction so far"), fs))
        return out


@task("ComputeAlpha (one block)", "C06 C22")
def alpha_static(V):
    ex = V.ex
    n, m, tau = var("n", "Int"), var("m", "Int"), var("tau")
    ex.assume(le(0, n), le(0, m))
    val, d = (lambda i: app("val", (i,))), (lambda i: app("dval", (i,)))
    vr, dr = ex.new(vecof(n, "val"), "val"), ex.new(vecof(m, "dval"), "d_val")
    ex.assume(allk(0, n, lambda i: lt(0, val(i))))
    outs = V.run("ComputeAlpha", IPM, None, [vr, dr, tau], 3, loops=[lambda ex, node: AlphaSpec(val, d, tau)])
    bad = disj(ne(n, m), le(tau, 0), lt(1, tau))
    V.throws_iff(outs, bad, "the sizes differ or tau is outside (0,1]", "C06 C22")
    for o in V.rets(outs):
        for lab, f in zip(("fraction in (0,1]", "no component falls below (1 - tau) times its value", "largest such fraction not exceeding one"),
                          alpha_facts(val, d, n, tau, o.val)):
            V.post(o, f, lab, "C06")


def positive_facts(S, m):
    l = fresh("l")
    out = []
    for nme in ("s", "z"):
        l = fresh("l")
        out.append(forall([l], implies(conj(le(0, l), lt(l, S.M)), lt(0, S.blk(m, nme, l)))))
    return out


def view_fn(ex, a):
    m = ex.load(a)
    return m


def c_alpha_static(S):
    def c(ex, this, args, node):
        val, d = ex.load(args[0]), ex.load(args[1])
        tau = ex.load(args[2])
        ex.oblige(eq(val.rows, d.rows), "step fraction: sizes agree", ("C06", "C22"))
        ex.oblige(conj(lt(0, tau), le(tau, 1)), "step fraction: tau in (0,1]", ("C06", "C22"))
        ex.oblige(allk(0, val.rows, lambda i: lt(0, val.at(i))), "step fraction: requires positive values", ("C06",))
        al = fresh("alpha", "Real")
        ex.assume(*alpha_facts(val.at, d.at, val.rows, tau, al))
        ex.trace.append(("alpha", al, tau))
        return al
    return c


@task("ComputeAlpha (primal and dual)", "C06 C22")
def alpha_both(V):
    ex = V.ex
    S = QPState(V)
    tau = var("tau")
    d = vecof(S.n, "d")
    ex.heap[S.sref.obj] = S.s0.with_("delta_", d)
    ex.assume(*S.positive())
    ex.assume(conj(lt(0, tau), le(tau, 1)))
    out = ex.new(ex.sym("mini_opt::AlphaValues", "out"), "output")
    outs = V.run("ComputeAlpha", IPM, S.sref, [PtrV(out, TRUE), tau], 2, {(IPM, "ComputeAlpha", 3): c_alpha_static(S)})
    v = vecof(S.n, "v")
    for o in V.rets(outs):
        a = o.heap[out.obj].f
        for blk, f in (("s", "primal"), ("z", "dual")):
            for lab, fact in zip(("in (0,1]", "keeps (1 - tau) of every component", "is the largest such fraction"),
                                 alpha_facts(lambda l: S.blk(v, blk, l), lambda l: S.blk(d, blk, l), S.M, tau, a[f])):
                V.post(o, fact, "%s fraction %s" % (f, lab), "C06")
        V.frame(o, S.sref, (), props="C06")
    V.nothrow(outs, props="C06")


@task("ComputeMu", "C10 C22")
def compute_mu(V):
    ex = V.ex
    S = QPState(V)
    outs = V.run("ComputeMu", IPM, S.sref, [])
    for o in V.rets(outs):
        tot = sumk(0, S.M, lambda l: S.s(l) * S.z(l))
        V.post(o, implies(lt(0, S.M), eq(o.val * S.M, tot)), "average complementarity s^T z / M")
        V.post(o, implies(eq(S.M, 0), eq(o.val, 0)), "zero without bounds")
        c = o.ctx.extend(S.positive())
        l = fresh("l")
        V.sum_nonneg(c, 0, S.M, lambda l: S.s(l) * S.z(l), "products of positive slacks and multipliers are not negative")
        V.post(c, le(0, o.val), "not negative when slacks and multipliers are positive")
        V.frame(o, S.sref, ())
    V.nothrow(outs)


@task("ComputePredictorCorrectorMuAffine", "C10 C22")
def pc_mu(V):
    ex = V.ex
    S = QPState(V)
    ex.assume(lt(0, S.M))
    mu = var("mu")
    ex.heap[S.sref.obj] = S.s0.with_("delta_affine_", vecof(S.n, "aff"))
    al = Struct("AlphaValues", {"primal": var("ap"), "dual": var("ad")})
    ar = ex.new(al, "alpha")
    tot = sumk(0, S.M, lambda l: S.s(l) * S.z(l))
    ex.assume(eq(mu * S.M, tot))
    aff = lambda i: app("aff", (P(i),))
    ds = lambda l: aff(S.N + l)
    dz = lambda l: aff(S.N + S.M + S.K + l)
    outs = V.run("ComputePredictorCorrectorMuAffine", IPM, S.sref, [mu, ar])
    after = sumk(0, S.M, lambda l: (S.s(l) + var("ap") * ds(l)) * (S.z(l) + var("ad") * dz(l)))
    for o in V.rets(outs):
        V.post(o, le(0, o.val), "never negative", "C10")
        V.post(o, implies(le(0, after), eq(o.val * S.M, after)), "average complementarity after the affine step", "C10")
        V.frame(o, S.sref, (), props="C10")
    V.nothrow(outs, props="C10")


# ---------------------------------------------------------------- relational contracts used by callers
class QPContracts:
    """contracts of the solver's own functions, as used at call sites (each is proved for its body by a task above)"""

    def __init__(self, S, this=None):
        self.S = S

    def st(self, ex, this=None):
        return ex.heap[self.S.sref.obj]

    def setf(self, ex, **kw):
        s = ex.heap[self.S.sref.obj]
        for k, v in kw.items():
            s = s.with_(k, v)
            ex.log(self.S.sref.obj, (("f", k),))
        ex.heap[self.S.sref.obj] = s

    def evaluate_kkt(self, ex, this, args, node):
        S = self.S
        s = self.st(ex)
        inc = ex.load(args[0]) if args else TRUE
        v = s.f["variables_"]
        tk = ex.token(v)
        if ex.branch(inc) if inc not in (TRUE, FALSE) else inc is TRUE:
            self.setf(ex, r_=Mat(S.n, 1, lambda i, j: app("KKT", (tk, i))))
            l = fresh("l")
            off = S.N + S.M + S.K
            ex.assume(forall([l], implies(conj(le(0, l), lt(l, S.M)), eq(app("KKT", (tk, off + l)), S.a(l) * v.at(S.idx(l)) + S.b(l) - v.at(S.N + l)))))
        else:
            old = s.f["r_"]
            self.setf(ex, r_=Mat(S.n, 1, lambda i, j: ite(disj(lt(i, S.N), conj(le(S.N + S.M, i), lt(i, S.N + S.M + S.K))), app("KKTe", (tk, i)), old.fn(i, j))))
        ex.trace.append(("kkt", tk))
        return None

    def compute_ldlt(self, ex, this, args, node):
        S = self.S
        s = self.st(ex)
        inc = ex.load(args[0]) if args else TRUE
        v = s.f["variables_"]
        tk = ex.token(v)
        if inc is TRUE:
            ex.oblige(allk(0, S.M, lambda l: lt(0, S.blk(v, "s", l))), "factorization: slacks are positive", ("C06",))
        if ex.choose(2) == 1:
            raise X.ThrowExc("FailedFactorization")
        zero = Mat(S.n, 1, lambda i, j: ZERO)
        nm = "HINV" if inc is TRUE else "HINVe"
        self.setf(ex, H_inv_=Mat(S.N + S.K, S.N + S.K, lambda i, j: app(nm, ((tk, i, j) if inc is TRUE else (i, j)))), delta_=zero, delta_affine_=zero,
                  H_=Mat(S.N + S.K, S.N + S.K, lambda i, j: ite(conj(le(S.N, i), le(S.N, j)), ZERO, app("stale_H2", (i, j)))))
        ex.trace.append(("ldlt", tk))
        return None

    def solve_for_update(self, ex, this, args, node):
        S = self.S
        s = self.st(ex)
        mu = ex.load(args[0])
        v = s.f["variables_"]
        tk = ex.token(v)
        i, j = fresh("i"), fresh("j")
        n = S.N + S.K
        ex.oblige(forall([i], implies(conj(le(0, i), lt(i, S.n)), eq(s.f["r_"].at(i), app("KKT", (tk, i))))), "direction: residuals are those of the current variables", ("C05", "C08"), assume=False)
        ex.oblige(forall([i, j], implies(conj(le(0, i), lt(i, n), le(0, j), lt(j, n)), eq(s.f["H_inv_"].at(i, j), app("HINV", (tk, i, j))))), "direction: factorization is that of the current variables", ("C05", "C08"), assume=False)
        ta = ex.token(s.f["delta_affine_"])
        self.setf(ex, delta_=Mat(S.n, 1, lambda i, j: app("DIR", (tk, ta, mu, i))), r_dual_aug_=vecof(S.N, "uninit_aug"))
        l = fresh("l")
        off = S.N + S.M + S.K
        d = lambda i: app("DIR", (tk, ta, mu, i))
        # the bound row of the Newton system, a dx - ds = -r_pi (proved for the body)
        ex.assume(forall([l], implies(conj(le(0, l), lt(l, S.M)), eq(S.a(l) * d(S.idx(l)) - d(S.N + l), -app("KKT", (tk, off + l))))))
        ex.trace.append(("dir", mu, ta, tk))
        return None

    def compute_mu(self, ex, this, args, node):
        S = self.S
        v = self.st(ex).f["variables_"]
        tk = ex.token(v)
        r = app("MU", (tk,))
        ex.assume(implies(le(S.M, 0), eq(r, 0)))
        # positive slacks and multipliers have a positive average product
        ex.trace.append(("mu", tk))
        pos = conj(*[f for f in positive_facts(S, v)])
        if self.known_positive(ex, v):
            ex.assume(implies(lt(0, S.M), lt(0, r)))
        return r

    def known_positive(self, ex, v):
        return any(w is v or w == ex.token(v) for w in getattr(ex, "pos_tokens", ()))

    def mu_affine(self, ex, this, args, node):
        S = self.S
        s = self.st(ex)
        mu = ex.load(args[0]); al = ex.load(args[1])
        tk = ex.token(s.f["variables_"])
        ta = ex.token(s.f["delta_affine_"])
        ex.oblige(eq(mu, app("MU", (tk,))), "affine complementarity: called with the average complementarity of the current variables", ("C10",), assume=False)
        r = app("MUAFF", (tk, ta, al.f["primal"], al.f["dual"]))
        ex.assume(le(0, r))
        return r

    def alpha(self, ex, this, args, node):
        S = self.S
        s = self.st(ex)
        out = ex.load(args[0]); tau = ex.load(args[1])
        v, d = s.f["variables_"], s.f["delta_"]
        ex.oblige(conj(lt(0, tau), le(tau, 1)), "step fraction: tau in (0,1]", ("C06",), assume=False)
        for blk in ("s", "z"):
            ex.oblige(allk(0, S.M, lambda l: lt(0, S.blk(v, blk, l))), "step fraction: block %s is positive" % blk, ("C06",), assume=False)
        r = {}
        for blk, f in (("s", "primal"), ("z", "dual")):
            a = app("ALPHA_" + f, (ex.token(v), ex.token(d), tau))
            ex.assume(*alpha_facts(lambda l: S.blk(v, blk, l), lambda l: S.blk(d, blk, l), S.M, tau, a))
            r[f] = a
        ex.store(out.ref, Struct("AlphaValues", r))
        ex.trace.append(("alpha", tau, r["primal"], r["dual"]))
        return None

    def table(self):
        return {(IPM, "EvaluateKKTConditions"): self.evaluate_kkt, (IPM, "ComputeLDLT"): self.compute_ldlt, (IPM, "SolveForUpdate"): self.solve_for_update,
                (IPM, "ComputeMu"): self.compute_mu, (IPM, "ComputePredictorCorrectorMuAffine"): self.mu_affine, (IPM, "ComputeAlpha", 2): self.alpha}


STRAT = {"COMPLEMENTARITY": 0, "FIXED_DECREASE": 1, "PREDICTOR_CORRECTOR": 2}


@task("Iterate", "C05 C06 C08 C10 C18 C22")
def iterate(V):
    ex = V.ex
    S = QPState(V)
    N, M, K = S.N, S.M, S.K
    mu_in, strat = var("mu_in"), var("strategy", "Int")
    sr = ex.new(strat, "strategy")
    PC = V.ex.enums["BarrierStrategy"]["PREDICTOR_CORRECTOR"]
    ex.assume(*S.positive())
    v = ex.heap[S.sref.obj].f["variables_"]
    ex.pos_tokens = [ex.token(v)]
    tv = ex.token(v)
    C = QPContracts(S)
    outs = V.run("Iterate", IPM, S.sref, [mu_in, sr], contracts=C.table())
    zero_tok = None
    tau = num(Fraction("0.995"))
    for o in outs:
        if o.kind == "throw":
            V.post(o, TRUE if "FailedFactorization" in o.val.what else FALSE, "raises only when the factorization fails [%s]" % o.val.what, "C05 C06")
    for o in V.rets(outs):
        s = o.heap[S.sref.obj].f
        nv, d = s["variables_"], s["delta_"]
        out = o.val.f
        ap, ad = out["alpha"].f["primal"], out["alpha"].f["dual"]
        dirs = [t for t in o.trace if t[0] == "dir"]
        zero_tok = ex.token(Mat(S.n, 1, lambda i, j: ZERO))
        # which direction is applied, and with which barrier value
        i = fresh("i")
        mu_used = dirs[-1][1] if dirs else num(0)
        V.post(o, TRUE if dirs else FALSE, "a direction is computed in every iteration", "C05")
        V.post(o, implies(le(M, 0), conj(eq(ap, 1), eq(ad, 1))), "without bounds the full step is taken", "C06")
        V.post(o, implies(conj(lt(0, M)), conj(lt(0, ap), le(ap, 1), lt(0, ad), le(ad, 1))), "applied fractions lie in (0,1]", "C06")
        for blk, size, al, pn in (("x", N, ap, "primal"), ("s", M, ap, "primal"), ("y", K, ad, "dual"), ("z", M, ad, "dual")):
            i = fresh("i")
            V.post(o, forall([i], implies(conj(le(0, i), lt(i, size)), eq(S.blk(nv, blk, i), S.blk(v, blk, i) + al * S.blk(d, blk, i)))),
                   "block %s moves along the direction by the logged %s fraction" % (blk, pn), "C06")
        for blk, al in (("s", ap), ("z", ad)):
            fs = alpha_facts(lambda l: S.blk(v, blk, l), lambda l: S.blk(d, blk, l), M, tau, al)
            V.post(o, implies(lt(0, M), fs[1]), "block %s keeps at least 0.5%% of every component" % blk, "C06")
            V.post(o, implies(lt(0, M), fs[2]), "block %s takes the largest such step" % blk, "C06")
            l = fresh("l")
            V.post(o, forall([l], implies(conj(le(0, l), lt(l, M)), lt(0, S.blk(nv, blk, l)))), "block %s stays strictly positive" % blk, "C06")
        V.post(o, eq(nv.rows, S.n), "length kept", "C06 C22")
        l = fresh("l")
        gap = lambda m, l: S.a(l) * S.blk(m, "x", S.idx(l)) + S.b(l) - S.blk(m, "s", l)
        V.post(o, forall([l], implies(conj(le(0, l), lt(l, M)), eq(gap(nv, l), (ONE - ap) * gap(v, l)))), "the gap a x + b - s of every bound shrinks by exactly 1 - alpha", "C08")
        l = fresh("l")
        eps = num(Fraction("1e-9"))
        ok = lambda m, l: conj(le(-eps, gap(m, l)), le(gap(m, l), 0))
        V.post(o, forall([l], implies(conj(le(0, l), lt(l, M), ok(v, l), eq(gap(nv, l), (ONE - ap) * gap(v, l)), lt(0, ap), le(ap, 1)), ok(nv, l))), "a gap in [-1e-9, 0] stays there", "C08")
        # barrier values
        pc = conj(eq(strat, PC), lt(0, M))
        V.post(o, implies(neg(pc), eq(out["mu"], mu_in)), "the logged barrier value is the input", "C10")
        V.post(o, implies(conj(lt(0, M)), eq(mu_used, out["mu"])), "the step uses the logged barrier value", "C10 C05")
        V.post(o, implies(le(M, 0), eq(mu_used, 0)), "without bounds the barrier is ignored", "C10")
        if len(dirs) == 1:
            V.post(o, neg(pc), "predictor-corrector takes a predictor and a corrector step", "C10 C05")
            V.post(o, eq(dirs[0][2], zero_tok), "no corrector term outside the corrector step", "C05")
            V.post(o, iff(bapp("isnan", (out["mu_affine"],)), bapp("isnan", (app("NaN", ()),))), "no affine value is logged outside predictor-corrector mode", "C10")
        elif len(dirs) == 2:
            V.post(o, pc, "two directions only in predictor-corrector mode", "C10 C05")
            V.post(o, conj(eq(dirs[0][1], 0), eq(dirs[0][2], zero_tok)), "the predictor step has no barrier and no corrector term", "C05 C10")
            aff = s["delta_affine_"]
            i = fresh("i")
            V.post(o, forall([i], implies(conj(le(0, i), lt(i, S.n)), eq(aff.at(i), app("DIR", (tv, zero_tok, num(0), i))))), "the corrector step uses the affine step", "C05 C10")
            V.post(o, eq(dirs[1][2], ex.token(aff)), "the corrector term is the affine step", "C05")
            al = [t for t in o.trace if t[0] == "alpha"]
            pr = out["alpha_probe"].f
            for blk, f in (("s", "primal"), ("z", "dual")):
                fs = alpha_facts(lambda l: S.blk(v, blk, l), lambda l: S.blk(aff, blk, l), M, num(1), pr[f])
                for lab, q in zip(("in (0,1]", "keeps components non-negative", "is maximal"), fs):
                    V.post(o, q, "probed %s fraction %s" % (f, lab), "C10 C06")
            ta = ex.token(aff)
            V.post(o, eq(out["mu_affine"], app("MUAFF", (tv, ta, pr["primal"], pr["dual"]))), "the logged affine value is the average complementarity after the affine step", "C10")
            m0 = app("MU", (tv,))
            V.post(o, eq(out["mu"] * m0 * m0 * m0, mu_in * out["mu_affine"] * out["mu_affine"] * out["mu_affine"]), "the value used is the input scaled by the cube of affine over current complementarity", "C10")
            V.post(o, implies(le(0, mu_in), le(0, out["mu"])), "the barrier value is never negative", "C10")
        else:
            V.post(o, FALSE, "one direction per step, two in predictor-corrector mode", "C05")
        V.frame(o, S.pref, (), "problem unchanged", props="C06")
