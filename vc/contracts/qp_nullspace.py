"""Contract of QPNullSpaceSolver::Solve."""
from spec import *
from contracts.qp import *

NSS = "QPNullSpaceSolver"


def _pinv(q):
    a = atom_of(q)
    if a is not None and a.k == "app" and a.a[0] == "perm":
        return a.a[1]
    return None


T.APP_SIMP["pinv"] = _pinv          # pinv(perm(k)) = k


class NullState:
    """a well-formed QP with consistent equality rows.  Contract of the pivoted QR factorization (exact arithmetic):
    A_eq^T P = Q R with Q orthogonal, R upper triangular of rank `rank` with a non-singular leading block.  The
    constraints are consistent: b_eq = -A_eq w for some w."""

    def __init__(self, V, n, K):
        self.V = V
        self.n = n; self.K = K
        self.r = var("rank", "Int")

    def Q(self, i, a): return app("Q", (P(i), P(a)))
    def R(self, a, k): return app("R", (P(a), P(k)))
    def RTI(self, a, m): return app("RTI", (P(a), P(m)))
    def perm(self, k): return app("perm", (P(k),), "Int")
    def w(self, i): return app("w", (P(i),))

    def A(self, q, i):
        k = app("pinv", (P(q),), "Int")
        return sumk(0, self.r, lambda a: self.Q(i, a) * self.R(a, k))

    def b(self, q):
        return -sumk(0, self.n, lambda i: self.A(q, i) * self.w(i))

    def facts(self):
        k, a = fresh("k"), fresh("a")
        k2 = fresh("k")
        return [le(0, self.r), le(self.r, self.n), le(self.r, self.K),
                forall([k], implies(conj(le(0, k), lt(k, self.K)), conj(le(0, self.perm(k)), lt(self.perm(k), self.K)))),
                forall([a, k2], implies(lt(k2, a), eq(self.R(a, k2), 0)))]

    def rules(self, ctx):
        n, r = self.n, self.r
        rn = lambda a, b: conj(le(0, a), lt(a, n), le(0, b), lt(b, n))
        rr = lambda a, b: conj(le(0, a), lt(a, r), le(0, b), lt(b, r))
        ctx.hints.append(prover.contraction_rule("Q", "Q", 0, n, lambda a, b: bracket(eq(a, b)), rn, 1, 1))
        ctx.hints.append(prover.contraction_rule("R", "RTI", 0, r, lambda k, m: bracket(eq(k, m)), rr, 1, 1))
        ctx.hints.append(prover.contraction_rule("R", "RTI", 0, r, lambda b, a: bracket(eq(a, b)), rr, 2, 2))
        ctx._simp = {}

    def table(self):
        V = self.V
        ex0 = V.ex
        n, K, r = self.n, self.K, self.r
        pd = self.pd = bvar("reduced_hessian_is_positive_definite")
        self.llt_mat = None

        def qr(ex, ref, m, args, node):
            i, k = fresh("i"), fresh("k")
            ex.oblige(conj(eq(m.rows, n), eq(m.cols, K), forall([i, k], implies(conj(le(0, i), lt(i, n), le(0, k), lt(k, K)), eq(m.at(i, k), self.A(k, i))))),
                      "the transposed equality matrix is factorized", ("C11",), assume=False)
            ex.assume(*self.facts())
            return Opaque("QR")

        def qr_construct(ex, t, vals, node):
            return qr(ex, None, vals[0], [], node)

        def tri_solve(ex, ref, m, args, node):
            rhs = ex.load(args[0])
            ex.oblige(conj(eq(m.rows, m.cols), eq(rhs.rows, m.rows)), "sizes agree: triangular solve", ("C22", "C11"))
            a, k = fresh("a"), fresh("k")
            ex.oblige(conj(eq(m.rows, r), forall([a, k], implies(conj(le(0, a), lt(a, r), le(0, k), lt(k, r)), eq(m.at(k, a), self.R(a, k))))),
                      "the non-singular transposed triangle is solved", ("C11",), assume=False)
            return Mat(r, 1, lambda a, j: sumk(0, r, lambda m_: self.RTI(a, m_) * rhs.at(m_)))

        def llt(ex, ref, m, args, node):
            ex.oblige(eq(m.rows, m.cols), "sizes agree: LLT", ("C22",))
            self.llt_mat = m
            self.V.reduced.append(m)
            return Opaque("LLT")

        def llt_construct(ex, t, vals, node):
            return llt(ex, None, vals[0], [], node)

        def info(ex, ref, v, args, node):
            return ite(pd, num(0), num(1))

        def solve_value(ex, rhs):
            m = self.llt_mat
            ex.oblige(pd, "the factorization is only used when it succeeded", ("C11",), assume=False)
            ex.oblige(eq(rhs.rows, m.rows), "sizes agree: LLT solve", ("C22",))
            y = lambda b: app("Y", (P(b),))
            b = fresh("b")
            ex.assume(forall([b], implies(conj(le(0, b), lt(b, m.rows)), eq(sumk(0, m.rows, lambda c: m.at(b, c) * y(c)), rhs.at(b)))))
            self.rhs = rhs
            return Mat(m.rows, 1, lambda i, j: y(i))

        def solve_in_place(ex, ref, v, args, node):
            ex.store(args[0], solve_value(ex, ex.load(args[0])))
            return TRUE

        t = {("Mat", "colPivHouseholderQr"): qr, ("construct", "ColPivHouseholderQR"): qr_construct,
             ("QR", "matrixQ"): lambda ex, ref, v, a, nd: Mat(n, n, lambda i, j: self.Q(i, j)),
             ("QR", "matrixR"): lambda ex, ref, v, a, nd: ex.new(Mat(n, K, lambda i, k: ite(le(i, k), self.R(i, k), app("householder", (i, k)))), "R"),
             ("QR", "colsPermutation"): lambda ex, ref, v, a, nd: ex.new(Mat(K, K, lambda i, k: bracket(eq(i, self.perm(k)))), "P"),
             ("QR", "rank"): lambda ex, ref, v, a, nd: r,
             ("QR", "info"): lambda ex, ref, v, a, nd: num(0),
             ("Mat", "solve"): tri_solve, ("Mat", "llt"): llt, ("construct", "LLT"): llt_construct,
             ("LLT", "info"): info, ("LLT", "solve"): lambda ex, ref, v, a, nd: solve_value(ex, ex.load(a[0])), ("LLT", "solveInPlace"): solve_in_place}
        t[("QR", "householderQ")] = t[("QR", "matrixQ")]
        t[("QR", "matrixQR")] = t[("QR", "matrixR")]
        return t


def null_self(V):
    ex = V.ex
    s = ex.sym("mini_opt::QPNullSpaceSolver", "stale")
    for f in s.f:
        ex.assume(le(0, s.f[f].rows), le(0, s.f[f].cols))
    return s, ex.new(s, "self")


@task("QPNullSpaceSolver::Solve (dimension checks)", "C03 C11 C22")
def null_checks(V):
    """an arbitrary, possibly malformed problem"""
    ex = V.ex
    q, pref = raw_problem(V)
    s, ref = null_self(V)

    def stop(ex, *a):
        raise X.ReturnExc("accepted")
    outs = V.run("Solve", NSS, ref, [pref], contracts={("Mat", "colPivHouseholderQr"): stop, ("construct", "ColPivHouseholderQR"): stop})
    G, c, A, b = (q.f[k] for k in ("G", "c", "A_eq", "b_eq"))
    bad = disj(le(A.rows, 0), ne(A.rows, b.rows), ne(G.rows, G.cols), ne(G.rows, c.rows), ne(A.cols, G.rows))
    for o in outs:
        if o.kind == "throw":
            V.post(o, bad, "raises only for a malformed problem or one without equality rows [%s]" % o.val.what, "C03 C11")
        else:
            V.post(o, TRUE if o.val == "accepted" else FALSE, "nothing but the checks precedes the factorization", "C03")
            V.post(o, lt(0, A.rows), "raises without equality rows", "C11")
            V.post(o, eq(A.rows, b.rows), "raises when A_eq and b_eq differ in rows", "C03")
            V.post(o, eq(G.rows, G.cols), "raises when G is not square", "C03")
            V.post(o, eq(G.rows, c.rows), "raises when c does not match G", "C03")
            V.post(o, eq(A.cols, G.rows), "raises when A_eq does not match G", "C03")
            V.frame(o, ref, (), "no work before the checks:", props="C03")
        V.frame(o, pref, (), "problem unchanged", props="C03")


@task("QPNullSpaceSolver::Solve", "C03 C11 C18 C22")
def null_solve(V):
    ex = V.ex
    n, K = var("n", "Int"), var("K", "Int")
    ex.assume(le(0, n), lt(0, K))
    D = NullState(V, n, K)
    V.reduced = []
    Gs = lambda i, j: app("Gs", (P(i), P(j)))
    c = lambda i: app("c", (P(i),))
    ex.assume(le(0, D.r))
    q = ex.sym("mini_opt::QP", "P")
    ex.assume(le(0, q.f["constraints"].len))
    q = q.with_("G", Mat(n, n, lambda i, j: ite(le(j, i), Gs(i, j), app("Gup", (i, j))))).with_("c", vecof(n, "c")) \
        .with_("A_eq", Mat(K, n, lambda k, i: D.A(k, i))).with_("b_eq", Mat(K, 1, lambda k, j: D.b(k)))
    pref = ex.new(q, "problem")
    s, ref = null_self(V)
    E = ex.enums["QPNullSpaceTerminationState"]
    outs = V.run("Solve", NSS, ref, [pref], contracts=D.table())
    V.assumptions.append("Eigen ColPivHouseholderQR: A^T P = Q R, Q orthogonal, exact rank decision (no threshold); LLT::info() reports success exactly when the matrix is positive definite")
    r = D.r
    n_ok = 0
    for o in outs:
        if o.kind == "throw":
            V.post(o, FALSE, "a well-formed problem is accepted (%s)" % o.val.what, "C03 C11")
    for m in V.reduced[:1]:
        pass
    for o in V.rets(outs):
        V.post(o, iff(eq(o.val, E["SUCCESS"]), D.pd), "success exactly when the reduced Hessian is positive definite", "C11")
        V.post(o, iff(eq(o.val, E["NOT_POSITIVE_DEFINITE"]), neg(D.pd)), "non-positive-definite exactly when the Cholesky factorization fails", "C11")
        V.frame(o, pref, (), "problem unchanged", props="C11 C18")
        # the factorized matrix is the projected Hessian
        m = D.llt_mat
        b1, b2 = fresh("b"), fresh("b")
        red = sumk(0, n, lambda i: D.Q(i, r + b1) * sumk(0, n, lambda j: Gs(i, j) * D.Q(j, r + b2)))
        c1 = o.ctx.extend([le(0, b1), lt(b1, n - r), le(0, b2), lt(b2, n - r)])
        V.post(o, conj(eq(m.rows, n - r), eq(m.cols, n - r)), "the reduced Hessian has one row per free direction", "C11")
        V.post(c1, eq(m.at(b1, b2), red), "the factorized matrix is the Hessian projected on the free directions", "C11")
        if o.ctx.decide(eq(o.val, E["SUCCESS"])) is not True:
            continue
        n_ok += 1
        x = o.heap[ref.obj].f["x_"]
        V.post(o, eq(x.rows, n), "solution has one component per variable", "C11 C22")
        ctx = o.ctx
        D.rules(ctx)
        # cut: simplified solution
        i0 = fresh("i")
        ci = ctx.extend([le(0, i0), lt(i0, n)])
        raw = x.at(i0)
        t = ci.simp(raw)
        V.post(ci, eq(raw, t), "solution in simplified form", "C11")
        bad = sorted({a.a[0] for a in atoms_in(t) if a.k == "app" and a.a[0].startswith(("stale", "uninit", "householder", "Gup"))})
        V.post(o, FALSE if bad else TRUE, "the solution does not depend on what was solved before %s" % bad, "C18 C11")
        xs = lambda i: subst(t, {atom_of(i0): P(i)})
        # A x + b = 0, for every row (rows are enumerated through the permutation)
        k = fresh("k")
        ck = ctx.extend([le(0, k), lt(k, K)])
        Ak = lambda i: sumk(0, r, lambda a: D.Q(i, a) * D.R(a, k))
        V.post(ck, eq(sumk(0, n, lambda i: Ak(i) * xs(i)) - sumk(0, n, lambda i: Ak(i) * D.w(i)), 0), "A_eq x + b_eq = 0", "C11")
        # Q2^T (G x + c) = 0
        b = fresh("b")
        cb = ctx.extend([le(0, b), lt(b, n - r)])
        V.post(cb, eq(sumk(0, n, lambda i: D.Q(i, r + b) * (sumk(0, n, lambda j: Gs(i, j) * xs(j)) + c(i))), 0), "the gradient G x + c is orthogonal to every free direction", "C11")
    V.post(V.pre, TRUE if n_ok else FALSE, "success is reachable", "C11")


@lemma("null-space lemma: orthogonal to the free directions means constrained minimizer", "C11")
def null_lemma(V):
    """A d = 0 implies Q1^T d = 0 (leading block of R non-singular), hence d lies in the span of Q2, so g^T d = 0"""
    n, K, r = (var(x, "Int") for x in ("n", "K", "rank"))
    base = [le(0, r), le(r, n), le(r, K), lt(0, K)]
    D = NullState(V, n, K)
    # e(a) = Q(:,a)^T d; the k-th constraint row says sum_a R(a,k) e(a) = 0
    e = lambda a: app("e", (P(a),))
    c = Ctx(base)
    V.pre = c
    D.rules(c)
    a = fresh("a")
    ca = c.extend([le(0, a), lt(a, r)])
    k = fresh("k")
    # sum_k RTI(a,k) (sum_b R(b,k) e(b)) = e(a): every e(a) vanishes when all rows do
    V.post(ca, eq(sumk(0, r, lambda k: D.RTI(a, k) * sumk(0, r, lambda b: D.R(b, k) * e(b))), e(a)), "the components along Q1 are determined by the constraint rows")
    # with d(i) = sum_{b} Q(i, r+b) e(r+b):  g^T d = sum_b e(r+b) (Q2^T g)(b)
    g = lambda i: app("g", (P(i),))
    lhs = sumk(0, n, lambda i: g(i) * sumk(0, n - r, lambda b: D.Q(i, r + b) * e(r + b)))
    rhs = sumk(0, n - r, lambda b: e(r + b) * sumk(0, n, lambda i: D.Q(i, r + b) * g(i)))
    V.post(Ctx(base), eq(lhs, rhs), "the derivative along a feasible direction is a combination of Q2^T g")


@task("BuildFullSystem", "C05 C22")
def build_full(V):
    """used by the unit tests as the reference for the direction; its rows are those of the Newton system"""
    ex = V.ex
    S = QPState(V)
    N, M, K = S.N, S.M, S.K
    H = ex.new(ex.sym("Eigen::Matrix<double, -1, -1>", "staleH"), "H")
    r = ex.new(ex.sym("Eigen::Matrix<double, -1, 1>", "staler"), "r")
    ex.assume(le(0, ex.load(H).rows), le(0, ex.load(H).cols), le(0, ex.load(r).rows))
    ex.assume(*S.positive(("s",)))
    outs = V.run("BuildFullSystem", IPM, S.sref, [PtrV(H, TRUE), PtrV(r, TRUE)])
    for o in V.rets(outs):
        h, rv = o.heap[H.obj], o.heap[r.obj]
        V.post(o, conj(eq(h.rows, S.n), eq(h.cols, S.n), eq(rv.rows, S.n)), "size N+2M+K", "C05 C22")
        V.frame(o, S.sref, (), props="C05")
    V.nothrow(outs, props="C05")


@task("QP::ComputeEigenvalueStats", "C22 C16")
def eigen_stats(V):
    ex = V.ex
    q = ex.sym("mini_opt::QP", "P")
    n = var("n", "Int")
    ex.assume(lt(0, n))
    q = q.with_("G", matof(n, n, "G"))
    ref = ex.new(q, "qp")

    def construct(ex, t, vals, node):
        ex.oblige(eq(vals[0].rows, vals[0].cols), "eigen decomposition of a square matrix", ("C22",))
        i, j = fresh("i"), fresh("j")
        ex.oblige(conj(eq(vals[0].rows, n), forall([i, j], implies(conj(le(0, i), lt(i, n), le(0, j), le(j, i)), eq(vals[0].at(i, j), app("G", (i, j)))))), "eigenvalues of the Hessian", ("C16",), assume=False)
        return Opaque("EIG")
    cs = {("construct", "SelfAdjointEigenSolver"): construct, ("EIG", "eigenvalues"): lambda ex, r, v, a, nd: ex.new(vecof(n, "eig"), "ev")}
    outs = V.run("ComputeEigenvalueStats", "QP", ref, [], contracts=cs)
    e = lambda i: app("eig", (P(i),))
    for o in V.rets(outs):
        r = o.val.f
        for nm, f, rel in (("min", e, lambda a, b: le(a, b)), ("max", e, lambda a, b: le(b, a)), ("abs_min", lambda i: tabs(e(i)), lambda a, b: le(a, b))):
            i, j = fresh("i"), fresh("i")
            V.post(o, conj(forall([i], implies(conj(le(0, i), lt(i, n)), rel(r[nm], f(i)))), exists([j], conj(le(0, j), lt(j, n), eq(r[nm], f(j))))), "%s eigenvalue" % nm, "C16")
        V.frame(o, ref, (), props="C16")
    V.nothrow(outs, props="C16")
