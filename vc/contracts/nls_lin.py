"""Contracts of the functions that evaluate and linearize the nonlinear problem (C12), over the contract of Residual.

Ghost functions: HC(i, q, t) / HE(r, t): component q of cost i, and component r of the stacked equality constraints
(constraint i, local row q is the stacked row OFF(i) + q), at the point named t; JE(r, c, t): stacked Jacobian of the
equality constraints; HES(i, r, c, t), GRAD(i, r, t): what cost i adds to Hessian and gradient; DIMC(i), DIME(i): sizes."""
from spec import *
import loops as L
from contracts.nls_poly import NLS
from contracts.nls import NLSState, U, VEC, tokvec, errs

DIMC = lambda i: app("DIMC", (P(i),), "Int")
DIME = lambda i: app("DIME", (P(i),), "Int")
OFF = lambda i: app("OFF", (P(i),), "Int")
HC = lambda i, q, t: app("HC", (P(i), P(q), t))
HE = lambda r, t: app("HE", (P(r), t))
JE = lambda r, c, t: app("JE", (P(r), P(c), t))
HES = lambda i, r, c, t: app("HES", (P(i), P(r), P(c), t))
GRAD = lambda i, r, t: app("GRAD", (P(i), P(r), t))
USED = lambda r, c: bapp("USED", (P(r), P(c)))      # the constraint of stacked row r depends on variable c


def half_sq(i, t):
    return Fraction(1, 2) * sumk(0, DIMC(i), lambda q: HC(i, q, t) * HC(i, q, t))


def norm1(i, t):
    return sumk(0, DIME(i), lambda q: tabs(HE(OFF(i) + q, t)))


def stack_rules(E):
    """rewrite rules for the layout of E constraints stacked below one another"""
    def prefix(ctx, x, extra):
        """SUM{0<=i<h} DIME(i) is OFF(h), for 0 <= h <= E (what OFF means)"""
        bs, fs = x.a
        if len(bs) != 1 or len(fs) != 1 or fs[0][1] != 1:
            return None
        v, lo, hi = bs[0]
        y = fs[0][0]
        if y is not atom_of(DIME(P(v))) or const_of(lo) != 0:
            return None
        return OFF(hi) if ctx.decide(conj(le(0, hi), le(hi, E)), extra) is True else None

    def stacked(ctx, x, extra):
        """SUM{0<=i<h} SUM{0<=q<DIME(i)} f(OFF(i)+q) is SUM{0<=r<OFF(h)} f(r), for 0 <= h <= E"""
        bs, fs = x.a
        if len(bs) != 1 or len(fs) != 1 or fs[0][1] != 1 or fs[0][0].k != "sum" or len(fs[0][0].a[0]) != 1:
            return None
        (v, lo, hi), = bs
        ((w, lo2, hi2),), gs = fs[0][0].a
        if const_of(lo) != 0 or const_of(lo2) != 0 or hi2 is not DIME(P(v)):
            return None
        r = fresh("r")
        p = ONE
        for y, e in gs:
            z = subst(P(y), {w: r - OFF(P(v))})
            if v in fv(z) or e < 1:
                return None
            for _ in range(int(e)):
                p = p * z
        return mk_sum(r, 0, OFF(hi), p) if ctx.decide(conj(le(0, hi), le(hi, E)), extra) is True else None

    for f in (prefix, stacked):
        f.subst = lambda m, i=(prefix, stacked).index(f): stack_rules(subst(E, m))[i]
    return [prefix, stacked]


def layout(ex, E):
    """prefix sums of the constraint sizes (a definition) and what follows from sizes being positive"""
    i, j = fresh("i"), fresh("j")
    ex.assume(eq(OFF(0), 0), forall([i], implies(conj(le(0, i), lt(i, E)), conj(eq(OFF(i + 1), OFF(i) + DIME(i)), le(0, OFF(i)), le(OFF(i) + DIME(i), OFF(E))))))
    i = fresh("i")
    ex.assume(forall([i], le(0, DIMC(i))))
    i = fresh("i")
    ex.assume(forall([i], le(0, DIME(i))))
    ex.assume(le(0, OFF(E)))
    E = P(E)

    ex.ctx.hints.extend(stack_rules(E))


class ResidualContracts:
    """what Residual::Model is proved to do (tasks of residual.py), for costs and equality constraints of a problem"""
    def __init__(self, V, n, props=("C12",)):
        self.V = V; self.n = n; self.props = props

    def which(self, ex, this):
        r = ex.load(this)
        if not isinstance(r, Opaque) or r.kind != "Residual":
            raise Unsupported("residual object")
        nm = r.d["name"]
        if nm.endswith("equality_constraints"):
            return "eq", r.d["idx"][0]
        if nm.endswith("costs"):
            return "cost", r.d["idx"][0]
        raise Unsupported("residual of " + nm)

    def dim(self, w, i):
        return DIME(i) if w == "eq" else DIMC(i)

    def val(self, w, i, q, t):
        return HE(OFF(i) + q, t) if w == "eq" else HC(i, q, t)

    def dimension(self, ex, this, args, node):
        w, i = self.which(ex, this)
        d = self.dim(w, i)
        ex.ctx.assume(le(0, d))
        return d

    def point(self, ex, a):
        v = ex.load(a)
        ex.oblige(eq(v.rows, self.n), "the point has one entry per variable", ("C12", "C22"), assume=False)
        return ex.token(v)

    def error_vector(self, ex, this, args, node):
        w, i = self.which(ex, this)
        t = self.point(ex, args[0])
        b = args[1]
        v = ex.load(b)
        ex.oblige(eq(v.rows, self.dim(w, i)), "error output has the dimension of the residual", ("C12", "C22"), assume=False)
        self.put(ex, b, Mat(self.dim(w, i), 1, lambda q, j: self.val(w, i, q, t)))

    def quadratic_error(self, ex, this, args, node):
        w, i = self.which(ex, this)
        t = self.point(ex, args[0])
        return Fraction(1, 2) * sumk(0, self.dim(w, i), lambda q: self.val(w, i, q, t) * self.val(w, i, q, t))

    def put(self, ex, b, m):
        x = ex.load(b) if isinstance(b, Ref) else b
        if isinstance(b, Ref) and isinstance(x, View):
            b = x
        ex.store(b, m)

    def deref(self, ex, a):
        p = ex.load(a) if isinstance(a, Ref) else a
        return p.ref if isinstance(p, PtrV) else a

    def update_hessian(self, ex, this, args, node):
        w, i = self.which(ex, this)
        if w != "cost":
            raise Unsupported("Hessian of a constraint")
        t = self.point(ex, args[0])
        H, b = self.deref(ex, args[1]), self.deref(ex, args[2])
        m, v = ex.load(H), ex.load(b)
        ex.oblige(conj(eq(m.rows, self.n), eq(m.cols, self.n), eq(v.rows, self.n)), "Hessian and gradient have the size of the problem", ("C12", "C22"), assume=False)
        ex.store(H, Mat(m.rows, m.cols, lambda r, c, f=m.fn: f(r, c) + bracket(le(c, r)) * HES(i, r, c, t)))
        ex.store(b, Mat(v.rows, 1, lambda r, j, f=v.fn: f(r, j) + GRAD(i, r, t)))
        return half_sq(i, t)

    def update_jacobian(self, ex, this, args, node):
        w, i = self.which(ex, this)
        if w != "eq":
            raise Unsupported("Jacobian of a cost")
        t = self.point(ex, args[0])
        J, b = args[1], args[2]
        m, v = ex.load(J), ex.load(b)
        m = ex.load(m) if isinstance(m, View) else m
        v = ex.load(v) if isinstance(v, View) else v
        ex.oblige(conj(eq(m.rows, DIME(i)), eq(v.rows, DIME(i)), eq(m.cols, self.n)), "Jacobian and error blocks have the dimension of the residual", ("C12", "C22"), assume=False)
        old = m.fn
        self.put(ex, J, Mat(DIME(i), m.cols, lambda q, c: ite(USED(OFF(i) + q, c), JE(OFF(i) + q, c, t), old(q, c))))
        self.put(ex, b, Mat(DIME(i), 1, lambda q, j: HE(OFF(i) + q, t)))

    def table(self):
        R = "Residual"
        return {(R, "Dimension"): self.dimension, (R, "ErrorVector"): self.error_vector, (R, "UpdateHessian"): self.update_hessian,
                (R, "UpdateJacobian"): self.update_jacobian, (R, "QuadraticError"): self.quadratic_error}


@task("EvaluateNonlinearErrors", "C12 C13 C22", units=U)
def evaluate(V):
    ex = V.ex
    S = NLSState(V)
    layout(ex, S.E)
    s0 = S.s()
    i, j = fresh("i"), fresh("j")
    nb = s0["error_buffer_"].rows
    ex.assume(le(0, nb), forall([i], implies(conj(le(0, i), lt(i, S.C)), le(DIMC(i), nb))), forall([j], implies(conj(le(0, j), lt(j, S.E)), le(DIME(j), nb))))
    V.assumptions.append("EvaluateNonlinearErrors: the error buffer holds the largest residual (established by the constructor)")
    t = var("x_tok", "Int")
    x = ex.new(tokvec(S.n, t), "vars")
    outs = V.run("EvaluateNonlinearErrors", NLS, S.sref, [x], contracts=ResidualContracts(V, S.n).table(), loops=[lambda ex, n: L.Havoc()])
    V.nothrow(outs, props="C12 C22")
    for o in V.rets(outs):
        r = o.val.f
        V.post(o, eq(r["f"], sumk(0, S.C, lambda i: half_sq(i, t))), "cost is the sum of half squared cost norms", "C12 C13")
        V.post(o, eq(r["equality"], sumk(0, S.E, lambda i: norm1(i, t))), "constraint error is the L1 norm of the stacked residuals", "C12 C13")
        V.frame(o, S.sref, ("error_buffer_",), props="C12 C13")
        V.post(o, eq(S.s(o)["error_buffer_"].rows, nb), "the buffer keeps its size", "C12 C22")
        V.frame(o, S.pref, (), "problem unchanged", props="C12")


class StackLoop(L.LoopSpec):
    """the loop over the equality constraints of LinearizeAndFillQP"""
    props = ("C12", "C22")
    fallback = True

    def __init__(self, V, qp, E, n, t):
        self.V = V; self.qp = qp; self.E = E; self.n = n; self.t = t

    def start(self, ex, info):
        if not any(w.obj == self.qp.obj and w.path and w.path[0][1] == "A_eq" for w in info.W):
            raise L.Decline()
        self.rows = [w for w in info.W if isinstance(info.pre[(w.obj, w.path)], Poly) and const_of(info.pre[(w.obj, w.path)]) == 0
                     and is_int(info.pre[(w.obj, w.path)]) and not any(s.closed is not None and (s.loc.obj, s.loc.path) == (w.obj, w.path) for s in info.slots.values())]
        self.info = info

    def solve(self, ex, slot, x0, d, k):
        # a row offset that starts at zero and grows by the size of each constraint is the prefix sum
        if slot.sort == "Int" and const_of(x0) == 0 and d is DIME(k):
            return lambda kk, idx: OFF(kk)
        return None

    def invariants(self, ex, k, info):
        q = ex.heap[self.qp.obj].f
        A, b = q["A_eq"], q["b_eq"]
        t = self.t
        out = [("equality matrix keeps its size", conj(eq(A.rows, OFF(self.E)), eq(A.cols, self.n), eq(b.rows, OFF(self.E))))]
        for w in self.rows:
            out.append(("row offset", eq(ex.load(w.ref), OFF(k))))
        r, c, r2 = fresh("r"), fresh("c"), fresh("r")
        rng = lambda x, hi: conj(le(0, x), lt(x, hi))
        out += [("Jacobian rows", forall([r, c], implies(conj(rng(r, OFF(self.E)), rng(c, self.n)), eq(A.at(r, c), bracket(conj(lt(r, OFF(k)), USED(r, c))) * JE(r, c, t))))),
                ("residual rows", forall([r2], implies(rng(r2, OFF(self.E)), eq(b.at(r2), bracket(lt(r2, OFF(k))) * HE(r2, t)))))]
        return out

    def on_exit(self, ex, k, info):
        # the invariant gives every element: use it as their definition from here on
        q = ex.heap[self.qp.obj].f
        A, b, t = q["A_eq"], q["b_eq"], self.t
        ex.store(self.qp.f("A_eq"), Mat(A.rows, A.cols, lambda r, c: bracket(conj(lt(r, OFF(k)), USED(r, c))) * JE(r, c, t)))
        ex.store(self.qp.f("b_eq"), Mat(b.rows, b.cols, lambda r, c: bracket(lt(r, OFF(k))) * HE(r, t)))


@task("LinearizeAndFillQP", "C12 C24 C22", units=U)
def linearize(V):
    ex = V.ex
    S = NLSState(V)
    n, C, E, M = S.n, S.C, S.E, S.M
    layout(ex, E)
    qp = ex.sym("mini_opt::QP", "qp")
    f = qp.f
    for m in ("G", "A_eq"):
        ex.assume(le(0, f[m].rows), le(0, f[m].cols))
    for m in ("c", "b_eq"):
        ex.assume(le(0, f[m].rows))
    ex.assume(le(0, f["constraints"].len))
    ex.assume(eq(f["A_eq"].rows, OFF(E)), eq(f["A_eq"].cols, n))
    V.assumptions.append("LinearizeAndFillQP: the equality matrix has one row per equality residual (established by the constructor, kept by every call)")
    qref = ex.new(qp, "qp")
    t = var("x_tok", "Int")
    x = ex.new(tokvec(n, t), "vars")
    lam = var("lambda")
    ptr = PtrV(qref, bvar("qp_given"))
    cs = ResidualContracts(V, n).table()

    def shift(ex, this, args, node):
        c = ex.load(this)
        v = ex.load(args[0])
        V.ex.oblige(conj(eq(v.rows, n), eq(ex.token(v), t)), "bounds are shifted to the linearization point", ("C12", "C24"), assume=False)
        i = c.f["variable"]
        if ex.branch(neg(conj(le(0, i), lt(i, n)))):
            raise X.ThrowExc("bound index outside the variables")
        return Struct("LinearInequalityConstraint", {"variable": i, "a": c.f["a"], "b": c.f["a"] * VEC(t, i) + c.f["b"]})
    cs[("LinearInequalityConstraint", "ShiftTo")] = shift
    outs = V.run("LinearizeAndFillQP", NLS, None, [x, lam, ex.new(ex.heap[S.pref.obj], "problem") if False else S.pref, ptr], contracts=cs,
                 loops=[lambda ex, nd: StackLoop(V, qref, E, n, t), lambda ex, nd: L.Havoc() if False else None])
    bc = ex.heap[S.pref.obj].f["inequality_constraints"]
    for o in outs:
        if o.kind == "throw":
            l = fresh("l")
            iv = bc.fn(l).f["variable"]
            V.post(o, disj(neg(bvar("qp_given")), ne(f["G"].rows, n), ne(f["G"].cols, n), ne(f["c"].rows, n), ne(f["b_eq"].rows, OFF(E)),
                           neg(forall([l], implies(conj(le(0, l), lt(l, M)), conj(le(0, iv), lt(iv, n)))))), "raises only for a subproblem of the wrong size or a bound on a missing variable [%s]" % o.val.what, "C12")
    for o in V.rets(outs):
        q = o.heap[qref.obj].f
        i, j = fresh("i"), fresh("j")
        V.post(o, conj(eq(q["G"].rows, n), eq(q["G"].cols, n), eq(q["c"].rows, n), eq(q["A_eq"].rows, OFF(E)), eq(q["A_eq"].cols, n), eq(q["b_eq"].rows, OFF(E))), "sizes of the subproblem", "C12")
        rng = lambda x, hi: conj(le(0, x), lt(x, hi))
        V.post(o, forall([i, j], implies(conj(rng(i, n), rng(j, n), le(j, i)), eq(q["G"].at(i, j), sumk(0, C, lambda k: HES(k, i, j, t)) + bracket(conj(eq(i, j), lt(0, lam))) * lam))),
               "Hessian is the sum over all costs plus lambda on the diagonal", "C12")
        i = fresh("i")
        V.post(o, forall([i], implies(rng(i, n), eq(q["c"].at(i), sumk(0, C, lambda k: GRAD(k, i, t))))), "gradient is the sum over all costs", "C12")
        r, c = fresh("r"), fresh("c")
        V.post(o, forall([r, c], implies(conj(rng(r, OFF(E)), rng(c, n)), eq(q["A_eq"].at(r, c), bracket(USED(r, c)) * JE(r, c, t)))), "stacked constraint Jacobians in declaration order, zero where a constraint does not depend on a variable", "C12")
        r = fresh("r")
        V.post(o, forall([r], implies(rng(r, OFF(E)), eq(q["b_eq"].at(r), HE(r, t)))), "stacked constraint residuals in declaration order", "C12")
        l = fresh("l")
        V.post(o, eq(q["constraints"].len, M), "one shifted bound per problem bound", "C12 C24")
        e = q["constraints"].fn(l).f
        p = bc.fn(l).f
        V.post(o, forall([l], implies(rng(l, M), conj(eq(e["variable"], p["variable"]), eq(e["a"], p["a"]), eq(e["b"], p["a"] * VEC(t, p["variable"]) + p["b"])))), "shifted bounds in order", "C12 C24")
        er = o.val.f
        V.post(o, eq(er["f"], sumk(0, C, lambda i: half_sq(i, t))), "reported cost", "C12")
        V.post(o, eq(er["equality"], sumk(0, E, lambda i: norm1(i, t))), "reported constraint error", "C12")
        V.frame(o, S.pref, (), "problem unchanged", props="C12")
        V.frame(o, x, (), "linearization point unchanged", props="C12")
