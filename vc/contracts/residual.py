"""Contracts of include/mini_opt/residual.hpp and source/residual.cc (C02).

vc/tu/residual_inst.cc instantiates the templates at residual size 37 and parameter size 41 (or dynamic); the verifier reads
37 and 41 as the symbolic sizes R and P, so that the proofs hold for every size.  The user's function is under the contract
`returns a vector of R values that depends on the parameters only, and writes the R x P Jacobian when given a place for it`."""
from spec import *
import loops as L

R_, P_ = var("R", "Int"), var("P", "Int")
U = ("residual",)


def setup(V):
    X.TEMPLATE_DIMS.update({37: R_, 41: P_})
    V.ex.assume(le(0, R_), le(0, P_))


def targs_of(u, f):
    """template arguments of the class template specialization a method belongs to (None for the template itself)"""
    q = u.parent.get(f.get("id"))
    while q is not None and q.get("kind") != "ClassTemplateSpecializationDecl":
        q = u.parent.get(q.get("id"))
    if q is None:
        return None, None
    return [int(c["value"]) for c in q.get("inner", ()) if c.get("kind") == "TemplateArgument" and "value" in c], q


class Model:
    """a residual holding a function of R values and the indices idx(0..P)"""
    def __init__(self, V, dynamic, inrange=None):
        setup(V)
        self.V = V; self.dyn = dynamic
        ex = V.ex
        u, f = V.fn("ErrorVector", "Model", None, self.pred)
        rec = targs_of(u, f)[1]
        fields = {}
        for c in rec["inner"]:
            if c.get("kind") == "FieldDecl":
                t = c["type"].get("desugaredQualType") or c["type"]["qualType"]
                fields[c["name"]] = Opaque("userfn") if "UserFn" in t else ex.sym(t, "model." + c["name"])
        vecs = [(k, v) for k, v in fields.items() if isinstance(v, VecV)]
        if len(vecs) != 1 or not any(isinstance(v, Opaque) and v.kind == "userfn" for v in fields.values()):
            raise Unsupported("fields of Residual::Model")
        self.n = vecs[0][1].len
        ex.assume(le(0, self.n))
        if dynamic:
            V.assumptions.append("user function: the Jacobian of a dynamic residual keeps its size, one column per index")
        nm = vecs[0][0]
        fields[nm] = VecV(self.n, lambda i: app("idx", (P(i),), "Int"), "int")
        self.sref = ex.new(Struct("Model", fields), "model")

    def distinct(self, ctx):
        """precondition: no index occurs twice"""
        a, b = fresh("l"), fresh("l")
        ctx.assume(forall([a, b], implies(conj(le(0, a), lt(a, self.n), le(0, b), lt(b, self.n), eq(self.idx(a), self.idx(b))), eq(a, b))))
        ctx.injective["idx"] = (ZERO, self.n)

    def pred(self, f):
        a, _ = targs_of(self.V.units[0], f)
        return a == [37, -1 if self.dyn else 41]

    idx = staticmethod(lambda i: app("idx", (P(i),), "Int"))

    def run(self, name, args, **k):
        return self.V.run(name, "Model", self.sref, args, contracts=self.contracts(), pred=self.pred, **k)

    def contracts(self):
        def call(ex, f, args, node):
            p = ex.load(args[0])
            ex.oblige(eq(p.rows, self.n), "the function receives one parameter per index", ("C02", "C22"), assume=False)
            i = fresh("i")
            ex.oblige(allk(0, self.n, lambda l: eq(p.at(l), app("x", (self.idx(l),)))), "the function receives the parameters its indices name, in order", ("C02",), assume=False)
            J = args[1]
            J = ex.load(J) if isinstance(J, Ref) else J
            if isinstance(J, PtrV) and J.ref is not None and ex.branch(J.nn):
                m = ex.load(J.ref)
                ex.oblige(conj(eq(m.rows, R_), eq(m.cols, self.n)), "the Jacobian has one column per index", ("C02", "C22"), assume=False)
                ex.store(J.ref, matof(R_, self.n, "J"))
            return vecof(R_, "r")
        return {("UserFn", "operator()"): call}


def point(V, n):
    V.ex.assume(le(0, n))
    return V.ex.new(vecof(n, "x"), "params")


for DYN in (False, True):
    W = "dynamic size" if DYN else "fixed size"

    def err(V, DYN=DYN):
        ex = V.ex
        M = Model(V, DYN)
        n, m = var("n", "Int"), var("m", "Int")
        x = point(V, n)
        ex.assume(le(0, m))
        whole = ex.new(vecof(m, "b"), "b")
        b = View(whole, m, num(1), lambda i, j: (i, j), lambda i, j: (conj(le(0, i), lt(i, m)), i, j))
        outs = M.run("ErrorVector", [x, b])
        bad = disj(ne(m, R_), neg(allk(0, M.n, lambda l: conj(le(0, M.idx(l)), lt(M.idx(l), n)))))
        V.throws_iff(outs, bad, "the output has the wrong size or an index lies outside the parameters", "C02 C22")
        for o in V.rets(outs):
            V.post(o, allk(0, R_, lambda q: eq(o.heap[whole.obj].at(q), app("r", (q,)))), "the output is the residual", "C02")
            V.frame(o, x, (), "parameters unchanged", props="C02")
            V.frame(o, M.sref, (), "residual object unchanged", props="C02")
    task("Residual::Model::ErrorVector (%s)" % W, "C02 C22", units=U)(err)

    def hess(V, DYN=DYN):
        ex = V.ex
        M = Model(V, DYN)
        n, N = var("n", "Int"), var("N", "Int")
        x = point(V, n)
        h = ex.sym("Eigen::Matrix<double, -1, -1>", "H"); b0 = ex.sym("Eigen::Matrix<double, -1, 1>", "b")
        ex.assume(le(0, h.rows), le(0, h.cols), le(0, b0.rows))
        N = h.rows
        H = ex.new(h, "H"); b = ex.new(b0, "b")
        idx = M.idx
        outs = M.run("UpdateHessian", [x, PtrV(H, bvar("H_given")), PtrV(b, bvar("b_given"))])
        bad = disj(neg(bvar("H_given")), neg(bvar("b_given")), ne(h.rows, h.cols), ne(b0.rows, h.rows),
                   neg(allk(0, M.n, lambda l: conj(le(0, idx(l)), lt(idx(l), n), lt(idx(l), N)))))
        V.throws_iff(outs, bad, "the system has the wrong size or an index lies outside the parameters or the system", "C02 C22")
        for o in V.rets(outs):
            M.distinct(o.ctx)
            h1, b1 = o.heap[H.obj], o.heap[b.obj]
            jj = lambda a, c: sumk(0, R_, lambda q: app("J", (q, a)) * app("J", (q, c)))
            rng = lambda k, hi: conj(le(0, k), lt(k, hi))
            a, c = fresh("a"), fresh("c")
            V.post(o, forall([a, c], implies(conj(rng(a, M.n), rng(c, M.n), le(idx(c), idx(a))), eq(h1.at(idx(a), idx(c)), h.at(idx(a), idx(c)) + jj(a, c)))),
                   "adds J^T J at the mapped indices of the lower triangle", "C02")
            V.post(o, allk(0, M.n, lambda l: eq(b1.at(idx(l)), b0.at(idx(l)) + sumk(0, R_, lambda q: app("J", (q, l)) * app("r", (q,))))), "adds J^T r at the mapped indices", "C02")
            miss = lambda r: allk(0, M.n, lambda l: ne(idx(l), r))
            for cond, what in ((lambda r, s: lt(r, s), "above the diagonal"), (lambda r, s: miss(r), "in rows of other variables"), (lambda r, s: miss(s), "in columns of other variables")):
                r, s = fresh("r"), fresh("s")
                V.post(o, forall([r, s], implies(conj(rng(r, N), rng(s, N), cond(r, s)), eq(h1.at(r, s), h.at(r, s)))), "changes nothing in the matrix " + what, "C02")
            r = fresh("r")
            V.post(o, forall([r], implies(conj(rng(r, N), miss(r)), eq(b1.at(r), b0.at(r)))), "changes nothing else in the vector", "C02")
            V.post(o, conj(eq(h1.rows, h.rows), eq(h1.cols, h.cols), eq(b1.rows, b0.rows)), "the system keeps its size", "C02 C22")
            V.post(o, eq(o.val, Fraction(1, 2) * sumk(0, R_, lambda q: app("r", (q,)) * app("r", (q,)))), "returns half the squared residual norm", "C02")
            V.frame(o, x, (), "parameters unchanged", props="C02")
            V.frame(o, M.sref, (), "residual object unchanged", props="C02")
    task("Residual::Model::UpdateHessian (%s)" % W, "C02 C22", units=U)(hess)

    def jac(V, DYN=DYN):
        ex = V.ex
        M = Model(V, DYN)
        n, br = var("n", "Int"), var("brows", "Int")
        x = point(V, n)
        g = ex.sym("Eigen::Matrix<double, -1, -1>", "A")
        bv = ex.sym("Eigen::Matrix<double, -1, 1>", "b")
        # the blocks are windows of larger matrices
        r0, c0, rr, cc = var("row0", "Int"), var("col0", "Int"), var("rows", "Int"), var("cols", "Int")
        s0, sr = var("seg0", "Int"), var("segrows", "Int")
        ex.assume(le(0, r0), le(0, c0), le(0, rr), le(0, cc), le(r0 + rr, g.rows), le(c0 + cc, g.cols), le(0, s0), le(0, sr), le(s0 + sr, bv.rows))
        A = ex.new(g, "A"); b = ex.new(bv, "b")
        Jv = View(A, rr, cc, lambda i, j: (i + r0, j + c0), lambda i, j: (conj(le(r0, i), lt(i, r0 + rr), le(c0, j), lt(j, c0 + cc)), i - r0, j - c0))
        Bv = View(b, sr, num(1), lambda i, j: (i + s0, j), lambda i, j: (conj(le(s0, i), lt(i, s0 + sr)), i - s0, j))
        idx = M.idx
        M.distinct(ex.ctx)
        outs = M.run("UpdateJacobian", [x, Jv, Bv])
        bad = disj(ne(sr, R_), ne(rr, R_), neg(allk(0, M.n, lambda l: conj(le(0, idx(l)), lt(idx(l), n), lt(idx(l), cc)))))
        V.throws_iff(outs, bad, "an output has the wrong size or an index lies outside the parameters or the system", "C02 C22")
        rng = lambda k, lo, hi: conj(le(lo, k), lt(k, hi))
        for o in V.rets(outs):
            a1, b1 = o.heap[A.obj], o.heap[b.obj]
            q, l = fresh("q"), fresh("l")
            V.post(o, forall([q, l], implies(conj(rng(q, 0, R_), rng(l, 0, M.n)), eq(a1.at(r0 + q, c0 + idx(l)), app("J", (q, l))))), "each local column stands at its mapped column", "C02")
            V.post(o, allk(0, R_, lambda q: eq(b1.at(s0 + q), app("r", (q,)))), "the output vector is the residual", "C02")
            for cond, what in ((lambda i, j: disj(lt(i, r0), le(r0 + rr, i)), "outside the rows of the block"), (lambda i, j: allk(0, M.n, lambda l: ne(idx(l) + c0, j)), "in columns of other variables")):
                i, j = fresh("i"), fresh("j")
                V.post(o, forall([i, j], implies(conj(rng(i, 0, g.rows), rng(j, 0, g.cols), cond(i, j)), eq(a1.at(i, j), g.at(i, j)))), "changes nothing in the matrix " + what, "C02")
            i = fresh("i")
            V.post(o, forall([i], implies(conj(rng(i, 0, bv.rows), disj(lt(i, s0), le(s0 + sr, i))), eq(b1.at(i), bv.at(i)))), "changes nothing else in the vector", "C02")
            V.post(o, conj(eq(a1.rows, g.rows), eq(a1.cols, g.cols), eq(b1.rows, bv.rows)), "the outputs keep their size", "C02 C22")
            V.frame(o, x, (), "parameters unchanged", props="C02")
            V.frame(o, M.sref, (), "residual object unchanged", props="C02")
    task("Residual::Model::UpdateJacobian (%s)" % W, "C02 C22", units=U)(jac)

    def dimension(V, DYN=DYN):
        M = Model(V, DYN)
        outs = M.run("Dimension", [])
        V.nothrow(outs, props="C02")
        for o in V.rets(outs):
            V.post(o, eq(o.val, R_), "the dimension is the number of values of the function", "C02")
    task("Residual::Model::Dimension (%s)" % W, "C02 C22", units=U)(dimension)


class Forward:
    """a Residual whose type-erased implementation is known by its contract only"""
    def __init__(self, V):
        setup(V)
        self.V = V
        ex = V.ex
        self.calls = []
        self.impl = ex.new(Opaque("impl"), "impl")
        self.sref = ex.new(Struct("Residual", {"impl_": PtrV(self.impl, bvar("impl_given"))}), "residual")
        self.val = app("impl_result", (), "Real")

    def contracts(self):
        def con(name):
            def f(ex, this, args, node):
                ex.trace.append((name, tuple(args)))
                if name == "Dimension":
                    return var("impl_dim", "Int")
                return self.val if name == "UpdateHessian" else None
            return f
        return {("Concept", k): con(k) for k in ("Dimension", "ErrorVector", "UpdateHessian", "UpdateJacobian")}


def same_arg(a, b):
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        return a.ref == b.ref and a.nn is b.nn
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.obj == b.obj and a.path == b.path
    return a is b


for NAME, NARGS in (("Dimension", 0), ("ErrorVector", 2), ("UpdateHessian", 3), ("UpdateJacobian", 3)):
    def fwd(V, NAME=NAME, NARGS=NARGS):
        F = Forward(V)
        ex = V.ex
        x = ex.new(vecof(var("n", "Int"), "x"), "params")
        H = ex.new(matof(var("N", "Int"), var("N", "Int"), "H"), "H"); b = ex.new(vecof(var("m", "Int"), "b"), "b")
        m, c = var("m", "Int"), var("cols", "Int")
        Bv = View(b, m, num(1), lambda i, j: (i, j), lambda i, j: (conj(le(0, i), lt(i, m)), i, j))
        Jv = View(H, m, c, lambda i, j: (i, j), lambda i, j: (conj(le(0, i), lt(i, m), le(0, j), lt(j, c)), i, j))
        args = {0: [], 2: [x, Bv], 3: [x, PtrV(H, bvar("H_given")), PtrV(b, bvar("b_given"))] if NAME == "UpdateHessian" else [x, Jv, Bv]}[NARGS]
        outs = V.run(NAME, "Residual", F.sref, args, contracts=F.contracts())
        V.throws_iff(outs, neg(bvar("impl_given")), "there is no function", "C02")
        for o in V.rets(outs):
            ok = len(o.trace) == 1 and o.trace[0][0] == NAME and all(same_arg(V.ex.load(p) if isinstance(p, Ref) and isinstance(V.ex.heap.get(p.obj), (View, PtrV)) else p, q) for p, q in zip(o.trace[0][1], args))
            V.post(o, TRUE if ok else FALSE, "the query is answered by the function it holds, with the same arguments", "C02")
            if NAME == "Dimension":
                V.post(o, eq(o.val, var("impl_dim", "Int")), "same dimension", "C02")
            if NAME == "UpdateHessian":
                V.post(o, eq(o.val, F.val), "same half squared norm", "C02")
    task("Residual::%s" % NAME, "C02 C22", units=U)(fwd)


@task("Residual::QuadraticError", "C02 C22", units=("residual_cc",))
def quadratic(V):
    setup(V)
    ex = V.ex
    sref = ex.new(Struct("Residual", {"impl_": PtrV(ex.new(Opaque("impl"), "impl"), TRUE)}), "residual")
    n = var("n", "Int")
    ex.assume(le(0, n))
    x = ex.new(vecof(n, "x"), "params")

    def errvec(ex, this, args, node):
        v = ex.load(args[1])
        v = ex.load(v) if isinstance(v, View) else v
        ex.oblige(eq(v.rows, R_), "the error output has the dimension of the residual", ("C02", "C22"), assume=False)
        b = args[1]
        if isinstance(b, Ref) and isinstance(ex.heap.get(b.obj), View):
            b = ex.heap[b.obj]
        if not same_arg(args[0], x):
            raise Unsupported("residual evaluated at another point")
        ex.store(b, vecof(R_, "r"))
    outs = V.run("QuadraticError", "Residual", sref, [x], contracts={("Residual", "Dimension"): lambda ex, this, args, node: R_, ("Residual", "ErrorVector"): errvec})
    V.nothrow(outs, props="C02")
    for o in V.rets(outs):
        V.post(o, eq(o.val, Fraction(1, 2) * sumk(0, R_, lambda q: app("r", (q,)) * app("r", (q,)))), "half the squared residual norm", "C02")
        V.frame(o, x, (), "parameters unchanged", props="C02")


for NAME, LIST in (("vc_fixed", False), ("vc_dynamic", False), ("vc_list", True), ("vc_list_dynamic", True)):
    def make(V, NAME=NAME, LIST=LIST):
        setup(V)
        ex = V.ex
        n = var("len", "Int") if NAME != "vc_fixed" else P_
        ex.assume(le(0, n))
        idx = ex.new(VecV(n, lambda i: app("idx", (P(i),), "Int"), "int"), "index")
        outs = V.run(NAME, None, None, [idx])
        if NAME == "vc_list":
            V.throws_iff(outs, ne(n, P_), "the list does not have one index per parameter", "C02 C22")
        else:
            V.nothrow(outs, props="C02")
        for o in V.rets(outs):
            p = o.val.f["impl_"]
            m = o.heap[p.ref.obj]
            vec = [v for v in m.f.values() if isinstance(v, VecV)]
            if len(vec) != 1:
                raise Unsupported("fields of Residual::Model")
            V.post(o, p.nn, "the residual holds a function", "C02")
            V.post(o, eq(vec[0].len, n), "the residual keeps every index", "C02")
            V.post(o, allk(0, n, lambda l: eq(vec[0].fn(l), app("idx", (l,), "Int"))), "the residual keeps the indices in order", "C02")
    task("MakeResidual (%s)" % {"vc_fixed": "array", "vc_dynamic": "vector", "vc_list": "list, fixed size", "vc_list_dynamic": "list, dynamic size"}[NAME], "C02 C22", units=U)(make)
