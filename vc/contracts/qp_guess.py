"""Contract of ComputeInitialGuess."""
from spec import *
import loops as L
from contracts.qp import *

EPS = num(Fraction("1e-9"))


class GuessContracts(QPContracts):
    """the equality-constrained start: the contracts proved for ComputeLDLT(false), EvaluateKKTConditions(false)
    and SolveForUpdateNoInequalities, used at their calls"""

    def evaluate_kkt(self, ex, this, args, node):
        S = self.S
        inc = ex.load(args[0]) if args else TRUE
        if inc is not FALSE:
            raise Unsupported("residuals with bounds while building the initial guess")
        s = self.st(ex)
        v, old = s.f["variables_"], s.f["r_"]
        N, M, K = S.N, S.M, S.K
        self.setf(ex, r_=Mat(S.n, 1, lambda i, j: ite(lt(i, N), S.r_d(i, x=lambda j: v.at(j), y=lambda q: v.at(N + M + q), ineq=False),
                                                       ite(conj(le(N + M, i), lt(i, N + M + K)), S.r_pe(i - (N + M), x=lambda j: v.at(j)), old.fn(i, j)))))
        return None

    def solve_noineq(self, ex, this, args, node):
        S = self.S
        s = self.st(ex)
        N, M, K = S.N, S.M, S.K
        i, j = fresh("i"), fresh("j")
        n = N + K
        ex.oblige(forall([i, j], implies(conj(le(0, i), lt(i, n), le(0, j), lt(j, n)), eq(s.f["H_inv_"].at(i, j), app("HINVe", (i, j))))),
                  "equality-constrained start: the factorization without bounds is used", ("C07",), assume=False)
        r, old = s.f["r_"], s.f["delta_"]
        d = lambda i: app("DIRe", (i,))
        self.setf(ex, delta_=Mat(S.n, 1, lambda i, j: ite(disj(lt(i, N), conj(le(N + M, i), lt(i, N + M + K))), d(i), old.fn(i, j))))
        i, q = fresh("i"), fresh("q")
        ex.assume(forall([i], implies(conj(le(0, i), lt(i, N)), eq(sumk(0, N, lambda j: S.Gs(i, j) * d(j)) - sumk(0, K, lambda q: S.A(q, i) * d(N + M + q)), -r.at(i)))))
        ex.assume(forall([q], implies(conj(le(0, q), lt(q, K)), eq(sumk(0, N, lambda j: S.A(q, j) * d(j)), -r.at(N + M + q)))))
        ex.trace.append(("noineq",))
        return None

    def table(self):
        t = QPContracts.table(self)
        t[(IPM, "SolveForUpdateNoInequalities")] = self.solve_noineq
        return t


class ClampLoop(L.LoopSpec):
    """x is moved into the bounds one after the other"""
    props = ("C07", "C08")
    fallback = True

    def __init__(self, V, S, w):
        self.V = V; self.S = S; self.w = w

    def start(self, ex, info):
        S = self.S
        if [(x.obj, tuple(x.path)) for x in info.W if x.obj == S.sref.obj] != [(S.sref.obj, (("f", "variables_"),))]:
            raise L.Decline()
        self.pre = info.heap0[S.sref.obj].f["variables_"]
        pre = self.pre
        if any(t[0] == "noineq" for t in ex.trace):
            i, q = fresh("i"), fresh("q")
            x = lambda j: pre.at(j)
            y = lambda q: pre.at(S.N + S.M + q)
            ex.oblige(forall([i], implies(conj(le(0, i), lt(i, S.N)), eq(S.r_d(i, x=x, y=y, ineq=False), 0))),
                      "equality-constrained start: stationary for the QP without bounds", ("C07",), assume=False)
            ex.oblige(forall([q], implies(conj(le(0, q), lt(q, S.K)), eq(S.r_pe(q, x=x), 0))),
                      "equality-constrained start: satisfies the equality constraints", ("C07",), assume=False)
        else:
            i = fresh("i")
            ex.oblige(forall([i], implies(conj(le(0, i), lt(i, S.N)), eq(pre.at(i), 0))), "zero guess: x starts at zero", ("C07",), assume=False)
        self.V.clamped = True

    def invariants(self, ex, k, info):
        S = self.S
        x = ex.heap[S.sref.obj].f["variables_"]
        pre, w = self.pre, self.w
        i = fresh("i"); l = fresh("l"); l2 = fresh("l"); i2 = fresh("i"); i3 = fresh("i")
        return [
            ("length", eq(x.rows, S.n)),
            ("other blocks untouched", forall([i], implies(conj(le(S.N, i), lt(i, S.n)), eq(x.at(i), pre.at(i))))),
            ("no bound is zero so far", forall([l2], implies(conj(le(0, l2), lt(l2, k)), ne(S.a(l2), 0)))),
            ("bounds handled so far hold if satisfiable", implies(self.V.feasible, forall([l], implies(conj(le(0, l), lt(l, k)), le(0, S.a(l) * x.at(S.idx(l)) + S.b(l)))))),
            ("an unbounded or feasible component stays", forall([i2], implies(conj(le(0, i2), lt(i2, S.N), allk(0, k, lambda l: implies(eq(S.idx(l), i2), le(0, S.a(l) * pre.at(i2) + S.b(l))), "l")), eq(x.at(i2), pre.at(i2))))),
            ("a moved component lies on one of its bounds", forall([i3], implies(conj(le(0, i3), lt(i3, S.N)), disj(eq(x.at(i3), pre.at(i3)), self.on_bound(x, i3, k))))),
        ]

    def on_bound(self, x, i, k):
        S = self.S
        l = fresh("l")
        return exists([l], conj(le(0, l), lt(l, k), eq(S.idx(l), i), eq(S.a(l) * x.at(i) + S.b(l), 0)))

    def step(self, ex, pre_heap, k, info):
        # lemma (convexity): a bound that holds at p and at w holds between them
        S = self.S
        x0 = pre_heap[S.sref.obj].f["variables_"]
        x1 = ex.heap[S.sref.obj].f["variables_"]
        i = S.idx(k)
        p, r, w = x0.at(i), x1.at(i), self.w(i)
        ex.oblige(implies(self.V.feasible, disj(conj(le(p, r), le(r, w)), conj(le(r, p), le(w, r)), eq(r, p))),
                  "a clamped component stays between its old value and any feasible value", ("C07",))
        ex.oblige(disj(eq(r, p), eq(S.a(k) * r + S.b(k), 0)), "a clamped component stays or lands on the bound", ("C08",))
        l = fresh("l")
        ex.ctx.assume(forall([l], implies(conj(disj(conj(le(p, r), le(r, w)), conj(le(r, p), le(w, r))), le(0, S.a(l) * p + S.b(l)), le(0, S.a(l) * w + S.b(l))),
                                          le(0, S.a(l) * r + S.b(l)))))


@lemma("bound lemma: a bound that holds at two points holds between them", "C07 C08")
def convex_lemma(V):
    a, b, p, r, w = (var(x) for x in "abprw")
    c = Ctx([le(0, a * p + b), le(0, a * w + b)])
    V.pre = c
    for lab, g in (("increasing", conj(le(p, r), le(r, w))), ("decreasing", conj(le(w, r), le(r, p)))):
        V.post(c.extend([g]), implies(le(0, a), le(0, a * r + b)), lab + ", a >= 0")
        V.post(c.extend([g]), implies(le(a, 0), le(0, a * r + b)), lab + ", a <= 0")


def guess_params(V, method):
    ex = V.ex
    p = ex.sym("mini_opt::QPInteriorPointSolver::Params", "params")
    return p.with_("initial_guess_method", method)


@task("ComputeInitialGuess", "C06 C07 C08 C18 C22")
def initial_guess(V):
    ex = V.ex
    S = QPState(V, vname="stale_v")
    N, M, K = S.N, S.M, S.K
    method = var("method", "Int")
    E = ex.enums["InitialGuessMethod"]
    ex.assume(disj(*[eq(method, E[n]) for n in E]))
    pr = ex.new(guess_params(V, method), "params")
    V.feasible = bvar("jointly_satisfiable")
    w = lambda i: app("witness", (i,))
    l = fresh("l")
    ex.assume(implies(V.feasible, forall([l], implies(conj(le(0, l), lt(l, M)), le(0, S.a(l) * w(S.idx(l)) + S.b(l))))))
    V.clamped = False
    C = GuessContracts(S)
    outs = V.run("ComputeInitialGuess", IPM, S.sref, [pr], contracts=C.table(), loops=[lambda ex, node: ClampLoop(V, S, w)])
    user = eq(method, E["USER_PROVIDED"])
    for o in outs:
        if o.kind == "throw":
            l = fresh("l")
            if "FailedFactorization" in o.val.what:
                V.post(o, eq(method, E["SOLVE_EQUALITY_CONSTRAINED"]), "factorizes only for the equality-constrained guess", "C07")
            else:
                V.post(o, conj(neg(user), exists([l], conj(le(0, l), lt(l, M), eq(S.a(l), 0)))), "raises only for a bound with a zero coefficient [%s]" % o.val.what, "C07")
    for o in V.rets(outs):
        s = o.heap[S.sref.obj].f
        v = s["variables_"]
        if o.ctx.decide(user):
            V.frame(o, S.sref, (), "user-provided guess: untouched:", props="C07")
            continue
        V.post(o, neg(user), "the user-provided guess is left alone", "C07")
        V.post(o, eq(v.rows, S.n), "length kept", "C07 C22")
        x = lambda i: S.blk(v, "x", i)
        sl = lambda l: S.blk(v, "s", l)
        z = lambda l: S.blk(v, "z", l)
        l = fresh("l"); l2 = fresh("l"); l3 = fresh("l"); l4 = fresh("l"); l5 = fresh("l"); q = fresh("q")
        rng = lambda l: conj(le(0, l), lt(l, M))
        V.post(o, forall([l], implies(conj(rng(l), V.feasible), le(0, S.a(l) * x(S.idx(l)) + S.b(l)))), "every bound holds whenever the bounds are jointly satisfiable", "C07 C08")
        V.post(o, forall([l2], implies(rng(l2), eq(sl(l2), tmax(S.a(l2) * x(S.idx(l2)) + S.b(l2), EPS)))), "slack is max(1e-9, a x + b)", "C07")
        V.post(o, forall([l3], implies(rng(l3), eq(z(l3) * sl(l3), 1))), "bound multiplier is the reciprocal of the slack", "C07")
        V.post(o, forall([l4], implies(rng(l4), conj(lt(0, sl(l4)), lt(0, z(l4))))), "slacks and bound multipliers start strictly positive", "C06 C07")
        gap = S.a(l5) * x(S.idx(l5)) + S.b(l5) - sl(l5)
        V.post(o, forall([l5], implies(conj(rng(l5), V.feasible), conj(le(-EPS, gap), le(gap, 0)))), "the gap a x + b - s starts in [-1e-9, 0] when the bounds are satisfiable", "C08")
        eqc = any(t[0] == "noineq" for t in o.trace)
        if eqc:
            V.post(o, eq(method, E["SOLVE_EQUALITY_CONSTRAINED"]), "the equality-constrained QP is solved only for that guess", "C07")
            V.post(o, forall([q], implies(conj(le(0, q), lt(q, K)), eq(S.blk(v, "y", q), app("DIRe", (N + M + q,))))), "equality multipliers of the equality-constrained QP", "C07")
        else:
            V.post(o, eq(method, E["NAIVE"]), "zero guess only when asked for", "C07")
            V.post(o, forall([q], implies(conj(le(0, q), lt(q, K)), eq(S.blk(v, "y", q), 0))), "equality multipliers start at zero", "C07")
        # where x ends up: unchanged when feasible, otherwise on one of its bounds
        st = (lambda i: app("DIRe", (i,))) if eqc else (lambda i: ZERO)
        i = fresh("i"); i2 = fresh("i")
        V.post(o, forall([i], implies(conj(le(0, i), lt(i, N), allk(0, M, lambda l: implies(eq(S.idx(l), i), le(0, S.a(l) * st(i) + S.b(l))), "l")), eq(x(i), st(i)))), "a component that satisfies its bounds is left at the guess", "C07")
        V.post(o, forall([i2], implies(conj(le(0, i2), lt(i2, N)), disj(eq(x(i2), st(i2)), exists([l], conj(rng(l), eq(S.idx(l), i2), eq(S.a(l) * x(i2) + S.b(l), 0)))))), "a component that was moved lies on one of its bounds", "C07")
        V.frame(o, S.pref, (), "problem unchanged", props="C07")
        V.frame(o, S.sref, ("variables_", "r_", "delta_", "delta_affine_", "H_", "H_inv_"), props="C07")
        stale_free(V, o, [("initial guess block " + n, S, v, n) for n in "xsyz"])
