"""Contract tasks: every task puts one function (or a lemma over contracts) of /repo under contract."""
import os, sys, time
import terms as T
from terms import *
from values import *
import front, prover
import exec as X
from exec import Exec, Outcome, Obligation
from prover import Ctx

TASKS = []


class Task:
    def __init__(self, name, props, units, fn, lemma=False):
        self.name = name; self.props = tuple(props); self.units = tuple(units); self.fn = fn; self.lemma = lemma


def task(name, props, units=("qp",)):
    def deco(fn):
        TASKS.append(Task(name, props.split() if isinstance(props, str) else props, units, fn))
        return fn
    return deco


def lemma(name, props):
    """a consequence of contracts, not tied to a function body"""
    def deco(fn):
        TASKS.append(Task(name, props.split() if isinstance(props, str) else props, (), fn, lemma=True))
        return fn
    return deco


def loop_left_at(trace, events=()):
    """[k] when the loop was left before iteration k did anything: by its condition, or from inside the
    body without one of the events (any event, when none are named); [] otherwise"""
    out = [x[1] for x in trace if x[0] == "exit"]
    at = [i for i, x in enumerate(trace) if x[0] == "iter"]
    if not out and at and not any(not events or x[0] in events for x in trace[at[-1] + 1:]):
        out = [trace[at[-1]][1]]
    return out


class V:
    def __init__(self, task):
        self.task = task
        self.units = [front.unit(u) for u in task.units]
        self.ex = Exec(self.units)
        self.funcs = []          # functions under contract
        self.assumptions = []
        self.normal = []         # contexts of normal outcomes (vacuity)
        self.pre = None

    # -- lookup and running
    def fn(self, name, cls=None, nparams=None, pred=None):
        for u in self.units:
            c = [f for f in u.find(name, cls) if nparams is None or len(u.params(f)) == nparams]
            if pred:
                c = [f for f in c if pred(f)]
            if c:
                return u, c[0]
        raise Unsupported("function %s::%s not found" % (cls or "", name))

    def run(self, name, cls, this, args, nparams=None, contracts=None, loops=None, pred=None):
        u, f = self.fn(name, cls, nparams if nparams is not None else len(args), pred)
        ex = self.ex
        at = f.get("_at", ("?", 0))
        self.funcs.append("%s%s (%s:%s)" % (cls + "::" if cls else "", name, os.path.basename(str(at[0])), at[1]))
        if contracts is not None:
            ex.contracts = contracts
        ex.loop_specs = list(loops or [])
        self.pre_heap = dict(ex.heap)
        self.pre = ex.ctx.copy()
        outs = ex.explore(lambda: ex.call_fn(u, f, this, args))
        self.normal += [o.ctx for o in outs if o.kind in ("normal", "return")]
        return outs

    def post(self, o, goal, label, props=None):
        ctx = o.ctx if isinstance(o, Outcome) else o
        self.ex.obls.append(Obligation("%s: %s" % (self.task.name, label), tuple(props.split() if isinstance(props, str) else props or self.task.props),
                                       goal, ctx.copy(), self.task.name))

    def squares_nonneg(self, o, lo, hi, f):
        """lemma: a finite sum of squares is not negative (instance for f)"""
        c = o.ctx if isinstance(o, Outcome) else o
        c.assume(le(0, sumk(lo, hi, lambda k: f(k) * f(k))))

    def sum_nonneg(self, o, lo, hi, f, label, props=None):
        """lemma: sum of terms proved nonnegative is nonnegative"""
        c = o.ctx if isinstance(o, Outcome) else o
        self.post(c, allk(lo, hi, lambda k: le(0, f(k)), "k"), label, props)
        c.assume(le(0, sumk(lo, hi, f)))

    def nothrow(self, outs, label="does not raise", props=None):
        for o in outs:
            if o.kind == "throw":
                self.post(o, FALSE, "%s (%s)" % (label, o.val.what), props)

    def throws_iff(self, outs, cond, label, props=None):
        n = 0
        for o in outs:
            if o.kind == "throw":
                self.post(o, cond, "raises only if " + label + " [%s]" % o.val.what, props)
            elif o.kind in ("normal", "return"):
                self.post(o, neg(cond), "raises whenever " + label, props)

    def rets(self, outs):
        return [o for o in outs if o.kind in ("normal", "return")]

    def same(self, o, a, b, label, props=None, skip=()):
        """value a equals value b (all leaves)"""
        for path, q in value_eq(a, b):
            if any(path.startswith(s) for s in skip):
                continue
            self.post(o, q, "%s%s" % (label, (" " + path) if path else ""), props)

    def frame(self, o, ref, changed, label=None, props=None, pre=None):
        """fields of the object at ref outside `changed` keep their value"""
        a = o.heap[ref.obj]
        b = (pre or self.pre_heap)[ref.obj]
        for p in ref.path:
            a = self.ex.walk(a, [p]); b = self.ex.walk(b, [p])
        if not isinstance(a, Struct):
            self.same(o, a, b, label or "unchanged", props)
            return
        for k in b.f:
            if k in changed:
                continue
            x, y = a.f[k], b.f[k]
            if x is y:
                continue
            self.same(o, x, y, "%s %s" % (label or "leaves unchanged", k), props)


def rows(v):
    return v.rows


def vecof(n, name, *pre):
    return Mat(n, 1, lambda i, j: app(name, pre + (i,)))


def matof(r, c, name, *pre):
    return Mat(r, c, lambda i, j: app(name, pre + (i, j)))


def allk(lo, hi, f, base="i"):
    """forall k in [lo,hi): f(k)"""
    k = fresh(base)
    return forall([k], implies(conj(le(lo, k), lt(k, hi)), f(k)))


def sumk(lo, hi, f):
    k = fresh("k")
    return mk_sum(k, lo, hi, f(k))
