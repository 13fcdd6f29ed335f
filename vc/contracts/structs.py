"""Contracts for source/structs.cc (C19): counters of the solver log, printed enumeration names."""
import json
from terms import *
from values import *
from spec import task, allk, sumk
import exec as X

U = ("structs",)
PRINTED = ("InitialGuessMethod", "QPInteriorPointTerminationState", "QPNullSpaceTerminationState", "LineSearchStrategy",
           "OptimizerState", "StepSizeSelectionResult", "NLSTerminationState")


def unquote(v):
    """contents of a string literal as clang prints it"""
    return json.loads(v) if v.startswith('"') else v


def literal(x):
    if isinstance(x, Opaque) and x.kind == "str" and "v" in x.d:
        return unquote(x.d["v"])
    return None


for ENUM in PRINTED:
    def show_enum(V, ENUM=ENUM):
        ex = V.ex
        vals = ex.enums[ENUM]
        s = ex.new(Opaque("stream", items=[]), "stream")
        st = var("value", "Int")
        ex.assume(disj(*[eq(st, v) for v in vals.values()]))
        outs = V.run("operator<<", None, None, [s, st], pred=lambda f: ENUM in f["type"]["qualType"])
        V.nothrow(outs, props="C19")
        for o in V.rets(outs):
            texts = [literal(i) for i in o.heap[s.obj].d["items"]]
            text = "".join(texts) if None not in texts else None
            for name, v in vals.items():
                V.post(o, implies(eq(st, v), TRUE if text == name else FALSE), "%s prints its declared name" % name, "C19")
            V.post(o, TRUE if isinstance(o.val, Ref) and o.val.obj == s.obj else FALSE, "the same stream is returned", "C19")
    task("operator<<(%s)" % ENUM, "C19", units=U)(show_enum)


@task("TerminationStateIndicatesSatisfiedTol", "C19", units=U)
def satisfied(V):
    ex = V.ex
    E = ex.enums["NLSTerminationState"]
    st = var("state", "Int")
    ex.assume(disj(*[eq(st, v) for v in E.values()]))
    outs = V.run("TerminationStateIndicatesSatisfiedTol", None, None, [st])
    V.nothrow(outs, props="C19")
    good = disj(*[eq(st, E[k]) for k in ("SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL")])
    for o in V.rets(outs):
        r = o.val if isinstance(o.val, B) else ne(o.val, 0)
        V.post(o, iff(r, good), "satisfied exactly for the absolute, relative and first-order tolerance states", "C19")


def counter(name, what, count):
    @task("NLSSolverOutputs::" + name, "C19 C22", units=U)
    def f(V):
        ex = V.ex
        out = ex.new(ex.sym("mini_opt::NLSSolverOutputs", "outputs"), "outputs")
        its = ex.heap[out.obj].f["iterations"]
        E = ex.enums["StepSizeSelectionResult"]
        ex.assume(le(0, its.len))
        k = fresh("k")
        it = its.fn(k)
        q = it.f["qp_outputs"]
        ex.assume(allk(0, its.len, lambda i: conj(*[disj(eq(its.fn(i).f["qp_outputs"].tag, 0), eq(its.fn(i).f["qp_outputs"].tag, 1)),
                                                   le(0, its.fn(i).f["line_search_steps"].len), le(0, its.fn(i).f["qp_outputs"].alts[1].f["iterations"].len)])))
        outs = V.run(name, "NLSSolverOutputs", out, [])
        V.nothrow(outs, props="C19")
        for o in V.rets(outs):
            V.post(o, eq(o.val, sumk(0, its.len, lambda i: count(its.fn(i), E))), what, "C19")
            V.frame(o, out, (), "the log is unchanged", props="C19")
    return f


def qp_count(it, E):
    q = it.f["qp_outputs"]
    ip = [i for i, t in enumerate(q.types) if "QPInteriorPointSolverOutputs" in str(t)][0]
    return ite(eq(q.tag, ip), q.alts[ip].f["iterations"].len, num(1))


counter("NumQPIterations", "counts every interior-point iteration and one per null-space solve", qp_count)
counter("NumLineSearchSteps", "counts every logged step", lambda it, E: it.f["line_search_steps"].len)
counter("NumFailedLineSearches", "counts the iterations that neither succeeded nor were first-order satisfied",
        lambda it, E: bracket(conj(ne(it.f["step_result"], E["SUCCESS"]), ne(it.f["step_result"], E["FIRST_ORDER_SATISFIED"]))))
