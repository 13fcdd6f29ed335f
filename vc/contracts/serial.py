"""Contracts for source/serialization.cc (C20): from_json(text(to_json(x))) = x for every type of the solver log."""
from terms import *
from values import *
from spec import task, allk
import exec as X
import jsonlib
from jsonlib import J, NULL, repo_fn, norm, text, get, expand

U = ("serialization", "serialization_adl", "structs")
MO = "mini_opt::"
ENUMS = ("OptimizerState", "StepSizeSelectionResult", "NLSTerminationState", "QPInteriorPointTerminationState", "QPNullSpaceTerminationState")


def double_facts(ex, xs):
    """what a double is: finite, NaN or one of the infinities"""
    inf, nan = app("Inf", ()), app("NaN", ())
    ex.assume(lt(0, inf), bapp("isinf", (inf,)), bapp("isinf", (-inf,)), neg(bapp("isfinite", (inf,))), neg(bapp("isfinite", (-inf,))),
              bapp("isnan", (nan,)), neg(bapp("isinf", (nan,))), neg(bapp("isfinite", (nan,))), neg(bapp("isnan", (inf,))), neg(bapp("isnan", (-inf,))))
    for x in xs:
        ex.assume(iff(bapp("isinf", (x,)), disj(eq(x, inf), eq(x, -inf))), iff(bapp("isnan", (x,)), eq(x, nan)),
                  iff(bapp("isfinite", (x,)), neg(disj(bapp("isinf", (x,)), bapp("isnan", (x,))))))


def leaves(v):
    """double leaves of a value"""
    if isinstance(v, Struct):
        return [y for x in v.f.values() for y in leaves(x)]
    if isinstance(v, Poly) and not is_int(v):
        return [v]
    return []


def is_double(node, i):
    xs = node["inner"][1:]
    return i < len(xs) and norm(xs[i]["type"]["qualType"]) == "double"


FIELD = "double field"


def field_to(ex, this, args, node):
    if node is None or not is_double(node, 1):
        return NotImplemented
    ex.store(args[0], J("enc", T=FIELD, v=ex.load(args[1])))
    return None


def field_from(ex, this, args, node):
    v = ex.load(args[0])
    if isinstance(v, Opaque) and v.d["k"] == "enc" and v.d["T"] == FIELD and v.d["text"] and node is not None and is_double(node, 1):
        ex.store(args[1], v.d["v"])
        return None
    return NotImplemented


FIELDS = {(None, "FieldToJson", 2): field_to, (None, "FieldFromJson", 2): field_from}


def enc_enum(ex, T, v):
    return J("enc", T=T, v=v)


def roundtrip(V, T, value, fields=True, props="C20"):
    ex = V.ex
    jsonlib.check_pair(ex, T)
    ex.contracts = dict(jsonlib.CONTRACTS)
    if fields:
        ex.contracts.update(FIELDS)
    V.pre_heap = dict(ex.heap)
    V.pre = ex.ctx.copy()

    def thunk():
        u, f = repo_fn(ex, "to_json", T)
        r = ex.new(NULL, "json")
        ex.call_fn(u, f, None, [r, ex.new(value, "value")])
        w = text(ex.load(r))
        u, f = repo_fn(ex, "from_json", T)
        src = ex.new(w, "parsed")
        if len(u.params(f)) == 1:
            return ex.load(ex.call_fn(u, f, None, [src]))
        dst = ex.new(ex.default(T), "target")
        ex.call_fn(u, f, None, [src, dst])
        return ex.load(dst)
    outs = ex.explore(thunk)
    V.normal += [o.ctx for o in outs if o.kind in ("normal", "return")]
    for d in ("to_json", "from_json"):
        u, f = repo_fn(ex, d, T)
        V.funcs.append("%s(%s) (%s:%s)" % (d, norm(T), str(f["_at"][0]).split("/")[-1], f["_at"][1]))
    V.nothrow(outs, props=props)
    for o in V.rets(outs):
        V.same(o, o.val, value, "read back equal", props)
    return outs


# ---------------------------------------------------------------- enumerations
for E in ENUMS:
    def enum(V, E=E):
        ex = V.ex
        vals = ex.enums[E]
        ex.contracts = dict(jsonlib.CONTRACTS)
        names = {}
        V.pre = ex.ctx.copy()
        for name, v in vals.items():
            def thunk(v=v):
                u, f = repo_fn(ex, "to_json", MO + E)
                r = ex.new(NULL, "json")
                ex.call_fn(u, f, None, [r, ex.new(num(v), "value")])
                w = ex.load(r)
                u, f = repo_fn(ex, "from_json", MO + E)
                dst = ex.new(ex.default(MO + E), "target")
                ex.call_fn(u, f, None, [ex.new(text(w), "parsed"), dst])
                return Struct("pair", {"json": w, "value": ex.load(dst)})
            outs = ex.explore(thunk)
            V.normal += [o.ctx for o in outs if o.kind in ("normal", "return")]
            V.nothrow(outs, props="C20")
            for o in V.rets(outs):
                w = o.val.f["json"]
                isname = isinstance(w, Opaque) and w.d["k"] == "str"
                V.post(o, TRUE if isname else FALSE, "%s is stored as a name" % name, "C20")
                key = w.d["v"] if isname else None
                V.post(o, TRUE if names.setdefault(key, name) == name else FALSE, "the JSON name of %s belongs to no other enumerator" % name, "C20")
                V.post(o, eq(o.val.f["value"], v), "%s is read back from its name" % name, "C20")
        for d in ("to_json", "from_json"):
            u, f = repo_fn(ex, d, MO + E)
            V.funcs.append("%s(%s) (%s:%s)" % (d, E, str(f["_at"][0]).split("/")[-1], f["_at"][1]))
    task("JSON of " + E, "C20", units=U)(enum)


# ---------------------------------------------------------------- plain structs, optionals, the variant, the log
def enum_range(ex, v, t):
    """stored enumerations hold one of their enumerators"""
    out = []
    if isinstance(v, Struct):
        u, r = ex.record(v.type)
        for f in ex.fields(r):
            k = X.tname(f["type"]["qualType"])[0]
            if k in ex.enums:
                out.append(disj(*[eq(v.f[f["name"]], c) for c in ex.enums[k].values()]))
            else:
                out += enum_range(ex, v.f[f["name"]], f["type"]["qualType"])
    return out


def struct_task(T, fields=True, title=None):
    def f(V):
        ex = V.ex
        v = ex.sym(MO + T, "x")
        ex.assume(*enum_range(ex, v, MO + T))
        if not fields:
            double_facts(ex, leaves(v))
        for x in v.f.values():
            if isinstance(x, VecV):
                ex.assume(le(0, x.len))
            if isinstance(x, VarV):
                ex.assume(disj(*[eq(x.tag, i) for i in range(len(x.alts))]))
        roundtrip(V, MO + T, v, fields)
    task(title or "JSON of " + T, "C20", units=U)(f)


# every double field is written and read through the same pair of helpers; this task proves the pair on one struct without
# assuming a contract for the helpers, the other tasks use their contract
struct_task("Errors", False, "JSON numbers (Errors)")
for T in ("QPEigenvalues", "DirectionalDerivatives", "LineSearchStep", "AlphaValues", "IPIterationOutputs", "KKTError",
          "QPInteriorPointIteration", "QPLagrangeMultipliers", "QPInteriorPointSolverOutputs", "NLSIteration", "NLSSolverOutputs"):
    struct_task(T)

for T in ("QPEigenvalues", "QPLagrangeMultipliers"):
    def opt(V, T=T):
        ex = V.ex
        q = "std::optional<mini_opt::%s>" % T
        roundtrip(V, q, ex.sym(q, "x"))
    task("JSON of optional " + T, "C20", units=U)(opt)


@task("JSON of the QP output variant", "C20", units=U)
def variant(V):
    ex = V.ex
    q = "std::variant<mini_opt::QPNullSpaceTerminationState, mini_opt::QPInteriorPointSolverOutputs>"
    v = ex.sym(q, "x")
    ex.assume(disj(eq(v.tag, 0), eq(v.tag, 1)), le(0, v.alts[1].f["iterations"].len), *enum_range(ex, v.alts[1], ""))
    ex.assume(disj(*[eq(v.alts[0], c) for c in ex.enums["QPNullSpaceTerminationState"].values()]))
    roundtrip(V, q, v)
