"""Semantics of the library calls the verified code makes (Eigen expressions, std containers, <algorithm>, <cmath>).
These are the assumed specifications of external code; everything defined in /repo is executed from its AST."""
import re
from fractions import Fraction
from terms import *
import terms as T
from values import *
from exec import (Exec, tname, targs, qt, strip_type, dim, ThrowExc, EndPath, NotPure, ReturnExc, Frame, INT_T)
import exec as X
import front
import jsonlib

_src = {}
ASSUMED = set()          # names of assumed external contracts used on this run


def source(path):
    if path not in _src:
        try:
            _src[path] = open(path, errors="replace").read()
        except OSError:
            _src[path] = ""
    return _src[path]


def node_text(n):
    rg = n.get("range") or {}
    b, e = rg.get("begin", {}), rg.get("end", {})
    if "offset" in b and "offset" in e:
        for f in (n["_at"][0],):
            if f and f != "?":
                return source(f)[b["offset"]:e["offset"] + e.get("tokLen", 1)]
    return ""


def callee_of(n):
    c = n["inner"][0]
    while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        c = c["inner"][0]
    return c


# ------------------------------------------------------------------ value helpers
def isarr(m):
    return bool(m.meta.get("array"))


def arr_meta(*ms):
    return {"array": True} if any(isarr(m) for m in ms) else None


def as_mat(ex, v):
    v = ex.load(v)
    if isinstance(v, Mat):
        return v
    raise Unsupported("matrix expected, got " + type(v).__name__)


def same_dims(ex, a, b, what):
    ex.oblige(eq(a.rows, b.rows), "sizes agree: rows in " + what, ("C22",))
    if not (a.isvec and b.isvec):
        ex.oblige(eq(a.cols, b.cols), "sizes agree: cols in " + what, ("C22",))


def elementwise(ex, f, a, b, what, isbool=False):
    same_dims(ex, a, b, what)
    return Mat(a.rows, a.cols, lambda i, j: f(a.fn(i, j), b.fn(i, j)), meta=arr_meta(a, b), isbool=isbool)


def mapm(m, f, isbool=False, meta=None):
    return Mat(m.rows, m.cols, lambda i, j: f(m.fn(i, j)), meta=meta if meta is not None else arr_meta(m), isbool=isbool)


def matmul(ex, a, b):
    ex.oblige(eq(a.cols, b.rows), "sizes agree: inner dimensions of a product", ("C22",))
    n = b.rows
    an, bn = a.fn, b.fn

    def fn(i, j):
        k = fresh("m")
        return mk_sum(k, 0, n, an(i, k) * bn(k, j))
    return Mat(a.rows, b.cols, fn, meta={"product": True})


def transpose(m):
    return Mat(m.cols, m.rows, lambda i, j: m.fn(j, i), meta=arr_meta(m), isbool=m.isbool)


def outer_nonneg(p):
    """sum of even powers with non-negative coefficients (robustly non-negative in floating point)"""
    for m, c in p.a:
        if c < 0:
            return False
        for x, e in m:
            if x.k == "br" or e % 2 == 0:
                continue
            if x.k == "sum" and all(y.k == "br" or e2 % 2 == 0 for y, e2 in x.a[1]):
                continue
            if x.k == "app" and x.a[0] in ("sqrt", "abs"):
                continue
            return False
    return True


def sqrt_term(ex, p, robust=False):
    c = const_of(p)
    if c == 0:
        return ZERO
    return app("sqrt", (p,))


def vec_sum(m):
    k = fresh("s")
    if m.isvec:
        return mk_sum(k, 0, m.rows, m.fn(k, ZERO))
    l = fresh("s")
    return mk_sum(k, 0, m.rows, mk_sum(l, 0, m.cols, m.fn(k, l)))


def extremum(ex, m, kind):
    """minCoeff / maxCoeff / linf: value with its defining facts"""
    tok = ex.token(m)
    r = app(kind, (tok,))
    vec = m.isvec
    i = fresh("i"); j = num(0) if vec else fresh("j")
    vs = [i] if vec else [i, j]
    rng = conj(le(0, i), lt(i, m.rows)) if vec else conj(le(0, i), lt(i, m.rows), le(0, j), lt(j, m.cols))
    wi = app(kind + "#at", (tok,), "Int"); wj = num(0) if vec else app(kind + "#atc", (tok,), "Int")
    nonempty = lt(0, m.rows) if vec else conj(lt(0, m.rows), lt(0, m.cols))
    inr = conj(le(0, wi), lt(wi, m.rows)) if vec else conj(le(0, wi), lt(wi, m.rows), le(0, wj), lt(wj, m.cols))
    e = m.fn(i, j)
    if kind == "minCoeff":
        b = le(r, e)
    elif kind == "maxCoeff":
        b = le(e, r)
    else:
        b = conj(le(e, r), le(-e, r))
    ex.assume(forall(vs, implies(rng, b)))
    w = m.fn(wi, wj)
    at = eq(w, r) if kind != "linf" else disj(eq(w, r), eq(-w, r))
    ex.assume(implies(nonempty, conj(inr, at)))
    if kind == "linf":
        ex.assume(le(0, r), implies(neg(nonempty), eq(r, 0)))
    return r


def quant_all(m, pred):
    i = fresh("i")
    if m.isvec:
        return forall([i], implies(conj(le(0, i), lt(i, m.rows)), pred(m.fn(i, ZERO))))
    j = fresh("j")
    return forall([i, j], implies(conj(le(0, i), lt(i, m.rows), le(0, j), lt(j, m.cols)), pred(m.fn(i, j))))


# ------------------------------------------------------------------ views
def view_of(r, m):
    """whole view on an lvalue"""
    if isinstance(r, View):
        return r
    vec = m.isvec
    if vec:
        return View(r, m.rows, m.cols, lambda i, j: (i, ZERO), lambda I, J: (TRUE, I, ZERO), kind="whole")
    return View(r, m.rows, m.cols, lambda i, j: (i, j), lambda I, J: (TRUE, I, J), kind="whole")


def block(ex, r, m, i0, j0, nr, nc, what):
    i0, j0, nr, nc = P(i0), P(j0), P(nr), P(nc)
    vec = m.isvec
    ex.oblige(conj(le(0, i0), le(0, nr), le(i0 + nr, m.rows)), "in bounds: rows of %s" % what, ("C22",))
    if not (vec and const_of(j0) == 0 and const_of(nc) == 1):
        ex.oblige(conj(le(0, j0), le(0, nc), le(j0 + nc, m.cols)), "in bounds: columns of %s" % what, ("C22",))
    if isinstance(r, (Ref, View)):
        v = view_of(r, m)
        f, g = v.fwd, v.inv
        if v.tri is not None:
            raise Unsupported("block of a triangular view")

        def inv_(I, J):
            q, i, j = g(I, J)
            one = lambda n: const_of(n) == 1
            c = conj(q, eq(i, i0)) if one(nr) else conj(q, le(i0, i), lt(i, i0 + nr))
            i2 = ZERO if one(nr) else i - i0
            if not vec:
                c = conj(c, eq(j, j0)) if one(nc) else conj(c, le(j0, j), lt(j, j0 + nc))
                return c, i2, ZERO if one(nc) else j - j0
            return c, i2, ZERO
        return View(v.ref, nr, nc, lambda i, j: f(i + i0, j + j0), inv_)
    return Mat(nr, nc, lambda i, j: m.fn(i + i0, j + j0), meta=arr_meta(m), isbool=m.isbool)


def diagonal(ex, r, m):
    n = tmin(m.rows, m.cols) if m.rows is not m.cols else m.rows
    if isinstance(r, (Ref, View)):
        v = view_of(r, m)
        f, g = v.fwd, v.inv

        def inv_(I, J):
            q, i, j = g(I, J)
            return conj(q, eq(i, j)), i, ZERO
        return View(v.ref, n, 1, lambda i, j: f(i, i), inv_)
    return Mat(n, 1, lambda i, j: m.fn(i, i))


def trans_view(ex, r, m):
    if isinstance(r, View) and r.tri is None or isinstance(r, Ref):
        v = view_of(r, m)
        f, g = v.fwd, v.inv

        def inv_(I, J):
            q, i, j = g(I, J)
            return q, j, i
        return View(v.ref, m.cols, m.rows, lambda i, j: f(j, i), inv_)
    return transpose(m)


# ------------------------------------------------------------------ assignment
class AliasLog:
    def __init__(self):
        self.direct = []
        self.product = []
        self.depth = 0


def lhs_cells(ex, lhs):
    if isinstance(lhs, View):
        return lhs.ref, lhs
    return lhs, None


def overlap_check(ex, lhs, reads, what):
    for r in reads:
        lr, lv = lhs_cells(ex, lhs)
        rr, rv_ = lhs_cells(ex, r)
        if lr.obj != rr.obj or lr.path[:len(rr.path)] != rr.path[:len(lr.path)]:
            continue
        lm = ex.load(lhs); rm = ex.load(r)
        lv = lv or view_of(lr, lm); rv_ = rv_ or view_of(rr, rm)
        i, j, k, l = fresh("i"), fresh("j"), fresh("k"), fresh("l")
        a = lv.fwd(i, j if not lm.isvec else ZERO)
        b = rv_.fwd(k, l if not rm.isvec else ZERO)
        dom = [le(0, i), lt(i, lv.rows), le(0, k), lt(k, rv_.rows)]
        vs = [i, k]
        if not lm.isvec:
            dom += [le(0, j), lt(j, lv.cols)]; vs.append(j)
        if not rm.isvec:
            dom += [le(0, l), lt(l, rv_.cols)]; vs.append(l)
        same = conj(*[eq(x, y) for x, y in zip(a, b)])
        ex.oblige(forall(vs, implies(conj(*dom), neg(same))), "no aliasing: %s does not read the storage it writes" % what, ("C22",))


def eval_rhs(ex, n, lhs):
    """evaluate the right-hand side of an Eigen assignment, logging reads for the alias check"""
    old = getattr(ex, "alias", None)
    ex.alias = AliasLog()
    try:
        v = ex.rv(n)
        log = ex.alias
    finally:
        ex.alias = old
    if isinstance(lhs, View) and lhs.noalias and log.product:
        overlap_check(ex, lhs, log.product, "noalias() product")
    # coefficient-wise reads: either the same cells or disjoint ones
    for r in log.direct:
        lr, lv = lhs_cells(ex, lhs)
        rr, rv_ = lhs_cells(ex, r)
        if lr.obj != rr.obj or lr.path != rr.path:
            continue
        lm = ex.load(lhs); rm = ex.load(r)
        lv = lv or view_of(lr, lm); rv_ = rv_ or view_of(rr, rm)
        i, j = fresh("i"), fresh("j")
        a = lv.fwd(i, ZERO if lm.isvec else j); b = rv_.fwd(i, ZERO if rm.isvec else j)
        if all(x is y for x, y in zip(a, b)):
            continue
        overlap_check(ex, lhs, [r], "coefficient-wise assignment")
    return v


def log_read(ex, r):
    a = getattr(ex, "alias", None)
    if a is not None and isinstance(r, (Ref, View)):
        (a.product if a.depth else a.direct).append(r)


def assign(ex, lhs, v, what="assignment"):
    if isinstance(lhs, View) and lhs.kind == "resizable":
        return assign(ex, lhs.ref, v, what)
    if isinstance(lhs, View):
        if not isinstance(v, Mat):
            raise Unsupported("assignment of a non-matrix to a block")
        dst = Mat(lhs.rows, lhs.cols, lambda i, j: ZERO)
        same_dims(ex, dst, v, what)
        ex.store_view(lhs, plain(v))
        return lhs
    if not isinstance(lhs, Ref):
        raise Unsupported("assignment to a temporary")
    cur = ex.load(lhs)
    if isinstance(cur, Mat) and isinstance(v, Mat):
        v = plain(v)
        if const_of(cur.cols) == 1 and const_of(v.cols) != 1:
            ex.oblige(eq(v.cols, 1), "sizes agree: vector assigned from a matrix", ("C22",))
            v = Mat(v.rows, 1, v.fn)
        if cur.meta.get("fixed"):
            same_dims(ex, cur, v, what)
            v = Mat(cur.rows, cur.cols, v.fn, tok=v.tok, meta={"fixed": True})
    ex.store(lhs, v)
    return lhs


def plain(m):
    keep = {k: v for k, v in m.meta.items() if k not in ("array", "product", "tri")}
    if len(keep) != len(m.meta):
        return Mat(m.rows, m.cols, m.fn, tok=m.tok, meta=keep, isbool=m.isbool)
    return m


# ------------------------------------------------------------------ calls into /repo code
def call_decl(ex, declid, decl, this, args, node):
    unit = ex.fr.unit
    d = unit.byid.get(declid) or decl
    cls = unit.class_of(d) if d.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl") else None
    name = d.get("name")
    for key in ((cls, name, len(args)), (cls, name)):
        c = ex.contracts.get(key)
        if c is not None:
            r = c(ex, this, args, node)
            if r is not NotImplemented:
                ex.used_contracts.add("%s::%s" % (cls or "", name))
                return r
    if d.get("virtual") or d.get("pure"):
        raise Unsupported("virtual call to %s without contract" % name)
    u, df = ex.lookup_def(unit, declid)
    if df is None or u is None:
        raise Unsupported("call to %s: no definition and no contract" % name)
    return ex.call_fn(u, df, this, args, node)


def in_repo(ex, declid):
    d = ex.fr.unit.byid.get(declid)
    if d is None:
        return None
    if d.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl"):
        return d
    return None


def closure_call(ex, c, args, argtypes=None):
    ops = [x for x in c.node["inner"] if x.get("kind") == "CXXRecordDecl"]
    body = [x for x in c.node["inner"] if x.get("kind") == "CompoundStmt"][-1]
    meth = None
    for r in ops:
        for m in r.get("inner", ()):
            if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                meth = m
            if m.get("kind") == "FunctionTemplateDecl":
                # generic lambda: take the instantiation whose parameter count matches
                inst = [x for x in m.get("inner", ()) if x.get("kind") == "CXXMethodDecl"]
                if argtypes is not None:
                    inst = inst[:1] + [x for x in inst[1:] if [bare_type(qt(p)) for p in x.get("inner", ()) if p.get("kind") == "ParmVarDecl"] == [bare_type(t) for t in argtypes]]
                elif len(inst) > 2:
                    raise Unsupported("generic lambda with several instantiations")
                if len(inst) > 1:
                    meth = inst[1]
    if meth is None:
        raise Unsupported("lambda without call operator")
    fr = Frame(c.frame.unit, meth, c.frame.this)
    fr.env = dict(c.frame.env, **(c.env or {}))
    ps = [p for p in meth.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
    for p, a in zip(ps, args):
        if qt(p).rstrip().endswith("&"):
            fr.env[p["id"]] = a if isinstance(a, (Ref, View)) else ex.new(a, p.get("name", "arg"))
        else:
            fr.env[p["id"]] = ex.bind_value(qt(p), a, p.get("name", "arg"))
    mb = [x for x in meth.get("inner", ()) if x.get("kind") == "CompoundStmt"]
    ex.frames.append(fr)
    n = len(ex.frames)
    ex.depth += 1
    try:
        ex.stmt(mb[0] if mb else body)
        return None
    except ReturnExc as e:
        return e.v
    finally:
        del ex.frames[n - 1:]
        ex.depth -= 1


def invoke(ex, f, args):
    f = ex.load(f)
    if isinstance(f, Closure):
        return closure_call(ex, f, args)
    if isinstance(f, FuncV):
        return call_decl(ex, f.decl["id"], f.decl, f.obj, args, None)
    if isinstance(f, Opaque) and f.kind == "function":
        c = ex.contracts.get(("function", f.d["name"]))
        if c is None:
            raise Unsupported("call of std::function without contract")
        return c(ex, f, args, None)
    raise Unsupported("call of " + type(f).__name__)


# ------------------------------------------------------------------ operators
CMP = {"operator==": eq, "operator!=": ne, "operator<": lt, "operator>": gt, "operator<=": le, "operator>=": ge}


def operator_call(ex, n):
    c = callee_of(n)
    rd = c.get("referencedDecl", {})
    name = rd.get("name", "")
    xs = n["inner"][1:]
    d = in_repo(ex, rd.get("id"))
    if d is not None and not d.get("isImplicit") and d.get("explicitlyDefaulted") is None:
        args = [ex.ev(x) for x in xs]
        if d["kind"] == "CXXMethodDecl":
            if name == "operator()" and isinstance(ex.load(args[0]), Closure):
                return invoke(ex, args[0], args[1:])
            return call_decl(ex, d["id"], d, args[0], args[1:], n)
        return call_decl(ex, d["id"], d, None, args, n)
    c = ex.contracts.get(("operator", name))
    if c is not None:
        r = c(ex, n, xs)
        if r is not NotImplemented:
            return r
    if name in ("operator[]", "operator=", "operator==", "operator!=") and jsonlib.JT.match(qt(xs[0])):
        return jsonlib.operator(ex, name, n, xs)
    if name == "operator=":
        lhs = ex.ev(xs[0])
        l0 = ex.load(lhs) if isinstance(lhs, (Ref, View)) else lhs
        if isinstance(l0, Mat):
            v = eval_rhs(ex, xs[1], lhs)
            if isinstance(v, Opaque) and v.kind in ex_mat_opaque:
                raise Unsupported("matrix assigned from " + v.kind)
            if isinstance(v, Poly) and isinstance(lhs, (Ref, View)):
                c_ = v
                v = Mat(l0.rows, l0.cols, lambda i, j: c_)
            return assign(ex, lhs, v)
        if isinstance(l0, OptV):
            v = ex.rv(xs[1])
            if isinstance(v, Opaque) and v.kind == "nullopt":
                v = OptV(FALSE, None, l0.elt)
            elif not isinstance(v, OptV):
                v = OptV(TRUE, v, l0.elt)
            ex.store(lhs, v)
            return lhs
        if isinstance(l0, VarV):
            v = ex.rv(xs[1])
            if not isinstance(v, VarV):
                v = to_variant(v, l0.types, qt(xs[1]))
            ex.store(lhs, v)
            return lhs
        v = ex.rv(xs[1])
        if isinstance(l0, Opaque) and l0.kind == "tie" and isinstance(v, Struct) and len(v.f) == len(l0.d["refs"]):
            for r, x in zip(l0.d["refs"], v.f.values()):
                old = ex.load(r)
                if not (isinstance(old, (Poly, B)) or isinstance(old, Struct) and old.type == getattr(x, "type", None)):
                    raise Unsupported("std::tie of " + type(old).__name__)
                ex.store(r, x)
            return lhs
        if not isinstance(lhs, Ref):
            raise Unsupported("assignment to temporary")
        ex.store(lhs, v)
        return lhs
    if name in ("operator+=", "operator-=", "operator*=", "operator/="):
        lhs = ex.ev(xs[0])
        l0 = ex.load(lhs)
        if isinstance(l0, Mat):
            v = eval_rhs(ex, xs[1], lhs)
            a = l0
            if isinstance(v, Poly):
                op = {"operator*=": lambda x: x * v, "operator/=": lambda x: x * inv(v), "operator+=": lambda x: x + v, "operator-=": lambda x: x - v}[name]
                r = mapm(a, op)
            else:
                if name == "operator*=" and not isarr(a):
                    r = matmul(ex, a, v)
                else:
                    op = {"operator+=": lambda x, y: x + y, "operator-=": lambda x, y: x - y, "operator*=": lambda x, y: x * y, "operator/=": lambda x, y: x * inv(y)}[name]
                    r = elementwise(ex, op, a, v, name)
            return assign(ex, lhs, r)
        if isinstance(l0, ITERS):
            d_ = ex.rn(xs[1])
            ex.store(lhs, type(l0)(l0.ref, l0.idx + d_ if name == "operator+=" else l0.idx - d_))
            return lhs
        if isinstance(l0, Opaque):
            ex.ev(xs[1])
            return lhs
        raise Unsupported(name)
    if name == "operator[]" or name == "operator()":
        b = ex.ev(xs[0])
        v = ex.load(b) if isinstance(b, (Ref, View, Lazy)) else b
        if isinstance(v, Mat):
            log_read(ex, b)
            idx = [ex.rn(x) for x in xs[1:]]
            return element(ex, b, v, idx)
        if isinstance(v, VecV):
            i = ex.rn(xs[1])
            ex.bounds(i, v.len, "vector element")
            return b.add(("i", i)) if isinstance(b, Ref) else v.fn(i)
        return invoke(ex, v, [ex.ev(x) for x in xs[1:]])
    if name in ("operator*", "operator->") and len(xs) == 1:
        b = ex.ev(xs[0])
        v = ex.load(b)
        if isinstance(v, OptV):
            ex.oblige(v.has, "optional has a value when dereferenced", ("C22",))
            if isinstance(b, Ref):
                r = b.add(("*",))
                return PtrV(r, TRUE) if name == "operator->" else r
            return ex.new(v.val) if name == "operator*" else PtrV(ex.new(v.val), TRUE)
        if isinstance(v, PtrV):
            return v if name == "operator->" else ex.deref(v, n)
        if isinstance(v, ITERS):
            r = ex.deref(v, n)
            return PtrV(r, TRUE) if name == "operator->" else r
        raise Unsupported(name + " on " + type(v).__name__)
    if name in ("operator++", "operator--"):
        r = ex.ev(xs[0])
        old = ex.load(r)
        dlt = 1 if name == "operator++" else -1
        if isinstance(old, ITERS):
            ex.store(r, type(old)(old.ref, old.idx + dlt))
            return old if len(xs) > 1 else r
        raise Unsupported(name)
    if name == "operator<<" or name == "operator,":
        b = ex.ev(xs[0])
        v = ex.load(b) if isinstance(b, (Ref, View)) else b
        if isinstance(v, Opaque) and v.kind == "comma":
            v.d["items"].append(ex.rv(xs[1]))
            return v
        if isinstance(v, Mat):
            if isinstance(b, Mat):
                b = ex.new(b, "temporary")
            return Opaque("comma", target=b, items=[ex.rv(xs[1])])
        if isinstance(v, Opaque):
            w = ex.rv(xs[1])
            if v.kind == "stream":
                o = Opaque("stream", items=v.d["items"] + [w])
                if isinstance(b, Ref):
                    ex.store(b, o)
                    return b
                return o
            return v
        raise Unsupported("operator<<")
    if name == "operator-" and len(xs) == 1:
        return mapm(matval(ex, xs[0]), lambda x: -x)
    if name == "operator!" and len(xs) == 1:
        m = ex.rv(xs[0])
        return Mat(m.rows, m.cols, lambda i, j: neg(m.fn(i, j)), isbool=True)
    if name in ("operator+", "operator-", "operator*", "operator/", "operator&&", "operator||", "operator&", "operator|") or name in CMP:
        prod = False
        al = getattr(ex, "alias", None)
        if name == "operator*" and al is not None:
            # is it a matrix product? decided by the result type
            t = qt(n)
            prod = t.startswith("const Product<") or "Product<" in t.split("<")[0] + "<" or tname(t)[0] == "Product"
        if prod:
            al.depth += 1
        try:
            a, b = matval(ex, xs[0]), matval(ex, xs[1])
        finally:
            if prod:
                al.depth -= 1
        return binary(ex, name, a, b, n)
    raise Unsupported("operator call " + name)


ex_mat_opaque = {"sym"}


def matval(ex, x):
    r = ex.ev(x)
    if isinstance(r, (Ref, View)):
        v = ex.load(r)
        if isinstance(v, Mat):
            log_read(ex, r)
        return v
    return ex.load(r)


def binary(ex, name, a, b, n=None):
    if isinstance(a, Mat) and isinstance(b, Mat):
        if name == "operator+":
            return elementwise(ex, lambda x, y: x + y, a, b, "sum")
        if name == "operator-":
            return elementwise(ex, lambda x, y: x - y, a, b, "difference")
        if name == "operator*":
            if isarr(a) or isarr(b):
                return elementwise(ex, lambda x, y: x * y, a, b, "array product")
            return matmul(ex, a, b)
        if name == "operator/":
            return elementwise(ex, lambda x, y: x * inv(y), a, b, "array quotient")
        if name in CMP:
            f = CMP[name]
            if isarr(a):
                return elementwise(ex, f, a, b, "comparison", isbool=True)
            e = conj(eq(a.rows, b.rows), eq(a.cols, b.cols))
            i, j = fresh("i"), fresh("j")
            e = conj(e, forall([i, j], implies(conj(le(0, i), lt(i, a.rows), le(0, j), lt(j, a.cols)), eq(a.fn(i, j), b.fn(i, j)))))
            return e if name == "operator==" else neg(e)
        if name in ("operator&&", "operator&"):
            return elementwise(ex, conj, a, b, name, isbool=True)
        if name in ("operator||", "operator|"):
            return elementwise(ex, disj, a, b, name, isbool=True)
    if isinstance(a, Opaque) and a.kind == "perm" or isinstance(b, Opaque) and b.kind == "perm":
        return perm_product(ex, a, b)
    if isinstance(a, Mat) and isinstance(b, Poly):
        if name in CMP:
            return mapm(a, lambda x: CMP[name](x, b), isbool=True)
        f = {"operator*": lambda x: x * b, "operator/": lambda x: x * inv(b), "operator+": lambda x: x + b, "operator-": lambda x: x - b}.get(name)
        if f:
            return mapm(a, f)
    if isinstance(b, Mat) and isinstance(a, Poly):
        if name in CMP:
            return mapm(b, lambda x: CMP[name](a, x), isbool=True)
        f = {"operator*": lambda x: a * x, "operator/": lambda x: a * inv(x), "operator+": lambda x: x + a, "operator-": lambda x: a - x}.get(name)
        if f:
            return mapm(b, f)
    if isinstance(a, OptV) or isinstance(b, OptV):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = a if isinstance(a, OptV) else b
            return neg(o.has) if name == "operator==" else o.has
        if isinstance(a, OptV) and not isinstance(b, OptV):
            e = conj(a.has, ex.cmp("==", a.val, b))
            if name in ("operator==", "operator!="):
                return e if name == "operator==" else neg(e)
    if name in CMP and not isinstance(a, (Mat, Struct)):
        return ex.cmp(name[8:], a, b)
    if isinstance(a, ITERS) or isinstance(b, ITERS):
        return ex.arith(name[8:], a, b, "long")
    if isinstance(a, Opaque) and a.kind in ("duration", "timepoint") or isinstance(b, Opaque) and b.kind in ("duration", "timepoint"):
        return Opaque("duration", v=("diff", str(a), str(b)))
    raise Unsupported("%s on %s, %s" % (name, type(a).__name__, type(b).__name__))


def element(ex, r, m, idx):
    if len(idx) == 1:
        i, j = idx[0], ZERO
        if not m.isvec:
            if const_of(m.rows) == 1:
                i, j = ZERO, idx[0]
            else:
                raise Unsupported("linear indexing of a matrix")
    else:
        i, j = idx
    ex.oblige(conj(le(0, i), lt(i, m.rows)), "in bounds: row index", ("C22",))
    if not m.isvec or const_of(j) != 0:
        ex.oblige(conj(le(0, j), lt(j, m.cols)), "in bounds: column index", ("C22",))
    if isinstance(r, View):
        if r.tri is not None:
            return m.fn(i, j)
        I, J = r.fwd(i, j)
        return r.ref.add(("e", I, J))
    if isinstance(r, Ref):
        return r.add(("e", i, j if not m.isvec else ZERO))
    return m.fn(i, j)


# ------------------------------------------------------------------ member calls
def member_call(ex, n):
    me = n["inner"][0]
    while me.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
        me = me["inner"][0]
    xs = n["inner"][1:]
    name = me.get("name")
    if me.get("kind") != "MemberExpr":
        raise Unsupported("member call through " + str(me.get("kind")))
    base = me["inner"][0]
    did = me.get("referencedMemberDecl")
    d = in_repo(ex, did)
    arrow = me.get("isArrow")
    if d is not None:
        if arrow:
            bv = ex.load(ex.ev(base))
            if isinstance(bv, PtrV):
                this = ex.deref(bv, n)
            elif isinstance(bv, OptV):
                this = ex.ev(base).add(("*",))
            else:
                raise Unsupported("-> on " + type(bv).__name__)
        else:
            this = ex.ev(base)
            if not isinstance(this, Ref):
                this = ex.new(this, "tmpobj")
        if isinstance(this, Ref):
            tv = ex.load(this)
            if isinstance(tv, Closure):
                return closure_call(ex, tv, [ex.ev(x) for x in xs])
        args = ex.make_args(ex.fr.unit, d, xs)
        return call_decl(ex, did, d, this, args, n)
    r = ex.ev(base)
    if arrow:
        pv = ex.load(r)
        if isinstance(pv, PtrV):
            r = ex.deref(pv, n)
        elif isinstance(pv, OptV):
            r = r.add(("*",))
    v = ex.load(r) if isinstance(r, (Ref, View, Lazy)) else r
    if isinstance(v, Lazy):
        v = v.thunk()
    if isinstance(v, Mat):
        return mat_method(ex, n, me, name, r, v, xs)
    if jsonlib.is_json(v):
        return jsonlib.method(ex, n, name, r, v, xs)
    if isinstance(v, VecV):
        return vec_method(ex, n, name, r, v, xs)
    if isinstance(v, OptV):
        return opt_method(ex, n, name, r, v, xs)
    if isinstance(v, VarV):
        if name == "emplace":
            t = template_args_text(n, name)
            i = variant_index(v.types, t)
            alts = [None] * len(v.types)
            alts[i] = construct_type(ex, v.types[i], [ex.ev(x) for x in xs], xs) if xs else ex.default_construct(v.types[i])
            ex.store(r, VarV(i, alts, v.types))
            return r.add(("a", i))
        if name == "index":
            return v.tag
        raise Unsupported("variant::" + name)
    if isinstance(v, PtrV):
        if name == "get":
            return v
        if name.startswith("operator bool"):
            return v.nn
    if isinstance(v, Opaque):
        return opaque_method(ex, n, me, name, r, v, xs)
    if isinstance(v, Struct):
        c = ex.contracts.get(("lib:" + v.type, name))
        if c:
            return c(ex, r, [ex.ev(x) for x in xs], n)
    if isinstance(v, (B, Poly)) and name.startswith("operator"):
        return v
    raise Unsupported("method %s on %s" % (name, type(v).__name__))


def ints(ex, xs):
    return [ex.rn(x) for x in xs if x.get("kind") != "CXXDefaultArgExpr"]


def mat_method(ex, n, me, name, r, m, xs):
    lv = r if isinstance(r, (Ref, View)) else m
    if name == "rows":
        return m.rows
    if name == "cols":
        return m.cols
    if name == "size":
        return m.rows * m.cols
    if name in ("head", "tail", "segment", "block", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner",
                "leftCols", "rightCols", "topRows", "bottomRows", "middleCols", "middleRows", "row", "col"):
        a = ints(ex, xs)
        # template-sized variants, e.g. head<3>()
        if not a or (name in ("segment",) and len(a) == 1) or (name in ("block",) and len(a) == 2):
            t = template_ints(n, me)
            if t is None:
                raise Unsupported("fixed-size block " + name)
            a = a + t
        if name in ("head", "tail", "segment") and not m.isvec:
            raise Unsupported("head/segment on a matrix")
        R, C = m.rows, m.cols
        what = name
        if name == "head":
            return block(ex, lv, m, 0, 0, a[0], 1, what)
        if name == "tail":
            return block(ex, lv, m, R - a[0], 0, a[0], 1, what)
        if name == "segment":
            return block(ex, lv, m, a[0], 0, a[1], 1, what)
        if name == "block":
            return block(ex, lv, m, a[0], a[1], a[2], a[3], what)
        if name == "topLeftCorner":
            return block(ex, lv, m, 0, 0, a[0], a[1], what)
        if name == "topRightCorner":
            return block(ex, lv, m, 0, C - a[1], a[0], a[1], what)
        if name == "bottomLeftCorner":
            return block(ex, lv, m, R - a[0], 0, a[0], a[1], what)
        if name == "bottomRightCorner":
            return block(ex, lv, m, R - a[0], C - a[1], a[0], a[1], what)
        if name == "leftCols":
            return block(ex, lv, m, 0, 0, R, a[0], what)
        if name == "rightCols":
            return block(ex, lv, m, 0, C - a[0], R, a[0], what)
        if name == "topRows":
            return block(ex, lv, m, 0, 0, a[0], C, what)
        if name == "bottomRows":
            return block(ex, lv, m, R - a[0], 0, a[0], C, what)
        if name == "middleCols":
            return block(ex, lv, m, 0, a[0], R, a[1], what)
        if name == "middleRows":
            return block(ex, lv, m, a[0], 0, a[1], C, what)
        if name == "row":
            ex.bounds(a[0], R, "row")
            return block(ex, lv, m, a[0], 0, 1, C, what)
        if name == "col":
            ex.bounds(a[0], C, "column")
            b = block(ex, lv, m, 0, a[0], R, 1, what)
            return b
    if name in ("coeff", "coeffRef", "operator()", "operator[]"):
        return element(ex, lv, m, ints(ex, xs))
    if name == "x" or name == "y" or name == "z" or name == "w":
        return element(ex, lv, m, [num("xyzw".index(name))])
    if name == "diagonal":
        return diagonal(ex, lv, m)
    if name in ("transpose", "adjoint"):
        return trans_view(ex, lv, m)
    if name == "triangularView":
        t = template_text(n, me)
        if "UnitLower" in t or "UnitUpper" in t or "Strict" in t:
            raise Unsupported("triangular mode " + t)
        tri = "L" if "Lower" in t else "U" if "Upper" in t else None
        if tri is None:
            raise Unsupported("triangular mode " + t)
        if isinstance(lv, (Ref, View)):
            return view_of(lv, m).copy(tri=tri, kind="tri")
        return Mat(m.rows, m.cols, lambda i, j: ite(le(j, i) if tri == "L" else le(i, j), m.fn(i, j), ZERO), meta={"tri": tri})
    if name == "selfadjointView":
        t = template_text(n, me)
        tri = "SL" if "Lower" in t else "SU" if "Upper" in t else None
        if tri is None:
            raise Unsupported("self-adjoint mode " + t)
        if isinstance(lv, (Ref, View)):
            return view_of(lv, m).copy(tri=tri, kind="sa")
        lo = tri == "SL"
        return Mat(m.rows, m.cols, lambda i, j: ite(le(j, i) if lo else le(i, j), m.fn(i, j), m.fn(j, i)), meta={"sa": tri})
    if name == "noalias":
        if isinstance(lv, (Ref, View)):
            if isinstance(lv, Ref):
                # keep resizing semantics: mark reference as noalias through a whole view only for the alias check
                return NoAliasRef(lv, m)
            return lv.copy(noalias=True)
        raise Unsupported("noalias on temporary")
    if name == "array":
        if isinstance(lv, View) and lv.tri is None or isinstance(lv, Ref):
            return view_of(lv, m).copy(kind="array")
        return Mat(m.rows, m.cols, m.fn, meta={"array": True}, isbool=m.isbool)
    if name == "matrix":
        return Mat(m.rows, m.cols, m.fn, tok=m.tok, isbool=m.isbool)
    if name in ("eval", "derived", "const_cast_derived"):
        return m if name == "eval" else lv
    if name in ("setZero", "setConstant", "setOnes", "setIdentity"):
        a = ints(ex, xs)
        rows, cols = m.rows, m.cols
        if name == "setConstant":
            cst = a[-1]; a = a[:-1]
        else:
            cst = {"setZero": ZERO, "setOnes": ONE, "setIdentity": None}[name]
        if a:
            if isinstance(lv, View):
                raise Unsupported("resize of a block")
            rows = a[0]
            cols = a[1] if len(a) > 1 else m.cols
        f = (lambda i, j: cst) if cst is not None else (lambda i, j: bracket(eq(i, j)))
        nv = Mat(rows, cols, f)
        if isinstance(lv, View):
            ex.store_view(lv, nv)
        else:
            ex.store(lv, nv)
        return lv
    if name in ("resize", "conservativeResize", "resizeLike"):
        if isinstance(lv, View):
            raise Unsupported("resize of a block")
        if name == "resizeLike":
            o = ex.rv(xs[0])
            rows, cols = o.rows, o.cols
        else:
            a = ints(ex, xs)
            rows = a[0]
            cols = a[1] if len(a) > 1 else m.cols
            ex.oblige(conj(le(0, rows), le(0, cols)), "sizes are not negative in resize", ("C22",))
        if rows is m.rows and cols is m.cols:
            return None
        nm = "unspec%d" % ex._uid()
        vec = m.isvec
        same = conj(eq(rows, m.rows), eq(cols, m.cols))
        if name == "conservativeResize":
            same = TRUE
            inside = lambda i, j: conj(lt(i, m.rows), lt(j, m.cols))
        else:
            inside = lambda i, j: same
        # same size: contents kept; otherwise unspecified
        nv = Mat(rows, cols, lambda i, j: ite(inside(i, j), m.fn(i, j), app(nm, (i,) if vec else (i, j))))
        ex.store(lv, nv)
        return None
    if name in ("norm", "stableNorm"):
        log_read(ex, lv)
        sq = mapm(m, lambda x: x * x)
        return sqrt_term(ex, vec_sum(sq), True)
    if name == "squaredNorm":
        return vec_sum(mapm(m, lambda x: x * x))
    if name == "sum":
        return vec_sum(m)
    if name == "trace":
        k = fresh("t")
        return mk_sum(k, 0, m.rows, m.fn(k, k))
    if name == "dot":
        o = matval(ex, xs[0])
        row = lambda x: const_of(x.rows) == 1 and const_of(x.cols) != 1
        if row(m):
            m = Mat(m.cols, m.rows, lambda i, j, f=m.fn: f(j, i))
        if row(o):
            o = Mat(o.cols, o.rows, lambda i, j, f=o.fn: f(j, i))
        same_dims(ex, m, o, "dot product")
        k = fresh("d")
        return mk_sum(k, 0, m.rows, m.fn(k, ZERO) * o.fn(k, ZERO))
    if name in ("minCoeff", "maxCoeff"):
        if xs and any(x.get("kind") != "CXXDefaultArgExpr" for x in xs):
            raise Unsupported("minCoeff with index")
        ex.oblige(conj(lt(0, m.rows), lt(0, m.cols)), "minCoeff/maxCoeff of a non-empty matrix", ("C22",))
        return extremum(ex, m, name)
    if name in ("cwiseAbs", "abs"):
        return mapm(m, tabs)
    if name in ("cwiseProduct",):
        return elementwise(ex, lambda x, y: x * y, m, matval(ex, xs[0]), name)
    if name in ("cwiseQuotient",):
        return elementwise(ex, lambda x, y: x * inv(y), m, matval(ex, xs[0]), name)
    if name in ("cwiseInverse", "inverse") and (isarr(m) or name == "cwiseInverse"):
        return mapm(m, inv)
    if name in ("unaryExpr", "binaryExpr"):
        # the callable at one arbitrary element, all paths merged; it may have no effects
        o = matval(ex, xs[0]) if name == "binaryExpr" else None
        f = ex.ev(xs[-1])
        x, y = fresh("elt", "Real"), fresh("elt", "Real")
        post = merge_paths(ex, lambda: ex.load(invoke(ex, f, [x] if o is None else [x, y])), TRUE)
        at = lambda u, v: subst(post, {atom_of(x): u, atom_of(y): v})
        return mapm(m, lambda u: at(u, y)) if o is None else elementwise(ex, at, m, o, name)
    if name in ("cwiseMax", "cwiseMin", "max", "min"):
        o = ex.rv(xs[0])
        f = tmax if name.lower().endswith("max") else tmin
        if isinstance(o, Poly):
            return mapm(m, lambda x: f(x, o))
        return elementwise(ex, f, m, o, name)
    if name in ("square",):
        return mapm(m, lambda x: x * x)
    if name in ("sign", "cwiseSign"):
        return mapm(m, lambda x: ite(lt(0, x), ONE, ite(lt(x, 0), -ONE, ZERO)))
    if name == "lpNorm":
        t = template_text(n, me)
        if "Infinity" in t:
            return extremum(ex, m, "linf")
        if t.strip().strip("<>") == "1":
            return vec_sum(mapm(m, tabs))
        if t.strip().strip("<>") == "2":
            return sqrt_term(ex, vec_sum(mapm(m, lambda x: x * x)), True)
        raise Unsupported("lpNorm " + t)
    if name == "all":
        return quant_all(m, lambda b: b)
    if name == "any":
        return neg(quant_all(m, neg))
    if name == "count":
        return vec_sum(mapm(m, bracket))
    if name == "allFinite":
        return quant_all(m, lambda x: bapp("isfinite", (x,)))
    if name == "hasNaN":
        return neg(quant_all(m, lambda x: neg(bapp("isnan", (x,)))))
    if name == "format":
        return Opaque("text")
    if name == "swap":
        o = ex.ev(xs[0])
        ov = ex.load(o)
        if not isinstance(lv, Ref) or not isinstance(o, Ref):
            raise Unsupported("swap of blocks")
        ex.store(lv, ov); ex.store(o, m)
        return None
    if name == "data":
        return Opaque("data", ref=lv, mat=m)
    if name == "fill":
        return mat_method(ex, n, me, "setConstant", r, m, xs)
    if name == "inverse" and const_of(m.rows) == 2 and const_of(m.cols) == 2:
        a, b, c, d = m.at(0, 0), m.at(0, 1), m.at(1, 0), m.at(1, 1)
        det = a * d - b * c
        k = inv(det)
        vals = [[d * k, -b * k], [-c * k, a * k]]

        def fn(i, j):
            ci, cj = const_of(P(i)), const_of(P(j))
            if ci is not None and cj is not None:
                return vals[int(ci)][int(cj)]
            return ite(eq(i, 0), ite(eq(j, 0), vals[0][0], vals[0][1]), ite(eq(j, 0), vals[1][0], vals[1][1]))
        return Mat(2, 2, fn)
    if name == "determinant" and const_of(m.rows) == 2:
        return m.at(0, 0) * m.at(1, 1) - m.at(0, 1) * m.at(1, 0)
    c = ex.contracts.get(("Mat", name))
    if c is not None:
        args = [ex.ev(x) for x in xs if x.get("kind") != "CXXDefaultArgExpr"]
        return c(ex, r, m, args, n)
    if name.startswith("operator") and const_of(m.rows) == 1 and const_of(m.cols) == 1:
        return m.at(0, 0)
    if name in ("const_cast_derived", "nestedExpression"):
        return lv
    raise Unsupported("Eigen method " + name)


def NoAliasRef(ref, m):
    v = View(ref, m.rows, m.cols, lambda i, j: (i, j), lambda I, J: (TRUE, I, J), noalias=True, kind="resizable")
    return v


def template_text(n, me):
    """explicit template arguments of the member name, read from the source text"""
    t = node_text(me)
    m = re.search(r"%s\s*<(.*)>\s*$" % re.escape(me.get("name", "")), t, re.S)
    if m:
        return m.group(1)
    # range of a MemberExpr may end at the name: look at the whole call
    t = node_text(n)
    i = t.rfind(me.get("name", "") + "<")
    if i < 0:
        m2 = None
        for m2 in re.finditer(r"%s\s*<([^<>()]*)>" % re.escape(me.get("name", "")), t):
            pass
        return m2.group(1) if m2 else ""
    return t[i + len(me["name"]) + 1:t.find(">", i)]


def template_ints(n, me):
    t = template_text(n, me)
    if not t:
        return None
    out = []
    for p in t.split(","):
        p = p.strip()
        if re.fullmatch(r"\d+", p):
            out.append(dim(p))
        else:
            return None
    return out


# ------------------------------------------------------------------ std::vector and friends
def vec_method(ex, n, name, r, v, xs):
    if name in ("size", "length"):
        return v.len
    if name == "empty":
        return eq(v.len, 0)
    if name in ("reserve", "shrink_to_fit"):
        for x in xs:
            ex.ev(x)
        return None
    if name == "capacity":
        return fresh("cap")
    if name in ("begin", "cbegin", "data"):
        return IterV(r, 0)
    if name in ("end", "cend"):
        return IterV(r, v.len)
    if name in ("rbegin", "crbegin"):
        return RIterV(r, 0)
    if name in ("rend", "crend"):
        return RIterV(r, v.len)
    if name in ("back", "front"):
        ex.oblige(lt(0, v.len), "front/back of a non-empty container", ("C22",))
        i = v.len - 1 if name == "back" else num(0)
        return r.add(("i", i)) if isinstance(r, Ref) else v.fn(i)
    if name in ("operator[]", "at"):
        i = ex.rn(xs[0])
        ex.bounds(i, v.len, "vector element")
        return r.add(("i", i)) if isinstance(r, Ref) else v.fn(i)
    if name == "clear":
        ex.store(r, VecV(0, v.fn, v.elt))
        return None
    if name in ("push_back", "emplace_back"):
        if name == "push_back" or (len(xs) == 1 and same_type(qt(xs[0]), v.elt)):
            x = ex.coerce(ex.rv(xs[0]), v.elt or "")
        else:
            x = construct_type(ex, v.elt, [ex.ev(a) for a in xs], xs)
        if v.elt:
            k, ta = tname(v.elt)
            if k == "variant" and not isinstance(x, VarV):
                x = to_variant(x, ta)
        cur = ex.load(r)
        ln, f = cur.len, cur.fn
        ex.store(r, VecV(ln + 1, lambda i: vite(eq(i, ln), x, f(i)), v.elt))
        return r.add(("i", ln))
    if name in ("pop_front", "pop_back"):
        ex.oblige(lt(0, v.len), "pop of a non-empty container", ("C22",))
        off = 1 if name == "pop_front" else 0
        ex.store(r, VecV(v.len - 1, lambda i: v.fn(i + off), v.elt))
        return None
    if name == "erase" and len(xs) == 2:
        a, b = ex.rv(xs[0]), ex.rv(xs[1])
        if const_of(a.idx) == 0:
            ex.oblige(conj(le(0, b.idx), le(b.idx, v.len)), "in bounds: erase range", ("C22",))
            c = b.idx
            ex.store(r, VecV(v.len - c, lambda i: v.fn(i + c), v.elt))
            return IterV(r, 0)
        raise Unsupported("erase range")
    if name == "erase" and len(xs) == 1:
        a = ex.rv(xs[0])
        ex.bounds(a.idx, v.len, "erase")
        k = a.idx
        ex.store(r, VecV(v.len - 1, lambda i: vite(lt(i, k), v.fn(i), v.fn(i + 1)), v.elt))
        return IterV(r, k)
    if name == "resize":
        nn = ex.rn(xs[0])
        fill = ex.rv(xs[1]) if len(xs) > 1 and xs[1].get("kind") != "CXXDefaultArgExpr" else None
        if fill is None:
            fill = ex.zero(v.elt)
        ex.store(r, VecV(nn, lambda i: vite(lt(i, v.len), v.fn(i), fill), v.elt))
        return None
    if name == "swap":
        o = ex.ev(xs[0]); ov = ex.load(o)
        ex.store(r, ov); ex.store(o, v)
        return None
    if name == "assign" or name == "insert":
        raise Unsupported("vector::" + name)
    raise Unsupported("container method " + name)


def same_type(t, elt):
    if elt is None:
        return True
    a, b = tname(t)[0], tname(elt)[0]
    return a == b


def opt_method(ex, n, name, r, v, xs):
    if name in ("has_value",) or name.startswith("operator bool"):
        return v.has
    if name == "value":
        if not ex.branch(v.has):
            raise ThrowExc("bad_optional_access")
        return r.add(("*",)) if isinstance(r, Ref) else v.val
    if name == "reset":
        ex.store(r, OptV(FALSE, None, v.elt))
        return None
    if name == "value_or":
        d = ex.rv(xs[0])
        return d if v.val is None else vite(v.has, v.val, d)
    if name == "emplace":
        x = construct_type(ex, v.elt, [ex.ev(a) for a in xs], xs)
        ex.store(r, OptV(TRUE, x, v.elt))
        return r.add(("*",))
    raise Unsupported("optional::" + name)


def opaque_method(ex, n, me, name, r, v, xs):
    if v.kind == "comma":
        return finish_comma(ex, v)
    c = ex.contracts.get((v.kind, name))
    if c is not None:
        return c(ex, r if isinstance(r, (Ref, View)) else v, v, [ex.ev(x) for x in xs if x.get("kind") != "CXXDefaultArgExpr"], n)
    if v.kind == "function":
        if name == "operator()":
            return invoke(ex, v, [ex.ev(x) for x in xs])
        if name.startswith("operator bool"):
            return v.d["nn"]
    if v.kind == "perm" and name in ("transpose", "inverse"):
        return Opaque("perm", name=v.d["name"], n=v.d["n"], inv=not v.d["inv"])
    if v.kind == "perm" and name in ("rows", "cols", "size"):
        return v.d["n"]
    raise Unsupported("method %s on opaque %s" % (name, v.kind))


def finish_comma(ex, v):
    t = v.d["target"]
    m = ex.load(t)
    items = v.d["items"]
    if m.isvec and any(isinstance(x, Mat) for x in items):
        off = num(0)
        f = lambda i, j: ZERO
        parts = []
        for x in items:
            n_ = x.rows if isinstance(x, Mat) else num(1)
            parts.append((off, n_, x)); off = off + n_
        ex.oblige(eq(off, m.rows), "sizes agree: comma initialiser", ("C22",))

        def fn(i, j):
            r = ZERO
            for o, n_, x in parts:
                e = x.fn(i - o, ZERO) if isinstance(x, Mat) else x
                r = r + bracket(conj(le(o, i), lt(i, o + n_))) * e
            return r
        assign(ex, t, Mat(m.rows, m.cols, fn))
        return t
    R, C = const_of(m.rows), const_of(m.cols)
    if R is None or C is None:
        ex.oblige(eq(m.rows * m.cols, len(items)), "sizes agree: comma initialiser", ("C22",))
        if m.isvec:
            R, C = len(items), 1
        else:
            raise Unsupported("comma initialiser of a dynamic matrix")
    R, C = int(R), int(C)
    ex.oblige(eq(num(R * C), len(items)), "sizes agree: comma initialiser", ("C22",))
    if R * C != len(items):
        raise EndPath()

    def fn(i, j):
        ci, cj = const_of(P(i)), const_of(P(j))
        if ci is not None and cj is not None:
            return items[int(ci) * C + int(cj)]
        r = ZERO
        for a in range(R):
            for b in range(C):
                g = eq(i, a) if C == 1 else conj(eq(i, a), eq(j, b))
                r = r + bracket(g) * items[a * C + b]
        return r
    assign(ex, t, Mat(m.rows, m.cols, fn))
    return t


def to_variant(v, types, static=None):
    if static is not None:
        ks = [i for i, t in enumerate(types) if tname(t)[0] == tname(static)[0]]
        if len(ks) == 1:
            alts = [None] * len(types)
            alts[ks[0]] = v
            return VarV(ks[0], alts, types)
    for i, t in enumerate(types):
        k, ta = tname(t)
        ok = False
        if isinstance(v, Struct):
            ok = v.type == k
        elif isinstance(v, Poly):
            ok = k in INT_T or k == "double" or getattr(v, "enum", None) == k
        elif isinstance(v, VecV):
            ok = k == "vector"
        elif isinstance(v, Opaque):
            ok = v.kind == k or v.d.get("type") == k
        if ok:
            alts = [None] * len(types)
            alts[i] = v
            return VarV(i, alts, types)
    raise Unsupported("conversion to variant")


def variant_index(types, t):
    k = tname(t)[0]
    for i, x in enumerate(types):
        if tname(x)[0] == k:
            return i
    raise Unsupported("variant alternative " + t)


def template_args_text(n, fname):
    c = callee_of(n)
    t = node_text(n)
    i = t.find(fname + "<")
    if i < 0:
        return None
    j = i + len(fname) + 1
    d = 1; k = j
    while k < len(t) and d:
        d += t[k] == "<"
        d -= t[k] == ">"
        k += 1
    return t[j:k - 1]


def tuple_of(k, vals):
    return Struct(k, {nm: v for nm, v in zip(("first", "second") if k == "pair" else [str(i) for i in range(len(vals))], vals)})


# ------------------------------------------------------------------ free calls
def free_call(ex, n):
    c = callee_of(n)
    xs = n["inner"][1:]
    if c.get("kind") == "DeclRefExpr":
        rd = c["referencedDecl"]
        if rd.get("kind") in ("VarDecl", "ParmVarDecl"):
            return invoke(ex, ex.ev(c), [ex.ev(x) for x in xs])
        name = rd.get("name", "")
        d = in_repo(ex, rd.get("id"))
        if d is not None:
            c2 = ex.contracts.get((None, name))
            args = ex.make_args(ex.fr.unit, d, xs)
            return call_decl(ex, rd["id"], d, None, args, n)
        return builtin(ex, n, name, xs, rd)
    if c.get("kind") == "MemberExpr":
        return member_call(ex, n)
    return invoke(ex, ex.rv(c), [ex.ev(x) for x in xs])


def builtin(ex, n, name, xs, rd):
    c = ex.contracts.get(("std", name))
    if c is not None:
        return c(ex, n, xs)
    real = [x for x in xs if x.get("kind") != "CXXDefaultArgExpr"]
    if name in ("max", "min") and len(real) == 2:
        a, b = ex.rn(real[0]), ex.rn(real[1])
        return tmax(a, b) if name == "max" else tmin(a, b)
    if name in ("max", "min") and len(real) == 1:
        v = ex.rv(real[0])
        n_ = const_of(v.len) if isinstance(v, VecV) else None
        if n_ is None or n_ < 1:
            raise Unsupported("std::%s of a list of unknown length" % name)
        r = v.fn(num(0))
        for i in range(1, int(n_)):
            r = (tmax if name == "max" else tmin)(r, v.fn(num(i)))
        return r
    if name in ("make_tuple", "make_pair"):
        return tuple_of(name[5:], [ex.rv(x) for x in real])
    if name == "tie":
        return Opaque("tie", refs=[ex.ev(x) for x in real])
    if name == "minmax" and len(real) <= 2:
        if len(real) == 2:
            a, b = [ex.rn(x) for x in real]
        else:
            v = ex.rv(real[0])
            if not isinstance(v, VecV) or const_of(v.len) != 2:
                raise Unsupported("std::minmax of more than two values")
            a, b = v.fn(num(0)), v.fn(num(1))
        return tuple_of("pair", [tmin(a, b), tmax(a, b)])
    if name == "make_optional" and len(real) == 1:
        t = tname(qt(n))[1]
        return OptV(TRUE, ex.rv(real[0]), t[0] if t else None)
    if name == "clamp":
        a, lo, hi = [ex.rn(x) for x in real]
        ex.oblige(le(lo, hi), "std::clamp bounds ordered", ("C22",))
        return ite(lt(a, lo), lo, ite(lt(hi, a), hi, a))
    if name in ("abs", "fabs"):
        v = ex.rv(real[0])
        return mapm(v, tabs) if isinstance(v, Mat) else tabs(v)
    if name == "sqrt":
        v = ex.rn(real[0])
        ex.oblige(le(0, v), "argument of sqrt is not negative", ("C14", "C04"))
        txt = node_text(n)
        return sqrt_term(ex, v)
    if name in ("fmax", "fmin"):
        a, b = ex.rn(real[0]), ex.rn(real[1])
        return tmax(a, b) if name == "fmax" else tmin(a, b)
    if name in ("copysign", "signbit"):
        x = ex.rn(real[-1])
        # the sign of a zero is not determined in the real-number reading of doubles
        neg_ = lt(x, 0) if not ex.branch(eq(x, 0)) else eq(fresh("signed_zero", "Int"), 1)
        return neg_ if name == "signbit" else tabs(ex.rn(real[0])) * (1 - 2 * bracket(neg_))
    if name == "fma":
        a, b, c3 = [ex.rn(x) for x in real]
        return a * b + c3
    if name == "exchange":
        r = ex.ev(real[0]); old = ex.load(r); new = ex.rv(real[1])
        ex.store(r, new)
        return old
    if name == "pow":
        v = ex.rn(real[0]); e = const_of(ex.rn(real[1]))
        if e is None or e.denominator != 1 or e < 0:
            raise Unsupported("pow")
        r = ONE
        for _ in range(int(e)):
            r = r * v
        return r
    if name == "isfinite":
        return bapp("isfinite", (ex.rn(real[0]),))
    if name == "isnan":
        return bapp("isnan", (ex.rn(real[0]),))
    if name == "isinf":
        return bapp("isinf", (ex.rn(real[0]),))
    if name in ("quiet_NaN", "signaling_NaN"):
        return app("NaN", ())
    if name == "infinity":
        return app("Inf", ())
    if name == "epsilon":
        return num(Fraction(1, 2 ** 52))
    if name == "max" and not real:
        t = qt(n)
        return num(2 ** 31 - 1) if t == "int" else app("MaxDouble", ())
    if name == "lowest" or name == "min" and not real:
        return app("LowDouble", ())
    if name in ("move", "forward", "as_const", "addressof", "ref", "cref"):
        r = ex.ev(real[0])
        if name == "addressof":
            return PtrV(r, TRUE)
        return r
    if name == "swap":
        a, b = ex.ev(real[0]), ex.ev(real[1])
        va, vb = ex.load(a), ex.load(b)
        ex.store(a, vb); ex.store(b, va)
        return None
    if name == "holds_alternative":
        v = ex.rv(real[0])
        t = template_args_text(n, name)
        return eq(v.tag, variant_index(v.types, t))
    if name == "get_if":
        p = ex.rv(real[0])
        v = ex.load(p.ref)
        i = variant_index(v.types, template_args_text(n, name))
        if v.alts[i] is None:
            return PtrV(None, FALSE)
        return PtrV(p.ref.add(("a", i)), conj(p.nn, eq(v.tag, i)))
    if name == "get":
        r = ex.ev(real[0])
        v = ex.load(r)
        if isinstance(v, VarV):
            i = variant_index(v.types, template_args_text(n, name))
            if not ex.branch(eq(v.tag, i)):
                raise ThrowExc("bad_variant_access")
            return r.add(("a", i))
        if isinstance(v, Struct) and v.type in ("pair", "tuple"):
            i = template_args_text(n, name)
            if i is not None and i.isdigit() and int(i) < len(v.f):
                nm = list(v.f)[int(i)]
                return r.f(nm) if isinstance(r, Ref) else v.f[nm]
        raise Unsupported("std::get")
    if name == "visit":
        return visit(ex, n, real)
    if name in ("begin", "cbegin"):
        return IterV(ex.ev(real[0]), 0)
    if name in ("rbegin", "crbegin"):
        return RIterV(ex.ev(real[0]), 0)
    if name in ("rend", "crend"):
        r = ex.ev(real[0])
        return RIterV(r, ex.load(r).len)
    if name in ("end", "cend"):
        r = ex.ev(real[0])
        return IterV(r, ex.load(r).len)
    if name in ("next", "prev"):
        it = ex.rv(real[0])
        d = ex.rn(real[1]) if len(real) > 1 else num(1)
        return type(it)(it.ref, it.idx + d if name == "next" else it.idx - d)
    if name == "distance":
        return ex.rv(real[1]).idx - ex.rv(real[0]).idx
    if name == "size":
        return ex.rv(real[0]).len
    if name == "accumulate" or name == "count_if" or name == "any_of" or name == "all_of" or name == "none_of" or name == "for_each" or name == "find_if" or name == "find_if_not" or name in ("transform", "copy_if"):
        return algorithm(ex, n, name, real)
    if name == "back_inserter":
        return Opaque("back_inserter", ref=ex.ev(real[0]))
    if name == "copy_n" or name == "copy":
        a, d = ex.rv(real[0]), ex.rv(real[2])
        cnt = ex.rn(real[1]) if name == "copy_n" else ex.rv(real[1]).idx - a.idx
        if not isinstance(a, IterV) or not isinstance(d, IterV):
            raise Unsupported("std::" + name)
        src, dst = ex.load(a.ref), ex.load(d.ref)
        if not isinstance(src, VecV) or not isinstance(dst, VecV):
            raise Unsupported("std::" + name)
        ex.oblige(conj(le(0, cnt), le(a.idx + cnt, src.len)), "std::%s reads elements that exist" % name, ("C22",))
        ex.oblige(le(d.idx + cnt, dst.len), "std::%s writes elements that exist" % name, ("C22",))
        sf, df, lo, di = src.fn, dst.fn, a.idx, d.idx
        ex.store(d.ref, VecV(dst.len, lambda i: ite(conj(le(di, i), lt(i, di + cnt)), sf(i - di + lo), df(i)), dst.elt))
        return IterV(d.ref, di + cnt)
    if name in ("format", "streamed", "print", "ptr", "runtime", "to_string", "quoted"):
        return Opaque("text")
    if name in ("getpid", "get_id"):
        return app(name, (), "Int")
    if name in ("Zero", "Ones", "Identity", "Constant"):
        a = ints(ex, real)
        t = qt(n)
        k, ta = tname(t)
        cst = {"Zero": ZERO, "Ones": ONE}.get(name)
        if name == "Constant":
            cst = a[-1]; a = a[:-1]
        full = t
        mm = re.search(r"Matrix<double, (-?\d+), (-?\d+)", full)
        fr_, fc_ = (int(mm.group(1)), int(mm.group(2))) if mm else (-1, -1)
        if len(a) == 0:
            rows, cols = dim(fr_), dim(fc_)
        elif len(a) == 1:
            rows, cols = (a[0], num(1)) if fc_ == 1 else (num(1), a[0])
        else:
            rows, cols = a
        if name == "Identity":
            return Mat(rows, cols, lambda i, j: bracket(eq(i, j)))
        return Mat(rows, cols, lambda i, j: cst)
    if name == "__builtin_expect":
        return ex.ev(real[0])
    if name in ("__builtin_unreachable", "abort", "terminate"):
        ex.oblige(FALSE, "unreachable code is not reached", ("C22",))
        raise EndPath()
    if name == "make_unique" or name == "make_shared":
        t = qt(n)
        k, ta = tname(t)
        o = construct_type(ex, ta[0], [ex.ev(x) for x in real], real)
        return PtrV(ex.new(o), TRUE)
    if name == "uncaught_exceptions" and not real:
        return var("uncaught_exceptions", "Int") + ex.unwinding
    if name == "now":
        return Opaque("timepoint", id=ex._uid())
    raise Unsupported("call to " + name)


def visit(ex, n, xs):
    f = ex.rv(xs[0])
    r = ex.ev(xs[1])
    v = ex.load(r)
    if not isinstance(v, VarV) or not isinstance(f, Closure) or not isinstance(r, Ref) or len(xs) != 2:
        raise Unsupported("std::visit")
    for i, t in enumerate(v.types):
        if v.alts[i] is not None and (i == len(v.types) - 1 or ex.branch(eq(v.tag, i))):
            return closure_call(ex, f, [r.add(("a", i))], [t])
    raise Unsupported("std::visit of a valueless variant")


def put_out(ex, d, pos, x):
    """write x through an output iterator; pos: cell with the position of an ordinary iterator"""
    if isinstance(d, Opaque) and d.kind == "back_inserter":
        r = d.d["ref"]
        cur = ex.load(r)
        ln, f = cur.len, cur.fn
        ex.store(r, VecV(ln + 1, lambda i: vite(eq(i, ln), x, f(i)), cur.elt))
        return
    p = ex.load(pos)
    c = ex.load(d.ref)
    if not isinstance(c, VecV):
        raise Unsupported("output iterator into a matrix")
    ex.bounds(p, c.len, "iterator dereference")
    ex.store(d.ref.add(("i", p)), x)
    ex.store(pos, p + 1)


def algorithm_loop(ex, n, name, xs, a, b):
    """a standard algorithm as the loop it stands for"""
    it = ex.new(a.idx, "first")
    cond = lambda: ne(ex.load(it), b.idx)
    inc = lambda: ex.store(it, ex.load(it) + 1)
    elem = lambda: a.ref.add(("i", ex.load(it)))
    ex.oblige(le(a.idx, b.idx), "std::%s over an ordered range" % name, ("C22",))
    if name == "accumulate":
        acc = ex.new(ex.rv(xs[2]), "acc")
        f = ex.ev(xs[3]) if len(xs) > 3 else None
        ex.loop(n, cond, lambda: ex.store(acc, ex.load(elem()) + ex.load(acc) if f is None else ex.load(invoke(ex, f, [ex.load(acc), elem()]))), inc)
        return ex.load(acc)
    if name == "for_each":
        f = ex.ev(xs[2])
        ex.loop(n, cond, lambda: invoke(ex, f, [elem()]), inc)
        return f
    binary = name == "transform" and len(xs) == 5
    second = ex.rv(xs[2]) if binary else None
    d = ex.rv(xs[3 if binary else 2])
    f = ex.ev(xs[-1])
    pos = ex.new(d.idx, "out") if isinstance(d, IterV) else None

    def body():
        if name == "transform":
            args = [elem()] + ([second.ref.add(("i", second.idx + ex.load(it) - a.idx))] if binary else [])
            put_out(ex, d, pos, ex.load(invoke(ex, f, args)))
        elif ex.branch(ex.load(invoke(ex, f, [elem()]))):
            put_out(ex, d, pos, ex.load(elem()))
    ex.loop(n, cond, body, inc)
    return IterV(d.ref, ex.load(pos)) if pos is not None else d


def algorithm(ex, n, name, xs):
    """generic algorithms on iterator ranges"""
    a, b = ex.rv(xs[0]), ex.rv(xs[1])
    if not (isinstance(a, IterV) and isinstance(b, IterV)) or not isinstance(ex.load(a.ref), VecV):
        raise Unsupported("std::" + name)
    if name in ("for_each", "transform", "copy_if"):
        return algorithm_loop(ex, n, name, xs, a, b)
    k = fresh("a")
    if name == "accumulate":
        init = ex.rv(xs[2])
        if len(xs) > 3:
            f = ex.ev(xs[3])
        else:
            f = None
        acc = fresh("acc", "Int" if is_int(init) else "Real")
        g = conj(le(a.idx, k), lt(k, b.idx))
        elem = a.ref.add(("i", k))

        def one():
            if f is None:
                return ex.load(elem) + acc
            return ex.load(invoke(ex, f, [acc, elem]))
        post = merge_paths(ex, one, g)
        d = post - acc
        if atom_of(acc) in fv(d):
            return algorithm_loop(ex, n, name, xs, a, b)
        return init + mk_sum(k, a.idx, b.idx, d)
    f = ex.ev(xs[2])
    if name in ("find_if", "find_if_not"):
        lo, hi = const_of(a.idx), const_of(b.idx)
        if lo is None or hi is None:
            raise Unsupported("std::find_if over a range of unknown length")
        for i in range(int(lo), int(hi)):
            r = ex.load(invoke(ex, f, [a.ref.add(("i", num(i)))]))
            if ex.branch(r) == (name == "find_if"):
                return IterV(a.ref, num(i))
        return b
    g = conj(le(a.idx, k), lt(k, b.idx))
    elem = a.ref.add(("i", k))
    post = merge_paths(ex, lambda: ex.load(invoke(ex, f, [elem])), g)
    if name == "count_if":
        return mk_sum(k, a.idx, b.idx, bracket(post))
    if isinstance(post, Poly):
        post = ne(post, 0)
    if name == "all_of":
        return forall([k], implies(g, post))
    if name == "none_of":
        return forall([k], implies(g, neg(post)))
    if name == "any_of":
        return neg(forall([k], implies(g, neg(post))))
    raise Unsupported("std::" + name)


def merge_paths(ex, thunk, guard):
    """evaluate a side-effect free callable on all paths and merge"""
    c0 = ex.ctx
    ex.ctx = c0.extend([guard])
    h0 = ex.heap
    try:
        outs = ex.explore(thunk)
    finally:
        ex.ctx = c0
    res = None
    for o in reversed(outs):
        if o.kind in ("end",):
            continue
        if o.kind not in ("normal", "return"):
            raise Unsupported("callable with side exit")
        for ob, v in h0.items():
            if o.heap.get(ob) is not v:
                raise Unsupported("callable with side effects")
        v = o.val
        res = v if res is None else vite(conj(*o.conds), v, res)
    return res


# ------------------------------------------------------------------ construction
def construct(ex, n):
    t = qt(n)
    xs = [x for x in n.get("inner", ()) if x.get("kind")]
    k, ta = tname(t)
    real = [x for x in xs if x.get("kind") != "CXXDefaultArgExpr"]
    if len(real) == 1 and tname(qt(real[0]))[0] == k and k not in ("vector",):
        if k in ("Block", "VectorBlock", "Map"):
            # copying a block copies the reference, not the values
            r = ex.ev(real[0])
            if isinstance(r, Ref) and isinstance(ex.heap.get(r.obj), View) and not r.path:
                r = ex.heap[r.obj]
            if isinstance(r, View):
                return r
        v = ex.rv(real[0])
        return plain(v) if isinstance(v, Mat) else v
    return construct_type(ex, t, None, xs, n)


def bare_type(t):
    return re.sub(r"\bconst\b|&|\s|mini_opt::|std::", "", t)


def construct_type(ex, t, args, xs, n=None):
    k, ta = tname(t)
    real = [x for x in xs if x.get("kind") != "CXXDefaultArgExpr"]

    def val(i):
        return ex.load(args[i]) if args is not None else ex.rv(real[i])
    if k in ("double", "bool") or k in INT_T or k in ex.enums:
        return ex.coerce(val(0), t) if real else ex.zero(t)
    if k == "Matrix" or k == "Array":
        fixed = int(ta[1]) >= 0 and int(ta[2]) >= 0
        if not real:
            m = ex.default(t)
            if fixed:
                m.meta["fixed"] = True
            return m
        vals = [val(i) for i in range(len(real))]
        if all(isinstance(v, Poly) for v in vals):
            R, C = int(ta[1]), int(ta[2])
            if fixed and not all(qt_int(real[i]) for i in range(len(real))):
                m = Mat(R, C, ex._listfn2(vals, R, C) if hasattr(ex, "_listfn2") else listfn(vals, R, C), meta={"fixed": True})
                return m
            if fixed:
                return Mat(dim(R), dim(C), listfn(vals, R, C), meta={"fixed": True}) if len(vals) == R * C else ex.default(t)
            nm = "uninit%d" % ex._uid()
            if len(vals) == 1 and (C == 1 or R == 1):
                rows, cols = (vals[0], num(1)) if C == 1 else (num(1), vals[0])
            elif len(vals) == 2:
                rows, cols = vals
            else:
                raise Unsupported("matrix constructor")
            ex.oblige(conj(le(0, rows), le(0, cols)), "sizes are not negative in a matrix constructor", ("C22",))
            vec = const_of(cols) == 1
            return Mat(rows, cols, lambda i, j: app(nm, (i,) if vec else (i, j)))
        if len(vals) == 1 and isinstance(vals[0], Mat):
            m = plain(vals[0])
            if int(ta[2]) == 1 and const_of(m.cols) != 1:
                ex.oblige(eq(m.cols, 1), "sizes agree: vector from matrix", ("C22",))
                m = Mat(m.rows, 1, m.fn)
            if fixed:
                dst = Mat(dim(ta[1]), dim(ta[2]), m.fn)
                same_dims(ex, dst, m, "fixed-size matrix construction")
                m = Mat(dst.rows, dst.cols, m.fn, meta={"fixed": True}, tok=m.tok)
            return m
        c = ex.contracts.get(("construct", k))
        if c is not None:
            return c(ex, t, vals, n)
        raise Unsupported("matrix constructor from " + ",".join(type(v).__name__ for v in vals))
    if k in ("Ref", "Block", "VectorBlock", "Map"):
        if len(real) == 1:
            return args[0] if args is not None else ex.ev(real[0])
    if k in ("vector", "deque"):
        if not real:
            return VecV(0, ex.default(t).fn, ta[0])
        vals = [val(i) for i in range(len(real))]
        if len(vals) == 1 and isinstance(vals[0], VecV):
            return VecV(vals[0].len, vals[0].fn, ta[0])
        if isinstance(vals[0], Poly):
            z = vals[1] if len(vals) > 1 else ex.zero(ta[0])
            return VecV(vals[0], lambda i: z, ta[0])
        if len(vals) >= 2 and isinstance(vals[0], IterV):
            a, b = vals[:2]
            c = ex.load(a.ref)
            return VecV(b.idx - a.idx, lambda i: c.fn(i + a.idx), ta[0])
        raise Unsupported("vector constructor")
    if k in ("initializer_list", "array"):
        return val(0)
    if k == "optional":
        if not real:
            return OptV(FALSE, None, ta[0])
        v = val(0)
        if isinstance(v, OptV):
            return v
        if isinstance(v, Opaque) and v.kind == "nullopt":
            return OptV(FALSE, None, ta[0])
        return OptV(TRUE, v, ta[0])
    if k in ("pair", "tuple") and not (len(real) == 2 and any("json" in x for x in ta)):
        if not real:
            return ex.default(t)
        vals = [val(i) for i in range(len(real))]
        if len(vals) == 1 and isinstance(vals[0], Struct) and vals[0].type in ("pair", "tuple"):
            vals = list(vals[0].f.values())
        if len(vals) != len(ta):
            raise Unsupported("%s constructor" % k)
        return tuple_of(k, [ex.coerce(v, x) for v, x in zip(vals, ta)])
    if k == "nullopt_t":
        return Opaque("nullopt")
    if k == "variant":
        if not real:
            return ex.default(t)
        v = val(0)
        if isinstance(v, VarV):
            return v
        kk = tname(qt(real[0]))[0]
        for i, x in enumerate(ta):
            if tname(x)[0] == kk:
                alts = [None] * len(ta); alts[i] = v
                return VarV(i, alts, ta)
        return to_variant(v, ta)
    if k in ("basic_string", "string", "basic_string_view", "string_view"):
        return val(0) if real else Opaque("str", v="")
    if k in ("unique_ptr", "shared_ptr"):
        return val(0) if real else PtrV(None, FALSE)
    if k == "function":
        v = val(0) if real else Opaque("function", name="empty", nn=FALSE)
        return v
    if k == "__normal_iterator" or k.startswith("_Deque_iterator"):
        return val(0)
    c = ex.contracts.get(("construct", k))
    if c is not None:
        if getattr(c, "raw", False):
            return c(ex, t, None, n)
        return c(ex, t, [val(i) for i in range(len(real))], n)
    if k == "scoped_trace" and not ex.trace_scopes:
        return Opaque("scoped_trace")        # tracing has no effect on the solvers; its own contracts are those of C21
    u, rec = ex.record(k)
    if ta:
        u2, r2 = ex.specialization(k, ta)
        if r2 is not None:
            u, rec = u2, r2
    if rec is not None:
        ctors = [m for m in rec.get("inner", ()) if m.get("kind") == "CXXConstructorDecl"]
        want = (n or {}).get("ctorType", {}).get("qualType")
        cand = [m for m in ctors if want is not None and (m.get("type") or {}).get("qualType") == want]
        for tpl in rec.get("inner", ()):
            if tpl.get("kind") == "FunctionTemplateDecl":
                for m in tpl.get("inner", ()):
                    if m.get("kind") == "CXXConstructorDecl" and want is not None and (m.get("type") or {}).get("qualType") == want:
                        cand.append(m)
        if not cand and n is None:
            cand = [m for m in ctors if len(u.params(m)) == len(xs) and not m.get("isImplicit")]
            for tpl in rec.get("inner", ()):
                if tpl.get("kind") == "FunctionTemplateDecl":
                    # an instantiated constructor template whose parameters have exactly the types of the arguments
                    for m in tpl.get("inner", ()):
                        if m.get("kind") == "CXXConstructorDecl" and m.get("mangledName") and len(u.params(m)) == len(xs):
                            if all(bare_type(qt(p)) == bare_type(qt(x)) and ("const" in qt(p)) == ("const" in qt(x)) for p, x in zip(u.params(m), xs)):
                                cand.append(m)
            if len(cand) > 1:
                raise Unsupported("ambiguous constructor of " + k)
        cand = [m for m in cand if not m.get("isImplicit") and not m.get("explicitlyDefaulted")]
        if cand:
            d = cand[0]
            u2, df = ex.lookup_def(u, d["id"])
            if df is None:
                raise Unsupported("constructor of %s has no definition" % k)
            if args is None:
                args = ex.make_args(u2, df, xs)
            this = ex.new(Struct(k, {f["name"]: None for f in ex.fields(rec)}), "obj_" + k)
            ex.call_fn(u2, df, this, args)
            return ex.load(this)
        if not real:
            return ex.default_construct(t)
        if len(real) == 1:
            v = val(0)
            if isinstance(v, Struct) and v.type == k:
                return v
    if len(real) == 1:
        v = val(0)
        return v
    if not real and k in ("IOFormat", "allocator"):
        return Opaque("text")
    if k in ("IOFormat", "runtime_error", "ConstraintViolation"):
        return Opaque("text")
    raise Unsupported("construction of " + t)


def qt_int(x):
    return tname(qt(x))[0] in INT_T


def listfn(vals, R, C):
    def fn(i, j):
        ci, cj = const_of(P(i)), const_of(P(j))
        if ci is not None and cj is not None:
            return vals[int(ci) * C + int(cj)]
        r = ZERO
        for a in range(R):
            for b in range(C):
                g = eq(i, a) if C == 1 else conj(eq(i, a), eq(j, b))
                r = r + bracket(g) * vals[a * C + b]
        return r
    return fn


def perm_product(ex, a, b):
    """P*M or M*P for a permutation named p(i): (P*v)(p(i)) = v(i); P^T*v (i) = v(p(i))"""
    if isinstance(a, Opaque) and a.kind == "perm" and isinstance(b, Mat):
        ex.oblige(eq(a.d["n"], b.rows), "sizes agree: permutation product", ("C22",))
        nm = a.d["name"] + ("^-1" if not a.d["inv"] else "")
        return Mat(b.rows, b.cols, lambda i, j: b.fn(app(nm, (i,), "Int"), j))
    raise Unsupported("permutation product")
