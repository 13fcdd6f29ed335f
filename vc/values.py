"""Value domain of the symbolic executor. All values are immutable; heaps map object ids to values."""
from terms import *
import terms as T


class Unsupported(Exception):
    """construct outside the verifier's reach"""


def memo2(fn):
    """element function with its results cached by index terms"""
    if getattr(fn, "memo", False):
        return fn
    cache = {}

    def g(i, j):
        k = (i, j)
        r = cache.get(k)
        if r is None:
            r = fn(i, j)
            cache[k] = r
        return r
    g.memo = True
    return g


class Mat:
    """matrix/vector value: rows, cols Polys; fn(i,j)->Poly (or B for boolean arrays)"""
    __slots__ = ("rows", "cols", "fn", "tok", "meta", "isbool")

    def __init__(self, rows, cols, fn, tok=None, meta=None, isbool=False):
        self.rows = P(rows); self.cols = P(cols); self.fn = memo2(fn); self.tok = tok
        self.meta = meta or {}; self.isbool = isbool

    def at(self, i, j=0):
        return self.fn(P(i), P(j))

    @property
    def isvec(self):
        return const_of(self.cols) == 1


class VecV:
    __slots__ = ("len", "fn", "elt")

    def __init__(self, n, fn, elt=None):
        self.len = P(n); self.fn = fn; self.elt = elt


class Struct:
    __slots__ = ("type", "f")

    def __init__(self, type, f):
        self.type = type; self.f = f

    def with_(self, k, v):
        g = dict(self.f); g[k] = v
        return Struct(self.type, g)


class OptV:
    __slots__ = ("has", "val", "elt")

    def __init__(self, has, val, elt=None):
        self.has = has; self.val = val; self.elt = elt


class VarV:
    """std::variant"""
    __slots__ = ("tag", "alts", "types")

    def __init__(self, tag, alts, types):
        self.tag = P(tag); self.alts = tuple(alts); self.types = tuple(types)


class PtrV:
    __slots__ = ("ref", "nn")

    def __init__(self, ref, nn=TRUE):
        self.ref = ref; self.nn = nn


class IterV:
    __slots__ = ("ref", "idx")

    def __init__(self, ref, idx):
        self.ref = ref; self.idx = P(idx)


class RIterV:
    """std::reverse_iterator: idx elements from the end"""
    __slots__ = ("ref", "idx")

    def __init__(self, ref, idx):
        self.ref = ref; self.idx = P(idx)


ITERS = (IterV, RIterV)


class Opaque:
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind = kind; self.d = d

    def __repr__(self):
        return "Opaque(%s)" % self.kind


class Closure:
    __slots__ = ("node", "frame", "env")

    def __init__(self, node, frame, env):
        self.node = node; self.frame = frame; self.env = env


class FuncV:
    __slots__ = ("decl", "obj")

    def __init__(self, decl, obj=None):
        self.decl = decl; self.obj = obj


class Lazy:
    """lazily evaluated Eigen expression bound to `auto`"""
    __slots__ = ("thunk",)

    def __init__(self, thunk):
        self.thunk = thunk


class Ref:
    """lvalue: object id + path"""
    __slots__ = ("obj", "path")

    def __init__(self, obj, path=()):
        self.obj = obj; self.path = tuple(path)

    def f(self, name):
        return Ref(self.obj, self.path + (("f", name),))

    def add(self, step):
        return Ref(self.obj, self.path + (step,))

    def __repr__(self):
        return "Ref(%s,%s)" % (self.obj, self.path)


class View:
    """lvalue view on a matrix location: fwd maps view index to base index, inv the other way with a guard"""
    __slots__ = ("ref", "rows", "cols", "fwd", "inv", "tri", "noalias", "kind")

    def __init__(self, ref, rows, cols, fwd, inv, tri=None, noalias=False, kind="block"):
        self.ref = ref; self.rows = P(rows); self.cols = P(cols); self.fwd = fwd; self.inv = inv
        self.tri = tri; self.noalias = noalias; self.kind = kind

    def copy(self, **kw):
        d = dict(ref=self.ref, rows=self.rows, cols=self.cols, fwd=self.fwd, inv=self.inv, tri=self.tri,
                 noalias=self.noalias, kind=self.kind)
        d.update(kw)
        return View(**d)


class NullV:
    pass


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return disj(conj(c, a), conj(neg(c), b))


def vite(c, a, b):
    """value-level if-then-else"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        if a.isbool != b.isbool:
            raise Unsupported("merge of boolean and numeric arrays")
        m = bite if a.isbool else ite
        return Mat(ite(c, a.rows, b.rows), ite(c, a.cols, b.cols), lambda i, j: m(c, a.fn(i, j), b.fn(i, j)), isbool=a.isbool)
    if isinstance(a, VecV) and isinstance(b, VecV):
        return VecV(ite(c, a.len, b.len), lambda i: vite(c, a.fn(i), b.fn(i)), a.elt or b.elt)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.f.keys() == b.f.keys():
        return Struct(a.type, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, OptV) and isinstance(b, OptV):
        if a.val is None:
            return OptV(bite(c, a.has, b.has), b.val, b.elt)
        if b.val is None:
            return OptV(bite(c, a.has, b.has), a.val, a.elt)
        return OptV(bite(c, a.has, b.has), vite(c, a.val, b.val), a.elt)
    if isinstance(a, VarV) and isinstance(b, VarV):
        alts = []
        for x, y in zip(a.alts, b.alts):
            alts.append(y if x is None else x if y is None else vite(c, x, y))
        return VarV(ite(c, a.tag, b.tag), alts, a.types)
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.ref is None or b.ref is None or (a.ref.obj == b.ref.obj and a.ref.path == b.ref.path):
            return PtrV(a.ref or b.ref, bite(c, a.nn, b.nn))
    if isinstance(a, ITERS) and type(a) is type(b) and a.ref.obj == b.ref.obj and a.ref.path == b.ref.path:
        return type(a)(a.ref, ite(c, a.idx, b.idx))
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind and a.d == b.d:
        return a
    raise Unsupported("merge of values %s / %s" % (type(a).__name__, type(b).__name__))


# ------------------------------------------------------------------ leaves
def map_leaves(v, fp, fb, idx=()):
    """rebuild v applying fp(leafpoly, path, idx) / fb(leafbool, ...) to all leaves; functions stay lazy"""
    return _ml(v, fp, fb, (), tuple(idx))


def _ml(v, fp, fb, path, idx):
    if isinstance(v, Poly):
        return fp(v, path, idx)
    if isinstance(v, B):
        return fb(v, path, idx)
    if isinstance(v, Mat):
        r = fp(v.rows, path + ("#rows",), idx)
        c = fp(v.cols, path + ("#cols",), idx) if not v.isvec else v.cols
        vec = v.isvec
        g = fb if v.isbool else fp
        return Mat(r, c, lambda i, j: g(v.fn(i, j), path + ("#el",), idx + ((i,) if vec else (i, j))), isbool=v.isbool)
    if isinstance(v, VecV):
        n = fp(v.len, path + ("#len",), idx)
        return VecV(n, lambda i: _ml(v.fn(i), fp, fb, path + ("[]",), idx + (i,)), v.elt)
    if isinstance(v, Struct):
        return Struct(v.type, {k: _ml(x, fp, fb, path + (k,), idx) for k, x in v.f.items()})
    if isinstance(v, OptV):
        return OptV(fb(v.has, path + ("#has",), idx), None if v.val is None else _ml(v.val, fp, fb, path + ("*",), idx), v.elt)
    if isinstance(v, VarV):
        return VarV(fp(v.tag, path + ("#tag",), idx),
                    [None if a is None else _ml(a, fp, fb, path + ("<%d>" % n,), idx) for n, a in enumerate(v.alts)], v.types)
    if isinstance(v, PtrV):
        return PtrV(v.ref, fb(v.nn, path + ("#nn",), idx))
    if isinstance(v, ITERS):
        return type(v)(v.ref, fp(v.idx, path + ("#it",), idx))
    return v


def subst_value(v, m):
    return map_leaves(v, lambda p, *_: subst(p, m), lambda b, *_: bsubst(b, m))


def scalar_leaves(v, path=()):
    """(path, leaf) for index-free leaves"""
    if isinstance(v, (Poly, B)):
        yield path, v
    elif isinstance(v, Mat):
        yield path + ("#rows",), v.rows
        if not v.isvec:
            yield path + ("#cols",), v.cols
    elif isinstance(v, VecV):
        yield path + ("#len",), v.len
    elif isinstance(v, Struct):
        for k, x in v.f.items():
            yield from scalar_leaves(x, path + (k,))
    elif isinstance(v, OptV):
        yield path + ("#has",), v.has
        if v.val is not None:
            yield from scalar_leaves(v.val, path + ("*",))
    elif isinstance(v, VarV):
        yield path + ("#tag",), v.tag
        for n, a in enumerate(v.alts):
            if a is not None:
                yield from scalar_leaves(a, path + ("<%d>" % n,))
    elif isinstance(v, PtrV):
        yield path + ("#nn",), v.nn
    elif isinstance(v, ITERS):
        yield path + ("#it",), v.idx


def indexed_leaves(v, path=(), idx=()):
    """(path, idx vars, guard facts, leaf) for leaves below matrices / vectors, at fresh generic indices"""
    if isinstance(v, (Poly, B)):
        if idx:
            yield path, idx, v
    elif isinstance(v, Mat):
        i = fresh("i"); j = num(0) if v.isvec else fresh("j")
        yield path + ("#el",), idx + ((i,) if v.isvec else (i, j)), v.fn(i, j)
        if idx:
            yield path + ("#rows",), idx, v.rows
            if not v.isvec:
                yield path + ("#cols",), idx, v.cols
    elif isinstance(v, VecV):
        if idx:
            yield path + ("#len",), idx, v.len
        i = fresh("e")
        yield from indexed_leaves(v.fn(i), path + ("[]",), idx + (i,))
    elif isinstance(v, Struct):
        for k, x in v.f.items():
            yield from indexed_leaves(x, path + (k,), idx)
    elif isinstance(v, OptV):
        if idx:
            yield path + ("#has",), idx, v.has
        if v.val is not None:
            yield from indexed_leaves(v.val, path + ("*",), idx)
    elif isinstance(v, VarV):
        if idx:
            yield path + ("#tag",), idx, v.tag
        for n, a in enumerate(v.alts):
            if a is not None:
                yield from indexed_leaves(a, path + ("<%d>" % n,), idx)
    elif isinstance(v, (PtrV, IterV, RIterV)) and idx:
        raise Unsupported("pointer inside a container in a loop")


def get_leaf(v, path, idx=()):
    """leaf of v at path with indices"""
    idx = list(idx)
    for s in path:
        if s == "#rows":
            return v.rows
        if s == "#cols":
            return v.cols
        if s == "#len":
            return v.len
        if s == "#has":
            return v.has
        if s == "#tag":
            return v.tag
        if s == "#nn":
            return v.nn
        if s == "#it":
            return v.idx
        if s == "#el":
            i = idx.pop(0)
            j = num(0) if v.isvec else idx.pop(0)
            return v.fn(i, j)
        if s == "[]":
            v = v.fn(idx.pop(0))
        elif s == "*":
            v = v.val
        elif s[0] == "<" and isinstance(v, VarV):
            v = v.alts[int(s[1:-1])]
        else:
            v = v.f[s]
    return v


def value_eq(a, b):
    """list of (path, B) equalities that make the two values equal"""
    out = []

    def go(x, y, path, vs, guards):
        def emit(q, what):
            g = implies(conj(*guards), q) if guards else q
            out.append((".".join(path) + what, forall(vs, g) if vs else g))
        if isinstance(x, Poly) and isinstance(y, Poly):
            emit(eq(x, y), "")
        elif isinstance(x, B) and isinstance(y, B):
            emit(iff(x, y), "")
        elif isinstance(x, Mat) and isinstance(y, Mat):
            emit(eq(x.rows, y.rows), "#rows")
            if not (x.isvec and y.isvec):
                emit(eq(x.cols, y.cols), "#cols")
            i = fresh("i"); vec = x.isvec and y.isvec
            j = num(0) if vec else fresh("j")
            gs = guards + [le(0, i), lt(i, y.rows)] + ([] if vec else [le(0, j), lt(j, y.cols)])
            nv = vs + [i] + ([] if vec else [j])
            go(x.fn(i, j), y.fn(i, j), path + ["()"], nv, gs)
        elif isinstance(x, VecV) and isinstance(y, VecV):
            emit(eq(x.len, y.len), "#len")
            i = fresh("e")
            go(x.fn(i), y.fn(i), path + ["[]"], vs + [i], guards + [le(0, i), lt(i, y.len)])
        elif isinstance(x, Struct) and isinstance(y, Struct):
            for k in y.f:
                go(x.f[k], y.f[k], path + [k], vs, guards)
        elif isinstance(x, OptV) and isinstance(y, OptV):
            emit(iff(x.has, y.has), "#has")
            if x.val is not None and y.val is not None:
                go(x.val, y.val, path + ["*"], vs, guards + [y.has])
            elif y.val is not None or x.val is not None:
                emit(neg(y.has), "#empty")
        elif isinstance(x, VarV) and isinstance(y, VarV):
            emit(eq(x.tag, y.tag), "#tag")
            for n, (p, q) in enumerate(zip(x.alts, y.alts)):
                if p is not None and q is not None:
                    go(p, q, path + ["<%d>" % n], vs, guards + [eq(y.tag, n)])
                elif p is not None or q is not None:
                    emit(ne(y.tag, n), "#alt%d" % n)
        elif isinstance(x, PtrV) and isinstance(y, PtrV):
            emit(iff(x.nn, y.nn), "#nn")
            same = x.ref is None or y.ref is None or (x.ref.obj == y.ref.obj and x.ref.path == y.ref.path)
            if not same:
                out.append((".".join(path) + "#target", FALSE))
        elif isinstance(x, ITERS) and type(x) is type(y):
            emit(eq(x.idx, y.idx), "#it")
        elif x is y:
            pass
        elif isinstance(x, Opaque) and isinstance(y, Opaque) and x.kind == y.kind and x.d == y.d:
            pass
        else:
            out.append((".".join(path) + "#kind", FALSE))
    go(a, b, [], [], [])
    return out
