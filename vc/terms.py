"""Term language of the verifier: hash-consed polynomials over atoms, Iverson brackets and finite sums.

Every arithmetic value is a `Poly`: a sum of rational coefficients times monomials over `Atom`s.
Atoms:   var, app (uninterpreted/spec function application), inv (1/p), br (Iverson bracket of a Bool),
         sum (finite sum over integer binders of a product of atoms).
Bools `B`: true false le(p: p<=0) eq(p: p==0) bapp not and or forall exists.
All constructors normalise; two terms that normalise to the same object are equal for every valuation.
"""
from fractions import Fraction
import itertools

_table = {}
_next = [0]


class Node:
    __slots__ = ("k", "a", "sort", "id", "_fv", "_lvl", "_isint")

    def __repr__(self):
        return show(self)


class Atom(Node):
    __slots__ = ()


class Poly(Node):
    __slots__ = ()

    def __add__(self, o): return add(self, P(o))
    __radd__ = __add__

    def __sub__(self, o): return add(self, scale(P(o), -1))
    def __rsub__(self, o): return add(P(o), scale(self, -1))
    def __neg__(self): return scale(self, -1)
    def __mul__(self, o): return mul(self, P(o))
    __rmul__ = __mul__

    def __truediv__(self, o): return mul(self, inv(P(o)))
    def __rtruediv__(self, o): return mul(P(o), inv(self))


class B(Node):
    __slots__ = ()


def _intern(cls, k, a, sort=None):
    key = (cls, k, a, sort)
    n = _table.get(key)
    if n is None:
        n = cls.__new__(cls)
        n.k = k
        n.a = a
        n.sort = sort
        n.id = _next[0]
        _next[0] += 1
        n._fv = None
        n._lvl = None
        n._isint = None
        _table[key] = n
    return n


class NormalFormLimit(Exception):
    pass


MAX_MONOS = 4000


_mkeys = {}


def _monokey(t):
    m = t[0]
    k = _mkeys.get(m)
    if k is None:
        k = tuple((x.id, e) for x, e in m)
        _mkeys[m] = k
    return k


def _poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) > MAX_MONOS:
        raise NormalFormLimit("normal form too large")
    if len(items) > 1:
        items.sort(key=_monokey)
    return _intern(Poly, "poly", tuple(items))


def num(x):
    return _poly({(): Fraction(x)})


ZERO = num(0)
ONE = num(1)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return _poly({((x, 1),): Fraction(1)})
    if isinstance(x, bool):
        raise TypeError("bool used as number")
    if isinstance(x, (int, Fraction)):
        return num(x)
    if isinstance(x, float):
        return num(Fraction(x))
    if isinstance(x, B):
        return bracket(x)
    raise TypeError("not a term: %r" % (x,))


def var(name, sort="Real"):
    return P(_intern(Atom, "var", (name,), sort))


_fresh = [0]


def fresh(base, sort="Int"):
    _fresh[0] += 1
    return var("%s!%d" % (base, _fresh[0]), sort)


SYMMETRIC = set()        # spec functions f with f(a,b) = f(b,a): arguments are kept sorted


def app(f, args, sort="Real"):
    if f in SYMMETRIC:
        args = sorted([P(a) for a in args], key=lambda t: t.id)
    h = APP_SIMP.get(f)
    if h is not None:
        r = h(*[P(a) for a in args])
        if r is not None:
            return r
    args = [P(a) for a in args]
    # an integer argument chosen by a condition: f(c ? p : q) = [c] f(p) + [not c] f(q)
    ks = {x for a in args for m, _ in a.a for x, _ in m if x.k == "br" and is_int(a)}
    if ks and len(ks) <= 3:
        k = min(ks, key=lambda x: x.id)
        both = [_split(a, k) if is_int(a) else (a, a) for a in args]
        yes = app(f, [p for p, _ in both], sort)
        no = app(f, [q for _, q in both], sort)
        return add(mul(P(k), add(yes, scale(no, -1))), no)
    return P(_intern(Atom, "app", (f,) + tuple(args), sort))


def _split(p, k):
    """p with the bracket atom k replaced by 1 and by 0"""
    yes, no = ZERO, ZERO
    for m, c in p.a:
        t = _poly({tuple(q for q in m if q[0] is not k): c})
        yes = add(yes, t)
        if all(q[0] is not k for q in m):
            no = add(no, t)
    return yes, no


APP_SIMP = {}


def const_of(p):
    """Fraction if p is constant else None"""
    if not p.a:
        return Fraction(0)
    if len(p.a) == 1 and p.a[0][0] == ():
        return p.a[0][1]
    return None


def atom_of(p):
    if len(p.a) == 1 and p.a[0][1] == 1 and len(p.a[0][0]) == 1 and p.a[0][0][0][1] == 1:
        return p.a[0][0][0][0]
    return None


def add(p, q):
    if not p.a:
        return q
    if not q.a:
        return p
    d = dict(p.a)
    for m, c in q.a:
        d[m] = d.get(m, 0) + c
    return _poly(d)


def scale(p, c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return _intern(Poly, "poly", tuple((m, x * c) for m, x in p.a))


_mulcache = {}


def mul(p, q):
    if not p.a or not q.a:
        return ZERO
    cp = const_of(p)
    if cp is not None:
        return scale(q, cp)
    cq = const_of(q)
    if cq is not None:
        return scale(p, cq)
    key = (p.id, q.id) if p.id < q.id else (q.id, p.id)
    r = _mulcache.get(key)
    if r is not None:
        return r
    d = {}
    for m1, c1 in p.a:
        for m2, c2 in q.a:
            for m, c in _mono_mul(m1, m2).a:
                d[m] = d.get(m, 0) + c * c1 * c2
    r = _poly(d)
    _mulcache[key] = r
    return r


_mmcache = {}


def _mono_mul(m1, m2):
    key = (m1, m2)
    r = _mmcache.get(key)
    if r is not None:
        return r
    d = {}
    for x, e in m1:
        d[x] = e
    for x, e in m2:
        if x.k == "br":
            d[x] = 1
        else:
            d[x] = d.get(x, 0) + e
    r = _norm_mono(d)
    _mmcache[key] = r
    return r


def _eq_elim(b):
    """For an eq bool over ints with a variable of coefficient +-1: (var atom, replacement poly)"""
    p = b.a[0]
    best = None
    for m, c in p.a:
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].k == "var" and m[0][0].sort == "Int":
            x = m[0][0]
            # x must not occur elsewhere in p
            if best is None or x.id > best[0].id:
                rest = add(p, scale(P(x), -c))
                if x not in fv(rest):
                    best = (x, scale(rest, -1 / c))
    return best


def _norm_mono(d):
    """d: atom->exp; apply equality-bracket substitution; returns Poly"""
    eqs = [x for x in d if x.k == "br" and x.a[0].k == "eq" and bool_is_int(x.a[0])]
    for q in sorted(eqs, key=lambda x: x.id):
        el = _eq_elim(q.a[0])
        if el is None:
            continue
        x, rep = el
        hit = [y for y in d if y is not q and x in fv(y)]
        if hit:
            rest = {y: e for y, e in d.items() if y not in hit}
            r = _poly({tuple(sorted(rest.items(), key=lambda t: t[0].id)): Fraction(1)}) if rest else ONE
            for y in hit:
                s = subst(P(y), {x: rep})
                for _ in range(d[y]):
                    r = mul(r, s)
            return r
    return _poly({tuple(sorted(d.items(), key=lambda t: t[0].id)): Fraction(1)})


def inv(p):
    c = const_of(p)
    if c is not None:
        if c == 0:
            return app("div0", ())  # unspecified
        return num(1 / c)
    if len(p.a) == 1:
        m, c = p.a[0]
        # brackets inside an inverse would be division by zero: keep opaque
        if not any(x.k == "br" for x, _ in m):
            r = num(1 / c)
            for x, e in m:
                for _ in range(e):
                    r = mul(r, x.a[0] if x.k == "inv" else P(_intern(Atom, "inv", (P(x),), "Real")))
            return r
    # 1/([c]*a + (1-[c])*b): split on a bracket
    lead = p.a[0][1]
    return scale(P(_intern(Atom, "inv", (scale(p, 1 / lead),), "Real")), 1 / lead)


# ---------------------------------------------------------------- sorts
def atom_isint(x):
    if x.k in ("var", "app"):
        return x.sort == "Int"
    if x.k == "br":
        return True
    if x.k == "inv":
        return False
    if x.k == "sum":
        return all(atom_isint(y) for y, _ in x.a[1])
    return False


def is_int(p):
    if p._isint is None:
        p._isint = all(c.denominator == 1 and all(atom_isint(x) for x, _ in m) for m, c in p.a)
    return p._isint


def bool_is_int(b):
    return is_int(b.a[0])


# ---------------------------------------------------------------- booleans
TRUE = _intern(B, "true", ())
FALSE = _intern(B, "false", ())


def _lead_sign(p):
    for m, c in p.a:
        if m != ():
            return 1 if c > 0 else -1
    return 1


def le0(p):
    """p <= 0"""
    c = const_of(p)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if is_int(p):
        # divide by gcd of the non-constant coefficients
        from math import gcd, floor
        g = 0
        k = Fraction(0)
        for m, co in p.a:
            if m == ():
                k = co
            else:
                g = gcd(g, abs(int(co)))
        if g > 1:
            rest = add(p, num(-k))
            p = add(scale(rest, Fraction(1, g)), num(-floor(-k / g)))  # rest/g <= floor(-k/g)
        if _lead_sign(p) < 0:
            return neg(_intern(B, "le", (add(ONE, scale(p, -1)),)))
        return _intern(B, "le", (p,))
    # positive scaling
    for m, co in p.a:
        if m != ():
            p = scale(p, 1 / abs(co))
            break
    return _intern(B, "le", (p,))


def le(a, b): return le0(P(a) - P(b))
def lt(a, b): return neg(le0(P(b) - P(a)))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    if isinstance(a, B) or isinstance(b, B):
        return iff(a, b)
    p = P(a) - P(b)
    c = const_of(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    for m, co in p.a:
        if m != ():
            p = scale(p, 1 / co)
            break
    if all(all(atom_isint(x) for x, _ in m) for m, _ in p.a) and not is_int(p):
        # scaled to fractions: scale back to integers
        from math import lcm
        L = 1
        for _, co in p.a:
            L = lcm(L, co.denominator)
        p = scale(p, L)
        # integer infeasible (constant not divisible)
    return _intern(B, "eq", (p,))


def ne(a, b): return neg(eq(a, b))


def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.k == "not":
        return b.a[0]
    return _intern(B, "not", (b,))


def conj(*bs):
    out = []
    seen = set()
    for b in bs:
        for x in (b.a if b.k == "and" else (b,)):
            if x is TRUE or x in seen:
                continue
            if x is FALSE or neg(x) in seen:
                return FALSE
            seen.add(x)
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _intern(B, "and", tuple(sorted(out, key=lambda t: t.id)))


def disj(*bs):
    return neg(conj(*[neg(b) for b in bs]))


def implies(a, b): return disj(neg(a), b)
def iff(a, b):
    if a is b:
        return TRUE
    return conj(implies(a, b), implies(b, a))


def bapp(f, args=()):
    return _intern(B, "bapp", (f,) + tuple(P(a) if not isinstance(a, B) else bracket(a) for a in args))


def bvar(name):
    return bapp(name)


def forall(vs, body, pats=()):
    vs = tuple(atom_of(v) if isinstance(v, Poly) else v for v in vs)
    if body is TRUE or body is FALSE:
        return body
    # canonical bound names
    lvl = blevel(body) + 1
    m = {}
    cvs = []
    for n, v in enumerate(vs):
        c = _intern(Atom, "var", ("#%d_%d" % (lvl, n),), v.sort)
        m[v] = P(c)
        cvs.append(c)
    return _intern(B, "forall", (tuple(cvs), bsubst(body, m)))


def exists(vs, body):
    return neg(forall(vs, neg(body)))


def bracket(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.k == "not":
        if b.a[0].k == "and" or True:
            return add(ONE, scale(bracket(b.a[0]), -1))
    if b.k == "and":
        r = ONE
        for x in b.a:
            r = mul(r, bracket(x))
        return r
    if b.k == "eq":
        # [x = (c ? p : q)] is [c][x = p] + [not c][x = q]: an index chosen by a condition is
        # split so that equalities between indices can be eliminated
        ks = {x for m, _ in b.a[0].a for x, _ in m if x.k == "br"}
        if ks and len(ks) <= 3:
            k = min(ks, key=lambda x: x.id)
            yes, no = _split(b.a[0], k)
            yes, no = bracket(eq(yes, ZERO)), bracket(eq(no, ZERO))
            return add(mul(P(k), add(yes, scale(no, -1))), no)
    return P(_intern(Atom, "br", (b,), "Real"))


def ite(c, a, b):
    if c is TRUE:
        return P(a)
    if c is FALSE:
        return P(b)
    a = P(a); b = P(b)
    if a is b:
        return a
    k = bracket(c)
    return add(mul(k, add(a, scale(b, -1))), b)


def tmax(a, b):
    a = P(a); b = P(b)
    return ite(le(a, b), b, a)


def tmin(a, b):
    a = P(a); b = P(b)
    return ite(le(a, b), a, b)


def tabs(a):
    a = P(a)
    return ite(le(0, a), a, -a)


# ---------------------------------------------------------------- free variables / levels
def fv(n):
    r = n._fv
    if r is not None:
        return r
    if isinstance(n, Poly):
        s = set()
        for m, _ in n.a:
            for x, _e in m:
                s |= fv(x)
    elif isinstance(n, Atom):
        if n.k == "var":
            s = {n}
        elif n.k == "app":
            s = set()
            for x in n.a[1:]:
                s |= fv(x)
        elif n.k in ("inv", "br"):
            s = set(fv(n.a[0]))
        elif n.k == "sum":
            s = set()
            for x, _e in n.a[1]:
                s |= fv(x)
            for v, lo, hi in n.a[0]:
                s |= fv(lo) | fv(hi)
            for v, lo, hi in n.a[0]:
                s.discard(v)
    else:
        s = set()
        if n.k in ("le", "eq", "not"):
            s = fv(n.a[0])
        elif n.k in ("and",):
            for x in n.a:
                s |= fv(x)
        elif n.k == "bapp":
            for x in n.a[1:]:
                s |= fv(x)
        elif n.k == "forall":
            s = set(fv(n.a[1])) - set(n.a[0])
    r = frozenset(s)
    n._fv = r
    return r


def blevel(n):
    """binder nesting level (to choose canonical bound names)"""
    r = n._lvl
    if r is not None:
        return r
    r = 0
    if isinstance(n, Poly):
        for m, _ in n.a:
            for x, _e in m:
                r = max(r, blevel(x))
    elif isinstance(n, Atom):
        if n.k == "app":
            for x in n.a[1:]:
                r = max(r, blevel(x))
        elif n.k in ("inv", "br"):
            r = blevel(n.a[0])
        elif n.k == "sum":
            for x, _e in n.a[1]:
                r = max(r, blevel(x))
            for v, lo, hi in n.a[0]:
                r = max(r, blevel(lo), blevel(hi))
            r += 1
    else:
        if n.k in ("le", "eq", "not"):
            r = blevel(n.a[0])
        elif n.k == "and":
            for x in n.a:
                r = max(r, blevel(x))
        elif n.k == "bapp":
            for x in n.a[1:]:
                r = max(r, blevel(x))
        elif n.k == "forall":
            r = blevel(n.a[1]) + 1
    n._lvl = r
    return r


# ---------------------------------------------------------------- substitution
def subst(p, m):
    """p: Poly; m: {Atom var -> Poly}"""
    if not m:
        return p
    f = fv(p)
    if not any(x in f for x in m):
        return p
    return _subst(p, m, {})


def _subst(p, m, cache):
    r = cache.get(p)
    if r is not None:
        return r
    f = fv(p)
    if not any(x in f for x in m):
        cache[p] = p
        return p
    out = ZERO
    for mono, c in p.a:
        t = num(c)
        for x, e in mono:
            s = _subst_atom(x, m, cache)
            for _ in range(e):
                t = mul(t, s)
        out = add(out, t)
    cache[p] = out
    return out


def _subst_atom(x, m, cache):
    r = cache.get(x)
    if r is not None:
        return r
    f = fv(x)
    if not any(y in f for y in m):
        r = P(x)
    elif x.k == "var":
        r = P(m.get(x, x))
    elif x.k == "app":
        r = app(x.a[0], [_subst(y, m, cache) for y in x.a[1:]], x.sort)
    elif x.k == "inv":
        r = inv(_subst(x.a[0], m, cache))
    elif x.k == "br":
        r = bracket(_bsubst(x.a[0], m, cache))
    elif x.k == "sum":
        bs, body = open_sum(x)
        body = _subst(body, m, {})
        r = body
        for v, lo, hi in reversed(bs):
            r = mk_sum(v, _subst(lo, m, {}), _subst(hi, m, {}), r)
    else:
        raise AssertionError(x.k)
    cache[x] = r
    return r


def bsubst(b, m):
    f = fv(b)
    if not any(x in f for x in m):
        return b
    return _bsubst(b, m, {})


def _bsubst(b, m, cache):
    r = cache.get(b)
    if r is not None:
        return r
    f = fv(b)
    if not any(x in f for x in m):
        return b
    if b.k == "le":
        r = le0(_subst(b.a[0], m, cache))
    elif b.k == "eq":
        r = eq(_subst(b.a[0], m, cache), ZERO)
    elif b.k == "not":
        r = neg(_bsubst(b.a[0], m, cache))
    elif b.k == "and":
        r = conj(*[_bsubst(x, m, cache) for x in b.a])
    elif b.k == "bapp":
        r = bapp(b.a[0], [_subst(x, m, cache) for x in b.a[1:]])
    elif b.k == "forall":
        vs, body = open_forall(b)
        r = forall(vs, bsubst(body, m))
    else:
        r = b
    cache[b] = r
    return r


def open_forall(b):
    vs = [fresh("q", v.sort) for v in b.a[0]]
    body = bsubst(b.a[1], {v: n for v, n in zip(b.a[0], vs)})
    return vs, body


def inst_forall(b, args):
    return bsubst(b.a[1], {v: P(n) for v, n in zip(b.a[0], args)})


# ---------------------------------------------------------------- sums
def open_sum(x):
    """sum atom -> ([(freshvar atom, lo, hi)...], body Poly)"""
    m = {}
    bs = []
    for v, lo, hi in x.a[0]:
        n = fresh("k", "Int")
        m[v] = n
        bs.append((atom_of(n), lo, hi))
    body = ONE
    for y, e in x.a[1]:
        s = subst(P(y), m)
        for _ in range(e):
            body = mul(body, s)
    return bs, body


def mk_sum(v, lo, hi, body):
    """sum_{lo <= v < hi} body ; v an Int var (Atom or Poly)"""
    if isinstance(v, Poly):
        v = atom_of(v)
    lo = P(lo); hi = P(hi)
    body = P(body)
    n = const_of(hi - lo)
    if n is not None and n <= 0:
        return ZERO
    if n is not None and n <= 4 and n.denominator == 1:
        r = ZERO
        for k in range(int(n)):
            r = add(r, subst(body, {v: lo + k}))
        return r
    out = ZERO
    for mono, c in body.a:
        out = add(out, scale(_sum_mono(v, lo, hi, mono), c))
    return out


_smcache = {}


def _sum_mono(v, lo, hi, mono):
    key = (v, lo, hi, mono)
    r = _smcache.get(key)
    if r is None:
        r = _sum_mono0(v, lo, hi, mono)
        _smcache[key] = r
    return r


def _directions(x, v, out, arg=False):
    """signs with which v occurs linearly in arguments of function symbols below x"""
    if isinstance(x, Poly):
        for m, c in x.a:
            for y, _ in m:
                if y is v:
                    if arg:
                        out.add(1 if c > 0 or len(m) > 1 else -1)
                elif v in fv(y):
                    _directions(y, v, out)
    elif isinstance(x, Atom):
        if x.k == "var":
            return
        for y in x.a:
            _directions(y, v, out, x.k in ("app", "bapp"))
    elif isinstance(x, tuple):
        for y in x:
            _directions(y, v, out, arg)
    elif hasattr(x, "k") and hasattr(x, "a"):
        for y in (x.a if isinstance(x.a, tuple) else (x.a,)):
            _directions(y, v, out, x.k in ("app", "bapp"))


def _sum_mono0(v, lo, hi, mono):
    out = {}
    inn = {}
    for x, e in mono:
        if v in fv(x):
            inn[x] = e
        else:
            out[x] = e
    outp = _poly({tuple(sorted(out.items(), key=lambda t: t[0].id)): Fraction(1)}) if out else ONE
    if not inn:
        return mul(outp, mul(bracket(lt(lo, hi)), hi - lo))
    # a sum that runs through its arguments backwards is the same sum run forwards
    signs = set()
    for x in inn:
        _directions(x, v, signs)
    if signs == {-1}:
        body = ONE
        for x, e in inn.items():
            y = subst(P(x), {v: lo + hi - 1 - P(v)})
            for _ in range(e):
                body = mul(body, y)
        return mul(outp, mk_sum(v, lo, hi, body))
    # Kronecker collapse
    for x in inn:
        if x.k == "br" and x.a[0].k == "eq" and bool_is_int(x.a[0]):
            p = x.a[0].a[0]
            for m, c in p.a:
                if len(m) == 1 and m[0][0] is v and m[0][1] == 1 and abs(c) == 1:
                    rest = add(p, scale(P(v), -c))
                    if v not in fv(rest):
                        e = scale(rest, -1 / c)
                        t = outp
                        for y, ex in inn.items():
                            if y is x:
                                continue
                            s = subst(P(y), {v: e})
                            for _ in range(ex):
                                t = mul(t, s)
                        t = mul(t, bracket(conj(le(lo, e), lt(e, hi))))
                        return t
    # flatten inner sums (linear occurrences only)
    binders = [(v, lo, hi)]
    factors = {}
    flat = ONE
    for x, e in inn.items():
        if x.k == "sum" and e == 1 and all(v not in fv(l) and v not in fv(h) for _, l, h in x.a[0]):
            bs, b = open_sum(x)
            binders += bs
            flat = mul(flat, b)
        else:
            t = P(x)
            for _ in range(e):
                flat = mul(flat, t)
    if len(binders) > 1:
        # products of outer factors that are sums are left outside; rebuild
        return mul(outp, _multi_sum(binders, flat))
    if len(flat.a) != 1 or any((x.k == "br" and x.a[0].k == "eq" and v in fv(x) and bool_is_int(x.a[0])) and _binder_solvable(x, v) for x, _ in flat.a[0][0]):
        return mul(outp, mk_sum(v, lo, hi, flat))
    m, c = flat.a[0]
    return scale(mul(outp, _sum_atom(binders, m)), c)


def _binder_solvable(x, v):
    p = x.a[0].a[0]
    for m, c in p.a:
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1 and abs(c) == 1:
            return v not in fv(add(p, scale(P(v), -c)))
    return False


def _multi_sum(binders, body):
    """binders with mutually independent bounds"""
    out = ZERO
    for mono, c in body.a:
        out = add(out, scale(_multi_mono(list(binders), mono), c))
    return out


def _multi_mono(binders, mono):
    # drop / collapse binders that can be handled separately
    used = set()
    for x, _ in mono:
        used |= fv(x)
    for i, (v, lo, hi) in enumerate(binders):
        if v not in used:
            rest = binders[:i] + binders[i + 1:]
            r = mul(bracket(lt(lo, hi)), hi - lo)
            p = _poly({mono: Fraction(1)})
            return mul(r, _multi_sum(rest, p) if rest else p)
        for x, _e in mono:
            if x.k == "br" and x.a[0].k == "eq" and v in fv(x) and bool_is_int(x.a[0]):
                p = x.a[0].a[0]
                for m, c in p.a:
                    if len(m) == 1 and m[0][0] is v and m[0][1] == 1 and abs(c) == 1:
                        rest = add(p, scale(P(v), -c))
                        if v not in fv(rest):
                            e = scale(rest, -1 / c)
                            t = bracket(conj(le(lo, e), lt(e, hi)))
                            for y, ex in mono:
                                if y is x:
                                    continue
                                s = subst(P(y), {v: e})
                                for _ in range(ex):
                                    t = mul(t, s)
                            rb = binders[:i] + binders[i + 1:]
                            return _multi_sum(rb, t) if rb else t
    # factors with no binder at all go outside
    bv = {b[0] for b in binders}
    out = [(x, e) for x, e in mono if not (fv(x) & bv)]
    inn = [(x, e) for x, e in mono if fv(x) & bv]
    # connected components of binders (independent factors split into products of sums)
    comps = []
    for v, lo, hi in binders:
        comps.append(({v}, [(v, lo, hi)]))
    for x, e in inn:
        hit = [c for c in comps if c[0] & fv(x)]
        if len(hit) > 1:
            merged = (set().union(*[c[0] for c in hit]), sum([c[1] for c in hit], []))
            comps = [c for c in comps if c not in hit] + [merged]
    r = _poly({tuple(out): Fraction(1)}) if out else ONE
    if len(comps) > 1:
        for vs, bs in comps:
            sub = tuple((x, e) for x, e in inn if fv(x) & vs)
            t = _multi_mono(bs, sub) if len(bs) > 1 else _sum_mono(bs[0][0], bs[0][1], bs[0][2], sub)
            r = mul(r, t)
        return r
    if len(binders) == 1:
        v, lo, hi = binders[0]
        return mul(r, _sum_mono(v, lo, hi, tuple(inn)))
    # nested sums among inn that depend on binders: flatten
    for x, e in inn:
        if x.k == "sum" and e == 1 and not any((fv(l) | fv(h)) & bv for _, l, h in x.a[0]):
            bs, b = open_sum(x)
            p = b
            for y, ey in inn:
                if y is not x:
                    for _ in range(ey):
                        p = mul(p, P(y))
            return mul(r, _multi_sum(binders + bs, p))
    return mul(r, _sum_atom(binders, tuple(inn)))


def _sum_atom(binders, mono):
    """canonical multi-binder sum atom"""
    lvl = 0
    for x, _ in mono:
        lvl = max(lvl, blevel(x))
    for _, lo, hi in binders:
        lvl = max(lvl, blevel(lo), blevel(hi))
    lvl += 1
    n = len(binders)
    cvars = [_intern(Atom, "var", ("$%d_%d" % (lvl, i),), "Int") for i in range(n)]
    best = None
    perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
    base = _poly({tuple(sorted(mono, key=lambda t: t[0].id)): Fraction(1)})
    for perm in perms:
        # binder order grouped by bounds for determinism
        bs = [binders[i] for i in perm]
        m = {bs[i][0]: P(cvars[i]) for i in range(n)}
        b2 = subst(base, m)
        bl = tuple((cvars[i], bs[i][1], bs[i][2]) for i in range(n))
        key = (len(b2.a), tuple((lo.id, hi.id) for _, lo, hi in bl), b2.id)
        if best is None or key < best[0]:
            best = (key, bl, b2)
    _, bl, b2 = best
    if len(b2.a) != 1:
        # renaming re-oriented a comparison: distribute
        out = ZERO
        cv = {v for v, _, _ in bl}
        for m, c in b2.a:
            used = set()
            for x, _ in m:
                used |= fv(x)
            if all(v in used for v in cv):
                out = add(out, scale(_multi_mono(list(bl), m) if len(bl) > 1 else _sum_mono(bl[0][0], bl[0][1], bl[0][2], m), c))
            else:
                out = add(out, scale(_multi_sum(list(bl), _poly({m: Fraction(1)})) if len(bl) > 1 else mk_sum(bl[0][0], bl[0][1], bl[0][2], _poly({m: Fraction(1)})), c))
        return out
    m, c = b2.a[0]
    at = _intern(Atom, "sum", (bl, m), "Real")
    return scale(P(at), c)


# ---------------------------------------------------------------- printing
def show(n):
    if isinstance(n, Poly):
        if not n.a:
            return "0"
        out = []
        for m, c in n.a:
            fs = [show(x) + ("^%d" % e if e != 1 else "") for x, e in m]
            if c == 1 and fs:
                s = "*".join(fs)
            elif c == -1 and fs:
                s = "-" + "*".join(fs)
            else:
                s = "*".join([str(c)] + fs)
            out.append(s)
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if isinstance(n, Atom):
        if n.k == "var":
            return n.a[0]
        if n.k == "app":
            return "%s(%s)" % (n.a[0], ",".join(show(x) for x in n.a[1:]))
        if n.k == "inv":
            return "1/(%s)" % show(n.a[0])
        if n.k == "br":
            return "[%s]" % show(n.a[0])
        if n.k == "sum":
            return "SUM{%s}(%s)" % (";".join("%s<=%s<%s" % (show(lo), show(v), show(hi)) for v, lo, hi in n.a[0]),
                                    "*".join(show(x) + ("^%d" % e if e != 1 else "") for x, e in n.a[1]))
    if n.k == "true" or n.k == "false":
        return n.k
    if n.k == "le":
        return "%s<=0" % show(n.a[0])
    if n.k == "eq":
        return "%s==0" % show(n.a[0])
    if n.k == "not":
        return "!(%s)" % show(n.a[0])
    if n.k == "and":
        return "(" + " && ".join(show(x) for x in n.a) + ")"
    if n.k == "bapp":
        return "%s(%s)" % (n.a[0], ",".join(show(x) for x in n.a[1:]))
    if n.k == "forall":
        return "forall %s. %s" % (",".join(show(v) for v in n.a[0]), show(n.a[1]))
    return n.k


def atoms_in(n, acc=None, seen=None):
    """all atoms in a term (including nested)"""
    if acc is None:
        acc = set(); seen = set()
    if n in seen:
        return acc
    seen.add(n)
    if isinstance(n, Poly):
        for m, _ in n.a:
            for x, _e in m:
                atoms_in(x, acc, seen)
    elif isinstance(n, Atom):
        acc.add(n)
        if n.k == "app":
            for x in n.a[1:]:
                atoms_in(x, acc, seen)
        elif n.k in ("inv", "br"):
            atoms_in(n.a[0], acc, seen)
        elif n.k == "sum":
            for x, _e in n.a[1]:
                atoms_in(x, acc, seen)
            for _, lo, hi in n.a[0]:
                atoms_in(lo, acc, seen); atoms_in(hi, acc, seen)
    else:
        if n.k in ("le", "eq", "not"):
            atoms_in(n.a[0], acc, seen)
        elif n.k == "and":
            for x in n.a:
                atoms_in(x, acc, seen)
        elif n.k == "bapp":
            for x in n.a[1:]:
                atoms_in(x, acc, seen)
        elif n.k == "forall":
            atoms_in(n.a[1], acc, seen)
    return acc
