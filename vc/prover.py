"""Proof contexts, contextual simplification and discharge of obligations (z3 in-process, cvc5 as second back end)."""
import time, subprocess, tempfile, os
import z3
from fractions import Fraction
from terms import *
import terms as T

Z3_TIMEOUT_MS = 6000
stats = {"z3_time": 0.0, "z3_calls": 0, "entail_calls": 0, "entail_time": 0.0}


# ------------------------------------------------------------------ z3 translation
def limit(s, ms):
    """deterministic resource limit of roughly ms milliseconds; the clock is only a backstop"""
    s.set("rlimit", ms * 3000)
    s.set("timeout", ms * 12)


class Trans:
    def __init__(self):
        self.c = {}
        self.funs = {}
        self.side = []       # axioms about inv/sqrt/...
        self.sum_atoms = {}

    def const(self, name, isint):
        return z3.Int(name) if isint else z3.Real(name)

    def poly(self, p, want_int=None):
        isint = is_int(p)
        if want_int is None:
            want_int = isint
        key = (p, want_int)
        r = self.c.get(key)
        if r is not None:
            return r
        terms = []
        for m, c in p.a:
            conds = []
            fs = []
            for x, e in m:
                if x.k == "br":
                    conds.append(self.bool(x.a[0]))
                    continue
                z = self.atom(x)
                if not want_int and z.sort() == z3.IntSort():
                    z = z3.ToReal(z)
                for _ in range(e):
                    fs.append(z)
            cz = z3.IntVal(int(c)) if want_int else z3.RealVal(str(c))
            if fs:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                if c != 1:
                    t = cz * t
            else:
                t = cz
            if conds:
                zero = z3.IntVal(0) if want_int else z3.RealVal(0)
                t = z3.If(z3.And(*conds) if len(conds) > 1 else conds[0], t, zero)
            terms.append(t)
        if not terms:
            r = z3.IntVal(0) if want_int else z3.RealVal(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(terms)
        self.c[key] = r
        return r

    def fun(self, name, args, sort):
        if not args:
            return self.const(name, sort == z3.IntSort())
        key = (name, tuple(a.sort().name() for a in args), sort.name())
        f = self.funs.get(key)
        if f is None:
            f = z3.Function(name + "".join("_" + k[0] for k in key[1]), *([a.sort() for a in args] + [sort]))
            self.funs[key] = f
        return f(*args)

    def atom(self, x):
        r = self.c.get(x)
        if r is not None:
            return r
        if x.k == "var":
            r = self.const(x.a[0], x.sort != "Real")
        elif x.k == "app":
            args = [self.poly(a) for a in x.a[1:]]
            r = self.fun(x.a[0], args, z3.IntSort() if x.sort != "Real" else z3.RealSort())
            if x.a[0] == "sqrt":
                arg = self.poly(x.a[1], False)
                self.c[x] = r
                self.side.append((fv(x), z3.Implies(arg >= 0, z3.And(r >= 0, r * r == arg))))
        elif x.k == "inv":
            d = self.poly(x.a[0], False)
            r = self.fun("inv", [d], z3.RealSort())
            self.c[x] = r
            self.side.append((fv(x), z3.And(z3.Implies(d != 0, d * r == 1), z3.Implies(d > 0, r > 0), z3.Implies(d < 0, r < 0))))
        elif x.k == "sum":
            f = sorted([v for v in fv(x) if v.sort == "Int" and ("!" in v.a[0] or "#" in v.a[0])], key=lambda v: v.a[0])
            ph = [T._intern(Atom, "var", ("@%d" % i,), "Int") for i in range(len(f))]
            q = subst(P(x), {v: P(h) for v, h in zip(f, ph)})
            a = atom_of(q)
            kid = q.id
            isint = atom_isint(x)
            r = self.fun("SUM%d" % kid, [self.atom(v) for v in f], z3.IntSort() if isint else z3.RealSort())
            self.sum_atoms[x] = r
            # a sum over an empty range is zero (single range whose bounds contain no sums)
            if len(x.a[0]) == 1:
                _, lo, hi = x.a[0][0]
                if is_linear_int(T.le(hi, lo)):
                    self.c[x] = r
                    self.side.append((fv(x), z3.Implies(self.poly(hi) <= self.poly(lo), r == 0)))
        elif x.k == "br":
            r = z3.If(self.bool(x.a[0]), z3.IntVal(1), z3.IntVal(0))
        else:
            raise AssertionError(x.k)
        self.c[x] = r
        return r

    def bool(self, b):
        r = self.c.get(b)
        if r is not None:
            return r
        k = b.k
        if k == "true":
            r = z3.BoolVal(True)
        elif k == "false":
            r = z3.BoolVal(False)
        elif k in ("le", "eq"):
            p = b.a[0]
            # split constants to help readability
            z = self.poly(p)
            r = (z <= 0) if k == "le" else (z == 0)
        elif k == "not":
            r = z3.Not(self.bool(b.a[0]))
        elif k == "and":
            r = z3.And(*[self.bool(x) for x in b.a])
        elif k == "bapp":
            args = [self.poly(a) for a in b.a[1:]]
            if not args:
                r = z3.Bool(b.a[0])
            else:
                r = self.fun("p_" + b.a[0], args, z3.BoolSort())
        elif k == "forall":
            vs = [self.atom(v) for v in b.a[0]]
            n = len(self.side)
            body = self.bool(b.a[1])
            bound = set(b.a[0])
            # side axioms mentioning bound vars move inside
            inner = []
            keep = []
            for f, ax in self.side[n:]:
                (inner if f & bound else keep).append((f, ax))
            self.side[n:] = keep
            r = z3.ForAll(vs, z3.Implies(z3.And(*[a for _, a in inner]), body) if inner else body)
        else:
            raise AssertionError(k)
        self.c[b] = r
        return r


# ------------------------------------------------------------------ helpers on facts
def is_linear_int(b):
    """ground boolean talking about ints only (cheap for entailment)"""
    if b.k in ("le", "eq"):
        return is_int(b.a[0]) and all(x.k in ("var", "app") for m, _ in b.a[0].a for x, _e in m)
    if b.k == "not":
        return is_linear_int(b.a[0])
    if b.k == "and":
        return all(is_linear_int(x) for x in b.a)
    if b.k == "bapp":
        return True
    return False


def flatten(b):
    if b.k == "and":
        for x in b.a:
            yield from flatten(x)
    else:
        yield b


def apps_in(n, pred=None):
    return [x for x in atoms_in(n) if x.k == "app" and (pred is None or pred(x))]


def has_canon_bound(n):
    return any(v.a[0][0] in "$#" for v in fv(n))


class Ctx:
    """A set of assumptions. Immutable-ish: `extend` makes a child."""

    def __init__(self, facts=()):
        self.ground = []
        self.foralls = []
        self._cache = {}
        self._simp = {}
        self.hints = []      # rewrite rules
        self.injective = {}  # function -> (lo, hi): f(x) = f(y) iff x = y for x, y in [lo, hi)
        for f in facts:
            self.assume(f)

    def copy(self):
        c = Ctx()
        c.ground = list(self.ground)
        c.foralls = list(self.foralls)
        c.hints = list(self.hints)
        c.injective = dict(self.injective)
        return c

    def extend(self, facts):
        c = self.copy()
        for f in facts:
            c.assume(f)
        return c

    def assume(self, b):
        for x in flatten(b):
            if x is TRUE:
                continue
            if x.k == "forall":
                if x not in self.foralls:
                    self.foralls.append(x)
            else:
                if x not in self.ground:
                    self.ground.append(x)
        self._cache = {}
        self._simp = {}
        self._int = None

    _int = None

    # ---- instantiation of quantified facts
    def instances(self, seeds, foralls=None, rounds=2, limit=400, int_only=False):
        """ground instances of foralls for the app terms / int skolems found in seeds"""
        if foralls is None:
            foralls = self.foralls
        out = []
        seen = set()
        pool_terms = set()
        work = list(seeds)
        apps = {}
        ints = set()

        def harvest(n):
            if n in pool_terms:
                return
            pool_terms.add(n)
            for x in atoms_in(n):
                if x.k == "app" and not has_canon_bound(x):
                    apps.setdefault(x.a[0], set()).add(x)
                elif x.k == "var" and x.sort == "Int" and "!" in x.a[0]:
                    ints.add(x)
            # index terms
        def bool_apps(n, acc, seen2):
            if n in seen2:
                return
            seen2.add(n)
            if isinstance(n, B):
                if n.k == "bapp":
                    acc.append(n)
                    for x in n.a[1:]:
                        bool_apps(x, acc, seen2)
                elif n.k in ("not", "and", "le", "eq"):
                    for x in n.a:
                        bool_apps(x, acc, seen2)
                elif n.k == "forall":
                    bool_apps(n.a[1], acc, seen2)
            elif isinstance(n, Poly):
                for m, _ in n.a:
                    for x, _e in m:
                        bool_apps(x, acc, seen2)
            elif isinstance(n, Atom):
                if n.k == "br":
                    bool_apps(n.a[0], acc, seen2)
                elif n.k == "sum":
                    for x, _e in n.a[1]:
                        bool_apps(x, acc, seen2)
                elif n.k == "app":
                    for x in n.a[1:]:
                        bool_apps(x, acc, seen2)
                elif n.k == "inv":
                    bool_apps(n.a[0], acc, seen2)
        bapps = {}
        def harvest_b(n):
            acc = []
            bool_apps(n, acc, set())
            for x in acc:
                if not has_canon_bound(x):
                    bapps.setdefault(x.a[0], set()).add(x)
        for s in work:
            harvest(s); harvest_b(s)
        for _ in range(rounds):
            new = []
            for f in foralls:
                vs, body = f.a
                if int_only and not is_linear_int(body):
                    continue
                pats = [x for x in apps_in(body) if set(vs) <= fv(x)]
                bp = []
                acc = []
                bool_apps(body, acc, set())
                bp = [x for x in acc if set(vs) <= fv(x)]
                cands = set()
                for pt in pats:
                    for g in list(apps.get(pt.a[0], ())):
                        m = match_args(pt.a[1:], g.a[1:], vs)
                        if m is not None:
                            cands.add(tuple(m[v] for v in vs))
                for pt in bp:
                    for g in list(bapps.get(pt.a[0], ())):
                        m = match_args(pt.a[1:], g.a[1:], vs)
                        if m is not None:
                            cands.add(tuple(m[v] for v in vs))
                if len(vs) == 1 and vs[0].sort == "Int" and not int_only:
                    for x in ints:
                        cands.add((P(x),))
                elif len(vs) == 1 and vs[0].sort == "Int" and int_only:
                    pass
                for c in sorted(cands, key=lambda t: tuple(x.id for x in t)):
                    key = (f, c)
                    if key in seen:
                        continue
                    seen.add(key)
                    i = inst_forall(f, c)
                    if i is not TRUE:
                        new.append(i)
            if not new:
                break
            for n in new:
                out.append(n)
                harvest(n); harvest_b(n)
            if len(out) > limit:
                break
        return out

    # ---- cheap entailment over integer facts
    def _solver(self):
        if self._int is None:
            s = z3.Solver()
            limit(s, 400)
            tr = Trans()
            base = []
            for g in self.ground:
                if is_linear_int(g):
                    base.append(g)
            for g in base:
                s.add(tr.bool(g))
            for g in self.instances(base, int_only=True):
                if is_linear_int(g):
                    s.add(tr.bool(g))
            self._int = (s, tr)
        return self._int

    def decide(self, b, extra=()):
        """True / False / None: is b (int-linear) entailed / refuted under ctx + extra"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if not is_linear_int(b):
            for x in list(self.ground) + list(extra):
                if x is b:
                    return True
                if x is neg(b):
                    return False
            return None
        key = (b, tuple(extra))
        if key in self._cache:
            return self._cache[key]
        t0 = time.time()
        s, tr = self._solver()
        s.push()
        ex = [e for e in extra if is_linear_int(e)]
        for e in ex:
            s.add(tr.bool(e))
        for g in self.instances(ex + [b], int_only=True, rounds=1):
            if is_linear_int(g):
                s.add(tr.bool(g))
        for f, (lo, hi) in self.injective.items():
            es = []
            for t in ex + ([b] if is_linear_int(b) else []):
                for x in atoms_in(t):
                    if x.k == "app" and x.a[0] == f and len(x.a) == 2 and x not in es:
                        es.append(x)
            for i, x in enumerate(es[:8]):
                for y in es[:i]:
                    s.add(tr.bool(implies(conj(*[conj(le(lo, z), lt(z, hi)) for z in (x.a[1], y.a[1])], eq(P(x), P(y))), eq(x.a[1], y.a[1]))))
        zb = tr.bool(b)
        r = None
        s.push()
        s.add(z3.Not(zb))
        if s.check() == z3.unsat:
            r = True
        s.pop()
        if r is None:
            s.push()
            s.add(zb)
            if s.check() == z3.unsat:
                r = False
            s.pop()
        s.pop()
        stats["entail_calls"] += 1
        stats["entail_time"] += time.time() - t0
        self._cache[key] = r
        return r

    # ---- contextual simplification of polynomials
    def simp(self, p, extra=()):
        key = (p, tuple(extra))
        r = self._simp.get(key)
        if r is not None:
            return r
        q = p
        for _ in range(8):
            n = self._simp1(q, extra)
            n = self._rewrite(n, extra)
            if n is q:
                break
            q = n
        self._simp[key] = q
        return q

    def _simp1(self, p, extra):
        out = ZERO
        for mono, c in p.a:
            brs = [x for x, _ in mono if x.k == "br"]
            facts = list(extra)
            t = num(c)
            dead = False
            kept = []
            for x in sorted(brs, key=lambda x: (0 if is_linear_int(x.a[0]) else 1, x.id)):
                b = self.simp_bool(x.a[0], facts)
                d = self.decide(b, facts)
                if d is False:
                    dead = True
                    break
                if d is None:
                    kept.append(b)
                    facts.append(b)
            if dead:
                continue
            if len(kept) > 1:
                # drop brackets entailed by the others
                i = 0
                while i < len(kept):
                    if is_linear_int(kept[i]) and self.decide(kept[i], list(extra) + kept[:i] + kept[i + 1:]) is True:
                        kept.pop(i)
                    else:
                        i += 1
                facts = list(extra) + kept
            for b in kept:
                t = mul(t, bracket(b))
            # cancel x * 1/x when x is known non-zero
            d = dict(mono)
            for x, e in list(d.items()):
                if x.k == "inv":
                    a = atom_of(x.a[0])
                    if a is not None and a in d and self.nonzero(P(a), facts):
                        k = min(d[a], e)
                        d[a] -= k
                        d[x] -= k
            for x, e in d.items():
                if x.k == "br" or e == 0:
                    continue
                s = self.simp_atom(x, facts)
                for _ in range(e):
                    t = mul(t, s)
            out = add(out, t)
        return out

    def nonzero(self, p, extra):
        for g in list(self.ground) + list(extra):
            b = g
            if b.k == "not":
                q = b.a[0].a[0] if b.a[0].k in ("le", "eq") else None
                if q is not None and (q is p or q is -p):
                    return True
        for g in self.instances([p] , rounds=1):
            g = self._discharge_guard(g, extra)
            for h in flatten(g):
                if h.k == "not" and h.a[0].k in ("le", "eq"):
                    q = h.a[0].a[0]
                    if q is p or q is -p:
                        return True
        return False

    def _discharge_guard(self, g, extra):
        """simplify an implication instance by dropping entailed integer guards"""
        if g.k == "not" and g.a[0].k == "and":
            keep = []
            for x in g.a[0].a:
                d = self.decide(x, extra) if is_linear_int(x) else None
                if d is True:
                    continue
                if d is False:
                    return TRUE
                keep.append(x)
            return neg(conj(*keep))
        return g

    def simp_bool(self, b, extra=()):
        if b.k in ("le", "eq"):
            q = self.simp(b.a[0], tuple(extra))
            if self.injective and b.k == "eq":
                r = self._injective(q, extra)
                if r is not None:
                    return r
            if q is b.a[0]:
                return b
            return le0(q) if b.k == "le" else eq(q, ZERO)
        if b.k == "not":
            return neg(self.simp_bool(b.a[0], extra))
        if b.k == "and":
            return conj(*[self.simp_bool(x, extra) for x in b.a])
        if b.k == "bapp":
            return bapp(b.a[0], [self.simp(x, tuple(extra)) for x in b.a[1:]])
        if b.k == "forall":
            return b
        return b

    def _injective(self, q, extra):
        if len(q.a) != 2:
            return None
        (m1, c1), (m2, c2) = q.a
        if c1 + c2 != 0 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
            return None
        x, y = m1[0][0], m2[0][0]
        if x.k != "app" or y.k != "app" or x.a[0] != y.a[0] or x.a[0] not in self.injective or len(x.a) != 2 or len(y.a) != 2:
            return None
        lo, hi = self.injective[x.a[0]]
        if self.decide(conj(le(lo, x.a[1]), lt(x.a[1], hi), le(lo, y.a[1]), lt(y.a[1], hi)), tuple(extra)) is not True:
            return None
        return self.simp_bool(eq(x.a[1], y.a[1]), extra)

    def simp_atom(self, x, extra):
        if x.k == "var":
            return P(x)
        if x.k == "app":
            return app(x.a[0], [self.simp(y, tuple(extra)) for y in x.a[1:]], x.sort)
        if x.k == "inv":
            return inv(self.simp(x.a[0], tuple(extra)))
        if x.k == "sum":
            # empty range?
            for v, lo, hi in x.a[0]:
                if self.decide(lt(lo, hi), extra) is False:
                    return ZERO
            bs, body = open_sum(x)
            ex = list(extra)
            for v, lo, hi in bs:
                ex.append(le(lo, P(v)))
                ex.append(lt(P(v), hi))
            b2 = self.simp(body, tuple(ex))
            if b2 is body:
                return P(x)
            r = b2
            for v, lo, hi in reversed(bs):
                r = mk_sum(v, lo, hi, r)
            return r
        return P(x)

    # ---- rewrite rules:  SUM_{lo<=k<hi} f(..k..)*g(..k..)  ->  rhs
    def _rewrite(self, p, extra):
        if not self.hints:
            return p
        out = ZERO
        changed = False
        for mono, c in p.a:
            t = num(c)
            for x, e in mono:
                r = None
                if x.k == "sum" and e == 1:
                    r = self._rewrite_sum(x, extra)
                if r is None:
                    for _ in range(e):
                        t = mul(t, P(x))
                else:
                    changed = True
                    t = mul(t, r)
            out = add(out, t)
        return out if changed else p

    def _rewrite_sum(self, x, extra):
        for rule in self.hints:
            r = rule(self, x, extra)
            if r is not None:
                return r
        return None


def other_arg(y, v, pos):
    """argument of the binary app y besides the bound variable v, which must stand at position pos
    (either position for a symmetric function)"""
    if atom_of(y.a[pos]) is v and v not in fv(y.a[3 - pos]):
        return y.a[3 - pos]
    if y.a[0] in T.SYMMETRIC and atom_of(y.a[3 - pos]) is v and v not in fv(y.a[pos]):
        return y.a[pos]
    return None


def contraction_rule(fname, gname, lo, hi, rhs, guard=None, pf=2, pg=1):
    """SUM_k f(e1,k) g(k,e2) [k in lo..hi)  ->  rhs(e1,e2), where k occurs in no other factor"""
    lo = P(lo); hi = P(hi)

    def rule(ctx, x, extra):
        for i, (v, l, h) in enumerate(x.a[0]):
            if l is not lo or h is not hi:
                continue
            inn = [(y, e) for y, e in x.a[1] if v in fv(y)]
            if len(inn) != 2 or any(e != 1 for _, e in inn):
                continue
            ff = gg = None
            for y, _ in inn:
                if y.k != "app" or len(y.a) != 3:
                    continue
                if y.a[0] == fname and ff is None:
                    e1 = other_arg(y, v, pf)
                    if e1 is not None:
                        ff = y; fe = e1
                        continue
                if y.a[0] == gname and gg is None:
                    e2 = other_arg(y, v, pg)
                    if e2 is not None:
                        gg = y; ge = e2
            if ff is None or gg is None:
                continue
            # rebuild without binder v
            others = [b for b in x.a[0] if b[0] is not v]
            ren = {}
            bs = []
            for b, l2, h2 in others:
                n = fresh("k")
                ren[b] = n
                bs.append((atom_of(n), l2, h2))
            fe, ge = subst(fe, ren), subst(ge, ren)
            if guard is not None:
                fs = list(extra)
                for b, l2, h2 in bs:
                    fs += [le(l2, P(b)), lt(P(b), h2)]
                if ctx.decide(guard(fe, ge), tuple(fs)) is not True:
                    continue
            body = rhs(fe, ge)
            for y, e in x.a[1]:
                if (y, e) in inn:
                    continue
                s = subst(P(y), ren)
                for _ in range(e):
                    body = mul(body, s)
            for b, l2, h2 in reversed(bs):
                body = mk_sum(b, l2, h2, body)
            return body
        return None
    return rule


def match_args(pats, gs, vs):
    m = {}
    if len(pats) != len(gs):
        return None
    for p, g in zip(pats, gs):
        hit = [v for v in vs if v in fv(p)]
        if not hit:
            if p is not g:
                return None
            continue
        if len(hit) > 1:
            a = None
            # nested app pattern
            ap = atom_of(p); ag = atom_of(g)
            if ap is not None and ag is not None and ap.k == ag.k == "app" and ap.a[0] == ag.a[0]:
                mm = match_args(ap.a[1:], ag.a[1:], vs)
                if mm is None:
                    return None
                for k, q in mm.items():
                    if m.setdefault(k, q) is not q:
                        return None
                continue
            return None
        v = hit[0]
        # solve linear p(v) = g for v with coefficient 1
        c = None
        for mono, co in p.a:
            if len(mono) == 1 and mono[0][0] is v and mono[0][1] == 1:
                c = co
            elif any(v in fv(x) for x, _ in mono):
                c = None
                ap = atom_of(p); ag = atom_of(g)
                if ap is not None and ag is not None and ap.k == ag.k == "app" and ap.a[0] == ag.a[0]:
                    mm = match_args(ap.a[1:], ag.a[1:], vs)
                    if mm is None:
                        return None
                    for k, q in mm.items():
                        if m.setdefault(k, q) is not q:
                            return None
                    break
                return None
        else:
            if c is None or abs(c) != 1:
                return None
            val = scale(g - (p - scale(P(v), c)), 1 / c)
            if m.setdefault(v, val) is not val:
                return None
    if any(v not in m for v in vs):
        return None
    return m


# ------------------------------------------------------------------ obligations
class Result:
    def __init__(self, status, backend, secs, detail="", model=None):
        self.status = status      # proved | refuted | unknown
        self.backend = backend
        self.secs = secs
        self.detail = detail
        self.model = model


def prove(ctx, goal, timeout_ms=None, depth=0):
    t0 = time.time()
    r = _prove(ctx, goal, timeout_ms or Z3_TIMEOUT_MS)
    r.secs = time.time() - t0
    return r


def _prove(ctx, goal, tmo, depth=0):
    if goal is TRUE:
        return Result("proved", "normal form", 0)
    if goal.k == "and":
        last = Result("proved", "normal form", 0)
        for x in goal.a:
            r = _prove(ctx, x, tmo, depth)
            if r.status != "proved":
                return r
            if r.backend != "normal form":
                last = r
        return last
    if goal.k == "forall":
        vs, body = open_forall(goal)
        return _prove(ctx, body, tmo, depth)
    if goal.k == "not" and goal.a[0].k == "and":
        # disjunction: assume the negation of all but one comparison, prove the rest
        lits = list(goal.a[0].a)
        # keep a positive literal (a negated conjunct that is 'not') as goal
        tgt = None
        for x in lits:
            if x.k == "not" and (x.a[0].k in ("eq", "forall", "le", "bapp")):
                if tgt is None or (x.a[0].k in ("forall",) or (x.a[0].k == "eq" and tgt.a[0].k != "forall")):
                    tgt = x
        if tgt is None:
            tgt = lits[-1]
            # prefer real comparisons as the goal
            for x in lits:
                if x.k == "le" and not is_int(x.a[0]):
                    tgt = x
        rest = [x for x in lits if x is not tgt]
        c2 = ctx.extend(rest)
        return _prove(c2, neg(tgt), tmo, depth)
    g = ctx.simp_bool(goal)
    if g is TRUE:
        return Result("proved", "normal form", 0)
    if g.k == "eq":
        # equality of sums under hypotheses is by normal form; remaining cases by SMT
        pass
    if is_linear_int(g):
        d = ctx.decide(g)
        if d is True:
            return Result("proved", "z3", 0)
    elif not is_int(goal.a[0] if goal.k in ("eq", "le") else ZERO) and any(x.k == "sum" for x in atoms_in(g)):
        u = unify(ctx, goal)
        if u is not None:
            g2 = u[0].simp_bool(u[1])
            if g2 is TRUE:
                return Result("proved", "normal form", 0)
            r = smt(u[0], g2, tmo)
            if r.status == "proved":
                return r
    r = smt(ctx, g, tmo)
    if r.status != "proved" and depth < 2 and any(x.k == "sum" for x in atoms_in(g)):
        e = case_equality(g)
        if e is not None:
            # sums whose terms agree only when two indices coincide
            a = _prove(ctx.extend([neg(e)]), g, tmo, depth + 1)
            b = _prove(ctx.extend([e]), g, tmo, depth + 1) if a.status == "proved" else a
            if b.status == "proved":
                return b
    return r


def case_equality(g):
    """an equality of two free indices on which a term of g depends"""
    free = fv(g)
    for x in sorted((x for x in atoms_in(g) if x.k == "br"), key=lambda x: str(x)):
        for b in flatten(x.a[0]):
            while b.k == "not":
                b = b.a[0]
            if b.k == "eq" and is_linear_int(b) and fv(b) and fv(b) <= free and len(b.a[0].a) == 2:
                return b
    return None


def unify(ctx, goal):
    """apply the integer equalities among the facts as a substitution of variables (None: nothing to do)"""
    vs = {x for x in fv(goal) if x.sort == "Int"}
    m = {}
    for g in ctx.ground:
        if g.k != "eq" or not is_linear_int(g):
            continue
        q = subst(g.a[0], m) if m else g.a[0]
        if len(q.a) > 3:
            continue
        for mono, c in q.a:
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].k == "var" and abs(c) == 1:
                v = mono[0][0]
                val = scale(q - scale(P(v), c), -1 / c)
                if v in fv(val) or v not in vs:
                    continue
                m = {k: subst(w, {v: val}) for k, w in m.items()}
                m[v] = val
                vs |= {x for x in fv(val) if x.sort == "Int"}
                break
    if not m or not any(v in fv(goal) for v in m):
        return None
    c2 = Ctx()
    for g in ctx.ground:
        h = bsubst(g, m)
        if h is not TRUE:
            c2.assume(h)
    for f in ctx.foralls:
        c2.assume(bsubst(f, m))
    c2.hints = [h.subst(m) if hasattr(h, "subst") else h for h in ctx.hints]
    c2.injective = dict(ctx.injective)
    return c2, bsubst(goal, m)


def sum_lemmas(ctx, tr, atoms):
    """non-negativity facts for sums whose every term is a product of squares/non-negative atoms"""
    out = []
    for x in atoms:
        okk = True
        for y, e in x.a[1]:
            if y.k == "br" or e % 2 == 0:
                continue
            if y.k == "app" and y.a[0] in ("abs",):
                continue
            okk = False
            break
        if okk:
            out.append(le(0, P(x)))
    return out


def completed_squares(goal):
    """SUM (x - c)^2 >= 0 with the c the goal asks for: SUM x^2 + k SUM x + k^2/4 n >= 0"""
    out = []
    if goal.k == "not":
        goal = goal.a[0]
    if goal.k != "le":
        return out
    for sign in (-1, 1):
        p = scale(goal.a[0], sign)
        for mono, c2 in p.a:
            if len(mono) != 1 or c2 <= 0 or mono[0][1] != 1 or mono[0][0].k != "sum":
                continue
            bs, body = mono[0][0].a
            if len(bs) != 1 or len(body) != 1 or body[0][1] != 2:
                continue
            one = None
            k1 = ZERO
            for m, c in p.a:
                for x, e in m:
                    if x.k == "sum" and e == 1 and x.a[0] == bs and x.a[1] == ((body[0][0], 1),):
                        rest = num(c)
                        for y, f in m:
                            if y is not x:
                                for _ in range(f):
                                    rest = mul(rest, P(y))
                        one = x
                        k1 = add(k1, rest)
            if one is None:
                continue
            v, lo, hi = bs[0]
            k = scale(k1, 1 / c2)
            sq = P(mono[0][0]) + k * P(one) + k * k * Fraction(1, 4) * (hi - lo)
            out.append(implies(le(lo, hi), le(0, sq)))
    return out


def smt_problem(ctx, goal):
    facts = [f for f in ctx.ground]
    inst = ctx.instances(facts_relevant(facts, goal) + [goal])
    seen = set(facts)
    allf = list(facts)
    for i in inst:
        i = ctx._discharge_guard(i, ())
        for j in flatten(i):
            if j not in seen and j is not TRUE:
                seen.add(j)
                allf.append(j)
    # simplify facts contextually (only those with sums / brackets)
    out = []
    for f in allf:
        if any(x.k in ("sum", "br") for x in atoms_in(f)):
            try:
                f2 = ctx.simp_bool(f)
                if f2 is TRUE and f in ctx.ground:
                    f2 = f
                f = f2
            except NormalFormLimit:
                pass
        if f is not TRUE:
            out.append(f)
    return out


def facts_relevant(facts, goal):
    return facts


def symbols(b):
    return {x if x.k == "var" else x.a[0] for x in atoms_in(b) if x.k in ("var", "app")}


def without_private(facts, goal):
    """drop the facts that constrain a variable or function mentioned in at most two facts and not in the goal:
    they bound something else (dropping a hypothesis is always sound)"""
    g = symbols(goal)
    cur = [(f, symbols(f)) for f in facts]
    while True:
        n = {}
        for f, sy in cur:
            for x in sy:
                n[x] = n.get(x, 0) + 1
        nxt = [(f, sy) for f, sy in cur if not any(n[x] <= 2 and x not in g for x in sy)]
        if len(nxt) == len(cur):
            return [f for f, sy in cur]
        cur = nxt


def smt(ctx, goal, tmo):
    t0 = time.time()
    facts = smt_problem(ctx, goal) + completed_squares(goal)
    tr = Trans()
    zf = [tr.bool(f) for f in facts]
    zg = tr.bool(goal)
    sl = [tr.bool(f) for f in sum_lemmas(ctx, tr, list(tr.sum_atoms))]
    side = [a for _, a in tr.side]
    s = z3.Solver()
    limit(s, max(500, tmo // 3))
    s.add(*(zf + sl + side))
    s.add(z3.Not(zg))
    stats["z3_calls"] += 1
    r = s.check()
    backend = "z3"
    model = None
    if r == z3.sat:
        model = s.model()
    few = without_private(facts, goal) if r != z3.unsat else facts
    if len(few) < len(facts):
        # without the hypotheses about quantities which the goal and the rest do not mention
        tf = Trans()
        qf = [tf.bool(f) for f in few] + [z3.Not(tf.bool(goal))]
        qf += [tf.bool(f) for f in sum_lemmas(ctx, tf, list(tf.sum_atoms))]
        qf += [a for _, a in tf.side]
        sf = z3.Solver()
        limit(sf, max(500, tmo // 3))
        sf.add(*qf)
        rf = sf.check()
        if rf == z3.unsat:
            r = rf
        elif r == z3.unknown:
            facts = few
    if r != z3.unsat:
        # second attempt: nonlinear arithmetic with applications abstracted to constants
        s2 = z3.Tactic("qfnra-nlsat").solver() if False else None
        ab = _abstract([*zf, *sl, *side, z3.Not(zg)])
        t = z3.Then("simplify", "purify-arith", "elim-term-ite", "solve-eqs", "smt")
        try:
            s3 = z3.TryFor(z3.Then("simplify", "solve-eqs", "purify-arith", "elim-term-ite", "tseitin-cnf", "nlsat") , max(500, tmo // 3)).solver()
            s3.add(*ab)
            r3 = s3.check()
            if r3 == z3.unsat:
                r = r3
                backend = "z3-nlsat"
        except z3.Z3Exception:
            pass
    if r != z3.unsat and ctx.foralls:
        tr4 = Trans()
        q = [tr4.bool(f) for f in facts] + [tr4.bool(f) for f in ctx.foralls] + [z3.Not(tr4.bool(goal))]
        q += [a for _, a in tr4.side]
        for ms, opts in ((max(500, tmo // 3), {}), (max(500, tmo // 3), {"smt.mbqi": False}), (max(1000, tmo), {"smt.random_seed": 11})):
            s4 = z3.Solver()
            limit(s4, ms)
            for k, v in opts.items():
                s4.set(k, v)
            s4.add(*q)
            r4 = s4.check()
            if os.environ.get("VC_QSTAT"):
                print("quantified", r4, opts, [s4.statistics()[i] for i in range(len(s4.statistics())) if s4.statistics()[i][0] == "rlimit count"], str(goal)[:60] if False else "", flush=True)
            if r4 == z3.unsat:
                r = r4
                backend = "z3-quantified"
                break
            if r4 == z3.sat:
                break
    if r == z3.unknown or r == z3.sat:
        rc = cvc5_try([*zf, *sl, *side, z3.Not(zg)], tmo // 3)
        if rc == "unsat":
            stats["z3_time"] += time.time() - t0
            return Result("proved", "cvc5", 0)
    stats["z3_time"] += time.time() - t0
    if r == z3.unsat:
        return Result("proved", backend, 0)
    if r == z3.sat:
        return Result("refuted", backend, 0, "counter-model of the obligation: " + model_str(model), model)
    return Result("unknown", backend, 0, "solver gave no answer (%s)" % s.reason_unknown())


def _abstract(fs):
    """replace every uninterpreted application by a constant (sound for unsat only when congruence is not needed)"""
    cache = {}
    sub = {}

    def walk(e):
        k = e.get_id()
        if k in cache:
            return cache[k]
        if z3.is_quantifier(e):
            r = z3.Bool("absq_%d" % k)
        elif z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = z3.Const("abs_%d" % len(sub), e.sort())
            sub[k] = (e, r)
        elif z3.is_app(e) and e.num_args() > 0:
            r = e.decl()(*[walk(e.arg(i)) for i in range(e.num_args())]) if e.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else _rebuild(e, [walk(e.arg(i)) for i in range(e.num_args())])
        else:
            r = e
        cache[k] = r
        return r
    return [walk(f) for f in fs]


def _rebuild(e, args):
    k = e.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*args)
    if k == z3.Z3_OP_OR:
        return z3.Or(*args)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(args)
    r = args[0]
    for a in args[1:]:
        r = r * a
    return r


def cvc5_try(fs, tmo):
    s = z3.Solver()
    s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % max(500, tmo), fn], capture_output=True, text=True, timeout=tmo / 1000 + 5)
        return r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(fn)


def model_str(m, limit=24):
    out = []
    for d in sorted(m.decls(), key=lambda d: d.name()):
        if d.arity() == 0:
            out.append("%s = %s" % (d.name(), m[d]))
    return "; ".join(out[:limit])


def feasible(ctx, timeout=300):
    """False only if the ground facts are certainly contradictory"""
    s = z3.Solver()
    limit(s, timeout)
    tr = Trans()
    for g in ctx.ground:
        if not any(x.k == "sum" for x in atoms_in(g)):
            s.add(tr.bool(g))
    for g in ctx.instances(ctx.ground, rounds=1):
        if is_linear_int(g):
            s.add(tr.bool(g))
    for _, a in tr.side:
        s.add(a)
    return s.check() != z3.unsat
