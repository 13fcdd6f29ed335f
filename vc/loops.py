"""Loops: exact summarisation of counted loops (every iteration, no bound), or contract invariants."""
import re
from terms import *
import terms as T
from values import *
from exec import (ReturnExc, BreakExc, ContinueExc, ThrowExc, EndPath, NotPure, LoopFail, Dec)
import exec as X
import prover
from prover import Ctx

_loop = [0]


class LoopExit(Exception):
    pass


class Loc:
    """one modified location with its leaves"""
    def __init__(self, obj, path):
        self.obj = obj; self.path = path
        self.ref = Ref(obj, path)


def iteration(ex, cond, body, inc):
    if not ex.branch(cond()):
        return "exit"
    try:
        body()
    except ContinueExc:
        pass
    inc()
    return "next"


def run_iter(ex, cond, body, inc):
    return ex.explore(lambda: iteration(ex, cond, body, inc))


def prefix(a, b):
    return a[0] == b[0] and b[1][:len(a[1])] == a[1]


def coarsen(ws):
    out = []
    for w in sorted(ws, key=lambda w: (w[0], len(w[1]), str(w[1]))):
        if not any(prefix(o, w) for o in out):
            out.append(w)
    return out


def app_or_var(name, args, sort):
    return app(name, args, sort)


def generic(v, name, k):
    """value like v whose leaves are unknown functions of the iteration number k"""
    def fp(p, path, idx):
        return app(name + "." + ".".join(path), (k,) + tuple(idx), "Int" if is_int(p) and path and path[-1] in ("#len", "#rows", "#cols", "#tag", "#it") or is_int(p) and not path and isint_leaf(p) else "Real")

    def fb(b, path, idx):
        return bapp(name + "." + ".".join(path), (k,) + tuple(idx))
    return map_leaves(v, fp, fb)


def isint_leaf(p):
    return is_int(p)


class Slot:
    """a leaf of a modified location: generic name and (when solved) closed form"""
    def __init__(self, loc, path, name, isbool, scalar, sort):
        self.loc = loc; self.path = path; self.name = name; self.isbool = isbool
        self.scalar = scalar; self.sort = sort
        self.closed = None      # function (k, idx) -> Poly / B


class Summary:
    pass


def typed_generic(ex, loc, v, name, k, slots, sorts):
    """rebuild v with leaves: closed form if solved, otherwise generic application"""
    def key(path):
        return (loc.obj, loc.path, path)

    def fp(p, path, idx):
        s = slots.get(key(path))
        if s is None:
            s = Slot(loc, path, name + "." + ".".join(path), False, len(idx) == 0, leaf_sort(p, path))
            slots[key(path)] = s
        if s.closed is not None:
            return s.closed(k, tuple(idx))
        return app(s.name, (k,) + tuple(idx), s.sort)

    def fb(b, path, idx):
        s = slots.get(key(path))
        if s is None:
            s = Slot(loc, path, name + "." + ".".join(path), True, len(idx) == 0, "Bool")
            slots[key(path)] = s
        if s.closed is not None:
            return s.closed(k, tuple(idx))
        return bapp(s.name, (k,) + tuple(idx))
    return map_leaves(v, fp, fb)


def leaf_sort(p, path):
    if path and path[-1] in ("#len", "#rows", "#cols", "#tag", "#it"):
        return "Int"
    if path and path[-1] == "#el" and const_of(p) is not None:
        return "Real"       # a zeroed matrix is not a matrix of integers
    return "Int" if is_int(p) else "Real"


def apps_named(n, name):
    return [x for x in atoms_in(n) if x.k == "app" and x.a[0] == name]


def bapps_named(n, name):
    out = []
    seen = set()

    def go(n):
        if n in seen:
            return
        seen.add(n)
        if isinstance(n, B):
            if n.k == "bapp" and n.a[0] == name:
                out.append(n)
            for x in n.a:
                if isinstance(x, (Poly, B, Atom)):
                    go(x)
        elif isinstance(n, Poly):
            for m, _ in n.a:
                for x, _e in m:
                    go(x)
        elif isinstance(n, Atom):
            if n.k in ("inv", "br"):
                go(n.a[0])
            elif n.k == "app":
                for x in n.a[1:]:
                    go(x)
            elif n.k == "sum":
                for x, _e in n.a[1]:
                    go(x)
    go(n)
    return out


# ------------------------------------------------------------------ replacement of applications
def replace_apps(n, f, cache=None):
    """rebuild term n, mapping each app atom / bapp through f (f returns None to keep)"""
    if cache is None:
        cache = {}
    r = cache.get(n)
    if r is not None:
        return r
    if isinstance(n, Poly):
        out = ZERO
        for m, c in n.a:
            t = num(c)
            for x, e in m:
                s = replace_apps(x, f, cache)
                for _ in range(e):
                    t = t * s
            out = out + t
        r = out
    elif isinstance(n, Atom):
        if n.k == "var":
            r = P(n)
        elif n.k == "app":
            a = [replace_apps(x, f, cache) for x in n.a[1:]]
            q = app(n.a[0], a, n.sort)
            at = atom_of(q)
            s = f(at) if at is not None else None
            r = q if s is None else s
        elif n.k == "inv":
            r = inv(replace_apps(n.a[0], f, cache))
        elif n.k == "br":
            r = bracket(replace_apps(n.a[0], f, cache))
        elif n.k == "sum":
            bs, body = open_sum(n)
            body = replace_apps(body, f, {})
            r = body
            for v, lo, hi in reversed(bs):
                r = mk_sum(v, replace_apps(lo, f, {}), replace_apps(hi, f, {}), r)
    else:
        if n.k == "le":
            r = le0(replace_apps(n.a[0], f, cache))
        elif n.k == "eq":
            r = eq(replace_apps(n.a[0], f, cache), ZERO)
        elif n.k == "not":
            r = neg(replace_apps(n.a[0], f, cache))
        elif n.k == "and":
            r = conj(*[replace_apps(x, f, cache) for x in n.a])
        elif n.k == "bapp":
            q = bapp(n.a[0], [replace_apps(x, f, cache) for x in n.a[1:]])
            s = f(q) if isinstance(q, B) and q.k == "bapp" else None
            r = q if s is None else s
        elif n.k == "forall":
            vs, b = open_forall(n)
            r = forall(vs, replace_apps(b, f, {}))
        else:
            r = n
    cache[n] = r
    return r


le0 = T.le0

_UID = re.compile(r"^(?:uninit|empty|scratch|unspec|W)(\d+)")
_LID = re.compile(r"^L(\d+)a?:")


class Mark:
    """symbols created after this point belong to one iteration: a term that holds for every iteration has them as
    functions of the iteration number"""
    def __init__(self, ex):
        self.var = T._fresh[0]; self.uid = X.Exec._u; self.loop = _loop[0]; self.cache = {}

    def born_name(self, nm):
        if nm.endswith("@"):
            return False
        m = _UID.match(nm)
        if m:
            return int(m.group(1)) > self.uid
        m = _LID.match(nm)
        return bool(m) and int(m.group(1)) > self.loop

    def born_vars(self, n, skip=()):
        out = []
        for v in fv(n):
            j = v.a[0].rfind("!")
            if j >= 0 and v not in skip and v.a[0][j + 1:].isdigit() and int(v.a[0][j + 1:]) > self.var:
                out.append(v)
        return out

    def lift(self, n, k, skip=()):
        vs = self.born_vars(n, set(skip) | {atom_of(k)})
        if vs:
            m = {v: app(v.a[0] + "@", (k,), v.sort) for v in vs}
            n = bsubst(n, m) if isinstance(n, B) else subst(n, m)

        def f(x):
            if self.born_name(x.a[0]):
                return bapp(x.a[0] + "@", (k,) + tuple(x.a[1:])) if isinstance(x, B) else app(x.a[0] + "@", (k,) + tuple(x.a[1:]), x.sort)
            return None
        if any(self.born_name(x.a[0]) for x in atoms_in(n) if x.k == "app") or self.born_bapp(n):
            n = replace_apps(n, f)
        return n

    def born_bapp(self, n):
        seen = set()

        def go(n):
            if not isinstance(n, (Poly, B, Atom)) or n in seen:
                return False
            seen.add(n)
            if isinstance(n, Poly):
                return any(go(x) for m, _ in n.a for x, _e in m)
            if isinstance(n, B):
                if n.k == "bapp" and self.born_name(n.a[0]):
                    return True
                return any(go(x) for x in n.a)
            if n.k == "sum":
                return any(go(x) for x, _e in n.a[1])
            return any(go(x) for x in n.a if isinstance(x, (Poly, B, Atom)))
        return go(n)



# ------------------------------------------------------------------ main entry
def run(ex, node, cond, body, inc):
    if ex.pure:
        raise NotPure()
    _loop[0] += 1
    lid = "L%d" % _loop[0]
    later = []
    for lc in reversed(getattr(ex, "loop_specs", [])):
        spec = lc(ex, node)
        if spec is None:
            continue
        if spec.fallback:
            later.append(spec)
            continue
        try:
            return invariant_loop(ex, lid, spec, node, cond, body, inc)
        except Decline:
            pass
    heap0, ctx0, emit0, n0 = dict(ex.heap), ex.ctx, ex.emit, len(ex.obls)
    nf, nw, dp, nt, pure = len(ex.frames), len(ex.where), ex.depth, len(ex.trace), ex.pure
    try:
        return summarise(ex, lid, cond, body, inc)
    except (NormalFormLimit, Unsupported) as e:
        err = e
        del ex.obls[n0:]
    for spec in later if isinstance(err, (NormalFormLimit, LoopFail)) else ():
        ex.heap, ex.ctx, ex.emit = dict(heap0), ctx0, emit0
        try:
            return invariant_loop(ex, lid, spec, node, cond, body, inc)
        except Decline:
            pass
    ex.heap, ex.ctx, ex.emit, ex.pure, ex.depth = dict(heap0), ctx0, emit0, pure, dp
    del ex.frames[nf:], ex.where[nw:], ex.trace[nt:]
    if isinstance(err, LoopFail):
        # again, knowing whether there is a first iteration
        b = cond()
        if isinstance(b, B) and b is not TRUE and b is not FALSE and ex.ctx.decide(b) is None:
            if not ex.branch(b):
                return
            heap0, ctx0, n0 = dict(ex.heap), ex.ctx, len(ex.obls)
            try:
                return summarise(ex, lid + "a", cond, body, inc)
            except (NormalFormLimit, Unsupported):
                del ex.obls[n0:]
            ex.heap, ex.ctx, ex.emit, ex.pure, ex.depth = dict(heap0), ctx0, emit0, pure, dp
            del ex.frames[nf:], ex.where[nw:], ex.trace[nt:]
    return unroll(ex, cond, body, inc, err)


UNROLL = 4


def unroll(ex, cond, body, inc, err):
    """a loop without closed form which provably ends after a few iterations is executed"""
    for k in range(UNROLL + 1):
        b = cond()
        d = True if b is TRUE else False if b is FALSE else ex.ctx.decide(b)
        if d is False:
            return
        if k == UNROLL:
            break
        if d is None and not ex.branch(b):
            return
        try:
            body()
        except ContinueExc:
            pass
        except BreakExc:
            return
        inc()
    raise err if isinstance(err, LoopFail) and "summarised" in str(err) else LoopFail("loop not summarised: %s" % err)


class Decline(Exception):
    """raised by LoopSpec.start: the specification is not meant for this loop"""


def discover(ex, cond, body, inc):
    """locations (existing before the loop) written by the loop"""
    heap0 = ex.heap
    W = []
    emit = ex.emit
    ex.emit = False
    outer = ex.writes
    try:
        for rnd in range(8):
            h = dict(heap0)
            ex.heap = h
            k = fresh("kd")
            names = {}
            for w in W:
                loc = Loc(*w)
                v = ex.load(loc.ref)
                nv = typed_generic(ex, loc, v, "W%d_%s" % (ex._uid(), w[0]), k, {}, None)
                ex.heap[w[0]] = ex._put(ex.heap[w[0]], w[1], nv)
            ex.writes = set()
            start = dict(ex.heap)
            for o in run_iter(ex, cond, body, inc):
                for ob, v0 in start.items():
                    if o.heap.get(ob) is not v0 and not any(w[0] == ob for w in ex.writes):
                        raise LoopFail("unlogged write to " + str(ob))
            ws = {w for w in ex.writes if w[0] in heap0}
            new = coarsen(set(W) | ws)
            if new == W:
                return W
            W = new
        raise LoopFail("modified locations do not stabilise")
    finally:
        ex.heap = heap0
        ex.emit = emit
        ex.writes = outer
        if outer is not None:
            for w in W:
                outer.add(w)


def common_conds(outs):
    cs = None
    for o in outs:
        s = list(o.conds)
        cs = s if cs is None else [c for c in cs if c in s]
    return cs or []


def summarise(ex, lid, cond, body, inc):
    heap0, ctx0 = dict(ex.heap), ex.ctx
    W = [Loc(*w) for w in discover(ex, cond, body, inc)]
    pre = {(w.obj, w.path): ex.load(w.ref) for w in W}
    k = fresh("it")
    katom = atom_of(k)
    slots = {}
    emit0 = ex.emit
    mark = Mark(ex)

    def set_state(kk):
        h = dict(heap0)
        ex.heap = h
        for w in W:
            v = typed_generic(ex, w, pre[(w.obj, w.path)], "%s:%s%s" % (lid, w.obj, "".join("." + s[1] for s in w.path)), kk, slots, None)
            h[w.obj] = ex._put(h[w.obj], w.path, v)

    def explore(facts):
        set_state(k)
        base = ctx0.extend(facts)
        ex.ctx = base
        outs = run_iter(ex, cond, body, inc)
        return outs

    def post_leaf(outs, slot, idx):
        common = set(common_conds(outs))
        res = None
        for o in reversed(outs):
            v = ex.walk(o.heap[slot.loc.obj], slot.loc.path)
            v = v.thunk() if isinstance(v, Lazy) else v
            leaf = get_leaf(v, slot.path, idx)
            c = conj(*[x for x in o.conds if x not in common])
            if res is None:
                res = leaf
            else:
                res = (ite if isinstance(leaf, Poly) else bite)(c, leaf, res)
        return mark.lift(res, k, [v for i in idx for v in fv(P(i))])

    opened = set()      # slots without closed form when the body was last explored: their symbols occur in its results

    def unsolved_in(n):
        for s in slots.values():
            if (s.closed is None or s.name in opened) and (apps_named(n, s.name) if not s.isbool else bapps_named(n, s.name)):
                return True
        return False

    try:
        ex.emit = False
        # ---- phase 1: scalars
        trip = None
        early = None
        for rnd in range(12):
            facts = [le(0, k)]
            if trip is not None:
                facts.append(lt(k, trip))
            opened.clear(); opened.update(s.name for s in slots.values() if s.closed is None)
            outs = explore(facts)
            opened.update(s.name for s in slots.values() if s.closed is None)
            cont = [o for o in outs if o.kind == "normal" and o.val == "next" or o.kind == "continue"]
            exits = [o for o in outs if o.kind == "normal" and o.val == "exit"]
            if not cont:
                # the body never completes an iteration: unroll once
                ex.emit = emit0
                ex.heap = dict(heap0); ex.ctx = ctx0
                return once(ex, cond, body, inc)
            progress = False
            allsolved = True
            for key, s in list(slots.items()):
                if not s.scalar or s.closed is not None:
                    continue
                for o in cont:
                    if s.sort == "Int" and not s.isbool:
                        pass
                post = post_leaf(cont, s, ())
                x0 = get_leaf(pre[(s.loc.obj, s.loc.path)], s.path, ())
                base = cont[0].ctx if len(cont) == 1 else ctx0.extend(facts)
                if s.isbool:
                    me = bapp(s.name, (k,))
                    if post is me:
                        s.closed = const_closed(x0); progress = True
                    elif not unsolved_in(post):
                        s.closed = last_value_b(x0, post, katom); progress = True
                    else:
                        allsolved = False
                    continue
                me = app(s.name, (k,), s.sort)
                if s.sort == "Int" and not is_int(post):
                    s.sort = "Real"; progress = True
                    continue
                d = post - me
                if unsolved_in(d):
                    d = base.simp(d)
                if const_of(d) is not None or katom not in fv(d) and not unsolved_in(d):
                    s.closed = (lambda x0, d: lambda kk, idx: x0 + d * kk)(x0, d)
                    progress = True
                elif not unsolved_in(d):
                    s.closed = (lambda x0, d: lambda kk, idx: x0 + sum_to(d, katom, kk))(x0, d)
                    progress = True
                else:
                    p2 = post
                    if not unsolved_in(p2):
                        s.closed = last_value(x0, post, katom); progress = True
                    else:
                        allsolved = False
            # ---- trip count
            if trip is None:
                t = trip_count(ex, cond, k, slots)
                if t is not None:
                    trip = t
                    progress = True
            if not progress:
                break
        if trip is None:
            raise LoopFail("trip count not determined")
        # ---- phase 2: containers
        for rnd in range(12):
            facts = [le(0, k), lt(k, trip)]
            opened.clear(); opened.update(s.name for s in slots.values() if s.closed is None)
            outs = explore(facts)
            for w in W:
                # instantiate generic leaves so that every slot exists
                for path, idx, leaf in indexed_leaves(ex.load(Ref(w.obj, w.path)) if False else pre[(w.obj, w.path)]):
                    kk = (w.obj, w.path, path)
                    if kk not in slots:
                        nm = "%s:%s%s" % (lid, w.obj, "".join("." + s[1] for s in w.path))
                        sort = "Int" if isinstance(leaf, Poly) and leaf_sort(leaf, path) == "Int" else "Real"
                        if isinstance(leaf, B):
                            sort = "Bool"
                        slots[kk] = Slot(w, path, nm + "." + ".".join(path), isinstance(leaf, B), False, sort)
                        slots[kk].nidx = len(idx)
            todo = [s for s in slots.values() if s.closed is None]
            opened.update(s.name for s in todo)
            if not todo:
                break
            cont = [o for o in outs if o.kind == "normal" and o.val == "next" or o.kind == "continue"]
            progress = False
            for s in todo:
                if s.scalar:
                    post = post_leaf(cont, s, ())
                    if retry_scalar(ex, s, post, k, katom, pre, unsolved_in, ctx0.extend(facts), slots, trip):
                        progress = True
                    continue
                if solve_container(ex, s, cont, post_leaf, pre, k, katom, slots, unsolved_in, ctx0, trip, W):
                    progress = True
            if not progress:
                bad = [s.name for s in todo if s.closed is None]
                raise LoopFail("no closed form for " + ", ".join(bad))
        # ---- exits from inside
        outs = explore([le(0, k), lt(k, trip)])
        side = [o for o in outs if o.kind in ("break", "return", "throw", "end")]
        cont = [o for o in outs if o.kind == "normal" and o.val == "next" or o.kind == "continue"]
        leaves = [o for o in side if o.kind in ("break", "return", "throw")]
        late = [o for o in outs if o.kind == "normal" and o.val == "exit"]
        # exits through the loop condition before the trip count are handled like breaks
        late = [o for o in late if prover.feasible(o.ctx)]
        cc = common_conds(cont) if cont else []
        E = FALSE
        for o in leaves + late:
            c = conj(*o.conds)
            E = disj(E, mark.lift(c, k))
    finally:
        ex.emit = emit0
        ex.heap = heap0
        ex.ctx = ctx0
    # ---- final: check obligations of a generic iteration with all closed forms, then leave
    l = fresh("l")

    def no_exit(upto):
        if E is FALSE:
            return TRUE
        return forall([l], implies(conj(le(0, l), lt(l, upto)), neg(bsubst(E, {katom: l}))))
    if ex.emit and ex.past_prefix():
        set_state(k)
        ex.ctx = ctx0.extend([le(0, k), lt(k, trip)])
        if E is not FALSE:
            ex.ctx.assume(no_exit(k))
        try:
            run_iter(ex, cond, body, inc)
        finally:
            ex.heap = heap0
            ex.ctx = ctx0
    ch = 0 if E is FALSE else ex.choose(2)
    if ch == 0:
        set_state(trip)
        ex.ctx = ctx0
        if E is not FALSE:
            ex.ctx.assume(no_exit(trip))
        transfer(ex, cont, ctx0, katom, trip, mark)
        if ex.writes is not None:
            for w in W:
                ex.writes.add((w.obj, w.path))
        return
    k0 = fresh("exit")
    set_state(k0)
    ex.ctx = ctx0
    ex.ctx.assume(conj(le(0, k0), lt(k0, trip)))
    ex.ctx.assume(no_exit(k0))
    ex.ctx.assume(bsubst(E, {katom: k0}))
    ex.trace.append(("loop-exit", lid, k0))
    em = ex.emit
    ex.emit = False
    try:
        if not ex.branch(cond()):
            return
        try:
            body()
        except ContinueExc:
            raise EndPath()
        except BreakExc:
            return
    finally:
        ex.emit = em
    raise EndPath()


def transfer(ex, cont, ctx0, katom, trip, mark):
    """facts learnt in each iteration (contracts of callees) hold for every iteration"""
    base = set(ctx0.ground) | set(ctx0.foralls)
    for o in cont:
        new = [f for f in list(o.ctx.ground) + list(o.ctx.foralls) if f not in base and f not in o.conds]
        keep = []
        for f in new:
            if katom not in fv(f):
                continue
            if X_is_rangefact(f, katom):
                continue
            if not any(x.k == "app" for x in atoms_in(f)):
                continue
            # only facts that are not obligations-turned-assumptions about temporary symbols
            keep.append(f)
        if not keep:
            continue
        l = fresh("l")
        g = conj(le(0, l), lt(l, trip), *[bsubst(mark.lift(c, P(katom)), {katom: l}) for c in o.conds])
        for f in keep:
            ex.ctx.assume(forall([l], implies(g, bsubst(mark.lift(f, P(katom)), {katom: l}))))


def X_is_rangefact(f, katom):
    return prover.is_linear_int(f) and not any(x.k == "app" for x in atoms_in(f))


def const_closed(x0):
    return lambda kk, idx: x0


def last_value(x0, post, katom):
    return lambda kk, idx: ite(le(P(kk), 0), x0, subst(post, {katom: P(kk) - 1}))


def last_value_b(x0, post, katom):
    return lambda kk, idx: bite(le(P(kk), 0), x0, bsubst(post, {katom: P(kk) - 1}))


def sum_to(d, katom, kk):
    q = fresh("q")
    return mk_sum(q, 0, kk, subst(d, {katom: q}))


def once(ex, cond, body, inc):
    if not ex.branch(cond()):
        return
    try:
        body()
    except BreakExc:
        return
    except ContinueExc:
        pass
    inc()
    raise LoopFail("loop body completes on a path not seen before")


def trip_count(ex, cond, k, slots):
    """number of iterations from the linear part of the loop condition (state of iteration k is set up)"""
    katom = atom_of(k)
    ctx0 = ex.ctx
    outs = ex.explore(cond)
    lits = None
    for o in outs:
        if o.kind != "normal" or not isinstance(o.val, B):
            return None
        ls = list(o.val.a) if o.val.k == "and" else [o.val]
        ls += [x for c in o.conds for x in (c.a if c.k == "and" else (c,))] if o.val is not FALSE else []
        if o.val is FALSE:
            continue
        lits = ls if lits is None else [x for x in lits if x in ls]
    for c in lits or []:
        neq = False
        if c.k == "le":
            p = c.a[0]
        elif c.k == "not" and c.a[0].k == "le":
            p = ONE - c.a[0].a[0] if is_int(c.a[0].a[0]) else None
        elif c.k == "not" and c.a[0].k == "eq":
            p = c.a[0].a[0]; neq = True
        else:
            continue
        if p is None or not is_int(p):
            continue
        # p = a*k + rest <= 0
        a = None
        ok = True
        rest = ZERO
        for m, co in p.a:
            if len(m) == 1 and m[0][0] is katom and m[0][1] == 1:
                a = co
            elif any(katom in fv(x) for x, _ in m):
                ok = False
            else:
                rest = rest + T._poly({m: co})
        if not ok or a is None:
            continue
        if any(apps_named(rest, s.name) for s in slots.values() if s.closed is None and not s.isbool):
            continue
        if neq:
            if abs(a) != 1:
                continue
            n = scale(rest, -1 / a)      # k != n
            if ctx0.decide(le(0, n)) is not True:
                continue
            return n
        if a == 1:
            n = ONE - rest               # k <= -rest  <=> k < 1-rest
            if ctx0.decide(le(0, n)) is True:
                return n
            return ite(le(0, n), n, ZERO)
    return None


def retry_scalar(ex, s, post, k, katom, pre, unsolved_in, ctx, slots, trip):
    x0 = get_leaf(pre[(s.loc.obj, s.loc.path)], s.path, ())
    if s.isbool:
        me = bapp(s.name, (k,))
        if post is me:
            s.closed = const_closed(x0); return True
        if not unsolved_in(post):
            s.closed = last_value_b(x0, post, katom); return True
        # and/or folds: post = me and c, or post = me or c
        if post.k == "and" and me in post.a:
            c = conj(*[x for x in post.a if x is not me])
            if not unsolved_in(c):
                def closed(kk, idx):
                    l = fresh("l")
                    return conj(x0, forall([l], implies(conj(le(0, l), lt(l, kk)), bsubst(c, {katom: l}))))
                s.closed = closed
                return True
        if post.k == "not" and post.a[0].k == "and" and neg(me) in post.a[0].a:
            c = conj(*[x for x in post.a[0].a if x is not neg(me)])
            if not unsolved_in(c):
                def closed(kk, idx):
                    l = fresh("l")
                    return disj(x0, neg(forall([l], implies(conj(le(0, l), lt(l, kk)), bsubst(c, {katom: l})))))
                s.closed = closed
                return True
        return False
    me = app(s.name, (k,), s.sort)
    d = post - me
    d = rewrite_reads(ex, d, slots, k, katom, pre, ctx, skip=None)
    if unsolved_in(d):
        d = ctx.simp(d)
    if not unsolved_in(d):
        if katom not in fv(d):
            s.closed = lambda kk, idx: x0 + d * kk
        else:
            s.closed = lambda kk, idx: x0 + sum_to(d, katom, kk)
        return True
    p = rewrite_reads(ex, post, slots, k, katom, pre, ctx, skip=None)
    if not unsolved_in(p):
        s.closed = last_value(x0, p, katom)
        return True
    return False


CHANGE = {}


def rewrite_reads(ex, t, slots, k, katom, pre, ctx, skip):
    """reads of unsolved container cells that no earlier iteration changes are reads of the initial contents"""
    for s in slots.values():
        if s.closed is not None or s.scalar or not hasattr(s, "change"):
            continue
        for x in apps_named(t, s.name) if not s.isbool else []:
            if x.a[1] is not k:
                continue
            idx = x.a[2:]
            l = fresh("l")
            c2 = ctx.extend([le(0, l), lt(l, k)])
            ch = subst_change(s, l, idx)
            if c2.simp(ch) is ZERO:
                x0 = get_leaf(pre[(s.loc.obj, s.loc.path)], s.path, idx)
                t = replace_apps(t, lambda a, x=x, x0=x0: x0 if a is x else None)
    return t


def subst_change(s, l, idx):
    vs, katom, ch = s.change
    m = {katom: P(l)}
    for v, i in zip(vs, idx):
        m[v] = P(i)
    return subst(ch, m)


def linear_in(p, atom):
    """p = coef*atom + rest with coef free of atom; None otherwise"""
    coef = ZERO; rest = ZERO
    for m, c in p.a:
        hit = [e for x, e in m if x is atom]
        if not hit:
            rest = rest + T._poly({m: c})
        elif hit[0] == 1:
            mm = tuple((x, e) for x, e in m if x is not atom)
            coef = coef + T._poly({mm: c})
        else:
            return None
    return coef, rest


def solve_container(ex, s, cont, post_leaf, pre, k, katom, slots, unsolved_in, ctx0, trip, W):
    n = s.nidx if hasattr(s, "nidx") else None
    if n is None:
        n = count_idx(pre[(s.loc.obj, s.loc.path)], s.path)
    idx = [fresh("g") for _ in range(n)]
    iv = [atom_of(i) for i in idx]
    full = idx
    base = pre[(s.loc.obj, s.loc.path)]
    post = post_leaf(cont, s, list(full))
    ctx = ctx0.extend([le(0, k), lt(k, trip)])
    # implicit quantification over valid indices only
    rng = range_facts(base, s, full)
    ctx = ctx.extend(rng)

    x0_cache = []

    def x0_of(ix):
        if s.isbool:
            return get_leaf(base, s.path, list(ix))
        if not x0_cache:
            # contents before the loop, simplified for indices inside the container
            x0_cache.append(ctx0.extend(rng).simp(get_leaf(base, s.path, list(full))))
        return subst(x0_cache[0], dict(zip(iv, [P(i) for i in ix])))
    if s.isbool:
        me = bapp(s.name, [k] + full)
        if post is me:
            s.closed = lambda kk, ix: x0_of(ix)
            return True
        # overwrite: post = bite(w, R, me)
        pb = bracket(post)
        bm = T._intern(Atom, "br", (me,), "Real")
        li = linear_in(pb, bm)
        if li is None:
            return False
        coef, rest = li
        w = ONE - coef
        w = ctx.simp(w); rest = ctx.simp(rest)
        if unsolved_in(w) or unsolved_in(rest):
            return False

        def closed_b(kk, ix):
            m = dict(zip(iv, [P(i) for i in ix]))
            q = fresh("q")
            tot = bracket(x0_of(ix)) * (ONE - mk_sum(q, 0, kk, subst(subst(w, m), {katom: q})))
            q2 = fresh("q")
            tot = tot + mk_sum(q2, 0, kk, subst(subst(rest, m), {katom: q2}))
            return ne(tot, 0)
        if not disjoint(ctx0, w, katom, trip, rng):
            return False
        s.closed = closed_b
        return True
    meP = app(s.name, [k] + full, s.sort)
    me = atom_of(meP)
    if post is meP:
        s.closed = lambda kk, ix: x0_of(ix)
        return True
    post = ctx.simp(post)
    d = post - meP
    li = linear_in(post, me)
    if li is None:
        s.change = (iv, katom, d)
        return False
    coef, rest = li
    w = ctx.simp(ONE - coef)
    # where the cell may change at all
    s.change = (iv, katom, ctx.simp(d))
    if w is ZERO:
        d = rest
        d = ctx.simp(rewrite_reads(ex, d, slots, k, katom, pre, ctx, s))
        if unsolved_in(d):
            return False

        def closed(kk, ix):
            m = dict(zip(iv, [P(i) for i in ix]))
            q = fresh("q")
            return x0_of(ix) + mk_sum(q, 0, kk, subst(subst(d, m), {katom: q}))
        s.closed = template(closed, ctx0, rng, trip, full)
        return True
    # overwrite form
    rest = ctx.simp(rewrite_reads(ex, rest, slots, k, katom, pre, ctx, s))
    w = ctx.simp(rewrite_reads(ex, w, slots, k, katom, pre, ctx, s))
    if unsolved_in(rest) or unsolved_in(w):
        return False
    if not disjoint(ctx0, w, katom, trip, rng):
        return False

    def closed(kk, ix):
        m = dict(zip(iv, [P(i) for i in ix]))
        q = fresh("q")
        q2 = fresh("q")
        x0 = x0_of(ix)
        return x0 * (ONE - mk_sum(q, 0, kk, subst(subst(w, m), {katom: q}))) + mk_sum(q2, 0, kk, subst(subst(rest, m), {katom: q2}))
    s.closed = template(closed, ctx0, rng, trip, full)
    return True


def template(closed, ctx0, rng, trip, full):
    """the closed form simplified once for generic indices inside the container and 0 <= k <= trip"""
    kg = fresh("kg")
    c = ctx0.extend(list(rng) + [le(0, kg), le(kg, trip)])
    t = c.simp(closed(kg, full))
    vs = [atom_of(kg)] + [atom_of(i) for i in full]
    return lambda kk, ix: subst(t, dict(zip(vs, [P(kk)] + [P(i) for i in ix])))


def disjoint(ctx0, w, katom, trip, rng):
    a, b = fresh("l"), fresh("l")
    c = ctx0.extend([le(0, a), lt(a, b), lt(b, trip)] + list(rng))
    return c.simp(subst(w, {katom: a}) * subst(w, {katom: b})) is ZERO


def count_idx(v, path):
    for p, idx, leaf in indexed_leaves(v):
        if p == path:
            return len(idx)
    raise LoopFail("leaf " + str(path))


def range_facts(v, s, idx):
    """0 <= index < dimension along the path (outermost containers only, when known)"""
    out = []
    ix = list(idx)
    for st in s.path:
        if st == "#el":
            i = ix.pop(0)
            out += [le(0, i)]
            if not v.isvec:
                out += [le(0, ix[0])]
            return out
        if st == "[]":
            i = ix.pop(0)
            out += [le(0, i)]
            v = v.fn(i)
        elif st == "*":
            v = v.val
        elif st.startswith("#"):
            return out
        elif st[0] == "<" and isinstance(v, VarV):
            v = v.alts[int(st[1:-1])]
        else:
            v = v.f[st]
    return out


# ------------------------------------------------------------------ invariant loops
class LoopSpec:
    """supplied by a function contract"""
    def invariants(self, ex, k, it):
        """list of (label, B) on the current heap after k iterations"""
        return []

    def step(self, ex, pre_heap, k, it):
        pass

    def on_exit(self, ex, k, it):
        pass

    def solve(self, ex, slot, x0, d, k):
        """closed form (kk, idx) -> value of a scalar that grows by d in iteration k, or None"""
        return None

    props = ()
    fallback = False    # only used when the loop has no closed form
    keep = ()       # slots solved automatically
    havoc = None


def unsolved_mention(d, slots):
    return any(apps_named(d, s.name) if not s.isbool else bapps_named(d, s.name) for s in slots.values() if s.closed is None)


class Havoc(LoopSpec):
    """no invariant: sums and counters are solved, everything else the loop writes is arbitrary"""
    fallback = True


def invariant_loop(ex, lid, spec, node, cond, body, inc):
    heap0, ctx0 = dict(ex.heap), ex.ctx
    # a replay of the same decisions reaches the loop in the same state: reuse what was found out about it
    ckey = (id(node), ex.nobj, tuple(ex.dec.taken)) if ex.xdepth == 1 else None
    known = ex.loop_cache.get(ckey) if ckey else None
    if known is not None:
        W = [Loc(*w) for w in known[0]]
    else:
        W = [Loc(*w) for w in discover(ex, cond, body, inc)]
    pre = {(w.obj, w.path): ex.load(w.ref) for w in W}
    k = fresh("it")
    katom = atom_of(k)
    slots = {}
    emit0 = ex.emit
    mark = Mark(ex)
    found = {}
    info = Summary()
    info.W = W; info.pre = pre; info.heap0 = heap0; info.lid = lid; info.trip = None

    def set_state(kk):
        h = dict(heap0)
        ex.heap = h
        for w in W:
            v = typed_generic(ex, w, pre[(w.obj, w.path)], "%s:%s%s" % (lid, w.obj, "".join("." + s[1] for s in w.path)), kk, slots, None)
            h[w.obj] = ex._put(h[w.obj], w.path, v)
    # counters with a constant step are solved; everything else is left to the invariant
    trip = None
    try:
        ex.emit = False
        if known is not None:
            set_state(k)
            for key, (d, sort, isbool, scalar) in known[1].items():
                s = slots.get(key)
                if s is None:
                    loc = Loc(key[0], key[1])
                    s = slots[key] = Slot(loc, key[2], "%s:%s%s.%s" % (lid, loc.obj, "".join("." + x[1] for x in loc.path), ".".join(key[2])), isbool, scalar, sort)
                s.sort = sort
                if d is not None:
                    x0 = get_leaf(pre[(s.loc.obj, s.loc.path)], s.path, ())
                    s.closed = (lambda x0, d: lambda kk, idx: x0 + d * kk)(x0, d)
            set_state(k)
            ex.ctx = ctx0.extend([le(0, k)])
            trip = trip_count(ex, cond, k, slots)
        for rnd in range(10) if known is None else ():
            set_state(k)
            ex.ctx = ctx0.extend([le(0, k)])
            outs = run_iter(ex, cond, body, inc)
            cont = [o for o in outs if o.kind == "normal" and o.val == "next" or o.kind == "continue"]
            if not cont:
                break
            progress = False
            for key, s in list(slots.items()):
                if not s.scalar or s.closed is not None or s.isbool:
                    continue
                ds = set()
                for o in cont:
                    v = ex.walk(o.heap[s.loc.obj], s.loc.path)
                    leaf = get_leaf(v, s.path, ())
                    d = leaf - app(s.name, (k,), s.sort)
                    if const_of(d) is None:
                        try:
                            d = mark.lift(o.ctx.simp(d), k)
                        except NormalFormLimit:
                            d = mark.lift(d, k)
                    ds.add(d)
                if len(ds) == 1:
                    d = ds.pop()
                    x0 = get_leaf(pre[(s.loc.obj, s.loc.path)], s.path, ())
                    sc = spec.solve(ex, s, x0, d, k) if const_of(d) is None else None
                    if const_of(d) is not None:
                        s.closed = (lambda x0, d: lambda kk, idx: x0 + d * kk)(x0, d)
                        found[key] = (d, s.sort, s.isbool, s.scalar)
                        progress = True
                    elif sc is not None:
                        s.closed = sc
                        progress = True
                        ckey = None
                    elif s.sort == "Int" and not is_int(d):
                        s.sort = "Real"; progress = True
                    elif s.sort != "Int" and not unsolved_mention(d, slots):
                        # a sum of terms that depend on the iteration number only
                        s.closed = (lambda x0, d: lambda kk, idx: x0 + sum_to(d, katom, kk))(x0, d)
                        progress = True
                        ckey = None
                elif s.sort == "Int" and any(not is_int(x) for x in ds):
                    s.sort = "Real"; progress = True
            # elements that merely start as integers
            for w in W:
                for path, idx, leaf in indexed_leaves(pre[(w.obj, w.path)]):
                    if (w.obj, w.path, path) not in slots:
                        slots[(w.obj, w.path, path)] = Slot(w, path, "%s:%s%s" % (lid, w.obj, "".join("." + x[1] for x in w.path)) + "." + ".".join(path), isinstance(leaf, B), False,
                                                            "Bool" if isinstance(leaf, B) else leaf_sort(leaf, path))
            for s in list(slots.values()):
                if s.scalar or s.isbool or s.closed is not None or s.sort != "Int":
                    continue
                gs = [fresh("g") for _ in range(count_idx(pre[(s.loc.obj, s.loc.path)], s.path))]
                if any(not is_int(get_leaf(ex.walk(o.heap[s.loc.obj], s.loc.path), s.path, gs)) for o in cont):
                    s.sort = "Real"; progress = True
            exits = [o for o in outs if o.kind == "normal" and o.val == "exit"]
            if trip is None:
                trip = trip_count(ex, cond, k, slots)
                progress = progress or trip is not None
            if not progress:
                break
    finally:
        ex.emit = emit0
        ex.heap = heap0
        ex.ctx = ctx0
    if known is None and ckey:
        for key, s in slots.items():
            if key not in found:
                found[key] = (None, s.sort, s.isbool, s.scalar)
        ex.loop_cache[ckey] = ([(w.obj, w.path) for w in W], found)
    info.trip = trip
    info.slots = slots
    info.set_state = set_state
    spec.start(ex, info)
    # entry
    set_state(num(0))
    # values at iteration 0 are the initial ones
    ex.heap = dict(heap0)
    for label, b in spec.invariants(ex, num(0), info):
        ex.oblige(b, "loop invariant on entry: " + label, spec.label_props.get(label, spec.props), assume=False)
    ex.ctx = ctx0
    # an arbitrary iteration
    ch = ex.choose(2)
    set_state(k)
    ex.ctx.assume(le(0, k))
    for label, b in spec.invariants(ex, k, info):
        ex.ctx.assume(b)
    spec.assume_types(ex, k, info)
    if ch == 0:
        # leave through the loop condition
        if trip is not None:
            ex.ctx.assume(le(k, trip))
            ex.ctx.assume(le(trip, k)) if False else None
        if ex.branch(cond()):
            raise EndPath()
        spec.on_exit(ex, k, info)
        return
    if trip is not None:
        ex.ctx.assume(lt(k, trip))
    pre_heap = dict(ex.heap)
    spec.before(ex, k, info)
    if not ex.branch(cond()):
        raise EndPath()
    try:
        body()
    except ContinueExc:
        pass
    except BreakExc:
        spec.on_break(ex, pre_heap, k, info)
        return
    inc()
    spec.step(ex, pre_heap, k, info)
    for label, b in spec.invariants(ex, k + 1, info):
        ex.oblige(b, "loop invariant preserved: " + label, spec.label_props.get(label, spec.props), assume=False)
    raise EndPath()


for _n in ("start", "assume_types", "before"):
    setattr(LoopSpec, _n, lambda self, ex, *a: None)
LoopSpec.label_props = {}
LoopSpec.on_break = lambda self, ex, pre, k, it: None
