"""Contracts for source/tracing.cc (C21): the collector as a monitor, the JSON report, traced scopes.

The collector's data are owned by its mutex: acquiring the mutex makes them arbitrary except for the invariant
(at most LIMIT events), which has to hold again on release; a load or store of them without the mutex fails an
obligation.  Contracts of the library: std locks, std::deque, chrono, fmt::format (the text with its holes filled, a joined
view being read when it is formatted), getpid / gettid."""
import json
import re
from fractions import Fraction
from terms import *
from values import *
from spec import task, allk, value_eq
import exec as X
import eigen
from exec import qt, tname, Frame

U = ("tracing",)
LIMIT = 100000
P21 = "C21"


def names_are_atoms(ex):
    """an event's name is represented by the identity of the string it refers to"""
    ex.narrow = True               # pids, tids and times are 32- and 64-bit integers: conversions are checked to keep them

    def f(name, idx):
        return app("string#" + name, tuple(idx), "Int") if idx else var("string#" + name, "Int")
    for k in ("basic_string_view", "string_view", "basic_string", "string"):
        ex.sym_types[k] = f


# ---------------------------------------------------------------- the monitor
class Monitor:
    def __init__(self, V):
        ex = self.ex = V.ex
        names_are_atoms(ex)
        rec = ex.record("trace_collector_impl")[1]
        if rec is None:
            raise Unsupported("trace_collector_impl not found")
        fs = ex.fields(rec)
        ev = [f["name"] for f in fs if tname(qt(f))[0] in ("deque", "vector") and tname(tname(qt(f))[1][0])[0] == "trace_event"]
        mu = [f["name"] for f in fs if tname(qt(f))[0] == "mutex"]
        if len(ev) != 1 or len(mu) != 1:
            raise Unsupported("trace_collector_impl has not one event list and one mutex")
        self.events, self.mutex = ev[0], mu[0]
        self.data = [(f["name"], qt(f)) for f in fs if f["name"] != self.mutex]
        self.obj = ex.new(Struct("trace_collector_impl", dict({n: ex.sym(t, "before." + n) for n, t in self.data}, **{self.mutex: Opaque("mutex")})), "impl")
        self.held = ex.new(num(0), "held")
        ptr = [f["name"] for f in ex.fields(ex.record("trace_collector")[1])]
        if len(ptr) != 1:
            raise Unsupported("trace_collector has other members")
        self.this = ex.new(Struct("trace_collector", {ptr[0]: PtrV(self.obj, TRUE)}), "collector")
        ex.guard = self.access
        ex.destructors = dict(LOCK_DTORS)

    def is_held(self):
        return const_of(self.ex.heap[self.held.obj]) == 1

    def access(self, ex, r, write):
        if r.obj == self.obj.obj and r.path and r.path[0][0] == "f" and r.path[0][1] != self.mutex and not self.is_held():
            ex.oblige(FALSE, "the %s of the collector are accessed under its lock" % r.path[0][1], (P21,), assume=False)
            raise X.EndPath()

    def mine(self, m):
        if not isinstance(m, Ref) or m.obj != self.obj.obj or m.path != (("f", self.mutex),):
            raise Unsupported("a lock on another mutex")

    def acquire(self, m):
        self.mine(m)
        ex = self.ex
        if self.is_held():
            ex.oblige(FALSE, "the mutex is not locked again by its owner", (P21,), assume=False)
            raise X.EndPath()
        ex.store(self.held, num(1))
        k = ex._uid()
        st = ex.heap[self.obj.obj]
        new = dict(st.f)
        for n, t in self.data:
            new[n] = ex.sym(t, "held%d.%s" % (k, n))
        ex.heap[self.obj.obj] = Struct(st.type, new)
        v = new[self.events]
        ex.assume(le(0, v.len), le(v.len, LIMIT))
        ex.trace.append(("acquire", v))

    def release(self, m):
        self.mine(m)
        ex = self.ex
        if not self.is_held():
            ex.oblige(FALSE, "only a locked mutex is unlocked", (P21,), assume=False)
            raise X.EndPath()
        v = ex.heap[self.obj.obj].f[self.events]
        ex.oblige(conj(le(0, v.len), le(v.len, LIMIT)), "at most %d events are kept when the lock is released" % LIMIT, (P21,))
        ex.store(self.held, num(0))
        ex.trace.append(("release", v))

    # ---- std locks
    def table(self):
        def guard(ex, t, vals, n):
            k = tname(t)[0]
            xs = [x for x in n.get("inner", ()) if x.get("kind") and x.get("kind") != "CXXDefaultArgExpr"]
            if len(xs) == 0 and k == "unique_lock":
                ms, own = [], False
            elif len(xs) == 1:
                m = ex.ev(xs[0])
                v = ex.load(m)
                if isinstance(v, Opaque) and v.kind in LOCK_DTORS:
                    return v                                  # a copy elided by the compiler
                ms, own = [m], True
            elif len(xs) == 2 and k == "unique_lock" and "defer_lock" in qt(xs[1]):
                ms, own = [ex.ev(xs[0])], False
            elif len(xs) == 2 and k in ("unique_lock", "lock_guard") and "adopt_lock" in qt(xs[1]):
                ms, own = [ex.ev(xs[0])], True
                self.mine(ms[0])
                ex.oblige(TRUE if self.is_held() else FALSE, "an adopted mutex is locked", (P21,), assume=False)
                return self.lock(k, ms[0], True)
            else:
                raise Unsupported("lock constructor")
            if own:
                self.acquire(ms[0])
            return self.lock(k, ms[0] if ms else None, own)

        def m_lock(ex, this, v, args, n):
            self.acquire(this)

        def m_unlock(ex, this, v, args, n):
            self.release(this)

        def l_lock(ex, this, v, args, n):
            self.acquire(v.d["m"])
            ex.store(this, Opaque(v.kind, id=v.d["id"], m=v.d["m"], own=True, mon=self))

        def l_unlock(ex, this, v, args, n):
            if not v.d["own"]:
                ex.oblige(FALSE, "only an owned lock is unlocked", (P21,), assume=False)
                raise X.EndPath()
            self.release(v.d["m"])
            ex.store(this, Opaque(v.kind, id=v.d["id"], m=v.d["m"], own=False, mon=self))
        out = {("construct", k): Lazy_args(guard) for k in LOCK_DTORS}
        out.update({("mutex", "lock"): m_lock, ("mutex", "unlock"): m_unlock, ("unique_lock", "lock"): l_lock, ("unique_lock", "unlock"): l_unlock,
                    ("unique_lock", "owns_lock"): lambda ex, this, v, a, n: TRUE if v.d["own"] else FALSE})
        return out

    def lock(self, k, m, own):
        v = Opaque(k, id=self.ex._uid(), m=m, own=own, mon=self)
        self.ex.temps.append(self.ex.new(v, "lock"))
        return v


def Lazy_args(f):
    f.raw = True
    return f


def unlock(ex, cell, v):
    v = ex.heap[cell.obj]
    if v.d["own"]:
        v.d["mon"].release(v.d["m"])
        ex.store(cell, Opaque(v.kind, id=v.d["id"], m=v.d["m"], own=False, mon=v.d["mon"]))


LOCK_DTORS = {"lock_guard": unlock, "scoped_lock": unlock, "unique_lock": unlock}


# ---------------------------------------------------------------- text
def lit(v):
    if isinstance(v, Opaque) and v.kind == "str" and isinstance(v.d.get("v"), str):
        s = v.d["v"]
        return json.loads(s) if s.startswith('"') else s
    return None


def holes(tpl):
    """a fmt template as a list of strings and (hole, field name or number)"""
    out, i, auto, cur = [], 0, 0, ""
    while i < len(tpl):
        c = tpl[i]
        if c in "{}" and tpl[i:i + 2] == c + c:
            cur += c
            i += 2
        elif c == "{":
            j = tpl.index("}", i)
            nm = tpl[i + 1:j]
            if not re.match(r"^\w*$", nm):
                raise Unsupported("format specification " + nm)
            if cur:
                out.append(cur)
            cur = ""
            if nm == "":
                nm = str(auto)
                auto += 1
            out.append(("hole", nm))
            i = j + 1
        elif c == "}":
            raise Unsupported("format template")
        else:
            cur += c
            i += 1
    if cur:
        out.append(cur)
    return out


def filled(ex, tpl, args):
    named, pos = {}, []
    for a in args:
        if isinstance(a, Opaque) and a.kind == "named_arg":
            named[a.d["name"]] = a.d["v"]
            pos.append(a.d["v"])
        else:
            pos.append(a)
    out = []
    for p in holes(tpl):
        if isinstance(p, str):
            out.append(p)
            continue
        nm = p[1]
        if nm in named:
            v = named[nm]
        elif nm.isdigit() and int(nm) < len(pos):
            v = pos[int(nm)]
        else:
            raise Unsupported("format argument " + nm)
        t = lit(v)
        if t is not None:
            out.append(t)
        elif isinstance(v, Opaque) and v.kind == "text":
            out += v.d["parts"]
        elif isinstance(v, Opaque) and v.kind == "join":
            out.append(("join", ex.load(v.d["r"]), v.d["sep"]))     # the view reads its elements now
        else:
            out.append(("value", v))
    return out


def args_of(ex, xs):
    return [ex.rv(x) for x in xs if x.get("kind") != "CXXDefaultArgExpr"]


def c_arg(ex, n, xs):
    v = args_of(ex, xs)
    if lit(v[0]) is None:
        raise Unsupported("name of a format argument")
    return Opaque("named_arg", name=lit(v[0]), v=v[1])


def c_join(ex, n, xs):
    xs = [x for x in xs if x.get("kind") != "CXXDefaultArgExpr"]
    rs = [ex.ev(x) for x in xs]
    if len(rs) == 3:
        a, b = ex.load(rs[0]), ex.load(rs[1])
        if not (isinstance(a, IterV) and isinstance(b, IterV)) or const_of(P(a.idx)) != 0:
            raise Unsupported("fmt::join of a part of a container")
        ex.oblige(eq(b.idx, ex.load(a.ref).len), "the report covers every kept event", (P21,))
        r = a.ref
    else:
        r = rs[0] if isinstance(rs[0], Ref) else ex.new(rs[0], "range")
        ex.load(r)                                            # begin() and end() of the container
    if not isinstance(ex.load(r), VecV) or lit(ex.load(rs[-1])) is None:
        raise Unsupported("fmt::join")
    return Opaque("join", r=r, sep=lit(ex.load(rs[-1])))


def c_format(ex, n, xs):
    v = args_of(ex, xs)
    if lit(v[0]) is None:
        raise Unsupported("format template is not a constant")
    return Opaque("text", parts=filled(ex, lit(v[0]), v[1:]))


def c_format_to(ex, n, xs):
    v = args_of(ex, xs)
    if lit(v[1]) is None or not (isinstance(v[0], Opaque) and v[0].kind == "out"):
        raise Unsupported("fmt::format_to")
    return Opaque("out", parts=v[0].d["parts"] + filled(ex, lit(v[1]), v[2:]))


def c_basic_format(ex, t, vals, n):
    return vals[0]


TEXT = {("std", "arg"): c_arg, ("std", "join"): c_join, ("std", "format"): c_format, ("std", "format_to"): c_format_to,
        ("std", "runtime"): lambda ex, n, xs: args_of(ex, xs)[0],
        ("construct", "basic_format_string"): c_basic_format, ("construct", "format_string"): c_basic_format,
        ("construct", "fstring"): c_basic_format}


# ---------------------------------------------------------------- clock, process and thread
UNITS = {"nanoseconds": Fraction(1, 10 ** 9), "microseconds": Fraction(1, 10 ** 6), "milliseconds": Fraction(1, 1000), "seconds": Fraction(1)}


def unit_of(n):
    for t in (n.get("type", {}).get("desugaredQualType", ""), n.get("type", {}).get("qualType", "")):
        m = re.search(r"ratio<(\d+)L?(?:, (\d+)L?)?>", t)
        if m:
            return Fraction(int(m.group(1)), int(m.group(2) or 1))
        m = re.search(r"duration<[\w ]+>", t)
        if m:
            return Fraction(1)
    for k, u in UNITS.items():
        if re.search(r"\b%s\b" % k, n.get("type", {}).get("qualType", "")):
            return u
    raise Unsupported("unit of " + str(n.get("type", {}).get("qualType")))


def duration(ticks, unit):
    return Opaque("duration", ticks=ticks, unit=unit)


class Clock:
    def __init__(self):
        self.k = 0

    def table(self):
        ns = UNITS["nanoseconds"]

        def now(ex, n, xs):
            ex.impure = ex.impure or "clock"
            cell = Ref("clock")
            k = len([e for e in ex.trace if e[0] == "now"])
            ex.trace.append(("now",))
            return Opaque("time_point", since=duration(var("now#%d" % k, "Int"), ns))

        def cast(ex, n, xs):
            d = ex.rv(xs[0])
            if not (isinstance(d, Opaque) and d.kind == "duration"):
                raise Unsupported("duration_cast")
            u = unit_of(n)
            f = d.d["unit"] / u
            if f.denominator == 1:
                return duration(d.d["ticks"] * num(f.numerator), u)
            if f.numerator != 1:
                raise Unsupported("duration_cast factor")
            return duration(ex.int_div(d.d["ticks"], num(f.denominator)), u)

        def minus(ex, n, xs):
            if not re.search(r"time_point|duration", qt(xs[0]) + qt(xs[1])):
                return NotImplemented
            a, b = ex.rv(xs[0]), ex.rv(xs[1])
            if not (isinstance(a, Opaque) and isinstance(b, Opaque)):
                return NotImplemented
            if a.kind == "time_point" and b.kind == "time_point":
                a, b = a.d["since"], b.d["since"]
            if a.kind != "duration" or b.kind != "duration" or a.d["unit"] != b.d["unit"]:
                raise Unsupported("difference of times")
            return duration(a.d["ticks"] - b.d["ticks"], a.d["unit"])
        return {("std", "now"): now, ("std", "duration_cast"): cast, ("operator", "operator-"): minus,
                ("duration", "count"): lambda ex, this, v, a, n: v.d["ticks"],
                ("time_point", "time_since_epoch"): lambda ex, this, v, a, n: v.d["since"]}


GETTID = 186
PID, TID = var("pid", "Int"), var("tid", "Int")


def c_getpid(ex, n, xs):
    ex.impure = ex.impure or "thread"
    return PID


def c_gettid(ex, n, xs):
    ex.impure = ex.impure or "thread"
    return TID


def c_syscall(ex, n, xs):
    a = ex.rv(xs[0])
    if const_of(a) != GETTID:
        raise Unsupported("system call")
    return c_gettid(ex, n, xs)


IDS = {("std", "getpid"): c_getpid, ("std", "gettid"): c_gettid, ("std", "syscall"): c_syscall}


def sections(V, o):
    """(value when acquired, value when released) of every critical section"""
    out, cur = [], None
    for e in o.trace:
        if e[0] == "acquire":
            cur = e[1]
        elif e[0] == "release":
            out.append((cur, e[1]))
            cur = None
    V.post(o, TRUE if cur is None else FALSE, "the lock is released", P21)
    return out


# ---------------------------------------------------------------- tasks
def flat_event(ex, name, idx=()):
    names_are_atoms(ex)
    return ex.sym("mini_opt::trace_event", name, idx)


@task("trace_collector::submit_event", "C21 C22", units=U)
def submit(V):
    ex = V.ex
    m = Monitor(V)
    t = {**m.table(), **TEXT}
    ev = flat_event(ex, "event")
    outs = V.run("submit_event", "trace_collector", m.this, [ev], contracts=t)
    V.nothrow(outs, props=P21)
    for o in V.rets(outs):
        ss = sections(V, o)
        V.post(o, TRUE if len(ss) == 1 else FALSE, "the lock is taken exactly once", P21)
        if len(ss) != 1:
            continue
        a, b = ss[0]
        n0, n1 = a.len, b.len
        V.post(o, eq(n1, tmin(n0 + 1, num(LIMIT))), "one event more, up to %d" % LIMIT, P21)
        last, drop = b.fn(n1 - 1), n0 + 1 - n1
        for f in [f["name"] for f in ex.fields(ex.record("trace_event")[1])]:
            V.post(o, eq(last.f[f], ev.f[f]), "the submitted event is the last one: " + f, P21)
            V.post(o, allk(0, n1 - 1, lambda i: eq(b.fn(i).f[f], a.fn(i + drop).f[f]), "i"), "the latest earlier events stay in order: " + f, P21)


def entry_text(V):
    """parts of the text of one event, and the event"""
    ex = V.ex
    c = [(u, f) for u in V.units for f in u.funcs.get("format", ()) if "basic_format_context" in f["type"]["qualType"] and "trace_event" in f["type"]["qualType"]
         and u.body(f) is not None]
    if not c:
        raise Unsupported("formatter of trace_event")
    u, f = c[0]
    ev = flat_event(ex, "event")
    ctx = ex.new(Opaque("fmtctx"), "ctx")
    ex.contracts = dict(TEXT)
    ex.contracts[("fmtctx", "out")] = lambda ex, this, v, a, n: Opaque("out", parts=[])
    V.funcs.append("formatter<trace_event>::format (%s:%s)" % (str(f["_at"][0]).split("/")[-1], f["_at"][1]))
    V.pre_heap = dict(ex.heap)
    V.pre = ex.ctx.copy()
    fm = ex.new(Struct("formatter", {}), "formatter")
    outs = ex.explore(lambda: ex.load(ex.call_fn(u, f, fm, [ex.new(ev, "event"), ctx])))
    V.normal += [o.ctx for o in outs if o.kind in ("normal", "return")]
    return ev, outs


def mark(parts):
    """the text with every value replaced by a number that occurs nowhere else, and the values by that number"""
    text, vals, k = "", {}, 7100001
    for p in parts:
        if isinstance(p, str):
            text += p
        else:
            vals[k] = p
            text += str(k)
            k += 1
    return text, vals


@task("JSON entry of an event", "C21 C22", units=U)
def entry(V):
    ex = V.ex
    ev, outs = entry_text(V)
    V.nothrow(outs, props=P21)
    for o in V.rets(outs):
        if not (isinstance(o.val, Opaque) and o.val.kind == "out"):
            raise Unsupported("result of the formatter")
        text, vals = mark(o.val.d["parts"])
        try:
            d = json.loads(text)
        except ValueError:
            d = None
        V.post(o, TRUE if isinstance(d, dict) else FALSE, "the entry is a JSON object", P21)
        d = d if isinstance(d, dict) else {}

        def value(key, string):
            v = d.get(key)
            if isinstance(v, bool) or isinstance(v, str) != string:
                return None
            s = str(v)
            return vals.get(int(s)) if s.isdigit() else None
        V.post(o, TRUE if d.get("ph") == "X" else FALSE, "the entry is a complete event", P21)
        nm = value("name", True)
        V.post(o, eq(nm[1], ev.f["name"]) if nm and isinstance(nm[1], Poly) else FALSE, "name of the event", P21)
        for key in ("ts", "pid", "tid"):
            v = value(key, False)
            V.post(o, eq(v[1], ev.f[key]) if v and isinstance(v[1], Poly) else FALSE, key + " of the event", P21)
        v = value("dur", False)
        c = o.ctx
        q = v[1] if v and isinstance(v[1], Poly) else None
        ns = ev.f["dur_ns"]
        V.post(o, disj(lt(ns, 0), conj(le(0, ns - 1000 * q), lt(ns - 1000 * q, 1000))) if q is not None else FALSE,
               "dur is the duration in microseconds", P21)


@task("trace_collector::get_trace_json", "C21 C22", units=U)
def report(V):
    ex = V.ex
    m = Monitor(V)
    t = {**m.table(), **TEXT}
    outs = V.run("get_trace_json", "trace_collector", m.this, [], contracts=t)
    V.nothrow(outs, props=P21)
    for o in V.rets(outs):
        ss = sections(V, o)
        V.post(o, TRUE if len(ss) == 1 else FALSE, "the lock is taken exactly once", P21)
        if len(ss) != 1:
            continue
        a, b = ss[0]
        V.post(o, TRUE if a is b else FALSE, "the report leaves the events alone", P21)
        if not (isinstance(o.val, Opaque) and o.val.kind == "text"):
            raise Unsupported("text of the report")
        parts = o.val.d["parts"]
        js = [p for p in parts if not isinstance(p, str)]
        good = len(js) == 1 and js[0][0] == "join"
        V.post(o, TRUE if good and js[0][1] is b else FALSE, "the report lists the kept events, each once and in order", P21)
        if not good:
            continue
        V.post(o, TRUE if js[0][2].strip() == "," else FALSE, "entries are separated by a comma", P21)
        for es in ([], [7], [7, 8]):
            s = "".join(p if isinstance(p, str) else p[2].join(map(str, es)) for p in parts)
            try:
                d = json.loads(s)
            except ValueError:
                d = None
            V.post(o, TRUE if isinstance(d, dict) and d.get("traceEvents") == es else FALSE, "the report is JSON with %d entries in traceEvents" % len(es), P21)


@task("trace_collector::trace_collector", "C21 C22", units=U)
def collector_ctor(V):
    ex = V.ex
    u, rec = ex.record("trace_collector_impl")
    ex.destructors = {}
    n = tname("mini_opt::trace_collector")

    V.pre_heap = dict(ex.heap)
    V.pre = ex.ctx.copy()
    c = [(u, f) for u in V.units for f in u.funcs.get("trace_collector", ()) if f.get("kind") == "CXXConstructorDecl" and not u.params(f) and u.body(f) is not None]
    if not c:
        raise Unsupported("constructor of trace_collector")
    u, f = c[0]
    V.funcs.append("trace_collector::trace_collector (%s:%s)" % (str(f["_at"][0]).split("/")[-1], f["_at"][1]))
    fs = [x["name"] for x in ex.fields(ex.record("trace_collector")[1])]
    this = ex.new(Struct("trace_collector", {x: None for x in fs}), "collector")
    outs = ex.explore(lambda: ex.call_fn(u, f, this, []))
    V.normal += [o.ctx for o in outs if o.kind in ("normal", "return")]
    V.nothrow(outs, props=P21)
    for o in V.rets(outs):
        p = o.heap[this.obj].f[fs[0]]
        V.post(o, p.nn if isinstance(p, PtrV) else FALSE, "the collector has its storage", P21)
        v = [x for x in o.heap[p.ref.obj].f.values() if isinstance(x, VecV)]
        V.post(o, eq(v[0].len, 0) if len(v) == 1 else FALSE, "no event at first", P21)


@task("trace_collector::get_instance", "C21 C22", units=U)
def instance(V):
    ex = V.ex
    m = Monitor(V)
    shared = {}
    cur = ["first thread"]

    def obj(ex, c):
        if X.tname(qt(c))[0] != "trace_collector" or not c.get("inner"):
            return None
        key = (c["id"], cur[0] if c.get("tls") else None)
        if key not in shared:
            shared[key] = "instance%d" % len(shared)
        ex.heap[shared[key]] = ex.heap[m.this.obj]
        return Ref(shared[key])
    ex.static_object = obj
    got = []
    for who in ("first thread", "second thread", "first thread"):
        cur[0] = who
        outs = V.run("get_instance", "trace_collector", None, [], contracts={})
        V.nothrow(outs, props=P21)
        for o in V.rets(outs):
            p = o.val
            V.post(o, p.nn if isinstance(p, PtrV) else FALSE, "there is a collector", P21)
            got.append(p.ref if isinstance(p, PtrV) else None)
            V.post(o, TRUE if got[-1] is not None and got[-1].obj == got[0].obj else FALSE, "every call in every thread returns the same collector", P21)


@task("scoped_trace", "C21 C22", units=U)
def scope(V):
    ex = V.ex
    ex.trace_scopes = True
    left = var("leaving_by_exception", "Int")
    u0 = var("in_flight_on_entry", "Int")
    phase = [0]
    ex.assume(le(0, u0), le(0, left), le(left, 1))
    V.assumptions.append("an exception that leaves a scope is counted by std::uncaught_exceptions during the scope's destructors; otherwise the count is the one at entry")
    V.assumptions.append("the clock is read in nanoseconds since its epoch and is not before it")
    m = Monitor(V)
    name = ex.sym("std::string_view", "name")

    def instance(ex, this, args, node):
        return PtrV(m.this, TRUE)

    def submit(ex, this, args, node):
        ex.oblige(TRUE if isinstance(this, Ref) and this.obj == m.this.obj else FALSE, "the event goes to the collector", (P21,))
        ex.trace.append(("submit", ex.load(args[0])))

    t = {**Clock().table(), **IDS}
    t[("trace_collector", "get_instance")] = instance
    t[("trace_collector", "submit_event")] = submit
    t[("std", "uncaught_exceptions")] = lambda ex, n, xs: u0 + left if phase[0] else u0
    ex.contracts = t
    V.pre_heap = dict(ex.heap)
    ex.assume(le(0, PID), lt(PID, 2 ** 31), le(0, TID), lt(TID, 2 ** 31))
    for k in range(3):
        ex.assume(le(0, var("now#%d" % k, "Int")))
    V.pre = ex.ctx.copy()
    c = [(u, f) for u in V.units for f in u.funcs.get("scoped_trace", ()) if f.get("kind") == "CXXConstructorDecl" and len(u.params(f)) == 1 and u.body(f) is not None]
    if not c:
        raise Unsupported("constructor of scoped_trace")
    u, f = c[0]
    u2, d = ex.destructor("scoped_trace")
    if d is None:
        raise Unsupported("destructor of scoped_trace")
    for x in (f, d):
        V.funcs.append("scoped_trace::%s (%s:%s)" % (x.get("name"), str(x["_at"][0]).split("/")[-1], x["_at"][1]))

    def thunk():
        phase[0] = 0
        this = ex.new(Struct("scoped_trace", {x["name"]: None for x in ex.fields(ex.record("scoped_trace")[1])}), "scope")
        ex.call_fn(u, f, this, [name])
        phase[0] = 1
        ex.call_fn(u2, d, this, [])
    outs = ex.explore(thunk)
    V.normal += [o.ctx for o in outs if o.kind in ("normal", "return")]
    V.nothrow(outs, props=P21)
    for o in V.rets(outs):
        es = [e[1] for e in o.trace if e[0] == "submit"]
        V.post(o, eq(left, 1 - len(es)) if len(es) < 2 else FALSE, "one event unless the scope is left by an exception (%d submitted)" % len(es), P21)
        for e in es[:1]:
            t0, t1 = var("now#0", "Int"), var("now#1", "Int")
            V.post(o, eq(e.f["name"], name), "name of the scope", P21)
            V.post(o, eq(e.f["pid"], PID), "process of the event", P21)
            V.post(o, eq(e.f["tid"], TID), "thread of the event", P21)
            V.post(o, conj(le(0, t0 - 1000 * e.f["ts"]), lt(t0 - 1000 * e.f["ts"], 1000)), "start of the scope in microseconds", P21)
            V.post(o, eq(e.f["dur_ns"], t1 - t0), "duration of the scope in nanoseconds", P21)
