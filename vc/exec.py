"""Symbolic executor: walks the clang AST of the real functions and generates proof obligations."""
import re, os
from fractions import Fraction
from terms import *
import terms as T
from values import *
import prover
from prover import Ctx, feasible
import front


# ------------------------------------------------------------------ control flow
class ReturnExc(Exception):
    def __init__(self, v): self.v = v


class BreakExc(Exception): pass
class ContinueExc(Exception): pass


class ThrowExc(Exception):
    def __init__(self, what="", cond=None): self.what = what; self.cond = cond


class EndPath(Exception):
    """the current path was fully checked (loop body) or is infeasible"""


class NotPure(Exception): pass
class LoopFail(Unsupported): pass


# ------------------------------------------------------------------ types
TEMPLATE_DIMS = {}     # e.g. {37: ("R",), 41: ("P",)}


def dim(n):
    n = int(n)
    if n in TEMPLATE_DIMS:
        return TEMPLATE_DIMS[n]
    return num(n)


def targs(s):
    """split template argument list 'a, b<c,d>, e'"""
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_type(s):
    s = s.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "constexpr ", "volatile ", "struct ", "class ", "enum ", "typename "):
            if s.startswith(p):
                s = s[len(p):]; ch = True
        for p in (" const", "&&", "&", " "):
            if s.endswith(p):
                s = s[:-len(p)]; ch = True
    return s


def tname(s):
    """('Matrix', ['double','-1','-1']) etc."""
    s = strip_type(s)
    if s.endswith("*") or s.endswith("*const"):
        return "ptr", [s[:s.rindex("*")]]
    m = re.match(r"^([\w:]+)<(.*)>$", s, re.S)
    if m:
        return m.group(1).split("::")[-1], targs(m.group(2))
    if "<" in s:
        # nested member of template
        return s.split("::")[-1], []
    if s.startswith("unsigned"):
        return s, []
    c = s.split("::")
    if c[-1] in NESTED and len(c) > 1:
        return "::".join(c[-2:]), []
    return c[-1], []


NESTED = {"Params"}      # record names used in several classes: kept with the class they belong to
INT_T = {"int", "long", "unsigned long", "unsigned int", "size_t", "Index", "int64_t", "uint32_t", "uint64_t", "long long",
         "unsigned long long", "short", "unsigned char", "char", "unsigned short", "int32_t", "ptrdiff_t", "size_type", "rep", "difference_type"}
UNSIGNED = {"unsigned long", "unsigned int", "size_t", "uint32_t", "uint64_t", "size_type", "unsigned long long"}


def qt(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


# ------------------------------------------------------------------ frames
class Frame:
    def __init__(self, unit, fn, this=None):
        self.unit = unit; self.fn = fn; self.this = this; self.env = {}; self.dtors = []


class Dec:
    def __init__(self, prefix):
        self.prefix = prefix; self.taken = []; self.alts = []


class Outcome:
    def __init__(self, kind, val, heap, ctx, conds, decs):
        self.kind = kind; self.val = val; self.heap = heap; self.ctx = ctx; self.conds = conds; self.decs = decs


class Obligation:
    def __init__(self, label, props, goal, ctx, where, premise=False):
        self.label = label; self.props = props; self.goal = goal; self.ctx = ctx; self.where = where
        self.premise = premise  # the rest of the path assumes it

MAX_PATHS = 400


class Exec:
    def __init__(self, units, contracts=None):
        self.units = units
        self.contracts = contracts or {}
        self.guard = None          # called on every load and store (lock discipline)
        self.destructors = {}      # kind of opaque object or struct -> what its destructor does
        self.temps = []            # objects with a destructor created in the current full expression
        self.unwinding = 0         # exceptions unwinding the stack on this path
        self.trace_scopes = False
        self.sym_types = {}        # type -> unknown value of that type, where a property wants another view of it
        self.impure = None         # set when a value of the environment was read (clock, thread id)
        self.heap = {}
        self.ctx = Ctx()
        self.nobj = 0
        self.frames = []
        self.dec = Dec([])
        self.conds = []          # branch conditions taken on this path
        self.obls = []
        self.obl_seen = set()
        self.writes = None       # set of (obj,path) when logging
        self.emit = True
        self.pure = 0
        self.loop_contract = None
        self.where = []
        self.trace = []
        self.depth = 0
        self.inlined = set()
        self.used_contracts = set()
        self.covers = set()
        self.enums = {}
        self.tokens = {}
        for u in units:
            self._index_enums(u)
        self.syms = {}

    def _index_enums(self, u):
        for i, n in u.byid.items():
            if n.get("kind") == "EnumDecl" and n.get("name"):
                v = -1; d = {}
                for c in n.get("inner", ()):
                    if c.get("kind") != "EnumConstantDecl":
                        continue
                    v += 1
                    for x in c.get("inner", ()):
                        if "value" in x:
                            v = int(x["value"])
                    d[c["name"]] = v
                if d:
                    self.enums.setdefault(n["name"], d)

    # ---------------------------------------------------------------- objects
    def new(self, v, name="tmp"):
        self.nobj += 1
        o = "%s#%d" % (name, self.nobj)
        self.heap[o] = v
        return Ref(o)

    def record(self, name):
        for u in self.units:
            r = u.records.get(name)
            if r is not None:
                return u, r
        return None, None

    def specialization(self, name, ta):
        """the complete class template specialization name<ta...>"""
        norm = lambda x: re.sub(r"\s|mini_opt::|class |struct ", "", str(x))
        want = [norm(x) for x in ta]
        for u in self.units:
            for n in u.byid.values():
                if n.get("kind") == "ClassTemplateSpecializationDecl" and n.get("name") == name and n.get("completeDefinition"):
                    have = [norm(c["value"] if "value" in c else (c.get("type") or {}).get("qualType")) for c in n.get("inner", ()) if c.get("kind") == "TemplateArgument"]
                    if have == want:
                        return u, n
        return None, None

    def fields(self, rec):
        return [c for c in rec.get("inner", ()) if c.get("kind") == "FieldDecl"]

    def sym(self, ty, name, idx=()):
        idx = tuple(idx)
        k, ta = tname(ty)
        if k in self.sym_types:
            return self.sym_types[k](name, idx)
        if k in ("double", "float"):
            return app(name, idx) if idx else var(name)
        if k in INT_T:
            return app(name, idx, "Int") if idx else var(name, "Int")
        if k == "bool":
            return bapp(name, idx)
        if k in self.enums:
            return app(name, idx, "Int") if idx else var(name, "Int")
        if k == "Matrix":
            r, c = int(ta[1]), int(ta[2])
            rows = dim(r) if r >= 0 else (app(name + "#rows", idx, "Int") if idx else var(name + "#rows", "Int"))
            cols = dim(c) if c >= 0 else (app(name + "#cols", idx, "Int") if idx else var(name + "#cols", "Int"))
            if const_of(cols) == 1:
                return Mat(rows, cols, lambda i, j: app(name, idx + (i,)))
            return Mat(rows, cols, lambda i, j: app(name, idx + (i, j)))
        if k in ("vector", "deque", "initializer_list"):
            n = app(name + "#len", idx, "Int") if idx else var(name + "#len", "Int")
            return VecV(n, lambda i: self.sym(ta[0], name, idx + (i,)), ta[0])
        if k == "array":
            return VecV(dim(re.sub(r"[UL]+$", "", ta[1])), lambda i: self.sym(ta[0], name, idx + (i,)), ta[0])
        if k == "optional":
            return OptV(bapp(name + "#has", idx), self.sym(ta[0], name + "*", idx), ta[0])
        if k == "variant":
            return VarV(app(name + "#tag", idx, "Int") if idx else var(name + "#tag", "Int"),
                        [self.sym(a, "%s<%d>" % (name, i), idx) for i, a in enumerate(ta)], ta)
        if k == "ptr":
            if idx:
                return Opaque("ptr", name=name, idx=idx)
            key = ("ptr", name)
            if key not in self.syms:
                o = name + "^"
                self.syms[key] = o
            o = self.syms[key]
            if o not in self.heap:
                self.heap[o] = self.sym(ta[0], name + "^")
            return PtrV(Ref(o), bapp(name + "#nn", ()))
        if k == "Residual":
            return Opaque("Residual", name=name, idx=idx)
        u, r = self.record(k)
        if r is not None and self.fields(r):
            return Struct(k, {f["name"]: self.sym(qt(f), name + "." + f["name"], idx) for f in self.fields(r)})
        return Opaque("sym", type=k, name=name, idx=idx)

    def default(self, ty, name="default"):
        """default-initialised (value unspecified for scalars)"""
        k, ta = tname(ty)
        if k == "Matrix":
            r, c = int(ta[1]), int(ta[2])
            nm = "uninit%d" % self._uid()
            rows = dim(r) if r >= 0 else ZERO
            cols = dim(c) if c >= 0 else ZERO
            return Mat(rows, cols, (lambda i, j: app(nm, (i,))) if const_of(cols) == 1 else (lambda i, j: app(nm, (i, j))))
        if k in ("vector", "deque", "initializer_list"):
            nm = "empty%d" % self._uid()
            return VecV(0, lambda i: self.sym(ta[0], nm, (i,)), ta[0])
        if k in ("pair", "tuple"):
            import eigen
            return eigen.tuple_of(k, [self.default(x) for x in ta])
        if k == "optional":
            return OptV(FALSE, None, ta[0])
        if k == "variant":
            return VarV(0, [self.default_construct(ta[0])] + [None] * (len(ta) - 1), ta)
        if k == "ptr" or k == "nullptr_t":
            return PtrV(None, FALSE)
        u, r = self.record(k)
        if r is not None and self.fields(r) and k != "Residual":
            return self.default_construct(ty)
        return self.sym(ty, "uninit%d" % self._uid())

    def default_construct(self, ty):
        k, ta = tname(ty)
        u, r = self.record(k)
        if r is None or not self.fields(r):
            return self.default(ty)
        out = {}
        for f in self.fields(r):
            init = self.field_init(u, f)
            out[f["name"]] = init if init is not None else self.default(qt(f))
        return Struct(k, out)

    def field_init(self, u, f):
        for c in f.get("inner", ()):
            if c.get("kind") and not c["kind"].endswith("Attr") and "Comment" not in c["kind"]:
                fr = Frame(u, f)
                self.frames.append(fr)
                try:
                    return self.rv(c)
                finally:
                    self.frames.pop()
        return None

    _u = 0

    def _uid(self):
        Exec._u += 1
        return Exec._u

    # ---------------------------------------------------------------- heap access
    def walk(self, v, path):
        for s in path:
            if isinstance(v, Lazy):
                v = v.thunk()
            k = s[0]
            if k == "f":
                if not isinstance(v, Struct):
                    raise Unsupported("field %s of %s" % (s[1], type(v).__name__))
                if s[1] not in v.f:
                    raise Unsupported("unknown field %s" % s[1])
                v = v.f[s[1]]
            elif k == "i":
                if not isinstance(v, VecV):
                    raise Unsupported("index of non-vector")
                v = v.fn(s[1])
            elif k == "*":
                if v.val is None:
                    raise Unsupported("value of an empty optional")
                v = v.val
            elif k == "a":
                if v.alts[s[1]] is None:
                    raise Unsupported("inactive variant alternative")
                v = v.alts[s[1]]
            elif k == "e":
                v = v.fn(s[1], s[2])
        return v

    def load(self, r):
        if isinstance(r, Ref):
            if self.guard is not None:
                self.guard(self, r, False)
            if r.obj not in self.heap:
                raise Unsupported("unknown object " + r.obj)
            v = self.walk(self.heap[r.obj], r.path)
            if isinstance(v, Lazy):
                return v.thunk()
            if isinstance(v, Poly) and r.path and r.path[-1][0] == "e" and len(v.a) > 3:
                return self.ctx.simp(v)
            return v
        if isinstance(r, View):
            return self.view_value(r)
        if isinstance(r, Lazy):
            return r.thunk()
        return r

    def base(self, view):
        b = self.load(view.ref)
        if not isinstance(b, Mat):
            raise Unsupported("view on non-matrix")
        return b

    def view_value(self, v):
        b = self.base(v)
        fwd = v.fwd
        if v.tri in ("L", "U"):
            t = v.tri
            return Mat(v.rows, v.cols, lambda i, j: ite(le(j, i) if t == "L" else le(i, j), b.fn(*fwd(i, j)), ZERO), meta={"tri": t})
        if v.tri == "SL":
            return Mat(v.rows, v.cols, lambda i, j: ite(le(j, i), b.fn(*fwd(i, j)), b.fn(*fwd(j, i))))
        if v.tri == "SU":
            return Mat(v.rows, v.cols, lambda i, j: ite(le(i, j), b.fn(*fwd(i, j)), b.fn(*fwd(j, i))))
        return Mat(v.rows, v.cols, lambda i, j: b.fn(*fwd(i, j)), meta=b.meta if v.kind == "whole" else {"array": True} if v.kind == "array" else None, isbool=b.isbool,
                   tok=b.tok if v.kind == "whole" else None)

    def log(self, obj, path):
        if self.pure:
            raise NotPure()
        if self.writes is not None:
            p = []
            for s in path:
                if s[0] != "f":
                    break
                p.append(s)
            self.writes.add((obj, tuple(p)))

    def store(self, r, val):
        if isinstance(val, Lazy):
            val = val.thunk()
        if isinstance(r, View):
            return self.store_view(r, val)
        if not isinstance(r, Ref):
            raise Unsupported("store to a non-lvalue")
        if self.guard is not None:
            self.guard(self, r, True)
        self.log(r.obj, r.path)
        cur = self.heap.get(r.obj)
        self.heap[r.obj] = self._put(cur, r.path, val)

    def _put(self, v, path, val):
        if not path:
            return val
        s = path[0]
        rest = path[1:]
        k = s[0]
        if k == "f":
            return v.with_(s[1], self._put(v.f[s[1]], rest, val))
        if k == "i":
            old = v
            idx = s[1]
            new = self._put(old.fn(idx), rest, val)
            return VecV(old.len, lambda q: vite(eq(q, idx), new, old.fn(q)), old.elt)
        if k == "*":
            return OptV(v.has, self._put(v.val, rest, val), v.elt)
        if k == "a":
            alts = list(v.alts)
            alts[s[1]] = self._put(alts[s[1]], rest, val)
            return VarV(v.tag, alts, v.types)
        if k == "e":
            i, j = s[1], s[2]
            old = v
            m = bite if old.isbool else ite
            if old.isvec:
                return Mat(old.rows, old.cols, lambda a, b: m(eq(a, i), val, old.fn(a, b)), isbool=old.isbool)
            return Mat(old.rows, old.cols, lambda a, b: m(conj(eq(a, i), eq(b, j)), val, old.fn(a, b)), isbool=old.isbool)
        raise AssertionError(k)

    def store_view(self, v, val):
        b = self.base(v)
        if not isinstance(val, Mat):
            raise Unsupported("store of non-matrix into view")
        inv_ = v.inv
        if inv_ is None:
            raise Unsupported("view is not writable")
        tri = v.tri
        nb = b.fn

        def fn(I, J):
            g, i, j = inv_(I, J)
            if tri == "L":
                g = conj(g, le(j, i))
            elif tri == "U":
                g = conj(g, le(i, j))
            elif tri is not None:
                raise Unsupported("store to self-adjoint view")
            return ite(g, val.fn(i, j), nb(I, J))
        self.log(v.ref.obj, v.ref.path)
        self.heap[v.ref.obj] = self._put(self.heap[v.ref.obj], v.ref.path, Mat(b.rows, b.cols, fn))

    # ---------------------------------------------------------------- tokens: identity of vector contents
    def token(self, m):
        """Int term naming the contents of vector value m"""
        if m.tok is not None:
            return m.tok
        i = T._intern(Atom, "var", ("?ti",), "Int"); j = T._intern(Atom, "var", ("?tj",), "Int")
        key = (m.rows, m.cols, m.fn(P(i), P(j)))
        t = self.tokens.get(key)
        if t is None:
            t = fresh("tok", "Int")
            self.tokens[key] = t
        m.tok = t
        return t

    # ---------------------------------------------------------------- path decisions
    def branch(self, c, what=""):
        if isinstance(c, Poly):
            c = ne(c, 0)
        if c is TRUE or c is FALSE:
            return c is TRUE
        d = self.ctx.decide(c)
        if d is None:
            for g in self.ctx.ground:
                if g is c:
                    d = True
                elif g is neg(c):
                    d = False
        if d is not None:
            return d
        if self.pure:
            raise NotPure()
        n = len(self.dec.taken)
        if n < len(self.dec.prefix):
            ch = self.dec.prefix[n]
        else:
            ch = True
            if not feasible(self.ctx.extend([c])):
                self.ctx.assume(neg(c))
                return False
            if not feasible(self.ctx.extend([neg(c)])):
                self.ctx.assume(c)
                return True
            self.dec.alts.append(self.dec.taken + [False])
        self.dec.taken = self.dec.taken + [ch]
        cc = c if ch else neg(c)
        self.conds.append(cc)
        self.ctx.assume(cc)
        return ch

    def choose(self, n):
        """n-way nondeterministic decision"""
        if self.pure:
            raise NotPure()
        if n == 1:
            return 0
        k = len(self.dec.taken)
        if k < len(self.dec.prefix):
            ch = self.dec.prefix[k]
        else:
            ch = 0
            for a in range(1, n):
                self.dec.alts.append(self.dec.taken + [a])
        self.dec.taken = self.dec.taken + [ch]
        return ch

    xdepth = 0
    loop_cache = None

    def past_prefix(self):
        return len(self.dec.taken) >= len(self.dec.prefix)

    def explore(self, thunk):
        """all paths of thunk from the current state"""
        heap0, ctx0, dec0, conds0 = self.heap, self.ctx, self.dec, self.conds
        nfr = len(self.frames)
        outs = []
        stack = [[]]
        tr0 = list(self.trace)
        # object names restart on every path, so that a replayed prefix names its objects alike
        n0 = top = self.nobj
        self.xdepth += 1
        if self.xdepth == 1:
            self.loop_cache = {}
        try:
            while stack:
                pre = stack.pop()
                top = max(top, self.nobj)
                self.nobj = n0
                self.heap = dict(heap0)
                self.ctx = ctx0.copy()
                self.conds = []
                self.dec = Dec(pre)
                self.trace = list(tr0)
                kind, val = "normal", None
                try:
                    val = thunk()
                except ReturnExc as e:
                    kind, val = "return", e.v
                except BreakExc:
                    kind = "break"
                except ContinueExc:
                    kind = "continue"
                except ThrowExc as e:
                    kind, val = "throw", e
                except EndPath:
                    kind = "end"
                del self.frames[nfr:]
                stack.extend(self.dec.alts)
                o = Outcome(kind, val, self.heap, self.ctx, list(self.conds), list(self.dec.taken))
                o.trace = list(self.trace)
                outs.append(o)
                if len(outs) > MAX_PATHS:
                    raise Unsupported("too many paths")
        finally:
            self.heap, self.ctx, self.dec, self.conds = heap0, ctx0, dec0, conds0
            self.trace = tr0
            self.xdepth -= 1
            self.nobj = max(top, self.nobj)
        return outs

    # ---------------------------------------------------------------- obligations
    def oblige(self, goal, label, props=(), assume=True, force=False):
        if goal is TRUE and not force:
            self.covers.add(label)
            return
        if self.emit and self.past_prefix():
            w = self.where[-1] if self.where else ""
            key = (label, goal, tuple(self.ctx.ground), tuple(self.ctx.foralls))
            if key not in self.obl_seen:
                self.obl_seen.add(key)
                c = self.ctx.copy()
                self.obls.append(Obligation(label, tuple(props), goal, c, w, assume or label.startswith("loop invariant")))
        if assume:
            self.ctx.assume(goal)

    def assume(self, *bs):
        for b in bs:
            self.ctx.assume(b)

    def bounds(self, i, n, label):
        self.oblige(conj(le(0, i), lt(i, n)), "in bounds: " + label, ("C22",))

    # ---------------------------------------------------------------- frames / calls
    @property
    def fr(self):
        return self.frames[-1]

    def lookup_def(self, unit, declid):
        """(unit, definition node) for a function decl id in a unit"""
        d = unit.byid.get(declid)
        if d is None:
            return None, None
        df = unit.definition(d)
        if df is not None:
            return unit, df
        m = d.get("mangledName")
        for u in self.units:
            if m in u.mangled:
                return u, u.mangled[m]
        return None, d

    def call_fn(self, unit, fn, this, args, node=None):
        """inline fn with args (values / refs)"""
        if self.depth > 25:
            raise Unsupported("call depth")
        fr = Frame(unit, fn, this)
        ps = unit.params(fn)
        for i, p in enumerate(ps):
            t = qt(p)
            a = args[i] if i < len(args) else None
            if a is None:
                raise Unsupported("missing argument")
            if t.rstrip().endswith("&") or t.rstrip().endswith("&&"):
                if isinstance(a, (Ref, View)):
                    fr.env[p["id"]] = a
                else:
                    fr.env[p["id"]] = self.new(a, p.get("name", "arg"))
            else:
                fr.env[p["id"]] = self.bind_value(t, a, p.get("name", "arg"))
        self.frames.append(fr)
        self.depth += 1
        nm = fn.get("name", "?")
        self.inlined.add(nm)
        self.where.append("%s (%s:%s)" % (nm, os.path.basename(str(fn["_at"][0])), fn["_at"][1]))
        n = len(self.frames)
        try:
            if fn.get("kind") == "CXXConstructorDecl":
                self.ctor_inits(unit, fn, this)
            b = unit.body(fn)
            if b is None:
                raise Unsupported("no body for " + nm)
            try:
                self.stmt(b)
                return None
            except ReturnExc as e:
                v = e.v
                rt = (fn.get("type") or {}).get("qualType", "")
                rt = rt[:rt.find("(")].strip() if "(" in rt else rt
                if rt.endswith("&") or isinstance(v, View):
                    return v
                return self.load(v) if not isinstance(v, Lazy) else v
        finally:
            del self.frames[n - 1:]
            self.depth -= 1
            self.where.pop()

    def coerce(self, v, t):
        k, ta = tname(t)
        if k == "optional" and not isinstance(v, OptV):
            return OptV(TRUE, v, ta[0] if ta else None)
        if k == "bool" and isinstance(v, Poly):
            return ne(v, 0)
        if k in INT_T and isinstance(v, B):
            return bracket(v)
        return v

    # ---------------------------------------------------------------- statements
    def stmt(self, n):
        k = n.get("kind")
        if k is None:
            return
        m = getattr(self, "s_" + k, None)
        if m is not None:
            if k in self.SCOPES:
                return self.scoped(m, n)
            return m(n)
        if k.endswith("Expr") or k.endswith("Operator") or k.endswith("Literal") or k == "ExprWithCleanups":
            nt = len(self.temps)
            v = self.ev(n)
            if isinstance(v, Opaque) and v.kind == "comma":
                import eigen
                eigen.finish_comma(self, v)
            while len(self.temps) > nt:
                self.destroy(self.temps.pop())
            return
        if k.endswith("Attr") or "Comment" in k:
            return
        raise Unsupported("statement " + k)

    SCOPES = {"CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "DoStmt", "SwitchStmt", "CXXForRangeStmt"}

    def scoped(self, m, n):
        """run a statement, then the destructors of the objects declared in it, in reverse order"""
        fr = self.fr
        k = len(fr.dtors)
        try:
            m(n)
        except ReturnExc as e:
            if len(fr.dtors) > k:
                rt = (fr.fn.get("type") or {}).get("qualType", "") if fr.fn else ""
                rt = rt[:rt.find("(")].strip() if "(" in rt else rt
                if not rt.endswith("&") and not isinstance(e.v, View):
                    e.v = self.load(e.v)                     # the returned object is built before the destructors run
                self.leave(fr, k)
            raise
        except (BreakExc, ContinueExc):
            self.leave(fr, k)
            raise
        except ThrowExc:
            if len(fr.dtors) > k:
                del self.frames[self.frames.index(fr) + 1:]
                self.unwinding += 1
                self.leave(fr, k)
                self.unwinding -= 1
            raise
        self.leave(fr, k)

    def leave(self, fr, k):
        while len(fr.dtors) > k:
            self.destroy(fr.dtors.pop())

    def destroy(self, cell):
        v = self.heap[cell.obj] if isinstance(cell, Ref) and not cell.path else self.load(cell)
        if isinstance(v, Opaque):
            d = self.destructors.get(v.kind)
            if d is not None:
                d(self, cell, v)
            return
        if isinstance(v, Struct):
            d = self.destructors.get(v.type)
            if d is not None:
                d(self, cell, v)
                return
            u, f = self.destructor(v.type)
            if f is not None:
                self.call_fn(u, f, cell, [])

    def destructor(self, k):
        """(unit, node) of the user-provided destructor of the record k"""
        u, r = self.record(k)
        if r is None:
            return None, None
        for f in self.fields(r):
            if tname(qt(f))[0] in self.destructors:
                raise Unsupported("destructor of the member %s of %s" % (f.get("name"), k))
        for m in r.get("inner", ()):
            if m.get("kind") == "CXXDestructorDecl" and not m.get("isImplicit") and not m.get("explicitlyDefaulted"):
                u2, df = self.lookup_def(u, m["id"])
                if u2 is None:
                    raise Unsupported("destructor of %s has no definition" % k)
                return u2, df
        return None, None

    def has_destructor(self, v):
        if isinstance(v, Opaque):
            return v.kind in self.destructors
        if isinstance(v, Struct):
            return v.type in self.destructors or self.destructor(v.type)[1] is not None
        return False

    def static_local(self, c):
        """a variable that keeps its value between calls: constants have the value of their initialiser, anything else is arbitrary"""
        t = qt(c)
        init = self.init_of(c)
        if t.rstrip().endswith("&"):
            raise Unsupported("static reference")
        tls = bool(c.get("tls"))
        key = (c["id"], "thread" if tls else None)
        const = re.match(r"const\b", t) is not None or c.get("constexpr")
        if const and init is not None and not self.varies(init):
            old, self.impure = self.impure, None
            v = self.coerce(self.rv(init), t)
            imp, self.impure = self.impure, old
            if imp is None or (imp == "thread" and tls):
                self.fr.env[c["id"]] = self.new(v, c.get("name", "v"))
                return
        if self.static_object is not None:
            r = self.static_object(self, c)
            if r is not None:
                self.fr.env[c["id"]] = r
                return
        self.fr.env[c["id"]] = self.new(self.sym(t, "static_%s%d" % (c.get("name", "v"), self._uid())), c.get("name", "v"))

    static_object = None

    def varies(self, n):
        """whether an initialiser reads something that need not be the same on every call"""
        k = n.get("kind")
        if k == "CXXThisExpr":
            return True
        if k == "DeclRefExpr":
            d = n.get("referencedDecl") or {}
            if d.get("kind") == "ParmVarDecl":
                return not any(d.get("id") == p for p in self._lambda_params)
            if d.get("kind") == "VarDecl" and not re.match(r"const\b", (d.get("type") or {}).get("qualType", "")):
                return True
        if k == "LambdaExpr":
            return False
        return any(self.varies(c) for c in n.get("inner", ()) if isinstance(c, dict))

    _lambda_params = ()

    def s_CompoundStmt(self, n):
        for c in n.get("inner", ()):
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_AttributedStmt(self, n):
        for c in n.get("inner", ()):
            if c.get("kind", "").endswith("Attr"):
                continue
            self.stmt(c)

    def s_DeclStmt(self, n):
        for c in n.get("inner", ()):
            if c.get("kind") in ("VarDecl", "DecompositionDecl"):
                self.vardecl(c)
                pos = -1
                for b in c.get("inner", ()):
                    if b.get("kind") == "BindingDecl":
                        pos += 1
                        whole = self.fr.env.get(c["id"])
                        w = self.load(whole) if isinstance(whole, Ref) else whole
                        if isinstance(w, Struct) and w.type in ("pair", "tuple"):
                            self.fr.env[b["id"]] = whole.f(list(w.f)[pos])
                            continue
                        xs = [x for x in b.get("inner", ()) if x.get("kind", "").endswith("Expr")]
                        if len(xs) != 1 or any(x.get("kind") == "VarDecl" for x in b.get("inner", ())):
                            raise Unsupported("structured binding of a tuple")
                        self.fr.env[b["id"]] = self.ev(xs[0])
            elif c.get("kind") in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "CXXRecordDecl", "UsingDirectiveDecl", "EmptyDecl"):
                pass
            else:
                raise Unsupported("declaration " + c.get("kind", "?"))

    def init_of(self, c):
        xs = [x for x in c.get("inner", ()) if x.get("kind") and not x["kind"].endswith("Attr") and "Comment" not in x["kind"] and x["kind"] != "BindingDecl"]
        return xs[0] if xs else None

    def vardecl(self, c):
        if c.get("storageClass") == "static" or c.get("tls"):
            return self.static_local(c)
        nt = len(self.temps)
        self.vardecl_(c)
        r = self.fr.env.get(c["id"])
        v = self.heap.get(r.obj) if isinstance(r, Ref) and not r.path else None
        if self.has_destructor(v) and not qt(c).rstrip().endswith("&"):
            self.fr.dtors.append(r)
            if isinstance(v, Opaque):                        # the variable is the object, not a copy of a temporary
                self.temps[nt:] = [x for x in self.temps[nt:] if self.heap[x.obj].d.get("id") != v.d.get("id")]
        while len(self.temps) > nt:
            self.destroy(self.temps.pop())

    def vardecl_(self, c):
        t = qt(c)
        init = self.init_of(c)
        nm = c.get("name", "v")
        k, ta = tname(t)
        if t.rstrip().endswith("&"):
            v = self.ev(init)
            if not isinstance(v, (Ref, View)):
                v = self.new(v, nm)
            self.fr.env[c["id"]] = v
            return
        if init is None:
            self.fr.env[c["id"]] = self.new(self.default(t), nm)
            return
        if self.is_eigen_expr(k):
            # lazy expression or block kept by auto
            v = self.ev(init)
            if isinstance(v, (View, Ref)):
                self.fr.env[c["id"]] = v
                return
            if isinstance(v, Opaque):
                self.fr.env[c["id"]] = self.new(v, nm)
                return
            fr = self.fr

            def thunk(init=init, fr=fr):
                self.frames.append(fr)
                try:
                    return self.load(self.ev(init))
                finally:
                    self.frames.pop()
            self.fr.env[c["id"]] = self.new(Lazy(thunk), nm)
            return
        v = self.rv(init)
        self.fr.env[c["id"]] = self.new(self.coerce(v, t), nm)

    EIGEN_EXPR = {"VectorBlock", "Block", "CwiseBinaryOp", "CwiseUnaryOp", "Product", "Transpose", "CwiseNullaryOp", "TriangularView",
                  "SelfAdjointView", "Diagonal", "ArrayWrapper", "MatrixWrapper", "Solve", "Inverse", "CwiseUnaryView", "Homogeneous", "Map", "Ref",
                  "HouseholderSequence", "PermutationMatrix"}

    def is_eigen_expr(self, k):
        return k in self.EIGEN_EXPR

    def s_IfStmt(self, n):
        inner = [c for c in n.get("inner", ())]
        i = 0
        if n.get("hasInit"):
            self.stmt(inner[i]); i += 1
        if n.get("hasVar"):
            self.stmt(inner[i]); i += 1
        if n.get("isConstexpr"):
            cond = inner[i]
            cv = self.const_expr(cond)
            th = inner[i + 1]; el = inner[i + 2] if n.get("hasElse") else None
            if cv:
                self.stmt(th)
            elif el is not None:
                self.stmt(el)
            return
        c = self.rb(inner[i])
        th = inner[i + 1]
        el = inner[i + 2] if n.get("hasElse") else None
        if self.branch(c):
            self.stmt(th)
        elif el is not None:
            self.stmt(el)

    def const_expr(self, n):
        if n.get("kind") == "ConstantExpr" and "value" in n:
            return n["value"] in ("true", "1")
        c = self.rb(n)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        raise Unsupported("if constexpr with symbolic condition")

    def s_ReturnStmt(self, n):
        xs = n.get("inner", ())
        if not xs:
            raise ReturnExc(None)
        v = self.ev(xs[0])
        rt = (self.fr.fn.get("type") or {}).get("qualType", "")
        r = rt[:rt.find("(")].strip() if "(" in rt else rt
        k, ta = tname(r)
        if k == "optional":
            v = self.load(v)
            if not isinstance(v, OptV):
                v = OptV(TRUE, v, ta[0] if ta else None)
        elif not isinstance(v, View) and not r.endswith("&"):
            v = self.load(v)
        raise ReturnExc(v)

    def s_BreakStmt(self, n):
        raise BreakExc()

    def s_ContinueStmt(self, n):
        raise ContinueExc()

    def s_SwitchStmt(self, n):
        inner = [c for c in n.get("inner", ()) if c.get("kind")]
        v = self.rv(inner[0])
        body = inner[-1]
        items = []
        self._flat_switch(body, items)
        # find start
        start = None
        default = None
        for i, (kind, x) in enumerate(items):
            if kind == "case" and start is None:
                cv = self.rv(x)
                if self.branch(eq(v, cv)):
                    start = i
                    break
            elif kind == "default":
                default = i
        if start is None:
            start = default
        if start is None:
            return
        try:
            for kind, x in items[start:]:
                if kind == "stmt":
                    self.stmt(x)
        except BreakExc:
            pass

    def _flat_switch(self, n, out):
        for c in n.get("inner", ()):
            self._flat_case(c, out)

    def _flat_case(self, c, out):
        k = c.get("kind")
        if k == "CaseStmt":
            out.append(("case", c["inner"][0]))
            self._flat_case(c["inner"][-1], out)
        elif k == "DefaultStmt":
            out.append(("default", None))
            self._flat_case(c["inner"][-1], out)
        elif k is not None:
            out.append(("stmt", c))

    def s_DoStmt(self, n):
        body, cond = n["inner"][0], n["inner"][1]
        c = cond
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "ConstantExpr"):
            c = c["inner"][0]
        if (c.get("kind") == "CXXBoolLiteralExpr" and c.get("value") is False) or (c.get("kind") == "IntegerLiteral" and c.get("value") == "0"):
            try:
                self.stmt(body)
            except BreakExc:
                pass
            except ContinueExc:
                pass
            return
        # do B while(c) is while(c) B when c holds at the start, else B; while(c) B
        try:
            ok, first = self.speculate(lambda: self.rb(cond), TRUE)
        except (Unsupported, KeyError):
            ok = False
        if ok and (first is TRUE or first is not FALSE and self.ctx.decide(first) is True):
            self.loop(n, lambda: self.rb(cond), lambda: self.stmt(body), lambda: None)
            return
        try:
            try:
                self.stmt(body)
            except ContinueExc:
                pass
            self.loop(n, lambda: self.rb(cond), lambda: self.stmt(body), lambda: None)
        except BreakExc:
            pass

    def s_WhileStmt(self, n):
        inner = n["inner"]
        if n.get("hasVar"):
            raise Unsupported("while with declaration")
        self.loop(n, lambda: self.rb(inner[0]), lambda: self.stmt(inner[1]), lambda: None)

    def s_ForStmt(self, n):
        init, cv, cond, inc, body = n["inner"]
        if init.get("kind"):
            self.stmt(init)
        if cv.get("kind"):
            raise Unsupported("for with condition variable")
        self.loop(n, (lambda: self.rb(cond)) if cond.get("kind") else (lambda: TRUE),
                  lambda: self.stmt(body), (lambda: self.ev(inc)) if inc.get("kind") else (lambda: None))

    def s_CXXForRangeStmt(self, n):
        inner = n["inner"]
        st = [c for c in inner if c.get("kind")]
        # [init?] range begin end cond inc loopvar body
        if len(st) == 8:
            self.stmt(st[0])
            st = st[1:]
        rng, beg, end, cond, inc, lv, body = st
        self.stmt(rng); self.stmt(beg); self.stmt(end)

        def b():
            self.stmt(lv)
            self.stmt(body)
        self.loop(n, lambda: self.rb(cond), b, lambda: self.ev(inc))

    def loop(self, node, cond, body, inc):
        import loops
        loops.run(self, node, cond, body, inc)

    def s_CXXTryStmt(self, n):
        raise Unsupported("try statement")

    # ---------------------------------------------------------------- expressions
    def rv(self, n):
        return self.load(self.ev(n))

    def rb(self, n):
        v = self.rv(n)
        if isinstance(v, B):
            return v
        if isinstance(v, Poly):
            return ne(v, 0)
        if isinstance(v, PtrV):
            return v.nn
        if isinstance(v, OptV):
            return v.has
        raise Unsupported("condition of kind " + type(v).__name__)

    def rn(self, n):
        v = self.rv(n)
        if isinstance(v, B):
            return bracket(v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, Mat) and const_of(v.rows) == 1 and const_of(v.cols) == 1:
            return v.at(0, 0)
        raise Unsupported("number expected, got " + type(v).__name__)

    def ev(self, n):
        k = n.get("kind")
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + str(k))
        return m(n)

    def passthru(self, n):
        xs = n.get("inner", ())
        if not xs:
            raise Unsupported("empty " + n["kind"])
        return self.ev(xs[-1])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = passthru

    def e_SubstNonTypeTemplateParmExpr(self, n):
        xs = [c for c in n.get("inner", ()) if c.get("kind", "").endswith("Literal") or c.get("kind", "").endswith("Expr") or c.get("kind", "").endswith("Operator")]
        v = self.rv(xs[-1])
        c = const_of(v)
        if c is not None and int(c) in TEMPLATE_DIMS:
            return TEMPLATE_DIMS[int(c)]
        return v

    def e_ConstantExpr(self, n):
        return self.passthru(n)

    def e_IntegerLiteral(self, n):
        return num(int(n["value"]))

    def e_FloatingLiteral(self, n):
        return num(Fraction(repr(float(n["value"]))))

    def e_CXXBoolLiteralExpr(self, n):
        return TRUE if n["value"] else FALSE

    def e_CharacterLiteral(self, n):
        return num(int(n["value"]))

    def e_StringLiteral(self, n):
        return Opaque("str", v=n.get("value"))

    def e_PredefinedExpr(self, n):
        return Opaque("str", v="__func__")

    def e_CXXNullPtrLiteralExpr(self, n):
        return PtrV(None, FALSE)

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n):
        for f in reversed(self.frames):
            if f.this is not None:
                return PtrV(f.this, TRUE)
        raise Unsupported("this")

    def e_ImplicitValueInitExpr(self, n):
        return self.zero(qt(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def zero(self, t):
        k, ta = tname(t)
        if k in ("double", "float") or k in INT_T or k in self.enums:
            return num(0)
        if k == "bool":
            return FALSE
        return self.default(t)

    def e_CXXDefaultInitExpr(self, n):
        # field initialiser: found through the enclosing InitListExpr / constructor
        raise Unsupported("default member initialiser outside a record initialisation")

    def e_CXXDefaultArgExpr(self, n):
        raise Unsupported("default argument outside a call")

    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    BITS = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
            "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
            "unsigned long long": (64, False)}

    def converted(self, v, src, dst):
        """conversions that need not keep the value: to float, to short integer types, and (where a property asks) to any narrower type"""
        s, d = re.sub(r"\bconst\b|&", "", src).strip(), re.sub(r"\bconst\b|&", "", dst).strip()
        if d == "float" and s != "float":
            c = const_of(v)
            return v if c is not None and c.denominator & (c.denominator - 1) == 0 and abs(c.numerator) < 2 ** 24 else app("to_float", (v,))
        b, a = self.BITS.get(d), self.BITS.get(s)
        if b is None or const_of(v) is not None:
            return v
        lo, hi = (-2 ** (b[0] - 1), 2 ** (b[0] - 1)) if b[1] else (0, 2 ** b[0])
        if a is not None and a[0] > b[0] and (b[0] < 32 or self.narrow) or (self.narrow and a is not None and a[1] and not b[1]):
            return ite(conj(le(lo, v), lt(v, hi)), v, app("wrap%s%d" % ("s" if b[1] else "u", b[0]), (v,), "Int"))
        return v

    narrow = False

    def cast(self, n):
        ck = n.get("castKind")
        x = n["inner"][-1]
        if ck == "ToVoid":
            self.ev(x)
            return None
        if ck == "LValueToRValue":
            return self.rv(x)
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "FunctionToPointerDecay", "ArrayToPointerDecay",
                  "ConstructorConversion", "UserDefinedConversion", "BaseToDerived"):
            return self.ev(x)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast"):
            v = self.rv(x)
            if isinstance(v, B):
                v = bracket(v)
            return self.converted(v, qt(x), qt(n)) if isinstance(v, Poly) else v
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return ne(self.rn(x), 0)
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            v = self.rv(x)
            return v.nn
        if ck == "NullToPointer":
            return PtrV(None, FALSE)
        if ck == "BuiltinFnToFnPtr":
            return self.ev(x)
        if ck == "FloatingToIntegral":
            v = self.rn(x)
            if is_int(v):
                return v
            raise Unsupported("float to int conversion")
        raise Unsupported("cast " + str(ck))

    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        k = d.get("kind")
        if k == "BindingDecl" and d["id"] not in self.fr.env:
            raise Unsupported("structured binding")
        if k in ("VarDecl", "ParmVarDecl", "DecompositionDecl", "BindingDecl"):
            for f in reversed(self.frames):
                if d["id"] in f.env:
                    return f.env[d["id"]]
                if f is not self.fr and not getattr(f, "capture", False) and f.this is not None and self.fr.this is None:
                    pass
            dn = self.fr.unit.byid.get(d["id"])
            if dn is not None:
                init = self.init_of(dn)
                if k == "VarDecl" and not dn.get("constexpr") and not re.match(r"const\b", qt(dn)):
                    # a variable of namespace scope that can change: its value is arbitrary at every access
                    return self.new(self.sym(qt(dn), "global_%s%d" % (d.get("name", "g"), self._uid())), d.get("name", "g"))
                if init is not None:
                    return self.new(self.rv(init), d.get("name", "g"))
            if d.get("name") == "nullopt":
                return Opaque("nullopt")
            raise Unsupported("variable " + str(d.get("name")))
        if k == "EnumConstantDecl":
            t = tname(qt(n))[0]
            e = self.enums.get(t)
            if e and d["name"] in e:
                return num(e[d["name"]])
            # fall back on search
            for en, e in self.enums.items():
                if d["name"] in e and en == t:
                    return num(e[d["name"]])
            if t == "ComputationInfo":
                return num({"Success": 0, "NumericalIssue": 1, "NoConvergence": 2, "InvalidInput": 3}[d["name"]])
            if d["name"] in ("Infinity", "Dynamic"):
                return num(-1)
            raise Unsupported("enum constant " + d["name"])
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return FuncV(d)
        if k == "NonTypeTemplateParmDecl":
            raise Unsupported("dependent template parameter")
        raise Unsupported("reference to " + str(k))

    def deref(self, v, n):
        v = self.load(v)
        if isinstance(v, PtrV):
            self.oblige(v.nn, "pointer not null", ("C22",))
            if v.ref is None:
                raise EndPath()
            return v.ref
        if isinstance(v, IterV):
            c = self.load(v.ref)
            self.bounds(v.idx, c.len if isinstance(c, VecV) else c.rows, "iterator dereference")
            return v.ref.add(("i", v.idx)) if isinstance(c, VecV) else v.ref.add(("e", v.idx, ZERO))
        if isinstance(v, RIterV):
            c = self.load(v.ref)
            if not isinstance(c, VecV):
                raise Unsupported("reverse iterator over a matrix")
            self.bounds(v.idx, c.len, "iterator dereference")
            return v.ref.add(("i", c.len - 1 - v.idx))
        if isinstance(v, OptV):
            raise Unsupported("deref optional rvalue")
        raise Unsupported("dereference of " + type(v).__name__)

    def e_MemberExpr(self, n):
        b = n["inner"][0]
        name = n.get("name")
        if n.get("isArrow"):
            bv = self.ev(b)
            lv = self.load(bv)
            if isinstance(lv, OptV):
                r = bv.add(("*",))
            else:
                r = self.deref(lv, n)
        else:
            r = self.ev(b)
        if isinstance(r, Ref):
            v = self.load(r)
            if isinstance(v, Struct):
                if name in v.f:
                    f = v.f[name]
                    return r.f(name)
                raise Unsupported("field " + str(name))
            raise Unsupported("member %s of %s" % (name, type(v).__name__))
        if isinstance(r, Struct):
            return r.f[name]
        raise Unsupported("member %s" % name)

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        x = n["inner"][0]
        if op == "!":
            return neg(self.rb(x))
        if op == "-":
            return -self.rn(x)
        if op == "+":
            return self.rn(x)
        if op == "&":
            r = self.ev(x)
            if isinstance(r, Ref):
                return PtrV(r, TRUE)
            raise Unsupported("address of non-object")
        if op == "*":
            return self.deref(self.rv(x), n)
        if op in ("++", "--"):
            r = self.ev(x)
            old = self.load(r)
            d = 1 if op == "++" else -1
            if isinstance(old, ITERS):
                new = type(old)(old.ref, old.idx + d)
            elif isinstance(old, Poly):
                new = old + d
            else:
                raise Unsupported("increment")
            self.store(r, new)
            return old if n.get("isPostfix") else r
        if op == "__extension__":
            return self.ev(x)
        raise Unsupported("unary " + op)

    def cmp(self, op, a, b):
        if isinstance(a, B) and isinstance(b, B):
            if op == "==":
                return iff(a, b)
            if op == "!=":
                return neg(iff(a, b))
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            if isinstance(a, PtrV) and isinstance(b, PtrV):
                if a.ref is None:
                    r = neg(b.nn)
                elif b.ref is None:
                    r = neg(a.nn)
                elif a.ref.obj == b.ref.obj and a.ref.path == b.ref.path:
                    r = TRUE
                else:
                    raise Unsupported("pointer comparison")
                return r if op == "==" else neg(r)
        if isinstance(a, ITERS) and type(a) is type(b):
            a, b = a.idx, b.idx
        if isinstance(a, Opaque) and a.kind == "function":
            r = neg(a.d["nn"])
            return r if op == "==" else neg(r)
        if isinstance(a, B):
            a = bracket(a)
        if isinstance(b, B):
            b = bracket(b)
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            raise Unsupported("comparison of %s and %s" % (type(a).__name__, type(b).__name__))
        return {"==": eq, "!=": ne, "<": lt, ">": gt, "<=": le, ">=": ge}[op](a, b)

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        x, y = n["inner"]
        if op == "=":
            r = self.ev(x)
            v = self.rv(y)
            self.store(r, self.coerce(v, qt(x)))
            return r
        if op == ",":
            self.ev(x)
            return self.ev(y)
        if op in ("&&", "||"):
            a = self.rb(x)
            d = True if a is TRUE else False if a is FALSE else self.ctx.decide(a)
            if d is True:
                return self.rb(y) if op == "&&" else TRUE
            if d is False:
                return FALSE if op == "&&" else self.rb(y)
            g = a if op == "&&" else neg(a)
            ok, b = self.speculate(lambda: self.rb(y), g)
            if ok:
                return conj(a, b) if op == "&&" else disj(a, b)
            if self.branch(a):
                return self.rb(y) if op == "&&" else TRUE
            return FALSE if op == "&&" else self.rb(y)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(op, self.rv(x), self.rv(y))
        a = self.rv(x); b = self.rv(y)
        if isinstance(a, B):
            a = bracket(a)
        if isinstance(b, B):
            b = bracket(b)
        return self.arith(op, a, b, qt(n))

    def arith(self, op, a, b, t):
        if isinstance(a, ITERS) and isinstance(b, Poly):
            return type(a)(a.ref, a.idx + b if op == "+" else a.idx - b)
        if isinstance(a, ITERS) and type(a) is type(b) and op == "-":
            return a.idx - b.idx
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            raise Unsupported("arithmetic on %s,%s" % (type(a).__name__, type(b).__name__))
        if op == "+":
            return a + b
        if op == "-":
            if tname(t)[0] in UNSIGNED:
                self.oblige(le(b, a), "unsigned subtraction does not wrap", ("C22",))
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if tname(t)[0] in INT_T:
                return self.int_div(a, b)
            return a * inv(b)
        if op == "%":
            return a - b * self.int_div(a, b) if const_of(b) is not None else app("imod", (a, b), "Int")
        raise Unsupported("operator " + op)

    def int_div(self, a, b):
        """truncating division of integers"""
        q = app("idiv", (a, b), "Int")
        c = const_of(b)
        if c is not None and c != 0:
            ca = const_of(a)
            if ca is not None:
                v = abs(int(ca)) // abs(int(c))
                return num(v if (ca >= 0) == (c > 0) else -v)
            m = abs(int(c))
            self.ctx.assume(disj(lt(a, 0), conj(le(0, a - b * q), lt(a - b * q, m))))
            self.ctx.assume(disj(le(0, a), conj(le(a - b * q, 0), lt(-m, a - b * q))))
        return q

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        x, y = n["inner"]
        r = self.ev(x)
        b = self.rv(y)
        if isinstance(b, B):
            b = bracket(b)
        a = self.load(r)
        if isinstance(a, B) and op in ("&", "|"):
            bb = b if isinstance(b, B) else ne(b, 0)
            self.store(r, conj(a, bb) if op == "&" else disj(a, bb))
            return r
        self.store(r, self.arith(op, a, b, qt(x)))
        return r

    def speculate(self, thunk, guard):
        """evaluate without side effects under an extra assumption; (ok, value)"""
        c0, h0, d0, w0 = self.ctx, self.heap, self.dec, self.conds
        nf = len(self.frames); nw = len(self.where); dp = self.depth; nt = len(self.trace)
        self.ctx = c0.extend([guard])
        self.heap = dict(h0)
        self.pure += 1
        try:
            v = thunk()
            if len(self.trace) > nt:         # a call that is logged is a side effect
                del self.trace[nt:]
                return False, None
            return True, v
        except (NotPure, ThrowExc, EndPath):
            del self.trace[nt:]
            del self.frames[nf:]
            del self.where[nw:]
            self.depth = dp
            return False, None
        finally:
            self.pure -= 1
            new = {k: v for k, v in self.heap.items() if k not in h0}
            h0.update(new)
            self.ctx, self.heap, self.dec, self.conds = c0, h0, d0, w0

    def e_ConditionalOperator(self, n):
        c, x, y = n["inner"]
        b = self.rb(c)
        d = True if b is TRUE else False if b is FALSE else self.ctx.decide(b)
        if d is True:
            return self.ev(x)
        if d is False:
            return self.ev(y)
        ok1, v1 = self.speculate(lambda: self.rv(x), b)
        if ok1:
            ok2, v2 = self.speculate(lambda: self.rv(y), neg(b))
            if ok2:
                try:
                    return vite(b, v1, v2)
                except Unsupported:
                    pass
        if self.branch(b):
            return self.ev(x)
        return self.ev(y)

    def e_CXXThrowExpr(self, n):
        t = ""
        for c in n.get("inner", ()):
            t = qt(c)
        if self.pure:
            raise NotPure()
        raise ThrowExc(tname(t)[0] if t else "rethrow")

    def e_InitListExpr(self, n):
        t = qt(n)
        k, ta = tname(t)
        xs = [c for c in n.get("inner", ()) if c.get("kind")]
        if k in ("double", "int", "bool") or k in INT_T or k in self.enums:
            return self.rv(xs[0]) if xs else self.zero(t)
        u, r = self.record(k)
        if r is not None:
            fs = self.fields(r)
            out = {}
            for i, f in enumerate(fs):
                if i < len(xs):
                    x = xs[i]
                    if x.get("kind") == "CXXDefaultInitExpr":
                        v = self.field_init(u, f)
                        if v is None:
                            v = self.zero(qt(f))
                    elif x.get("kind") == "ImplicitValueInitExpr":
                        v = self.zero(qt(f))
                    else:
                        v = self.coerce(self.rv(x), qt(f))
                else:
                    v = self.field_init(u, f)
                    if v is None:
                        v = self.zero(qt(f))
                out[f["name"]] = v
            return Struct(k, out)
        if k in ("array", "initializer_list") or "[" in t:
            if k == "array" and len(xs) == 1 and xs[0].get("kind") == "InitListExpr":
                xs = [c for c in xs[0].get("inner", ()) if c.get("kind")]
            vals = [self.rv(x) for x in xs if x.get("kind") != "ImplicitValueInitExpr"]
            if k == "array":
                n_ = dim(re.sub(r"[UL]+$", "", ta[1]))
                z = self.zero(ta[0])
                return VecV(n_, self._listfn(vals, z), ta[0])
            return VecV(len(vals), self._listfn(vals, vals[-1] if vals else ZERO))
        if len(xs) == 1:
            return self.ev(xs[0])
        raise Unsupported("initialiser list of " + t)

    def _listfn(self, vals, z):
        def fn(i):
            c = const_of(P(i))
            if c is not None and 0 <= c < len(vals):
                return vals[int(c)]
            r = z
            for q in reversed(range(len(vals))):
                r = vite(eq(i, q), vals[q], r)
            return r
        return fn

    def e_CXXStdInitializerListExpr(self, n):
        return self.passthru(n)

    def e_LambdaExpr(self, n):
        return Closure(n, self.fr, self.captures(n))

    def captures(self, n):
        """variables a lambda holds by copy, or under a name of its own: evaluated where the lambda is written"""
        fields = [f for r in n["inner"] if r.get("kind") == "CXXRecordDecl" for f in r.get("inner", ()) if f.get("kind") == "FieldDecl"]
        inits = [c for c in n["inner"] if c.get("kind") not in ("CXXRecordDecl", "CompoundStmt")]
        if len(fields) != len(inits):
            raise Unsupported("captures of a lambda")
        used, own = [], set()

        def walk(x):
            if x.get("kind") in ("VarDecl", "ParmVarDecl", "BindingDecl") and "id" in x:
                own.add(x["id"])
            d = x.get("referencedDecl")
            if x.get("kind") == "DeclRefExpr" and d and d.get("kind") in ("VarDecl", "ParmVarDecl", "BindingDecl") and d["id"] not in used:
                used.append(d["id"])
            for c in x.get("inner", ()):
                walk(c)
        for c in n["inner"]:
            if c.get("kind") in ("CXXRecordDecl", "CompoundStmt"):
                walk(c)
        env, new = {}, []
        for f, c in zip(fields, inits):
            src = c
            while src.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr", "ExprWithCleanups", "MaterializeTemporaryExpr") and len(src.get("inner", ())) == 1:
                src = src["inner"][0]
            d = (src.get("referencedDecl") or {}).get("id")
            byref = qt(f).rstrip().endswith("&")
            if src.get("kind") == "CXXThisExpr" or (byref and d in used):
                continue
            if byref:
                v = self.ev(c)
                v = v if isinstance(v, (Ref, View)) else self.new(v, "capture")
            else:
                v = self.bind_value(qt(f), self.ev(c), "capture")
            if d in used:
                env[d] = v
            else:
                new.append(v)
        free = [i for i in used if i not in own and i not in self.fr.env and self.fr.unit.byid.get(i) is None]
        if new and free:
            if len(new) != 1 or len(free) != 1:
                raise Unsupported("captures of a lambda")
            env[free[0]] = new[0]
        return env

    def bind_value(self, t, a, nm):
        """a parameter or capture held by value: a block of a matrix still refers to the matrix"""
        if isinstance(a, View) and tname(t)[0] in ("VectorBlock", "Block", "Ref", "Map"):
            return a
        return self.new(self.coerce(self.load(a), t), nm)

    def e_ArraySubscriptExpr(self, n):
        r = self.ev(n["inner"][0])
        i = self.rn(n["inner"][1])
        v = self.load(r)
        if isinstance(v, VecV):
            self.bounds(i, v.len, "array element")
            return r.add(("i", i)) if isinstance(r, Ref) else v.fn(i)
        raise Unsupported("array subscript")

    def e_UnaryExprOrTypeTraitExpr(self, n):
        raise Unsupported("sizeof")

    def e_CXXOperatorCallExpr(self, n):
        import eigen
        return eigen.operator_call(self, n)

    def e_CXXMemberCallExpr(self, n):
        import eigen
        return eigen.member_call(self, n)

    def e_CallExpr(self, n):
        import eigen
        return eigen.free_call(self, n)

    def e_CXXConstructExpr(self, n):
        import eigen
        return eigen.construct(self, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXPseudoDestructorExpr(self, n):
        return None

    # ---------------------------------------------------------------- constructors
    def ctor_inits(self, unit, fn, this):
        """member initialisers of a constructor on a raw object"""
        cls = unit.class_of(fn)
        u, rec = self.record(cls)
        if rec is None or rec.get("kind") != "CXXRecordDecl" or not self.fields(rec):
            q = unit.parent.get(fn.get("id"))
            while q is not None and q.get("kind") not in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
                q = unit.parent.get(q.get("id"))
            if q is not None:
                u, rec = unit, q
        done = {}
        for c in fn.get("inner", ()):
            if c.get("kind") == "CXXCtorInitializer":
                a = c.get("anyInit")
                if a is None:
                    if "baseInit" in c:
                        continue
                    raise Unsupported("delegating constructor")
                done[a["name"]] = c["inner"][0] if c.get("inner") else None
        for f in self.fields(rec):
            nm = f["name"]
            if nm in done:
                x = done[nm]
                if x is not None and x.get("kind") == "CXXDefaultInitExpr":
                    v = self.field_init(u, f)
                elif x is not None:
                    v = self.coerce(self.rv(x), qt(f))
                else:
                    v = self.default(qt(f))
            else:
                v = self.field_init(u, f)
                if v is None:
                    v = self.default(qt(f))
            self.store(this.f(nm), v)

    def make_args(self, unit, decl, argnodes):
        """evaluate call arguments in order, default arguments included"""
        ps = unit.params(decl) if decl is not None else []
        out = []
        for i, a in enumerate(argnodes):
            if a.get("kind") == "CXXDefaultArgExpr":
                v = None
                cands = [decl]
                d2 = decl
                while d2 is not None and d2.get("previousDecl"):
                    d2 = unit.byid.get(d2["previousDecl"])
                    if d2 is not None:
                        cands.append(d2)
                m = decl.get("mangledName") if decl else None
                for u in self.units:
                    for x in u.byid.values():
                        if x.get("mangledName") == m and x is not decl and x.get("kind") in ("CXXMethodDecl", "FunctionDecl", "CXXConstructorDecl"):
                            cands.append(x)
                for d2 in cands:
                    if d2 is None:
                        continue
                    p = unit.params(d2)
                    if i < len(p):
                        x = self.init_of(p[i])
                        if x is not None:
                            v = self.rv(x)
                            break
                if v is None:
                    raise Unsupported("default argument")
                out.append(v)
            else:
                out.append(self.ev(a))
        return out
