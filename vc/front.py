"""Front end: dumps the real AST of /repo with clang on every run and indexes it."""
import json, subprocess, os, time, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG_FLAGS = ["-std=c++17", "-fsyntax-only", "-I" + REPO + "/include", "-I/usr/include/eigen3",
               "-DFMT_HEADER_ONLY", "-DEIGEN_NO_DEBUG", "-DMINI_OPT_TRACING", "-DMINI_OPT_SERIALIZATION", "-w"]

TUS = {
    "qp": (REPO + "/source/qp.cc", "mini_opt"),
    "nonlinear": (REPO + "/source/nonlinear.cc", "mini_opt"),
    "structs": (REPO + "/source/structs.cc", "mini_opt"),
    "tracing": (REPO + "/source/tracing.cc", "mini_opt"),
    "serialization": (REPO + "/source/serialization.cc", "mini_opt"),
    "serialization_adl": (REPO + "/source/serialization.cc", "adl_serializer"),
    "residual": (VERIF + "/vc/tu/residual_inst.cc", "mini_opt"),
    "residual_cc": (REPO + "/source/residual.cc", "mini_opt"),
}


class FrontError(Exception):
    pass


def dump(tu):
    path, filt = TUS[tu]
    cmd = ["clang++"] + CLANG_FLAGS + ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, path]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    if r.returncode != 0:
        raise FrontError("clang failed on %s: %s" % (path, r.stderr[-800:]))
    return r.stdout


class Unit:
    def __init__(self, tu):
        self.tu = tu
        txt = dump(tu)
        self.docs = []
        dec = json.JSONDecoder()
        i = 0
        n = len(txt)
        while i < n:
            while i < n and txt[i] in " \r\n\t":
                i += 1
            if i >= n:
                break
            if txt[i] != "{":
                # "Dumping xyz:" headers are only printed in text mode
                j = txt.find("\n", i)
                i = j + 1 if j >= 0 else n
                continue
            o, i = dec.raw_decode(txt, i)
            self.docs.append(o)
        self.byid = {}
        self.parent = {}
        self.funcs = {}     # qualified name -> list of definitions
        self.mangled = {}   # mangled name -> node with body
        self.records = {}   # name -> record node
        for d in self.docs:
            self._index(d, None, [])

    def _loc(self, l):
        if not isinstance(l, dict):
            return
        if "spellingLoc" in l or "expansionLoc" in l:
            for k in ("spellingLoc", "expansionLoc"):
                self._loc(l.get(k))
            return
        if "file" in l:
            self._file = l["file"]
        if "line" in l:
            self._line = l["line"]

    _file = "?"
    _line = 0

    def _index(self, n, parent, scope):
        if not isinstance(n, dict):
            return
        self._loc(n.get("loc"))
        rg = n.get("range") or {}
        self._loc(rg.get("begin"))
        n["_at"] = (self._file, self._line)
        self._loc(rg.get("end"))
        i = n.get("id")
        if i is not None and n.get("kind"):
            old = self.byid.get(i)
            if old is None or (len(n.get("inner", ())) > len(old.get("inner", ()))):
                self.byid[i] = n
                self.parent[i] = parent
        k = n.get("kind", "")
        sc = scope
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplateDecl"):
            if n.get("name"):
                sc = scope + [n["name"]]
                if n.get("completeDefinition"):
                    self.records.setdefault(n["name"], n)
                    if len(sc) > 1:
                        self.records.setdefault("::".join(sc[-2:]), n)
        elif k == "NamespaceDecl" and n.get("name"):
            sc = scope + [n["name"]]
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            body = any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", ()))
            if body:
                m = n.get("mangledName")
                if m:
                    self.mangled.setdefault(m, n)
                self.funcs.setdefault(n.get("name"), [])
                if n not in self.funcs[n["name"]]:
                    self.funcs[n["name"]].append(n)
                n["_scope"] = list(scope)
        for c in n.get("inner", ()):
            self._index(c, n, sc)

    def definition(self, decl):
        """decl: a node or id of a function declaration -> node with body or None"""
        if isinstance(decl, str):
            decl = self.byid.get(decl)
        if decl is None:
            return None
        if any(c.get("kind") == "CompoundStmt" for c in decl.get("inner", ())):
            return decl
        return self.mangled.get(decl.get("mangledName"))

    def params(self, fn):
        return [c for c in fn.get("inner", ()) if c.get("kind") == "ParmVarDecl"]

    def body(self, fn):
        for c in fn.get("inner", ()):
            if c.get("kind") == "CompoundStmt":
                return c
        return None

    def class_of(self, fn):
        """name of the class a method belongs to"""
        p = fn.get("parentDeclContextId")
        if p and p in self.byid:
            return self.byid[p].get("name")
        q = self.parent.get(fn.get("id"))
        while q is not None and q.get("kind") not in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            q = self.parent.get(q.get("id"))
        return q.get("name") if q else None

    def find(self, name, cls=None, pred=None):
        out = []
        for f in self.funcs.get(name, ()):
            if cls is not None and self.class_of(f) != cls:
                continue
            if pred is not None and not pred(f):
                continue
            if f not in out:
                out.append(f)
        return out


_units = {}


def unit(tu):
    if tu not in _units:
        _units[tu] = Unit(tu)
    return _units[tu]


def preload(tus):
    miss = [t for t in tus if t not in _units]
    if len(miss) > 1:
        with ThreadPoolExecutor(len(miss)) as ex:
            for t, u in zip(miss, ex.map(Unit, miss)):
                _units[t] = u
    else:
        for t in miss:
            unit(t)
