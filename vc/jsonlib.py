"""Contracts of the nlohmann JSON library (assumed, external): the operations the serializers of /repo use.

A JSON value is null, a number, a string, an object (Struct "json") or `enc(T, v)`: the value the repository's own
to_json for the type T produces for v, expanded by running that function when its shape is asked for.  A value that went
through text keeps everything except that numbers which are not finite read back as null."""
import re
from terms import *
from values import *
from front import REPO

JT = re.compile(r"^(const )?(nlohmann::)?(json|basic_json<.*|value_type|const_reference|reference)( ?&+)?$")


def J(k, **d):
    d.setdefault("text", False)
    return Opaque("json", k=k, **d)


NULL = J("null")


def is_json(v):
    return (isinstance(v, Opaque) and v.kind == "json") or (isinstance(v, Struct) and v.type == "json")


def norm(t):
    t = re.sub(r"\b(const|class|struct|enum)\b|&|\s|mini_opt::|std::|nlohmann::", "", t)
    t = re.sub(r",allocator<[^<>]*>", "", t)
    return t


def text(v):
    """the value after printing and parsing"""
    if isinstance(v, Struct):
        return Struct("json", {k: text(x) for k, x in v.f.items()})
    d = dict(v.d)
    d["text"] = True
    return Opaque("json", **d)


def repo_fn(ex, name, T, nparams=2):
    """the repository's to_json / from_json for the type T"""
    for u in ex.units:
        for f in u.funcs.get(name, ()):
            if not str(f["_at"][0]).startswith(REPO) and "/repo/" not in str(f["_at"][0]):
                continue
            ps = u.params(f)
            if "BasicJsonType" in f["type"]["qualType"] or re.search(r"optional<T>", f["type"]["qualType"]):
                continue                                     # the pattern of a template, not an instantiation
            if name == "to_json" and len(ps) == 2 and norm(ps[1]["type"]["qualType"]) == norm(T):
                return u, f
            if name == "from_json" and len(ps) == 2 and norm(ps[1]["type"]["qualType"]) == norm(T):
                return u, f
            if name == "from_json" and len(ps) == 1 and norm(f["type"]["qualType"].split(" (")[0]) == norm(T):
                return u, f
    return None, None


def is_repo_type(ex, T):
    return repo_fn(ex, "to_json", T)[1] is not None


def encode(ex, T, v):
    T = re.sub(r"\bconst\b|&", "", T).strip()
    t = norm(T)
    if is_json(v):
        return v
    if isinstance(v, Opaque) and v.kind == "str":
        import json as _j
        s = v.d["v"]
        return J("str", v=_j.loads(s) if s.startswith('"') else s)
    if t == "nullptr_t" or isinstance(v, PtrV):
        return NULL
    if is_repo_type(ex, T) or t.startswith("vector<"):
        return J("enc", T=t, v=v)
    if isinstance(v, B):
        return J("bool", v=v)
    if isinstance(v, Poly):
        return J("num", v=v, T=t)
    raise Unsupported("JSON from " + T)


def expand(ex, v):
    if isinstance(v, Opaque) and v.d["k"] == "enc":
        u, f = repo_fn(ex, "to_json", v.d["T"])
        if f is None:
            raise Unsupported("shape of JSON from " + v.d["T"])
        r = ex.new(NULL, "json")
        ex.call_fn(u, f, None, [r, ex.new(v.d["v"], "value")])
        w = ex.load(r)
        return text(w) if v.d["text"] else w
    return v


def finite(x):
    return bapp("isfinite", (x,))


def is_null(ex, v):
    v = expand(ex, v) if not (isinstance(v, Opaque) and v.d["k"] == "enc" and v.d["T"].startswith("vector<")) else v
    if isinstance(v, Struct):
        return FALSE
    k = v.d["k"]
    if k == "null":
        return TRUE
    if k == "num" and v.d["text"] and not is_int(v.d["v"]):
        return neg(finite(v.d["v"]))
    return FALSE


def key_of(v):
    if isinstance(v, Opaque) and v.kind == "str":
        import json as _j
        s = v.d["v"]
        return _j.loads(s) if s.startswith('"') else s
    raise Unsupported("JSON key that is not a literal")


def child(ex, r, v, key, create, what):
    """reference to the member `key` of the object at r"""
    w = expand(ex, v)
    if w is not v:
        r = ex.new(w, "json")
        v = w
    if create and isinstance(v, Opaque) and v.d["k"] == "null":
        v = Struct("json", {})
        ex.store(r, v)
    if not isinstance(v, Struct):
        if what == "operator[] const":
            ex.oblige(FALSE, "only members of JSON objects are read", ("C20", "C22"))
            from exec import EndPath
            raise EndPath()
        from exec import ThrowExc
        raise ThrowExc("json type_error")
    if key not in v.f:
        if create:
            ex.store(r, Struct("json", dict(v.f, **{key: NULL})))
        elif what == "at":
            from exec import ThrowExc
            raise ThrowExc("json out_of_range")
        else:
            ex.oblige(FALSE, "the JSON member %s exists when it is read" % key, ("C20", "C22"))
            from exec import EndPath
            raise EndPath()
    if not isinstance(r, Ref):
        r = ex.new(v, "json")
    return r.add(("f", key))


def get(ex, T, r, v):
    from exec import ThrowExc
    t = norm(T)
    if t in ("json", "basic_json<>"):
        return v
    if isinstance(v, Opaque) and v.d["k"] == "enc" and v.d["T"] == t:
        # contract of the pair to_json / from_json of t, proved by the task of that type
        ex.used_contracts.add("json<%s>" % t)
        return v.d["v"]
    if repo_fn(ex, "from_json", T)[1] is not None:
        u, f = repo_fn(ex, "from_json", T)
        src = ex.new(v, "json")
        if len(u.params(f)) == 1:
            return ex.load(ex.call_fn(u, f, None, [src]))
        dst = ex.new(ex.default(T), "target")
        ex.call_fn(u, f, None, [src, dst])
        return ex.load(dst)
    v = expand(ex, v)
    if isinstance(v, Struct):
        raise ThrowExc("json type_error")
    k = v.d["k"]
    if t in ("double", "float"):
        if k != "num":
            raise ThrowExc("json type_error")
        if v.d["text"] and not is_int(v.d["v"]) and not ex.branch(finite(v.d["v"])):
            raise ThrowExc("json type_error: null is no number")
        return v.d["v"]
    if t in ("int", "long", "unsignedint", "unsignedlong", "size_t", "int64_t", "uint32_t"):
        if k != "num":
            raise ThrowExc("json type_error")
        if not is_int(v.d["v"]):
            raise Unsupported("integer from a JSON number that is not one")
        return v.d["v"]
    if t == "bool":
        if k != "bool":
            raise ThrowExc("json type_error")
        return v.d["v"]
    if t in ("string", "basic_string<char>"):
        if k != "str":
            raise ThrowExc("json type_error")
        return Opaque("str", v=v.d["v"])
    if t in ex.enums and k == "num":
        return v.d["v"]
    raise Unsupported("JSON to " + T)


def equal(ex, a, b):
    a, b = expand(ex, a), expand(ex, b)
    if isinstance(a, Struct) or isinstance(b, Struct):
        raise Unsupported("comparison of JSON objects")
    ka, kb = a.d["k"], b.d["k"]
    if ka == "str" and kb == "str":
        return TRUE if a.d["v"] == b.d["v"] else FALSE
    if ka == "null" or kb == "null":
        return is_null(ex, b if ka == "null" else a)
    if ka != kb:
        return FALSE
    return eq(a.d["v"], b.d["v"])


def operator(ex, name, n, xs):
    """operators whose first operand is a JSON value; NotImplemented when it is not"""
    a = ex.ev(xs[0])
    v = ex.load(a)
    if not is_json(v):
        raise Unsupported("JSON operator on " + type(v).__name__)
    if name == "operator[]":
        t = n.get("type", {}).get("qualType", "")
        k = ex.rv(xs[1])
        if isinstance(k, Poly):
            raise Unsupported("index into a JSON array")
        const = xs[0].get("type", {}).get("qualType", "").startswith("const")
        return child(ex, a, v, key_of(k), not const, "operator[] const" if const else "operator[]")
    if name == "operator=":
        w = ex.rv(xs[1])
        if not is_json(w):
            w = encode(ex, xs[1]["type"]["qualType"], w)
        ex.store(a, w)
        return a
    if name in ("operator==", "operator!="):
        w = ex.rv(xs[1])
        if not is_json(w):
            w = encode(ex, xs[1]["type"]["qualType"], w)
        r = equal(ex, v, w)
        return r if name == "operator==" else neg(r)
    raise Unsupported("JSON " + name)


def method(ex, n, name, r, v, xs):
    real = [x for x in xs if x.get("kind") != "CXXDefaultArgExpr"]
    if name in ("get", "template get"):
        q = n["type"]["qualType"]
        m = re.search(r"get_impl<(.*)>\(detail", q)
        return get(ex, m.group(1) if m else q, r, v)
    if name == "get_to":
        x = ex.ev(real[0])
        ex.store(x, get(ex, real[0]["type"]["qualType"], r, v))
        return x
    if name == "at":
        return child(ex, r, v, key_of(ex.rv(real[0])), False, "at")
    if name == "contains" or name == "count":
        w = expand(ex, v)
        has = isinstance(w, Struct) and key_of(ex.rv(real[0])) in w.f
        return (TRUE if has else FALSE) if name == "contains" else num(1 if has else 0)
    if name == "is_null":
        return is_null(ex, v)
    if name in ("is_string", "is_object", "is_number", "is_array"):
        w = v if isinstance(v, Opaque) and v.d["k"] == "enc" and v.d["T"].startswith("vector<") else expand(ex, v)
        if name == "is_object":
            return TRUE if isinstance(w, Struct) else FALSE
        if isinstance(w, Struct):
            return FALSE
        if name == "is_string":
            return TRUE if w.d["k"] == "str" else FALSE
        if name == "is_array":
            return TRUE if w.d["k"] == "enc" else FALSE
        return neg(is_null(ex, w)) if w.d["k"] == "num" else FALSE
    if name == "value":
        k = key_of(ex.rv(real[0]))
        w = expand(ex, v)
        if isinstance(w, Struct) and k in w.f:
            return get(ex, n["type"]["qualType"], None, w.f[k])
        return ex.rv(real[1])
    raise Unsupported("JSON method " + name)


def construct(ex, t, vals, n):
    if not vals:
        return NULL
    xs = [x for x in (n or {}).get("inner", ()) if x.get("kind") and x.get("kind") != "CXXDefaultArgExpr"]
    if len(vals) != 1:
        raise Unsupported("JSON constructor")
    T = xs[0]["type"]["qualType"] if xs else ""
    return encode(ex, T, vals[0])


def pair(ex, t, vals, n):
    from exec import tname
    ta = tname(t)[1]
    if len(vals) != 2:
        raise Unsupported("pair constructor")
    xs = [x for x in (n or {}).get("inner", ()) if x.get("kind")]
    out = []
    for i, v in enumerate(vals):
        if "json" in ta[i]:
            v = encode(ex, xs[i]["type"]["qualType"], v)
        out.append(v)
    return Struct("pair", {"first": out[0], "second": out[1]})


CONTRACTS = {("construct", "basic_json"): construct, ("construct", "json"): construct, ("construct", "pair"): pair}


def check_pair(ex, T):
    for d in ("to_json", "from_json"):
        if repo_fn(ex, d, T)[1] is None:
            raise Unsupported("no %s for %s" % (d, T))
