"""Models made of typed leaves, for the properties of data types."""
import json
from . import rschema as rs, rtypes as rt
from .core import Skip
from .d import D

ALLK = None


def typed_model(d: D, nleaves=3, kinds=None, leafrefs=True, typedefs=35, leaflists=False):
    """Generated model with top-level leaves t0, t1 ... of random types (and leafrefs r0 ... to some of them)."""
    f = rs.default_feat(kinds=kinds, typedefs=typedefs, defaults=False)
    g = rs.Gen(d, f)
    if not g.model["idents"] and d.p(50):
        g.gen_idents()
    m = g.model
    for i in range(nleaves):
        ns = d.int(0, g.nmod - 1)
        g.ctx["maxmod"] = ns
        T = None
        for _ in range(4):
            T = rt.gen_type(d, g.ctx, kinds=kinds, typedef_p=typedefs)
            if rt.min_mod(T, g.ctx) <= ns:
                break
        else:
            T = {"t": "string"}
        m["tree"].append({"kind": "leaf-list" if leaflists and d.p(30) else "leaf", "name": f"t{i}", "ns": ns, "type": T})
    if leafrefs and d.p(40):
        k = d.int(0, nleaves - 1)
        tgt = m["tree"][k]
        ns = d.int(tgt["ns"], g.nmod - 1)
        m["tree"].append({"kind": "leaf", "name": "r0", "ns": ns,
                          "type": {"t": "leafref", "require": False, "tgt": [[tgt["ns"], tgt["name"]]],
                                   "path": {"abs": True, "steps": [[tgt["ns"], tgt["name"]]]}}})
    return m


def leaf_raw_cands(d: D, model: rs.Model, sn, n):
    T, tc = model.leaf_type(sn)
    return [rt.gen_any_raw(d, T, model.ctx, tc.ns) for _ in range(n)]


def accept_text(T, text, ctx, ns):
    """Reference verdict on the lexical representation of a value."""
    b = rt.builtin_of(T)
    t = b["t"]
    if t == "union":
        for x in b["types"]:
            try:
                return accept_text(x, text, ctx, ns)
            except rt.Reject:
                pass
        raise rt.Reject("raw")
    if t in rt.INTS and t not in rt.BIG:
        if not rt.INT_RE.match(text):
            raise rt.Reject("raw")
        return rt.accept(T, int(text), ctx, ns)
    if t == "boolean":
        if text not in ("true", "false"):
            raise rt.Reject("raw")
        return rt.accept(T, text == "true", ctx, ns)
    if t == "empty":
        if text != "":
            raise rt.Reject("raw")
        return ("empty",)
    return rt.accept(T, text, ctx, ns)


def cooked(v):
    """yangson's cooked value that corresponds to a reference value."""
    import decimal
    k = v[0]
    if k == "int":
        return v[1]
    if k == "dec":
        return decimal.Decimal(v[1]).scaleb(-v[2])
    if k == "empty":
        return (None,)
    if k == "bits":
        return tuple(v[1])
    if k == "bin":
        return bytes.fromhex(v[1])
    if k == "idref":
        return (v[2], v[1])
    return v[1]


def same_cooked(a, b):
    return type(a) is type(b) and a == b


def has_union(T):
    return rt.builtin_of(T)["t"] == "union"


def kinds_in(T):
    b = rt.builtin_of(T)
    if b["t"] == "union":
        return {"union"} | set().union(*[kinds_in(x) for x in b["types"]])
    return {b["t"]}
