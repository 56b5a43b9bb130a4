"""Mutations of instance documents, and running yangson on documents."""
import copy
from . import rtypes as rt
from .core import Violation, HarnessError
from .d import D
from .rschema import DataGen, INNER


def split(m, sn, key):
    """Schema child for a member name, or None."""
    mod, s, loc = key.partition(":")
    if not s:
        mod, loc = (m.mods[sn.ns] if sn.ns >= 0 else None), key
    if mod not in m.mods:
        return None
    c, _ = sn.child(loc, m.mods.index(mod))
    return c


def objects(m, raw, sn, path=()):
    """All (path, object, schema node) of a document."""
    if not isinstance(raw, dict):
        return
    yield path, raw, sn
    for k, v in raw.items():
        if k.startswith("@"):
            continue
        c = split(m, sn, k)
        if c is None:
            continue
        if c.kind == "container":
            yield from objects(m, v, c, path + (k,))
        elif c.kind == "list" and isinstance(v, list):
            for i, e in enumerate(v):
                yield from objects(m, e, c, path + (k, i))


def mutate(d: D, m, raw, top=None, ops=None, n=None):
    """A mutated deep copy of raw and the list of mutation names."""
    top = top or m.root
    raw = copy.deepcopy(raw)
    done = []
    for _ in range(n if n is not None else d.weighted([(6, 1), (3, 2), (1, 3)])):
        objs = list(objects(m, raw, top))
        path, o, sn = d.choice(objs)
        op = d.weighted(ops or [(4, "drop"), (5, "add"), (5, "switch"), (3, "dup"), (2, "dropentry"), (3, "badval"), (2, "newval"),
                                (2, "unknown"), (1, "rawkind"), (2, "dropall"), (1, "prefix"), (1, "order")])
        if one(d, m, op, o, sn, objs):
            done.append(op)
    return raw, done


def one(d, m, op, o, sn, objs):
    names = [k for k in o if not k.startswith("@")]
    kids = sn.data_children()
    dg = DataGen(d, m, "all", density=50)
    dg.budget = 6
    if op in ("drop", "dropall", "badval", "newval", "rawkind", "prefix") and not names:
        return False
    if op == "drop":
        del o[d.choice(names)]
        return True
    if op == "dropall":
        for k in names:
            del o[k]
        return True
    if op == "add":
        have = set(o)
        cand = [c for c, _ in kids if c.iname() not in have]
        if not cand:
            return False
        if d.p(40):     # preferably a node of a choice of which there is something already
            used = {id(x) for c, ch in kids if c.iname() in have for x in ch if x.kind == "choice"}
            cand = [c for c, ch in kids if c.iname() not in have and any(id(x) in used for x in ch)] or cand
        c = d.choice(cand)
        v = val(dg, c)
        if v is None:
            return False
        o[c.iname()] = v[0]
        return True
    if op == "switch":
        cand = []
        for _, oo, s in objs:
            for c, _ in s.data_children():
                if c.j.get("switch"):
                    cand.append((oo, c))
        if not cand:
            return False
        oo, c = d.choice(cand)
        if c.iname() in oo and d.p(30):
            del oo[c.iname()]
        else:
            oo[c.iname()] = dg.switch_val(c.j["type"])
        return True
    if op in ("dup", "dropentry"):
        lists = [(oo, k) for _, oo, s in objs for k, v in oo.items() if isinstance(v, list) and v and split(m, s, k) is not None
                 and split(m, s, k).kind in ("list", "leaf-list")]
        if not lists:
            return False
        oo, k = d.choice(lists)
        if op == "dropentry":
            oo[k].pop(d.int(0, len(oo[k]) - 1))
        else:
            e = copy.deepcopy(d.choice(oo[k]))
            if isinstance(e, dict) and e and d.p(60):
                x = d.choice(list(e))
                del e[x]
            oo[k].insert(d.int(0, len(oo[k])), e)
        return True
    if op in ("badval", "newval"):
        leafs = [k for k in names if split(m, sn, k) is not None and split(m, sn, k).kind in ("leaf", "leaf-list")]
        if not leafs:
            return False
        k = d.choice(leafs)
        c = split(m, sn, k)
        T, tc = m.leaf_type(c)
        if T["t"] == "instance-identifier":
            return False
        if op == "newval":
            v = rt.gen_valid(d, T, m.ctx, tc.ns)
            v = v[0] if v is not None else None
        else:
            v = rt.gen_any_raw(d, T, m.ctx, tc.ns)
        if c.kind == "leaf-list" and isinstance(o[k], list):
            if o[k] and d.p(60):
                o[k][d.int(0, len(o[k]) - 1)] = v
            else:
                o[k].append(v)
        else:
            o[k] = v
        return True
    if op == "unknown":
        k = d.choice(names) if names and d.p(60) else d.choice(["zzz", "ma:zzz", "mb:a", "nomod:a", "a", "ma:a", "ma:", ":a", "", "a:b:c", " a"])
        loc = k.rpartition(":")[2]
        if names and d.p(60):
            k = d.choice([loc, "ma:" + loc, "mb:" + loc, "mc:" + loc, "zz:" + loc, loc + "x", k + ":" + loc])
        if k in o or k.startswith("@"):
            return False
        v = o[d.choice(names)] if names else 1
        o[k] = copy.deepcopy(v)
        return True
    if op == "rawkind":
        k = d.choice(names)
        o[k] = d.choice([None, {}, [], [{}], "x", 1, True, [[]], [None], {"a": 1}, 1.5])
        return True
    if op == "prefix":
        k = d.choice(names)
        c = split(m, sn, k)
        if c is None:
            return False
        full = m.mods[c.ns] + ":" + c.name
        if full in o or ":" in k:
            return False
        items = [(full if x == k else x, v) for x, v in o.items()]
        o.clear()
        o.update(items)
        return True
    if op == "order":
        items = [(k, o[k]) for k in d.shuffle(list(o))]
        o.clear()
        o.update(items)
        return True
    raise HarnessError(op)


def val(dg, c):
    if c.kind in ("leaf", "leaf-list") and c.j["type"]["t"] in ("leafref", "instance-identifier"):
        T, tc = dg.m.leaf_type(c)
        if T["t"] == "instance-identifier":
            v = ["/ma:nothing"]
        else:
            v = rt.gen_valid(dg.d, T, dg.m.ctx, tc.ns)
            if v is None:
                return None
        return v if c.kind == "leaf" else [v]
    v = dg.value(c)
    if v is None:
        return None
    strip_refs(v)
    return v


def strip_refs(v):
    """Placeholders of references in freshly generated data are dropped."""
    if isinstance(v, dict):
        for k in list(v):
            if v[k] in (["REF"], [["REF"]]):
                del v[k]
            else:
                strip_refs(v[k])
    elif isinstance(v, list):
        for x in v:
            strip_refs(x)


def json_ok(v):
    return True


ERRS = None


def errs():
    """(raw data errors, validation errors) documented by the library."""
    global ERRS
    if ERRS is None:
        from yangson import exceptions as X
        ERRS = ((X.RawMemberError, X.RawTypeError, X.YangTypeError), (X.SchemaError, X.SemanticError, X.YangTypeError))
    return ERRS


def verdict(dm, raw, ctype="config", scope="all", subschema=None):
    """("ok", root) | ("raw", exc) | ("val", exc, root); other exceptions propagate."""
    from yangson.enumerations import ContentType, ValidationScope
    re_, ve = errs()
    try:
        inst = dm.from_raw(copy.deepcopy(raw), subschema)
    except re_ as e:
        return ("raw", e, None)
    try:
        inst.validate(getattr(ValidationScope, scope), getattr(ContentType, ctype))
    except ve as e:
        return ("val", e, inst)
    return ("ok", None, inst)
