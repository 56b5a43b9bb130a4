"""P18: schema queries (paths, digest, ASCII tree, module-set id, state roots, counters) against the generated schema."""
import copy
import hashlib
import json
import os
import re
from ..core import Leg, Violation, expect
from ..d import case
from .. import rschema as rs, rtypes as rt, docs

RULE = ("one case is a generated schema whose nodes are all queried (paths: every node plus altered paths; describe: digest, tree and state roots; counters: validated "
        "documents; modset: revisions and submodules); non-trivial when the schema has at least four data nodes of which one lies below a choice, an augment of "
        "another module or a third level, and for modset when at least three modules and submodules are hashed")
ASSUMPTIONS = ["data paths of nodes inside operations and notifications are not claimed", "the mandatory property of nodes with conditional mandatory descendants is not compared",
               "the order of siblings in the tree and in the digest is not compared"]
NAMES = ["a", "b", "c", "x", "node", "text", "ch1", "cs2", "cs3", "input", "output", "and", "zz", "", "*", "ma:a", ".", ".."]


# ---------------------------------------------------------------- reference

def seg_path(mods, nodes):
    """Path text of [(module number, name)] with a prefix where the module changes."""
    out, prev = "", None
    for ns, name in nodes:
        out += "/" + (f"{mods[ns]}:{name}" if ns != prev else name)
        prev = ns
    return out


def snodes(m):
    """[(schema node, [(ns, name)] schema path, is it data of a datastore)]"""
    out = []

    def walk(sn, path, data):
        for k in sn.kids:
            if k.kind == "group":
                walk(k, path, data)
                continue
            p = path + [(k.ns, k.name)]
            out.append((k, p, data and k.is_data))
            walk(k, p, data)
    walk(m.root, [], True)
    for o in m.j.get("ops") or []:
        p = [(o["ns"], o["name"])]
        out.append((o, p, False))
        for part in ("input", "output") if o["kind"] != "notification" else (None,):
            q = p + ([(o["ns"], part)] if part else [])
            if part:
                out.append((part, q, False))
            walk_root = m.op_node(o, part)

            def go(sn, path):
                for k in sn.kids:
                    if k.kind == "group":
                        go(k, path)
                        continue
                    out.append((k, path + [(k.ns, k.name)], False))
                    go(k, path + [(k.ns, k.name)])
            go(walk_root, q)
    return out


def route(mods, text):
    """[(module name, name)] or None where the text is not a path."""
    if text in ("", "/"):
        return []
    prev = None
    res = []
    for s in (text[1:] if text[0] == "/" else text).split("/"):
        p, c, loc = s.partition(":")
        if c:
            if p == prev:
                return None
            prev = p
            res.append((p, loc))
        elif prev is None:
            return None
        else:
            res.append((prev, s))
    return res


# ---------------------------------------------------------------- paths

def alter(d, mods, nodes):
    """An altered list of segments, and how to write it."""
    n = [list(x) for x in nodes]
    style = "plain"
    for _ in range(d.int(1, 2)):
        k = d.int(0, len(n) - 1) if n else 0
        op = d.int(0, 7)
        if op == 0 and n:
            del n[k]
        elif op == 1 and n:
            n.insert(k, list(n[k]))
        elif op == 2 and n:
            n[k][0] = d.int(0, len(mods))
        elif op == 3 and n:
            n[k][1] = d.choice(NAMES)
        elif op == 4:
            n.append([n[-1][0] if n else 0, d.choice(NAMES)])
        elif op == 5 and n:
            a = d.int(0, len(n) - 1)
            n[k], n[a] = n[a], n[k]
        elif op == 6:
            style = d.choice(["full", "noslash", "trailing", "bare", "dslash"])
        elif n:
            del n[k + 1:]
    allmods = mods + ["mz"]
    if style == "full":
        return "".join(f"/{allmods[a]}:{b}" for a, b in n)
    t = seg_path(allmods, n)
    return {"plain": t, "noslash": t[1:], "trailing": t + "/", "bare": re.sub(r"^/[^:/]*:", "/", t), "dslash": t.replace("/", "//", 1)}[style]


@case
def gen_paths(d):
    f = rs.default_feat(ops=d.p(40), choice=True, augment=True, maxdepth=4, size=d.int(8, 30))
    mj = rs.Gen(d, f).gen()
    m = rs.Model(mj)
    nodes = snodes(m)
    alt = []
    for _ in range(d.int(4, 14)):
        sn, p, data = d.choice(nodes) if nodes else (None, [], False)
        if data and d.p(60):
            p = sn.dpath()
        alt.append(alter(d, m.mods, p))
    # siblings of ancestors looked up below leafs
    for sn, p, data in nodes:
        if data and sn.kind in ("leaf", "leaf-list", "anydata") and d.p(40):
            par = sn.dparent()
            sib = [c for c, _ in par.data_children()]
            x = d.choice(sib)
            alt.append(seg_path(m.mods, sn.dpath() + [(x.ns, x.name)]))
    return {"m": mj, "alt": alt}


def kind_of(x):
    return {"LeafListNode": "leaf-list"}.get(type(x).__name__, type(x).__name__[:-4].lower())


def check_paths(c):
    from yangson.exceptions import YangsonException, InvalidSchemaPath
    m = rs.Model(c["m"])
    dm = rs.load(c["m"])
    nodes = snodes(m)
    byp = {}
    found = {}
    for sn, p, data in nodes:
        t = seg_path(m.mods, p)
        n = dm.get_schema_node(t)
        kind = sn if isinstance(sn, str) else {"rpc": "rpcaction"}.get(sn["kind"], sn["kind"]) if isinstance(sn, dict) else sn.kind
        expect(n is not None, "schema path {} finds nothing", t)
        expect((n.name, n.ns) == (p[-1][1], m.mods[p[-1][0]]), "schema path {} finds {} in {}", t, n.name, n.ns)
        expect(kind_of(n) == kind, "schema path {} finds a {}, not a {}", t, kind_of(n), kind)
        expect(id(n) not in found, "{} and {} find the same node", t, found.get(id(n)))
        found[id(n)] = t
        expect(n.schema_root() is dm.schema or not data, "root of {}", t)
        byp[tuple((m.mods[a], b) for a, b in p)] = n
        if data:
            dp = seg_path(m.mods, sn.dpath())
            expect(dm.get_data_node(dp) is n, "data path {} does not find the node at {}", dp, t)
            expect(n.data_path() == dp, "node found by {} reports data path {}", dp, n.data_path())
            expect(n.iname() == sn.iname(), "node found by {} has instance name {}", dp, n.iname())
            par = sn.dparent()
            up = n.data_parent()
            expect((up is None) == (par.kind == "root"), "data parent of {}: {}", dp, up)
            if up is not None:
                expect(up is dm.get_data_node(seg_path(m.mods, par.dpath())), "wrong data parent of {}", dp)
                ch = up.get_data_child(sn.name, m.mods[sn.ns])
                expect(ch is n, "get_data_child of {} for {}", seg_path(m.mods, par.dpath()), sn.name)
    bydp = {}
    for sn, p, data in nodes:
        if data:
            bydp[tuple((m.mods[a], b) for a, b in sn.dpath())] = byp[tuple((m.mods[a], b) for a, b in p)]
    inner = [(m.root, dm.schema)] + [(sn, byp[tuple((m.mods[a], b) for a, b in p)]) for sn, p, data in nodes if data and sn.kind in rs.INNER]
    for sn, n in inner:
        want = sorted(seg_path(m.mods, x.dpath()) for x, _ in sn.data_children())
        got = sorted(x.data_path() for x in n.data_children())
        expect(got == want, "data children {} instead of {}", got, want)
    missing = hits = 0
    for t in c["alt"]:
        r = route(m.mods, t)
        for what, fn, table in (("schema", dm.get_schema_node, byp), ("data", dm.get_data_node, bydp)):
            try:
                n = fn(t)
            except InvalidSchemaPath:
                expect(r is None, "{} path {!r} refused", what, t)
                continue
            expect(r is not None, "malformed {} path {!r} accepted", what, t)
            w = table.get(tuple(r))
            if not r:
                w = dm.schema if what == "schema" else None
            expect(n is w, "{} path {!r} finds {}, expected {}", what, t, n and n.qual_name, w and w.qual_name)
            if n is None:
                missing += 1
            else:
                hits += 1
    nt = len(bydp) >= 4 and any(len(p) > len(sn.dpath()) or len(p) >= 3 or len({a for a, _ in p}) > 1 for sn, p, data in nodes if data)
    return {"nontrivial": nt, "labels": ["ops"] * bool(c["m"].get("ops")) + ["alt-found"] * bool(hits) + ["alt-missing"] * bool(missing), "n": len(nodes)}


# ---------------------------------------------------------------- digest and tree

def annotate(d, mj):
    """Random descriptions and statuses."""
    def walk(js, depth):
        for j in js:
            if j["kind"] != "group":
                if d.p(12):
                    j["descr"] = d.choice(["one", "A \"quoted\" text", "žluť \u2026"])
                if d.p(6) and j["kind"] != "case":
                    j["status"] = d.choice(["deprecated", "obsolete", "current"])
            walk(j.get("children", ()), depth + 1)
    walk(mj["tree"], 0)


@case
def gen_desc(d):
    f = rs.default_feat(ops=d.p(30), leafref=d.p(40), iid=d.p(20), typedefs=d.choice([0, 20, 60]), choice=True, augment=True, maxdepth=4, size=d.int(6, 25))
    mj = rs.Gen(d, f).gen()
    if d.p(50):
        annotate(d, mj)
    return {"m": mj}


def typename(T):
    if "via" in T:
        return T["via"]["name"]
    while T["t"] == "use":
        T = T["of"]
    return T["name"] if T["t"] == "typedef" else None


def ivals(x):
    return [(i[0], i[-1]) for i in x]


def want_type(m, sn, T, config):
    """Expected parts of the type digest."""
    b = rt.builtin_of(T)
    w = {"base": b["t"], "derived": typename(T)}
    if b["t"] in rt.INTS or b["t"] == "decimal64":
        if b["t"] == "decimal64":
            w["fraction_digits"] = b["fd"]
        if any("range" in lv for lv in rt.levels(T)):
            conv = (lambda n: rt.fmt_dec(n, b["fd"])) if b["t"] == "decimal64" else str if b["t"] in ("int64", "uint64") else int
            w["range"] = [(conv(a), conv(c)) for a, c in rt.cur_parts(T, "range")]
        else:
            w["range"] = None
    elif b["t"] in ("string", "binary"):
        w["length"] = [(min(a, 2**32 - 1), min(c, 2**32 - 1)) for a, c in rt.cur_parts(T, "length")] if any("length" in lv for lv in rt.levels(T)) else None
    if b["t"] == "string":
        ps = [p for lv in rt.levels(T) for p in lv.get("patterns", ())]
        w["npat"] = (sum(not p["inv"] for p in ps), sum(bool(p["inv"]) for p in ps))
    if b["t"] == "enumeration":
        w["enums"] = rt.enum_of(T, "enums") if config else None
    if b["t"] == "identityref":
        if config:
            sets = [rt.derived(m.ctx, x) for x in b["bases"]]
            w["identities"] = sorted([n, mod] for mod, n in set.intersection(*sets))
        else:
            w["identities"] = None
    if b["t"] == "bits":
        vals = rt.enum_values(b["bits"])
        w["bits"] = {n: vals[n] for n in rt.enum_of(T, "bits")}
    if b["t"] == "leafref":
        s = getattr(m, "full", m).root
        for ns, name in T["tgt"] if T["t"] == "leafref" else b["tgt"]:
            s, _ = s.child(name, ns)
        w["ref_type"] = want_type(m, s, s.j["type"], config)
    return w


def same_type(w, g, where):
    expect(g.get("base") == w["base"] and g.get("derived") == w["derived"], "{}: type {} derived {}, expected {} derived {}", where, g.get("base"), g.get("derived"),
           w["base"], w["derived"])
    for k in ("fraction_digits", "enums"):
        if k in w:
            expect(g.get(k) == w[k] if k != "enums" else (None if g.get(k) is None else sorted(g[k])) == (None if w[k] is None else sorted(w[k])),
                   "{}: {} {}, expected {}", where, k, g.get(k), w[k])
    for k in ("range", "length"):
        if k in w:
            a = g.get(k)
            got = None if a is None else [(min(x, 2**32 - 1), min(y, 2**32 - 1)) if k == "length" else (x, y) for x, y in ivals(a)]
            if isinstance(w[k], list) and w["base"] == "decimal64":
                from decimal import Decimal as D
                got = got and [(D(x), D(y)) for x, y in got]
                want = [(D(x), D(y)) for x, y in w[k]]
            else:
                want = w[k]
            expect(merge_iv(got) == merge_iv(want), "{}: {} {}, expected {}", where, k, got, want)
    if "npat" in w:
        expect((len(g.get("patterns", ())), len(g.get("neg_patterns", ()))) == w["npat"], "{}: patterns {} {}, expected {}", where, g.get("patterns"), g.get("neg_patterns"), w["npat"])
    if "identities" in w:
        expect(sorted(g["identities"]) == w["identities"] if w["identities"] is not None else "identities" not in g, "{}: identities {}, expected {}", where, g.get("identities"),
               w["identities"])
    if "bits" in w:
        expect({b: i for i, b in enumerate(g["bits"]) if b is not None} == w["bits"], "{}: bits {}, expected {}", where, g["bits"], w["bits"])
    if "ref_type" in w:
        same_type(w["ref_type"], g["ref_type"], where + " (target)")


def merge_iv(x):
    """Intervals of integers as a canonical list (adjacent ones merged)."""
    if x is None or not all(isinstance(v, int) for p in x for v in p):
        return x
    out = []
    for a, b in sorted(x):
        if out and out[-1][1] + 1 >= a:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def huge_bits(mj):
    """A digest would list a place for every bit position."""
    def look(x):
        if isinstance(x, dict):
            if "bits" in x and any(v and v > 3000 for v in rt.enum_values(x["bits"]).values()):
                return True
            return any(look(v) for v in x.values())
        return isinstance(x, list) and any(look(v) for v in x)
    return look(mj)


def mand(m, sn):
    """Is a data node or choice mandatory: True, False, or None where it depends on conditions."""
    if sn.kind == "leaf":
        return bool(sn.j.get("mandatory") or m.is_key(sn))
    if sn.kind in ("list", "leaf-list"):
        return bool(sn.j.get("min"))
    if sn.kind in ("choice", "anydata", "anyxml"):
        return bool(sn.j.get("mandatory"))
    if sn.kind == "container" and sn.j.get("presence"):
        return False
    if sn.kind == "case":
        return False
    res = False
    for k in sn.kids:
        v = mand(m, k)
        if v and "when" in k.j:
            v = None
        if v is None:
            res = None
        elif v and res is False:
            res = True
        if v is True and "when" not in k.j:
            return True
    return res


def digest_node(m, sn, g, where, cfg, count, statuses):
    kind = "schematree" if sn.kind == "root" else sn.kind
    expect(g.get("kind") == kind, "{}: kind {} instead of {}", where, g.get("kind"), kind)
    if not statuses:
        w = mand(m, sn)
        expect(w is None or bool(g.get("mandatory")) == w, "{}: mandatory {}, expected {}", where, g.get("mandatory"), w)
    if sn.kind != "root":
        expect(g.get("description") == sn.j.get("descr"), "{}: description {!r}, expected {!r}", where, g.get("description"), sn.j.get("descr"))
        own = sn.config_eff()
        if cfg and not own:
            expect(g.get("config") is False, "{}: state data not marked", where)
        else:
            expect(g.get("config") is not False or not own, "{}: configuration marked as state data", where)
        cfg = own
        count[0] += 1
    if sn.kind == "container":
        expect(g.get("presence") == bool(sn.j.get("presence")), "{}: presence {}", where, g.get("presence"))
    if sn.kind == "list":
        expect(g.get("keys") == list(sn.j.get("keys") or []), "{}: keys {}, expected {}", where, g.get("keys"), sn.j.get("keys"))
    if sn.kind in ("leaf", "leaf-list"):
        same_type(want_type(m, sn, sn.j["type"], cfg), g["type"], where)
        df = m.leaf_defaults(sn)
        got = g.get("default")
        if sn.kind == "leaf-list":
            got = [] if got is None else got if isinstance(got, list) else [got]
        else:
            got = [] if "default" not in g else [got]
        expect(len(got) == len(df) and all(m.accept(sn, x) == m.accept(sn, y) for x, y in zip(got, df)), "{}: default {}, expected {}", where, got, df)
        u = sn.j.get("units") or type_units(sn.j["type"])
        expect(g.get("units") == u, "{}: units {!r}, expected {!r}", where, g.get("units"), u)
    if sn.kind in ("root",) + rs.INNER:
        kids = {x.iname(): x for x, _ in sn.data_children()}
        ch = g.get("children")
        ops = {f"{m.mods[o['ns']]}:{o['name']}" for o in m.j.get("ops") or ()} if sn.kind == "root" else set()
        expect(set(ch) - ops == set(kids), "{}: children {}, expected {}", where, sorted(ch), sorted(kids))
        for k, x in kids.items():
            digest_node(m, x, ch[k], where + "/" + k, cfg if sn.kind != "root" else True, count, statuses)


def type_units(T):
    while T["t"] in ("typedef", "use"):
        if T.get("units"):
            return T["units"]
        T = T["base"] if T["t"] == "typedef" else T["of"]
    return None


LINE = re.compile(r"((?:\|  |   )*)([+xoO])--(?:(rw|ro|-x|-n)( )(\(?)|:(\())(?:([\w.-]+):)?([\w.-]+)(\))?([?!*#]?)( \[[^]]*\])?( <[^>]*>)?( \{\d+\})?\Z")


def parse_tree(text):
    """[(path, dict)] of an ASCII tree; path = sequence of line heads."""
    out = []
    stack = []
    for ln in text.splitlines():
        mo = LINE.match(ln)
        expect(mo is not None, "unexpected line {!r} in the tree", ln)
        depth = len(mo[1]) // 3
        expect(depth <= len(stack), "line {!r} is indented too far", ln)
        case_ = mo[6] is not None
        name = (mo[7], mo[8])
        kind = "case" if case_ else "choice" if mo[5] else "node"
        expect(bool(mo[9]) == (kind != "node"), "brackets in {!r}", ln)
        del stack[depth:]
        stack.append((kind, name))
        out.append((tuple(stack), {"status": mo[2], "flags": mo[3], "opt": mo[10], "keys": mo[11], "type": mo[12], "count": mo[13]}, ln))
    return out


def want_tree(m, types, statuses, keep=()):
    out = {}

    def walk(sn, path, ns, state, status):
        for k in sn.kids:
            if k.kind == "group":
                walk(k, path, ns, state, status)
                continue
            st_ = k.j.get("status") or status
            if k.j.get("status") == "obsolete" and k.ns in keep:
                st_ = "kept"
            kind = k.kind if k.kind in ("choice", "case") else "node"
            p = path + ((kind, (None if k.ns == ns else m.mods[k.ns], k.name)),)
            opt = ""
            if k.kind == "choice":
                opt = "" if k.j.get("mandatory") else "?"
            elif k.kind == "container":
                opt = "!" if k.j.get("presence") else ""
            elif k.kind in ("list", "leaf-list"):
                opt = "#" if k.j.get("user") else "*"
            elif k.kind == "leaf":
                opt = "" if k.j.get("mandatory") or m.is_key(k) else "?"
            elif k.kind in ("anydata", "anyxml"):
                opt = "" if k.j.get("mandatory") else "?"
            stt = state or k.j.get("config") is False
            keys = None
            if k.kind == "list" and k.j.get("keys"):
                keys = " [" + " ".join(k.j["keys"]) + "]"
            ty = None
            if types and k.kind in ("leaf", "leaf-list"):
                n = typename(k.j["type"])
                b = rt.builtin_of(k.j["type"])["t"]
                ty = f" <{n}({b})>" if n else f" <{b}>"
            out[p] = {"status": {"current": "+", "deprecated": "x", "obsolete": "o", "kept": "O"}[st_], "flags": None if kind == "case" else "ro" if stt else "rw",
                      "opt": opt, "keys": keys, "type": ty, "count": None}
            walk(k, p, k.ns, stt, st_)
    walk(m.root, (), None, False, "current")
    return out


def state_roots(m):
    res = []

    def walk(sn):
        for k, _ in sn.data_children():
            if not k.config_eff():
                res.append(seg_path(m.mods, k.dpath()))
            elif k.kind in rs.INNER:
                walk(k)
    walk(m.root)
    return sorted(res)


def reduced(mj):
    """The schema without obsolete nodes, except in the modules where they are kept."""
    r = copy.deepcopy(mj)
    keep = r.pop("keep", [])

    def walk(js):
        out = []
        for j in js:
            if j.get("status") == "obsolete":
                if j["ns"] not in keep:
                    continue
                del j["status"]
            if "children" in j:
                j["children"] = walk(j["children"])
                if not j["children"] and (j["kind"] in ("choice", "group") or j["kind"] == "case" and j.get("short")):
                    continue
            out.append(j)
        return out
    r["tree"] = walk(r["tree"])
    return r


def has_status(js):
    return any("status" in j or has_status(j.get("children", ())) for j in js)


def check_desc(c):
    m = rs.Model(c["m"])
    dm = rs.load(c["m"])
    stt = has_status(c["m"]["tree"])
    m2 = rs.Model(reduced(c["m"]))      # obsolete nodes are not in the schema
    m2.full = m
    labels = ["status"] * stt
    n = [0]
    if not huge_bits(c["m"]):
        g = json.loads(dm.schema_digest())
        digest_node(m2, m2.root, g, "", True, n, stt)
        labels.append("digest")
        for o in c["m"].get("ops") or []:
            k = f"{m.mods[o['ns']]}:{o['name']}"
            expect(k in g["children"], "operation {} missing in the digest", k)
            x = g["children"][k]
            if o["kind"] == "notification":
                parts = [(m.op_node(o, None), x)]
            else:
                parts = [(m.op_node(o, p), x["children"][f"{m.mods[o['ns']]}:{p}"]) for p in ("input", "output")]
            for sn, y in parts:
                want = {(m.mods[q.ns] + ":" if q.ns != o["ns"] or o["kind"] == "notification" else "") + q.name: q for q, _ in sn.data_children()}
                expect(set(want) == set(y["children"]), "content of {}: {}, expected {}", k, sorted(y["children"]), sorted(want))
                for w, q in want.items():
                    digest_node(m, q, y["children"][w], k + "/" + w, False, n, stt)
    ops = {(m.mods[o["ns"]], o["name"]) for o in c["m"].get("ops") or []}
    for types in (True, False):
        want = want_tree(m, types, stt)
        seen = set()
        for p, x, ln in parse_tree(dm.ascii_tree(not types)):
            if p[0][1] in ops:
                continue
            expect(p in want, "unexpected line {!r} in the tree", ln)
            expect(p not in seen, "repeated line {!r} in the tree", ln)
            seen.add(p)
            w = want[p]
            for k in w:
                expect(x[k] == w[k], "line {!r}: {} {!r}, expected {!r}", ln, k, x[k], w[k])
        expect(seen == set(want), "missing in the tree: {}", [p for p in want if p not in seen][:3])
    got = sorted(dm.schema.state_roots())
    expect(got == state_roots(m2), "state roots {}, expected {}", got, state_roots(m2))
    deep = any(len(k.dpath()) >= 3 or len({a for a, _ in k.dpath()}) > 1 or k.parent.kind in ("case", "group") for k in m.all_data())
    return {"nontrivial": sum(1 for _ in m.all_data()) >= 4 and deep, "labels": labels, "n": max(1, n[0])}


# ---------------------------------------------------------------- validation counters

@case
def gen_count(d):
    f = rs.default_feat(when=False, leafref=False, choice=True, size=d.int(6, 18))
    mj = rs.Gen(d, f).gen()
    m = rs.Model(mj)
    dd = [rs.DataGen(d, m, "all", density=d.choice([50, 90])).doc() for _ in range(d.int(1, 3))]
    return {"m": mj, "docs": [x for x in dd if x is not None], "clear": d.p(50)}


def check_count(c):
    m = rs.Model(c["m"])
    dm = rs.load(c["m"], fresh=True)
    count = {}

    def add(sn, raw):
        for k, v in raw.items():
            if k.startswith("@"):
                continue
            mod, s, loc = k.rpartition(":")
            x, _ = sn.child(loc, m.mods.index(mod) if s else sn.ns)
            for e in v if x.kind in ("list", "leaf-list") else [v]:
                key = seg_path(m.mods, x.dpath())
                count[key] = count.get(key, 0) + 1
                if x.kind in rs.INNER:
                    add(x, e)
    total = 0
    if c["clear"] and c["docs"]:
        docs.verdict(dm, c["docs"][0], "all")
        dm.clear_val_counters()
    for raw in c["docs"]:
        v = docs.verdict(dm, raw, "all")
        if v[0] != "ok":
            continue
        total += 1
        add(m.root, raw)
    for sn in m.all_data():
        p = seg_path(m.mods, sn.dpath())
        n = dm.get_data_node(p)
        expect(n.val_count == count.get(p, 0), "node {} was used {} times, but has count {}", p, count.get(p, 0), n.val_count)
    for p, x, ln in parse_tree(dm.ascii_tree(True, True)):
        if p[-1][0] != "node":
            expect(x["count"] is None, "count on {!r}", ln)
            continue
        ns = None
        path = []
        for kind, (mod, name) in p:
            ns = mod or ns
            if kind == "node":
                path.append((m.mods.index(ns), name))
        k = seg_path(m.mods, path)
        expect(x["count"] == f" {{{count.get(k, 0)}}}", "line {!r}: count should be {}", ln, count.get(k, 0))
    dm.clear_val_counters()
    expect(all(dm.get_data_node(seg_path(m.mods, sn.dpath())).val_count == 0 for sn in m.all_data()), "counters not cleared")
    return {"nontrivial": total >= 1 and max(count.values(), default=0) >= 2, "labels": [f"docs:{total}"]}


# ---------------------------------------------------------------- module set id

@case
def gen_set(d):
    names = d.sample(["ma", "mb", "mA", "m", "m-1", "m.b", "_q", "zz", "a"], d.int(1, 6))
    out = []
    nsub = 0
    for n in names:
        rev = d.choice(["", "2020-01-01", "2019-12-31", "2020-01-02"])
        subs = []
        for _ in range(d.weighted([(5, 0), (2, 1), (2, 2)])):
            nsub += 1
            subs.append([d.choice(["s", "a-s", "z"]) + str(nsub), d.choice(["", "2020-01-01", "2018-02-03"])])
        out.append({"name": n, "rev": rev, "subs": subs, "conf": "import" if d.p(20) else "implement"})
    return {"mods": out, "claim": d.choice(["x", "", "0123"]), "desc": d.choice([None, None, "", "My model", "žluť"]), "file": d.p(40)}


def check_set(c):
    from yangson import DataModel
    files, ml, ids = {}, [], []
    for x in c["mods"]:
        r = f' revision {x["rev"]};' if x["rev"] else ""
        inc = "".join(f" include {s};" for s, _ in x["subs"])
        fn = x["name"] + (f"@{x['rev']}" if x["rev"] else "") + ".yang"
        files[fn] = f'module {x["name"]} {{ yang-version 1.1; namespace "urn:x:{x["name"]}"; prefix p;{inc}{r} container c-{x["name"].strip("_.")}; }}'
        e = {"name": x["name"], "revision": x["rev"], "namespace": f"urn:x:{x['name']}", "conformance-type": x["conf"]}
        ids.append(f"{x['name']}@{x['rev']}")
        for s, sr in x["subs"]:
            files[s + (f"@{sr}" if sr else "") + ".yang"] = (f'submodule {s} {{ yang-version 1.1; belongs-to {x["name"]} {{ prefix p; }}'
                                                             + (f" revision {sr};" if sr else "") + " }")
            e.setdefault("submodule", []).append({"name": s, "revision": sr})
            ids.append(f"{s}@{sr}")
        ml.append(e)
    with rs.Workspace(files) as w:
        lib = json.dumps({"ietf-yang-library:modules-state": {"module-set-id": c["claim"], "module": ml}}, ensure_ascii=False)
        if c.get("file"):
            fn = os.path.join(w, "library.json")
            with open(fn, "w", encoding="utf-8") as f:
                f.write(lib)
            dm = DataModel.from_file(fn, (w,), c["desc"])
        else:
            dm = DataModel(lib, (w,), c.get("desc"))
    want = c.get("desc") or "Data model ID: " + c["claim"]
    expect(dm.schema.description == want, "description of the model is {!r}, expected {!r}", dm.schema.description, want)
    want = hashlib.sha1("".join(sorted(ids)).encode("ascii")).hexdigest()
    expect(dm.module_set_id() == want, "module set id of {} is {}, expected {}", sorted(ids), dm.module_set_id(), want)
    return {"nontrivial": len(ids) >= 3, "labels": [f"modules:{len(c['mods'])}", f"subs:{len(ids) - len(c['mods'])}"]}


LEGS = [Leg("paths", gen_paths, check_paths, quick=6000, thorough=24000), Leg("describe", gen_desc, check_desc, quick=7500, thorough=30000),
        Leg("counters", gen_count, check_count, quick=2500, thorough=10000), Leg("modset", gen_set, check_set, quick=2000, thorough=8000)]
