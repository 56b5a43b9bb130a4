"""P31: names, prefixes and definitions are resolved in the module, revision and scope where they are used."""
import json
from ..core import Leg, Violation, expect
from ..d import case
from .. import rschema as rs, ystmt as ys
from .p25 import gen_set, gen_files, unit, resolve, library, write, text

RULE = ("one case is a set of modules with several revisions, submodules and imports by name or revision; every module, prefix, definition and reference in it is asked "
        "for, together with ones that don't exist; non-trivial when two revisions of one module are listed or a submodule is involved, and at least four references to "
        "definitions were resolved")
ASSUMPTIONS = ["an import without a revision refers to the newest listed revision (RFC 7895)", "which of several prefixes of one module prefix() gives is left open",
               "which module identifier resolve_pname gives for unprefixed names in submodules is left open (the manual and the code differ)"]
BUILTIN = ("binary", "bits", "boolean", "decimal64", "empty", "enumeration", "identityref", "instance-identifier", "int8", "int16", "int32", "int64", "leafref", "string",
           "uint8", "uint16", "uint32", "uint64", "union")


@case
def gen(d):
    c = gen_set(d)
    c["files"] = gen_files(d, c)
    nm = [x["name"] for x in c["mods"]]
    pre = ["own", "o", "p", "q", "r", "s", "zz"]
    c["ids"] = [[d.int(0, 9), [[d.choice([None, None] + pre), d.choice(["a", "b", "x-1", "_"])] for _ in range(d.int(1, 4))], d.p(60), d.choice(nm + ["zz"])] for _ in range(6)]
    c["paths"] = [[[d.choice([None, None, None] + nm[:2] + ["zz"]), d.choice(["a", "b", "c"])] for _ in range(d.int(0, 4))] for _ in range(6)]
    return c


def err(cls, f, *args):
    """Result of f, or the class of the exception if it is one of cls."""
    try:
        return f(*args)
    except cls as e:
        str(e)
        return e.__class__


def position(s):
    """Indices of a statement from its module down."""
    out = []
    while s.superstmt is not None:
        out.append(next(i for i, x in enumerate(s.superstmt.substatements) if x is s))
        s = s.superstmt
    return out[::-1]


def at(t, pos):
    for i in pos:
        t = t.substatements[i]
    return t


def judge(c):
    from yangson import DataModel
    from yangson import exceptions as X
    from yangson.schemadata import SchemaContext
    mods = c["mods"]
    units = [(k, j) for k, x in enumerate(mods) for j in [None] + list(range(len(x["subs"])))]
    mid = {(k, j): (unit(c, k, j)["name"], unit(c, k, j)["rev"]) for k, j in units}
    with rs.Workspace({}) as w:
        dirs = write(c, w)
        dm = DataModel(json.dumps(library(c, c["order"])), dirs)
    sd = dm.schema_data
    expect(set(sd.modules) == set(mid.values()), "modules {}, expected {}", sorted(sd.modules), sorted(mid.values()))
    want = {x["name"]: x["rev"] for x in mods if x["impl"]}
    expect(sd.implement == want, "implemented {}, expected {}", sd.implement, want)
    names = sorted({m[0] for m in mid.values()})
    for n in names + ["zz"]:
        r = [m for m in mid.values() if m[0] == n]
        got = err(X.ModuleNotRegistered, sd.last_revision, n)
        expect(got == (max(r, key=lambda m: m[1]) if r else X.ModuleNotRegistered), "last revision of {}: {}", n, got)
    ghost = ("zz", ""), (names[0], "1999-09-09")
    for g in ghost:
        for what, f in (("namespace", lambda: sd.namespace(g)), ("prefix2ns", lambda: sd.prefix2ns("p", g)), ("resolve_pname", lambda: sd.resolve_pname("p:x", g)),
                        ("translate_pname", lambda: sd.translate_pname("x", g)),
                        ("translate_node_id", lambda: sd.translate_node_id("p:x", SchemaContext(sd, names[0], g)))):
            got = err(X.ModuleNotRegistered, f)
            expect(got is X.ModuleNotRegistered, "{} in a module that doesn't exist gives {}", what, got)
    tables = {}
    for k, j in units:
        u, m = unit(c, k, j), mid[k, j]
        main = mid[k, None]
        tab = {u["own"]: main}
        for p, i, _ in u["imports"]:
            tab[p] = mid[resolve(c, k, j, p), None]
        tables[k, j] = tab
        md = sd.modules[m]
        expect(md.main_module == main and md.yang_id == m, "main module of {}: {} {}", m, md.main_module, md.yang_id)
        expect(dict(md.prefix_map) == tab, "prefixes of {}: {}, expected {}", m, md.prefix_map, tab)
        expect(set(md.submodules) == ({mid[k, i] for i in range(len(u["subs"]))} if j is None else set()), "submodules of {}: {}", m, md.submodules)
        expect(set(md.features) == ({"f"} if j is None and u["feat"] else set()), "features of {}: {}", m, md.features)
        expect(md.statement.keyword == ("module" if j is None else "submodule") and md.statement.argument == m[0], "statement of {}: {}", m, md.statement)
        expect(sd.namespace(m) == main[0], "namespace of {}: {}", m, sd.namespace(m))
        for p in list(tab) + ["zz", "", "ma"]:
            t = tab.get(p)
            got = err(X.UnknownPrefix, sd.prefix2ns, p, m)
            expect(got == (t[0] if t else X.UnknownPrefix), "prefix {!r} in {}: {}", p, m, got)
            got = err(X.UnknownPrefix, sd.resolve_pname, p + ":x.y", m)
            expect(got == (("x.y", t) if t else X.UnknownPrefix), "name {}:x.y in {}: {}", p, m, got)
            got = err(X.UnknownPrefix, sd.translate_pname, p + ":x.y", m)
            expect(got == (("x.y", t[0]) if t else X.UnknownPrefix), "name {}:x.y in {} translated: {}", p, m, got)
        loc, rm = sd.resolve_pname("x.y", m)
        expect(loc == "x.y" and rm in (m, main), "unprefixed name in {}: {}", m, (loc, rm))
        expect(sd.translate_pname("x.y", m) == ("x.y", main[0]), "unprefixed name in {} translated", m)
        for n in names + ["zz"]:
            did = (n, want[n]) if n in want else None
            got = err((X.ModuleNotImplemented, X.ModuleNotImported), sd.prefix, n, m)
            if did is None:
                expect(got is X.ModuleNotImplemented, "prefix of {} in {}: {}", n, m, got)
            elif did not in tab.values():
                expect(got is X.ModuleNotImported, "prefix of {} in {}: {}", n, m, got)
            else:
                expect(tab.get(got) == did, "prefix of {} in {}: {}", did, m, got)
    for i, segs, absolute, ns in c["ids"]:
        k, j = units[i % len(units)]
        tab = tables[k, j]
        sni = ("/" if absolute else "") + "/".join((p + ":" if p else "") + n for p, n in segs)
        w = [(n, ns if p is None else tab[p][0] if p in tab else None) for p, n in segs]
        if any(x[1] is None for x in w):
            w = X.UnknownPrefix
        got = err(X.UnknownPrefix, sd.sni2route, sni, SchemaContext(sd, ns, mid[k, j]))
        expect(got == w, "schema node identifier {} in {}: {}, expected {}", sni, mid[k, j], got, w)
        p, n = segs[0]
        got = err(X.UnknownPrefix, sd.translate_node_id, (p + ":" if p else "") + n, SchemaContext(sd, ns, mid[k, j]))
        expect(got == ((n, ns if p is None else tab[p][0]) if p is None or p in tab else X.UnknownPrefix), "node identifier {} in {}: {}", segs[0], mid[k, j], got)
    for segs in c["paths"]:
        w2, prev = [], None
        for p, n in segs:
            if p is not None and p == prev or p is None and prev is None:
                w2 = X.InvalidSchemaPath
                break
            prev = p or prev
            w2.append((n, prev))
        for t in ["/" + "/".join((p + ":" if p else "") + n for p, n in segs)] + (["/".join((p + ":" if p else "") + n for p, n in segs)] if segs else [""]):
            got = err(X.InvalidSchemaPath, sd.path2route, t)
            expect(got == w2, "path {}: {}, expected {}", t, got, w2)
    # definitions: position of the statement in the text of the unit
    trees = {x: ys.parse(text(c, *x)) for x in units}
    unit_of = {v: x for x, v in mid.items()}
    refs = scoped = 0
    for k, j in units:
        t = trees[k, j]
        stm = sd.modules[mid[k, j]].statement
        tab = tables[k, j]

        def go(s, pos, chain):
            nonlocal refs, scoped
            for i, x in enumerate(s[3]):
                p2 = pos + [i]
                if x[1] in ("type", "uses"):
                    kw = "typedef" if x[1] == "type" else "grouping"
                    p, col, loc = x[2].rpartition(":")
                    home = unit_of[tab[p] if p else mid[k, None]]
                    w = None
                    if home[0] == k:
                        for q, anc in chain[::-1]:
                            f = next((n for n, y in enumerate(anc[3]) if y[1] == kw and y[2] == loc), None)
                            if f is not None:
                                w = ((k, j), q + [f])
                                break
                    if w is None:
                        for un in [x for x in units if x[0] == home[0]]:
                            f = next((n for n, y in enumerate(trees[un][3]) if y[1] == kw and y[2] == loc), None)
                            if f is not None:
                                w = (un, [f])
                    got = err(X.DefinitionNotFound, sd.get_definition, at(stm, p2), SchemaContext(sd, "abc", mid[k, j]))
                    if w is None:
                        expect(got is X.DefinitionNotFound and (x[2] in BUILTIN), "definition of {} in {}: {}", x[2], mid[k, j], got)
                    else:
                        if isinstance(got, type):
                            raise Violation(f"definition of {x[2]} in {mid[k, j]} not found")
                        ds, dc = got
                        top = ds
                        while top.superstmt is not None:
                            top = top.superstmt
                        expect(top is sd.modules[mid[w[0]]].statement and position(ds) == w[1] and dc.text_mid == mid[w[0]] and dc.schema_data is sd and dc.default_ns == "abc",
                               "definition of {} in {} is {} in {} (position {}), expected {} (position {})", x[2], mid[k, j], ds, dc.text_mid, position(ds), mid[w[0]], w[1])
                        refs += 1
                        scoped += len(w[1]) > 1
                elif i == 0 and len(pos) < 3:
                    expect(err(ValueError, sd.get_definition, at(stm, p2), SchemaContext(sd, "abc", mid[k, j])) is ValueError, "definition of {}", x[1])
                go(x, p2, chain + [(p2, x)])
        go(t, [], [])
    many = len({x["name"] for x in mods}) < len(mods)
    subs = any(x["subs"] for x in mods)
    return {"nontrivial": (many or subs) and refs >= 4, "labels": ["revisions"] * many + ["submodules"] * subs + ["scoped"] * bool(scoped), "n": refs}


LEGS = [Leg("names", gen, judge, quick=7500, thorough=30000)]
