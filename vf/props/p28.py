"""P28: the meaning of a module does not depend on the order of its statements, its prefixes, extensions, descriptions or spelling."""
import json
from ..core import Leg, Violation, expect
from ..d import case
from .. import rschema as rs, docs, ystmt as ys
from ..ystmt import st
from .p17 import tidy
from .p18 import parse_tree, huge_bits, annotate

RULE = ("one case is a generated schema, written plainly and written again with permuted statements, other prefixes, extension statements, descriptions, unused definitions, "
        "comments, quoting and submodules chosen at random; digest, tree, verdicts and completed documents are compared; non-trivial when the text differs in at "
        "least three of these respects and a valid and an invalid document were judged, or the schema has at least six data nodes")
ASSUMPTIONS = ["the order of enums and bits, of union members, patterns and default values of leaf-lists is kept", "header statements keep their order",
               "the order of siblings in the digest and tree, and which one of several violations is reported, is not compared"]
EXTS = ("leaf", "type", "must", "annotation", "default-deny-all", "config", "key", "status", "default", "grouping", "typedef", "identity", "base", "if-feature", "uses", "augment")
KEEP = ("enum", "bit", "type", "default", "pattern")
HEAD = ("yang-version", "namespace", "prefix", "import", "include", "organization", "contact", "description", "reference", "revision", "belongs-to")
TEXTS = ["x", "", "leaf a { type string; }", "a 'b' \"c\"", "line\nline", "// no comment", "/* nor this */", "a + b", "\\", "{", "žluť"]
SPOTS = ("container", "list", "leaf", "leaf-list", "choice", "case", "anydata", "anyxml", "type", "enum", "bit", "must", "when", "uses", "augment", "grouping", "typedef",
         "rpc", "notification", "identity", "module", "range", "length", "pattern", "submodule")
DESC = ("container", "list", "leaf", "leaf-list", "choice", "case", "anydata", "anyxml", "enum", "bit", "must", "when", "uses", "augment", "grouping", "typedef",
        "rpc", "notification", "identity", "range", "length", "pattern", "identity")


def prefixes(d, mj, em):
    """Random prefixes, the same one with different meanings in different modules."""
    pool = ["p", "x"] + mj["mods"] + ["yang", "_a", "A.b", "x-1"]
    n = len(mj["mods"])
    for i in range(n):
        for k, p in enumerate(d.sample(pool, n + 1)[:n]):
            em.pmap[(i, k)] = p


def permute(d, s, top):
    """Random order of the substatements."""
    kids = s[3]
    if top:
        k = next((i for i, x in enumerate(kids) if x[0] is None and x[1] not in HEAD), len(kids))
        head, kids = kids[:k], kids[k:]
    else:
        head = []
    out = d.shuffle(kids)
    for kw in KEEP:
        orig = [x for x in kids if x[0] is None and x[1] == kw]
        if len(orig) > 1:
            it = iter(orig)
            out = [next(it) if x[0] is None and x[1] == kw else x for x in out]
    s[3][:] = head + out


def ext(d, depth=0):
    """An extension statement with any content."""
    s = [d.choice(["me", "me", "mf"]), d.choice(["note", "leaf", "type", "type", "must", "annotation", "default-deny-all", "config", "key", "status"]),
         d.choice(TEXTS + ["string", "false", "nosuch:thing", "../zz"]) if d.p(80) else None, []]
    if depth < 2:
        for _ in range(d.weighted([(4, 0), (2, 1), (1, 2)])):
            s[3].append(ext(d, depth + 1) if d.p(50) else
                        d.choice([st("leaf", "zz", st("type", "nosuch")), st("config", "false"), st("mandatory", "true"), st("default", "q"), st("if-feature", "nosuch"),
                                  st("uses", "nosuch"), st("when", "((("), st("status", "obsolete"), st("type", "empty"), st("key", "a")]))
    return s


def insert(d, s, x):
    """Put x among the substatements (after the header of a module)."""
    k = 0
    if s[1] in ("module", "submodule"):
        k = next((i for i, y in enumerate(s[3]) if y[0] is None and y[1] not in HEAD), len(s[3]))
    s[3].insert(d.int(k, len(s[3])), x)


def spell(d, s, ind=0):
    """Text of a statement in some spelling."""
    pref, kw, arg, subs = s

    def sep(must=True):
        k = d.int(0, 11)
        return ("\n" + " " * d.int(0, 3) if k == 0 else " /* c */ " if k == 1 else "\t" if k == 2 else " // c \"\n" if k == 3 else "  ") if k < 5 else " " if must or k < 8 else ""

    def word(a):
        safe = a and not any(ch in " \t\n\r;{}\"'" for ch in a) and "//" not in a and "/*" not in a and a[0] != "+" and "*/" not in a
        k = d.int(0, 9)
        if safe and k <= 4:
            return a
        if "'" not in a and "\n" not in a and "\t" not in a and k <= 7:
            return "'" + a + "'"
        if len(a) > 1 and k == 8:
            i = d.int(1, len(a) - 1)
            return ys.quote(a[:i]) + " + " + ys.quote(a[i:])
        return ys.quote(a)
    t = " " * ind + (pref + ":" if pref else "") + kw
    if arg is not None:
        t += sep() + word(arg)
        if t[-1] not in "\"'":
            t += " " if d.p(50) else "\n"
    if not subs and d.p(85):
        return t + sep(False) + ";\n"
    return t + sep(False) + "{" + sep(False) + "\n" + "".join(spell(d, x, ind + 1) for x in subs) + " " * ind + "}\n"


def rewrite(d, mj):
    """{texts, submodules, kinds of changes}"""
    log = set()
    em = rs.Emitter(mj)
    if d.p(60):
        prefixes(d, mj, em)
        log.add("prefixes")
    trees = {k: ys.parse(t) for k, t in em.run().texts().items()}
    exts, dsc, shuf, unused = d.p(60), d.p(50), d.p(80), d.p(40)
    subs = {}
    if d.p(35):
        for m in list(mj["mods"]):
            if d.p(50):
                t = trees[m]
                own = next(x for x in t[3] if x[1] == "prefix")
                heads = [ys.copy(x) for x in t[3] if x[1] in ("yang-version", "import")]
                subs[m] = [f"s{i}-{m}" for i in range(d.int(1, 3))]
                bodies = {None: [], **{s: [] for s in subs[m]}}
                for x in t[3]:
                    if x[0] is None and x[1] not in HEAD:
                        bodies[d.choice([None] + subs[m])].append(x)
                t[3][:] = [x for x in t[3] if x[0] is not None or x[1] in HEAD] + bodies[None]
                for i, s in enumerate(subs[m]):
                    incs = [st("include", x) for x in subs[m][:i] if d.p(40)]
                    trees[s] = st("submodule", s, ys.copy(heads[0]), st("belongs-to", m, ys.copy(own)), *map(ys.copy, heads[1:]), *incs, *bodies[s])
                    k = max(i for i, x in enumerate(t[3]) if x[1] in ("yang-version", "namespace", "prefix", "import")) + 1
                    t[3].insert(k, st("include", s))
                log.add("submodule")
    # sites first, then changes
    for name, t in trees.items():
        sites = list(ys.walk(t))
        if unused:
            for _ in range(d.int(1, 3)):
                insert(d, t, d.choice([st("grouping", f"un{d.int(0, 9)}-{name}-{len(t[3])}", st("leaf", "zz", st("type", "string"))),
                                       st("typedef", f"un{d.int(0, 9)}-{name}-{len(t[3])}", st("type", "int8"), st("default", "5")),
                                       st("feature", f"un{d.int(0, 9)}-{name}-{len(t[3])}"), st("extension", f"un-{name}-{len(t[3])}", st("argument", "x"))]))
            log.add("unused")
        if dsc:
            for s, _ in sites:
                if s[0] is None and s[1] in DESC and d.p(20):
                    kw = d.choice(["description", "reference"])
                    if not ys.find(s, kw):
                        insert(d, s, st(kw, d.choice(TEXTS)))
                        log.add("descriptions")
        if exts:
            own = next(x[2] for s in [t] + [x for x in t[3] if x[1] == "belongs-to"] for x in s[3] if x[1] == "prefix")
            k = next(i for i, x in enumerate(t[3]) if x[1] in ("prefix", "belongs-to")) + 1
            used = False
            for s, _ in sites:
                if s[0] is None and s[1] in SPOTS and d.p(15):
                    x = ext(d)
                    if d.p(15):
                        x[0] = own
                    if d.p(50) and s[3]:        # an extension named like a statement that is there
                        y = d.choice(s[3])
                        x[1] = y[1]
                        if d.p(60):
                            x[2] = y[2]
                        if d.p(30):
                            x[3] = [ys.copy(z) for z in y[3]]
                    insert(d, s, x)
                    used = True
            for s, path in sites:
                if s[0] is None and s[1] in ("grouping", "typedef", "identity") and path and d.p(25):
                    up = path[-1][3]
                    up.insert(next(i for i, x in enumerate(up) if x is s), [d.choice(["me", "mf", own]), s[1], s[2], [ext(d)] if d.p(50) else []])
                    used = True
            if used:
                t[3].insert(k, st("import", "mext", st("prefix", "me")))
                t[3].insert(k, st("import", "mfxt", st("prefix", "mf")))
                log.add("extensions")
    if shuf:
        for t in trees.values():
            for s, path in list(ys.walk(t)):
                if s[0] is None and len(s[3]) > 1:
                    permute(d, s, not path)
        log.add("order")
    sp = d.p(50)
    if sp:
        log.add("spelling")
    texts = {k: spell(d, t) if sp else ys.emit(t) for k, t in trees.items()}
    for x in ("mext", "mfxt"):
        texts[x] = (f'module {x} {{ yang-version 1.1; namespace "urn:x:{x}"; prefix p; extension note {{ argument text; }} '
                    + "".join(f"extension {n}; " for n in EXTS) + "leaf zz { type string; } }")
    order = d.shuffle(mj["mods"] + ["mext", "mfxt"]) if d.p(50) else mj["mods"] + ["mext", "mfxt"]
    if order[:len(mj["mods"])] != mj["mods"]:
        log.add("library")
    return {"texts": texts, "subs": {m: [{"name": s, "revision": ""} for s in v] for m, v in subs.items()}, "order": order, "log": sorted(log)}


def make(**kw):
    @case
    def gen(d):
        f = rs.default_feat(**{"must": d.p(40), "ops": d.p(25), "unique": True, "leafref": d.p(30), "iid": d.p(15), **kw})
        mj = rs.Gen(d, f).gen()
        if d.p(30):
            annotate(d, mj)
        m = rs.Model(mj)
        dd = []
        for _ in range(d.int(1, 3)):
            ct = d.choice(["config", "all"])
            raw = rs.DataGen(d, m, ct, density=d.choice([30, 70, 95])).doc() or {}
            dd.append([raw, ct])
            dd.append([docs.mutate(d, m, raw)[0], ct])
        return {"m": mj, "new": rewrite(d, mj), "docs": dd}
    return gen


def load(c):
    from yangson import DataModel
    n = c["new"]
    with rs.Workspace({f"{k}.yang": t for k, t in n["texts"].items()}) as w:
        return DataModel(rs.yang_library(n["order"], subs=n["subs"], conf={"mext": "import", "mfxt": "import"}), (w,))


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items() if k != "description" or not isinstance(v, str)}
    return x


def lines(dm):
    return sorted(((p, sorted((k, str(v)) for k, v in x.items())) for p, x, _ in parse_tree(dm.ascii_tree())), key=repr)


def check(c):
    from yangson.enumerations import ContentType
    mj = c["m"]
    a, b = rs.load(mj), load(c)
    log = c["new"]["log"]
    x, y = lines(b), lines(a)
    if x != y:
        raise Violation(f"tree after {log}: {[q for q in x if q not in y][:2]} instead of {[q for q in y if q not in x][:2]}")
    if not huge_bits(mj):
        x, y = (plain(tidy(json.loads(dm.schema_digest()))) for dm in (b, a))
        if x != y:
            raise Violation(f"digest after {log}: {rs.diff(x, y)[:600]} (changed text first)")
    x, y = sorted(b.schema.state_roots()), sorted(a.schema.state_roots())
    expect(x == y, "state roots after {}: {} instead of {}", log, x, y)
    verd = set()
    for raw, ct in c["docs"]:
        va, vb = docs.verdict(a, raw, ct), docs.verdict(b, raw, ct)
        if va[0] != vb[0]:
            raise Violation(f"after {log} document {raw} ({ct}): {vb[0]} {vb[1]!r}, before {va[0]} {va[1]!r}")
        verd.add(va[0])
        if va[0] != "ok":
            continue
        for k in (ContentType.config, ContentType.all):
            x, y = (v[2].add_defaults(k).raw_value() for v in (vb, va))
            if not rs.same(x, y):
                raise Violation(f"after {log} defaults of {raw}: {rs.diff(x, y)} (changed text first)")
    n = sum(1 for _ in rs.Model(mj).all_data())
    return {"nontrivial": len(log) >= 3 and (len(verd) > 1 or n >= 6), "labels": log + sorted("doc:" + v for v in verd)}


LEGS = [Leg("rewrite", make(), check, quick=6400, thorough=30000)]
