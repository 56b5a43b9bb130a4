"""P15: if-feature expressions and the definitions they include."""
import json
import re
from ..core import Leg, Skip, Violation, expect
from ..d import case
from .. import rschema as rs, docs, ystmt as ys
from ..ystmt import st

RULE = ("leg expr: at least four well-formed expressions with both truth values and one refused text; leg schema: at least one definition kept and one "
        "removed by an if-feature and a document judged; leg assign: a supported enum or bit after an unsupported one without explicit value")
ASSUMPTIONS = ["operators written without white space next to a parenthesis are outside the domain (the tool is more liberal than the grammar)",
               "names used in expressions are declared features", "if-feature on list keys, default cases and bases of other identities is outside the domain"]
FNAMES = ["f", "g", "h", "not-x", "notify", "order", "android", "and", "or", "x.y", "_f", "f-1", "nota", "A"]
SIMPLE = [(4, "string"), (2, "boolean"), (2, "uint8"), (3, "enumeration"), (1, "empty"), (2, "identityref"), (1, "union"), (2, "bits")]


# ---- expressions: ["f", module, name, prefixed?] | ["not", e] | ["and", a, b] | ["or", a, b]

def gen_expr(d, pool, depth):
    k = d.int(0, 9) if depth else 0
    if k < 3:
        f = d.choice(pool)
        return ["f", f[0], f[1], d.p(50)]
    if k < 5:
        return ["not", gen_expr(d, pool, depth - 1)]
    return [d.choice(["and", "or"]), gen_expr(d, pool, depth - 1), gen_expr(d, pool, depth - 1)]


def truth(e, sup):
    if e[0] == "f":
        return [e[1], e[2]] in sup
    if e[0] == "not":
        return not truth(e[1], sup)
    a, b = truth(e[1], sup), truth(e[2], sup)
    return (a and b) if e[0] == "and" else (a or b)


PREC = {"or": 0, "and": 1, "not": 2, "f": 3}


def spell(d, e, me, pfx):
    """Text of e in module me; pfx: prefix of each module."""
    def sp():
        return d.weighted([(8, " "), (1, "  "), (1, "\n"), (1, "\t"), (1, " \n  ")])

    def opt():
        return d.weighted([(6, ""), (1, " "), (1, "\n")])

    def go(x, need):
        if x[0] == "f":
            s = x[2] if x[1] == me and not x[3] else pfx[x[1]] + ":" + x[2]
        elif x[0] == "not":
            s = "not" + sp() + go(x[1], 2)
        else:
            p = PREC[x[0]]
            # the grammar is right-recursive, so the left operand has to bind more tightly
            s = go(x[1], p + 1) + sp() + x[0] + sp() + go(x[2], p)
        if PREC[x[0]] < need or d.p(12):
            s = "(" + opt() + s + opt() + ")"
        return s
    return opt() + go(e, 0) + opt()


class Bad(Exception):
    pass


WS = " \t\n\r"


def recognise(text, me, pmap, feats):
    """Strict RFC 7950 reader of an expression -> AST; Bad when malformed, Skip when merely lax."""
    toks = []
    i = 0
    while i < len(text):
        c = text[i]
        if c in WS:
            toks.append(" ")
            while i < len(text) and text[i] in WS:
                i += 1
        elif c in "()":
            toks.append(c)
            i += 1
        else:
            m = re.compile(r"[A-Za-z_][\w.-]*(:[A-Za-z_][\w.-]*)?", re.A).match(text, i)
            if not m:
                raise Bad
            toks.append(m.group())
            i = m.end()
    for a, b in zip(toks, toks[1:]):
        if a not in " ()" and b not in " ()":
            raise Bad
    lax = []
    pos = 0

    def peek(k=0):
        return toks[pos + k] if pos + k < len(toks) else None

    def ws():
        nonlocal pos
        if peek() == " ":
            pos += 1
            return True
        return False

    def expr():
        nonlocal pos
        a = term()
        save = pos
        s = ws()
        if peek() == "or":
            if not s:
                lax.append("or")
            pos += 1
            if not ws():
                lax.append("or")
            return ["or", a, expr()]
        pos = save
        return a

    def term():
        nonlocal pos
        a = factor()
        save = pos
        s = ws()
        if peek() == "and":
            if not s:
                lax.append("and")
            pos += 1
            if not ws():
                lax.append("and")
            return ["and", a, term()]
        pos = save
        return a

    def factor():
        nonlocal pos
        t = peek()
        if t is None or t in " )":
            raise Bad
        pos += 1
        if t == "(":
            ws()
            e = expr()
            ws()
            if peek() != ")":
                raise Bad
            pos += 1
            return e
        if t == "not":
            if peek() == "(":
                lax.append("not(")
            elif not ws():
                raise Bad
            return ["not", factor()]
        p, s, n = t.rpartition(":")
        if s and p not in pmap:
            raise Bad
        m = pmap[p] if s else me
        if [m, n] not in feats:
            raise Skip("undeclared feature")
        return ["f", m, n, bool(s)]

    ws()
    e = expr()
    ws()
    if pos < len(toks):
        raise Bad
    if lax:
        raise Skip("lax spacing")
    return e


def gen_features(d, mods, nmax=4):
    """[[module, name, prerequisite AST or None]] and the supported ones (closed unless 'broken')."""
    feats = []
    for i, m in enumerate(mods):
        for n in d.sample(FNAMES, d.int(1, nmax)):
            pre = None
            pool = [f for f in feats if mods.index(f[0]) <= i]
            if pool and d.p(20):
                pre = gen_expr(d, pool, 2)
            feats.append([m, n, pre])
    sup = []
    broken = d.p(8)
    for m, n, pre in feats:
        if d.p(55) and (pre is None or truth(pre, sup) or broken):
            sup.append([m, n])
    # conditions are judged against the final set
    if not broken:
        changed = True
        while changed:
            changed = False
            for m, n, pre in feats:
                if pre is not None and [m, n] in sup and not truth(pre, sup):
                    sup.remove([m, n])
                    changed = True
    return feats, sup


BITS = ["(", ")", " ", "and", "or", "not", " and ", " or ", " not ", ":", "f", "ma:", "&", "1", "x", "-", "\n", "not(", "()", ",", "!"]


def damage(d, t):
    for _ in range(d.weighted([(4, 1), (2, 2)])):
        i = d.int(0, len(t))
        k = d.int(0, 3)
        if k == 0:
            t = t[:i] + t[min(len(t), i + d.int(1, 4)):]
        elif k == 1:
            t = t[:i]
        else:
            t = t[:i] + d.choice(BITS) + t[i:]
    return t


def header(name, prefix, imports, sub_of=None):
    h = [st("yang-version", "1.1")]
    if sub_of:
        h.append(st("belongs-to", sub_of, st("prefix", prefix)))
    else:
        h += [st("namespace", rs.ns_uri(name)), st("prefix", prefix)]
    return h + [st("import", m, st("prefix", p)) for m, p in imports]


PFX = {"ma": "pa", "mb": "or", "mc": "not-y"}


@case
def gen_expr_case(d):
    mods = ["ma", "mb", "mc"][:d.int(1, 3)]
    feats, sup = gen_features(d, mods)
    me = mods[-1]
    pool = [f[:2] for f in feats]
    exprs = []
    for _ in range(d.int(4, 8)):
        e = gen_expr(d, pool, d.int(0, 4))
        exprs.append({"e": e, "t": spell(d, e, me, PFX)})
    bad = [damage(d, d.choice(exprs)["t"]) for _ in range(d.int(1, 4))]
    pre = {json.dumps(f[:2]): spell(d, f[2], f[0], PFX) for f in feats if f[2] is not None}
    return {"mods": mods, "feats": feats, "sup": sup, "exprs": exprs, "bad": bad, "pre": pre, "sub": d.p(40),
            "bare": d.choice([None, None, "unknown prefix", "malformed"])}


def closed(c):
    return all(pre is None or truth(pre, c["sup"]) for m, n, pre in c["feats"] if [m, n] in c["sup"])


def texts_of(c, leaves):
    """Module texts; the last module has the given leaves [(name, expression text)...] (in a submodule when c["sub"])."""
    out = {}
    subs = {}
    for i, m in enumerate(c["mods"]):
        imps = [(x, PFX[x]) for x in c["mods"][:i]]
        fs = []
        for fm, n, pre in c["feats"]:
            if fm == m:
                fs.append(st("feature", n, *([st("if-feature", c["pre"][json.dumps([fm, n])])] if pre is not None else [])))
        body = [st("leaf", nm, st("if-feature", t), st("type", "string")) for nm, t in leaves] if m == c["mods"][-1] else []
        if m == c["mods"][-1] and c["sub"]:
            sn = m + "-sub"
            out[sn] = ys.emit(st("submodule", sn, *header(sn, PFX[m], imps, m), *fs[1:], *body))
            subs[m] = [{"name": sn, "revision": ""}]
            out[m] = ys.emit(st("module", m, *header(m, PFX[m], imps), st("include", sn), *fs[:1]))
        else:
            out[m] = ys.emit(st("module", m, *header(m, PFX[m], imps), *fs, *body))
    return out, subs


def model(texts, mods, sup, subs=None):
    from yangson import DataModel
    with rs.Workspace({f"{k}.yang": t for k, t in texts.items()}) as w:
        return DataModel(rs.yang_library(mods, features={m: [n for x, n in sup if x == m] for m in mods}, subs=subs), (w,))


def check_expr(c):
    from yangson.exceptions import YangsonException, FeaturePrerequisiteError, ParserException, UnknownPrefix
    me = c["mods"][-1]
    leaves = [(f"l{i}", x["t"]) for i, x in enumerate(c["exprs"])]
    texts, subs = texts_of(c, leaves)
    try:
        dm = model(texts, c["mods"], c["sup"], subs)
    except FeaturePrerequisiteError as e:
        str(e)
        expect(not closed(c), "prerequisites of the supported features hold, but: {}", e)
        return {"nontrivial": True, "labels": ["prerequisite"]}
    expect(closed(c), "supported features {} accepted although a prerequisite is not met", c["sup"])
    vals = set()
    for i, x in enumerate(c["exprs"]):
        want = truth(x["e"], c["sup"])
        got = dm.get_data_node(f"/{me}:l{i}") is not None
        expect(want == got, "{!r} with {} is {}, expected {}", x["t"], c["sup"], got, want)
        vals.add(want)
    pmap = {PFX[m]: m for m in c["mods"]}
    feats = [f[:2] for f in c["feats"]]
    refused = 0
    for t in c["bad"]:
        try:
            e = recognise(t, me, pmap, feats)
            want = truth(e, c["sup"])
        except Bad:
            want = None
        except Skip:
            continue
        texts, subs = texts_of(c, [("l", t)])
        try:
            dm = model(texts, c["mods"], c["sup"], subs)
        except (ParserException, UnknownPrefix) as e:
            str(e)
            expect(want is None, "well-formed expression {!r} refused: {!r}", t, e)
            refused += 1
            continue
        expect(want is not None, "malformed expression {!r} accepted", t)
        got = dm.get_data_node(f"/{me}:l") is not None
        expect(want == got, "{!r} with {} is {}, expected {}", t, c["sup"], got, want)
    return {"nontrivial": len(vals) == 2 and refused > 0, "labels": ["submodule"] if c["sub"] else [], "n": len(c["exprs"]) + len(c["bad"])}


# ---------------------------------------------------------------------- whole schemas

ELIG = ("leaf", "leaf-list", "container", "list", "choice", "case", "anydata", "anyxml", "uses", "augment", "rpc", "notification", "enum", "bit", "identity",
        "action")


def eligible(t, path, refs, dflts):
    if t[0] or t[1] not in ELIG or not path:
        return False
    par = path[-1]
    if t[1] == "leaf" and par[1] == "list" and t[2] in (ys.arg(par, "key") or "").split():
        return False
    if par[1] == "choice" and ys.arg(par, "default") == t[2]:
        return False
    if t[1] in ("enum", "bit") and par[3].index(t) == next(i for i, s in enumerate(par[3]) if s[1] == t[1]):
        return False
    if t[1] == "identity" and t[2] in refs:
        return False
    if t[1] in ("enum", "bit") and t[2] in dflts:
        return False        # a value used as a default must not depend on features (RFC 7950 7.6.4)
    return True


def extend(d, trees):
    """Extra material: actions, refines and augments of uses."""
    n = 0
    for m, t in trees.items():
        grp = {g[2]: g for g in ys.find_all(t, "grouping")}
        for s, path in list(ys.walk(t)):
            if s[0]:
                continue
            if s[1] in ("container", "list") and not any(p[1] in ("rpc", "notification", "action") for p in path) and d.p(10) and (s[1] != "list" or ys.find(s, "key")):
                n += 1
                s[3].append(st("action", f"act{n}", st("input", None, st("leaf", "x", st("type", "string")))))
            if s[1] == "uses" and s[2] in grp:
                for c in grp[s[2]][3]:
                    if c[1] in ("container", "list") and d.p(25):
                        n += 1
                        s[3].append(st("augment", c[2], st("leaf", f"zz{n}", st("type", "string"))))
                    if c[1] in ("leaf", "container", "list", "leaf-list", "choice") and d.p(50):
                        s[3].append(st("refine", c[2], st("description", "refined")))


def prune(t, marks, sup, trees):
    """Copy of t without what is excluded and without if-feature statements."""
    subs = []
    val = None
    drop = set()
    if t[1] == "grouping" and not t[0]:
        # groupings are used once each: what a refine removes can be left out here
        for tr in trees.values():
            for s, _ in ys.walk(tr):
                if s[1] == "uses" and s[2] == t[2]:
                    for r in ys.find_all(s, "refine"):
                        if not holds(r, marks, sup):
                            drop.add(r[2])
                            for a in ys.find_all(s, "augment"):
                                if a[2] == r[2]:
                                    drop.add("")
    if "" in drop:
        raise Skip("augment of a refined node")
    auto = t[1] == "type" and t[2] in ("enumeration", "bits")
    for s in t[3]:
        keep = holds(s, marks, sup)
        if s[1] in ("refine",):
            if keep:
                subs.append(prune(s, marks, sup, trees))
            continue
        c = prune(s, marks, sup, trees)
        if auto and s[1] in ("enum", "bit"):
            kw = "value" if s[1] == "enum" else "position"
            v = ys.arg(s, kw)
            v = int(v) if v is not None else 0 if val is None else val + 1
            if ys.find(s, kw) is None:
                c[3].append(st(kw, str(v)))
            val = v if val is None else max(v, val)
        if keep and not (s[2] in drop and s[1] in ELIG):
            subs.append(c)
    return [t[0], t[1], t[2], subs]


def holds(s, marks, sup):
    return all(truth(e, sup) for e in marks.get(id(s), ()))


@case
def gen_schema(d):
    f = rs.default_feat(kinds=SIMPLE, typedefs=15, ops=True, when=d.p(40))
    mj = rs.Gen(d, f).gen()
    mods = mj["mods"]
    trees = {k: ys.parse(t) for k, t in rs.Emitter(mj).run().texts().items()}
    refs = {s[2].split(":")[-1] for t in trees.values() for s, _ in ys.walk(t) if s[1] == "base"}
    dflts = {w for t in trees.values() for s, _ in ys.walk(t) if s[1] == "default" and not s[0] for w in s[2].split() + [s[2].split(":")[-1]]}
    extend(d, trees)
    feats, sup = gen_features(d, mods, 3)
    marks = {}
    labels = set()
    for i, m in enumerate(mods):
        t = trees[m]
        for x in mods[:i]:
            if not ys.find(t, "import", x):
                t[3].insert(next(k for k, s in enumerate(t[3]) if s[1] == "prefix") + 1, st("import", x, st("prefix", "x" + x)))
        pool = [f[:2] for f in feats if mods.index(f[0]) <= i]
        rate = d.choice([8, 15, 30])
        for s, path in list(ys.walk(t)):
            if (eligible(s, path, refs, dflts) or s[1] == "refine" and not s[0]) and d.p(60 if s[1] in ("refine", "action", "uses") else rate):
                marks[id(s)] = [gen_expr(d, pool, d.int(0, 2)) for _ in range(d.weighted([(4, 1), (1, 2)]))]
    try:
        pruned = {m: ys.emit(prune(t, marks, sup, trees)) for m, t in trees.items()}
    except Skip:
        marks = {}
        pruned = {m: ys.emit(prune(t, marks, sup, trees)) for m, t in trees.items()}
    on = off = 0
    for i, m in enumerate(mods):
        pfx = {x: "x" + x for x in mods[:i]}
        pfx[m] = "p" + m
        for s, _ in ys.walk(trees[m]):
            if id(s) in marks:
                h = holds(s, marks, sup)
                on, off = on + h, off + (not h)
                labels.add(s[1] + ("+" if h else "-"))
                s[3][:0] = [st("if-feature", spell(d, e, m, pfx)) for e in marks[id(s)]]
        at = len(trees[m][3]) if d.p(30) else next((k for k, s in enumerate(trees[m][3]) if s[1] not in ("yang-version", "namespace", "prefix", "import")), len(trees[m][3]))
        trees[m][3][at:at] = [st("feature", n, *([st("if-feature", spell(d, pre, m, pfx))] if pre is not None else [])) for fm, n, pre in feats if fm == m]
    mm = rs.Model(mj)
    dd = []
    for _ in range(d.int(1, 3)):
        ct = d.choice(["config", "all"])
        raw = rs.DataGen(d, mm, ct, density=d.choice([30, 70, 95])).doc() or {}
        dd.append([raw, ct])
        dd.append([docs.mutate(d, mm, raw)[0], ct])
    return {"mods": mods, "feats": feats, "sup": sup, "full": {m: ys.emit(t) for m, t in trees.items()}, "pruned": pruned, "docs": dd, "on": on, "off": off,
            "labels": sorted(labels)}


def norm(x):
    if isinstance(x, dict):
        return {k: sorted(v) if k == "identities" else norm(v) for k, v in x.items()}
    return x


def check_schema(c):
    from yangson.exceptions import YangsonException, FeaturePrerequisiteError
    try:
        full = model(c["full"], c["mods"], c["sup"])
    except FeaturePrerequisiteError as e:
        expect(not closed(c), "prerequisites of the supported features hold, but: {}", e)
        return {"nontrivial": True, "labels": ["prerequisite"]}
    except YangsonException as e:
        full = e
    else:
        expect(closed(c), "supported features {} accepted although a prerequisite is not met", c["sup"])
    try:
        part = model(c["pruned"], c["mods"], [])
    except YangsonException as e:
        part = e
    if isinstance(part, Exception) or isinstance(full, Exception):
        expect(isinstance(part, Exception) and type(part) is type(full), "with if-feature statements {!r}, written out {!r}", full, part)
        return {"nontrivial": False, "labels": ["refused: " + type(full).__name__]}
    a, b = full.ascii_tree(), part.ascii_tree()
    if a != b:
        raise Violation(f"different schema trees\n{a}\n--- expected ---\n{b}")
    big = any(int(x) > 2000 for t in c["pruned"].values() for x in re.findall(r'position "(\d+)"', t))
    if not big:
        a, b = norm(json.loads(full.schema_digest())), norm(json.loads(part.schema_digest()))
        if a != b:
            raise Violation("different schema digests: " + rs.diff(a, b)[:600])
    judged = set()
    for raw, ct in c["docs"]:
        va, vb = docs.verdict(full, raw, ct), docs.verdict(part, raw, ct)
        expect(va[0] == vb[0] and type(va[1]) is type(vb[1]), "document {} ({}): {!r}, expected {!r}", raw, ct, va[:2], vb[:2])
        judged.add(va[0])
    return {"nontrivial": c["on"] > 0 and c["off"] > 0, "labels": c["labels"] + ["doc:" + j for j in judged]}


# ---------------------------------------------------------------------- values of enums and positions of bits

@case
def gen_assign(d):
    feats, sup = gen_features(d, ["ma"], 3)
    items = []
    used, nxt = set(), 0
    kind = d.choice(["enum", "bit"])
    for i in range(d.int(1, 6)):
        v = None
        if d.p(30):
            v = d.int(-3 if kind == "enum" else 0, 12)
            if v in used:
                v = None
        real = v if v is not None else nxt
        used.add(real)
        nxt = max(nxt, real + 1) if i else real + 1
        e = gen_expr(d, [f[:2] for f in feats], 2) if i and d.p(50) else None
        items.append({"n": f"v{i}", "v": v, "real": real, "e": e, "t": None if e is None else spell(d, e, "ma", PFX)})
    return {"mods": ["ma"], "feats": feats, "sup": sup, "items": items, "kind": kind, "typedef": d.p(40),
            "pre": {json.dumps(f[:2]): spell(d, f[2], f[0], PFX) for f in feats if f[2] is not None}}


def check_assign(c):
    if not closed(c):
        raise Skip("prerequisite")
    kw = "value" if c["kind"] == "enum" else "position"
    T = st("type", "enumeration" if c["kind"] == "enum" else "bits")
    for it in c["items"]:
        s = st(c["kind"], it["n"])
        if it["t"] is not None:
            s[3].append(st("if-feature", it["t"]))
        if it["v"] is not None:
            s[3].append(st(kw, str(it["v"])))
        T[3].append(s)
    fs = [st("feature", n, *([st("if-feature", c["pre"][json.dumps([m, n])])] if pre is not None else [])) for m, n, pre in c["feats"]]
    body = []
    if c["typedef"]:
        body.append(st("typedef", "t", T))
        T = st("type", "t")
    body.append(st("container", "c", st("leaf", "e", T), st("leaf", "v", st("type", "int32"),
                   *([st("must", "enum-value(../e) = .")] if c["kind"] == "enum" else []))))
    dm = model({"ma": ys.emit(st("module", "ma", *header("ma", "pa", []), *fs, *body))}, ["ma"], c["sup"])
    ok = {it["n"]: it["e"] is None or truth(it["e"], c["sup"]) for it in c["items"]}

    def good(**v):
        return docs.verdict(dm, {"ma:c": v}, "config")[0] == "ok"
    for it in c["items"]:
        expect(good(e=it["n"]) == ok[it["n"]], "{} {} accepted: {}, expected {}", c["kind"], it["n"], not ok[it["n"]], ok[it["n"]])
        if ok[it["n"]] and c["kind"] == "enum":
            expect(good(e=it["n"], v=it["real"]), "the value of enum {} is not {}", it["n"], it["real"])
            expect(not good(e=it["n"], v=it["real"] + 1), "the value of enum {} is taken for {}", it["n"], it["real"] + 1)
    if c["kind"] == "bit":
        got = json.loads(dm.schema_digest())["children"]["ma:c"]["children"]["e"]["type"]["bits"]
        want = {it["real"]: it["n"] for it in c["items"] if ok[it["n"]]}
        expect({i: b for i, b in enumerate(got) if b} == want, "bits in the digest {}, expected {}", got, want)
        sup = sorted((it["real"], it["n"]) for it in c["items"] if ok[it["n"]])
        inst = dm.from_raw({"ma:c": {"e": " ".join(n for _, n in reversed(sup))}})
        expect(inst["ma:c"]["e"].raw_value() == " ".join(n for _, n in sup), "canonical order of bits {}", inst["ma:c"]["e"].raw_value())
    hit = any(not ok[a["n"]] and ok[b["n"]] and b["v"] is None for i, a in enumerate(c["items"]) for b in c["items"][i + 1:])
    return {"nontrivial": hit, "labels": [c["kind"]]}


LEGS = [Leg("expr", gen_expr_case, check_expr, quick=8000, thorough=60000), Leg("schema", gen_schema, check_schema, quick=6000, thorough=40000),
        Leg("assign", gen_assign, check_assign, quick=3200, thorough=20000)]
