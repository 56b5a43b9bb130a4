"""P16: identity derivation against the transitive closure of generated base statements."""
import json
from ..core import Leg, Violation, expect
from ..d import case
from .. import rschema as rs, docs, ystmt as ys
from ..ystmt import st
from .p15 import header

RULE = ("one case is an identity graph over one to three modules (and submodules) with identityref leafs and a shuffled list of repeated questions; "
        "non-trivial when some chain of at least two base statements was asked about and identityref values were both accepted and refused")
ASSUMPTIONS = ["identities of modules that are only imported take part in derivation but are not values (RFC 7950, 9.10.2)"]
MODS = ["ma", "mb", "mc"]
OWN = {"ma": "ma", "mb": "pb", "mc": "ma2"}


def closure(ids):
    """Set of (derived, base) index pairs."""
    rel = {(i, b) for i, x in enumerate(ids) for b in x["bases"]}
    while True:
        new = {(a, d) for a, b in rel for c, d in rel if b == c} - rel
        if not new:
            return rel
        rel |= new


def gen_bases(d, rel, cands):
    """One to three bases that some identity derives from, if possible."""
    n = d.weighted([(5, 1), (3, 2), (1, 3)])
    if d.p(70):
        leafs = sorted({a for a, b in rel if b in cands})
        if leafs:
            a = d.choice(leafs)
            return d.sample([b for x, b in sorted(rel) if x == a and b in cands], n)
    return d.sample(cands, n)


@case
def gen(d):
    n = d.int(1, 3)
    mods = MODS[:n]
    conf = {}
    for m in mods[:-1]:
        if d.p(12):
            conf[m] = "import"
    ids = []
    style = d.choice(["tree", "dense", "any"])
    for i in range(d.weighted([(1, 2), (2, 4), (3, 6), (3, 9)])):
        mod = d.int(0, n - 1)
        cands = [j for j, x in enumerate(ids) if x["mod"] <= mod]
        k = d.weighted([(1, 0), (5, 1), (3, 2), (1, 3)] if style != "dense" else [(1, 1), (4, 2), (3, 3)])
        bases = d.sample(cands, min(k, len(cands))) if style != "tree" else ([cands[-1]] if cands and d.p(80) else [])
        nm = d.choice(["a", "b", "id-1", "_x", "A"]) if d.p(60) else f"i{i}"
        if any(x["mod"] == mod and x["name"] == nm for x in ids):
            nm = f"i{i}"
        ids.append({"name": nm, "mod": mod, "bases": bases, "sub": d.p(25)})
    order = d.shuffle(list(range(len(ids))))
    rel = closure(ids)
    leaves = []
    impl = [i for i, m in enumerate(mods) if m not in conf]
    for i in range(d.int(1, 4)):
        mod = d.choice(impl)
        how = d.weighted([(4, "leaf"), (3, "typedef"), (2, "grouping"), (1, "union")])
        tmod = d.int(0, mod) if how in ("typedef", "grouping") else mod
        cands = [j for j, x in enumerate(ids) if x["mod"] <= tmod]
        if not cands:
            continue
        leaves.append({"name": f"l{i}", "mod": mod, "tmod": tmod, "how": how, "bases": gen_bases(d, rel, cands),
                       "pfx": d.p(30)})
    qs = []
    names = [x["name"] for x in ids] + ["nope", "a"]
    for _ in range(d.int(8, 20)):
        k = d.weighted([(2, "der"), (2, "set"), (6, "acc"), (5, "xp"), (1, "digest")])
        if k == "der":
            qs.append([k, d.int(0, len(ids) - 1), d.int(0, len(ids) - 1)])
        elif k == "set":
            qs.append([k, d.sample(list(range(len(ids))), d.int(1, 3))])
        elif leaves and k == "acc":
            i = d.int(0, len(leaves) - 1)
            good = [j for j in range(len(ids)) if all((j, b) in rel for b in leaves[i]["bases"])]
            if good and d.p(60):
                j = d.choice(good)
                m = ids[j]["mod"]
                t = ("" if m == leaves[i]["mod"] and d.p(50) else mods[m] + ":") + ids[j]["name"]
                qs.append([k, i, t])
                continue
            t = d.choice(["", d.choice(mods) + ":", d.choice(list(OWN.values())) + ":"]) + d.choice(names)
            if d.p(5):
                t = d.choice(["", ":", ":a", "ma:", "ma:a:b", "a b", "nomod:a", " a"])
            qs.append([k, i, t])
        elif leaves and k == "xp":
            i = d.int(0, len(leaves) - 1)
            b = d.int(0, len(ids) - 1)
            cm = d.choice([m for m in range(n) if m >= ids[b]["mod"] and m >= leaves[i]["mod"]])
            qs.append([k, d.choice(["derived-from", "derived-from-or-self"]), i, d.sample(list(range(len(ids))), d.int(0, 3)), b, cm, d.p(50)])
        elif k == "digest":
            qs.append([k])
    qs = d.shuffle(qs + d.sample(qs, d.int(0, len(qs))))
    return {"mods": mods, "conf": conf, "ids": ids, "order": order, "leaves": leaves, "qs": qs}


def ref(c, me, j, force=False):
    x = c["ids"][j]
    m = c["mods"][x["mod"]]
    if x["mod"] == me:
        return OWN[m] + ":" + x["name"] if force else x["name"]
    return f"x{m}:{x['name']}"


def texts(c):
    out, subs = {}, {}
    for i, m in enumerate(c["mods"]):
        imps = [(x, "x" + x) for x in c["mods"][:i]]
        idst, sub = [], []
        for j in c["order"]:
            x = c["ids"][j]
            if x["mod"] == i:
                (sub if x["sub"] else idst).append(st("identity", x["name"], *[st("base", ref(c, i, b, j % 2 == 0)) for b in x["bases"]]))
        body = []
        for x in c["leaves"]:
            T = st("type", "identityref", *[st("base", ref(c, x["tmod"], b, x["pfx"])) for b in x["bases"]])
            tm = c["mods"][x["tmod"]]
            q = "" if x["tmod"] == x["mod"] else "x" + tm + ":"
            if x["how"] == "typedef" and x["tmod"] == i:
                body.append(st("typedef", "t-" + x["name"], T))
            if x["how"] == "grouping" and x["tmod"] == i:
                body.append(st("grouping", "g-" + x["name"], st("leaf-list", x["name"], T)))
            if x["mod"] != i:
                continue
            if x["how"] == "grouping":
                body.append(st("uses", q + "g-" + x["name"]))
                continue
            if x["how"] == "typedef":
                T = st("type", q + "t-" + x["name"])
            if x["how"] == "union":
                T = st("type", "union", T, st("type", "uint8"))
            body.append(st("leaf-list", x["name"], T))
        if sub:
            sn = m + "-sub"
            out[sn] = ys.emit(st("submodule", sn, *header(sn, OWN[m], imps, m), *sub))
            subs[m] = [{"name": sn, "revision": ""}]
            idst = [st("include", sn)] + idst
        out[m] = ys.emit(st("module", m, *header(m, OWN[m], imps), *idst, *body))
    return out, subs


def check(c):
    from yangson import DataModel
    from yangson.schemadata import SchemaContext
    from yangson.xpathparser import XPathParser
    tx, subs = texts(c)
    with rs.Workspace({f"{k}.yang": t for k, t in tx.items()}) as w:
        dm = DataModel(rs.yang_library(c["mods"], conf=c["conf"], subs=subs), (w,))
    sd = dm.schema_data
    ids = c["ids"]
    rel = closure(ids)
    qn = [(x["name"], c["mods"][x["mod"]]) for x in ids]
    idx = {q: i for i, q in enumerate(qn)}
    value = [c["mods"][x["mod"]] not in c["conf"] for x in ids]

    def accepts(x, text):
        a, s, b = text.partition(":")
        q = (b, a) if s else (a, c["mods"][x["mod"]])
        i = idx.get(q)
        return i if i is not None and value[i] and all((i, b) in rel for b in x["bases"]) else None

    yes = no = deep = 0
    for q in c["qs"]:
        if q[0] == "der":
            got = sd.is_derived_from(qn[q[1]], qn[q[2]])
            expect(got == ((q[1], q[2]) in rel), "is_derived_from({}, {}) is {}", qn[q[1]], qn[q[2]], got)
            deep += (q[1], q[2]) in rel and q[2] not in ids[q[1]]["bases"]
        elif q[0] == "set":
            want = {qn[i] for i in range(len(ids)) if all((i, b) in rel for b in q[1])}
            got = sd.derived_from_all([qn[b] for b in q[1]])
            if True:
                expect(got == want, "derived_from_all({}) is {}, expected {}", [qn[b] for b in q[1]], got, want)
            one = q[1][0]
            got = sd.derived_from(qn[one])
            want = {qn[i] for i in range(len(ids)) if (i, one) in rel}
            if True:
                expect(got == want, "derived_from({}) is {}, expected {}", qn[one], got, want)
        elif q[0] == "acc":
            x = c["leaves"][q[1]]
            name = c["mods"][x["mod"]] + ":" + x["name"]
            i = accepts(x, q[2])
            v = docs.verdict(dm, {name: [q[2]]}, "config")
            expect((v[0] == "ok") == (i is not None), "{!r} for leaf {} with bases {}: {!r}", q[2], name, [qn[b] for b in x["bases"]], v[1] if v[0] != "ok" else "accepted")
            if i is not None:
                yes += 1
                deep += any(b not in ids[i]["bases"] for b in x["bases"])
                got = dm.from_raw({name: [q[2]]}).raw_value()
                expect(got == {name: [f"{qn[i][1]}:{qn[i][0]}"]}, "{!r} dumped as {}", q[2], got)
            else:
                no += 1
        elif q[0] == "xp":
            _, fn, li, vals, b, cm, force = q
            x = c["leaves"][li]
            name = c["mods"][x["mod"]] + ":" + x["name"]
            vals = [v for v in vals if all((v, bb) in rel for bb in x["bases"]) and value[v]]
            root = dm.from_raw({name: [f"{qn[v][1]}:{qn[v][0]}" for v in vals]} if vals else {})
            mn = c["mods"][cm]
            pf = OWN[mn] if cm == x["mod"] else "x" + c["mods"][x["mod"]]
            text = f"{fn}({pf}:{x['name']}, '{ref(c, cm, b, force)}')"
            got = XPathParser(text, SchemaContext(sd, mn, (mn, ""))).parse().evaluate(root)
            want = any((v, b) in rel or fn.endswith("self") and v == b for v in vals)
            if x["how"] == "union":
                continue
            expect(got is want, "{} with {} is {}", text, [qn[v] for v in vals], got)
            deep += any((v, b) in rel and b not in ids[v]["bases"] for v in vals)
        else:
            dig = json.loads(dm.schema_digest())["children"]
            for x in c["leaves"]:
                T = dig[c["mods"][x["mod"]] + ":" + x["name"]]["type"]
                if x["how"] != "union":
                    want = sorted(qn[i] for i in range(len(ids)) if value[i] and all((i, b) in rel for b in x["bases"]))
                    got = sorted(map(tuple, T["identities"]))
                    expect(got == want, "identities of {} in the digest: {}, expected {}", x["name"], got, want)
    return {"nontrivial": deep > 0 and yes > 0 and no > 0, "labels": sorted({q[0] for q in c["qs"]} | {x["how"] for x in c["leaves"]} | set(c["conf"].values())),
            "n": len(c["qs"])}


LEGS = [Leg("graphs", gen, check, quick=24000, thorough=96000)]
