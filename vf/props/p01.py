"""P01: structural validation against the reference validator."""
from ..core import Leg, Skip, Violation
from ..d import case
from .. import rschema as rs, rtypes as rt, docs

RULE = ("one case is a generated schema with several documents; it is non-trivial when the schema has at least one condition, choice, "
        "cardinality or mandatory rule and both a valid and an invalid document were judged, or at least two documents with different verdicts")
SIMPLE = [(4, "string"), (2, "boolean"), (2, "uint8"), (2, "enumeration"), (1, "empty"), (1, "identityref"), (1, "union"), (1, "int64"), (1, "bits")]


def make(**kw):
    @case
    def gen(d):
        f = rs.default_feat(kinds=SIMPLE, typedefs=10, **kw)
        mj = rs.Gen(d, f).gen()
        m = rs.Model(mj)
        out = []
        for _ in range(d.int(2, 4)):
            ct = d.choice(["config", "all"])
            doc = rs.DataGen(d, m, ct, density=d.choice([30, 70, 95])).doc()
            if doc is None:
                doc = {}
            else:
                out.append({"raw": doc, "ct": ct, "mut": ["none"]})
            for _ in range(d.int(1, 3)):
                r, ops = docs.mutate(d, m, doc)
                out.append({"raw": r, "ct": ct if d.p(80) else d.choice(["config", "all"]), "mut": ops})
        return {"m": mj, "docs": out}
    return gen


@case
def nested(d):
    """Mandatory configuration and state nodes mixed at every level of nested containers."""
    mods = ["ma", "mb"]
    cnt = [0]

    def node(ns, depth, config, inchoice=False):
        cnt[0] += 1
        n = {"name": f"n{cnt[0]}", "ns": ns}
        k = d.weighted([(6, "leaf"), (2, "leaf-list")] + ([(7, "container"), (2, "list"), (2, "choice")] if depth < 3 else []))
        if k == "choice" and inchoice:
            k = "container"
        n["kind"] = k
        if config and d.p(25):
            n["config"] = config = False
        if k == "leaf":
            n["type"] = {"t": "string"}
            if d.p(60):
                n["mandatory"] = True
        elif k == "leaf-list":
            n["type"] = {"t": "string"}
            if d.p(60):
                n["min"] = 1
        elif k == "choice":
            if n.pop("config", None) is False:
                config = True
            if d.p(50):
                n["mandatory"] = True
            n["children"] = []
            for _ in range(d.int(1, 2)):
                cnt[0] += 1
                n["children"].append({"kind": "case", "name": f"n{cnt[0]}", "ns": ns,
                                      "children": [node(ns, depth + 1, config, True) for _ in range(d.int(1, 2))]})
        else:
            kids = []
            if k == "list":
                if config:
                    kids = [{"kind": "leaf", "name": "k", "ns": ns, "type": {"t": "string"}}]
                    n["keys"] = ["k"]
                if d.p(40):
                    n["min"] = 1
            elif d.p(20):
                n["presence"] = True
            kids += [node(ns, depth + 1, config) for _ in range(d.int(1, 3))]
            if ns == 0 and d.p(15):
                # an augment may only add mandatory nodes under a condition: without one, optional nodes only
                cnt[0] += 1
                kids.append({"kind": "leaf", "name": f"n{cnt[0]}", "ns": 1, "type": {"t": "string"}})
            n["children"] = d.shuffle(kids) if d.p(50) else kids
        return n
    top = [node(d.int(0, 1), 0, True) for _ in range(d.int(1, 2))]
    if not any(t["kind"] in ("container", "list") for t in top):
        top.append({"kind": "container", "name": "top", "ns": 0, "children": [node(0, 1, True) for _ in range(2)]})
    mj = {"mods": mods, "idents": [], "tree": top, "ops": []}
    m = rs.Model(mj)
    out = []
    for _ in range(d.int(2, 4)):
        ct = d.choice(["config", "all"])
        doc = rs.DataGen(d, m, ct, density=d.choice([20, 60, 95])).doc() or {}
        out.append({"raw": doc, "ct": ct, "mut": ["none"]})
        for _ in range(d.int(1, 3)):
            r, ops = docs.mutate(d, m, doc, ops=[(6, "drop"), (2, "dropall"), (1, "dropentry"), (1, "add")])
            out.append({"raw": r, "ct": ct, "mut": ops})
    return {"m": mj, "docs": out}


@case
def altern(d):
    """Choices with local cases and cases of (conditional) augments, nested, and arbitrary selections of their leafs."""
    cnt = [0]
    leafs = []

    def fresh(p):
        cnt[0] += 1
        return f"{p}{cnt[0]}"

    def cond(pct):
        return {"when": ["swref", 1, 0, "s", ["eq", d.choice(["x", "y"])]]} if d.p(pct) else {}

    def acase(ns, depth):
        kids = []
        for _ in range(d.weighted([(3, 1), (3, 2), (1, 3)])):
            if depth < 2 and d.p(15):
                kids.append(achoice(ns, depth + 1))
                continue
            n = {"kind": "leaf", "name": fresh("l"), "ns": ns, "type": {"t": "uint8"}}
            if d.p(35):
                n["mandatory"] = True
            elif d.p(20):
                n["default"] = 1
            n.update(cond(12))
            leafs.append(n)
            kids.append(n)
        c = {"kind": "case", "ns": ns, "children": kids}
        if len(kids) == 1 and kids[0]["kind"] == "leaf" and d.p(50):
            c.update(short=True, name=kids[0]["name"])
        else:
            c.update(name=fresh("cs"), **cond(12))
        return c

    def achoice(ns, depth):
        n = {"kind": "choice", "name": fresh("ch"), "ns": ns, "children": [acase(ns, depth) for _ in range(d.int(1, 2))]}
        n.update(cond(15))
        if d.p(35):
            n["mandatory"] = True
        elif d.p(40):
            c = d.choice(n["children"])
            if not any(k.get("mandatory") for k in c["children"]):
                n["default"] = c["name"]
        for _ in range(d.int(0, 2)):
            g = {"kind": "group", "name": fresh("g"), "via": "augment", "ns": d.choice([ns, 1]), "children": []}
            g["children"] = [acase(g["ns"], depth) for _ in range(d.int(1, 3))]
            g.update(cond(65))
            n["children"].append(g)
        return n
    sw = {"kind": "leaf", "name": "s", "ns": 0, "type": {"t": "enumeration", "enums": [["x", None], ["y", None]]}, "switch": True}
    if d.p(40):
        sw["default"] = d.choice(["x", "y"])
    top = {"kind": "container", "name": "top", "ns": 0, "children": [sw] + [achoice(0, 0) for _ in range(d.weighted([(3, 1), (1, 2)]))]}
    if d.p(50):
        top["presence"] = True
    mj = {"mods": ["ma", "mb"], "idents": [], "tree": [top], "ops": []}
    out = []
    for _ in range(d.int(4, 9)):
        o = {} if d.p(25) else {"s": d.choice(["x", "y"])}
        for n in d.sample(leafs, min(len(leafs), d.weighted([(1, 0), (4, 1), (5, 2), (2, 3), (1, 4)]))):
            o[("mb:" if n["ns"] else "") + n["name"]] = d.int(0, 3)
        out.append({"raw": {"ma:top": o}, "ct": d.choice(["config", "all"]), "mut": ["none"]})
    return {"m": mj, "docs": out}


KINDCLS = {"unknown": "RawMemberError", "rawtype": "RawTypeError"}


def judge(case_):
    mj = case_["m"]
    m = rs.Model(mj)
    dm = rs.load(mj)
    verd, labels = set(), set()
    for dd in case_["docs"]:
        try:
            bad = m.violations(dd["raw"], dd["ct"])
        except Skip as s:
            labels.add("docskip:" + str(s))
            continue
        if any(b.kind == "unsure" for b in bad):
            labels.add("docskip:conditional mandatory in absent container")
            continue
        v = docs.verdict(dm, dd["raw"], dd["ct"])
        if not bad and v[0] != "ok":
            raise Violation(f"valid document rejected ({dd['ct']}): {type(v[1]).__name__}: {v[1]}\n{dd['raw']}")
        if bad and v[0] == "ok":
            raise Violation(f"invalid document accepted ({dd['ct']}): {[(b.kind, b.path, b.kw) for b in bad]}\n{dd['raw']}")
        if bad:
            rawk = [b for b in bad if b.kind in KINDCLS]
            if rawk and v[0] != "raw" or not rawk and v[0] == "raw":
                raise Violation(f"document with {[(b.kind, b.path) for b in bad]} refused at the wrong stage: {type(v[1]).__name__}: {v[1]}")
        str(v[1])
        verd.add(bool(bad))
        for b in bad:
            labels.add(b.kind)
        labels.add("valid" if not bad else "invalid")
    return {"nontrivial": len(verd) == 2, "labels": sorted(labels)}


LEGS = [Leg("tree", make(), judge, quick=7000, thorough=30000),
        Leg("cases", make(any=False, mand=True, maxdepth=3, size=16, choice_w=15, choice_aug=60), judge, quick=2500, thorough=10000),
        Leg("altern", altern, judge, quick=5000, thorough=20000),
        Leg("nested", nested, judge, quick=5000, thorough=20000)]
