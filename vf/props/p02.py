"""P02: semantic constraints against the reference validator."""
from ..core import Leg, Skip, Violation
from ..d import case
from .. import rschema as rs, rtypes as rt, docs

RULE = ("one case is a generated schema with must, unique, key and reference constraints and several structurally valid documents; it is non-trivial "
        "when at least one of its documents breaks a semantic constraint or has a node with a must, unique or reference constraint that holds, and both "
        "verdicts or two different constraint kinds occur")
ASSUMPTIONS = ["must expressions are judged at the nodes present in the document (not at absent nodes with defaults)",
               "referential integrity of leafrefs inside unions, and unique over several cases of a choice, are outside the domain"]
KINDS = [(4, "string"), (2, "boolean"), (3, "uint8"), (1, "int32"), (2, "enumeration"), (1, "empty"), (1, "identityref"), (2, "union"), (1, "int64"),
         (1, "bits"), (1, "decimal64")]
SMALL = [(3, "uint8"), (3, "boolean"), (2, "enumeration"), (3, "union"), (2, "string"), (1, "empty"), (1, "bits")]
SEM = ("must", "unique", "dupkey", "dupll", "ref", "few", "many")
MUT = [(4, "drop"), (4, "newval"), (5, "dup"), (3, "dropentry"), (2, "switch"), (2, "add"), (1, "order")]


def make(kinds=KINDS, allow=0, **kw):
    @case
    def gen(d):
        f = rs.default_feat(kinds=kinds, typedefs=10, any=False, **kw)
        mj = rs.Gen(d, f).gen()
        m = rs.Model(mj)
        out = []
        for _ in range(d.int(2, 4)):
            ct = d.choice(["config", "all"])
            doc = rs.DataGen(d, m, ct, density=d.choice([60, 95]), maxlist=4, txt="ab1 " if d.p(60) else rt.TXT).doc(allow=SEM if d.p(50) else ())
            if doc is None:
                continue
            out.append({"raw": doc, "ct": ct})
            for _ in range(d.int(0, 2)):
                r, ops = docs.mutate(d, m, doc, ops=MUT, n=1)
                out.append({"raw": r, "ct": ct})
        return {"m": mj, "docs": out}
    return gen


TAGS = {"unique": "data-not-unique", "dupkey": "non-unique-key", "dupll": "repeated-leaf-list-value", "ref": "instance-required",
        "few": "too-few-elements", "many": "too-many-elements"}


def constrained(m, raw):
    """Kinds of semantic constraints that apply to nodes of the document."""
    res = set()
    for n in m.build(raw).desc():
        j = n.schema.j
        if j.get("must"):
            res.add("c:must")
        if j.get("unique"):
            res.add("c:unique")
        if n.kind in ("leaf", "item") and j["type"]["t"] in ("leafref", "instance-identifier"):
            res.add("c:ref")
    return res


def judge(case_):
    mj = case_["m"]
    m = rs.Model(mj)
    dm = rs.load(mj)
    verd, labels = set(), set()
    for dd in case_["docs"]:
        try:
            bad = m.violations(dd["raw"], dd["ct"])
        except Skip as s:
            labels.add("docskip:" + str(s))
            continue
        if any(b.kind not in SEM for b in bad):
            labels.add("docskip:structure")
            continue
        v = docs.verdict(dm, dd["raw"], dd["ct"])
        w = docs.verdict(dm, dd["raw"], dd["ct"], "semantics")
        if not bad and v[0] != "ok":
            raise Violation(f"valid document rejected ({dd['ct']}): {type(v[1]).__name__}: {v[1]}\n{dd['raw']}")
        if bad and v[0] != "val":
            raise Violation(f"document with {[(b.kind, b.path, b.kw) for b in bad]} not rejected in validation ({dd['ct']}): {v[0]} {v[1]}\n{dd['raw']}")
        if v[0] != w[0] and all(b.kind in ("must", "unique", "dupkey", "dupll", "ref") for b in bad):
            raise Violation(f"verdict {w[0]} {w[1]} with the scope 'semantics' instead of {v[0]} {v[1]}\n{dd['raw']}")
        str(v[1])
        if bad:
            from yangson.exceptions import SemanticError
            e = v[1]
            if not isinstance(e, SemanticError):
                raise Violation(f"{type(e).__name__} {e} for {[(b.kind, b.path) for b in bad]}")
            ok = []
            for b in bad:
                if b.kind == "must":
                    ok.append((b.kw["tag"] or "must-violation", b.kw["msg"]))
                else:
                    ok.append((TAGS[b.kind], None))
            if not any(e.tag.startswith(t) if t == "data-not-unique" else e.tag == t and (g is None or e.message == g) for t, g in ok):
                raise Violation(f"error tag {e.tag!r}, message {e.message!r}; expected one of {ok}")
        verd.add(bool(bad))
        try:
            labels |= constrained(m, dd["raw"])
        except (rs.Bad, Skip):
            pass
        for b in bad:
            labels.add(b.kind)
        labels.add("valid" if not bad else "invalid")
    return {"nontrivial": len(verd) == 2 or len([x for x in labels if x in SEM]) > 1, "labels": sorted(labels)}


LEGS = [Leg("must", make(must=True, unique=True), judge, quick=5000, thorough=20000),
        Leg("refs", make(leafref=True, iid=True, when=False), judge, quick=5000, thorough=20000),
        Leg("unique", make(kinds=SMALL, unique=True, key_kinds=SMALL, when=False, choice=False, mand=False), judge, quick=5000, thorough=20000)]
