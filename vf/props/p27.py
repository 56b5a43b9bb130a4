"""P27: node status. Obsolete nodes are gone (unless kept), deprecated ones may be missing, and nothing else changes."""
import copy
import json
from ..core import Leg, Skip, Violation, expect
from ..d import case
from .. import rschema as rs, docs
from .p18 import parse_tree, want_tree, state_roots, digest_node, huge_bits, reduced

RULE = ("one case is a generated schema with statuses on random nodes, a random set of modules whose obsolete nodes are kept, and documents of the schema with and "
        "without its obsolete nodes; it is non-trivial when an obsolete or deprecated node exists and both a valid and an invalid document were judged, or "
        "defaults were added in a document of such a schema")
ASSUMPTIONS = ["deprecated nodes may be missing even if they are mandatory (pinned by the tests), but must comply when present",
               "whether obsolete members are refused while loading or by the validation is not claimed",
               "list keys, default cases and the nodes that conditions refer to in other modules are given no status",
               "the status label of nodes defined in a grouping or augment that has itself a status is that of the node alone"]
SIMPLE = [(4, "string"), (2, "boolean"), (2, "uint8"), (2, "enumeration"), (1, "empty"), (1, "identityref"), (1, "union"), (1, "int64")]


def has_data(j):
    return any(c["kind"] in rs.DATA or has_data(c) for c in j.get("children", ()))


def annotate(d, mj, pct):
    def fix(j):
        """A remaining case has something in it, and a default case remains."""
        for c in j.get("children", ()):
            if c.get("status") == "obsolete":
                c["status"] = "deprecated"
            fix(c)

    def walk(js, keys, dflt):
        for j in js:
            k = j["kind"]
            if k == "group":
                if d.p(35):
                    j["status"] = d.choice(["deprecated", "current"])
            elif k in rs.DATA and j["name"] in keys or k == "case" and (j.get("short") or j["name"] == dflt):
                pass
            elif d.p(pct):
                j["status"] = d.choice(["deprecated", "obsolete", "obsolete", "current"])
            walk(j.get("children", ()), j.get("keys") or [], j.get("default") if k == "choice" else None)
            if k == "case" and not j.get("short") or k == "case" and j["name"] == dflt:
                r = reduced({"tree": [copy.deepcopy(j)]})["tree"]
                if r and not has_data(r[0]) or not r and j["name"] == dflt:
                    fix(j)
                    for c in j["children"]:
                        if c.get("status") == "obsolete":
                            c["status"] = "deprecated"
    walk(mj["tree"], [], None)


def load(mj):
    from yangson import DataModel
    yl = json.loads(rs.yang_library(mj["mods"]))
    for e in yl["ietf-yang-library:modules-state"]["module"]:
        if mj["mods"].index(e["name"]) in mj["keep"]:
            e["yangson-yl:keep-obsolete"] = True
        elif mj.get("flag"):
            e["yangson-yl:keep-obsolete"] = False
    em = rs.Emitter(mj).run()
    files = {}
    sub = mj.get("sub") or {}
    for i, name in enumerate(mj["mods"]):
        bits = sub.get(str(i))
        if not bits:
            continue
        parts = []
        for lst in (em.defs, em.body):
            parts += [x for k, x in enumerate(lst[i]) if bits[k % len(bits)]]
            lst[i] = [x for k, x in enumerate(lst[i]) if not bits[k % len(bits)]]
        files[f"s-{name}.yang"] = (f"submodule s-{name} {{ yang-version 1.1; belongs-to {name} {{ prefix {em.own_prefix(i)}; }}\n"
                                   + "".join(f"  import {mj['mods'][t]} {{ prefix x{mj['mods'][t]}; }}\n" for t in sorted(em.imports[i]))
                                   + "".join(f"  {x}\n" for x in parts) + "}\n")
        for e in yl["ietf-yang-library:modules-state"]["module"]:
            if e["name"] == name:
                e["submodule"] = [{"name": "s-" + name, "revision": ""}]
    for m, t in em.texts().items():
        if f"s-{m}.yang" in files:
            k = t.index("\n", t.index("  prefix ")) + 1
            while t[k:].startswith("  import"):
                k = t.index("\n", k) + 1
            t = t[:k] + f"  include s-{m};\n" + t[k:]
        files[f"{m}.yang"] = t
    with rs.Workspace(files) as w:
        return DataModel(json.dumps(yl), (w,))


def make(**kw):
    @case
    def gen(d):
        f = rs.default_feat(kinds=SIMPLE, typedefs=10, **kw)
        mj = rs.Gen(d, f).gen()
        annotate(d, mj, d.choice([15, 30]))
        mj["keep"] = [i for i in range(len(mj["mods"])) if d.p(25)]
        mj["flag"] = d.p(20)
        mj["sub"] = {str(i): [d.int(0, 1) for _ in range(3)] for i in range(len(mj["mods"])) if d.p(35)}
        m, m2 = rs.Model(mj), rs.Model(reduced(mj))
        out = []
        for _ in range(d.int(2, 4)):
            ct = d.choice(["config", "all"])
            mm = m2 if d.p(75) else m
            doc = rs.DataGen(d, mm, ct, density=d.choice([30, 70, 95])).doc()
            if doc is None:
                doc = {}
            else:
                out.append({"raw": doc, "ct": ct})
            for _ in range(d.int(1, 3)):
                r, _ = docs.mutate(d, m if d.p(20) else m2, doc, ops=[(6, "drop"), (4, "add"), (3, "switch"), (2, "dup"), (1, "dropentry"), (1, "dropall"), (1, "badval")])
                out.append({"raw": r, "ct": ct if d.p(80) else d.choice(["config", "all"])})
        return {"m": mj, "docs": out}
    return gen


def statuses(js):
    for j in js:
        if j["kind"] != "group" and j.get("status") in ("obsolete", "deprecated"):
            yield j["status"]
        yield from statuses(j.get("children", ()))


def empties(x):
    """Is there an empty array?"""
    return x == [] or isinstance(x, dict) and any(map(empties, x.values())) or isinstance(x, list) and any(map(empties, x))


def judge(c):
    from yangson.enumerations import ContentType
    mj = c["m"]
    mr = reduced(mj)
    m, m2 = rs.Model(mj), rs.Model(mr)
    dm = load(mj)
    labels, verd, added = set(), set(), 0
    for dd in c["docs"]:
        if empties(dd["raw"]):      # of a deprecated list with min-elements: neither missing nor compliant
            labels.add("docskip:empty array")
            continue
        try:
            bad = m2.violations(dd["raw"], dd["ct"])
        except Skip as s:
            labels.add("docskip:" + str(s))
            continue
        if any(b.kind == "unsure" for b in bad):
            labels.add("docskip:conditional mandatory in absent container")
            continue
        v = docs.verdict(dm, dd["raw"], dd["ct"])
        if not bad and v[0] != "ok":
            raise Violation(f"valid document rejected ({dd['ct']}): {type(v[1]).__name__}: {v[1]}\n{dd['raw']}")
        if bad and v[0] == "ok":
            raise Violation(f"invalid document accepted ({dd['ct']}): {[(b.kind, b.path, b.kw) for b in bad]}\n{dd['raw']}")
        verd.add(bool(bad))
        labels.add("invalid" if bad else "valid")
        if bad:
            continue
        inst = v[2]
        for mode in ("config", "all"):
            try:
                t = m2.build(copy.deepcopy(dd["raw"]))
                m2.complete(t, cfg_only=mode == "config")
                want = rs.tree_raw(m2, t)
            except Skip as s:
                labels.add("docskip:" + str(s))
                continue
            got = inst.add_defaults(getattr(ContentType, mode)).raw_value()
            if not rs.same(got, want):
                raise Violation(f"add_defaults({mode}): {rs.diff(got, want)} (library first)\ndocument {dd['raw']}")
            added += any(n.default for n in t.desc())
    if not huge_bits(mj):
        digest_node(m2, m2.root, json.loads(dm.schema_digest()), "", True, [0], True)
    got = sorted(dm.schema.state_roots())
    expect(got == state_roots(m2), "state roots {}, expected {}", got, state_roots(m2))
    want = want_tree(m, True, True, mj["keep"])
    seen = set()
    for p, x, ln in parse_tree(dm.ascii_tree()):
        expect(p in want, "unexpected line {!r} in the tree", ln)
        seen.add(p)
        expect(x["status"] == want[p]["status"], "line {!r}: status should be {}", ln, want[p]["status"])
    expect(seen == set(want), "missing in the tree: {}", [p for p in want if p not in seen][:3])
    st = set(statuses(mj["tree"]))
    labels |= st
    if mj["keep"]:
        labels.add("keep")
    if mj["sub"]:
        labels.add("submodule")
    return {"nontrivial": bool(st) and (len(verd) == 2 or added > 0), "labels": sorted(labels)}


LEGS = [Leg("schema", make(must=True), judge, quick=8400, thorough=33600),
        Leg("choices", make(mand=True, any=False, size=14, choice_w=12, choice_aug=50), judge, quick=4200, thorough=16800)]
