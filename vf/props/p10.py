"""P10: equality and hashes of structured values."""
import copy
import json
from ..core import Leg, Skip, Violation, HarnessError
from ..d import case
from .. import rschema as rs, rtypes as rt, docs
from ..rich import RICH
from . import p08
from .p08 import State, apply, Fail, gen_op, run

RULE = ("one case is a family of documents (variants of one another, or the states of an edit history) whose values are compared in all pairs; it is "
        "non-trivial when both equal pairs of different origin and unequal pairs that differ in one place occur")
ASSUMPTIONS = ["instance-identifier values that list the same keys in another order are not compared"]
KINDS = [(2, "string"), (4, "boolean"), (4, "uint8"), (2, "int64"), (2, "int8"), (1, "enumeration"), (6, "union"), (2, "empty"), (2, "decimal64"), (1, "identityref"),
         (1, "bits"), (1, "binary")]
TWIN = {"t": "union", "types": [{"t": "uint8"}, {"t": "boolean"}, {"t": "decimal64", "fd": 2}, {"t": "int64"}, {"t": "empty"}, {"t": "bits", "bits": [["b0", None], ["true", None]]},
                                {"t": "int8"}, {"t": "string"}]}
VALS = [0, 1, False, True, "0", "1", "0.0", "1.0", "0.00", "true", "false", "", [None], "b0", "true b0", "b0 true", "a", 2, "2", "2.0", -1, -2, "-1.0", "-2.0", "-1", "-2", -1, -2]
ANY = [0, 1, False, True, 0.0, 1.0, None, "", "0", [], {}, [0], [False], {"a": 0}, {"a": False}, {"a": None}, [[]], [{}], {"a": 0, "b": 1}, {"b": 1, "a": 0}, [0, 1], [1, 0], -1, -2, -1.0, -2.0, [-1], [-2]]
TWINS = {"mods": ["ma", "mb"], "idents": [], "ops": [], "tree": [
    {"kind": "leaf", "name": "v", "ns": 0, "type": TWIN}, {"kind": "leaf-list", "name": "w", "ns": 0, "type": TWIN, "user": True},
    {"kind": "list", "name": "l", "ns": 0, "keys": ["k"], "children": [{"kind": "leaf", "name": "k", "ns": 0, "type": TWIN}, {"kind": "leaf", "name": "v", "ns": 0, "type": TWIN},
                                                                    {"kind": "leaf", "name": "v", "ns": 1, "type": TWIN}]},
    {"kind": "anydata", "name": "any", "ns": 0}, {"kind": "container", "name": "c", "ns": 0, "children": [], "presence": True},
    {"kind": "container", "name": "d", "ns": 0, "children": [{"kind": "anydata", "name": "any", "ns": 0}, {"kind": "leaf", "name": "v", "ns": 0, "type": TWIN}]}]}


def shuffled(d, v):
    if isinstance(v, dict):
        return {k: shuffled(d, v[k]) for k in d.shuffle(list(v))}
    if isinstance(v, list):
        return [shuffled(d, x) for x in v]
    return v


def gen_variants(rich, **kw):
    @case
    def gen(d):
        mj = RICH if rich else rs.Gen(d, rs.default_feat(kinds=KINDS, when=False, **kw)).gen()
        m = rs.Model(mj)
        out = []
        for _ in range(d.int(1, 2)):
            a = rs.DataGen(d, m, "all", density=75, txt="ab1").doc() or {}
            out.append(a)
            for _ in range(d.int(1, 3)):
                b, _ = docs.mutate(d, m, a, ops=[(2, "drop"), (5, "newval"), (2, "add"), (1, "dropentry"), (3, "order"), (2, "prefix"), (3, "dup")], n=d.int(1, 2))
                out.append(b)
                if d.p(40):
                    out.append(shuffled(d, b))
        return {"m": mj, "docs": out}
    return gen


@case
def gen_twins(d):
    def doc():
        r = {}
        if d.p(50):
            r["ma:v"] = d.choice(VALS)
        if d.p(50):
            r["ma:w"] = [d.choice(VALS) for _ in range(d.int(0, 3))]
        if d.p(50):
            r["ma:l"] = [{n: d.choice(VALS) for n in d.subset(["k", "v", "mb:v"], 60)} for _ in range(d.int(0, 2))]
        if d.p(40):
            r["ma:any"] = d.choice(ANY)
        if d.p(20):
            r["ma:c"] = {}
        if d.p(30):
            r["ma:d"] = {n: d.choice(ANY if n == "any" else VALS) for n in d.subset(["any", "v"], 60)}
        return r
    out = [doc()]
    for _ in range(d.int(2, 6)):
        b = copy.deepcopy(d.choice(out))
        k = d.int(0, 5)
        if k == 0:
            out.append(doc())
            continue
        if k == 1:
            out.append(shuffled(d, b))
            continue

        def change(v, any_):
            """Change one scalar."""
            if isinstance(v, dict) and v:
                x = d.choice(sorted(v))
                v[x] = change(v[x], any_ or x.endswith("any"))
                return v
            if isinstance(v, list) and v and v != [None]:
                i = d.int(0, len(v) - 1)
                if d.p(25):
                    v.reverse()
                else:
                    v[i] = change(v[i], any_)
                return v
            if isinstance(v, (dict, list)) and v != [None] and not any_:
                return v
            return d.choice(ANY if any_ else VALS)
        out.append(change(b, False))
    return {"m": TWINS, "docs": out}


def canon(m, raw):
    """Canonical form that keeps empty arrays."""
    def rec(sn, v, entry=False):
        if sn.kind in ("list", "leaf-list") and not entry:
            return [rec(sn, x, True) for x in v]
        if sn.kind in ("root", "container", "list"):
            res = {}
            for k, x in v.items():
                c = docs.split(m, sn, k)
                if c is None:
                    raise rs.Bad("unknown", ())
                res[c.iname()] = rec(c, x)
            return res
        if sn.kind in ("leaf", "leaf-list"):
            return p08.canon(m, sn, v, entry)
        return v
    return rec(m.root, raw)


def judge(case_):
    m = rs.Model(case_["m"])
    dm = rs.load(case_["m"])
    vals, labels = [], set()
    for raw in case_["docs"]:
        try:
            c = canon(m, raw)
        except (rs.Bad, Skip, AttributeError, TypeError):
            labels.add("docskip")
            continue
        vals.append((dm.from_raw(copy.deepcopy(raw)).value, c, id(raw)))
        vals.append((dm.from_raw(copy.deepcopy(c)).value, c, 0))
    eq, ne = compare(vals, labels)
    groups = {}
    for v, c, _ in vals:
        collect(v, c, groups, ())
    for g in groups.values():
        compare(g[:40], labels)
    return {"nontrivial": eq > 0 and ne > 0, "labels": sorted(labels)}


def collect(v, c, groups, path):
    """Structured values below v with their canonical forms, by schema node."""
    if isinstance(v, dict):
        for k in v:
            if isinstance(v[k], (dict, list)):
                groups.setdefault(path + (k,), []).append((v[k], c[k], 0))
                collect(v[k], c[k], groups, path + (k,))
    elif isinstance(v, list):
        for x, y in zip(v, c):
            if isinstance(x, (dict, list)):
                groups.setdefault(path + ("[]",), []).append((x, y, 0))
                collect(x, y, groups, path + ("[]",))


def compare(vals, labels):
    eq = ne = 0
    for i, (v, c, o) in enumerate(vals):
        for j in range(i + 1):
            w, e, p = vals[j]
            same = rs.same(c, e)
            for a, b in ((v, w), (w, v)):
                r, q = a == b, a != b
                if r is not same or q is same:
                    raise Violation(f"{a!r} == {b!r} gives {r}, != gives {q}; documents {c!r} and {e!r}")
                if same and hash(a) != hash(b):
                    raise Violation(f"hashes of the equal values {a!r} and {b!r} differ")
            if i != j:
                if same:
                    eq += 1
                    labels.add("equal")
                else:
                    ne += 1
                    labels.add("unequal")
    if vals:
        classes = []
        for v, c, _ in vals:
            if not any(rs.same(c, x) for x in classes):
                classes.append(c)
        if len({v for v, _, _ in vals}) != len(classes):
            raise Violation(f"set of values has {len({v for v, _, _ in vals})} members instead of {len(classes)}: {classes}")
    return eq, ne


def gen_history(rich):
    @case
    def gen(d):
        mj = RICH if rich else TWINS
        m = rs.Model(mj)
        doc = rs.DataGen(d, m, "all", density=80, txt="ab").doc() or {}
        states = [State(m, rs.canon_raw(m, doc))]
        ops = []
        for _ in range(d.int(5, 20)):
            h = len(states) - 1 if d.p(70) else d.int(0, len(states) - 1)
            try:
                o = gen_op(d, m, states[h])
                if o is None:
                    continue
                o["h"] = h
                try:
                    states.append(apply(states[h], o))
                except Fail:
                    continue
            except (Skip, rs.Bad):
                continue
            ops.append(o)
        return {"m": mj, "doc": doc, "ops": ops}
    return gen


def judge_history(case_):
    m = rs.Model(case_["m"])
    dm = rs.load(case_["m"])
    try:
        s = State(m, rs.canon_raw(m, case_["doc"]))
    except rs.Bad:
        raise Skip("document")
    nodes = [(dm.from_raw(case_["doc"]), s)]
    labels = set()
    for o in case_["ops"]:
        try:
            node, s = nodes[o["h"]]
            t = apply(s, o)
        except (Fail, rs.Bad, KeyError, TypeError, IndexError):
            raise Skip("operation does not fit")
        nodes.append((run(node, o, s), t))
    vals, focus = [], {}
    for n, (node, s) in enumerate(nodes):
        vals.append((node.top().value, s.root, n + 1))
        vals.append((dm.from_raw(json.loads(json.dumps(s.root))).value, s.root, 0))
        if s.kind() != "val":
            focus.setdefault(tuple("[]" if isinstance(k, int) else k for k in s.path), []).append((node.value, s.at(), n + 1))
    eq, ne = compare(vals, labels)
    for g in focus.values():
        compare(g, labels)
    for node, s in nodes:
        v = node.value
        if v != v or not v == v:
            raise Violation(f"{v!r} is not equal to itself")
    return {"nontrivial": eq > len(nodes) and ne > 0, "labels": sorted(labels)}


LEGS = [Leg("twins", gen_twins, judge, quick=4000, thorough=40000),
        Leg("rich", gen_variants(True), judge, quick=1000, thorough=10000),
        Leg("schemas", gen_variants(False, size=10), judge, quick=1600, thorough=16000),
        Leg("history", gen_history(True), judge_history, quick=1200, thorough=12000)]
