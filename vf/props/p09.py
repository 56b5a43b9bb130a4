"""P09: merging against the documented recursive combination."""
import copy
from ..core import Leg, Skip, Violation, HarnessError
from ..d import case
from .. import rschema as rs, rtypes as rt, docs
from ..rich import RICH
from .p08 import State, canon

RULE = ("one case is a schema, a document and several values to be merged at nodes of the document; it is non-trivial when some merge both "
        "replaces or combines existing content and appends or adds new content")
ASSUMPTIONS = ["entries of lists without keys are matched by equality", "keyed entries have all their keys"]
KINDS = [(4, "string"), (3, "boolean"), (4, "uint8"), (1, "int64"), (2, "enumeration"), (3, "union"), (1, "empty"), (1, "decimal64"), (1, "identityref"),
         (1, "bits"), (1, "binary")]


def merge(m, sn, a, b, entry, stat):
    """Reference: canonical raw a (receiver) merged with canonical raw b."""
    if sn.kind in ("leaf", "anydata", "anyxml") or sn.kind == "leaf-list" and entry:
        if not rs.same(a, b):
            stat.add("replaced")
        return b
    if sn.kind == "leaf-list":
        new = [x for x in b if not any(rs.same(x, y) for y in a)]
        stat.update(["appended"] * bool(new) + ["matched"] * (len(new) < len(b)))
        return a + new
    if sn.kind == "list" and not entry:
        keys = [k for k in sn.j.get("keys") or ()]
        res, used = [], set()
        if not keys:
            new = [x for x in b if not any(rs.same(x, y) for y in a)]
            stat.update(["appended"] * bool(new) + ["matched"] * (len(new) < len(b)))
            return a + new
        for e in a:
            hit = [i for i, f in enumerate(b) if all(rs.same(e[k], f[k]) for k in keys)]
            if hit:
                used.add(hit[0])
                stat.add("matched")
                e = merge(m, sn, e, b[hit[0]], True, stat)
            res.append(e)
        rest = [f for i, f in enumerate(b) if i not in used]
        stat.update(["appended"] * bool(rest))
        return res + rest
    res = dict(a)
    for k, v in b.items():
        c = docs.split(m, sn, k)
        if k in a:
            res[k] = merge(m, c, a[k], v, False, stat)
        else:
            stat.add("added")
            res[k] = v
    return res


def distinct(m, sn, v, entry=False):
    """Key values are present and distinct everywhere; configuration leaf-lists have no duplicates."""
    if sn.kind == "list" and not entry:
        keys = sn.j.get("keys") or ()
        if any(k not in e for e in v for k in keys):
            return False
        if keys and any(all(rs.same(e[k], f[k]) for k in keys) for i, e in enumerate(v) for f in v[:i]):
            return False
        return all(distinct(m, sn, e, True) for e in v)
    if sn.kind == "leaf-list" and not entry:
        return not any(rs.same(x, y) for i, x in enumerate(v) for y in v[:i])
    if sn.kind in ("root", "container", "list"):
        return all(distinct(m, docs.split(m, sn, k), x) for k, x in v.items())
    return True


def tidy(v):
    """Without empty arrays left behind by mutations."""
    if isinstance(v, dict):
        return {k: tidy(x) for k, x in v.items() if x != []}
    return [tidy(x) for x in v] if isinstance(v, list) else v


def paths(s: State):
    """Paths of all nodes of a document."""
    def rec(p):
        yield p
        t = s.go(p)
        k, v = t.kind(), t.at()
        if k == "obj":
            for x in v:
                yield from rec(p + (x,))
        elif k == "arr":
            for i in range(len(v)):
                yield from rec(p + (i,))
    return list(rec(()))


def make(rich, **kw):
    @case
    def gen(d):
        f = rs.default_feat(kinds=KINDS, any=True, when=False, **kw)
        mj = RICH if rich else rs.Gen(d, f).gen()
        m = rs.Model(mj)
        txt = "ab" if d.p(70) else rt.TXT

        def doc():
            g = rs.DataGen(d, m, "all", density=d.choice([60, 85]), maxlist=4, txt=txt)
            return g.doc() or {}
        a = doc()
        sa = State(m, rs.canon_raw(m, a))
        out = []
        for _ in range(d.int(2, 5)):
            try:
                if d.p(25):
                    out.append({"path": [], "v": docs.mutate(d, m, a, ops=[(3, "drop"), (3, "newval"), (3, "add"), (2, "dropentry")], n=d.int(1, 4))[0] if d.p(50) else doc()})
                    out[-1]["v"] = tidy(out[-1]["v"])
                    continue
                ps = paths(sa)
                inner = [p for p in ps if sa.go(p).kind() in ("arr", "obj")]
                p = d.choice(inner if d.p(80) else ps)
                t = sa.go(p)
                if t.is_entry() and t.kind() == "val" and t.sn().kind != "leaf-list":
                    continue
                if not p:
                    v = doc()
                elif d.p(50):
                    # a changed copy of what is there
                    b = docs.mutate(d, m, a, ops=[(3, "drop"), (4, "newval"), (3, "add"), (2, "dropentry"), (1, "dropall")], n=d.int(1, 5))[0]
                    v = State(m, rs.canon_raw(m, b)).at(p)
                else:
                    g = rs.DataGen(d, m, "all", density=80, maxlist=4, txt=txt)
                    g.budget = 25
                    v = docs.val(g, t.sn())
                    if v is None:
                        continue
                    v = v[0]
                    if t.is_entry():
                        v = d.choice(v)
                out.append({"path": list(p), "v": tidy(v)})
            except (Skip, rs.Bad, KeyError, IndexError, TypeError):
                continue
        return {"m": mj, "doc": a, "merges": out, "chain": d.p(40)}
    return gen


def judge(case_):
    m = rs.Model(case_["m"])
    dm = rs.load(case_["m"])
    s = State(m, rs.canon_raw(m, case_["doc"]))
    if not distinct(m, m.root, s.root):
        raise Skip("keys")
    root = dm.from_raw(case_["doc"])
    labels, both = set(), False
    for q in case_["merges"]:
        p = tuple(q["path"])
        try:
            t = s.go(p)
            sn, entry, old = t.sn(), t.is_entry(), t.at()
            val = canon(m, sn, q["v"], entry) if p else rs.canon_raw(m, q["v"])
        except (rs.Bad, Skip, KeyError, IndexError, TypeError):
            labels.add("skip")
            continue
        if not distinct(m, sn, val, entry):
            labels.add("skip-keys")
            continue
        stat = set()
        want = merge(m, sn, old, val, entry, stat)
        node = root
        for k in p:
            node = node[k]
        given = copy.deepcopy(q["v"])
        before = node.raw_value()
        r1 = node.merge(given, raw=True)
        if given != q["v"]:
            raise Violation("merging changed the raw value given")
        if p and entry:
            cooked = node.schema_node.from_raw([q["v"]])[0]
        else:
            cooked = node.schema_node.from_raw(q["v"])
        keep, key = copy.deepcopy(cooked), repr(cooked)
        r2 = node.merge(cooked)
        what = f"merging {q['v']!r} into {old!r} at {p}"
        if cooked != keep or repr(cooked) != key:
            raise Violation(f"{what} changed the cooked value given: {cooked!r}")
        for r, how in ((r1, "raw"), (r2, "cooked")):
            if not rs.same(r.raw_value(), want):
                raise Violation(f"{what} ({how}): {rs.diff(r.raw_value(), want)} (library first)\nlibrary {r.raw_value()}")
            if tuple(r.path) != p:
                raise Violation(f"{what}: result at {r.path}")
            whole = t.put(p, want) if p else want
            if not rs.same(r.top().raw_value(), whole):
                raise Violation(f"{what}: whole tree: {rs.diff(r.top().raw_value(), whole)}")
        if r1.value != r2.value:
            raise Violation(f"{what}: values of the results differ: {r1.value} and {r2.value}")
        if not rs.same(node.raw_value(), before) or not rs.same(before, old) or not rs.same(root.raw_value(), s.root):
            raise Violation(f"{what} changed the receiver: {node.raw_value()!r}")
        # idempotence and neutral elements
        r3 = r1.merge(cooked)
        again = merge(m, sn, want, val, entry, set())
        if not rs.same(r3.raw_value(), again) or not rs.same(again, want):
            raise Violation(f"{what} again: {rs.diff(r3.raw_value(), want)}")
        if not rs.same(node.merge(node.value).raw_value(), old):
            raise Violation(f"merging {old!r} with itself gives {node.merge(node.value).raw_value()!r}")
        if not rs.same(r1.merge(r1.value).raw_value(), want):
            raise Violation(f"merging {want!r} with itself gives {r1.merge(r1.value).raw_value()!r}")
        if t.kind() in ("obj", "arr"):
            empty = {} if t.kind() == "obj" else []
            if not rs.same(node.merge(empty, raw=True).raw_value(), old):
                raise Violation(f"merging {old!r} with an empty value gives {node.merge(empty, raw=True).raw_value()!r}")
            bare = node.update(empty, raw=True).merge(cooked)
            if not rs.same(bare.raw_value(), val):
                raise Violation(f"merging {val!r} into an empty value gives {bare.raw_value()!r}")
        labels |= {"m:" + x for x in stat} | {"at:" + t.kind() + (":entry" if entry else "")}
        both = both or bool(stat & {"replaced", "matched"}) and bool(stat & {"added", "appended"})
        if case_["chain"] and not rs.same(want, old):
            s2 = State(m, t.put(p, want) if p else want)
            if distinct(m, m.root, s2.root):
                s, root = s2, r2.top()
    return {"nontrivial": both, "labels": sorted(labels)}


LEGS = [Leg("rich", make(True), judge, quick=6000, thorough=30000),
        Leg("schemas", make(False, size=12), judge, quick=6000, thorough=30000)]
