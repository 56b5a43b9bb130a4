"""P05: JSON documents survive a load and dump unchanged."""
import copy
import json
from ..core import Leg, Skip, Violation, HarnessError
from ..d import case
from .. import rschema as rs, rtypes as rt, docs
from ..opdocs import gen_doc, doc_of

RULE = ("one case is a schema with several valid documents (datastore content, operation input or output, notification); it is non-trivial when the "
        "documents hold at least four leaves or entries of two different types")
ASSUMPTIONS = ["decimal64 values with excess fraction digits are outside the domain (rounded, pinned by the repository's tests)"]


def respell(d, m, raw, sn):
    """The same document with some redundant prefixes and another member order."""
    if not isinstance(raw, dict):
        return raw
    res = {}
    for k in (d.shuffle(list(raw)) if d.p(40) else list(raw)):
        c = docs.split(m, sn, k)
        v = raw[k]
        if c is None:
            raise HarnessError(k)
        if c.kind == "container":
            v = respell(d, m, v, c)
        elif c.kind == "list":
            v = [respell(d, m, e, c) for e in v]
        if d.p(25):
            k = m.mods[c.ns] + ":" + c.name
        res[k] = v
    return res


def make(**kw):
    @case
    def gen(d):
        f = rs.default_feat(iid=d.p(40), leafref=d.p(40), **kw)
        mj = rs.Gen(d, f).gen()
        m = rs.Model(mj)
        out = []
        for _ in range(d.int(2, 4)):
            dj = gen_doc(d, mj, m, density=d.choice([60, 95]))
            if dj is None:
                continue
            if d.p(60):
                x = doc_of(m, dj)
                dj["raw"] = respell(d, m, dj["raw"], x.top)
            out.append(dj)
        return {"m": mj, "docs": out}
    return gen


def parts(inst, raw, path=()):
    """(instance, expected raw) for every node below an instance."""
    from yangson.instvalue import ObjectValue, ArrayValue
    yield inst, raw, path
    if not inst.is_internal() and not isinstance(inst.value, ArrayValue) or isinstance(raw, str):
        return
    if isinstance(raw, dict) and isinstance(inst.value, ObjectValue) and inst.is_internal():
        for k in raw:
            yield from parts(inst[k], raw[k], path + (k,))
    elif isinstance(raw, list) and isinstance(inst.value, ArrayValue) and type(inst.schema_node).__name__ in ("ListNode", "LeafListNode"):
        for i, e in enumerate(raw):
            yield from parts(inst[i], e, path + (i,))


def judge(case_):
    from yangson.enumerations import ValidationScope, ContentType
    mj = case_["m"]
    m = rs.Model(mj)
    dm = rs.load(mj)
    labels, leaves, kinds = set(), 0, set()
    for dj in case_["docs"]:
        x = doc_of(m, dj)
        try:
            exp = x.canon()
        except Skip as s:
            labels.add("docskip:" + str(s))
            continue
        given = x.full()
        keep = copy.deepcopy(given)
        inst = dm.from_raw(given, x.sub)
        if given != keep:
            raise Violation("loading changed the document given")
        got = inst.raw_value()
        if not rs.same(got, exp):
            raise Violation(f"dump differs from the document: {rs.diff(got, exp)}\ngiven {keep}")
        json.dumps(got, allow_nan=False)
        if json.loads(json.dumps(got)) != got:
            raise Violation(f"dump is not plain JSON: {got}")
        again = dm.from_raw(json.loads(json.dumps(got)), x.sub)
        if again.value != inst.value:
            raise Violation(f"reloaded dump has a different value: {again.value} versus {inst.value}")
        if not rs.same(again.raw_value(), got):
            raise Violation(f"dump of the reloaded dump differs: {rs.diff(again.raw_value(), got)}")
        n = 0
        for sub, raw, path in parts(inst, exp):
            r = sub.raw_value()
            n += 1
            if not rs.same(r, raw):
                raise Violation(f"dump of the subtree {path} differs from its part of the whole: {rs.diff(r, raw)}")
            if not rs.same(r, r):
                raise Violation("dump is not comparable")
        inst.validate(ValidationScope.syntax, ContentType.all)
        if not rs.same(inst.raw_value(), exp):
            raise Violation("dump after validation differs from the one before")
        for y in x.tree().desc():
            if y.val is not None:
                leaves += 1
                kinds.add(y.val[0])
            elif y.kind == "any":
                kinds.add("any")
                leaves += 1
        labels.add(x.kind)
    return {"nontrivial": leaves >= 4 and len(kinds) > 1, "labels": sorted(labels | {"v:" + k for k in kinds})}


LEGS = [Leg("data", make(size=14), judge, quick=7200, thorough=28800),
        Leg("ops", make(ops=True, size=5), judge, quick=4800, thorough=19200)]
