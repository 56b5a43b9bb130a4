"""P07: adding defaults against the reference completion."""
import copy
from ..core import Leg, Skip, Violation, HarnessError
from ..d import case
from .. import rschema as rs, rtypes as rt
from ..opdocs import gen_doc, doc_of

RULE = ("one case is a schema rich in defaults with several valid documents; it is non-trivial when some document gets a default leaf, leaf-list or "
        "container added and some schema node with a default is (rightly) not added or is added below a list entry or in a case")
ASSUMPTIONS = ["members inside a default container that is itself added carry no mark of their own (the container is marked)"]
TAG = "ietf-netconf-with-defaults:default"
KINDS = [(4, "string"), (3, "boolean"), (4, "uint8"), (2, "int64"), (2, "enumeration"), (1, "bits"), (2, "identityref"), (2, "union"), (1, "decimal64"),
         (1, "binary"), (1, "empty")]


def make(**kw):
    @case
    def gen(d):
        f = rs.default_feat(iid=d.p(30), any=d.p(30), kinds=KINDS if d.p(70) else None, **kw)
        mj = rs.Gen(d, f).gen()
        m = rs.Model(mj)
        out = []
        for _ in range(d.int(2, 4)):
            dj = gen_doc(d, mj, m, density=d.choice([25, 50, 75]))
            if dj is not None:
                out.append(dj)
        return {"m": mj, "docs": out}
    return gen


def completed(m, x, mode):
    t = x.tree()
    m.complete(t, cfg_only=mode == "config")
    if mode == "nonconfig":
        prune(t)
    return t


def prune(rn):
    """Of the defaults, configuration leafs do not belong to state data."""
    rn.children[:] = [c for c in rn.children if not (c.default and c.kind in ("leaf", "item") and c.schema.config_eff())]
    for c in rn.children:
        prune(c)


def tagged(m, rn, top=True):
    """Dump with the expected marks."""
    res = {}
    for c in rn.children:
        k = c.schema.iname()
        mark = c.default and not rn.default
        if c.kind == "cont":
            res[k] = tagged(m, c)
            if mark:
                res[k]["@"] = {TAG: True}
        elif c.kind == "entry":
            res.setdefault(k, []).append(tagged(m, c))
        elif c.kind == "item":
            res.setdefault(k, []).append(rs.leaf_raw(c))
            if mark:
                res["@" + k] = {TAG: True}
        elif c.kind == "leaf":
            res[k] = rs.leaf_raw(c)
            if mark:
                res["@" + k] = {TAG: True}
        else:
            res[k] = copy.deepcopy(c.raw)
    return res


def nodes(inst, raw, path=()):
    """(instance, its part of the document) of every object and array with a schema."""
    from yangson.instvalue import ObjectValue, ArrayValue
    if not inst.is_internal():
        return
    yield inst, path
    if isinstance(raw, dict):
        for k in raw:
            yield from nodes(inst[k], raw[k], path + (k,))
    elif isinstance(raw, list):
        for i, e in enumerate(raw):
            yield from nodes(inst[i], e, path + (i,))


def at(raw, path):
    for k in path:
        raw = raw[k]
    return raw


def put(raw, path, v):
    """Copy of raw with the value at path replaced."""
    if not path:
        return v
    res = dict(raw) if isinstance(raw, dict) else list(raw)
    res[path[0]] = put(raw[path[0]], path[1:], v)
    return res


def strip_top(x, c):
    """The document of a notification is dumped with prefixes."""
    if x.kind == "notification":
        mod = x.m.mods[x.op["ns"]]
        c = {(k if ":" in k else f"@{mod}:{k[1:]}" if k.startswith("@") else f"{mod}:{k}"): v for k, v in c.items()}
    return x.full(c)


def judge(case_):
    from yangson.enumerations import ContentType
    from yangson.exceptions import YangsonException
    mj = case_["m"]
    m = rs.Model(mj)
    dm = rs.load(mj)
    labels, added, deep = set(), 0, 0
    for dj in case_["docs"]:
        x = doc_of(m, dj)
        try:
            base = x.canon()
            exp, tags = {}, {}
            for mode in ("config", "nonconfig", "all"):
                t = completed(m, x, mode)
                exp[mode] = strip_top(x, rs.tree_raw(m, t))
                tags[mode] = strip_top(x, tagged(m, t))
                if mode == "all":
                    dflt = [n for n in t.desc() if n.default]
                    added += len(dflt)
                    deep += sum(1 for n in dflt if any(a.kind == "entry" for a in ancestors(n)) or n.schema.parent.kind in ("case", "choice"))
                    if dj["kind"] == "data" and len(dflt) < sum(1 for c in m.all_data() if c.kind in ("leaf", "leaf-list") and m.leaf_defaults(c)):
                        labels.add("some-not-added")
        except Skip as s:
            labels.add("docskip:" + str(s))
            continue
        inst = dm.from_raw(x.full(), x.sub)
        before = inst.raw_value()
        if not rs.same(before, base):
            raise Violation(f"loaded document differs: {rs.diff(before, base)}")
        for mode in (None, "config", "nonconfig", "all"):
            if x.kind != "data" and mode == "config":
                continue
            ct = None if mode is None else getattr(ContentType, mode)
            em = mode or "all"
            wd = inst.add_defaults(ct)
            got = wd.raw_value()
            if not rs.same(got, exp[em]):
                raise Violation(f"add_defaults({mode}): {rs.diff(got, exp[em])} (library first)\ndocument {base}\nexpected {exp[em]}")
            if not rs.same(inst.raw_value(), base):
                raise Violation(f"add_defaults({mode}) changed the original: {rs.diff(inst.raw_value(), base)}")
            wd2 = wd.add_defaults(ct)
            if not rs.same(wd2.raw_value(), got) or wd2.value != wd.value:
                raise Violation(f"adding defaults ({mode}) again: {rs.diff(wd2.raw_value(), got)}")
            tg = inst.add_defaults(ct, tag=True)
            if not rs.same(tg.raw_value(), tags[em]):
                raise Violation(f"add_defaults({mode}, tag): {rs.diff(tg.raw_value(), tags[em])}\ndocument {base}")
            if not rs.same(inst.raw_value(), base) or not rs.same(wd.raw_value(), got):
                raise Violation(f"tagging ({mode}) changed another tree")
            labels.add("ctype:" + str(mode))
        for sub, path in nodes(inst, base):
            for mode in (None, "config"):
                if x.kind != "data" and mode == "config":
                    continue
                em = mode or "all"
                wd = sub.add_defaults(None if mode is None else ContentType.config)
                want = at(exp[em], path)
                if not rs.same(wd.raw_value(), want):
                    raise Violation(f"add_defaults({mode}) at {path}: {rs.diff(wd.raw_value(), want)} (library first)\ndocument {base}")
                whole = wd.top().raw_value()
                if not rs.same(whole, put(base, path, want)):
                    raise Violation(f"add_defaults({mode}) at {path}, whole tree: {rs.diff(whole, put(base, path, want))}\ndocument {base}")
                if wd.json_pointer() != sub.json_pointer():
                    raise Violation(f"add_defaults at {path} moved to {wd.json_pointer()}")
        # the completed document is as valid as the original one
        if dj["kind"] == "data":
            try:
                if any(b.kind == "unsure" for b in m.violations(base, "all")):
                    # conditional mandatory content of an absent container, see P01
                    labels.add("unsure")
                    continue
            except Skip as s:
                labels.add("docskip:" + str(s))
                continue
            try:
                inst.validate(ctype=ContentType.all)
            except YangsonException:
                labels.add("original-refused")
            else:
                inst.add_defaults().validate(ctype=ContentType.all)
        labels.add(x.kind)
    return {"nontrivial": added > 0 and (deep > 0 or "some-not-added" in labels), "labels": sorted(labels)}


def ancestors(n):
    n = n.parent
    while n is not None:
        yield n
        n = n.parent


LEGS = [Leg("data", make(size=14), judge, quick=5200, thorough=24000),
        Leg("cases", make(size=12, maxmods=2, card=False), judge, quick=2400, thorough=12000),
        Leg("ops", make(ops=True, size=6), judge, quick=2100, thorough=12000)]
