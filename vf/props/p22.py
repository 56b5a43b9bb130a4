"""P22: output filters remove exactly what they reject."""
import copy
from ..core import Leg, Skip, Violation, HarnessError, expect
from ..d import case
from .. import rschema as rs, docs
from ..opdocs import gen_doc, doc_of
from . import p21

RULE = ("one case is a schema, documents with metadata and, for each, sets of nodes that the filter rejects before, after or both times it is asked; it is "
        "non-trivial when some filter rejects a leaf or an entry inside a surviving structure and another visited node is rejected only at the second call")
ASSUMPTIONS = ["a list entry from which the filter has taken all members is dropped from the JSON dump (pinned by the repository's tests) and kept in XML",
               "the filter is not descended into the content of anydata", "decisions are booleans and the filter does not change what it is given"]


def nodes(m, raw, sn, path=()):
    """(path, schema node) of every member and entry in document order."""
    for k, v in raw.items():
        if k.startswith("@"):
            continue
        c = docs.split(m, sn, k)
        yield path + (k,), c
        if c.kind == "container":
            yield from nodes(m, v, c, path + (k,))
        elif c.kind in ("list", "leaf-list"):
            for i, e in enumerate(v):
                yield path + (k, i), c
                if c.kind == "list":
                    yield from nodes(m, e, c, path + (k, i))


def make(**kw):
    @case
    def gen(d):
        f = rs.default_feat(iid=d.p(15), leafref=d.p(30), any=d.p(30), **kw)
        mj = rs.Gen(d, f).gen()
        m = rs.Model(mj)
        anns = p21.gen_anns(d, mj, m) if d.p(50) else []
        out = []
        for _ in range(d.int(1, 3)):
            dj = gen_doc(d, mj, m, density=d.choice([60, 95]))
            if dj is None:
                continue
            x = doc_of(m, dj)
            dj["marks"] = p21.gen_marks(d, m, anns, dj["raw"], x.top, 40) if anns else []
            try:
                top = opened(x, x.canon())
                every = [(list(p), c.kind) for p, c in nodes(m, top, x.top)]
            except Skip:
                continue
            dj["sets"] = []
            for _ in range(d.int(1, 3)):
                pc = d.choice([10, 30, 60])
                how = d.choice([["begin"], ["end"], ["both"], ["begin", "end", "both"]])
                only = d.choice([None, None, ["leaf"], ["list", "leaf-list"], ["container", "leaf"]])
                dj["sets"].append([[p, d.choice(how)] for p, k in every if (only is None or k in only) and d.p(pc)])
            inner = [p for p, k in every if k == "container" or k == "list" and isinstance(p[-1], int)]
            dj["start"] = d.choice(inner) if inner and d.p(50) else []
            out.append(dj)
        return {"m": mj, "anns": anns, "docs": out}
    return gen


def opened(x, c):
    return c[f"{x.m.mods[x.op['ns']]}:{x.kind}"] if x.kind in ("input", "output") else c


# ------------------------------------------------------------------ reference

class Ref:
    """Filtered dump and sequence of calls."""

    def __init__(self, m, rej, drop):
        self.m, self.rej, self.drop, self.trace, self.meta = m, rej, drop, [], []

    def ok(self, path):
        h = self.rej.get(path)
        return h not in ("begin", "both"), h not in ("end", "both")

    def obj(self, v, sn, path):
        res = {}
        if "@" in v and path:
            res["@"] = copy.deepcopy(v["@"])
        for k, w in v.items():
            if k.startswith("@"):
                continue
            c = docs.split(self.m, sn, k)
            p = path + (k,)
            a1, a2 = self.ok(p)
            at = w.get("@", {}) if c.kind == "container" else v.get("@" + k, {})
            self.trace.append(("begin_member", path, p, tuple(at)))
            if a1:
                if c.kind == "container":
                    r = self.obj(w, c, p)
                elif c.kind in ("list", "leaf-list"):
                    r = self.arr(w, c, p)
                else:
                    r = copy.deepcopy(w)
            self.trace.append(("end_member", path, p, tuple(at)))
            if a1 and a2:
                res[k] = r
                if "@" + k in v:
                    res["@" + k] = copy.deepcopy(v["@" + k])
        return res

    def arr(self, v, c, path):
        res = []
        for i, e in enumerate(v):
            p = path + (i,)
            a1, a2 = self.ok(p)
            at = e.get("@", {}) if c.kind == "list" else {}
            self.trace.append(("begin_element", path, p, tuple(at)))
            if a1:
                r = self.obj(e, c, p) if c.kind == "list" else e
            self.trace.append(("end_element", path, p, tuple(at)))
            if a1 and a2:
                if self.drop and c.kind == "list" and not any(k[0] != "@" for k in r) and any(k[0] != "@" for k in e):
                    continue
                res.append(r)
        return res


def recorder(base, rej):
    from yangson.instance import OutputFilter

    class Rec(OutputFilter):
        def __init__(self):
            self.trace, self.wrong = [], []

        def call(self, what, parent, node, at):
            pp, np = parent.path[len(base):], node.path[len(base):]
            if node.parinst is None or node.parinst.path != parent.path:
                self.wrong.append((what, parent.path, node.path))
            self.trace.append((what, pp, np, tuple(at)))
            h = rej.get(np)
            return h not in (what.split("_")[0], "both")

        def begin_member(self, parent, node, attributes):
            return self.call("begin_member", parent, node, attributes)

        def end_member(self, parent, node, attributes):
            return self.call("end_member", parent, node, attributes)

        def begin_element(self, parent, node, attributes):
            return self.call("begin_element", parent, node, attributes)

        def end_element(self, parent, node, attributes):
            return self.call("end_element", parent, node, attributes)
    return Rec()


def xml_tree(e):
    return None if e is None else (e.tag, e.text, sorted(e.attrib.items()), [xml_tree(c) for c in e])


def json_order(v):
    """Value with the order of members made visible."""
    if isinstance(v, dict):
        return [(k, json_order(w)) for k, w in v.items() if not k.startswith("@")]
    if isinstance(v, list):
        return [json_order(w) for w in v]
    return v


def judge(case_):
    from yangson.instance import OutputFilter
    mj, anns = case_["m"], case_["anns"]
    m = rs.Model(mj)
    dm = p21.load(mj, anns) if anns else rs.load(mj)
    labels, inside, late, n = set(), False, False, 0
    for dj in case_["docs"]:
        x = doc_of(m, dj)
        try:
            exp = p21.expected(x, anns, dj["marks"])
        except Skip as s:
            labels.add("docskip:" + str(s))
            continue
        root = dm.from_raw(x.full(p21.apply(m, anns, dj["raw"], dj["marks"])), x.sub)
        plain = root.raw_value()
        expect(rs.same(plain, exp), "dump: {}", rs.diff(plain, exp))
        any_ = p21.has_any(x)
        labels.add(x.kind)
        content = opened(x, exp)
        pre = (f"{m.mods[x.op['ns']]}:{x.kind}",) if x.kind in ("input", "output") else ()
        for start in [[], dj["start"]] if dj["start"] else [[]]:
            inst, part, sn = root, content, x.top
            for p in list(pre) + start if start else []:
                inst = inst[p]
            for p in start:
                if isinstance(p, str):
                    sn = docs.split(m, sn, p)
                part = part[p]
            wrap = pre if not start else ()
            base = inst.path
            # an all-accepting filter changes nothing
            full = inst.raw_value()
            want = {wrap[0]: part} if wrap else part
            if start and "@" in part:
                want = {k: v for k, v in part.items() if k != "@"}
            expect(rs.same(full, want), "dump of {}: {}", start, rs.diff(full, want))
            for f in (OutputFilter(), recorder(base, {})):
                expect(rs.same(inst.raw_value(f), full) and json_order(inst.raw_value(f)) == json_order(full), "an accepting filter changes the dump")
                if not any_:
                    expect(xml_tree(inst.to_xml(f)) == xml_tree(inst.to_xml()), "an accepting filter changes the XML")
            for rejs in dj["sets"]:
                cut = len(start)
                rej = {wrap + tuple(p[cut:]): h for p, h in rejs if p[:cut] == start and len(p) > cut}
                n += 1
                ref = Ref(m, rej, True)
                if wrap:
                    a1 = a2 = True
                    at = ()
                    ref.trace.append(("begin_member", (), wrap, at))
                    w = {wrap[0]: ref.obj(part, sn, wrap)}
                    ref.trace.append(("end_member", (), wrap, at))
                else:
                    w = ref.obj(part, sn, ())
                rec = recorder(base, rej)
                got = inst.raw_value(rec)
                expect(not rec.wrong, "the filter is given a node that is not a child of the parent: {}", rec.wrong[:2])
                if not rs.same(got, w):
                    raise Violation(f"filtered dump from {start}: {rs.diff(got, w)}\nrejected {rej}\nfull {full}")
                check_trace(rec.trace, ref.trace, "JSON")
                expect(rs.same(root.raw_value(), plain), "filtering changed the data")
                if any(isinstance(p[-1], int) or len(p) > 1 for p in rej):
                    inside = True
                if any(h == "end" for h in rej.values()):
                    late = True
                if any_:
                    continue
                labels.add("xml")
                rec = recorder(base, rej)
                xml = inst.to_xml(rec)
                expect(not rec.wrong, "the filter (XML) is given a node that is not a child of the parent: {}", rec.wrong[:2])
                check_trace(rec.trace, ref.trace, "XML")
                keep = Ref(m, rej, False)
                w = keep.obj(part, sn, wrap)
                whole = copy.deepcopy(content)
                if start:
                    md = p21.rs_at(whole, start).get("@")
                    o = p21.rs_at(whole, start)
                    o.clear()
                    o.update(w)
                    if md is not None:
                        o["@"] = md
                else:
                    whole = w
                other = dm.from_raw(x.full(whole), x.sub)
                for p in list(pre) + start if start else []:
                    other = other[p]
                a, b = xml_tree(xml), xml_tree(other.to_xml())
                if a != b:
                    raise Violation(f"filtered XML from {start}: {a}\nexpected {b}\nrejected {rej}")
    return {"nontrivial": inside and late, "labels": sorted(labels), "n": n}


def check_trace(got, want, what):
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation(f"{what}: call {i} of the filter is {got[i] if i < len(got) else None}, expected {want[i] if i < len(want) else None}")


LEGS = [Leg("data", make(size=12), judge, quick=7200, thorough=40000),
        Leg("ops", make(ops=True, size=4), judge, quick=4500, thorough=24000)]
