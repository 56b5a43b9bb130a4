"""P21: metadata annotations are kept and checked, and do not influence anything else."""
import copy
import json
from ..core import Leg, Skip, Violation, HarnessError, expect
from ..d import case
from .. import rschema as rs, rtypes as rt, docs
from ..opdocs import gen_doc, doc_of

RULE = ("one case is a schema with typed annotations and documents whose containers, list entries and leaves carry them; it is non-trivial when at least "
        "two nodes of different kinds are annotated and a further document is invalid or gains default values (keep, same), a wrong annotation is "
        "refused (wrong), or something annotated is removed and something else annotated remains (edit)")
ASSUMPTIONS = ["metadata of leaf-lists, of the root and inside anydata are not claimed; XML carries no metadata on input",
               "names of annotations are always qualified by a module name"]
MD = 'module ietf-yang-metadata { namespace "urn:ietf:params:xml:ns:yang:ietf-yang-metadata"; prefix "md"; ' \
     'revision 2016-08-05; extension annotation { argument name; } }'
KINDS = [(3, "string"), (2, "int8"), (2, "int64"), (1, "uint16"), (3, "boolean"), (3, "decimal64"), (2, "enumeration"), (2, "bits"), (2, "binary"),
         (1, "empty"), (3, "identityref"), (3, "union")]


# ------------------------------------------------------------------ generation

def gen_anns(d, mj, m):
    """Annotations: [{mod, name, type, on (None: unconditional, else whether its feature is enabled)}]"""
    names = ["note", "b", "last-seen", "x1"]
    names += [c.name for c, _ in m.root.data_children()][:3]
    out = []
    m.ctx["ntypedef"] = 1000
    for _ in range(d.int(1, 4)):
        mod = d.int(0, len(mj["mods"]) - 1)
        name = d.choice(names)
        if any(a["mod"] == mod and a["name"] == name for a in out):
            continue
        m.ctx["maxmod"] = mod
        T = rt.gen_type(d, m.ctx, KINDS, typedef_p=20)
        if rt.min_mod(T, m.ctx) > mod or rt.gen_valid(d, T, m.ctx, mod) is None:
            T = {"t": "string"}
        out.append({"mod": mod, "name": name, "type": T, "on": d.p(60) if d.p(15) else None})
    return out


def live(anns):
    return [i for i, a in enumerate(anns) if a["on"] is not False]


def gen_meta(d, m, anns):
    """{qualified name: raw value} as pairs, never empty unless nothing is available."""
    res = []
    for i in d.subset(live(anns), 55) or live(anns)[:1]:
        a = anns[i]
        v = rt.gen_valid(d, a["type"], m.ctx, a["mod"], txt="abc09 .:/-_'\"\\[]=,<>&é")
        if v is not None:
            res.append([i, v[0]])
    return res


def targets(m, raw, top, doc_top=True):
    """[(path of the object, leaf name or None)] that can be annotated."""
    out = []
    for path, o, sn in docs.objects(m, raw, top):
        if path:
            out.append((list(path), None))
        for k in o:
            c = docs.split(m, sn, k)
            if c is not None and c.kind == "leaf":
                out.append((list(path), k))
    return out


def gen_marks(d, m, anns, raw, top, percent):
    return [[p, k, md] for p, k in targets(m, raw, top) if d.p(percent) for md in [gen_meta(d, m, anns)] if md]


def make(mutants=True, **kw):
    @case
    def gen(d):
        f = rs.default_feat(iid=d.p(20), leafref=d.p(30), any=d.p(30), **kw)
        mj = rs.Gen(d, f).gen()
        m = rs.Model(mj)
        anns = gen_anns(d, mj, m)
        out = []
        for _ in range(d.int(1, 3)):
            dj = gen_doc(d, mj, m, density=d.choice([60, 95] if mutants else [40, 60, 80]))
            if dj is None:
                continue
            x = doc_of(m, dj)
            dj["marks"] = gen_marks(d, m, anns, dj["raw"], x.top, d.choice([15, 50, 90] if mutants else [60, 90]))
            dj["front"] = d.p(30)
            if mutants:
                dj["mut"] = []
                for _ in range(d.int(1, 3)):
                    raw, ops = docs.mutate(d, m, dj["raw"], x.top)
                    dj["mut"].append([raw, gen_marks(d, m, anns, raw, x.top, d.choice([20, 60]))])
            out.append(dj)
        return {"m": mj, "anns": anns, "docs": out}
    return gen


# ------------------------------------------------------------------ applying

def load(mj, anns):
    from yangson import DataModel
    em = rs.Emitter(mj).run()
    extra, feats = {}, {}
    for i, a in enumerate(anns):
        st = extra.setdefault(a["mod"], ["import ietf-yang-metadata { prefix md; }"])
        t = rt.type_stmt(a["type"], a["mod"], em)
        if a["on"] is not None:
            st.append(f"feature f{i};")
            t += f" if-feature f{i};"
            if a["on"]:
                feats.setdefault(mj["mods"][a["mod"]], []).append(f"f{i}")
        st.append(f"md:annotation {a['name']} {{ {t} }}")
    files = {f"{n}.yang": t for n, t in em.texts(extra).items()}
    files["ietf-yang-metadata@2016-08-05.yang"] = MD
    lib = rs.yang_library(mj["mods"], features=feats, extra=[
        {"name": "ietf-yang-metadata", "revision": "2016-08-05", "namespace": "urn:ietf:params:xml:ns:yang:ietf-yang-metadata",
         "conformance-type": "import"}])
    with rs.Workspace(files) as w:
        return DataModel(lib, (w,))


def qn(m, a):
    return f"{m.mods[a['mod']]}:{a['name']}"


def meta(m, anns, md, canon):
    res = {}
    for i, raw in md:
        a = anns[i]
        if canon:
            raw = rs.value_raw(rt.accept(a["type"], raw, m.ctx, a["mod"]), a["type"], m.ctx)
        res[qn(m, a)] = raw
    return res


def apply(m, anns, raw, marks, front=False):
    """Annotated copy of a document as it is given to the library."""
    raw = copy.deepcopy(raw)
    objs = [(rs_at(raw, p), k, md) for p, k, md in marks]
    for o, k, md in objs:
        key = "@" if k is None else "@" + k
        if front:
            old = dict(o)
            o.clear()
            o[key] = meta(m, anns, md, False)
            o.update(old)
        else:
            o[key] = meta(m, anns, md, False)
    return raw


def rs_at(raw, path):
    for p in path:
        raw = raw[p]
    return raw


def canon_path(m, top, path, k):
    """Path and member name with canonical names."""
    res, sn = [], top
    for p in path:
        if isinstance(p, str):
            c = docs.split(m, sn, p)
            res.append(c.iname())
            sn = c
        else:
            res.append(p)
    return res, None if k is None else docs.split(m, sn, k).iname()


def expected(x, anns, marks):
    """Canonical dump with the metadata."""
    c = x.canon()
    root = c[f"{x.m.mods[x.op['ns']]}:{x.kind}"] if x.kind in ("input", "output") else c
    for path, k, md in marks:
        p, kk = canon_path(x.m, x.top, path, k)
        if x.kind == "notification":
            own = x.m.mods[x.op["ns"]] + ":"
            if p and ":" not in p[0]:
                p = [own + p[0]] + p[1:]
            elif not p and ":" not in kk:
                kk = own + kk
        rs_at(root, p)["@" if kk is None else "@" + kk] = meta(x.m, anns, md, True)
    return c


def strip(v):
    """Copy without metadata (the documents have no other members that start with @)."""
    if isinstance(v, dict):
        return {k: strip(w) for k, w in v.items() if not k.startswith("@")}
    if isinstance(v, list):
        return [strip(w) for w in v]
    return v


def untag(v):
    """Copy without the tags of default values."""
    if isinstance(v, list):
        return [untag(w) for w in v]
    if not isinstance(v, dict):
        return v
    res = {}
    for k, w in v.items():
        if k.startswith("@"):
            w = {q: r for q, r in w.items() if q != "ietf-netconf-with-defaults:default"}
            if not w:
                continue
        res[k] = untag(w)
    return res


def has_any(x):
    return any(y.kind == "any" for y in x.tree().desc())


def describe(v):
    """Verdict in comparable form."""
    kind, e, _ = v
    if e is None:
        return (kind,)
    return (kind, type(e).__name__, getattr(e, "path", None), getattr(e, "tag", None),
            e.instance.json_pointer() if hasattr(e, "instance") else None)


def marked_kinds(marks):
    return {("leaf" if k is not None else "entry" if isinstance(p[-1], int) else "container") for p, k, _ in marks}


# ------------------------------------------------------------------ checks

def keep(case_):
    """Metadata is carried, and verdicts do not depend on it."""
    mj, anns = case_["m"], case_["anns"]
    m = rs.Model(mj)
    dm = load(mj, anns)
    labels, kinds, bad, n = set(), set(), 0, 0
    for dj in case_["docs"]:
        x = doc_of(m, dj)
        try:
            exp = expected(x, anns, dj["marks"])
        except Skip as s:
            labels.add("docskip:" + str(s))
            continue
        given = x.full(apply(m, anns, dj["raw"], dj["marks"], dj["front"]))
        same_ = copy.deepcopy(given)
        inst = dm.from_raw(given, x.sub)
        expect(given == same_, "loading changed the document given")
        got = inst.raw_value()
        if not rs.same(got, exp):
            raise Violation(f"dump differs from the document: {rs.diff(got, exp)}\ngiven {same_}")
        again = dm.from_raw(json.loads(json.dumps(got)), x.sub)
        if not rs.same(again.raw_value(), got):
            raise Violation(f"dump of the reloaded dump differs: {rs.diff(again.raw_value(), got)}")
        expect(again.value == inst.value, "the reloaded dump has a different value: {} versus {}", again.value, inst.value)
        n += 1
        labels.add(x.kind)
        kinds |= marked_kinds(dj["marks"])
        for raw, marks in [[dj["raw"], dj["marks"]]] + dj["mut"]:
            for ct in ("config", "all") if x.kind == "data" else ("all",):
                try:
                    a = describe(docs.verdict(dm, x.full(raw), ct, "all", x.sub))
                    b = describe(docs.verdict(dm, x.full(apply(m, anns, raw, marks, dj["front"])), ct, "all", x.sub))
                except Skip:
                    continue
                if a != b:
                    raise Violation(f"metadata changes the outcome ({ct}): {a} without, {b} with\n{apply(m, anns, raw, marks)}")
                bad += a[0] != "ok"
                if marks:
                    labels.add("verdict:" + a[0])
        got = inst.raw_value()
        expect(rs.same(got, exp), "the dump after validation differs from the one before")
    return {"nontrivial": len(kinds) >= 2 and bad > 0, "labels": sorted(labels | {"on:" + k for k in kinds}), "n": n}


def xml_tree(e):
    return (e.tag, e.text, sorted((k, v) for k, v in e.attrib.items() if k == "xmlns" or k.startswith("xmlns:")), [xml_tree(c) for c in e])


def indep(case_):
    """Defaults, addresses, XPath results and XML content with and without metadata."""
    from yangson.xpathparser import XPathParser
    from yangson.schemadata import SchemaContext
    mj, anns = case_["m"], case_["anns"]
    m = rs.Model(mj)
    dm = load(mj, anns)
    labels, kinds, gained, n = set(), set(), False, 0
    sctx = SchemaContext(dm.schema_data, mj["mods"][0], (mj["mods"][0], ""))
    paths = [XPathParser(t, sctx).parse() for t in ("count(//*)", "count(//node())", "count(//*[.=''])", "count(/*/*)")]
    for dj in case_["docs"]:
        x = doc_of(m, dj)
        try:
            exp = expected(x, anns, dj["marks"])
        except Skip as s:
            labels.add("docskip:" + str(s))
            continue
        n += 1
        labels.add(x.kind)
        kinds |= marked_kinds(dj["marks"])
        a = dm.from_raw(x.full(), x.sub)
        b = dm.from_raw(x.full(apply(m, anns, dj["raw"], dj["marks"], dj["front"])), x.sub)
        for ct in ("config", "all", None):
            from yangson.enumerations import ContentType
            c = getattr(ContentType, ct) if ct else None
            da, db = a.add_defaults(c).raw_value(), b.add_defaults(c).raw_value()
            if not rs.same(strip(db), strip(da)):
                raise Violation(f"defaults differ with metadata: {rs.diff(strip(db), strip(da))}")
            tagged = db if has_any(x) else untag(b.add_defaults(c, tag=True).raw_value())
            if not rs.same(tagged, db):
                raise Violation(f"metadata after adding tagged defaults: {rs.diff(tagged, db)}")
            gained |= not rs.same(da, a.raw_value())
            for path, k, md in dj["marks"]:
                want = meta(m, anns, md, True)
                p, kk = canon_path(m, x.top, path, k)
                o = db[f"{m.mods[x.op['ns']]}:{x.kind}"] if x.kind in ("input", "output") else db
                own = m.mods[x.op["ns"]] + ":" if x.kind == "notification" else ""
                if own and p and ":" not in p[0]:
                    p = [own + p[0]] + p[1:]
                elif own and not p and ":" not in kk:
                    kk = own + kk
                got = rs_at(o, p).get("@" if kk is None else "@" + kk)
                if not rs.same(got, want):
                    raise Violation(f"metadata of {p} {kk} after adding defaults: {got}, expected {want}")
        expect(rs.same(b.raw_value(), exp), "adding defaults changed the receiver's dump")
        # every node: same address, same members
        stack, count = [(a, b)], 0
        while stack:
            u, v = stack.pop()
            count += 1
            expect(u.json_pointer() == v.json_pointer(), "JSON pointers {} and {}", u.json_pointer(), v.json_pointer())
            expect(u.instance_route() == v.instance_route() and str(u.instance_route()) == str(v.instance_route()),
                   "instance routes {} and {}", u.instance_route(), v.instance_route())
            expect(u.qual_name == v.qual_name and u.path == v.path, "names of {} and {}", u, v)
            expect(strip(a.peek(v.instance_route())) == strip(b.peek(u.instance_route())), "the route {} leads to other data", v.instance_route())
            if u.is_internal() or type(u.schema_node).__name__ in ("ListNode", "LeafListNode") and isinstance(u.value, list):
                ku, kv = list(u), list(v)
                if isinstance(u.value, list):
                    expect(len(ku) == len(kv), "numbers of entries of {}", u.json_pointer())
                    stack.extend(zip(ku, kv))
                else:
                    expect(set(ku) == set(kv), "members of {}: {} and {}", u.json_pointer(), ku, kv)
                    stack.extend((u[k], v[k]) for k in ku)
        if count <= 60:
            for e in paths:
                ra, rb = e.evaluate(a), e.evaluate(b)
                expect(ra == rb, "XPath {}: {} without metadata, {} with", e, ra, rb)
        if not has_any(x):
            xa, xb = a.to_xml(), b.to_xml()
            expect((xa is None) == (xb is None) and (xa is None or xml_tree(xa) == xml_tree(xb)), "XML content differs with metadata")
            labels.add("xml")
    return {"nontrivial": len(kinds) >= 2 and gained, "labels": sorted(labels | {"on:" + k for k in kinds}), "n": n}


@case
def gen_wrong(d):
    mj = rs.Gen(d, rs.default_feat(any=d.p(30), size=10, leafref=False, iid=False, ops=d.p(30))).gen()
    m = rs.Model(mj)
    anns = gen_anns(d, mj, m)
    out = []
    for _ in range(d.int(2, 4)):
        dj = gen_doc(d, mj, m, density=d.choice([60, 95]))
        if dj is None:
            continue
        x = doc_of(m, dj)
        tg = targets(m, dj["raw"], x.top)
        if not tg:
            continue
        dj["marks"] = gen_marks(d, m, anns, dj["raw"], x.top, 30)
        dj["front"] = d.p(30)
        p, k = d.choice(tg)
        how = d.weighted([(6, "value"), (3, "undeclared"), (2, "target"), (2, "shape")])
        dj["bad"] = [how, p, k]
        if how == "value":
            i = d.int(0, len(anns) - 1)
            if i not in live(anns):
                how = dj["bad"][0] = "undeclared"
                dj["bad"].append([qn(m, anns[i]), "x"])
            else:
                r = rt.gen_any_raw(d, anns[i]["type"], m.ctx, anns[i]["mod"])
                dj["bad"].append([i, r])
        elif how == "undeclared":
            mod, name = d.choice(mj["mods"] + ["ietf-yang-metadata"]), d.choice(["note", "b", "last-seen", "x1", "zz"] + [c.name for c, _ in m.root.data_children()][:3])
            if any(qn(m, anns[i]) == f"{mod}:{name}" for i in live(anns)):
                name = "nope"
            dj["bad"].append([f"{mod}:{name}", d.choice(["x", 1, True])])
        elif how == "target":
            names = {q for pp, q in tg if pp == p and q is not None}
            objs = rs_at(dj["raw"], p)
            sn = [s for pp, _, s in docs.objects(m, dj["raw"], x.top) if list(pp) == p][0]
            absent = [c.iname() for c, _ in sn.data_children() if c.kind == "leaf" and c.iname() not in objs and m.mods[c.ns] + ":" + c.name not in objs]
            dj["bad"].append(d.choice(absent + ["nowhere"]))
        else:
            dj["bad"].append(d.choice([1, "x", [], True, [{}]]))
        out.append(dj)
    return {"m": mj, "anns": anns, "docs": out}


def wrong(case_):
    from yangson.exceptions import UndefinedAnnotation, AnnotationTypeError, MissingAnnotationTarget, RawTypeError
    mj, anns = case_["m"], case_["anns"]
    m = rs.Model(mj)
    dm = load(mj, anns)
    labels, refused, n = set(), 0, 0
    for dj in case_["docs"]:
        x = doc_of(m, dj)
        how, p, k, arg = dj["bad"]
        marks = [q for q in dj["marks"] if [q[0], q[1]] != [p, k]]
        raw = apply(m, anns, dj["raw"], marks, dj["front"])
        o, key = rs_at(raw, p), "@" if k is None else "@" + k
        want = None
        if how == "value":
            a = anns[arg[0]]
            o[key] = {qn(m, a): arg[1]}
            try:
                v = rt.accept(a["type"], arg[1], m.ctx, a["mod"])
            except rt.Reject:
                want = AnnotationTypeError
            except Skip:
                continue
        elif how == "undeclared":
            o[key] = {arg[0]: arg[1]}
            want = UndefinedAnnotation
        elif how == "target":
            if anns and live(anns):
                o["@" + arg] = {}
            else:
                o["@" + arg] = {}
            want = MissingAnnotationTarget
        else:
            o[key] = arg
            want = RawTypeError
        n += 1
        labels.add(how + (":ok" if want is None else ""))
        full = x.full(raw)
        try:
            inst = dm.from_raw(full, x.sub)
        except (UndefinedAnnotation, AnnotationTypeError, MissingAnnotationTarget, RawTypeError) as e:
            if want is None or type(e) is not want:
                raise Violation(f"{type(e).__name__}: {e}; expected {want.__name__ if want else 'acceptance'}\n{full}")
            refused += 1
            continue
        if want is not None:
            raise Violation(f"accepted, expected {want.__name__} at {p} {k}: {o.get(key)} {arg}\n{full}")
        try:
            exp = expected(x, anns, marks + [[p, k, [[arg[0], arg[1]]]]])
        except Skip:
            continue
        if not rs.same(inst.raw_value(), exp):
            raise Violation(f"dump differs from the document: {rs.diff(inst.raw_value(), exp)}\ngiven {full}")
    return {"nontrivial": refused > 0, "labels": sorted(labels), "n": n}


@case
def gen_edit(d):
    mj = rs.Gen(d, rs.default_feat(any=False, size=12, leafref=False, iid=False)).gen()
    m = rs.Model(mj)
    anns = gen_anns(d, mj, m)
    raw = rs.DataGen(d, m, "all", density=90).doc()
    if raw is None:
        return {"m": mj, "anns": anns, "raw": None, "marks": [], "ops": []}
    marks = gen_marks(d, m, anns, raw, m.root, d.choice([50, 90]))
    ops = []
    cur = copy.deepcopy(raw)
    for _ in range(d.int(1, 5)):
        objs = [(p, o, s) for p, o, s in docs.objects(m, cur, m.root) if o]
        if not objs:
            break
        p, o, sn = d.choice(objs)
        k = d.choice(list(o))
        c = docs.split(m, sn, k)
        if c.kind == "list" and o[k] and d.p(50):
            i = d.int(0, len(o[k]) - 1)
            ops.append(["delentry", list(p), k, i])
            del o[k][i]
        elif c.kind == "leaf" and d.p(40):
            v = docs.val(rs.DataGen(d, m, "all"), c)
            if v is None:
                continue
            ops.append(["put", list(p), k, v[0]])
            o[k] = v[0]
        else:
            ops.append(["del", list(p), k])
            del o[k]
    return {"m": mj, "anns": anns, "raw": raw, "marks": marks, "ops": ops}


def edit(case_):
    """Deleting and changing nodes leaves the metadata of the others alone and takes the metadata of what is deleted away."""
    mj, anns = case_["m"], case_["anns"]
    m = rs.Model(mj)
    if case_["raw"] is None:
        raise Skip("no document")
    dm = load(mj, anns)
    x = doc_of(m, {"kind": "data", "op": None, "raw": case_["raw"]})
    model = expected(x, anns, case_["marks"])
    root = dm.from_raw(apply(m, anns, case_["raw"], case_["marks"]))
    removed = 0
    labels = set()
    for op, path, k, *arg in case_["ops"]:
        p, kk = canon_path(m, m.root, path, k)
        inst = root
        for q in p:
            inst = inst[q]
        before = root.raw_value()
        o = rs_at(model, p)
        if op == "del":
            inst = inst.delete_item(kk)
            had = o.pop(kk)
            removed += "@" + kk in o or json.dumps(had).count('"@') > 0
            o.pop("@" + kk, None)
        elif op == "delentry":
            inst = inst[kk].delete_item(arg[0])
            had = o[kk].pop(arg[0])
            removed += json.dumps(had).count('"@') > 0
        else:
            c = inst[kk].schema_node
            inst = inst.put_member(kk, arg[0], raw=True)
            o[kk] = inst.raw_value()
            md = o.pop("@" + kk, None)
        new = inst.top()
        expect(rs.same(root.raw_value(), before), "editing changed the receiver")
        got = new.raw_value()
        if op == "put" and md is not None:
            # whether a new value keeps the metadata of the old one is left open
            g = rs_at(got, p).get("@" + kk)
            if g is not None:
                expect(rs.same(g, md), "metadata of the changed leaf {}: {}", kk, g)
                o["@" + kk] = md
        if not rs.same(got, model):
            raise Violation(f"dump after {op} {path} {k}: {rs.diff(got, model)}")
        try:
            again = dm.from_raw(got)
        except Exception as e:
            raise Violation(f"the dump after {op} {path} {k} is not loaded: {type(e).__name__} {e}\n{got}")
        if not rs.same(again.raw_value(), got):
            raise Violation(f"reloaded dump after {op} differs")
        expect(again.value == new.value, "the reloaded dump after {} {} {} is a different value", op, path, k)
        labels.add(op)
        root = new
    left = json.dumps(root.raw_value()).count('"@')
    return {"nontrivial": removed > 0 and left > 0, "labels": sorted(labels), "n": len(case_["ops"])}


LEGS = [Leg("keep", make(size=12), keep, quick=2800, thorough=14000),
        Leg("keepops", make(ops=True, size=4), keep, quick=1200, thorough=6000),
        Leg("indep", make(mutants=False, ops=True, size=10), indep, quick=4800, thorough=20000),
        Leg("wrong", gen_wrong, wrong, quick=2800, thorough=14000),
        Leg("edit", gen_edit, edit, quick=2400, thorough=12000)]
