"""P30: schema nodes have the properties their definitions give them, and detached instances are like attached ones."""
from ..core import Leg, expect
from ..d import case
from .. import rschema as rs, rtypes as rt, docs
from .p18 import annotate, mand, type_units, seg_path

RULE = ("one case is a generated schema whose nodes are all compared with their definitions (attributes and children), or a document whose nodes are all made again as "
        "detached instances; non-trivial when the schema has at least five data nodes and at least four kinds of properties differ from their defaults, resp. when at "
        "least four nodes were detached, one of them inside another and one with members")
ASSUMPTIONS = ["the mandatory properties of nodes with conditional mandatory descendants, or with descendants that aren't current, are not compared",
               "nodes inside operations and notifications are not claimed"]
LIB = {"ietf-netconf-acm": 'module ietf-netconf-acm { yang-version 1.1; namespace "urn:x:ietf-netconf-acm"; prefix nacm; extension default-deny-write; extension default-deny-all; }'}


@case
def gen_attrs(d):
    f = rs.default_feat(iid=d.p(30), leafref=d.p(20), choice=True, augment=True, maxdepth=d.int(2, 4), size=d.int(6, 25), must=d.p(50), unique=True, ops=d.p(20), typedefs=d.choice([0, 20, 60]))
    mj = rs.Gen(d, f).gen()
    if d.p(60):
        annotate(d, mj)

    def walk(js):
        for j in js:
            if j["kind"] in rs.DATA and d.p(15):
                j["deny"] = d.choice(["write", "all"])
            walk(j.get("children", ()))
    walk(mj["tree"])
    return {"m": mj}


def load(mj):
    from yangson import DataModel
    t = rs.Emitter(mj).run().texts()
    for k in t:
        i = t[k].index("\n", t[k].index("  prefix ")) + 1
        t[k] = t[k][:i] + "  import ietf-netconf-acm { prefix nacm; }\n" + t[k][i:]
    with rs.Workspace({f"{k}.yang": x for k, x in {**t, **LIB}.items()}) as w:
        return DataModel(rs.yang_library(mj["mods"] + list(LIB), conf={x: "import" for x in LIB}), (w,))


def mand_config(m, sn):
    """Is a node mandatory in configuration: True, False, or None where it depends on conditions."""
    if not sn.config_eff():
        return False
    if sn.kind == "case" or sn.kind == "container" and sn.j.get("presence"):
        return False
    if sn.kind not in ("container", "group"):
        return mand(m, sn)
    res = False
    for k in sn.kids:
        v = mand_config(m, k)
        if v and "when" in k.j:
            v = None
        if v is True:
            return True
        if v is None:
            res = None
    return res


def below(m, sn):
    """Data paths of the outermost state nodes at or below sn."""
    if sn.is_data and not sn.config_eff():
        return [seg_path(m.mods, sn.dpath())]
    return [x for k in sn.kids if k.j.get("status") != "obsolete" for x in below(m, k)]


def status_of(sn):
    while sn is not None:
        if sn.j.get("status"):
            return sn.j["status"]
        sn = sn.parent
    return "current"


def plain(sn):
    """Are the node's descendants all current?"""
    return all(not k.j.get("status") and plain(k) for k in sn.kids)


def ctypes(sn):
    """Content types of a node's data."""
    if not sn.config_eff():
        return {"nonconfig"}
    return {"config"} if sn.kind in ("leaf", "leaf-list", "anydata", "anyxml") else {"config", "nonconfig"}


def named(nodes):
    """Children with those of anonymous groups in their place."""
    from yangson.schemanode import GroupNode
    out = []
    for n in nodes:
        if type(n) is GroupNode:
            out += named(n.children)
        else:
            out.append(n)
    return out


def kids(sn):
    out = []
    for k in sn.kids:
        out += kids(k) if k.kind == "group" else [k]
    return out


def check_attrs(c):
    from yangson.enumerations import ContentType
    from yangson.schemanode import SchemaTreeNode, GroupNode
    m = rs.Model(c["m"])
    dm = load(c["m"])
    seen = set()
    count = [0]

    def node(sn, n, where):
        count[0] += sn.is_data

        def eq(what, got, want):
            expect(got == want, "{} of {} {} is {!r}, expected {!r}", what, sn.kind, where, got, want)
            if want not in (None, False, [], "none", "current", 0, True):
                seen.add(what)
        eq("qual_name", n.qual_name, (sn.name, m.mods[sn.ns]))
        expect(n.schema_root() is dm.schema, "root of {}", where)
        if not sn.j.get("short"):
            eq("description", n.description, sn.j.get("descr"))
        eq("status", n.status.name, status_of(sn))
        eq("config", n.config, sn.config_eff())
        eq("when", n.when is not None, "when" in sn.j)
        seen.update(["when"] * ("when" in sn.j))
        if not removed(sn):
            eq("state_roots", sorted(n.state_roots()), sorted(below(m, sn)))
        if sn.is_data:
            eq("must", [(x.error_tag, x.error_message) for x in n.must], [(x.get("tag") or "must-violation", x.get("msg")) for x in sn.j.get("must", ())])
            eq("default_deny", n.default_deny.name, sn.j.get("deny", "none"))
        if plain(sn) and status_of(sn) == "current" and sn.kind != "case":
            w = mand(m, sn)
            if w is not None:
                eq("mandatory", n.mandatory, w)
            w = mand_config(m, sn)
            if w is not None:
                eq("mandatory_config", n.mandatory_config, w)
        if sn.kind == "container":
            eq("presence", n.presence, bool(sn.j.get("presence")))
        if sn.kind in ("list", "leaf-list"):
            eq("min_elements", n.min_elements, sn.j.get("min") or 0)
            eq("max_elements", n.max_elements, sn.j.get("max"))
            eq("user_ordered", n.user_ordered, bool(sn.j.get("user")))
        if sn.kind == "list":
            eq("keys", list(n.keys), [(k, m.mods[sn.ns]) for k in sn.j.get("keys") or ()])
            eq("unique", [len(u) for u in n.unique], [len(u) for u in sn.j.get("unique", ())])
        if sn.kind in ("leaf", "leaf-list"):
            eq("units", n.units, sn.j.get("units") or type_units(sn.j["type"]))
            df = m.leaf_defaults(sn)
            if sn.kind == "leaf":
                got = [] if n.default is None else [n.type.to_raw(n.default)]
            else:
                got = [n.type.to_raw(x) for x in n.default or ()]
            expect(len(got) == len(df) and all(m.accept(sn, x) == m.accept(sn, y) for x, y in zip(got, df)), "default of {} is {}, expected {}", where, got, df)
            if df:
                seen.add("default")

    def inner(sn, n, where):
        want = {(k.name, m.mods[k.ns]): k for k in kids(sn)}
        have = {x.qual_name: x for x in named(n.children) if not isinstance(x, SchemaTreeNode)}
        expect(set(have) == set(want), "children of {}: {}, expected {}", where, sorted(have), sorted(want))
        route = [(x.name, m.mods[x.ns]) for x in sn.schema_path()] if sn.kind != "root" else []
        for qn, k in want.items():
            x = have[qn]
            par = x.parent
            while type(par) is GroupNode:
                par = par.parent
            expect(par is n, "parent of {} in {}", qn, where)
            expect(n.get_child(*qn) is x, "get_child{} of {}", qn, where)
            if sn.kind != "root" and k.ns == sn.ns:
                expect(n.get_child(k.name) is x, "get_child({}) of {}", k.name, where)
            expect(dm.schema.get_schema_descendant(route + [qn]) is x, "descendant {} of the schema", route + [qn])
            expect(n.get_schema_descendant([qn]) is x, "descendant {} of {}", qn, where)
        for name in ("zz", "a", "b", "c"):
            for mod in m.mods:
                if (name, mod) not in want:
                    expect(n.get_child(name, mod) is None, "get_child({}, {}) of {} finds something", name, mod, where)
                    expect(n.get_schema_descendant([(name, mod)]) is None, "descendant {}:{} of {}", mod, name, where)
        for ct in ContentType:
            def filt(nd, arg):
                return [y for x in nd.filter_children(arg) for y in (filt(x, ct) if type(x) is GroupNode else [x])]
            got = sorted(x.qual_name for x in filt(n, ct))
            w = sorted(q for q, k in want.items() if ctypes(k) & ({"config", "nonconfig"} if ct == ContentType.all else {ct.name}) and not removed(k))
            expect(got == w, "children of {} for {}: {}, expected {}", where, ct.name, got, w)
        got = sorted(x.qual_name for x in named(n.filter_children()) if not removed(want[x.qual_name]))
        w = sorted(q for q, k in want.items() if sn.config_eff() or not k.config_eff())
        w = [q for q in w if not removed(want[q])]
        expect(got == w, "children of {} for its own type: {}, expected {}", where, got, w)
        for qn, k in want.items():
            wh = where + "/" + qn[1] + ":" + qn[0]
            node(k, have[qn], wh)
            if k.kind in rs.INNER + ("choice", "case"):
                inner(k, have[qn], wh)

    def removed(k):
        """Obsolete, or in an obsolete group; an implicit case goes with its node."""
        if k.kind == "case" and k.j.get("short") and all(x.j.get("status") == "obsolete" for x in k.kids):
            return True
        while True:
            if k.j.get("status") == "obsolete":
                return True
            k = k.parent
            if k is None or k.is_data or k.kind == "root":
                return False
    inner(m.root, dm.schema, "")
    return {"nontrivial": count[0] >= 5 and len(seen) >= 6, "labels": sorted(seen), "n": count[0]}


# ------------------------------------------------------------------ detached instances

@case
def gen_orphan(d):
    f = rs.default_feat(choice=True, augment=True, maxdepth=4, size=d.int(6, 20), when=d.p(30))
    mj = rs.Gen(d, f).gen()
    m = rs.Model(mj)
    return {"m": mj, "doc": rs.DataGen(d, m, "all", density=80).doc() or {}}


def check_orphan(c):
    from yangson.instance import ObjectMember, ArrayEntry
    from yangson.instvalue import ObjectValue, ArrayValue
    mj = c["m"]
    m = rs.Model(mj)
    dm = rs.load(mj)
    doc = rs.canon_raw(m, c["doc"])
    root = dm.from_raw(doc)
    n = [0, 0, 0]

    def walk(sn, inst, raw):
        for k, v in raw.items():
            cn = docs.split(m, sn, k)
            if cn is None:
                continue
            nd = inst[k]
            o = nd.schema_node.orphan_instance(v)
            expect(type(o) is ObjectMember and o.parinst is None and o.siblings == {}, "detached {}: {} {} {}", k, o, o.parinst, o.siblings)
            expect(o.name == cn.iname() and o.qual_name == nd.qual_name and o.namespace == nd.namespace and o.path == () and o.schema_node is nd.schema_node,
                   "detached {}: {} {} {} {}", k, o.name, o.qual_name, o.namespace, o.path)
            expect(o.value == nd.value and o.value.__class__ is nd.value.__class__, "value of detached {}: {!r} instead of {!r}", k, o.value, nd.value)
            expect(rs.same(o.raw_value(), nd.raw_value()) and str(o) == str(nd), "detached {}: {}", k, o.raw_value())
            n[0] += 1
            if sn.kind != "root":
                n[1] += 1
            if cn.kind in ("anydata", "anyxml"):
                continue
            if cn.kind in ("list", "leaf-list"):
                n[2] += bool(v)
                for i, e in enumerate(v):
                    expect(rs.same(o[i].raw_value(), nd[i].raw_value()) and o[i].path == (i,), "entry {} of detached {}: {}", i, k, o[i].raw_value())
                    x = nd.schema_node.entry_from_raw(e)
                    expect(x == nd[i].value and x.__class__ is nd[i].value.__class__, "entry {} of {} from raw: {!r} instead of {!r}", i, k, x, nd[i].value)
                    if cn.kind == "list":
                        a = nd.schema_node.orphan_entry(e)
                        expect(type(a) is ArrayEntry and a.parinst is None and not a.before and not a.after and a.schema_node is nd.schema_node, "detached entry of {}", k)
                        expect(a.value == nd[i].value and rs.same(a.raw_value(), nd[i].raw_value()), "detached entry of {}: {!r}", k, a.value)
                        for q in a:
                            expect(rs.same(a[q].raw_value(), nd[i][q].raw_value()) and a[q].path == (q,) and a[q].up().value == a.value, "member {} of detached entry of {}", q, k)
                        walk(cn, nd[i], e)
            elif isinstance(v, dict):
                n[2] += bool(v)
                for q in o:
                    y = o[q]
                    expect(rs.same(y.raw_value(), nd[q].raw_value()) and y.path == (q,) and y.up().value == o.value and y.top().value == o.value, "member {} of detached {}", q, k)
                walk(cn, nd, v)
    walk(m.root, root, doc)
    return {"nontrivial": n[0] >= 4 and n[1] > 0 and n[2] > 0, "labels": ["nested"] * bool(n[1]), "n": n[0]}


LEGS = [Leg("attrs", gen_attrs, check_attrs, quick=7000, thorough=28000),
        Leg("orphan", gen_orphan, check_orphan, quick=7000, thorough=28000)]
