"""P12: XPath evaluation against a reference evaluator written from XPath 1.0 and RFC 7950."""
import math
from ..core import Leg, Skip, Violation
from ..d import case
from .. import rschema as rs, rtypes as rt, rxpath as rx
from ..xgen import XGen

RULE = ("one case is an instance document with several expressions and context nodes (or a set of expressions over literals); it is non-trivial "
        "when at least half of its expressions were decided by the reference and their results are of at least two different values")
ASSUMPTIONS = ["numeric value of boolean leaves, '*' selecting the root node and siblings among different members of an object are outside the "
               "domain (pinned by the repository's tests or undefined because members are unordered)",
               "string values of containers and list entries are outside the domain",
               "deref() of instance-identifiers is judged under P02 and P11; enum-value() and bit-is-set() on unions are outside the domain"]
KINDS = [(4, "string"), (2, "boolean"), (4, "uint8"), (2, "int32"), (1, "int64"), (2, "enumeration"), (1, "empty"), (3, "identityref"), (1, "union"),
         (3, "bits"), (2, "decimal64"), (1, "uint64")]


@case
def gen_tree(d):
    f = rs.default_feat(kinds=KINDS, typedefs=10, leafref=True, when=d.p(40), size=12, maxmods=2)
    mj = rs.Gen(d, f).gen()
    m = rs.Model(mj)
    doc = rs.DataGen(d, m, "all", density=d.choice([60, 95]), maxlist=4).doc() or {}
    try:
        rn = m.build(doc)
        m.complete(rn)
    except (Skip, rs.Bad):
        rn = m.build({})
        doc = {}
    nodes = [rn] + list(rn.desc())
    pool = sorted({rt.canon(n.val) for n in nodes if n.val is not None and not any(c in rt.canon(n.val) for c in "\"'")})[:12]
    mod = len(m.mods) - 1
    out = []
    for _ in range(d.int(3, 6)):
        i = d.int(0, len(nodes) - 1)
        g = XGen(d, m, mod, pool)
        s = nodes[i].schema
        g.cur = s
        out.append({"node": i, "x": g.expr(s, d.int(1, 3))})
    return {"m": mj, "doc": doc, "exprs": out}


def key_path(n):
    res = []
    while n.parent is not None:
        if n.index is not None:
            res.append(n.index)
        res.append(n.schema.iname())
        n = n.parent
    return tuple(reversed(res))


def show(v):
    return sorted(map(str, (key_path(n) for n in v.nodes))) if isinstance(v, rx.NodeSet) else repr(v)


def compare(exp, got, what):
    from yangson.nodeset import NodeSet
    if isinstance(exp, rx.NodeSet):
        if not isinstance(got, NodeSet):
            raise Violation(f"{what}: expected a node-set, got {got!r}")
        a, b = {key_path(n) for n in exp.nodes}, [tuple(n.path) for n in got]
        if len(b) != len(set(b)):
            raise Violation(f"{what}: node-set with repeated nodes {sorted(map(str, b))}")
        if a != set(b):
            raise Violation(f"{what}: expected nodes {sorted(map(str, a))}, got {sorted(map(str, b))}")
        vals = {key_path(n): n for n in exp.nodes}
        for n in got:
            x = vals[tuple(n.path)]
            if x.val is not None and str(n) != rt.canon(x.val):
                raise Violation(f"{what}: node {n.path} has value {str(n)!r}, expected {rt.canon(x.val)!r}")
    elif isinstance(exp, float):
        if isinstance(got, bool) or not isinstance(got, (int, float)) or not (got == exp or (math.isnan(exp) and math.isnan(got))):
            raise Violation(f"{what}: expected number {exp!r}, got {got!r}")
    elif type(got) is not type(exp) or got != exp:
        raise Violation(f"{what}: expected {exp!r}, got {got!r}")


def rkey(v):
    return show(v) if not isinstance(v, rx.NodeSet) else "ns" + str(min(len(v.nodes), 2))


def locate(inst, path):
    for k in path:
        inst = inst[k]
    return inst


def check_tree(c):
    from yangson.xpathparser import XPathParser
    from yangson.schemadata import SchemaContext
    m = rs.Model(c["m"])
    try:
        rn = m.build(c["doc"])
        m.complete(rn)
    except rs.Bad:
        raise Skip("document")
    nodes = [rn] + list(rn.desc())
    mod = len(m.mods) - 1
    dm, texts = rs.load_xp(c["m"], [x["x"] for x in c["exprs"]], mod)
    inst = dm.from_raw(c["doc"])
    from yangson.enumerations import ContentType
    full = inst.add_defaults(ContentType.all)
    seen, done, labels = set(), 0, set()
    for x, text in zip(c["exprs"], texts):
        node = nodes[x["node"]]
        try:
            exp = rx.evaluate(x["x"], node, m.env(mod))
        except Skip as s:
            labels.add("skip:" + str(s))
            continue
        sctx = SchemaContext(dm.schema_data, m.mods[mod], dm.schema_data.last_revision(m.mods[mod]))
        p = XPathParser(text, sctx)
        ex = p.parse()
        if not p.at_end():
            raise Violation(f"expression {text} not parsed to its end")
        kp = key_path(node)
        for tree, name in ((full, "completed"), (inst, "plain")):
            if name == "plain" and any(a.default for a in rx.chain(node)):
                continue
            cn = locate(tree, kp)
            compare(exp, ex.evaluate(cn), f"{text} at {kp} ({name} document)")
            if ex.is_true(cn) is not rx.to_bool(exp) if hasattr(ex, "is_true") else False:
                raise Violation(f"{text} at {kp}: truth value should be {rx.to_bool(exp)}")
        done += 1
        seen.add(rkey(exp))
        labels.update(features(x["x"]))
    return {"nontrivial": done * 2 >= len(c["exprs"]) and len(seen) > 1, "labels": sorted(labels)}


def features(e):
    res = set()

    def walk(e):
        if e[0] == "fn":
            res.add(e[1] + "()")
            for a in e[2]:
                walk(a)
        elif e[0] == "bin":
            res.add(e[1])
            walk(e[2])
            walk(e[3])
        elif e[0] == "neg":
            res.add("unary -")
            walk(e[1])
        elif e[0] == "filter":
            res.add("filter")
            walk(e[1])
            for p in e[2]:
                walk(p)
        elif e[0] == "path":
            if e[2] is not None:
                res.add("expr/path")
                walk(e[2])
            for a, t, ps in e[3]:
                res.add(a + "::")
                for p in ps:
                    res.add("predicate")
                    walk(p)
    walk(e)
    return res


@case
def gen_pure(d):
    return {"exprs": [XGen(d).expr(None, d.int(1, 3)) for _ in range(6)]}


_dm = []


def bare_dm():
    if not _dm:
        _dm.append(rs.load({"mods": ["ma"], "idents": [], "tree": [{"kind": "leaf", "name": "a", "ns": 0, "type": {"t": "string"}}], "ops": []}, fresh=True))
    return _dm[0]


def check_pure(c):
    from yangson.xpathparser import XPathParser
    from yangson.schemadata import SchemaContext
    dm = bare_dm()
    inst = dm.from_raw({})
    sctx = SchemaContext(dm.schema_data, "ma", dm.schema_data.last_revision("ma"))
    seen, done, labels = set(), 0, set()
    for e in c["exprs"]:
        text = rx.text(e, None)
        try:
            exp = rx.evaluate(e, None, None)
        except Skip as s:
            labels.add("skip:" + str(s))
            continue
        p = XPathParser(text, sctx)
        ex = p.parse()
        if not p.at_end():
            raise Violation(f"expression {text} not parsed to its end")
        compare(exp, ex.evaluate(inst), text)
        done += 1
        seen.add(rkey(exp))
        labels.update(features(e))
    return {"nontrivial": done * 2 >= len(c["exprs"]) and len(seen) > 1, "labels": sorted(labels)}


U8 = {"t": "uint8"}


def lf(name, t=U8):
    return {"kind": "leaf", "name": name, "ns": 0, "type": t}


LISTS = {"mods": ["ma"], "idents": [], "ops": [], "tree": [
    {"kind": "list", "name": "l", "ns": 0, "keys": ["k"], "user": True, "children": [
        lf("k"), lf("u"), lf("s", {"t": "string"}), {"kind": "leaf-list", "name": "e", "ns": 0, "type": U8, "user": True},
        {"kind": "list", "name": "n", "ns": 0, "keys": ["k", "j"], "user": True, "children": [
            lf("k"), lf("j"), lf("v"), {"kind": "container", "name": "c", "ns": 0, "children": [lf("u"), {"kind": "leaf-list", "name": "e", "ns": 0, "type": U8}]}]}]},
    {"kind": "leaf-list", "name": "e", "ns": 0, "type": {"t": "string"}, "user": True},
    {"kind": "container", "name": "c", "ns": 0, "children": [lf("u"), lf("v")]}]}


class PosGen(XGen):
    """Predicate-heavy paths over lists."""

    def preds(self, s, depth):
        d = self.d
        return [self.pred(s, 1) for _ in range(d.weighted([(3, 0), (4, 1), (4, 2), (2, 3)]))]

    def pred(self, s, depth):
        d = self.d
        k = d.int(0, 9)
        num = d.choice(["1", "2", "3"])
        if k <= 1:
            return ["num", num]
        if k == 2:
            return ["fn", "last", []]
        if k == 3:
            return ["bin", d.choice(["=", "<", ">", "!=", "<=", ">="]), ["fn", "position", []],
                    d.choice([["num", num], ["bin", "-", ["fn", "last", []], ["num", num]], ["fn", "last", []]])]
        if k == 4:
            return d.choice([["bin", "-", ["fn", "last", []], ["num", num]], ["bin", "mod", ["fn", "position", []], ["num", "2"]],
                             ["fn", "not", [["bin", "=", ["fn", "position", []], ["num", num]]]], ["fn", "count", [["path", False, None, [["preceding-sibling", ["*"], []]]]]]])
        kids = [c for c, _ in s.data_children()] if s is not None and s.kind in ("list", "container", "root") else []
        if k == 5 and kids:
            c = d.choice(kids)
            return d.choice([["path", False, None, [["child", self.nm(c), self.preds(c, 0) if d.p(30) else []]]], ["fn", "not", [["path", False, None, [["child", self.nm(c), []]]]]]])
        lv = [c for c in kids if c.kind in ("leaf", "leaf-list")]
        if k <= 8 and lv:
            c = d.choice(lv)
            return ["bin", d.choice(["=", "=", "!=", "<", ">="]), ["path", False, None, [["child", self.nm(c), []]]],
                    ["num", d.choice(["0", "1", "2", "3"])] if d.p(70) else d.choice([["fn", "position", []], ["fn", "last", []]])]
        if s is not None and s.kind in ("leaf", "leaf-list"):
            return ["bin", d.choice(["=", "!=", ">", "<="]), ["path", False, None, [["self", ["node"], []]]], ["num", num]]
        if k == 9:
            return ["bin", d.choice(["=", "<", ">"]), self.ns(s, 0), ["num", num]]
        return ["num", num]


@case
def gen_lists(d):
    m = rs.Model(LISTS)
    v = lambda: d.int(0, 3)

    def some(**kw):
        return {k: f() for k, f in kw.items() if d.p(75)}

    def entry(k):
        return {"k": k, **some(u=v, s=lambda: d.choice(["0", "1", "2", "a", "b", ""]), e=lambda: d.sample(range(4), d.int(1, 4)),
                               n=lambda: [{"k": a, "j": b, **some(v=v, c=lambda: some(u=v, e=lambda: d.sample(range(4), d.int(1, 3))))}
                                          for a, b in d.sample([(a, b) for a in range(3) for b in range(2)], d.int(1, 4))])}
    doc = {"ma:" + k: w for k, w in some(l=lambda: [entry(k) for k in d.sample(range(7), d.int(2, 5))], e=lambda: d.sample(["0", "1", "2", "3", "a", "1.0", ""], d.int(1, 5)),
                                         c=lambda: some(u=v, v=v)).items()}
    rn = m.build(doc)
    m.complete(rn)
    nodes = [rn] + list(rn.desc())
    out = []
    for _ in range(d.int(4, 8)):
        i = d.int(0, len(nodes) - 1)
        g = PosGen(d, m, 0, ["0", "1", "2", "a"])
        s = g.cur = nodes[i].schema
        e = g.ns(s, d.int(1, 2))
        k = d.int(0, 9)
        if k >= 7:
            e = ["fn", d.choice(["count", "sum", "string", "number", "boolean"]), [e]]
        elif k == 6:
            e = ["bin", d.choice(["=", "!=", "<", ">=", "|"]), e, g.ns(s, 1)]
        out.append({"node": i, "x": e})
    return {"m": LISTS, "doc": doc, "exprs": out}


LEGS = [Leg("lists", gen_lists, check_tree, quick=12500, thorough=60000),
        Leg("tree", gen_tree, check_tree, quick=7500, thorough=40000),
        Leg("pure", gen_pure, check_pure, quick=7500, thorough=40000)]
