"""P08: edit histories against a plain nested structure with a focus path."""
import copy
from ..core import Leg, Skip, Violation, HarnessError
from ..d import case
from .. import rschema as rs, rtypes as rt, docs
from ..rich import RICH

RULE = ("one case is a schema, a document and a sequence of moves and edits, each applied to any node obtained so far; it is non-trivial when at least "
        "four edits succeeded, of at least three kinds, and at least one edit was applied to a node older than the latest one")
ASSUMPTIONS = ["delete_item is given member names as they are spelled in the tree", "no operation descends into anydata or anyxml content",
               "new values conform to the schema node they are meant for"]
KINDS = [(4, "string"), (2, "boolean"), (3, "uint8"), (1, "int64"), (1, "enumeration"), (2, "union"), (1, "empty"), (1, "decimal64"), (1, "identityref")]
NAMES = ["zzz", "ma:zzz", "nomod:a", "mb:a", "a", "ma:a"]


# ------------------------------------------------------------------ the plain model

class Fail(Exception):
    """The operation has to fail; args: names of acceptable exceptions."""


def canon(m, c, v, entry=False):
    """Canonical form of a value (or entry) meant for schema node c."""
    raw = {f"{m.mods[c.ns]}:{c.name}": [v] if entry else v}
    r = rs.tree_raw(m, m.build(raw, c.dparent()))
    r = next(iter(r.values())) if r else []
    return r[0] if entry else r


class State:
    """Root value, path of the focus."""

    def __init__(self, m, root, path=()):
        self.m, self.root, self.path = m, root, path

    def at(self, path=None):
        v = self.root
        for k in (self.path if path is None else path):
            v = v[k]
        return v

    def sn(self, path=None):
        s = self.m.root
        for k in (self.path if path is None else path):
            if isinstance(k, str):
                s = docs.split(self.m, s, k)
        return s

    def put(self, path, v):
        def rec(x, p):
            if not p:
                return v
            x = copy.copy(x)
            x[p[0]] = rec(x[p[0]] if len(p) > 1 else None, p[1:])
            return x
        return rec(self.root, path)

    def is_entry(self):
        return bool(self.path) and isinstance(self.path[-1], int)

    def kind(self):
        """Schema-wise kind of the focus: obj, arr, or val (leaf, entry of leaf-list, anydata)."""
        s = self.sn()
        if s.kind in ("root", "container") or s.kind == "list" and self.is_entry():
            return "obj"
        if s.kind in ("list", "leaf-list") and not self.is_entry():
            return "arr"
        return "val"

    def go(self, path, root=None):
        return State(self.m, self.root if root is None else root, tuple(path))

    def member(self, name):
        """Schema node of a member name at the focus."""
        return docs.split(self.m, self.sn(), name)


def apply(s: State, o):
    """Outcome of operation o at state s."""
    op, k, kind = o["op"], o.get("k"), s.kind()
    v = s.at()
    if op == "get":
        if kind == "obj":
            c = s.member(k)
            name = c.iname() if c is not None else k
            if name not in v:
                raise Fail("NonexistentInstance")
            return s.go(s.path + (name,))
        if kind == "arr":
            if not -len(v) <= k < len(v):
                raise Fail("NonexistentInstance")
            return s.go(s.path + (k % len(v),))
        raise Fail("InstanceValueError")
    if op == "put":
        if kind != "obj":
            raise Fail("InstanceValueError")
        c = s.member(k)
        if c is None:
            raise Fail("NonexistentSchemaNode")
        p = s.path + (c.iname(),)
        return s.go(p, s.put(p, canon(s.m, c, o["v"])))
    if op == "update":
        if not s.path and kind == "obj":
            return s.go((), rs.canon_raw(s.m, o["v"]))
        return s.go(s.path, s.put(s.path, canon(s.m, s.sn(), o["v"], s.is_entry())))
    if op == "delete":
        if kind == "val":
            raise Fail("InstanceValueError")
        if kind == "obj":
            if k not in v:
                raise Fail("NonexistentInstance")
            nv = {x: y for x, y in v.items() if x != k}
        else:
            if not -len(v) <= k < len(v):
                raise Fail("NonexistentInstance")
            nv = list(v)
            del nv[k]
        return s.go(s.path, s.put(s.path, nv))
    if op == "up":
        if not s.path:
            raise Fail("NonexistentInstance")
        return s.go(s.path[:-1])
    if op == "top":
        return s.go(())
    if op == "sibling":
        par = s.go(s.path[:-1])
        c = par.member(k)
        if c is None:
            raise Fail("NonexistentSchemaNode")
        if c.iname() not in par.at() or c.iname() == s.path[-1]:
            raise Fail("NonexistentInstance")
        return s.go(par.path + (c.iname(),))
    i = s.path[-1] if s.path else None
    arr = s.at(s.path[:-1]) if s.path else None
    if op in ("next", "previous"):
        i += 1 if op == "next" else -1
        if not 0 <= i < len(arr):
            raise Fail("NonexistentInstance")
        return s.go(s.path[:-1] + (i,))
    if op in ("before", "after"):
        nv = list(arr)
        i += op == "after"
        nv.insert(i, canon(s.m, s.sn(), o["v"], True))
        return s.go(s.path[:-1] + (i,), s.put(s.path[:-1], nv))
    if op == "lookup":
        sn = s.sn()
        if kind != "arr" or sn.kind != "list":
            raise Fail("InstanceValueError")
        key = {}
        for n, kv in k.items():
            c = docs.split(s.m, sn, n)
            if c is None:
                raise Fail("NonexistentSchemaNode" if o["raw"] else "NonexistentInstance")
            key[n] = canon(s.m, c, kv)
        for j, e in enumerate(v):
            if all(n in e and rs.same(e[n], key[n]) for n in key):
                return s.go(s.path + (j,))
        raise Fail("NonexistentInstance")
    raise HarnessError(op)


# ------------------------------------------------------------------ generation

def gen_op(d, m, s: State):
    kind, v, sn = s.kind(), s.at(), s.sn()
    dg = rs.DataGen(d, m, "all", density=60)
    dg.budget = 8
    raw = d.p(60)

    def value(c, entry=False):
        x = docs.val(dg, c)
        if x is None:
            return None
        x = x[0]
        return x if not entry else (x[d.int(0, len(x) - 1)] if x else None)

    def name():
        kids = [c for c, _ in s.sn().data_children()]
        r = d.int(0, 9)
        if r < 6 and kids:
            c = d.choice(kids)
            return c.iname() if d.p(75) else f"{m.mods[c.ns]}:{c.name}"
        if r < 8 and isinstance(v, dict) and v:
            return d.choice(list(v))
        return d.choice(NAMES)
    menu = [(2, "up"), (1, "top")]
    if kind == "obj":
        menu += [(11, "get"), (5, "put"), (2, "delete"), (1, "update")]
    elif kind == "arr":
        menu += [(12, "get"), (3, "delete"), (1, "update"), (1, "put"), (2, "lookup")]
    else:
        menu += [(1, "get"), (1, "put"), (1, "delete"), (4, "update"), (1, "lookup")]
    if s.path and isinstance(s.path[-1], str):
        menu += [(4, "sibling")]
    if s.is_entry():
        menu += [(4, "next"), (4, "previous"), (4, "before"), (4, "after"), (2, "update")]
    op = d.weighted(menu)
    o = {"op": op}
    if op == "get" or op == "delete":
        if kind == "obj":
            o["k"] = d.choice(list(v)) if v and d.p(85) else name()
            if op == "delete" and o["k"] not in v:
                c = s.member(o["k"])
                if c is not None:
                    o["k"] = c.iname()
        elif kind == "arr":
            o["k"] = d.int(-len(v) - 1, len(v)) if d.p(15) or not v else d.int(0, len(v) - 1)
        elif sn.kind in ("anydata", "anyxml"):
            return None
        else:
            o["k"] = d.choice(["a", 0])
    elif op == "put":
        o["k"] = name()
        o["v"] = 1
        c = s.member(o["k"]) if kind == "obj" else None
        if c is not None:
            x = value(c)
            if x is None:
                return None
            o["v"] = x
        o["raw"] = raw
    elif op == "update":
        if not s.path:
            o["v"] = {c.iname(): x for c in d.subset([c for c, _ in m.root.data_children()]) for x in [value(c)] if x is not None}
        else:
            x = value(sn, s.is_entry())
            if x is None:
                return None
            o["v"] = x
        o["raw"] = raw
    elif op in ("before", "after"):
        x = value(sn, True)
        if x is None:
            return None
        o["v"], o["raw"] = x, raw
    elif op == "sibling":
        par = s.go(s.path[:-1])
        have = [n for n in par.at() if n != s.path[-1]]
        kids = [c for c, _ in par.sn().data_children()]
        if have and d.p(75):
            o["k"] = d.choice(have)
        elif kids and d.p(70):
            c = d.choice(kids)
            o["k"] = c.iname() if d.p(50) else f"{m.mods[c.ns]}:{c.name}"
        else:
            o["k"] = d.choice(NAMES)
    elif op == "lookup":
        o["raw"] = raw
        o["k"] = {}
        if kind == "arr" and sn.kind == "list":
            leafs = [c for c, _ in sn.data_children() if c.kind == "leaf"]
            e = d.choice(v) if v else {}
            for c in d.subset(leafs, 40):
                x = e[c.iname()] if c.iname() in e and d.p(85) else value(c)
                if x is not None:
                    o["k"][c.iname()] = x
            if d.p(5):
                o["k"]["zzz"] = 1
    return o


def make(nops, rich=False, **kw):
    @case
    def gen(d):
        f = rs.default_feat(kinds=KINDS, any=True, when=False, **kw)
        mj = RICH if rich else rs.Gen(d, f).gen()
        m = rs.Model(mj)
        doc = rs.DataGen(d, m, "all", density=80).doc() or {}
        states = [State(m, rs.canon_raw(m, doc))]
        ops = []
        for _ in range(d.int(8, nops)):
            h = len(states) - 1 if d.p(70) else d.int(0, len(states) - 1)
            try:
                o = gen_op(d, m, states[h])
                if o is None:
                    continue
                o["h"] = h
                try:
                    states.append(apply(states[h], o))
                except Fail:
                    pass
            except (Skip, rs.Bad):
                continue
            ops.append(o)
        return {"m": mj, "doc": doc, "ops": ops}
    return gen


# ------------------------------------------------------------------ running

def cook(node, o, s, c=None):
    """Cooked form of the value of an operation (made by the schema node it is meant for)."""
    if c is not None:
        return c.from_raw(o["v"])
    if s.is_entry():
        return node.schema_node.from_raw([o["v"]])[0]
    return node.schema_node.from_raw(o["v"])


def run(node, o, s):
    op, k = o["op"], o.get("k")
    raw = o.get("raw", False)
    if op == "get":
        return node[k]
    if op == "put":
        if raw or s.kind() != "obj" or s.member(k) is None:
            return node.put_member(k, o["v"], raw=raw)
        c = s.member(k)
        return node.put_member(k, cook(node, o, s, node.schema_node.get_data_child(c.name, s.m.mods[c.ns])))
    if op == "update":
        return node.update(o["v"], raw=True) if raw else node.update(cook(node, o, s))
    if op == "delete":
        return node.delete_item(k)
    if op == "up":
        return node.up()
    if op == "top":
        return node.top()
    if op == "sibling":
        return node.sibling(k)
    if op == "next":
        return node.next()
    if op == "previous":
        return node.previous()
    if op in ("before", "after"):
        f = node.insert_before if op == "before" else node.insert_after
        return f(o["v"], raw=True) if raw else f(cook(node, o, s))
    if op == "lookup":
        if raw:
            return node.look_up(True, **k)
        kk = {}
        for n, v in k.items():
            c = docs.split(s.m, s.sn(), n) if s.kind() == "arr" else None
            kk[n] = v if c is None else node.schema_node.get_data_child(c.name, s.m.mods[c.ns]).from_raw(v)
        return node.look_up(**kk)
    raise HarnessError(op)


def verify(node, s, what):
    """The node shows exactly the state's focus."""
    from yangson.instance import RootNode, ObjectMember, ArrayEntry
    cls = RootNode if not s.path else ArrayEntry if s.is_entry() else ObjectMember
    if type(node) is not cls:
        raise Violation(f"{what}: {type(node).__name__} instead of {cls.__name__} at {s.path}")
    if tuple(node.path) != s.path:
        raise Violation(f"{what}: path {node.path} instead of {s.path}")
    if node.json_pointer() != "/" + "/".join(map(str, s.path)):
        raise Violation(f"{what}: JSON pointer {node.json_pointer()} at {s.path}")
    if s.is_entry() and node.index != s.path[-1]:
        raise Violation(f"{what}: index {node.index} at {s.path}")
    names = [k for k in s.path if isinstance(k, str)]
    if names and node.name != names[-1]:
        raise Violation(f"{what}: name {node.name!r} at {s.path}")
    sn = s.sn()
    if names and (node.schema_node.name, node.schema_node.ns) != (sn.name, s.m.mods[sn.ns]):
        raise Violation(f"{what}: schema node {node.schema_node.qual_name} at {s.path}")
    if names and (node.qual_name != (sn.name, s.m.mods[sn.ns]) or node.namespace != s.m.mods[sn.ns]):
        raise Violation(f"{what}: qualified name {node.qual_name} at {s.path}")
    want = s.at()
    if not rs.same(dump(node), want):
        raise Violation(f"{what}: value at {s.path}: {rs.diff(dump(node), want)} (library first)")
    if not rs.same(dump(node.top()), s.root):
        raise Violation(f"{what}: whole tree seen from {s.path}: {rs.diff(dump(node.top()), s.root)} (library first)")
    if s.kind() == "arr":
        got = [(e.index, e.raw_value()) for e in node]
        if not rs.same([list(x) for x in got], [[i, e] for i, e in enumerate(want)]):
            raise Violation(f"{what}: iterating over {s.path} gives {got} instead of {want}")
    elif s.kind() == "obj" and sorted(node) != sorted(want):
        raise Violation(f"{what}: iterating over {s.path} gives {sorted(node)}")


def dump(node):
    """Dump that also shows entries without content (raw_value() of an array drops no entries of its own accord)."""
    return node.raw_value()


def judge(case_):
    from yangson import exceptions as X
    mj = case_["m"]
    m = rs.Model(mj)
    dm = rs.load(mj)
    try:
        s0 = State(m, rs.canon_raw(m, case_["doc"]))
    except rs.Bad:
        raise Skip("document")
    nodes = [(dm.from_raw(case_["doc"]), s0)]
    verify(*nodes[0], "start")
    done, labels, old = 0, set(), False
    for n, o in enumerate(case_["ops"]):
        if o["h"] >= len(nodes):
            raise Skip("handle")
        node, s = nodes[o["h"]]
        try:
            try:
                exp, names = apply(s, o), None
            except Fail as f:
                exp, names = None, f.args
        except (rs.Bad, KeyError, TypeError, IndexError):
            raise Skip("operation does not fit")
        what = f"step {n} {o}"
        keep = copy.deepcopy(o)
        try:
            got = run(node, o, s)
        except X.YangsonException as e:
            if names is None:
                raise Violation(f"{what} at {s.path} failed: {type(e).__name__} {e}; value {s.at()!r}")
            if not isinstance(e, tuple(getattr(X, x) for x in names)):
                raise Violation(f"{what} at {s.path} failed with {type(e).__name__} {e} instead of {names}")
            str(e)
            labels.add("fail:" + o["op"])
            got = None
        else:
            if names is not None:
                raise Violation(f"{what} at {s.path} gave {got.path} {got.value!r} instead of failing with {names}; value {s.at()!r}")
        if o != keep:
            raise Violation(f"{what} changed its argument")
        verify(node, s, what + " (node before the operation)")
        if got is not None:
            verify(got, exp, what)
            labels.add("ok:" + o["op"])
            if o["op"] in ("put", "update", "delete", "before", "after"):
                done += 1
                old = old or o["h"] < len(nodes) - 1
            nodes.append((got, exp))
    for i, (node, s) in enumerate(nodes):
        verify(node, s, f"node {i} after the whole history")
        p = node
        q = s
        while q.path:
            p, q = p.up(), q.go(q.path[:-1])
            verify(p, q, f"ancestor of node {i}")
    edits = {x for x in labels if x[3:] in ("put", "update", "delete", "before", "after") and x[:2] == "ok"}
    return {"nontrivial": done >= 4 and len(edits) >= 3 and old, "labels": sorted(labels)}


LEGS = [Leg("rich", make(30, rich=True), judge, quick=3800, thorough=24000),
        Leg("history", make(16, size=10), judge, quick=3800, thorough=24000),
        Leg("long", make(45, size=6, maxmods=2), judge, quick=1200, thorough=8000)]
