"""Reference XPath 1.0 (+ YANG functions): AST as JSON, rendering to text, evaluation over the reference tree.

AST: ["num", text] ["str", s] ["bin", op, l, r] ["neg", e] ["fn", name, [args]] ["path", absolute, start|null, [steps]]
     step = [axis, test, [preds]];  test = ["name", mod|null, local] | ["*"] | ["node"]
     ["filter", primary, [preds]]
The evaluation raises Skip where XPath (or YANG's unordered members) leaves the answer open.
"""
import math
from fractions import Fraction
from .core import Skip
from . import rtypes as rt


class RN:
    """Reference tree node. kind: root, cont, entry (list entry), leaf, item (leaf-list entry), any."""
    __slots__ = ("kind", "name", "ns", "parent", "children", "val", "schema", "index", "type", "default", "raw")

    def __init__(self, kind, name, ns, parent, schema):
        self.kind, self.name, self.ns, self.parent, self.schema = kind, name, ns, parent, schema
        self.children = []
        self.val = None
        self.index = None       # position among the entries of the same list / leaf-list
        self.type = None
        self.default = False    # added as a default
        self.raw = None

    def path(self):
        p, n = [], self
        while n.parent is not None:
            p.append((n.ns, n.name, n.index))
            n = n.parent
        return tuple(reversed(p))

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def sval(self):
        if self.val is None:
            raise Skip("string value of a structured node")
        return rt.canon(self.val)

    def desc(self):
        for c in self.children:
            yield c
            yield from c.desc()


class NodeSet:
    def __init__(self, nodes):
        seen = {}
        for n in nodes:
            seen[id(n)] = n
        self.nodes = list(seen.values())

    def first(self):
        return order(self.nodes)[0]


def cmp_order(a, b):
    """-1/1 when document order is determined, raises Skip otherwise."""
    if a is b:
        return 0
    ca, cb = chain(a), chain(b)
    for i in range(min(len(ca), len(cb))):
        if ca[i] is not cb[i]:
            x, y = ca[i], cb[i]
            if x.index is not None and y.index is not None and (x.name, x.ns) == (y.name, y.ns):
                return -1 if x.index < y.index else 1
            raise Skip("order of unordered members")
    return -1 if len(ca) < len(cb) else 1


def chain(n):
    res = []
    while n is not None:
        res.append(n)
        n = n.parent
    res.reverse()
    return res


def order(nodes):
    import functools
    if len(nodes) < 2:
        return list(nodes)
    # every pair must be comparable, otherwise the result is undetermined
    for i in range(len(nodes)):
        for j in range(i):
            cmp_order(nodes[i], nodes[j])
    return sorted(nodes, key=functools.cmp_to_key(cmp_order))


# ------------------------------------------------------------------ rendering

PREC = {"or": 1, "and": 2, "=": 3, "!=": 3, "<": 4, "<=": 4, ">": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "div": 6, "mod": 6, "|": 8}


def text(e, pfx, sp=None, prec=0):
    """Render; pfx(mod or None, local) -> qualified name text; sp(kind) -> white space ('' or spaces) for optional spots."""
    sp = sp or (lambda k: " " if k == "op" else "")
    k = e[0]
    if k == "num":
        return e[1]
    if k == "str":
        s = e[1]
        if '"' in s and "'" in s:
            raise Skip("literal with both quotes")
        qc = '"' if "'" in s else ("'" if '"' in s or sp("quote") == "" else '"')
        return qc + s + qc
    if k == "idstr":
        return text(["str", pfx(e[1], e[2])], pfx, sp)
    if k == "re":
        return text(["str", rt.pat_text(e[1])], pfx, sp)
    if k == "bin":
        op = e[1]
        p = PREC[op]
        ws = sp("op") if op in "=!=<=>=+|" else (sp("op") or " ")
        s = text(e[2], pfx, sp, p) + ws + op + ws + text(e[3], pfx, sp, p + 1)
        return "(" + sp("in") + s + sp("in") + ")" if p < prec else s
    if k == "neg":
        s = "-" + sp("in") + text(e[1], pfx, sp, 7)
        return "(" + s + ")" if prec > 7 else s
    if k == "fn":
        return e[1] + sp("in") + "(" + sp("in") + (sp("in") + "," + sp("in")).join(text(a, pfx, sp) for a in e[2]) + sp("in") + ")"
    if k == "filter":
        return primary_text(e[1], pfx, sp) + preds_text(e[2], pfx, sp)
    if k == "path":
        steps = [step_text(s, pfx, sp) for s in e[3]]
        body = (sp("in") + "/" + sp("in")).join(steps)
        if e[1]:
            if not steps and prec > 0:
                return "(/)"    # a name or * after a lone slash would be taken for a step
            return "/" + (sp("in") if steps else "") + body
        if e[2] is not None:
            return primary_text(e[2], pfx, sp) + sp("in") + "/" + sp("in") + body
        return body
    raise AssertionError(k)


def primary_text(e, pfx, sp):
    if e[0] in ("fn", "str", "num"):
        return text(e, pfx, sp)
    if e[0] == "filter":
        return text(e, pfx, sp)
    return "(" + sp("in") + text(e, pfx, sp) + sp("in") + ")"


def preds_text(ps, pfx, sp):
    return "".join(sp("in") + "[" + sp("in") + text(p, pfx, sp) + sp("in") + "]" for p in ps)


def step_text(s, pfx, sp):
    axis, test, preds = s
    t = {"*": lambda: "*", "node": lambda: "node" + sp("in") + "(" + sp("in") + ")",
         "name": lambda: pfx(test[1], test[2])}[test[0]]()
    if not preds and test[0] == "node" and axis == "self" and not sp("abbr"):
        return "."
    if not preds and test[0] == "node" and axis == "parent" and not sp("abbr"):
        return ".."
    if axis == "child" and not sp("abbr"):
        return t + preds_text(preds, pfx, sp)
    return axis + sp("in") + "::" + sp("in") + t + preds_text(preds, pfx, sp)


# ------------------------------------------------------------------ evaluation

def num_to_str(x):
    if math.isnan(x):
        return "NaN"
    if math.isinf(x):
        return "Infinity" if x > 0 else "-Infinity"
    if x == 0:
        return "0"
    if x == int(x):
        return str(int(x))
    s = repr(x)
    if "e" in s or "E" in s:
        raise Skip("text of a very small number")
    return s


NUM_WS = " \t\r\n"


def str_to_num(s):
    import re
    s = s.strip(NUM_WS)
    if re.fullmatch(r"-?([0-9]+(\.[0-9]*)?|\.[0-9]+)", s, re.ASCII):
        return float(s)
    return math.nan


class Ctx:
    def __init__(self, node, cur, mods, env):
        self.node, self.cur, self.mods, self.env = node, cur, mods, env
        self.pos = self.size = 1


class Env:
    """What evaluation needs besides the tree: model (identities, modules, link resolution)."""

    def __init__(self, model, default_mod=None):
        self.model = model
        self.default_mod = default_mod


def to_bool(v):
    if isinstance(v, NodeSet):
        return bool(v.nodes)
    if isinstance(v, float):
        return not (v == 0 or math.isnan(v))
    if isinstance(v, bool):
        return v
    return v != ""


def to_str(v):
    if isinstance(v, NodeSet):
        return v.first().sval() if v.nodes else ""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        return num_to_str(v)
    return v


def node_num(n):
    if n.val is None:
        raise Skip("number of a structured node")
    if n.val[0] == "bool":
        raise Skip("number of a boolean leaf (library counts true as 1, pinned by its tests)")
    return str_to_num(n.sval())


def to_num(v):
    if isinstance(v, NodeSet):
        return node_num(v.first()) if v.nodes else math.nan
    if isinstance(v, bool):
        return 1.0 if v else 0.0
    if isinstance(v, float):
        return v
    return str_to_num(v)


def compare(op, l, r):
    eq = op in ("=", "!=")
    if isinstance(l, NodeSet) and isinstance(r, NodeSet):
        for a in l.nodes:
            for b in r.nodes:
                if eq:
                    if (a.sval() == b.sval()) == (op == "="):
                        return True
                elif rel(op, node_num(a), node_num(b)):
                    return True
        return False
    if isinstance(l, NodeSet) or isinstance(r, NodeSet):
        ns, other, flip = (l, r, False) if isinstance(l, NodeSet) else (r, l, True)
        if isinstance(other, bool):
            b = bool(ns.nodes)
            if eq:
                return (b == other) == (op == "=")
            x, y = (float(b), float(other))
            return rel(op, y, x) if flip else rel(op, x, y)
        for n in ns.nodes:
            if eq:
                if isinstance(other, float):
                    x = node_num(n)
                    ok = x == other
                else:
                    ok = n.sval() == other
                if ok == (op == "="):
                    return True
            else:
                x, y = node_num(n), to_num(other)
                if rel(op, y, x) if flip else rel(op, x, y):
                    return True
        return False
    if eq:
        if isinstance(l, bool) or isinstance(r, bool):
            res = to_bool(l) == to_bool(r)
        elif isinstance(l, float) or isinstance(r, float):
            res = to_num(l) == to_num(r)
        else:
            res = l == r
        return res == (op == "=")
    return rel(op, to_num(l), to_num(r))


def rel(op, x, y):
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]


def arith(op, x, y):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "div":
        if y == 0:
            if x == 0 or math.isnan(x):
                return math.nan
            neg = (math.copysign(1, x) < 0) != (math.copysign(1, y) < 0)
            return -math.inf if neg else math.inf
        return x / y
    if math.isnan(x) or math.isnan(y) or math.isinf(x) or y == 0:
        return math.nan
    if math.isinf(y):
        return x
    return math.fmod(x, y)


def ev(e, c):
    k = e[0]
    if k == "num":
        return float(e[1])
    if k == "str":
        return e[1]
    if k == "re":
        return rt.pat_text(e[1])
    if k == "idstr":
        return e[2] if e[1] is None else e[1] + ":" + e[2]
    if k == "neg":
        return -to_num(ev(e[1], c))
    if k == "bin":
        op = e[1]
        if op == "or":
            return to_bool(ev(e[2], c)) or to_bool(ev(e[3], c))
        if op == "and":
            return to_bool(ev(e[2], c)) and to_bool(ev(e[3], c))
        l, r = ev(e[2], c), ev(e[3], c)
        if op == "|":
            return NodeSet(l.nodes + r.nodes)
        if op in ("+", "-", "*", "div", "mod"):
            return arith(op, to_num(l), to_num(r))
        return compare(op, l, r)
    if k == "fn":
        return FN[e[1]](c, e[2])
    if k == "filter":
        v = ev(e[1], c)
        for p in e[2]:
            v = NodeSet(apply_pred(order_if_needed(v.nodes, p), p, c))
        return v
    if k == "path":
        if e[1]:
            cur = [c.node.root()]
        elif e[2] is not None:
            cur = ev(e[2], c).nodes
        else:
            cur = [c.node]
        for s in e[3]:
            out = []
            for n in cur:
                out += step(s, n, c)
            cur = NodeSet(out).nodes
        return NodeSet(cur)
    raise AssertionError(k)


POSITIONAL = ("position", "last")


def uses_pos(p):
    """May the predicate depend on position?"""
    return p[0] in ("num", "neg") or (p[0] == "bin" and p[1] in ("+", "-", "*", "div", "mod")) or \
        (p[0] == "fn" and p[1] in ("number", "count", "sum", "string-length", "floor", "ceiling", "round", "enum-value")) or \
        has_pos(p)


def has_pos(p):
    if p[0] == "fn":
        return p[1] in POSITIONAL or any(has_pos(a) for a in p[2])
    if p[0] == "bin":
        return has_pos(p[2]) or has_pos(p[3])
    if p[0] == "neg":
        return has_pos(p[1])
    if p[0] == "filter":
        return has_pos(p[1])
    if p[0] == "path" and p[2] is not None:
        return has_pos(p[2])
    return False


def order_if_needed(nodes, p):
    return order(nodes) if uses_pos(p) else nodes


def apply_pred(nodes, p, c):
    """nodes in proximity order."""
    res = []
    for i, n in enumerate(nodes):
        cc = Ctx(n, c.cur, c.mods, c.env)
        cc.pos, cc.size = i + 1, len(nodes)
        v = ev(p, cc)
        if (v == float(i + 1)) if isinstance(v, float) else to_bool(v):
            res.append(n)
    return res


REVERSE = ("ancestor", "ancestor-or-self", "preceding-sibling")


def step(s, n, c):
    axis, test, preds = s
    nodes = [x for x in axis_nodes(axis, n, test, c) if node_test(test, x, c, axis)]
    for p in preds:
        if uses_pos(p):
            nodes = order(nodes)
            if axis in REVERSE:
                nodes.reverse()
        nodes = apply_pred(nodes, p, c)
    return nodes


def axis_nodes(axis, n, test=("node",), c=None):
    if axis == "child":
        return list(n.children)
    if axis == "self":
        return [n]
    if axis == "parent":
        return [n.parent] if n.parent is not None else []
    if axis == "descendant":
        return list(n.desc())
    if axis == "descendant-or-self":
        return [n] + list(n.desc())
    if axis == "ancestor":
        return chain(n)[:-1]
    if axis == "ancestor-or-self":
        return chain(n)
    if axis in ("preceding-sibling", "following-sibling"):
        if n.parent is None:
            return []
        # only nodes the test selects matter: those of the same list are ordered, different members are not
        if any(x is not n and (x.name, x.ns) != (n.name, n.ns) and node_test(test, x, c, axis) for x in n.parent.children):
            raise Skip("siblings across unordered members")
        if n.index is None:
            return []
        return [x for x in n.parent.children if (x.name, x.ns) == (n.name, n.ns) and (x.index < n.index) == (axis[0] == "p") and x is not n]
    raise AssertionError(axis)


def node_test(test, x, c, axis):
    if test[0] == "node":
        return True
    if x.kind == "root":
        if test[0] == "*" and axis in ("self", "descendant-or-self", "ancestor-or-self", "ancestor", "parent"):
            raise Skip("whether '*' matches the root (pinned by the library's tests)")
        return False
    if test[0] == "*":
        return True
    return x.name == test[2] and x.ns == (test[1] if test[1] is not None else c.env.default_mod)


def _arg_or_self(c, args):
    return ev(args[0], c) if args else NodeSet([c.node])


def f_substring(c, a):
    s = to_str(ev(a[0], c))
    p = xround(to_num(ev(a[1], c)))
    if len(a) > 2:
        ln = xround(to_num(ev(a[2], c)))
        return "".join(ch for i, ch in enumerate(s, 1) if i >= p and i < p + ln)
    return "".join(ch for i, ch in enumerate(s, 1) if i >= p)


def xround(x):
    if math.isnan(x) or math.isinf(x):
        return x
    return float(math.floor(Fraction(x) + Fraction(1, 2)))


def f_translate(c, a):
    s, f, t = (to_str(ev(x, c)) for x in a)
    m = {}
    for i, ch in enumerate(f):
        if ch not in m:
            m[ch] = t[i] if i < len(t) else ""
    return "".join(m.get(ch, ch) for ch in s)


def xfloor(x, fn):
    return x if math.isnan(x) or math.isinf(x) else float(fn(x))


def f_sum(c, a):
    r = 0.0
    for n in ev(a[0], c).nodes:
        x = node_num(n)
        if abs(x) > 2 ** 45 and not math.isinf(x) or x * 1024 != int(x * 1024) if math.isfinite(x) else False:
            raise Skip("rounding of a sum")
        r += x
    return r


def qn_of(node):
    return (node.ns, node.name)


def f_name(c, a, local=False):
    v = _arg_or_self(c, a)
    if not v.nodes:
        return ""
    n = v.first()
    if n.kind == "root":
        return ""
    if local:
        return n.name
    raise Skip("name()")


def f_deref(c, a):
    v = ev(a[0], c)
    if not v.nodes:
        return NodeSet([])
    return NodeSet(c.env.model.deref(v.first()))


def f_derived(c, a, self_ok):
    v = ev(a[0], c)
    ident = to_str(ev(a[1], c))
    for n in v.nodes:
        if n.val is not None and n.val[0] == "idref":
            if c.env.model.derives((n.val[1], n.val[2]), ident, self_ok, c.env):
                if rt.builtin_of(n.schema.j["type"])["t"] != "identityref":
                    raise Skip("derived-from() of unions and leafrefs")
                return True
    return False


def f_enum_value(c, a):
    v = ev(a[0], c)
    if not v.nodes:
        return math.nan
    n = v.first()
    if n.val is not None and n.schema.j["type"]["t"] == "leafref":
        raise Skip("enum-value of a leafref")
    if n.val is None or n.val[0] != "enum" or rt.builtin_of(n.type)["t"] != "enumeration":
        if n.val is not None and n.val[0] == "enum":
            raise Skip("enum-value of a union")
        return math.nan
    return float(rt.enum_values(rt.builtin_of(n.type)["enums"])[n.val[1]])


def f_bit_is_set(c, a):
    v = ev(a[0], c)
    b = to_str(ev(a[1], c))
    if not v.nodes:
        return False
    n = v.first()
    if n.val is not None and n.val[0] == "bits" and rt.builtin_of(n.type)["t"] == "union":
        raise Skip("bit-is-set() of unions")
    return n.val is not None and n.val[0] == "bits" and b in n.val[1]


def f_re_match(c, a):
    s = to_str(ev(a[0], c))
    p = a[1]
    if p[0] != "re":
        raise AssertionError
    if any(ch.isspace() and ch not in " \t\r\n" for ch in s):
        raise Skip("\\s over other white space (decided by the elementpath library)")
    return rt.pat_match(p[1], s)


def f_normalize(c, a):
    return " ".join(x for x in to_str(_arg_or_self(c, a)).replace("\t", " ").replace("\n", " ").replace("\r", " ").split(" ") if x)


FN = {
    "last": lambda c, a: float(c.size),
    "position": lambda c, a: float(c.pos),
    "count": lambda c, a: float(len(ev(a[0], c).nodes)),
    "local-name": lambda c, a: f_name(c, a, True),
    "string": lambda c, a: to_str(_arg_or_self(c, a)),
    "concat": lambda c, a: "".join(to_str(ev(x, c)) for x in a),
    "starts-with": lambda c, a: to_str(ev(a[0], c)).startswith(to_str(ev(a[1], c))),
    "contains": lambda c, a: to_str(ev(a[1], c)) in to_str(ev(a[0], c)),
    "substring-before": lambda c, a: (lambda s, t: s[:s.find(t)] if t in s else "")(to_str(ev(a[0], c)), to_str(ev(a[1], c))),
    "substring-after": lambda c, a: (lambda s, t: s[s.find(t) + len(t):] if t in s else "")(to_str(ev(a[0], c)), to_str(ev(a[1], c))),
    "substring": f_substring,
    "string-length": lambda c, a: float(len(to_str(_arg_or_self(c, a)))),
    "normalize-space": f_normalize,
    "translate": f_translate,
    "boolean": lambda c, a: to_bool(ev(a[0], c)),
    "not": lambda c, a: not to_bool(ev(a[0], c)),
    "true": lambda c, a: True,
    "false": lambda c, a: False,
    "number": lambda c, a: to_num(_arg_or_self(c, a)),
    "sum": f_sum,
    "floor": lambda c, a: xfloor(to_num(ev(a[0], c)), math.floor),
    "ceiling": lambda c, a: xfloor(to_num(ev(a[0], c)), math.ceil),
    "round": lambda c, a: xround(to_num(ev(a[0], c))),
    "current": lambda c, a: NodeSet([c.cur]),
    "deref": f_deref,
    "derived-from": lambda c, a: f_derived(c, a, False),
    "derived-from-or-self": lambda c, a: f_derived(c, a, True),
    "enum-value": f_enum_value,
    "bit-is-set": f_bit_is_set,
    "re-match": f_re_match,
}


def evaluate(e, node, env, mods=None):
    return ev(e, Ctx(node, node, mods, env))
