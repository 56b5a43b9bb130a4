"""Generator of typed XPath expressions over a generated schema (ASTs of rxpath)."""
from . import rtypes as rt
from .d import D

STRS = ["", "a", "b", "ab", "1", "0", "-1", "2.5", " 3 ", "true", "false", "1e3", "1_0", "0x10", "+1", "inf", "nan", "NaN", ".5", "1.",
        "-", "a b", "  a  b ", "abc", "aXbXc", "\u00e9t\u00e9", "\u00a0x", "12345"]
NUMS = ["0", "1", "2", "3", "0.5", "1.5", "2.5", "10", "100", "4", "7", "255", "1000000", "0.1"]


class XGen:
    def __init__(self, d: D, m=None, mod=None, pool=()):
        self.d, self.m, self.mod = d, m, mod
        self.pool = list(pool)
        self.nodes = [s for s in m.all_data()] if m else []
        self.idents = m.j["idents"] if m else []

    # -------------------------------------------------------------- by type
    def expr(self, s, depth):
        return getattr(self, self.d.weighted([(3, "bool"), (3, "num"), (3, "str"), (4, "ns") if self.m else (0, "ns")]))(s, depth)

    def any(self, s, depth):
        return self.expr(s, depth)

    def bool(self, s, depth):
        d = self.d
        k = d.int(0, 13) if depth > 0 else d.int(9, 13)
        if k <= 1:
            return ["bin", d.choice(["and", "or"]), self.any(s, depth - 1), self.any(s, depth - 1)]
        if k <= 5:
            return ["bin", d.choice(["=", "!=", "<", "<=", ">", ">="]), self.any(s, depth - 1), self.any(s, depth - 1)]
        if k == 6:
            return ["fn", d.choice(["not", "boolean"]), [self.any(s, depth - 1)]]
        if k == 7:
            return ["fn", d.choice(["contains", "starts-with"]), [self.sarg(s, depth - 1), self.sarg(s, depth - 1)]]
        if k == 8:
            return ["fn", "re-match", [self.sarg(s, depth - 1), ["re", rt.gen_pattern(d)]]]
        if self.m and k == 9:
            return ["fn", d.choice(["derived-from", "derived-from-or-self"]), [self.ns(s, depth - 1, "identityref"), self.ident()]]
        if self.m and k == 10:
            n, e = self.leafpath(s, "bits")
            bits = rt.builtin_of(n.j["type"]).get("bits") if n is not None else None
            name = ["str", d.choice(bits)[0]] if bits and d.p(80) else self.str(s, 0)
            return ["fn", "bit-is-set", [e, name]]
        if self.m and k == 11:
            return ["bin", d.choice(["=", "!=", "<", ">"]), self.ns(s, 0), self.scalar(s, 0)]
        return ["fn", d.choice(["true", "false"]), []]

    def ident(self):
        d = self.d
        ok = [i for i in self.idents if i["mod"] <= self.mod]
        if not ok or d.p(4):
            return ["str", "nonexistent"]
        i = d.choice(ok)
        return ["idstr", self.m.mods[i["mod"]] if i["mod"] != self.mod or d.p(50) else None, i["name"]]

    def num(self, s, depth):
        d = self.d
        k = d.int(0, 15) if depth > 0 else d.int(12, 15)
        if k <= 3:
            return ["bin", d.choice(["+", "-", "*", "div", "mod"]), self.any(s, depth - 1), self.any(s, depth - 1)]
        if k == 4:
            return ["neg", self.any(s, depth - 1)]
        if k == 5:
            return ["fn", d.choice(["floor", "ceiling", "round"]), [self.any(s, depth - 1)]]
        if k == 6:
            return ["fn", "string-length", [self.sarg(s, depth - 1)]]
        if k == 7:
            return ["fn", "number", [self.any(s, depth - 1)]]
        if self.m and k in (8, 9):
            return ["fn", "count", [self.ns(s, depth - 1)]]
        if self.m and k == 10:
            return ["fn", "sum", [self.ns(s, depth - 1)]]
        if self.m and k == 11:
            return ["fn", "enum-value", [self.leafpath(s, "enumeration")[1]]]
        if k == 12 and self.m:
            return ["fn", d.choice(["position", "last"]), []]
        if k == 13:
            return d.choice([["bin", "div", ["num", "0"], ["num", "0"]], ["bin", "div", ["num", "1"], ["num", "0"]],
                             ["bin", "div", ["neg", ["num", "1"]], ["num", "0"]], ["neg", ["num", "0"]]])
        n = ["num", d.choice(NUMS) if d.p(80) else str(d.int(0, 10**6) / 8)]
        return n if d.p(75) else ["neg", n]

    def str(self, s, depth):
        d = self.d
        k = d.int(0, 12) if depth > 0 else 12
        if k == 0:
            return ["fn", "concat", [self.any(s, depth - 1) for _ in range(d.int(2, 3))]]
        if k == 1:
            return ["fn", d.choice(["substring-before", "substring-after"]), [self.sarg(s, depth - 1), self.sarg(s, depth - 1)]]
        if k in (2, 3):
            return ["fn", "substring", [self.sarg(s, depth - 1)] + [self.any(s, depth - 1) for _ in range(d.int(1, 2))]]
        if k == 4:
            return ["fn", "normalize-space", [self.sarg(s, depth - 1)]]
        if k == 5:
            return ["fn", "translate", [self.sarg(s, depth - 1)] + [["str", d.text("ab1 cX-", 0, 5)] for _ in range(2)]]
        if k == 6:
            return ["fn", "string", [self.any(s, depth - 1)]]
        if k == 7 and self.m:
            return ["fn", "local-name", [self.ns(s, depth - 1)] if d.p(70) else []]
        if k == 8 and self.m and s is not None and s.kind in ("leaf", "leaf-list"):
            return ["fn", d.choice(["string", "normalize-space"]), []]
        if self.pool and d.p(60):
            return ["str", d.choice(self.pool)]
        return ["str", d.choice(STRS) if d.p(70) else d.text("ab1 .-\u00e9", 0, 6)]

    def scalar(self, s, depth):
        return getattr(self, self.d.choice(["str", "num", "bool"]))(s, depth)

    def sarg(self, s, depth):
        return self.str(s, depth) if self.d.p(60) else self.any(s, depth)

    # -------------------------------------------------------------- node-sets
    def ns(self, s, depth, want=None):
        d = self.d
        k = d.int(0, 13)
        if want or k <= 2:
            return self.leafpath(s, want)[1]
        if depth > 0 and k == 3:
            return ["bin", "|", self.ns(s, depth - 1), self.ns(s, depth - 1)]
        if depth > 0 and k == 4:
            e, t = self.path(s, depth - 1)
            return ["filter", e, [self.pred(t, depth - 1) for _ in range(d.int(1, 2))]]
        if depth > 0 and k == 5:
            e, t = self.path(s, depth - 1)
            st, t2 = self.steps(t, d.int(1, 2), depth - 1)
            return ["path", False, ["filter", e, [self.pred(t, depth - 1)]] if d.p(50) else e, st]
        if depth > 0 and k == 6:
            refs = [x for x in self.nodes if x.j.get("type", {}).get("t") == "leafref"]
            if refs:
                return ["fn", "deref", [self.pathto(s, d.choice(refs))]] if d.p(90) else ["fn", "deref", [self.ns(s, depth - 1)]]
        if k == 7:
            st, _ = self.steps(self.cur, d.int(1, 2), depth - 1)
            return ["path", False, ["fn", "current", []], st] if d.p(70) else ["fn", "current", []]
        return self.path(s, depth)[0]

    cur = None

    def root(self):
        return self.m.root

    def nm(self, s):
        """Node test naming schema node s, or None when the expression's module cannot name it."""
        if s.ns > self.mod:
            return None
        return ["name", None if s.ns == self.mod and self.d.p(60) else self.m.mods[s.ns], s.name]

    def path(self, s, depth):
        d = self.d
        if s is None or d.p(25):
            st, t = self.steps(self.root(), d.int(0, 4), depth)
            return ["path", True, None, st], t
        st, t = self.steps(s, d.int(1, 4), depth)
        return ["path", False, None, st], t

    def pathto(self, s, tgt):
        """Path from schema node s (None: absolute) to the instances of tgt, with optional predicates."""
        d = self.d
        tc = tgt.dchain()
        up = 0
        start = 0
        pc = s.dchain() if s is not None else []
        absolute = s is None or d.p(35)
        if not absolute:
            while start < len(pc) and start < len(tc) - 1 and pc[start] is tc[start]:
                start += 1
            up = len(pc) - start
        steps = [["parent", ["node"], []] for _ in range(up)]
        if absolute and d.p(30):
            t = self.nm(tgt)
            if t:
                return ["path", True, None, [["descendant-or-self", ["node"], []], ["child", t, []]]]
        for n in tc[start:]:
            t = self.nm(n) or ["*"]
            preds = []
            if n.kind in ("list", "leaf-list") and d.p(25):
                preds = [self.pred(n, 0)]
            steps.append(["child", t, preds])
        if not steps:
            steps = [["self", ["node"], []]]
        return ["path", absolute, None, steps]

    def leafpath(self, s, kind=None):
        d = self.d
        leaves = [x for x in self.nodes if x.kind in ("leaf", "leaf-list")]
        want = [x for x in leaves if kind is None or rt.builtin_of(x.j["type"])["t"] == kind]
        if want and d.p(90):
            t = d.choice(want)
            return t, self.pathto(s, t)
        if leaves:
            t = d.choice(leaves)
            return None, self.pathto(s, t)
        return None, ["path", True, None, []]

    def steps(self, s, n, depth):
        res = []
        for _ in range(n):
            st, s = self.step(s, depth)
            res.append(st)
        return res, s

    def step(self, s, depth):
        """(step, schema node of the typical result)"""
        d = self.d
        k = d.int(0, 15)
        kids = [c for c, _ in s.data_children()] if s is not None and s.kind in ("root", "container", "list", "op") else []
        if k <= 6 and kids:
            t = d.choice(kids)
            return ["child", self.nm(t) or ["*"], self.preds(t, depth)], t
        if k <= 8:
            t = d.choice(kids) if kids else s
            return [d.choice(["child", "child", "descendant-or-self"]), d.choice([["*"], ["node"]]), self.preds(t, depth)], t
        par = s.dparent() if s is not None and s.kind != "root" else None
        if k <= 10 and s is not None and s.kind != "root":
            t = par if par is not None else self.root()
            test = ["node"] if d.p(65) else ((self.nm(t) if t.kind not in ("root", "op") else None) or ["node"])
            return ["parent", test, self.preds(t, depth) if d.p(30) else []], t
        if k == 11:
            return ["self", ["node"] if d.p(50) or s is None or s.kind in ("root", "op") else (self.nm(s) or ["node"]), self.preds(s, depth)], s
        if k == 12 and self.nodes:
            t = d.choice(self.nodes)
            return [d.choice(["descendant", "descendant-or-self"]), self.nm(t) or ["node"], self.preds(t, depth)], t
        if k == 13 and s is not None and s.kind not in ("root", "op"):
            ch = s.dchain()
            t = d.choice(ch)
            return [d.choice(["ancestor", "ancestor-or-self"]), d.weighted([(4, self.nm(t) or ["node"]), (1, ["*"]), (1, ["node"])]), self.preds(t, depth)], t
        if k == 14 and s is not None and s.kind in ("list", "leaf-list"):
            if d.p(20) and self.nodes:
                t = d.choice(self.nodes)      # mostly no sibling
                return [d.choice(["preceding-sibling", "following-sibling"]), self.nm(t) or ["*"], self.preds(t, depth)], t
            return [d.choice(["preceding-sibling", "following-sibling"]), d.weighted([(4, self.nm(s) or ["*"]), (1, ["*"]), (1, ["node"])]),
                    self.preds(s, depth)], s
        if k == 15 and self.nodes:
            t = d.choice(self.nodes)      # usually not a child
            return ["child", self.nm(t) or ["*"], self.preds(t, depth)], t
        if kids:
            t = d.choice(kids)
            return ["child", self.nm(t) or ["*"], self.preds(t, depth)], t
        return ["self", ["node"], []], s

    def preds(self, s, depth):
        d = self.d
        if depth <= 0 or not d.p(35 if s is not None and s.kind in ("list", "leaf-list") else 12):
            return []
        return [self.pred(s, depth - 1) for _ in range(d.weighted([(4, 1), (1, 2)]))]

    def pred(self, s, depth):
        d = self.d
        k = d.int(0, 9)
        if k <= 1:
            return ["num", d.choice(["1", "2", "3", "1.5", "0"])]
        if k == 2:
            return ["bin", d.choice(["=", "<", ">", "!="]), ["fn", "position", []], ["num", d.choice(["1", "2", "3"])]]
        if k == 3:
            return d.choice([["fn", "last", []], ["bin", "-", ["fn", "last", []], ["num", "1"]], ["bin", "mod", ["fn", "position", []], ["num", "2"]],
                             ["bin", "=", ["fn", "position", []], ["fn", "last", []]]])
        if k <= 6 and s is not None and s.kind == "list":
            kids = [c for c, _ in s.data_children() if c.kind == "leaf" and self.nm(c)]
            if kids:
                c = d.choice(kids)
                return ["bin", d.choice(["=", "=", "!=", "<"]), ["path", False, None, [["child", self.nm(c), []]]], self.str(s, 0)]
        if k <= 6 and s is not None and s.kind in ("leaf", "leaf-list"):
            return ["bin", d.choice(["=", "!=", ">"]), ["path", False, None, [["self", ["node"], []]]], self.scalar(s, 0)]
        if k == 7:
            return ["neg", ["num", "1"]] if d.p(30) else self.num(s, depth)
        return self.any(s, depth)
