"""P17: schemas factored at random (groupings, refines, augments, submodules, typedefs, deviations, shorthand cases) against the flat original."""
import json
import re
from ..core import Leg, Skip, Violation, expect
from ..d import case
from .. import rschema as rs, docs, ystmt as ys
from ..ystmt import st
from .p15 import header

RULE = ("one case is a flat generated schema and a copy factored by a random sequence of equivalence transformations, compared by tree, digest, defaults "
        "and verdicts on documents; non-trivial when at least three transformations of two kinds were applied and a document was judged")
ASSUMPTIONS = ["names of derived types are not compared", "groupings are moved to another module only without references to definitions of their own module"]
SIMPLE = [(4, "string"), (2, "boolean"), (2, "uint8"), (2, "enumeration"), (1, "empty"), (1, "identityref"), (1, "union"), (1, "int64"), (1, "decimal64")]
DATA = ("container", "list", "leaf", "leaf-list", "anydata", "anyxml", "choice")
INNER = ("container", "list")
SCOPES = ("container", "list", "grouping", "rpc", "input", "output", "notification", "module")
PROPS = ("description", "default", "mandatory", "config", "min-elements", "max-elements", "presence", "must", "units")


class Fact:
    """Factors the modules in self.t (trees by module name) step by step."""

    def __init__(self, d, flat, mods):
        self.d, self.mods = d, mods
        self.flat = flat
        self.t = {m: ys.copy(t) for m, t in flat.items()}
        self.subs = {m: [] for m in mods}
        self.subtrees = {}
        self.lib = st("module", "mg", *header("mg", "pg", []))
        self.libused = set()
        self.dev = st("module", "mx", *header("mx", "px", []))
        self.groups = {}          # name -> [grouping statement, uses statements, module]
        self.n = 0
        self.log = []

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    # ---------------------------------------------------------------- navigation
    def trees(self, m):
        return [self.t[m]] + [self.subtrees[s] for s in self.subs[m]]

    def nodes(self, m, within=None):
        """(statement, its parent, schema path (list) or None, state subtree?) of the definitions; path None inside groupings."""
        out = []

        def go(s, par, path, state, inchoice):
            kids = s[3]
            for c in list(kids):
                if c[0]:
                    continue
                kw = c[1]
                if kw == "uses":
                    g = self.groups.get(c[2].split(":")[-1])
                    if g and len(g[1]) == 1:
                        go(g[0], g[0], path, state, s[1] == "choice")
                    continue
                if kw not in DATA + ("case", "rpc", "notification", "action", "input", "output"):
                    continue
                p = path + [c[2] or kw]
                if s[1] == "choice" and kw != "case":
                    p = path + [c[2], c[2]]
                stt = state or ys.arg(c, "config") == "false" or kw in ("rpc", "notification", "action")
                out.append((c, s, p, stt))
                go(c, s, p, stt, False)
        if within is not None:
            go(within, within, [], True, False)
            return out
        for t in self.trees(m):
            go(t, None, [], False, False)
        return out

    # ---------------------------------------------------------------- choice of places
    def home(self, m, anc, content):
        """Statement list where a definition with the content, used below the ancestors `anc` of module m, may stand."""
        d = self.d
        used = {x[2].split(":")[-1] for c in content for x, _ in ys.walk(c) if x[0] is None and x[1] in ("type", "uses")}
        low = max([i for i, a in enumerate(anc) if a[1] not in ("module", "submodule")
                   and any(c[0] is None and c[1] in ("typedef", "grouping") and c[2] in used for c in a[3])], default=None)
        if low is not None:
            a = d.choice([a for a in anc[low:] if a[1] in SCOPES])
            return a[3], "local"
        k = d.int(0, 3)
        if k == 0 and any(a[1] in SCOPES for a in anc):
            a = d.choice([a for a in anc if a[1] in SCOPES])
            return a[3], "local"
        if k == 1:
            return self.submodule(m)[3], "submodule"
        if k == 2:
            tops = self.trees(m)
            return d.choice(tops)[3], "top"
        return self.t[m][3], "top"

    def submodule(self, m):
        d = self.d
        if self.subs[m] and (len(self.subs[m]) == 2 or d.p(60)):
            return self.subtrees[d.choice(self.subs[m])]
        sn = f"{m}-s{len(self.subs[m]) + 1}"
        imps = [(i[2], ys.arg(i, "prefix")) for i in ys.find_all(self.t[m], "import")]
        s = st("submodule", sn, *header(sn, "p" + m, imps, m))
        self.subs[m].append(sn)
        self.subtrees[sn] = s
        inc = next(k for k, x in enumerate(self.t[m][3]) if x[1] == "prefix") + 1
        self.t[m][3].insert(inc, st("include", sn))
        return s

    def chain(self, m, target):
        """Ancestors of a statement (the list itself is identified), or None."""
        for t in self.trees(m):
            for s, path in ys.walk(t):
                if s is target:
                    return list(path)
        return None

    def bodies(self, m):
        """Statements with data definitions among their children."""
        out = []
        for t in self.trees(m):
            for s, path in ys.walk(t):
                if s[0] is None and s[1] in ("container", "list", "case", "grouping", "input", "output", "notification", "module", "submodule", "augment") \
                        and any(c[0] is None and c[1] in DATA for c in s[3]):
                    if any(p[1] in ("deviation",) for p in path):
                        continue
                    tgt = self.augtarget.get(id(s))
                    if s[1] == "augment" and tgt == "choice":
                        continue
                    out.append((s, list(path)))
        return out

    # ---------------------------------------------------------------- transformations
    augtarget = {}

    def t_group(self, m):
        d = self.d
        bs = self.bodies(m)
        if not bs:
            return None
        s, path = d.choice(bs)
        kids = [c for c in s[3] if c[0] is None and c[1] in DATA + ("uses",)]
        k = d.int(0, len(kids) - 1)
        run = kids[k:k + d.weighted([(3, 1), (3, 2), (1, 3)])]
        name = self.fresh("grf")
        g = st("grouping", name, *run)
        u = st("uses", name)
        at = next(i for i, c in enumerate(s[3]) if c is run[0])
        if self.portable(g) and d.p(30):
            for x, _ in ys.walk(g):
                if x[1] in ("when", "must", "path") and x[0] is None:
                    x[2] = x[2].replace(f"p{m}:", "")
            self.lib[3].append(g)
            self.libused.add(m)
            u[2] = "pg:" + name
            where = "library"
        else:
            lst, where = self.home(m, path + [s], run)
            lst.append(g)
            if d.p(30):
                u[2] = f"p{m}:{name}"
        s[3][:] = [c for c in s[3] if not any(c is r for r in run)]
        s[3].insert(min(at, len(s[3])), u)
        self.groups[name] = [g, [u], m]
        return "grouping " + where

    def portable(self, g):
        for x, _ in ys.walk(g):
            if x[0]:
                return False
            if x[1] == "uses":
                return False
            if x[1] == "type" and (":" in x[2] or x[2] not in BUILTIN or x[2] == "identityref"):
                return False
            if x[1] in ("when", "must", "path") and re.search(r"\bx[a-z]+:|derived-from", x[2]):
                return False
        return True

    def rel(self, g):
        """Definitions inside a grouping with their path relative to a uses of it."""
        return self.nodes(None, within=g)

    def t_refine(self, m):
        d = self.d
        c = [(n, g) for n, g in self.groups.items() if len(g[1]) == 1 and self.owner(n) == m]
        if not c:
            return None
        name, g = d.choice(c)
        ns = [x for x in self.rel(g[0]) if x[0][1] in DATA and x[0][2] not in self.keys]
        if not ns:
            return None
        node, par, path, _ = d.choice(ns)
        if any(r[2] == "/".join(path) for r in ys.find_all(g[1][0], "refine")):
            return None
        back = self.perturb(node, self.state(m, node), "refine")
        if not back:
            return None
        pf = f"p{m}:" if self.t[m] is not None and d.p(20) and not self.nested(g[1][0]) else ""
        back = [b for b in back]
        if self.in_lib(g[1][0]):
            back = [[b[0], b[1], b[2].replace(f"p{m}:", "") if b[1] == "must" else b[2], b[3]] for b in back]
        elif self.in_lib(g[0]):
            pass
        g[1][0][3].append(st("refine", "/".join(pf + p for p in path), *back))
        return "refine " + back[0][1]

    def owner(self, name):
        return self.groups[name][2]

    def nested(self, u):
        """Is the uses statement inside a grouping?"""
        for t in list(self.t.values()) + list(self.subtrees.values()) + [self.lib]:
            for s, path in ys.walk(t):
                if s is u:
                    return any(p[1] == "grouping" for p in path)
        return True

    def in_lib(self, s):
        return any(x is s for x, _ in ys.walk(self.lib))

    def state(self, m, node):
        """Is the node certainly in a configuration part (False), or maybe not (True)?"""
        for c, par, path, stt in self.nodes(m):
            if c is node:
                return stt
        return True

    def perturb(self, node, state, how):
        """Change a property of the node; -> statements that restore it (refine), or deviate statements."""
        d = self.d
        kw = node[1]
        opts = []
        has = {k for k in PROPS if ys.find(node, k)}
        if how == "refine":
            opts.append("description")
        if kw in ("leaf", "leaf-list", "choice") and "default" in has:
            opts += ["default", "default"]
        if how == "deviate" and kw in ("leaf", "leaf-list", "choice") and ys.arg(node, "mandatory") != "true" and ys.arg(node, "min-elements") in (None, "0"):
            opts += ["bogus-default"]
            if kw == "choice" and "default" in has:
                opts += ["default", "default"]
        if kw in ("leaf", "choice") and "default" not in has or kw in ("anydata", "anyxml"):
            opts.append("mandatory")
        if kw in ("list", "leaf-list"):
            opts += ["min-elements", "max-elements"]
        if kw in ("container", "list", "leaf", "leaf-list", "anydata", "anyxml") and not (kw == "container" and how != "refine" and False):
            if not state or ys.arg(node, "config") == "false":
                opts.append("config")
        if kw == "container" and "presence" in has and how == "refine":
            opts.append("presence")
        if "must" in has:
            opts.append("must")
        if how == "deviate":
            if kw in ("leaf", "leaf-list"):
                opts.append("units")
                if ys.arg(node, "type") in BUILTIN and ys.arg(node, "type") not in ("identityref", "leafref", "union") and "default" not in has:
                    opts.append("type")
            if kw == "list":
                opts.append("unique")
        if not opts:
            return None
        opts = [o for o in opts if (id(node), o) not in self.done]
        if not opts:
            return None
        o = d.choice(opts)
        self.done.add((id(node), o))
        self.keep.append(node)
        cur = ys.find_all(node, o)
        args = [ys.copy(c) for c in cur]

        def put(*new):
            node[3][:] = [c for c in node[3] if not (c[0] is None and c[1] == o)] + list(new)
        if o == "description":
            if not cur:
                return None
            put(*([st(o, "something else")] if d.p(50) else []))
            return args
        if o == "type":
            put(st("type", "binary"))
            return [st("deviate", "replace", *args)]
        if o == "bogus-default":
            if any((id(node), k) in self.done for k in ("default", "mandatory", "min-elements", "type")):
                return None
            if kw == "choice":
                cases = [c[2] for c in node[3] if c[1] in ("case", "container", "list", "leaf", "leaf-list", "anydata", "anyxml") and c[0] is None]
                if not cases or "default" in has:
                    return None
                v = d.choice(cases)
            else:
                if kw == "leaf" and "default" in has:
                    return None
                v = "zz"
                if any(c[2] == v for c in node[3] if c[1] == "default"):
                    return None
            self.done.add((id(node), "default"))
            self.done.add((id(node), "mandatory"))
            self.done.add((id(node), "min-elements"))
            self.done.add((id(node), "type"))
            node[3].append(st("default", v))
            return [st("deviate", "delete", st("default", v))]
        if o == "unique":
            cands = [c[2] for c in node[3] if c[1] == "leaf" and c[0] is None and c[2] not in self.keys]
            if not cands or d.p(50) and cur:
                if not cur:
                    return None
                put(*cur[1:])
                x = args[0]
                x[2] = " ".join("/".join(self.dpfx + p for p in u.split("/")) for u in x[2].split())
                return [st("deviate", "add", x)]
            x = st("unique", d.choice(cands))
            if any(c[2] == x[2] for c in cur):
                return None
            put(*d.shuffle(cur + [x]))
            return [st("deviate", "delete", st("unique", self.dpfx + x[2]))]
        defaults = {"mandatory": "false", "min-elements": "0", "max-elements": "unbounded", "config": "true"}
        if o == "must":
            k = d.int(0, len(cur) - 1)
            if how == "deviate":
                if d.p(50):
                    extra = st("must", "false()")
                    put(*d.shuffle(cur + [extra]))
                    return [st("deviate", "delete", ys.copy(extra))]
                put(*[c for i, c in enumerate(cur) if i != k])
                return [st("deviate", "add", args[k])]
            put(*[c for i, c in enumerate(cur) if i != k])
            return [args[k]]
        if o in defaults:
            now = cur[0][2] if cur else None
            alt = {"mandatory": ["true", "false"], "min-elements": ["0", "1", "3"], "max-elements": ["1", "2", "7", "unbounded"], "config": ["true", "false"]}[o]
            eff = now if now is not None else defaults[o]
            alt = [a for a in alt if a != eff]
            if o == "config" and eff == "true" and self.deep_state(node):
                return None
            k = d.int(0, 2)
            if how == "deviate":
                if now is not None and k == 0 and now != defaults[o]:
                    put()
                    return [st("deviate", "add", *args)]
                put(st(o, d.choice(alt)))
                if now is None:
                    if o == "config":
                        return [st("deviate", "replace", st(o, "true"))]
                    v = node[3][-1][2]
                    if k == 1:
                        return [st("deviate", "delete", st(o, v))]
                return [st("deviate", "replace", st(o, eff))]
            put(*([st(o, d.choice(alt))] if alt and (now is None or k) else []))
            return [st(o, eff)]
        if o == "presence":
            put()
            return args
        if o == "default":
            k = d.int(0, 1)
            if how == "deviate":
                if any(c[2] in self.idents for c in cur):       # may need a prefix there
                    return None
                if k and kw == "leaf":
                    put(st("default", "zz"))
                    return [st("deviate", "replace", *args)]
                if k and kw == "choice":
                    put(st("default", d.choice([c[2] for c in node[3] if c[1] in ("case", "container", "list", "leaf", "leaf-list", "anydata", "anyxml") and c[0] is None])))
                    return [st("deviate", "replace", *args)]
                if kw == "leaf-list" and k and len(cur) < 3:
                    put(*cur, st("default", "zz"))
                    return [st("deviate", "delete", st("default", "zz"))]
                put()
                return [st("deviate", "add", *args)]
            if kw == "leaf-list":
                put(*(cur[:d.int(0, len(cur) - 1)] if d.p(50) else [st("default", "zz"), st("default", "yy")] if d.p(50) else []))
            else:
                put(*([st("default", "zz")] if k and kw == "leaf" else []))
            return args
        if o == "units":
            if cur and d.p(50):
                put(*([st("units", "other")] if d.p(50) else []))
                return [st("deviate", "replace" if ys.find(node, "units") else "add", *args)]
            if not cur:
                put(st("units", "bogus"))
                return [st("deviate", "delete", st("units", "bogus"))]
        return None

    def deep_state(self, node):
        """config false put on a node would be lost below a node that has it anyway (then nothing changes for it)."""
        return False

    def t_usesaug(self, m):
        d = self.d
        c = [(n, g) for n, g in self.groups.items() if len(g[1]) == 1 and self.owner(n) == m]
        if not c:
            return None
        name, g = d.choice(c)
        if self.in_lib(g[0]) or self.in_lib(g[1][0]):
            return None
        ns = [x for x in self.rel(g[0]) if x[0][1] in INNER + ("case", "choice")]
        if not ns:
            return None
        node, par, path, _ = d.choice(ns)
        if node[1] == "choice" and any(c[2] == ys.arg(node, "default") for c in node[3]) and False:
            return None
        kids = [c for c in node[3] if c[0] is None and c[1] in (DATA if node[1] != "choice" else DATA + ("case",)) and c[2] not in self.keys]
        if not kids or self.local_defs(node):
            return None
        k = d.choice(kids)
        if k[2] in self.used_paths():
            return None
        a = st("augment", "/".join(path), k)
        node[3][:] = [c for c in node[3] if c is not k]
        self.augtarget[id(a)] = node[1]
        self.keep.append(a)
        g[1][0][3].append(a)
        return "uses augment"

    def local_defs(self, node):
        """Does the node hold definitions its content might use?"""
        return any(c[1] in ("grouping", "typedef") for s, _ in ys.walk(node) for c in s[3]) or self.below_local(node)

    def below_local(self, node):
        for t in list(self.t.values()) + list(self.subtrees.values()) + [self.lib]:
            for s, path in ys.walk(t):
                if s is node:
                    return any(c[1] in ("grouping", "typedef") for p in path if p[1] not in ("module", "submodule") for c in p[3])
        return True

    def t_augment(self, m):
        d = self.d
        ns = [x for x in self.nodes(m) if x[0][1] in INNER + ("case", "choice", "input", "output", "notification")]
        if not ns:
            return None
        node, par, path, _ = d.choice(ns)
        if self.in_lib(node) or self.local_defs(node):
            return None
        kids = [c for c in node[3] if c[0] is None and c[1] in (DATA if node[1] != "choice" else DATA + ("case",)) and c[2] not in self.keys]
        if not kids:
            return None
        k = d.choice(kids)
        if k[2] in self.used_paths():
            return None
        a = st("augment", "/" + "/".join(f"p{m}:{p}" for p in path), k)
        self.augtarget[id(a)] = node[1]
        self.keep.append(a)
        node[3][:] = [c for c in node[3] if c is not k]
        t = d.choice(self.trees(m)) if d.p(70) else self.submodule(m)
        t[3].insert(d.int(self.first(t), len(t[3])), a)
        return "augment"

    def used_paths(self):
        """Names in targets of refines and augments in uses statements (these must stay within the grouping)."""
        out = set()
        for t in list(self.t.values()) + list(self.subtrees.values()) + [self.lib]:
            for s, _ in ys.walk(t):
                if s[1] == "uses":
                    out |= {n.split(":")[-1] for c in s[3] for n in c[2].split("/")}
        return out

    def first(self, t):
        return next((i for i, c in enumerate(t[3]) if c[1] not in ("yang-version", "namespace", "prefix", "belongs-to", "import", "include")), len(t[3]))

    def t_sub(self, m):
        d = self.d
        t = self.t[m]
        cands = [c for c in t[3] if c[0] is None and c[1] in DATA + ("typedef", "grouping", "identity", "augment", "rpc", "notification", "uses")]
        if not cands:
            return None
        c = d.choice(cands)
        s = self.submodule(m)
        t[3][:] = [x for x in t[3] if x is not c]
        s[3].append(c)
        return "submodule " + c[1]

    def t_typedef(self, m):
        d = self.d
        cands = []
        for t in self.trees(m):
            for s, path in ys.walk(t):
                if s[0] is None and s[1] in ("leaf", "leaf-list") and not any(p[1] in ("deviation",) for p in path):
                    T = ys.find(s, "type")
                    if T and T[2] not in ("leafref", "empty"):
                        cands.append((s, list(path), T))
        if not cands:
            return None
        s, path, T = d.choice(cands)
        name = self.fresh("tdf")
        base = ys.copy(T)
        top = st("type", name)
        # restrictions may be split between the typedef and its use
        if T[2] in ("string", "uint8", "int64") and len(T[3]) > 0 and d.p(60):
            move = d.subset([c for c in base[3] if c[1] in ("length", "range")] + [c for c in base[3] if c[1] == "pattern"][-1:], 60)
            base[3][:] = [c for c in base[3] if not any(c is x for x in move)]
            top[3] += move
        td = st("typedef", name, base)
        if s[1] == "leaf" and d.p(50) and not top[3] and s[2] not in self.keys:
            for k in ("default", "units"):
                x = ys.find(s, k)
                if x and (id(s), k) not in self.done:
                    s[3].remove(x)
                    td[3].append(x)
        lst, where = self.home(m, path, [base])
        if where == "top" and d.p(25) and base[2] in BUILTIN and base[2] not in ("identityref", "union"):
            lst = self.lib[3]
            top[2] = "pg:" + name
            self.libused.add(m)
            where = "library"
        lst.append(td)
        i = next(k for k, c in enumerate(s[3]) if c is T)
        s[3][i] = top
        return "typedef " + where

    def t_case(self, m):
        d = self.d
        ch = []
        for t in self.trees(m):
            for s, path in ys.walk(t):
                if s[0] is None and (s[1] == "choice" or self.augtarget.get(id(s)) == "choice"):
                    ch.append(s)
        cands = []
        for s in ch:
            for c in s[3]:
                if c[0] is None and c[1] in ("container", "list", "leaf", "leaf-list", "anydata", "anyxml"):
                    cands.append((s, c, True))
                elif c[1] == "case" and len(c[3]) == 1 and c[3][0][1] in ("container", "list", "leaf", "leaf-list", "anydata", "anyxml") and c[3][0][2] == c[2]:
                    cands.append((s, c, False))
        if not cands:
            return None
        s, c, short = d.choice(cands)
        i = next(k for k, x in enumerate(s[3]) if x is c)
        s[3][i] = st("case", c[2], c) if short else c[3][0]
        return "case"

    def t_deviate(self, m):
        d = self.d
        ns = [x for x in self.nodes(m) if x[0][1] in DATA + ("case", "rpc", "notification") and x[0][2] not in self.keys]
        if not ns:
            return None
        node, par, path, stt = d.choice(ns)
        if self.in_lib(node):
            return None
        if d.p(30):
            bs = [x for x in self.nodes(m) if x[0][1] in INNER + ("case", "choice", "input", "output", "notification")]
            if not bs:
                return None
            node, par, path, stt = d.choice(bs)
            nm = self.fresh("zap")
            kind = d.choice(["leaf", "container", "leaf-list"])
            new = st(kind, nm, *([st("type", "string")] if kind != "container" else [st("leaf", "x", st("type", "string"), *([st("mandatory", "true")] if d.p(50) else []))]))
            if kind == "leaf" and d.p(30):
                new[3].append(st("mandatory", "true"))
            node[3].append(new)
            p = path + [nm]                 # for a choice: its implicit case
            dv = [st("deviate", "not-supported")]
            label = "not-supported"
        else:
            tp = "/" + "/".join(f"p{m}:{p}" for p in path)
            if any(x[2] == tp for x in ys.find_all(self.dev, "deviation")):
                return None
            self.dpfx = f"p{m}:"
            dv = self.perturb(node, stt, "deviate")
            if not dv:
                return None
            p = path
            label = dv[0][2] + " " + dv[0][3][0][1]
        self.dev[3].append(st("deviation", "/" + "/".join(f"p{m}:{x}" for x in p), *dv))
        return "deviation " + label

    # ---------------------------------------------------------------- everything
    def run(self, steps):
        d = self.d
        self.keep = []
        self.done = set()
        self.idents = {s[2] for t in self.flat.values() for s, _ in ys.walk(t) if s[1] == "identity"}
        self.augtarget = {}
        for _ in range(steps):
            m = d.choice(self.mods)
            self.keys = {k for t in self.flat.values() for s, _ in ys.walk(t) if s[1] == "key" for k in s[2].split()}
            f = d.weighted([(6, self.t_group), (5, self.t_refine), (3, self.t_usesaug), (3, self.t_augment), (2, self.t_sub), (3, self.t_typedef), (1, self.t_case),
                            (4, self.t_deviate)])
            r = f(m)
            if r:
                self.log.append(r)
        for m in self.libused:
            for t in self.trees(m):
                at = next(k for k, x in enumerate(t[3]) if x[1] in ("prefix", "belongs-to")) + 1
                t[3].insert(at, st("import", "mg", st("prefix", "pg")))
        out = {m: ys.emit(t) for m, t in list(self.t.items()) + list(self.subtrees.items())}
        mods = list(self.mods)
        if len(self.lib[3]) > 3:
            mods.append("mg")
            out["mg"] = ys.emit(self.lib)
        if any(s[1] == "deviation" for s in self.dev[3]):
            mods.append("mx")
            at = next(k for k, x in enumerate(self.dev[3]) if x[1] == "prefix") + 1
            for m in self.mods:
                self.dev[3].insert(at, st("import", m, st("prefix", "p" + m)))
            out["mx"] = ys.emit(self.dev)
        return {"texts": out, "mods": mods, "subs": {m: [{"name": s, "revision": ""} for s in v] for m, v in self.subs.items() if v}, "log": self.log}


BUILTIN = ("string", "boolean", "uint8", "enumeration", "empty", "identityref", "union", "int64", "decimal64", "leafref", "binary", "bits", "int8", "int16", "int32",
           "uint16", "uint32", "uint64", "instance-identifier")


def flat_trees(d, mj):
    trees = {k: ys.parse(t) for k, t in rs.Emitter(mj).run().texts().items()}
    for t in trees.values():
        for s, path in ys.walk(t):
            if s[0] is None and s[1] in DATA and d.p(15):
                s[3].append(st("description", d.choice(["one", "two"])))
    return trees


def duplicate(d, F):
    """Two uses of one grouping, the second one refined differently (in the flat text: two copies)."""
    m = d.choice(F.mods)
    cands = []
    for c in F.flat[m][3]:
        if c[1] in INNER:
            for s, _ in ys.walk(c):
                if s[1] in INNER:
                    kids = [k for k in s[3] if k[0] is None and k[1] in DATA and not any(x[1] in ("when", "must", "path", "uses") for x, _ in ys.walk(k))]
                    if kids:
                        cands.append((s, kids))
    if not cands:
        return
    s, kids = d.choice(cands)
    keys = (ys.arg(s, "key") or "").split()
    kids = [k for k in kids if k[2] not in keys]
    if not kids:
        return
    run = d.sample(kids, d.int(1, 3))
    # the same statement in the copy to be factored
    twin = next(b for (a, _), (b, _) in zip(ys.walk(F.flat[m]), ys.walk(F.t[m])) if a is s)
    idx = [next(i for i, k in enumerate(s[3]) if k is r) for r in run]
    trun = [twin[3][i] for i in idx]
    name = F.fresh("grf")
    nc = F.fresh("dup")
    u1, u2 = st("uses", name), st("uses", name)
    copies = [ys.copy(r) for r in run]
    for _ in range(d.int(1, 2)):
        pick = [(x, p) for cp in copies for x, p in paths(cp, []) if x[2] not in F.keys_all]
        if not pick:
            break
        x, p = d.choice(pick)
        if any(r[2] == "/".join(p) for r in ys.find_all(u2, "refine")):
            continue
        o = d.choice({"leaf": ["description", "mandatory"], "leaf-list": ["description", "max-elements"], "list": ["max-elements", "min-elements"],
                      "container": ["description", "presence"]}.get(x[1], ["description"]))
        if o == "mandatory" and (ys.find(x, "default") or ys.find(x, "mandatory")) or o == "presence" and ys.find(x, o) or o == "max-elements" and ys.find(x, "min-elements"):
            continue
        v = {"description": "changed", "mandatory": "true", "max-elements": "2", "min-elements": "1", "presence": "here"}[o]
        if o == "min-elements" and ys.find(x, "max-elements"):
            continue
        x[3][:] = [c for c in x[3] if not (c[0] is None and c[1] == o)] + [st(o, v)]
        u2[3].append(st("refine", "/".join(p), st(o, v)))
    F.flat[m][3].append(st("container", nc, *copies))
    if d.p(30):
        u1, u2 = u1, u2
    twin[3][:] = [c for c in twin[3] if not any(c is r for r in trun)] + [u1]
    F.t[m][3].append(st("container", nc, u2))
    F.t[m][3].append(st("grouping", name, *trun))
    F.groups[name] = [F.t[m][3][-1], [u1, u2], m]
    F.log.append("two uses")


def paths(s, pre):
    if s[0] is None and s[1] in DATA + ("case",):
        p = pre + [s[2]]
        if s[1] in DATA and s[1] != "choice":
            yield s, p
        for c in s[3]:
            if s[1] == "choice" and c[1] != "case":
                if c[1] in DATA:
                    for x, q in paths(c, p + [c[2]]):
                        yield x, q
            else:
                yield from paths(c, p)


@case
def gen(d):
    f = rs.default_feat(kinds=SIMPLE, typedefs=15, ops=d.p(40), when=d.p(40), must=d.p(40), unique=True, leafref=d.p(30), uses=False, augment=False, maxmods=2)
    mj = rs.Gen(d, f).gen()
    flat = flat_trees(d, mj)
    F = Fact(d, flat, mj["mods"])
    F.keys_all = {k for t in flat.values() for s, _ in ys.walk(t) if s[1] == "key" for k in s[2].split()}
    if d.p(35):
        duplicate(d, F)
    comp = F.run(d.int(3, 14))
    m = rs.Model(mj)
    dd = []
    for _ in range(d.int(1, 3)):
        ct = d.choice(["config", "all"])
        raw = rs.DataGen(d, m, ct, density=d.choice([30, 70, 95])).doc() or {}
        dd.append([raw, ct])
        dd.append([docs.mutate(d, m, raw)[0], ct])
    return {"mods": mj["mods"], "flat": {k: ys.emit(t) for k, t in flat.items()}, "comp": comp, "docs": dd}


def tidy(x):
    """Digest without names of derived types."""
    if isinstance(x, dict):
        return {k: sorted(map(list, v)) if k == "identities" else tidy(v) for k, v in x.items() if k != "derived"}
    return x


def model(texts, mods, subs=None):
    from yangson import DataModel
    with rs.Workspace({f"{k}.yang": t for k, t in texts.items()}) as w:
        return DataModel(rs.yang_library(mods, subs=subs), (w,))


def show(c):
    return "\n".join(f"--- {k}\n{t}" for k, t in c["comp"]["texts"].items())


def check(c):
    from yangson.enumerations import ContentType
    from yangson.exceptions import YangsonException
    try:
        flat = model(c["flat"], c["mods"])
    except YangsonException as e:
        raise Skip(f"flat schema: {type(e).__name__}")
    comp = model(c["comp"]["texts"], c["comp"]["mods"], c["comp"]["subs"])
    a, b = comp.ascii_tree(True), flat.ascii_tree(True)
    if a != b:
        raise Violation(f"different schema trees after {c['comp']['log']}\n{a}\n--- expected ---\n{b}")
    a, b = tidy(json.loads(comp.schema_digest())), tidy(json.loads(flat.schema_digest()))
    if a != b:
        raise Violation(f"different schema digests after {c['comp']['log']}: " + rs.diff(a, b)[:600])
    judged = set()
    for raw, ct in c["docs"]:
        va, vb = docs.verdict(comp, raw, ct), docs.verdict(flat, raw, ct)
        if va[0] != vb[0] or type(va[1]) is not type(vb[1]):
            raise Violation(f"after {c['comp']['log']} document {raw} ({ct}): {va[0]} {va[1]!r}, expected {vb[0]} {vb[1]!r}")
        judged.add(vb[0])
        if vb[0] != "ok":
            continue
        for k in (ContentType.config, ContentType.all):
            x, y = (dm.from_raw(raw).add_defaults(k).raw_value() for dm in (comp, flat))
            if x != y:
                raise Violation(f"after {c['comp']['log']} defaults of {raw}: {x}, expected {y}")
    kinds = {x.split()[0] for x in c["comp"]["log"]}
    return {"nontrivial": len(c["comp"]["log"]) >= 3 and len(kinds) >= 2 and bool(judged), "labels": sorted(set(c["comp"]["log"]) | {"doc:" + j for j in judged})}


LEGS = [Leg("factor", gen, check, quick=12500, thorough=50000)]
