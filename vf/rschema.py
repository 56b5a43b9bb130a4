"""Generated schemas: JSON description of the effective schema tree, emission as YANG text, reference semantics.

Model (JSON): {"mods": [names], "idents": [{"name","mod","bases"}], "tree": [node...], "ops": [node...]}
Node: {"kind": container|list|leaf|leaf-list|choice|case|anydata|anyxml|group|rpc|action|notification, "name", "ns": module index, ...}
A "group" is a transparent wrapper: children come through a grouping ("via": "uses") or an augment, possibly with "when".
"""
import copy
import json
import os
import shutil
import tempfile
from . import rtypes as rt
from . import rxpath as rx
from .core import HarnessError, Skip
from .d import D

DATA = ("container", "list", "leaf", "leaf-list", "anydata", "anyxml")
INNER = ("container", "list")
NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "or", "div", "x-1", "a.b", "_u", "text", "and", "k", "node", "last"]


# =============================================================== generation

def default_feat(**kw):
    f = dict(when=True, must=False, defaults=True, choice=True, augment=True, state=True, leafref=False, iid=False,
             unique=False, any=True, ops=False, kinds=None, typedefs=20, maxdepth=3, maxmods=3, size=10, user=True,
             card=True, mand=True, uses=True, presence=True)
    f.update(kw)
    return f


class Gen:
    def __init__(self, d: D, feat):
        self.d, self.f = d, feat
        nm = d.weighted([(3, 1), (4, 2), (3, 3)]) if feat["maxmods"] >= 3 else (d.int(1, feat["maxmods"]))
        self.model = {"mods": ["ma", "mb", "mc"][:nm], "idents": [], "tree": [], "ops": []}
        self.ctx = {"mods": self.model["mods"], "idents": self.model["idents"], "maxmod": 0}
        self.nmod = nm
        self.counter = 0
        self.budget = feat["size"]
        if d.p(60):
            self.gen_idents()

    def gen_idents(self):
        d = self.d
        for i in range(d.int(1, 6)):
            mod = d.int(0, self.nmod - 1)
            cands = [j for j, x in enumerate(self.model["idents"]) if x["mod"] <= mod]
            bases = d.sample(cands, d.weighted([(2, 0), (5, 1), (2, 2)])) if cands else []
            nm = d.choice(["idA", "idB", "idC", "idD"]) if d.p(30) else f"id{i}"
            if any(x["name"] == nm and x["mod"] == mod for x in self.model["idents"]):
                nm = f"id{i}"
            self.model["idents"].append({"name": nm, "mod": mod, "bases": sorted(bases)})

    def fresh(self, p):
        self.counter += 1
        return f"{p}{self.counter}"

    def name(self, used, ns):
        for _ in range(6):
            n = self.d.choice(NAMES)
            if (n, ns) not in used:
                break
        else:
            n = self.fresh("n")
        if (n, ns) in used:
            n = self.fresh("n")
        used.add((n, ns))
        return n

    def gen(self):
        d = self.d
        used = set()
        top = []
        n = d.int(1, 4)
        for _ in range(n):
            ns = d.int(0, self.nmod - 1)
            top += self.gen_node(ns, used, 0, True, [], top=True)
        if not any(t["kind"] in INNER for t in top):
            top.append(self.gen_inner(d.int(0, self.nmod - 1), used, 0, True, [], "container"))
        self.model["tree"] = top
        if self.f["ops"]:
            self.gen_ops()
        self.post()
        return self.model

    # ---- nodes. scopes: list of [levels-up info] for when targets, innermost last: list of lists of switch nodes
    def gen_node(self, ns, used, depth, config, scopes, top=False, allow_choice=True, ingroup=False):
        """Returns a list with one node (or a group)."""
        d, f = self.d, self.f
        self.budget -= 1
        kinds = [(5, "leaf"), (3, "leaf-list")]
        if depth < f["maxdepth"] and self.budget > 0:
            kinds += [(6, "container"), (5, "list")]
            if f["choice"] and allow_choice:
                kinds.append((f.get("choice_w", 5) if scopes else 4, "choice"))
            if (f["uses"] or f["augment"] and not ingroup) and not top:
                kinds.append((3, "group"))
        if f["any"]:
            kinds += [(1, "anydata"), (1, "anyxml")]
        k = d.weighted(kinds)
        if k == "leaf":
            return [self.gen_leaf(ns, used, config, scopes)]
        if k == "leaf-list":
            return [self.gen_leaflist(ns, used, config, scopes)]
        if k in INNER:
            return [self.gen_inner(ns, used, depth, config, scopes, k)]
        if k == "choice":
            return [self.gen_choice(ns, used, depth, config, scopes)]
        if k == "group":
            return [self.gen_group(ns, used, depth, config, scopes, ingroup)]
        n = {"kind": k, "name": self.name(used, ns), "ns": ns}
        if f["mand"] and d.p(15):
            n["mandatory"] = True
        self.common(n, config, scopes)
        return [n]

    def common(self, n, config, scopes, when_p=18):
        d, f = self.d, self.f
        if f["when"] and scopes and d.p(when_p):
            w = self.gen_when(n["ns"], scopes)
            if w:
                n["when"] = w
        if f["state"] and config and n["kind"] not in ("case",) and d.p(12) and not n.get("nostate"):
            n["config"] = False
        n.pop("nostate", None)

    def gen_leaf(self, ns, used, config, scopes):
        d, f = self.d, self.f
        n = {"kind": "leaf", "name": self.name(used, ns), "ns": ns}
        n["type"] = self.gen_type(ns)
        if f["mand"] and d.p(18):
            n["mandatory"] = True
        elif f["defaults"] and d.p(30):
            v = self.gen_default(n["type"], ns, "abc 19.-/'\"\\:")
            if v is not None:
                n["default"] = v[0]
        if d.p(10):
            n["units"] = d.choice(["s", "m/s", "furlong per \"fortnight\""])
        self.common(n, config, scopes)
        return n

    def gen_leaflist(self, ns, used, config, scopes):
        d, f = self.d, self.f
        n = {"kind": "leaf-list", "name": self.name(used, ns), "ns": ns, "type": self.gen_type(ns)}
        self.card(n)
        if f["user"] and d.p(30):
            n["user"] = True
        if f["defaults"] and not n.get("min") and d.p(25):
            vals, seen = [], set()
            for _ in range(d.int(1, 3)):
                v = self.gen_default(n["type"], ns, "abc 19.-/:")
                if v is not None:
                    c = json.dumps(rt.accept(n["type"], v[0], self.ctx, ns))
                    if c not in seen:
                        seen.add(c)
                        vals.append(v[0])
            if n.get("max"):
                vals = vals[:n["max"]]
            if vals:
                n["defaults"] = vals
        self.common(n, config, scopes)
        return n

    def card(self, n):
        d, f = self.d, self.f
        if f["card"]:
            if d.p(20):
                n["min"] = d.int(1, 2)
            if d.p(25):
                n["max"] = max(n.get("min", 1), d.int(1, 4))

    def gen_type(self, ns):
        self.ctx["maxmod"] = ns
        for _ in range(5):
            T = rt.gen_type(self.d, self.ctx, kinds=self.f["kinds"], typedef_p=self.f["typedefs"])
            if rt.min_mod(T, self.ctx) <= ns and rt.gen_valid(self.d, T, self.ctx, ns) is not None:
                t = T
                while t["t"] == "use":
                    td = t["of"]
                    if self.f["defaults"] and self.d.p(30):
                        v = self.gen_default(T, td["mod"], "abc19")
                        if v is not None:
                            c = rt.accept(T, v[0], self.ctx, td["mod"])
                            td["default"] = f"{c[1]}:{c[2]}" if c[0] == "idref" else v[0]
                    if self.d.p(15):
                        td["units"] = self.d.choice(["s", "km", "m/s"])
                    t = td["base"]
                return T
        return {"t": "string"}

    def gen_default(self, T, ns, txt):
        """Value for a default statement in module ns, which has to be able to name it."""
        v = rt.gen_valid(self.d, T, self.ctx, ns, txt=txt)
        if v is not None:
            c = rt.accept(T, v[0], self.ctx, ns)
            if c[0] == "idref" and self.model["mods"].index(c[1]) > ns:
                return None
            from .typed import accept_text
            try:
                if accept_text(T, rt.canon(c), self.ctx, ns) != c:
                    return None        # the text of the default would select another member of the union
            except (rt.Reject, Skip):
                return None
        return v

    def switch(self, ns, used):
        """A leaf that conditions refer to: no condition of its own, small value space."""
        d = self.d
        T = d.choice([{"t": "boolean"}, {"t": "enumeration", "enums": [["x", None], ["y", None]]},
                      {"t": "uint8", "range": {"parts": [[0, 3]], "txt": "0..3"}}, {"t": "string"}])
        n = {"kind": "leaf", "name": self.name(used, ns), "ns": ns, "type": T, "switch": True}
        if self.f["defaults"] and d.p(40):
            n["default"] = self.switch_val(T)
        return n

    def switch_val(self, T):
        d = self.d
        return {"boolean": lambda: d.p(50), "enumeration": lambda: d.choice(["x", "y"]), "uint8": lambda: d.int(0, 3),
                "string": lambda: d.choice(["x", "y", "x y", "'"])}[T["t"]]()

    def gen_when(self, ns, scopes, must=False):
        """AST over switch leafs visible from here; scopes[-1] = parent's switches (one '..' away)."""
        d = self.d
        cands = []
        for up, sc in enumerate(reversed(scopes)):
            for s in sc["switches"]:
                if s["ns"] <= ns:
                    cands.append((up + 1, s))
        if not cands:
            return None

        def atom():
            up, s = d.choice(cands)
            return ["swref", up, s["ns"], s["name"], self.sw_test(s)]
        e = atom()
        k = d.int(0, 9)
        if k == 1:
            e = ["fn", "not", [e]]
        elif k == 2:
            e = ["bin", d.choice(["and", "or"]), e, atom()]
        return e

    def sw_test(self, s):
        d = self.d
        k = d.int(0, 5)
        v = self.switch_val(s["type"])
        sv = v if isinstance(v, str) else json.dumps(v)
        if k == 0:
            return ["exists"]
        if k <= 3:
            return ["eq", sv]
        if k == 4:
            return ["ne", sv]
        if s["type"]["t"] == "uint8":
            return ["cmp", d.choice(["<", ">=", ">"]), str(v)]
        return ["eq", sv]

    def gen_inner(self, ns, used, depth, config, scopes, kind):
        d, f = self.d, self.f
        n = {"kind": kind, "name": self.name(used, ns), "ns": ns}
        kids = []
        mine = set()
        self.common(n, config, scopes)
        cfg = config and n.get("config") is not False
        sc = {"switches": []}
        if kind == "container":
            if f["presence"] and d.p(30):
                n["presence"] = True
        else:
            if cfg or d.p(60):
                nk = d.weighted([(6, 1), (3, 2)])
                n["keys"] = []
                for _ in range(nk):
                    kn = {"kind": "leaf", "name": self.name(mine, ns), "ns": ns, "type": self.key_type(ns)}
                    kids.append(kn)
                    n["keys"].append(kn["name"])
            self.card(n)
            if f["user"] and d.p(30):
                n["user"] = True
        if f["when"] and d.p(60):
            s = self.switch(ns, mine)
            sc["switches"].append(s)
            kids.append(s)
        inner_scopes = scopes + [sc]
        for _ in range(d.int(0 if kids else 1, 4)):
            if self.budget <= 0 and kids:
                break
            cns = d.int(ns, self.nmod - 1) if f["augment"] and d.p(30) else ns
            kids += self.gen_node(cns, mine, depth + 1, cfg, inner_scopes)
        n["children"] = self.mix(kids, n)
        if kind == "list" and f["unique"] and d.p(60):
            self.gen_unique(n)
        return n

    def mix(self, kids, n):
        return self.d.shuffle(kids) if self.d.p(30) else kids

    def key_type(self, ns):
        d = self.d
        self.ctx["maxmod"] = ns
        kinds = self.f.get("key_kinds") or [(6, "string"), (3, "uint8"), (2, "int64"), (2, "enumeration"), (1, "boolean"), (1, "decimal64"),
                                            (1, "bits"), (1, "binary"), (1, "identityref"), (1, "union")]
        for _ in range(4):
            T = rt.gen_type(d, self.ctx, kinds=kinds, typedef_p=15)
            if rt.min_mod(T, self.ctx) <= ns and rt.gen_valid(d, T, self.ctx, ns) is not None:
                return T
        return {"t": "string"}

    def gen_unique(self, n):
        d = self.d
        cands = []

        def walk(kids, pfx):
            for c in kids:
                if c["kind"] == "leaf" and c["ns"] == n["ns"]:
                    cands.append(pfx + [[c["ns"], c["name"]]])
                elif c["kind"] == "container" and c["ns"] == n["ns"] and len(pfx) < 2:
                    walk(c["children"], pfx + [[c["ns"], c["name"]]])
        walk([c for c in n["children"] if c["name"] not in n.get("keys", ())], [])
        if cands:
            n["unique"] = [d.sample(cands, d.weighted([(3, 1), (2, 2)])) for _ in range(d.weighted([(4, 1), (1, 2)]))]

    def gen_choice(self, ns, used, depth, config, scopes):
        d, f = self.d, self.f
        n = {"kind": "choice", "name": self.fresh("ch"), "ns": ns}
        n["nostate"] = True
        self.common(n, config, scopes, when_p=12)
        mand = f["mand"] and d.p(20)
        cases = []
        for _ in range(d.weighted([(1, 1), (5, 2), (3, 3)])):
            cases.append(self.gen_case(ns, used, depth, config, scopes, mand))
        n["cases"] = cases
        n["children"] = n.pop("cases")
        if mand:
            n["mandatory"] = True
        elif f["defaults"] and d.p(35):
            c = d.choice(cases)
            if not self.has_mand(c["children"]):
                n["default"] = c["name"]
        for _ in range(d.int(1, 2) if f["augment"] and d.p(f.get("choice_aug", 20)) else 0):
            ans = d.int(ns, self.nmod - 1)
            g = {"kind": "group", "name": self.fresh("g"), "via": "augment", "ns": ans,
                 "children": [self.gen_case(ans, used, depth, config, scopes, mand) for _ in range(d.weighted([(2, 1), (2, 2)]))]}
            if f["when"] and scopes and d.p(65):
                w = self.gen_when(ans, self.outer(scopes), True)
                if w:
                    g["when"] = w
            n["children"].append(g)
        return n

    def outer(self, scopes):
        return scopes

    def gen_case(self, ns, used, depth, config, scopes, mand):
        d, f = self.d, self.f
        save = f["state"]
        if mand:
            f["state"] = False
        kids = []
        for _ in range(d.weighted([(5, 1), (4, 2)])):
            kids += self.gen_node(ns, used, depth + 1, config, scopes, allow_choice=depth < 2)
        f["state"] = save
        c = {"kind": "case", "ns": ns, "children": kids}
        if len(kids) == 1 and kids[0]["kind"] in DATA and d.p(50):
            c["short"] = True
            c["name"] = kids[0]["name"]
        else:
            c["name"] = self.fresh("cs")
            if f["when"] and scopes and d.p(15):
                w = self.gen_when(ns, scopes)
                if w:
                    c["when"] = w
        return c

    def has_mand(self, kids):
        for c in kids:
            if c.get("mandatory") or c.get("min"):
                return True
            if c["kind"] in ("container", "group", "case", "choice") and not c.get("presence") and self.has_mand(c["children"]):
                return True
        return False

    def gen_group(self, ns, used, depth, config, scopes, ingroup=False):
        d, f = self.d, self.f
        # an augment directly inside another group would have the outer node as its target and escape the group's "when"
        via = d.choice((["uses"] if f["uses"] else []) + (["augment"] if f["augment"] and not ingroup else []))
        g = {"kind": "group", "name": self.fresh("g"), "via": via, "ns": ns, "children": []}
        if f["when"] and scopes and d.p(60):
            w = self.gen_when(ns, scopes, True)
            if w:
                g["when"] = w
        for _ in range(d.int(1, 3)):
            g["children"] += self.gen_node(ns, used, depth + 1, config, scopes, allow_choice=True, ingroup=True)
        return g

    def gen_ops(self):
        d = self.d
        ops = []
        for _ in range(d.int(0, 2)):
            ns = d.int(0, self.nmod - 1)
            self.budget = max(self.budget, 6)
            ops.append(self.gen_rpc("rpc", ns))
        for _ in range(d.int(0, 2)):
            ns = d.int(0, self.nmod - 1)
            self.budget = max(self.budget, 4)
            used = set()
            n = {"kind": "notification", "name": self.fresh("ntf"), "ns": ns, "children": []}
            for _ in range(d.int(0, 3)):
                n["children"] += self.gen_node(ns, used, 2, False, [])
            ops.append(n)
        self.model["ops"] = ops

    def gen_rpc(self, kind, ns):
        d = self.d
        n = {"kind": kind, "name": self.fresh("rpc"), "ns": ns, "input": [], "output": []}
        for part in ("input", "output"):
            used = set()
            for _ in range(d.int(0, 3)):
                n[part] += self.gen_node(ns, used, 2, False, [])
        return n

    # ---- second phase: must expressions, leafrefs
    def post(self):
        m = Model(self.model)
        if self.f["leafref"]:
            self.add_leafrefs(m)
        if self.f["iid"]:
            self.add_iids(m)
        if self.f["must"]:
            self.add_musts(m)

    def add_leafrefs(self, m):
        d = self.d
        leaves = [s for s in m.all_data() if s.kind in ("leaf", "leaf-list") and rt.builtin_of(s.j["type"])["t"] not in ("leafref", "instance-identifier")]
        inner = [s for s in m.all_data() if s.kind in INNER]
        for _ in range(d.int(1, 3)):
            if not leaves or not inner:
                return
            P, tgt = d.choice(inner), d.choice(leaves)
            # module of the new leaf must be able to name everything on the path
            lo = max([P.ns] + [a.ns for a in tgt.dchain()])
            ns = d.int(lo, self.nmod - 1)
            used = {(x.name, x.ns) for x, _ in P.data_children()} | {(x["name"], x["ns"]) for x in P.j["children"]}
            rel = path_between(P, tgt, d)
            T = {"t": "leafref", "path": rel, "tgt": [list(x) for x in tgt.dpath()]}
            if d.p(30):
                T["require"] = d.p(40)
            self.add_via(T, lo, ns)
            kind = "leaf-list" if d.p(30) else "leaf"
            n = {"kind": kind, "name": self.name(used, ns), "ns": ns, "type": T}
            if not P.config_eff():
                pass
            elif not tgt.config_eff():
                n["config"] = False
            P.j["children"].append(n)
            m.__init__(self.model)
            leaves = [s for s in m.all_data() if s.kind in ("leaf", "leaf-list") and rt.builtin_of(s.j["type"])["t"] not in ("leafref", "instance-identifier")]
            inner = [s for s in m.all_data() if s.kind in INNER]

    def add_iids(self, m):
        d = self.d
        inner = [s for s in m.all_data() if s.kind in INNER]
        if inner and d.p(70):
            P = d.choice(inner)
            used = {(x.name, x.ns) for x, _ in P.data_children()} | {(x["name"], x["ns"]) for x in P.j["children"]}
            T = {"t": "instance-identifier"}
            if d.p(40):
                T["require"] = d.p(50)
            v = self.iid_default(m, P.ns) if self.f["defaults"] and d.p(40) else None
            if v is not None:
                T["require"] = False        # the instance a default points to may not exist
            self.add_via(T, 0, P.ns)
            n = {"kind": "leaf-list" if d.p(30) else "leaf", "name": self.name(used, P.ns), "ns": P.ns, "type": T}
            if v is not None:
                n.update({"default": v} if n["kind"] == "leaf" else {"defaults": [v]})
            P.j["children"].append(n)

    def iid_default(self, m, ns):
        """Instance identifier of some instance a document may have, as yangson prints it (every name with its module)."""
        d = self.d
        tgts = [s for s in m.all_data() if all(a.ns <= ns for a in s.dchain()) and s.config_eff()]
        if not tgts:
            return None
        s = d.choice(tgts)
        out = ""
        for a in s.dchain():
            pre = self.model["mods"][a.ns] + ":"
            out += "/" + pre + a.name
            keys = []
            if a.kind == "list":
                if a is s and d.p(20):
                    continue
                if not a.j.get("keys") or d.p(20):
                    out += f"[{d.int(1, 3)}]"
                    continue
                keys = [(f"{pre}{k}", next(c for c, _ in a.data_children() if c.name == k and c.ns == a.ns)) for k in a.j["keys"]]
            elif a.kind == "leaf-list" and d.p(70):
                keys = [(".", a)]
            for k, c in keys:
                if rt.builtin_of(c.j["type"])["t"] in ("leafref", "instance-identifier", "union"):
                    return None
                v = rt.gen_valid(d, c.j["type"], self.ctx, c.ns, txt="abc 19.-/")
                q = None if v is None else quote_iid(rt.canon(rt.accept(c.j["type"], v[0], self.ctx, c.ns)))
                if q is None:
                    return None
                out += f"[{k}={q}]"
        return out

    def add_via(self, T, lo, hi):
        """Let the reference type be derived: the typedef may have its own require-instance, which the leaf restricts."""
        d = self.d
        if not self.f["typedefs"] or not d.p(35):
            return
        self.ctx["ntypedef"] = self.ctx.get("ntypedef", 0) + 1
        v = {"name": f"rt{self.ctx['ntypedef']}", "mod": d.int(lo, hi)}
        req = T.get("require", d.choice([None, None, True]))
        if req is not None:
            T["require"] = req
            v["t" if d.p(50) else "u"] = req
            if "u" in v and d.p(50):
                v["t"] = not req
        T["via"] = v

    def add_musts(self, m):
        d = self.d
        for s in list(m.all_data()):
            if d.p(30):
                s.j["must"] = [self.gen_must(m, s) for _ in range(d.weighted([(4, 1), (1, 2)]))]

    def gen_must(self, m, s):
        d = self.d
        r = {"x": gen_bool_expr(d, m, s, 1)}
        if d.p(40):
            r["msg"] = d.choice(rt.MSGS)
        if d.p(40):
            r["tag"] = d.choice(rt.TAGS)
        return r


def rel_targets(s):
    """Data nodes near s: [(steps, SN)] with steps a list of ('..') or (ns, name)."""
    res = []
    anc = [a for a in reversed(s.dchain()[:-1])]     # nearest data ancestor first
    for c, _ in (s.data_children() if s.kind in INNER else []):
        res.append(([[c.ns, c.name]], c))
        if c.kind in INNER:
            for cc, _ in c.data_children():
                res.append(([[c.ns, c.name], [cc.ns, cc.name]], cc))
    for up, a in enumerate(anc[:3]):
        for c, _ in a.data_children():
            res.append(([".."] * (up + 1) + [[c.ns, c.name]], c))
            if c.kind in INNER and c is not s:
                for cc, _ in c.data_children():
                    res.append(([".."] * (up + 1) + [[c.ns, c.name], [cc.ns, cc.name]], cc))
    return res


def gen_bool_expr(d, m, s, depth):
    """must-like condition AST at schema node s (names restricted to modules s's module can import)."""
    k = d.int(0, 11)
    if depth > 0 and k == 0:
        return ["fn", "not", [gen_bool_expr(d, m, s, depth - 1)]]
    if depth > 0 and k in (1, 2):
        return ["bin", d.choice(["and", "or"]), gen_bool_expr(d, m, s, depth - 1), gen_bool_expr(d, m, s, depth - 1)]
    cands = [(p, c) for p, c in rel_targets(s) if all(x == ".." or x[0] <= s.ns for x in p)]
    if s.kind in ("leaf", "leaf-list") and s.j["type"]["t"] not in ("leafref", "instance-identifier") and d.p(50):
        cands = [([], s)]
    if not cands:
        return ["bin", ">=", ["fn", "count", [["path", False, None, [["child", ["*"], []]]]]], ["num", "0"]]
    p, c = d.choice(cands)
    steps = [["parent", ["node"], []] if x == ".." else ["child", ["name", m.mods[x[0]] if x[0] != s.ns or d.p(50) else None, x[1]], []] for x in p]
    path = ["path", False, None, steps or [["self", ["node"], []]]]
    k = d.int(0, 7)
    if c.kind in ("list", "leaf-list") and k <= 3:
        return ["bin", d.choice(["<=", ">=", "=", "!=", "<", ">"]), ["fn", "count", [path]], ["num", str(d.int(0, 3))]]
    if c.kind in ("leaf", "leaf-list") and c.j["type"]["t"] not in ("leafref", "instance-identifier") and k >= 2:
        v = rt.gen_valid(d, c.j["type"], m.ctx, c.ns, txt="abcz09 .:")
        if v is not None:
            cooked = rt.accept(c.j["type"], v[0], m.ctx, c.ns)
            t = cooked[0]
            if t == "int" and abs(cooked[1]) < 2**53 and k >= 4 and rt.builtin_of(c.j["type"])["t"] != "union":
                return ["bin", d.choice(["=", "!=", "<", ">="]), path, ["num", str(cooked[1])] if cooked[1] >= 0 else ["neg", ["num", str(-cooked[1])]]]
            sv = rt.canon(cooked)
            if not ('"' in sv and "'" in sv) and "\\" not in sv and "\n" not in sv:
                return ["bin", d.choice(["=", "!=", "="]), path, ["str", sv]]
            return ["bin", "<=", ["fn", "string-length", [["fn", "string", [path]]]], ["num", str(len(sv))]] if c.kind == "leaf" else ["fn", "boolean", [path]]
    return d.choice([["fn", "boolean", [path]], ["fn", "not", [path]], ["bin", "or", path, ["fn", "false", []]]])


def path_between(P, tgt, d):
    """leafref path steps from a new child of P to tgt: [abs?, steps] using '..' counts."""
    tc = tgt.dchain()
    pc = P.dchain()
    if d.p(40):
        return {"abs": True, "steps": [[a.ns, a.name] for a in tc]}
    i = 0
    while i < len(pc) and i < len(tc) and pc[i] is tc[i]:
        i += 1
    if i == len(tc):
        i -= 1
    return {"abs": False, "ups": len(pc) - i + 1, "steps": [[a.ns, a.name] for a in tc[i:]]}


# =============================================================== schema model with parent links

class SN:
    def __init__(self, j, parent, model):
        self.j, self.parent, self.model = j, parent, model
        self.kind, self.name, self.ns = j["kind"], j.get("name"), j["ns"]
        self.kids = [SN(c, self, model) for c in j.get("children", ())]

    def __repr__(self):
        return f"<{self.kind} {self.name}>"

    @property
    def is_data(self):
        return self.kind in DATA

    def dparent(self):
        p = self.parent
        while p is not None and not p.is_data and p.kind not in ("root", "op"):
            p = p.parent
        return p

    def dchain(self):
        """Data ancestors from the top down to self (without the root)."""
        res = []
        n = self
        while n is not None and n.kind not in ("root", "op"):
            if n.is_data:
                res.append(n)
            n = n.parent
        res.reverse()
        return res

    def dpath(self):
        return [(n.ns, n.name) for n in self.dchain()]

    def config_eff(self):
        n = self
        while n is not None:
            if n.j.get("config") is False:
                return False
            n = n.parent
        return True

    def data_children(self):
        """[(data child, [enclosing group/choice/case nodes outermost first])]"""
        res = []

        def walk(kids, chain):
            for k in kids:
                if k.is_data:
                    res.append((k, chain))
                else:
                    walk(k.kids, chain + [k])
        walk(self.kids, [])
        return res

    def child(self, name, ns):
        for c, ch in self.data_children():
            if c.name == name and c.ns == ns:
                return c, ch
        return None, None

    def iname(self):
        p = self.dparent()
        if p is None or p.kind in ("root", "op") and p.ns != self.ns or p.ns != self.ns:
            return f"{self.model.mods[self.ns]}:{self.name}"
        return self.name

    def schema_path(self):
        """Schema nodes from the top to self that have names in schema node identifiers."""
        res = []
        n = self
        while n is not None and n.kind != "root":
            if n.kind == "op":
                res.append(n)
            elif n.kind != "group":
                res.append(n)
            n = n.parent
        res.reverse()
        return res


class Bad(Exception):
    def __init__(self, kind, path, **kw):
        self.kind, self.path, self.kw = kind, path, kw


class Model:
    """Reference semantics of a generated model."""

    def __init__(self, mj):
        self.j = mj
        self.mods = mj["mods"]
        self.ctx = {"mods": self.mods, "idents": mj["idents"]}
        self.root = SN({"kind": "root", "name": None, "ns": -1, "children": mj["tree"]}, None, self)
        self.ops = {}
        for o in mj.get("ops", ()):
            self.ops[(o["ns"], o["name"])] = o

    def all_data(self, frm=None):
        for c, _ in (frm or self.root).data_children():
            yield c
            if c.kind in INNER:
                yield from self.all_data(c)

    def op_node(self, o, part):
        """Schema root for the content of an rpc's input/output or of a notification."""
        kids = o["children"] if part is None else o[part]
        j = {"kind": "op", "name": o["name"], "ns": o["ns"], "children": kids, "config": False}
        return SN(j, None, self)

    # ---------------------------------------------------------- reference tree
    def build(self, raw, top=None, errors=None):
        """RN tree of raw data; raises Bad on unknown members/bad values, or collects into errors."""
        top = top or self.root
        rn = rx.RN("root", None, None, None, top)
        self._fill(rn, top, raw, (), errors)
        return rn

    def _err(self, errors, bad):
        if errors is None:
            raise bad
        errors.append(bad)

    def _fill(self, rn, sn, raw, path, errors):
        if not isinstance(raw, dict):
            return self._err(errors, Bad("rawtype", path))
        got = set()
        for key, val in raw.items():
            if key.startswith("@"):
                continue
            m, s, loc = key.partition(":")
            if not s:
                m, loc = (self.mods[sn.ns] if sn.ns >= 0 else None), key
            if m not in self.mods:
                self._err(errors, Bad("unknown", path + (key,)))
                continue
            c, chain = sn.child(loc, self.mods.index(m))
            if c is None:
                self._err(errors, Bad("unknown", path + (key,)))
                continue
            p = path + (c.iname(),)
            if c.iname() in got:
                raise Skip("one member under two names")
            got.add(c.iname())
            if val == [] and c.kind in ("list", "leaf-list") and (chain or "when" in c.j or "defaults" in c.j or not c.config_eff()):
                # whether an empty array makes its node present is not settled by the specifications
                if errors is not None:
                    errors.append(Bad("unsure", p))
                continue
            if c.kind == "container":
                k = self._node("cont", c, rn)
                self._fill(k, c, val, p, errors)
            elif c.kind == "list":
                if not isinstance(val, list):
                    self._err(errors, Bad("rawtype", p))
                    continue
                for i, e in enumerate(val):
                    k = self._node("entry", c, rn)
                    k.index = i
                    self._fill(k, c, e, p + (i,), errors)
            elif c.kind == "leaf":
                k = self._node("leaf", c, rn)
                self._leaf(k, c, val, p, errors)
            elif c.kind == "leaf-list":
                if not isinstance(val, list):
                    self._err(errors, Bad("rawtype", p))
                    continue
                for i, e in enumerate(val):
                    k = self._node("item", c, rn)
                    k.index = i
                    self._leaf(k, c, e, p + (i,), errors)
            else:
                k = self._node("any", c, rn)
                k.raw = val

    def _node(self, kind, c, parent):
        k = rx.RN(kind, c.name, self.mods[c.ns], parent, c)
        parent.children.append(k)
        return k

    def leaf_type(self, c):
        """Effective type of a leaf: leafrefs are followed."""
        T = c.j["type"]
        n = 0
        while T["t"] == "leafref":
            sn = self.root
            for ns, name in T["tgt"]:
                sn, _ = sn.child(name, ns)
            c, T = sn, sn.j["type"]
            n += 1
            if n > 20:
                raise HarnessError("leafref loop")
        return T, c

    def accept(self, c, raw):
        T, tc = self.leaf_type(c)
        if T["t"] == "instance-identifier":
            if not isinstance(raw, str):
                raise rt.Reject("raw")
            return ("iid", raw)
        # an unprefixed identity belongs to the module of the leaf the type is on
        return rt.accept(T, raw, self.ctx, tc.ns)

    def _leaf(self, k, c, val, path, errors):
        k.type = self.leaf_type(c)[0]
        try:
            k.val = self.accept(c, val)
        except rt.Reject as r:
            k.raw = val
            self._err(errors, Bad("rawtype" if r.stage == "raw" else "type", path, tag=r.tag, msg=r.msg))

    # ---------------------------------------------------------- conditions
    def env(self, mod):
        return rx.Env(self, self.mods[mod] if mod is not None else None)

    def cond(self, e, rn, mod):
        """Evaluate condition AST e (may contain swref) at rn."""
        return rx.to_bool(rx.evaluate(expand(e, self.mods), rn, self.env(mod)))

    def ctx_when(self, e, rn, mod):
        return self.cond(shift(e), rn, mod)

    def node_when(self, c, prn, rn=None):
        """Value of c's own when; context = the node itself (a dummy one if absent)."""
        w = c.j.get("when")
        if w is None:
            return True
        if rn is None:
            rn = rx.RN("leaf", c.name, self.mods[c.ns], prn, c)
        return self.cond(w, rn, c.ns)

    def wrap_when(self, g, prn):
        """when of a group, choice or case: evaluated with the parent data node as the context."""
        w = g.j.get("when")
        if w is None:
            return True
        return self.ctx_when(w, prn, g.ns)

    def deref(self, node):
        c = node.schema
        if node.kind not in ("leaf", "item"):
            return []
        T = c.j["type"]
        if T["t"] == "leafref":
            return [x for x in rx.evaluate(leafref_ast(T, self.mods), node, self.env(c.ns)).nodes if x.val is not None and x.val == node.val]
        if rt.builtin_of(T)["t"] == "instance-identifier":
            raise Skip("deref of instance-identifiers")
        if rt.builtin_of(T)["t"] == "union":
            raise Skip("deref of unions")
        return []

    def derives(self, ident, text, self_ok, env):
        m, s, n = text.partition(":")
        if not s:
            m, n = env.default_mod, m
        for i, x in enumerate(self.j["idents"]):
            if (self.mods[x["mod"]], x["name"]) == (m, n):
                return ident in rt.derived(self.ctx, i) or (self_ok and ident == (m, n))
        raise Skip("unknown identity")

    # ---------------------------------------------------------- defaults
    def leaf_defaults(self, c):
        """Raw default values of a leaf or leaf-list (list, possibly empty)."""
        if c.kind == "leaf":
            if c.j.get("mandatory") or self.is_key(c):
                return []
            if "default" in c.j:
                return [c.j["default"]]
        else:
            if c.j.get("min"):
                return []
            if "defaults" in c.j:
                return c.j["defaults"]
        T = c.j["type"]
        while T["t"] in ("typedef", "use"):
            if T["t"] == "typedef":
                if "default" in T:
                    return [T["default"]]
                T = T["base"]
            else:
                T = T["of"]
        return []

    def is_key(self, c):
        p = c.dparent()
        return p is not None and p.kind == "list" and c.name in p.j.get("keys", ()) and c.ns == p.ns

    def default_mod(self, c):
        """Module whose namespace an unprefixed identity in the default belongs to."""
        return c.ns

    def complete(self, rn, sn=None, cfg_only=False):
        """Add the defaults in use below rn (recursively), marking them."""
        sn = sn or rn.schema
        if rn.kind in ("leaf", "item", "any"):
            return
        present = {(c.name, c.ns) for c in rn.children}

        def plain(kids):
            for c in kids:
                if c.is_data and "when" not in c.j:
                    self._add_default(rn, c, present, cfg_only)
        plain(sn.kids)

        def walk(kids):
            for c in kids:
                if c.is_data:
                    if (c.name, self.mods[c.ns]) not in present and ("when" not in c.j or self.node_when(c, rn)):
                        self._add_default(rn, c, present, cfg_only)
                elif c.kind == "group":
                    if self.wrap_when(c, rn):
                        walk(c.kids)
                elif c.kind == "choice":
                    if cfg_only and not c.config_eff():
                        continue
                    if not self.wrap_when(c, rn):
                        continue
                    act = None
                    for cs in cases(c):
                        if any((x.name, self.mods[x.ns]) in given for x in case_data(cs)):
                            act = cs
                    if act is None and "default" in c.j:
                        act = next(x for x in cases(c) if x.name == c.j["default"] and x.ns == c.ns)
                    if act is not None and all(self.wrap_when(g, rn) for g in upto(act, c)) and self.wrap_when(act, rn):
                        walk(act.kids)
        given = {(x.name, x.ns) for x in rn.children if not x.default}
        walk(sn.kids)
        for c in rn.children:
            self.complete(c, c.schema, cfg_only)

    def _add_default(self, rn, c, present, cfg_only):
        key = (c.name, self.mods[c.ns])
        if key in present or (cfg_only and not c.config_eff()):
            return
        if c.kind == "container" and not c.j.get("presence"):
            k = self._node("cont", c, rn)
            k.default = True
            present.add(key)
        elif c.kind in ("leaf", "leaf-list"):
            vals = self.leaf_defaults(c)
            for i, v in enumerate(vals):
                k = self._node("leaf" if c.kind == "leaf" else "item", c, rn)
                if c.kind == "leaf-list":
                    k.index = i
                k.default = True
                k.type = self.leaf_type(c)[0]
                try:
                    k.val = self.accept(c, v)
                except rt.Reject as e:
                    raise HarnessError(f'default {v!r} of {c.j}: {e!r} {self.j}')
                present.add(key)

    # ---------------------------------------------------------- validation
    def violations(self, raw, ctype="config", top=None, tree=None):
        """All violations of a document, as Bad instances (structure and semantics)."""
        errors = []
        rn = self.build(raw, top, errors)
        if errors:
            return errors
        self.complete(rn)
        self._check(rn, rn.schema, (), ctype, errors)
        return errors

    def ctype_ok(self, c, ctype):
        return ctype == "all" or c.config_eff() or self.mixed(c)

    def mixed(self, c):
        """Inner nodes under config false are nonconfig; otherwise they carry both kinds."""
        return False

    def _check(self, rn, sn, path, ctype, errors):
        real = [c for c in rn.children if not c.default]
        names = {(c.name, c.ns) for c in real}

        def present(c):
            return (c.name, self.mods[c.ns]) in names

        def not_allowed(c):
            errors.append(Bad("notallowed", path, member=c.iname()))

        def content(kids):
            for c in kids:
                if c.is_data:
                    rnc = next((x for x in rn.children if (x.name, x.ns) == (c.name, self.mods[c.ns])), None)
                    act = self.node_when(c, rn, rnc if rnc is not None and rnc.kind != "zz" else None)
                    if present(c):
                        if not act or not self.ctype_ok(c, ctype):
                            not_allowed(c)
                    elif act and (ctype == "all" or c.config_eff()):
                        self._missing(c, rn, path, ctype, errors)
                elif c.kind == "group":
                    if self.wrap_when(c, rn):
                        content(c.kids)
                    else:
                        for x in case_data(c):
                            if present(x):
                                not_allowed(x)
                elif c.kind == "choice":
                    if not self.wrap_when(c, rn):
                        for x in case_data(c):
                            if present(x):
                                not_allowed(x)
                        continue
                    act = [cs for cs in cases(c) if any(present(x) for x in case_data(cs))]
                    if not act:
                        if c.j.get("mandatory") and c.j.get("status") != "deprecated" and (ctype == "all" or c.config_eff()):
                            errors.append(Bad("missing", path, member=c.name, choice=True))
                        continue
                    if len(act) > 1:
                        errors.append(Bad("cases", path, member=None, names=[x.iname() for cs in act for x in case_data(cs) if present(x)]))
                        continue
                    cs = act[0]
                    if all(self.wrap_when(g, rn) for g in upto(cs, c)) and self.wrap_when(cs, rn):
                        content(cs.kids)
                    else:
                        for x in case_data(cs):
                            if present(x):
                                not_allowed(x)
        content(sn.kids)
        if sn.kind == "list":
            for k in sn.j.get("keys", ()):
                if (k, self.mods[sn.ns]) not in names:
                    errors.append(Bad("keymissing", path, member=k))
        # children
        groups = {}
        for c in real:
            groups.setdefault((c.name, c.ns), []).append(c)
        for (name, ns), cs in groups.items():
            s = cs[0].schema
            p = path + (s.iname(),)
            if s.kind in ("list", "leaf-list"):
                if len(cs) < s.j.get("min", 0):
                    errors.append(Bad("few", p))
                if s.j.get("max") is not None and len(cs) > s.j["max"]:
                    errors.append(Bad("many", p))
                if s.kind == "leaf-list":
                    if s.config_eff() and len({json.dumps(x.val) for x in cs}) < len(cs):
                        errors.append(Bad("dupll", p))
                else:
                    self._list_checks(cs, s, p, errors)
            for c in cs:
                cp = p + ((c.index,) if c.index is not None else ())
                self._musts(c, s, cp, errors)
                if s.kind in ("leaf", "leaf-list"):
                    self._ref(c, s, cp, errors)
                if s.kind in INNER:
                    self._check(c, s, cp, ctype, errors)

    def _missing(self, c, rn, path, ctype, errors):
        if c.j.get("status") == "deprecated":
            return      # may be missing even if it is mandatory
        if c.j.get("mandatory") or c.j.get("min"):
            errors.append(Bad("missing", path, member=c.iname()))
        elif self.is_key(c):
            errors.append(Bad("missing", path, member=c.iname()))
        elif c.kind == "container" and not c.j.get("presence"):
            # an absent non-presence container counts as existing: its mandatory content is required
            virt = next((x for x in rn.children if x.schema is c), None)
            if virt is None:
                virt = rx.RN("cont", c.name, self.mods[c.ns], rn, c)
            sub = []
            self._check(virt, c, path + (c.iname(),), ctype, sub)
            req = [b for b in sub if b.kind == "missing"]
            if bool(req) != bool(self.static_required(c, ctype)) or not req and any(b.kind == "unsure" for b in sub):
                errors.append(Bad("unsure", path, member=c.iname()))
            elif req:
                errors.append(Bad("missing", path, member=c.iname()))

    def static_required(self, c, ctype):
        """Mandatory content regardless of conditions (only outside choices and groups)."""
        for k in c.kids:
            if k.kind == "group":
                if "when" not in k.j and self.static_required(k, ctype):
                    return True
                continue
            if ctype != "all" and not k.config_eff() or k.j.get("status") == "deprecated":
                continue
            if k.j.get("mandatory") or k.j.get("min"):
                return True
            if k.kind == "container" and not k.j.get("presence") and self.static_required(k, ctype):
                return True
        return False

    def _list_checks(self, cs, s, p, errors):
        keys = s.j.get("keys", ())
        if keys:
            seen = set()
            for e in cs:
                kv = []
                for k in keys:
                    kn = [x for x in e.children if x.name == k and x.ns == self.mods[s.ns]]
                    kv.append(json.dumps(kn[0].val) if kn else None)
                if None in kv:
                    continue
                if tuple(kv) in seen:
                    errors.append(Bad("dupkey", p))
                seen.add(tuple(kv))
        for u in s.j.get("unique", ()):
            seen = set()
            for e in cs:
                vals = []
                for path in u:
                    cur = [e]
                    for ns, name in path:
                        cur = [x for n in cur for x in n.children if x.name == name and x.ns == self.mods[ns]]
                    vals.append(json.dumps(cur[0].val) if cur else None)
                if None in vals:
                    continue
                if tuple(vals) in seen:
                    errors.append(Bad("unique", p))
                seen.add(tuple(vals))

    def _musts(self, c, s, p, errors):
        for m in s.j.get("must", ()):
            if not self.cond(m["x"], c, s.ns):
                errors.append(Bad("must", p, tag=m.get("tag"), msg=m.get("msg")))

    def _ref(self, c, s, p, errors):
        T = s.j["type"]
        if T["t"] == "leafref" and T.get("require") is not False:
            if not self.deref(c):
                errors.append(Bad("ref", p))
        elif T["t"] == "instance-identifier" and T.get("require") is not False:
            if find_iid(self, c.root(), c.val[1]) is None:
                errors.append(Bad("ref", p))


def cases(choice):
    res = []
    for c in choice.kids:
        if c.kind == "case":
            res.append(c)
        else:
            res += cases(c)
    return res


def upto(case, choice):
    """Groups between a case and its choice."""
    res = []
    n = case.parent
    while n is not choice:
        res.append(n)
        n = n.parent
    return res


def case_data(n):
    return [c for c, _ in n.data_children()]


def expand(e, mods):
    """Replace swref atoms by plain XPath ASTs."""
    if e[0] == "swref":
        _, up, ns, name, test = e
        steps = [["parent", ["node"], []]] * up + [["child", ["name", mods[ns], name], []]]
        path = ["path", False, None, steps]
        if test[0] == "exists":
            return path
        if test[0] == "eq":
            return ["bin", "=", path, ["str", test[1]]]
        if test[0] == "ne":
            return ["bin", "!=", path, ["str", test[1]]]
        return ["bin", test[1], path, ["num", test[2]]]
    if e[0] == "fn":
        return ["fn", e[1], [expand(a, mods) for a in e[2]]]
    if e[0] == "bin":
        return ["bin", e[1], expand(e[2], mods), expand(e[3], mods)]
    return e


def shift(e):
    """Same condition seen from the parent data node (one '..' less)."""
    if e[0] == "swref":
        return ["swref", e[1] - 1] + e[2:]
    if e[0] == "fn":
        return ["fn", e[1], [shift(a) for a in e[2]]]
    if e[0] == "bin":
        return ["bin", e[1], shift(e[2]), shift(e[3])]
    return e


def leafref_ast(T, mods):
    p = T["path"]
    steps = [["child", ["name", mods[ns], name], []] for ns, name in p["steps"]]
    if p["abs"]:
        return ["path", True, None, steps]
    return ["path", False, None, [["parent", ["node"], []]] * p["ups"] + steps]


def parse_iid(text):
    """[(name text, [('idx', n)|('val', s)|('key', name, s)...])...] or None."""
    import re
    res, i = [], 0
    if text == "/":
        return []
    while i < len(text):
        m = re.compile(r"/([A-Za-z_][\w.-]*(?::[A-Za-z_][\w.-]*)?)").match(text, i)
        if not m:
            return None
        name, i = m.group(1), m.end()
        preds = []
        while i < len(text) and text[i] == "[":
            m = re.compile(r"\[\s*(?:([0-9]+)\s*|(\.|[A-Za-z_][\w.-]*(?::[A-Za-z_][\w.-]*)?)\s*=\s*(?:\"([^\"]*)\"|'([^']*)')\s*)\]").match(text, i)
            if not m:
                return None
            i = m.end()
            if m.group(1):
                preds.append(("idx", int(m.group(1))))
            else:
                v = m.group(3) if m.group(3) is not None else m.group(4)
                preds.append(("val", v) if m.group(2) == "." else ("key", m.group(2), v))
        res.append((name, preds))
    return res


def reads_as(model, n, text):
    """Does the text in a predicate stand for the value of the node?"""
    from .typed import accept_text
    if rt.canon(n.val) != text:
        return False
    T, c = model.leaf_type(n.schema)
    if rt.builtin_of(T)["t"] == "union":
        try:
            same = accept_text(T, text, model.ctx, c.ns) == n.val
        except rt.Reject:
            same = False
        if not same:
            raise Skip("text of a union value that another member type reads")
    return True


def find_iid(model, root, text):
    p = parse_iid(text)
    if p is None:
        return None
    cur, ns = root, None
    for name, preds in p:
        m, s, loc = name.partition(":")
        if s:
            ns = m
        else:
            loc = name
        cand = [c for c in cur.children if c.name == loc and c.ns == ns and not c.default]
        for pr in preds:
            if pr[0] == "idx":
                cand = [c for c in cand if c.index == pr[1] - 1]
            elif pr[0] == "val":
                cand = [c for c in cand if reads_as(model, c, pr[1])]
            else:
                km, ks, kl = pr[1].partition(":")
                kn = kl if ks else km
                cand = [c for c in cand if any(x.name == kn and x.val is not None and reads_as(model, x, pr[2]) for x in c.children)]
        if not cand:
            return None
        if len(cand) > 1 and (name, preds) != p[-1]:
            raise Skip("ambiguous instance identifier")
        cur = cand[0]
    return cur


# =============================================================== emission as YANG

class Emitter:
    def __init__(self, mj):
        self.j = mj
        self.mods = mj["mods"]
        n = len(self.mods)
        self.imports = [set() for _ in range(n)]
        self.defs = [[] for _ in range(n)]
        self.body = [[] for _ in range(n)]
        self.augs = []
        self.td = set()
        self.model = Model(mj)
        self.rev = {}
        self.pmap = {}      # (module, imported or own module): prefix

    def pre(self, frm, to):
        """Prefix of module number to in the text of module number frm."""
        return self.pmap.get((frm, to)) or ("p" if frm == to else "x") + self.mods[to]

    def own_prefix(self, i):
        return self.pre(i, i)

    def prefix(self, frm, to):
        if frm == to:
            return self.own_prefix(to)
        if to > frm:
            raise HarnessError(f"module {frm} would have to import {to}")
        self.imports[frm].add(to)
        return self.pre(frm, to)

    def ident_ref(self, mod, bi):
        i = self.j["idents"][bi]
        return i["name"] if i["mod"] == mod else self.prefix(mod, i["mod"]) + ":" + i["name"]

    def add_typedef(self, td):
        key = (td["mod"], td["name"])
        if key in self.td:
            return
        self.td.add(key)
        s = f"typedef {td['name']} {{ {rt.type_stmt(td['base'], td['mod'], self)}"
        if "default" in td:
            s += f" default {rt.q(self.def_text(td['base'], td['default'], td['mod'], td['mod']))};"
        if "units" in td:
            s += f" units {rt.q(td['units'])};"
        self.defs[td["mod"]].append(s + " }")

    def def_text(self, T, raw, mod, ns):
        """Text of a default value in module mod (identities use the module's prefixes)."""
        if T["t"] == "instance-identifier":
            out = ""
            for name, preds in parse_iid(raw):
                def pre(x):
                    m, _, loc = x.partition(":")
                    return self.prefix(mod, self.mods.index(m)) + ":" + loc
                out += "/" + pre(name)
                for x in preds:
                    out += f"[{x[1]}]" if x[0] == "idx" else f"[.={quote_iid(x[1])}]" if x[0] == "val" else f"[{pre(x[1])} = {quote_iid(x[2])}]"
            return out
        v = rt.accept(T, raw, self.model.ctx, ns)
        if v[0] == "idref":
            m = self.mods.index(v[1])
            return v[2] if m == mod else self.prefix(mod, m) + ":" + v[2]
        if isinstance(raw, str) and v[0] in ("int", "dec"):
            return raw
        return rt.canon(v)

    def pfx(self, mod):
        def f(m, local):
            return local if m is None else self.prefix(mod, self.mods.index(m)) + ":" + local
        return f

    def xp(self, e, mod, own_bare=False):
        return rx.text(expand(e, self.mods), self.pfx(mod))

    # ---- statements
    def run(self):
        for i in self.j["idents"]:
            k = self.j["idents"].index(i)
            s = f"identity {i['name']}"
            if i["bases"]:
                s += " { " + " ".join(f"base {self.ident_ref(i['mod'], b)};" for b in i["bases"]) + " }"
            else:
                s += ";"
            self.defs[i["mod"]].append(s)
        for n in self.model.root.kids:
            if n.kind == "group":
                raise HarnessError("group at top level")
            self.body[n.ns].append(self.stmt(n))
        for o in self.j.get("ops", ()):
            self.body[o["ns"]].append(self.op_stmt(o))
        self.augs.sort(key=lambda a: a[0])
        for _, mod, s in self.augs:
            self.body[mod].append(s)
        return self

    def op_stmt(self, o):
        if o["kind"] == "notification":
            sn = self.model.op_node(o, None)
            return f"notification {o['name']} {{ {self.kids(sn, o['ns'])} }}"
        parts = []
        for part in ("input", "output"):
            if o[part]:
                sn = self.model.op_node(o, part)
                sn.j["part"] = part
                parts.append(f"{part} {{ {self.kids(sn, o['ns'])} }}")
        return f"rpc {o['name']} {{ {' '.join(parts)} }}"

    def target_path(self, sn, mod):
        res = ""
        for n in sn.schema_path():
            res += "/" + self.prefix(mod, n.ns) + ":" + n.name
            if n.kind == "op" and n.j.get("part"):
                res += "/" + self.prefix(mod, n.ns) + ":" + n.j["part"]
        return res

    def kids(self, sn, mod, tgt=None):
        """Inline text of sn's children in module mod; the others become augments of tgt (default sn)."""
        tgt = tgt or sn
        out = []
        for c in sn.kids:
            if c.kind == "group":
                if c.j["via"] == "uses" and c.ns == mod:
                    g = f"gr-{c.name}"
                    stt = f"status {c.j['status']}; " if "status" in c.j else ""
                    self.defs[mod].append(f"grouping {g} {{ {stt}{self.kids(c, mod, tgt)} }}")
                    out.append(f"uses {g}" + (f" {{ when {rt.q(self.xp(shift(c.j['when']), mod))}; }}" if "when" in c.j else ";"))
                else:
                    self.augment(tgt, c.ns, c, self.kids(c, c.ns, tgt))
            elif c.ns != mod:
                self.augment(tgt, c.ns, None, self.stmt(c))
            else:
                out.append(self.stmt(c))
        return " ".join(out)

    def augment(self, tgt, mod, group, text):
        w = ""
        if group is not None and "when" in group.j:
            w = f"when {rt.q(self.xp(shift(group.j['when']), mod))}; "
        if group is not None and "status" in group.j:
            w += f"status {group.j['status']}; "
        path = self.target_path(tgt, mod)
        self.augs.append((len(tgt.schema_path()), mod, f"augment {rt.q(path)} {{ {w}{text} }}"))

    def stmt(self, n):
        mod, j = n.ns, n.j
        if n.kind == "case" and j.get("short"):
            return self.stmt(n.kids[0])
        out = []
        if "when" in j:
            w = j["when"] if n.is_data else shift(j["when"])
            out.append(f"when {rt.q(self.xp(w, mod))};")
        for m in j.get("must", ()):
            out.append(f"must {rt.q(self.xp(m['x'], mod))}{rt.errinfo_text(m)}")
        if j.get("config") is False:
            out.append("config false;")
        if j.get("presence"):
            out.append('presence "yes";')
        if n.kind == "list":
            if j.get("keys"):
                out.append(f"key {rt.q(' '.join(j['keys']))};")
            for u in j.get("unique", ()):
                out.append("unique " + rt.q(" ".join("/".join((self.prefix(mod, ns) + ":" if ns != mod else "") + nm for ns, nm in p) for p in u)) + ";")
        if n.kind in ("leaf", "leaf-list"):
            T = j["type"]
            if T["t"] == "leafref":
                T = dict(T, path_text=lambda mo, T=T: self.xp(leafref_ast(T, self.mods), mo))
            out.append(rt.type_stmt(T, mod, self))
            if "default" in j:
                out.append(f"default {rt.q(self.def_text(j['type'], j['default'], mod, mod))};")
            for v in j.get("defaults", ()):
                out.append(f"default {rt.q(self.def_text(j['type'], v, mod, mod))};")
            if "units" in j:
                out.append(f"units {rt.q(j['units'])};")
        if n.kind == "choice" and "default" in j:
            out.append(f"default {j['default']};")
        if "status" in j:
            out.append(f"status {j['status']};")
        if "deny" in j:
            out.append(f"nacm:default-deny-{j['deny']};")
        if "descr" in j:
            out.append(f"description {rt.q(j['descr'])};")
        if j.get("mandatory"):
            out.append("mandatory true;")
        if j.get("min"):
            out.append(f"min-elements {j['min']};")
        if j.get("max") is not None:
            out.append(f"max-elements {j['max']};")
        if j.get("user"):
            out.append("ordered-by user;")
        if n.kids or n.kind in ("container", "list", "choice", "case"):
            out.append(self.kids(n, mod))
        return f"{n.kind} {n.name} {{ {' '.join(x for x in out if x)} }}"

    def texts(self, extra=None):
        """{module name: YANG text}; extra: {module index: [statements]}"""
        res = {}
        for i, m in enumerate(self.mods):
            s = f"module {m} {{\n  yang-version 1.1;\n  namespace \"{ns_uri(m)}\";\n  prefix {self.own_prefix(i)};\n"
            for t in sorted(self.imports[i]):
                s += f"  import {self.mods[t]} {{ prefix {self.pre(i, t)}; }}\n"
            if self.rev.get(i):
                s += f"  revision {self.rev[i]};\n"
            for x in (extra or {}).get(i, []) + self.defs[i] + self.body[i]:
                s += "  " + x + "\n"
            res[m] = s + "}\n"
        return res


def ns_uri(m):
    return f"urn:x:{m}"


def yang_library(mods, revs=None, features=None, conf=None, subs=None, extra=None):
    ml = []
    for m in mods:
        e = {"name": m, "revision": (revs or {}).get(m, ""), "namespace": ns_uri(m),
             "conformance-type": (conf or {}).get(m, "implement")}
        if features and features.get(m):
            e["feature"] = list(features[m])
        if subs and subs.get(m):
            e["submodule"] = subs[m]
        ml.append(e)
    return json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "x", "module": ml + (extra or [])}})


class Workspace:
    """Scratch directory with generated module files."""

    def __init__(self, files):
        self.dir = tempfile.mkdtemp(prefix="vf-yang-")
        for name, text in files.items():
            with open(os.path.join(self.dir, name), "w", encoding="utf-8") as f:
                f.write(text)

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


_cache = {}


def load_xp(mj, exprs, mod):
    """(DataModel, texts of the expressions in the scope of module index mod)."""
    from yangson import DataModel
    em = Emitter(mj).run()
    out = [rx.text(e, em.pfx(mod)) for e in exprs]
    with Workspace({f"{m}.yang": t for m, t in em.texts().items()}) as d:
        return DataModel(yang_library(mj["mods"]), (d,)), out


def load(mj, extra=None, fresh=False):
    """Build the yangson DataModel of a generated model (cached per model text)."""
    from yangson import DataModel
    key = json.dumps([mj, {str(k): v for k, v in (extra or {}).items()}], sort_keys=True)
    if not fresh and key in _cache:
        return _cache[key]
    em = Emitter(mj).run()
    texts = em.texts(extra)
    with Workspace({f"{m}.yang": t for m, t in texts.items()}) as d:
        dm = DataModel(yang_library(mj["mods"]), (d,))
    if not fresh:
        _cache.clear()
        _cache[key] = dm
    return dm


# =============================================================== instance documents

class DataGen:
    def __init__(self, d: D, model: Model, ctype="config", density=70, maxlist=3, txt=rt.TXT):
        self.d, self.m, self.ctype, self.density, self.maxlist, self.txt = d, model, ctype, density, maxlist, txt
        self.budget = 60

    def doc(self, top=None, allow=()):
        """Structurally valid raw document (conditions enforced by removing what they forbid), or None."""
        top = top or self.m.root
        raw = self.obj(top)
        self.fix_refs(raw, top)
        return self.prune(raw, top, allow)

    def prune(self, raw, top, allow=()):
        for _ in range(6):
            try:
                v = self.m.violations(raw, self.ctype, top)
            except Skip:
                return None
            hard = [b for b in v if b.kind in ("notallowed", "few", "many", "dupll", "dupkey", "unique", "ref", "missing", "unsure", "keymissing", "cases")
                    and b.kind not in allow]
            if not hard:
                return raw
            b = hard[0]
            if not self.repair(raw, b):
                return None
        return None

    def at(self, raw, path):
        for p in path:
            raw = raw[p]
        return raw

    def repair(self, raw, b):
        try:
            if b.kind == "notallowed":
                del self.at(raw, b.path)[b.kw["member"]]
                return True
            if b.kind in ("many", "few", "dupll", "dupkey", "unique"):
                par, key = self.at(raw, b.path[:-1]), b.path[-1]
                if b.kind in ("many", "dupll", "dupkey", "unique") and len(par[key]) > 1:
                    par[key].pop()
                else:
                    del par[key]
                return True
            if b.kind == "ref":
                p = b.path
                par = self.at(raw, p[:-1])
                if isinstance(p[-1], int):
                    par.pop(p[-1])
                    if not par:
                        del self.at(raw, p[:-2])[p[-2]]
                else:
                    del par[p[-1]]
                return True
        except (KeyError, IndexError, TypeError):
            return False
        return False

    def obj(self, sn):
        raw = {}
        self.content(sn.kids, raw, sn)
        return self.order(raw)

    def order(self, raw):
        if self.d.p(15):
            return {k: raw[k] for k in self.d.shuffle(list(raw))}
        return raw

    def content(self, kids, raw, dp):
        d = self.d
        for c in kids:
            if c.is_data:
                if self.ctype == "config" and not c.config_eff():
                    continue
                need = c.j.get("mandatory") or c.j.get("min") or self.m.is_key(c) or \
                    (c.kind == "container" and not c.j.get("presence") and self.m.static_required(c, "all"))
                if need or d.p(self.density if self.budget > 0 else 5):
                    v = self.value(c)
                    if v is not None:
                        raw[c.iname()] = v[0]
            elif c.kind == "choice":
                cs = [x for x in cases(c)]
                if self.ctype == "config" and not c.config_eff():
                    continue
                if c.j.get("mandatory") or d.p(75):
                    x = d.choice(cs)
                    self.content(x.kids, raw, dp)
            else:
                self.content(c.kids, raw, dp)

    def value(self, c):
        """[raw] or None"""
        d = self.d
        self.budget -= 1
        if c.kind == "container":
            return [self.obj(c)]
        if c.kind == "list":
            n = self.count(c)
            res, seen = [], set()
            for _ in range(n):
                e = self.obj(c)
                k = json.dumps([e.get(x) for x in c.j.get("keys", ())]) if c.j.get("keys") else None
                if k is None or k not in seen:
                    seen.add(k)
                    res.append(e)
            return [res] if res else None
        if c.kind in ("anydata", "anyxml"):
            return [{d.choice(["x", "ma:y", "z"]): rt.gen_json(d) for _ in range(d.int(0, 2))} if c.kind == "anydata" or d.p(50)
                    else rt.gen_json(d)]
        if c.j["type"]["t"] in ("leafref", "instance-identifier"):
            return [["REF"]] if c.kind == "leaf" else [[["REF"]]]
        if c.kind == "leaf":
            if c.j.get("switch"):
                return [self.switch_val(c.j["type"])]
            return rt.gen_valid(d, c.j["type"], self.m.ctx, c.ns, self.txt)
        vals, seen = [], set()
        for _ in range(self.count(c)):
            v = rt.gen_valid(d, c.j["type"], self.m.ctx, c.ns, self.txt)
            if v is not None:
                k = json.dumps(rt.accept(c.j["type"], v[0], self.m.ctx, c.ns))
                if k not in seen or (not c.config_eff() and d.p(50)):
                    seen.add(k)
                    vals.append(v[0])
        return [vals] if vals else None

    def switch_val(self, T):
        return Gen.switch_val(self, T)

    def count(self, c):
        lo, hi = c.j.get("min", 1), c.j.get("max")
        return self.d.int(max(1, lo), max(lo, min(hi if hi is not None else self.maxlist, max(self.maxlist, lo))))

    # ---- references
    def fix_refs(self, raw, top):
        d = self.d
        m = self.m
        spots = []

        def walk(r, sn):
            for key in list(r):
                mod, s, loc = key.partition(":")
                if not s:
                    loc, mod = key, m.mods[sn.ns]
                c, _ = sn.child(loc, m.mods.index(mod))
                v = r[key]
                if c.kind == "container":
                    walk(v, c)
                elif c.kind == "list":
                    for e in v:
                        walk(e, c)
                elif c.kind in ("leaf", "leaf-list") and c.j["type"]["t"] in ("leafref", "instance-identifier"):
                    del r[key]
                    spots.append((r, key, c))
        walk(raw, top)
        if not spots:
            return
        tree = m.build(raw, top)
        m.complete(tree)
        vals, iids = {}, [iid_text(m, n) for n in tree.desc() if not n.default and iid_ok(n)]
        for n in tree.desc():
            if n.val is not None:
                vals.setdefault(tuple(n.schema.dpath()), []).append(value_raw(n.val, n.type, m.ctx))
        for r, key, c in spots:
            T = c.j["type"]
            if T["t"] == "instance-identifier":
                cand = [x for x in iids if x is not None] or (["/" + m.mods[0] + ":nothing"])
                if T.get("require") is False and d.p(30):
                    cand = ["/" + m.mods[0] + ":nothing"]
            else:
                tp = tuple(tuple(x) for x in T["tgt"])
                cand = vals.get(tp, [])
                if T.get("require") is False and d.p(40):
                    et, ec = m.leaf_type(c)
                    v = rt.gen_valid(d, et, m.ctx, ec.ns, self.txt)
                    cand = [v[0]] if v is not None else cand
            if not cand:
                continue
            if c.kind == "leaf":
                r[key] = d.choice(cand)
            else:
                out, seen = [], set()
                for _ in range(d.int(1, 2)):
                    v = d.choice(cand)
                    if json.dumps(v) not in seen:
                        seen.add(json.dumps(v))
                        out.append(v)
                r[key] = out


def iid_ok(n):
    while n.parent is not None:
        if n.kind == "entry" and not n.schema.j.get("keys"):
            return True
        n = n.parent
    return True


def iid_text(m, n):
    """Instance identifier of a reference node (JSON form), or None when a value cannot be quoted."""
    if n.parent is None:
        return "/"
    segs = []
    chain = rx.chain(n)[1:]
    prev = None
    for x in chain:
        s = "/" + (x.name if x.ns == prev else f"{x.ns}:{x.name}")
        prev = x.ns
        if x.kind == "entry":
            keys = x.schema.j.get("keys")
            if not keys:
                s += f"[{x.index + 1}]"
            else:
                for k in keys:
                    kn = next((c for c in x.children if c.name == k and c.ns == m.mods[x.schema.ns]), None)
                    if kn is None or kn.val is None:
                        return None
                    qv = quote_iid(rt.canon(kn.val))
                    if qv is None:
                        return None
                    s += f"[{k}={qv}]"
        elif x.kind == "item":
            qv = quote_iid(rt.canon(x.val))
            if qv is None:
                return None
            s += f"[.={qv}]"
        segs.append(s)
    return "".join(segs)


def quote_iid(v):
    if '"' not in v:
        return f'"{v}"'
    if "'" not in v:
        return f"'{v}'"
    return None


# =============================================================== canonical raw form

def canon_raw(m: Model, raw, top=None):
    """Canonical JSON of a valid document: minimal prefixes, canonical leaf values (reference side of round trips)."""
    tree = m.build(raw, top)
    return tree_raw(m, tree)


def tree_raw(m, rn, defaults=True):
    res = {}
    for c in rn.children:
        if c.default and not defaults:
            continue
        k = c.schema.iname()
        if c.kind == "cont":
            res[k] = tree_raw(m, c, defaults)
        elif c.kind == "entry":
            res.setdefault(k, []).append(tree_raw(m, c, defaults))
        elif c.kind == "leaf":
            res[k] = leaf_raw(c)
        elif c.kind == "item":
            res.setdefault(k, []).append(leaf_raw(c))
        else:
            res[k] = copy.deepcopy(c.raw)
    return res


def leaf_raw(c):
    return value_raw(c.val, c.type, c.schema.model.ctx)


def value_raw(v, T, ctx):
    b = rt.builtin_of(T)
    if b["t"] == "union":
        # the first member type that accepts decides about the width of integers
        if v[0] == "int":
            return union_int(v, T, ctx)
        return rt.to_raw(v, T)
    return rt.to_raw(v, T)


def union_int(v, T, ctx):
    """JSON form of an integer in a union: by the first member type whose form is read back as that integer."""
    cands = list(int_forms(v, T))
    for r in cands:
        try:
            if rt.accept(T, r, ctx, 0) == v:
                return r
        except rt.Reject:
            pass
    return cands[0]


def int_forms(v, T):
    for x in rt.builtin_of(T)["types"]:
        xb = rt.builtin_of(x)
        if xb["t"] == "union":
            yield from int_forms(v, x)
        elif xb["t"] in rt.INTS:
            try:
                rt.check_bounds(x, v[1], "range")
            except rt.Reject:
                continue
            yield str(v[1]) if xb["t"] in rt.BIG else v[1]


def same(a, b):
    """Equality of JSON values that tells True from 1 and ignores member order."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and (not isinstance(a, float) or (a == a and str(a) == str(b)) or a != a)


def diff(a, b, path=""):
    """First difference between two JSON values, for messages."""
    if type(a) is not type(b):
        return f"{path}: {a!r} versus {b!r}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}/{k}: only in the first ({a[k]!r})"
        for k in b:
            if k not in a:
                return f"{path}/{k}: only in the second ({b[k]!r})"
        for k in a:
            r = diff(a[k], b[k], path + "/" + k)
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} versus {len(b)} entries ({a!r} / {b!r})"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}/{i}")
            if r:
                return r
        return None
    return None if same(a, b) else f"{path}: {a!r} versus {b!r}"
