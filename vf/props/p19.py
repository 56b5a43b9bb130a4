"""P19: query histories against fresh models; pickled models; permuted documents; independent processes."""
import copy
import json
import os
import pickle
import re
import subprocess
import sys
import tempfile
from ..core import Leg, Skip, Violation, HarnessError, VERIF
from ..d import case
from .. import rschema as rs, rtypes as rt, rxpath as rx, docs, opdocs
from ..xgen import XGen

RULE = ("one case is a generated schema, several documents and a sequence of queries asked of one model, each compared with the answer of a freshly "
        "built model (or a document and its permutation, or a batch asked in two processes); it is non-trivial when the answers include two verdicts on "
        "documents and at least four different kinds of queries (or, of histories of verdicts only, three documents), or when the permutation moved entries of a document with members in conditions")
ASSUMPTIONS = ["counters of validated instances (val_count) are meant to accumulate and are not compared",
               "documents are permuted under conditions that do not depend on document order"]
KINDS = [(4, "string"), (2, "boolean"), (3, "uint8"), (2, "enumeration"), (1, "empty"), (2, "identityref"), (2, "union"), (1, "int64"), (1, "bits"),
         (1, "decimal64"), (1, "binary")]


# ------------------------------------------------------------------ generation

def hist(d):
    ops = d.p(40)
    f = rs.default_feat(kinds=KINDS, typedefs=15, must=True, unique=d.p(40), leafref=d.p(40), iid=d.p(20), ops=ops, maxmods=3)
    mj = rs.Gen(d, f).gen()
    m = rs.Model(mj)
    dl = []
    for _ in range(d.int(1, 3)):
        ct = d.choice(["config", "all"])
        r = d.int(0, 9)
        if ops and r < 4:
            dj = opdocs.gen_doc(d, mj, m, ct, density=d.choice([40, 90]))
        else:
            raw = rs.DataGen(d, m, ct, density=d.choice([30, 90])).doc()
            dj = None if raw is None else {"kind": "data", "op": None, "raw": raw}
        dj = dj or {"kind": "data", "op": None, "raw": {}}
        dl.append(dj)
        if d.p(75):
            top = opdocs.doc_of(m, dj).top
            raw, _ = docs.mutate(d, m, dj["raw"], top)
            dl.append({**dj, "raw": raw})
    nodes = [s for s in m.all_data()]
    leaves = [s for s in nodes if s.kind in ("leaf", "leaf-list") and s.j["type"]["t"] != "instance-identifier"]
    qs = []
    mod = len(m.mods) - 1
    for _ in range(d.int(8, 16)):
        if qs and d.p(20):
            qs.append(d.choice(qs))
            continue
        k = d.weighted([(14, "verdict"), (3, "dump"), (2, "xml"), (3, "defaults"), (4, "xpath"), (2, "edit"), (2, "merge"), (1, "digest"), (1, "tree"),
                        (1, "misc"), (2, "parse"), (1, "node"), (1, "addr"), (1, "pickle"), (1, "filter")])
        i = d.int(0, len(dl) - 1)
        q = [k]
        if k == "verdict":
            q += [i, d.choice(["config", "all", "all"]), d.weighted([(4, "all"), (1, "syntax"), (1, "semantics")]), d.p(60)]
        elif k in ("dump", "xml", "filter", "addr"):
            q += [i, d.p(60)]
        elif k == "defaults":
            q += [i, d.choice(["config", "all"]), d.p(50), d.p(60)]
        elif k == "merge":
            q += [i, d.int(0, len(dl) - 1), d.p(60)]
        elif k == "xpath":
            g = XGen(d, m, mod, ["a", "b", "1"])
            s = d.choice(nodes)
            g.cur = s
            q += [i, d.int(0, 30), g.expr(s, d.int(1, 2)), d.p(60)]
        elif k == "edit":
            tops = m.root.data_children()
            c = d.choice(tops)[0]
            dg = rs.DataGen(d, m, "all", density=60)
            dg.budget = 8
            v = docs.val(dg, c)
            if v is None:
                continue
            q += [i, c.iname(), v[0] if d.p(80) else d.choice([1, "x", {}, []]), d.p(60)]
        elif k == "tree":
            q += [d.p(50)]
        elif k == "parse":
            if not leaves:
                continue
            c = d.choice(leaves)
            T, tc = m.leaf_type(c)
            q += ["".join(f"/{m.mods[a]}:{b}" for a, b in c.dpath()), rt.gen_any_raw(d, T, m.ctx, tc.ns)]
        elif k == "node":
            q += ["".join(f"/{m.mods[n.ns]}:{n.name}" for n in d.choice(nodes).schema_path())]
        qs.append(q)
    return {"m": mj, "docs": dl, "q": qs}


gen_hist = case(hist)


@case
def gen_verdicts(d):
    """Documents that differ in what the conditions refer to, validated one after another."""
    f = rs.default_feat(kinds=[(4, "string"), (3, "boolean"), (2, "uint8"), (2, "enumeration")], typedefs=5, must=d.p(30), any=False, card=d.p(30), mand=d.p(50),
                        maxmods=2, size=d.choice([5, 8, 12]))
    mj = rs.Gen(d, f).gen()
    m = rs.Model(mj)
    ct = d.choice(["config", "all"])
    dl = []
    for _ in range(d.int(1, 2)):
        raw = rs.DataGen(d, m, ct, density=d.choice([60, 90])).doc() or {}
        dl.append({"kind": "data", "op": None, "raw": raw})
        for _ in range(d.int(1, 4)):
            raw, _ = docs.mutate(d, m, raw, None, ops=[(8, "switch"), (3, "add"), (2, "drop")])
            dl.append({"kind": "data", "op": None, "raw": raw})
    qs = [["verdict", i, ct if d.p(85) else "all", "all", d.p(60)] if d.p(85) else ["defaults", i, ct, False, d.p(60)] for i in range(len(dl)) for _ in range(2)]
    return {"m": mj, "docs": dl, "q": d.shuffle(qs)}


# ------------------------------------------------------------------ asking

class Asker:
    """One model with the instances built so far."""

    def __init__(self, c):
        from yangson import DataModel
        self.c, self.m = c, rs.Model(c["m"])
        em = self.em = rs.Emitter(c["m"]).run()
        self.texts = {f"{m}.yang": t for m, t in em.texts().items()}
        self.lib = rs.yang_library(c["m"]["mods"])
        self.dm = None
        self.insts = {}
        with rs.Workspace(self.texts) as w:
            self.dm = DataModel(self.lib, (w,))

    def fresh(self):
        o = copy.copy(self)
        from yangson import DataModel
        o.insts = {}
        with rs.Workspace(self.texts) as w:
            o.dm = DataModel(self.lib, (w,))
        return o

    def doc(self, i):
        return opdocs.doc_of(self.m, self.c["docs"][i])

    def inst(self, i, share=True):
        if share and i in self.insts:
            return self.insts[i]
        dj = self.doc(i)
        full = dj.full()
        keep = copy.deepcopy(full)
        try:
            r = self.dm.from_raw(full, dj.sub)
        finally:
            if json.dumps(keep) != json.dumps(full):
                raise Violation(f"from_raw changed its argument: {keep} became {full}")
        if share:
            self.insts[i] = r
        return r

    def ask(self, q):
        """JSON description of the answer."""
        from yangson import exceptions as X
        try:
            res = self.answer(q)
        except (X.YangsonException,) as e:
            res = ["exception", type(e).__name__, str(e)]
        return bare(res)

    def answer(self, q):
        from yangson.enumerations import ContentType, ValidationScope
        k = q[0]
        dm = self.dm
        if k == "verdict":
            self.inst(q[1], q[4]).validate(getattr(ValidationScope, q[3]), getattr(ContentType, q[2]))
            return "ok"
        if k == "dump":
            return self.inst(q[1], q[2]).raw_value()
        if k == "filter":
            return self.inst(q[1], q[2]).raw_value(every_other())
        if k == "xml":
            import xml.etree.ElementTree as ET
            i = self.inst(q[1], q[2])
            try:
                return ET.tostring(i.to_xml(), encoding="unicode")
            except NotImplementedError:         # anydata
                return "not implemented"
        if k == "defaults":
            i = self.inst(q[1], q[4])
            before = i.raw_value()
            full = i.add_defaults(getattr(ContentType, q[2]), q[3])
            a = full.raw_value()
            b = full.add_defaults(getattr(ContentType, q[2])).raw_value()
            if json.dumps(before) != json.dumps(i.raw_value()):
                raise Violation(f"add_defaults changed the original: {before} became {i.raw_value()}")
            return [a, b, sorted(str(x) for x in tags(full))]
        if k == "merge":
            i, j = self.inst(q[1], q[3]), self.inst(q[2], q[3])
            if i.schema_node is not j.schema_node or i is j:
                return "skipped"
            return i.merge(j.value).raw_value()
        if k == "xpath":
            from yangson.xpathparser import XPathParser
            from yangson.schemadata import SchemaContext
            mod = len(self.m.mods) - 1
            name = self.m.mods[mod]
            i = self.inst(q[1], q[4])
            ps = list(paths(i))
            node = locate(i, ps[q[2] % len(ps)])
            text = rx.text(q[3], self.em.pfx(mod))
            e = XPathParser(text, SchemaContext(dm.schema_data, name, (name, ""))).parse()
            r = e.evaluate(node)
            r = [list(map(str, n.path)) for n in r] if isinstance(r, list) else r
            return [repr(r), str(e), e.is_true(node)] if not isinstance(r, list) else [r, str(e)]
        if k == "edit":
            raw = copy.deepcopy(q[3])
            r = self.inst(q[1], q[4]).put_member(q[2], raw, raw=True).top()
            if json.dumps(raw) != json.dumps(q[3]):
                raise Violation(f"put_member changed its argument: {q[3]} became {raw}")
            out = [r.raw_value()]
            try:
                r.validate(ValidationScope.all, ContentType.all)
                out.append("ok")
            except Exception as e:
                out.append([type(e).__name__, str(e)])
            return out
        if k == "digest":
            return dm.schema_digest()
        if k == "tree":
            return dm.ascii_tree(q[1])
        if k == "misc":
            return [dm.module_set_id(), [str(x) for x in dm.schema.state_roots()], dm.yang_library]
        if k == "parse":
            sn = dm.get_data_node(q[1])
            v = sn.from_raw(copy.deepcopy(q[2]) if sn.__class__.__name__ == "LeafNode" else [copy.deepcopy(q[2])])
            t = v if sn.__class__.__name__ == "LeafNode" else v[0]
            return [repr(v), sn.type.canonical_string(t), sn.type.to_raw(t), v in sn.type, repr(sn.type.parse_value(sn.type.canonical_string(t)))]
        if k == "node":
            sn = dm.get_schema_node(q[1])
            return [type(sn).__name__, sn.name, sn.ns, str(sn.content_type()), bool(getattr(sn, "mandatory", None)), repr(getattr(sn, "default", None))]
        if k == "addr":
            i = self.inst(q[1], q[2])
            return [[locate(i, p).json_pointer(), str(locate(i, p).instance_route())] for p in paths(i)]
        raise HarnessError(k)


def bare(x):
    """x without addresses in texts made from Python objects."""
    if isinstance(x, str):
        return re.sub(r" at 0x[0-9a-f]+", "", x)
    if isinstance(x, (list, tuple)):
        return [bare(y) for y in x]
    return {k: bare(v) for k, v in x.items()} if isinstance(x, dict) else x


def every_other():
    from yangson.instance import OutputFilter

    class F(OutputFilter):
        n = 0

        def begin_member(self, parent, node, attributes):
            self.n += 1
            return self.n % 3 != 0
    return F()


def tags(inst):
    """Tags left by add_defaults."""
    return [(p, locate(inst, p).value.__class__.__name__, getattr(locate(inst, p), "tag", None)) for p in paths(inst)]


def paths(inst):
    """Paths of all instances, not those inside anydata."""
    from yangson.instvalue import ObjectValue, ArrayValue
    out = []

    def walk(i, p):
        out.append(p)
        v = i.value
        if i.schema_node.__class__.__name__ in ("AnydataNode", "AnyxmlNode"):
            return
        if isinstance(v, ObjectValue):
            for k in v:
                if not k.startswith("@"):
                    walk(i[k], p + (k,))
        elif isinstance(v, ArrayValue):
            for n in range(len(v)):
                walk(i[n], p + (n,))
    walk(inst, ())
    return out


def locate(inst, path):
    for k in path:
        inst = inst[k]
    return inst


def show(x):
    return bare(json.dumps(x, default=repr))


def check_hist(c):
    a = Asker(c)
    known, labels, verds = {}, set(), set()
    kinds = set()
    for n, q in enumerate(c["q"]):
        if q[0] == "pickle":
            a.dm = pickle.loads(pickle.dumps(a.dm))
            a.insts = {}
            labels.add("pickle")
            continue
        key = json.dumps(q)
        got = show(a.ask(q))
        if key not in known:
            known[key] = show(a.fresh().ask(q))
        else:
            labels.add("again")
        kinds.add(q[0])
        if q[0] == "verdict":
            verds.add(got[:20])
        if got != known[key]:
            raise Violation(f"query {n} {q} is answered {got[:700]} after {c['q'][:n]}, and {known[key][:700]} by a fresh model")
    return {"nontrivial": (len(kinds) >= 4 or kinds <= {"verdict", "defaults"} and len(c["docs"]) > 2) and len(verds) > 1, "labels": sorted(labels | kinds), "n": len(c["q"])}


# ------------------------------------------------------------------ permutations

def positional(raw):
    """Does some string look like an address with positions of entries?"""
    if isinstance(raw, dict):
        return any(positional(x) for x in raw.values())
    return any(positional(x) for x in raw) if isinstance(raw, list) else isinstance(raw, str) and re.search(r"\[\s*[0-9]+\s*\]", raw) is not None


def twice(m, raw, sn):
    """Is some member spelled in two ways in one object?"""
    if isinstance(raw, list):
        return any(twice(m, x, sn) for x in raw)
    if not isinstance(raw, dict):
        return False
    seen = []
    for k, v in raw.items():
        c = docs.split(m, sn, k) if not k.startswith("@") else None
        if c is None:
            continue
        if any(c is x for x in seen) or c.kind in ("container", "list") and twice(m, v, c):
            return True
        seen.append(c)
    return False


def scramble(d, m, raw, sn, pos=False):
    """Members shuffled, entries of system-ordered lists and leaf-lists shuffled; also the number of moved things."""
    if not isinstance(raw, dict):
        return raw, 0
    out, moved = {}, 0
    for k in d.shuffle(list(raw)):
        v = raw[k]
        c = docs.split(m, sn, k) if not k.startswith("@") else None
        if c is not None and c.kind == "container":
            v, n = scramble(d, m, v, c, pos)
            moved += n
        elif c is not None and c.kind in ("list", "leaf-list") and isinstance(v, list):
            if c.kind == "list":
                es = [scramble(d, m, e, c, pos) for e in v]
                moved += sum(n for _, n in es)
                v = [e for e, _ in es]
            if not c.j.get("user") and len(v) > 1 and not pos:
                w = d.shuffle(v)
                moved += w != v
                v = w
        out[k] = v
    return out, moved + (list(out) != list(raw))


@case
def gen_perm(d):
    f = rs.default_feat(kinds=KINDS, typedefs=10, must=d.p(60), unique=d.p(40), leafref=d.p(40), iid=d.p(20))
    mj = rs.Gen(d, f).gen()
    m = rs.Model(mj)
    for s in m.all_data():
        if s.j.get("must"):
            s.j["must"] = [x for x in s.j["must"] if '"string"' not in json.dumps(x["x"])]
    out = []
    for _ in range(d.int(1, 3)):
        ct = d.choice(["config", "all"])
        doc = rs.DataGen(d, m, ct, density=d.choice([60, 95]), maxlist=4).doc()
        if not doc:
            continue
        for _ in range(d.int(1, 2)):
            r = docs.mutate(d, m, doc)[0] if d.p(70) else doc
            if twice(m, r, m.root):
                continue
            p = [scramble(d, m, r, m.root, positional(r)) for _ in range(2)]
            out.append({"raw": r, "ct": ct, "perm": [x for x, _ in p], "moved": [n for _, n in p]})
    return {"m": mj, "docs": out}


def flat(v):
    """Order-free form of a dump."""
    if isinstance(v, dict):
        return {k: flat(x) for k, x in v.items()}
    if isinstance(v, list):
        return sorted((flat(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True))
    return v


def check_perm(c):
    dm = rs.load(c["m"])
    verds, moved, labels = set(), 0, set()
    from yangson.enumerations import ContentType
    for dd in c["docs"]:
        v = docs.verdict(dm, dd["raw"], dd["ct"])
        verds.add(v[0])
        for p, n in zip(dd["perm"], dd["moved"]):
            w = docs.verdict(dm, p, dd["ct"])
            if v[0] != w[0]:
                raise Violation(f"verdict {v[0]} {v[1]} on {dd['raw']}, but {w[0]} {w[1]} on its permutation {p}")
            moved += n
            if v[0] != "raw":
                a, b = (x[2].raw_value() for x in (v, w))
                if v[0] == "ok":
                    a, b = (x[2].add_defaults(getattr(ContentType, dd["ct"])).raw_value() for x in (v, w))
                    labels.add("defaults")
                if flat(a) != flat(b):
                    raise Violation(f"dump {a} of {dd['raw']} and {b} of its permutation {p}")
    return {"nontrivial": moved > 1 and len(verds) > 1, "labels": sorted(labels | verds), "n": len(c["docs"])}


# ------------------------------------------------------------------ processes with different hash seeds

@case
def gen_batch(d):
    return {"cases": [hist(d) for _ in range(4)]}


def answers(c):
    out = []
    for h in c["cases"]:
        a = Asker(h)
        for q in h["q"]:
            if q[0] == "pickle":
                a.dm = pickle.loads(pickle.dumps(a.dm))
                a.insts = {}
            else:
                out.append(show(a.ask(q)))
        out += [show(a.ask(q)) for q in (["digest"], ["tree", False], ["misc"])]
    return out


def check_batch(c):
    res = []
    for hs in ("1", "2"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from vf.props import p19; p19.child()" % str(VERIF)],
                           input=json.dumps(c), capture_output=True, text=True, env=env, timeout=120)
        if p.returncode == 3:
            raise Violation(p.stdout[:2000])
        if p.returncode:
            raise HarnessError(p.stderr[-1500:])
        res.append(json.loads(p.stdout))
    a, b = res
    for x, y in zip(a, b):
        if x != y:
            raise Violation(f"different answers in two processes: {x[:700]} and {y[:700]}")
    if len(a) != len(b):
        raise HarnessError("number of answers")
    return {"nontrivial": len(set(a)) > 8, "labels": [], "n": len(a)}


def child():
    from ..core import setup_path
    setup_path()
    try:
        r = answers(json.load(sys.stdin))
    except Violation as v:
        print(v)
        sys.exit(3)
    json.dump(r, sys.stdout)


LEGS = [Leg("history", gen_hist, check_hist, quick=3000, thorough=30000),
        Leg("verdicts", gen_verdicts, check_hist, quick=2000, thorough=20000),
        Leg("permuted", gen_perm, check_perm, quick=3800, thorough=20000),
        Leg("processes", gen_batch, check_batch, quick=48, thorough=600, chunk=4)]
