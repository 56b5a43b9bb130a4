"""P11: instance identifiers, resource identifiers and instance routes."""
import copy
import re
from urllib.parse import quote
from ..core import Leg, Skip, Violation, HarnessError
from ..d import case
from .. import rschema as rs, rtypes as rt, docs
from ..rich import RICH
from .p18 import seg_path
from ..typed import accept_text
from .p08 import State
from .p09 import paths

RULE = ("one case is a schema, a document and addresses in it: those of all its nodes in several spellings, and altered ones; it is non-trivial when "
        "entries with two keys or with key values that need quoting, escaping or percent-encoding are addressed and some altered address matches nothing")
ASSUMPTIONS = ["values that contain both kinds of quotes have no instance identifier", "values of unions whose text selects another member type are skipped",
               "a single empty key cannot be expressed in a resource identifier"]
KEYK = [(6, "string"), (2, "boolean"), (3, "uint8"), (1, "int64"), (2, "enumeration"), (1, "identityref"), (2, "union"), (2, "bits"), (2, "decimal64"),
        (1, "binary"), (1, "empty")]


class Incompat(Exception):
    """The address does not fit the schema."""


# ------------------------------------------------------------------ reference

def key_text(m, c, raw):
    """Canonical text of a leaf value, or None when it is not read back as the same value."""
    T, tc = m.leaf_type(c)
    v = rt.accept(T, raw, m.ctx, tc.ns)
    t = rt.canon(v)
    try:
        if accept_text(T, t, m.ctx, tc.ns) != v:
            return None
    except (rt.Reject, Skip):
        return None
    return t


def read_text(m, c, text):
    """Canonical raw value read from a text."""
    T, tc = m.leaf_type(c)
    if T["t"] == "instance-identifier":
        raise Skip("instance identifier as a key")
    try:
        return rs.value_raw(accept_text(T, text, m.ctx, tc.ns), T, m.ctx)
    except rt.Reject:
        raise Incompat("value")


def find(s, segs, kind="iid"):
    """State at the node addressed by segs [(name, preds)], or None; raises Incompat."""
    for name, preds in segs:
        if s.sn().kind in ("anydata", "anyxml"):
            raise Skip("inside anydata")
        if s.kind() != "obj":
            raise Incompat("object expected")
        c = s.member(name)
        if c is None:
            raise Incompat("unknown member")
        if c.iname() not in s.at():
            return None
        s = s.go(s.path + (c.iname(),))
        if not preds:
            continue
        if kind == "rid":       # the text has only values: they are those of the keys or of the entry
            if c.kind == "list" and len(c.j.get("keys") or ()) == len(preds):
                preds = [("key", k, p[-1]) for k, p in zip(c.j["keys"], preds)]
            elif c.kind == "leaf-list" and len(preds) == 1:
                preds = [("val", preds[0][-1])]
        v = s.at()
        if s.kind() != "arr":
            raise Incompat("array expected")
        if preds[0][0] == "idx":
            if len(preds) > 1 or preds[0][1] < 1:
                raise Skip("predicates")
            if preds[0][1] > len(v):
                return None
            i = preds[0][1] - 1
        elif preds[0][0] == "val":
            if len(preds) > 1:
                raise Skip("predicates")
            if c.kind != "leaf-list":
                raise Incompat("leaf-list expected")
            want = read_text(s.m, c, preds[0][1])
            i = next((j for j, x in enumerate(v) if rs.same(x, want)), None)
        else:
            if c.kind != "list":
                raise Incompat("list expected")
            if any(p[0] != "key" for p in preds):
                raise Skip("predicates")
            want = {}
            for _, kn, kt in preds:
                k = docs.split(s.m, c, kn)
                if k is None or k.kind != "leaf":
                    raise Incompat("key")
                if k.iname() in want:
                    raise Skip("predicates")
                want[k.iname()] = read_text(s.m, k, kt)
            if set(want) != set(c.j.get("keys") or ()):
                raise Skip("predicates")
            i = next((j for j, e in enumerate(v) if all(n in e and rs.same(e[n], x) for n, x in want.items())), None)
        if i is None:
            return None
        s = s.go(s.path + (i,))
    return s


def segments(s, index=()):
    """Segments of a canonical address of the node, or None; index: positions (in the path) of entries addressed by position."""
    segs, cur = [], s.go(())
    for n, k in enumerate(s.path):
        if isinstance(k, str):
            c = cur.member(k)
            segs.append((k, []))
            cur = cur.go(cur.path + (k,))
            continue
        arr, c = cur.at(), cur.sn()
        cur = cur.go(cur.path + (k,))
        name = segs[-1][0]
        if n in index or c.kind == "list" and not c.j.get("keys"):
            segs[-1] = (name, [("idx", k + 1)])
            continue
        if c.kind == "leaf-list":
            if any(rs.same(x, arr[k]) for x in arr[:k]):
                return None
            t = key_text(s.m, c, arr[k])
            if t is None:
                return None
            segs[-1] = (name, [("val", t)])
            continue
        ks = c.j["keys"]
        if any(q not in arr[k] for q in ks):
            return None
        if any(all(rs.same(x.get(q), arr[k][q]) for q in ks) for x in arr[:k]):
            return None
        pr = []
        for q in ks:
            t = key_text(s.m, docs.split(s.m, c, q), arr[k][q])
            if t is None:
                return None
            pr.append(("key", q, t))
        segs[-1] = (name, pr)
    return segs


def iid(d, segs, m, plain=False):
    """Text of an instance identifier in some spelling (None if not expressible)."""
    out, mod = [], None
    for name, preds in segs:
        p, s, loc = name.partition(":")
        if s:
            mod = p
        elif not plain and mod and d.p(25):
            name = f"{mod}:{name}"
        out.append("/" + name)
        for pr in (preds if plain or d.p(70) else d.shuffle(preds)):
            w = (lambda: "") if plain else (lambda: d.choice([" ", "\t", "  "]) if d.p(12) else "")
            if pr[0] == "idx":
                out.append(f"[{w()}{pr[1]}{w()}]")
                continue
            t = pr[-1]
            qs = [x for x in "\"'" if x not in t]
            if not qs:
                return None
            qq = qs[0] if plain else d.choice(qs)
            n = "." if pr[0] == "val" else (f"{mod}:{pr[1]}" if not plain and d.p(20) else pr[1])
            out.append(f"[{w()}{n}{w()}={w()}{qq}{t}{qq}{w()}]")
    return "".join(out) or "/"


def rid(d, segs):
    """Text of a resource identifier (None if not expressible)."""
    out, mod = [], None
    for name, preds in segs:
        p, s, loc = name.partition(":")
        if s:
            mod = p
        elif d.p(25):
            name = f"{mod}:{name}"
        vals = []
        for pr in preds:
            if pr[0] == "idx":
                return None
            t = pr[-1]
            e = quote(t, safe="") if d.p(60) else "".join(x if x.isascii() and (x.isalnum() or x in "-._~:@!$&'()*+;") else quote(x, safe="") for x in t)
            if d.p(20):
                e = re.sub("%[0-9A-F]{2}", lambda q: q.group().lower(), e)
            if d.p(10) and e:
                i = d.int(0, len(e) - 1)
                if e[i].isalnum() and "%" not in e[max(0, i - 2):i + 1]:
                    e = e[:i] + "%%%02X" % ord(e[i]) + e[i + 1:]
            vals.append(e)
        if len(vals) == 1 and vals[0] == "":
            return None
        out.append("/" + name + ("=" + ",".join(vals) if vals else ""))
    return "".join(out) or "/"


# ------------------------------------------------------------------ generation

def alter(d, segs, s):
    """A changed copy of an address."""
    segs = copy.deepcopy(segs)
    k = d.int(0, 9)
    if not segs:
        return [("ma:zzz", [])]
    i = d.int(0, len(segs) - 1)
    withp = [j for j, x in enumerate(segs) if x[1]]
    if k <= 5 and withp:
        i = d.choice(withp)
        name, pr = segs[i]
        j = d.int(0, len(pr) - 1)
        q = list(pr[j])
        if q[0] == "idx":
            q[1] = max(1, q[1] + d.int(-1, 3))
        else:
            t = q[-1]
            r = d.int(0, 6)
            q[-1] = (t + d.choice(["x", " ", "0", ".0", "a"]) if r == 0 else t[:-1] if r == 1 else d.choice(["", "0", "1", "true", "false", "one", "a", "b", "1.0"]) if r == 2
                     else t.upper() if r == 3 else "0" + t if r == 4 else t.strip() if r == 5 else "+" + t)
        pr[j] = tuple(q)
        return segs
    if k == 6:
        return segs[:i] + segs[i + 1:]
    if k == 7:
        name, pr = segs[i]
        segs[i] = (d.choice(["ma:zzz", "zzz", "mb:c", "ma:c", "ma:l", "x", "k", "n", "mb:x", "nomod:x", name + "x", name.rpartition(":")[2]]), pr)
        return segs
    if k == 8:
        return segs + [(d.choice(["x", "k", "v", "ma:v", "mb:x", "e", "c", "n", "zzz"]), [])]
    name, pr = segs[i]
    segs[i] = (name, [] if pr else d.choice([[("idx", 1)], [("val", "a")], [("key", "k", "a")]]))
    return segs


def make(rich, **kw):
    @case
    def gen(d):
        mj = RICH if rich else rs.Gen(d, rs.default_feat(any=d.p(20), when=False, key_kinds=KEYK, **kw)).gen()
        m = rs.Model(mj)
        doc = rs.DataGen(d, m, "all", density=85, maxlist=4, txt="a'" if d.p(20) else "ab " if d.p(20) else rt.TXT).doc() or {}
        try:
            s = State(m, rs.canon_raw(m, doc))
        except (rs.Bad, Skip):
            return {"m": mj, "doc": {}, "addr": []}
        ps = paths(s)
        out = []
        entries = [p for p in ps if any(isinstance(k, int) for k in p)]
        for _ in range(d.int(6, 24)):
            p = d.choice(entries if entries and d.p(75) else ps)
            t = s.go(p)
            idx = [n for n, k in enumerate(p) if isinstance(k, int)] if d.p(15) else []
            try:
                segs = segments(t, idx)
            except (Skip, rt.Reject):
                continue
            if segs is None:
                continue
            if d.p(35):
                segs = alter(d, segs, t)
                p = None
            kind = d.choice(["iid", "rid"])
            text = iid(d, segs, m) if kind == "iid" else rid(d, segs)
            if text is None:
                continue
            if d.p(4):
                i = d.int(0, len(text))
                text, p, segs = text[:i] + d.choice(["/", "[", "]", "'", "=", ":", " ", "", "1", "a"]) + text[i + d.int(0, 1):], None, None
                if kind == "rid":
                    continue
            out.append({"kind": kind, "text": text, "path": None if p is None else list(p), "segs": segs})
        return {"m": mj, "doc": doc, "addr": out}
    return gen


# ------------------------------------------------------------------ check

def same_node(node, s, what):
    if tuple(node.path) != s.path:
        raise Violation(f"{what} leads to {node.path} instead of {s.path}")
    if not rs.same(node.raw_value(), s.at()):
        raise Violation(f"{what}: value {node.raw_value()!r} instead of {s.at()!r}")


def check_route(root, route, s, exp, what):
    """exp: State, None (no such instance) or an Incompat."""
    from yangson import exceptions as X
    try:
        got = root.goto(route)
    except (X.NonexistentInstance, X.InstanceValueError, X.InvalidKeyValue, X.NonDataNode, X.NonexistentSchemaNode, X.BadSchemaNodeType) as e:
        str(e)
        if isinstance(exp, State):
            raise Violation(f"{what}: {type(e).__name__} {e}; expected the node at {exp.path}")
        if exp is None and not isinstance(e, (X.NonexistentInstance, X.InstanceValueError)):
            raise Violation(f"{what}: {type(e).__name__} {e} for a missing instance")
    else:
        if not isinstance(exp, State):
            raise Violation(f"{what} leads to {got.path}, although nothing matches ({exp!r})")
        same_node(got, exp, what)
    try:
        val = root.peek(route)
    except (X.InvalidKeyValue, X.NonexistentSchemaNode, X.BadSchemaNodeType) as e:
        if not isinstance(exp, Incompat):
            raise Violation(f"looking up {what}: {type(e).__name__} {e}")
        return
    if isinstance(exp, State):
        if type(val) is not type(got.value) or val != got.value:
            raise Violation(f"looking up {what} gives {val!r} instead of {got.value!r}")
    elif val is not None:
        raise Violation(f"looking up {what} gives {val!r}, although nothing matches")


def check_split(root, route, node, schema_nodes):
    """Every schema node splits the route behind its own instance, if there is one on the route."""
    on = {}
    nd = node
    while nd.parinst is not None:
        on.setdefault(id(nd.schema_node), nd)
        nd = nd.up()
    for sn in {id(x): x for x in schema_nodes + [x.schema_node for x in on.values()]}.values():
        r = sn.split_instance_route(route)
        if id(sn) not in on:
            if r is not None:
                raise Violation(f"split_instance_route({route}) at {sn.data_path()}, which is not on the route: {[str(x) for x in r]}")
            continue
        want = tuple(on[id(sn)].path)
        if r is None or tuple(r[0]) + tuple(r[1]) != tuple(route):
            raise Violation(f"split_instance_route({route}) at {sn.data_path()}: {r and [str(x) for x in r]}")
        a = root.goto(r[0])
        if tuple(a.path) != want or a.schema_node is not sn:
            raise Violation(f"split_instance_route({route}) at {sn.data_path()}: first part {r[0]} leads to {a.path} instead of {want}")


def judge(case_):
    from yangson import exceptions as X
    m = rs.Model(case_["m"])
    dm = rs.load(case_["m"])
    s = State(m, rs.canon_raw(m, case_["doc"]))
    root = dm.from_raw(case_["doc"])
    labels, hard, miss = set(), 0, 0
    schema_nodes = [dm.get_data_node(seg_path(m.mods, sn.dpath())) for sn in m.all_data()][:20]
    # the route of every node, printed and parsed
    for p in paths(s)[:120]:
        t = s.go(p)
        node = root
        for k in p:
            node = node[k]
        route = node.instance_route()
        try:
            segs = segments(t)
        except rt.Reject:
            raise HarnessError("canonical value refused")
        except Skip:
            segs = None
        if segs is None:
            labels.add("no-address")
            continue
        check_route(root, route, s, t, f"instance route {route}")
        bad = [pr for _, ps_ in segs for pr in ps_ if pr[0] != "idx" and "'" in pr[-1] and '"' in pr[-1]]
        if bad:
            labels.add("both-quotes")
            continue
        text = str(route)
        try:
            back = dm.parse_instance_id(text)
        except X.YangsonException as e:
            raise Violation(f"instance identifier {text!r} of {p} is refused: {type(e).__name__} {e}")
        check_route(root, back, s, t, f"instance identifier {text!r}")
        if str(back) != text:
            raise Violation(f"instance identifier {text!r} is printed as {str(back)!r}")
        if back != route or hash(back) != hash(route):
            raise Violation(f"parsed route {back} differs from {route}")
        # relative routes
        for i in range(1, len(back)):
            mid = root.goto(type(back)(back[:i]))
            sub = mid.goto(type(back)(back[i:]))
            same_node(sub, t, f"{text!r} in two steps")
            if mid.peek(type(back)(back[i:])) != sub.value:
                raise Violation(f"looking up {text!r} in two steps")
        check_split(root, back, node, schema_nodes)
        if any(len(ps_) > 1 for _, ps_ in segs) or any(re.search(r"[^\w]", pr[-1]) for _, ps_ in segs for pr in ps_ if pr[0] != "idx"):
            hard += 1
    # given spellings and altered addresses
    for a in case_["addr"]:
        text = a["text"]
        what = f"{a['kind']} {text!r}"
        try:
            if a["kind"] == "iid":
                segs = rs.parse_iid(text) if text else None
            else:
                segs = [(n, [tuple(x) for x in ps_]) for n, ps_ in a["segs"]]
            if segs is None:
                exp = "syntax"
            else:
                try:
                    exp = find(s, segs, a["kind"])
                except Incompat as e:
                    exp = e
        except Skip as e:
            labels.add("addrskip:" + str(e))
            continue
        if a["path"] is not None and not (isinstance(exp, State) and list(exp.path) == a["path"]):
            raise HarnessError(f"reference finds {exp} for {a}")
        try:
            route = dm.parse_instance_id(text) if a["kind"] == "iid" else dm.parse_resource_id(text)
        except (X.ParserException, X.NonexistentSchemaNode, X.BadSchemaNodeType) as e:
            str(e)
            if isinstance(exp, State):
                raise Violation(f"{what} is refused: {type(e).__name__} {e}")
            if exp is None and a["kind"] == "iid":
                raise Violation(f"well-formed {what} is refused: {type(e).__name__} {e}")
            miss += 1
            labels.add("refused")
            continue
        if exp == "syntax":
            raise Violation(f"{what} is accepted as {route}")
        if a["kind"] == "rid" and any(ps_ and ps_[0][0] == "idx" for _, ps_ in segs):
            continue
        check_route(root, route, s, exp, what)
        if isinstance(exp, State):
            check_split(root, route, root.goto(route), schema_nodes)
        labels.add(a["kind"] + (":found" if isinstance(exp, State) else ":missing" if exp is None else ":incompatible"))
        miss += not isinstance(exp, State)
    return {"nontrivial": hard > 0 and miss > 0, "labels": sorted(labels)}


LEGS = [Leg("rich", make(True), judge, quick=3600, thorough=24000),
        Leg("schemas", make(False, size=9), judge, quick=3600, thorough=24000)]
