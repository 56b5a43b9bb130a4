"""P26: an error names the node that breaks a rule, and the rule."""
import copy
import json
import re
from ..core import Leg, Skip, Violation, HarnessError, expect
from ..d import case
from .. import rschema as rs, rtypes as rt, docs
from ..opdocs import gen_doc, doc_of
from ..typed import has_union, accept_text, kinds_in
from . import p01, p02

RULE = ("one case is a schema with several documents, most of them with one injected violation; it is non-trivial when at least two documents were refused "
        "for different rules or at different places, and one of these places is not a top-level node")
ASSUMPTIONS = ["the node of an error is: the object that lacks or must not have a member, the array that has too many, too few or equal entries, "
               "otherwise the node with the value or the failed condition", "when several rules are broken, the error fits one of them"]
CARD = {"few": "too-few-elements", "many": "too-many-elements", "dupkey": "non-unique-key", "dupll": "repeated-leaf-list-value", "unique": "data-not-unique"}
MUT = [(5, "drop"), (4, "add"), (5, "switch"), (3, "dup"), (2, "dropentry"), (4, "badval"), (3, "newval"), (2, "unknown"), (2, "rawkind"), (1, "prefix")]


def make(ops, muts=MUT, allow=(), **kw):
    @case
    def gen(d):
        f = rs.default_feat(any=False, ops=ops, **kw)
        mj = rs.Gen(d, f).gen()
        m = rs.Model(mj)
        out = []
        for _ in range(d.int(2, 3)):
            ct = d.choice(["config", "all"])
            dj = gen_doc(d, mj, m, ctype=ct, density=d.choice([60, 95, 95]), txt="ab1 " if d.p(70) else rt.TXT) if ops else None
            if dj is None:
                raw = rs.DataGen(d, m, ct, density=d.choice([60, 95, 95]), maxlist=4, txt="ab1 " if d.p(70) else rt.TXT).doc(allow=allow if d.p(50) else ())
                if raw is None:
                    continue
                dj = {"kind": "data", "op": None, "raw": raw}
            x = doc_of(m, dj)
            dj["ct"] = ct if dj["kind"] == "data" else "all"
            if allow:
                out.append(dict(dj))
            for _ in range(d.int(2, 5)):
                raw, mut = docs.mutate(d, m, dj["raw"], x.top, ops=muts, n=1 if d.p(85) else 2)
                out.append(dict(dj, raw=raw, mut=mut))
        return {"m": mj, "docs": out}
    return gen


# ------------------------------------------------------------------ places

def place(x, path):
    """Instance names and indexes from the root."""
    if x.kind in ("input", "output"):
        return (f"{x.m.mods[x.op['ns']]}:{x.kind}",) + tuple(path)
    if x.kind == "notification" and path and ":" not in path[0]:
        return (f"{x.m.mods[x.op['ns']]}:{path[0]}",) + tuple(path[1:])
    return tuple(path)


def at(x, path):
    """(schema node, raw value, spelled path) at a path of instance names in the document."""
    sn, v, out, segs = x.top, x.raw, [], list(path)
    for s in segs:
        if isinstance(s, int):
            v = v[s]
            out.append(s)
            continue
        key = None
        for k in v:
            c = docs.split(x.m, sn, k)
            if k == s or c is not None and c.iname() == s:
                key = k
        if key is None:
            raise HarnessError(f"{path} is not in the document")
        sn, v = docs.split(x.m, sn, key), v[key]
        out.append(key)
    return sn, v, out


def raw_paths(x, path):
    """Spellings of the place in an error of raw data: the pattern of the text."""
    res = ""
    if x.kind in ("input", "output"):
        res = "/" + re.escape(f"{x.m.mods[x.op['ns']]}:{x.kind}")
    sn, v = x.top, x.raw
    for s in path:
        if isinstance(s, int):
            alts = [f"/{s}", re.escape(f"[{s}]")]
            if sn is not None and sn.kind == "list" and isinstance(v[s], dict) and sn.j.get("keys"):
                alts.append("=" + ",".join(re.escape(str(v[s].get(k, "<missing>"))) for k in sn.j.get("keys", ())))
            res += "(?:" + "|".join(alts) + ")"
            v = v[s]
            continue
        key = s
        for k in v:
            c = docs.split(x.m, sn, k)
            if c is not None and c.iname() == s:
                key = k
        c = docs.split(x.m, sn, key)
        names = {key} | ({c.iname(), f"{x.m.mods[c.ns]}:{c.name}"} if c is not None else set())
        res += "/(?:" + "|".join(re.escape(k) for k in names) + ")"
        sn, v = c, v[key]
    return res


def pointer(path):
    return "/" + "/".join(str(s).replace("~", "~0").replace("/", "~1") for s in path)


# ------------------------------------------------------------------ rules

def quoted(msg):
    return re.findall(r"'([^']*)'", msg or "")


def why_not(x, b, e, ct):
    """None if the validation error e fits the violation b, else the reason."""
    kind, path = b.kind, b.path
    cls = type(e).__name__
    ptr = e.instance.json_pointer()

    def want(c, tag, where, *msgs):
        if cls != c:
            return f"class {cls}, not {c}"
        if not (e.tag.startswith(tag) if kind == "unique" else e.tag == tag):
            return f"tag {e.tag!r}, not {tag!r}"
        if ptr != pointer(place(x, where)):
            return f"place {ptr}, not {pointer(place(x, where))}"
        if msgs and e.message not in msgs and not (kind == "type" and (e.message or "").startswith(msgs[0] + ": ")):
            return f"message {e.message!r}, not {msgs}"
        return None

    if kind == "missing":
        _, o, _ = at(x, path)
        if any(v == [] and docs.split(x.m, at(x, path)[0], k).iname() == b.kw["member"] for k, v in o.items() if not k.startswith("@")):
            return want("SemanticError", "too-few-elements", tuple(path) + (b.kw["member"],))
        r = want("SchemaError", "missing-data", path)
        if r is None:
            q = quoted(e.message)
            if b.kw.get("choice"):
                sn = at(x, path)[0]
                ch = next(c for c in choices(sn) if c.name == b.kw["member"])
                names = {c.iname() for c in rs.case_data(ch)} | {f(c) for c in [ch] + list(choices(ch)) for f in (lambda q: q.name, lambda q: f"{x.m.mods[q.ns]}:{q.name}")}
            else:
                names = {b.kw["member"]}
            if x.kind == "notification" and not path:
                names |= {f"{x.m.mods[x.op['ns']]}:{n}" for n in names}
            if not set(q) & names:
                return f"message {e.message!r}, missing is one of {sorted(names)}"
        return r
    if kind in ("notallowed", "cases"):
        names = b.kw["names"] if kind == "cases" else [b.kw["member"]]
        if x.kind == "notification" and not path:
            names = names + [f"{x.m.mods[x.op['ns']]}:{n}" for n in names]
        return want("SchemaError", ("" if ct == "all" else ct + " ") + "member-not-allowed", path, *names)
    if kind == "keymissing":
        return want("SchemaError", "list-key-missing", path, b.kw["member"])
    if kind in CARD:
        r = want("SemanticError", CARD[kind], path)
        if r is None and kind == "unique":
            m = re.fullmatch(r"data-not-unique: entry (\d+)", e.tag)
            v = at(x, path)[1]
            if not m or not 0 < int(m.group(1)) < len(v):
                return f"tag {e.tag!r}"
        return r
    if kind == "must":
        return want("SemanticError", b.kw["tag"] or "must-violation", path, b.kw["msg"])
    if kind == "ref":
        return want("SemanticError", "instance-required", path)
    if kind == "type":
        return want("YangTypeError", b.kw["tag"] or "invalid-type", path, *([b.kw["msg"]] if b.kw["msg"] else []))
    raise HarnessError(kind)


def choices(sn):
    for c in sn.kids:
        if c.kind == "choice":
            yield c
        if not c.is_data:
            yield from choices(c)


def judge(c):
    from yangson import exceptions as X
    mj = c["m"]
    m = rs.Model(mj)
    dm = rs.load(mj)
    labels, places, n = set(), set(), 0
    conditions = re.search('"(must|when|unique|leafref|instance-identifier)"', json.dumps(mj))
    for dj in c["docs"]:
        x = doc_of(m, dj)
        ct = dj["ct"]
        try:
            bad = m.violations(x.raw, ct, x.top)
        except Skip as s:
            labels.add("docskip:" + str(s))
            continue
        if any(b.kind == "unsure" for b in bad) or not bad:
            continue
        v = docs.verdict(dm, x.full(), ct, "all", x.sub)
        if v[0] == "ok":
            raise Violation(f"{[(b.kind, b.path) for b in bad]} not detected\n{x.full()}")
        e = v[1]
        n += 1
        if v[0] == "raw":
            rawb = [b for b in bad if b.kind in ("unknown", "rawtype")]
            fit = [b for b in rawb if type(e).__name__ == {"unknown": "RawMemberError", "rawtype": "RawTypeError"}[b.kind]
                   and re.fullmatch(raw_paths(x, b.path), e.path)]
            expect(fit, "{} {!r}: expected one of {}\n{}", type(e).__name__, e.path, [(b.kind, raw_paths(x, b.path)) for b in rawb], x.full())
            expect(e.path in str(e), "text {} of the error at {}", e, e.path)
            b = fit[0]
        else:
            why = {}
            fit = []
            for b in bad:
                r = why_not(x, b, e, ct)
                if r is None:
                    fit.append(b)
                why[b.kind, b.path] = r
            if not fit and kindset(bad) & {"type", "cases"} and type(e).__name__ != "YangTypeError" and (
                    conditions or e.tag in CARD.values() or dj.get("mut") not in (["badval"], ["newval"])):
                labels.add("docskip:conditions on an invalid value")
                continue
            if not fit and isinstance(e, X.SemanticError) and "[]" in json.dumps(x.raw):
                labels.add("docskip:empty arrays")      # whether conditions see them is not settled
                continue
            expect(fit, "{} {}: {}\n{}", type(e).__name__, e, why, x.full())
            b = fit[0]
            route(dm, v[2], x, e, b, bad)
        labels.add(b.kind)
        labels.add(x.kind)
        places.add((b.kind, len(b.path)))
        if b.kw.get("tag") and b.kw["tag"] not in ("invalid-type",):
            labels.add("own tag")
    return {"nontrivial": len(places) > 1 and any(p[1] > 1 for p in places), "labels": sorted(labels), "n": n}


def prune(v):
    """Without empty arrays as members."""
    if isinstance(v, dict):
        return {k: prune(w) for k, w in v.items() if w != []}
    return [prune(w) for w in v] if isinstance(v, list) else v


def kindset(bad):
    return {b.kind for b in bad}


def route(dm, inst, x, e, b, bad):
    """The node and the text of the error lead to the place."""
    ptr = e.instance.json_pointer()
    text = str(e)
    where = str(e.instance.instance_route())
    expect(text == "{" + where + "} " + e.tag + (": " + e.message if e.message else ""), "text {} of the error at {}, {} {}", text, where, e.tag, e.message)
    kinds = {q.kind for q in bad}
    sn, un = x.top, False
    for s in b.path:
        if not isinstance(s, int):
            sn = docs.split(x.m, sn, s)
            un = un or any(has_union(x.m.leaf_type(k)[0]) for k in ([c for c, _ in sn.data_children() if x.m.is_key(c)] if sn.kind == "list" and sn.j.get("keys") else
                                                       [sn] if sn.kind == "leaf-list" else ()))
    if "type" not in kinds and "ref" not in kinds:
        v = x.canon()
        for s in place(x, b.path):
            v = v[s]
        got = e.instance.raw_value()
        expect(got == [] or rs.same(prune(got), prune(v)) or kinds & {"dupkey", "keymissing"}, "the node of the error is {}, not {}", got, v)
    if x.kind == "data" and not un and not kinds & {"dupkey", "keymissing", "dupll", "type"} and '"' not in re.sub(r'="[^"]*"\]', "", where):
        nd = inst.goto(dm.parse_instance_id(where)) if where != "/" else inst
        expect(nd.json_pointer() == ptr, "{} leads to {}, not to {}", where, nd.json_pointer(), ptr)


# ------------------------------------------------------------------ XML documents

@case
def gen_xml(d):
    mj = rs.Gen(d, rs.default_feat(any=False, typedefs=15, when=False, must=False, choice=d.p(30), size=8)).gen()
    m = rs.Model(mj)
    raw = rs.DataGen(d, m, "all", density=95, txt="ab1 ").doc() or {}
    return {"m": mj, "raw": raw, "bad": [[d.weighted([(3, "unknown"), (1, "nowhere"), (5, "value")]), d.int(0, 999), d.int(0, 999),
                                          d.choice(["zzz", "", "x y", "1.5", "-1", "999999999999999999999", "true", "=", "a:b", "\u00e9"])] for _ in range(d.int(3, 6))]}


def pair(m, el, rn, where, out):
    """All (element, reference node, pattern of its place)."""
    out.append((el, rn, where))
    n = {}
    for k in rn.children:
        tag = f"{{{rs.ns_uri(m.mods[k.schema.ns])}}}{k.name}"
        i = n[tag] = n.get(tag, -1) + 1
        e = [x for x in el if x.tag == tag][i]
        names = {f"{k.ns}:{k.name}"} | ({k.name} if rn.kind != "root" and k.ns == rn.ns else set())
        p = where + "/(?:" + "|".join(re.escape(q) for q in names) + ")"
        if k.kind in ("entry", "item"):
            alts = [f"/{i}", re.escape(f"[{i}]")]
            keys = k.schema.j.get("keys") if k.kind == "entry" else None
            if keys:
                alts.append("=" + ",".join(re.escape(next((x.text or "" for x in e if x.tag == tag[:tag.index("}") + 1] + q), "")) for q in keys))
            p += "(?:" + "|".join(alts) + ")"
        pair(m, e, k, p, out)


def judge_xml(c):
    import xml.etree.ElementTree as ET
    from yangson import exceptions as X
    from yangson.xmlparser import XMLParser
    m = rs.Model(c["m"])
    dm = rs.load(c["m"])
    base = dm.from_raw(copy.deepcopy(c["raw"]))
    tree = m.build(c["raw"])
    text0 = ET.tostring(base.to_xml(), encoding="unicode")
    labels, depth = set(), 0
    for kind, a, b, text in c["bad"]:
        top = XMLParser(text0).root
        all_ = []
        pair(m, top, tree, "", all_)
        if kind == "value":
            cand = [x for x in all_ if x[1].val is not None]
            if not cand:
                continue
            el, rn, where = cand[a % len(cand)]
            if m.is_key(rn.schema):
                continue
            T, tc = m.leaf_type(rn.schema)
            if T["t"] == "instance-identifier" or set(kinds_in(T)) & {"identityref", "union", "binary"}:
                continue
            try:
                accept_text(T, text, m.ctx, tc.ns)
                continue
            except rt.Reject as r:
                stage = r.stage
            except Skip:
                continue
            el.text = text
            want = X.RawTypeError if stage == "raw" else X.YangTypeError
        else:
            cand = [x for x in all_ if x[1].kind in ("root", "cont", "entry")]
            el, rn, where = cand[a % len(cand)]
            mod = b % len(m.mods)
            if rn.schema.child("zzz", mod)[0] is not None:
                continue
            ns = rs.ns_uri(m.mods[mod]) if kind == "unknown" else "urn:nowhere"
            el.insert(b % (len(el) + 1), ET.Element(f"{{{ns}}}zzz"))
            where += f"/(?:{m.mods[mod]}:)" + ("" if rn.kind == "root" or m.mods[mod] != rn.ns else "?") + "zzz"
            want = X.RawMemberError if kind == "unknown" else X.MissingModuleNamespace
        try:
            inst = dm.from_xml(top)
            inst.validate()
        except (X.RawMemberError, X.RawTypeError, X.MissingModuleNamespace, X.YangTypeError) as e:
            expect(type(e) is want or kind == "value" and type(e) is X.RawTypeError, "{}: {} {} at {}", kind, type(e).__name__, e, where)
            if hasattr(e, "path"):
                expect(re.fullmatch(where, e.path), "{}: {} at {!r}, expected {}", kind, type(e).__name__, e.path, where)
        except (X.SchemaError, X.SemanticError):
            if want is not X.YangTypeError:
                raise
            labels.add("skip:other rule")
            continue
        else:
            raise Violation(f"{kind} {text!r} at {where} not detected")
        labels.add(f"{kind}:{want.__name__}")
        depth = max(depth, where.count("/(?:"))
    return {"nontrivial": len(labels) > 1 and depth > 2, "labels": sorted(labels), "n": len(c["bad"])}


SIMPLE = p01.SIMPLE
LEGS = [Leg("tree", make(False, kinds=SIMPLE, typedefs=10), judge, quick=3000, thorough=30000),
        Leg("ops", make(True, size=6, must=True, unique=True), judge, quick=3000, thorough=30000),
        Leg("semantics", make(False, muts=p02.MUT, allow=p02.SEM, kinds=p02.KINDS, typedefs=10, must=True, unique=True, leafref=True, iid=True), judge, quick=3000, thorough=30000),
        Leg("values", make(False, muts=[(6, "badval"), (2, "newval"), (2, "rawkind")], typedefs=50, when=False, choice=False, must=False, mand=False), judge,
            quick=3000, thorough=30000),
        Leg("xml", gen_xml, judge_xml, quick=3000, thorough=30000)]
