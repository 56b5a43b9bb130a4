"""P20: arbitrary and mutated input is accepted or refused with a documented exception."""
import copy
import json
import xml.etree.ElementTree as ET
from ..core import Leg, Skip, Violation, HarnessError
from ..d import case
from .. import rschema as rs, rtypes as rt, rxpath as rx, docs, opdocs, ystmt as ys
from ..rich import RICH
from ..xgen import XGen

RULE = ("one case is a model and a batch of inputs for one kind of entry point (JSON values, XML, addresses, expressions, module texts, library data, "
        "edits): arbitrary ones, and valid ones with several random alterations; it is non-trivial when at least one input was accepted and at least one "
        "was refused, or refusals of two different kinds occurred")
ASSUMPTIONS = ["nesting of input is limited to what the interpreter's stack allows", "the types of Python arguments are those in the documentation",
               "conversion of anydata to XML is documented as not implemented"]
KINDS = [(3, "string"), (2, "boolean"), (2, "uint8"), (2, "enumeration"), (2, "empty"), (2, "identityref"), (3, "union"), (2, "int64"), (2, "bits"),
         (2, "decimal64"), (2, "binary"), (1, "uint64")]


class Log:
    def __init__(self):
        self.ok, self.bad, self.n = 0, {}, 0

    def done(self):
        return {"nontrivial": bool(self.ok and self.bad or len(self.bad) > 1), "labels": sorted(self.bad) + (["accepted"] if self.ok else []), "n": self.n}


def attempt(log, what, fn, *more, only=None):
    """Result of fn(), or None when it was refused properly."""
    from yangson.exceptions import YangsonException
    log.n += 1
    try:
        r = fn()
    except (YangsonException,) + more as e:
        try:
            t = str(e)
        except Exception as x:
            raise Violation(f"{what}: {type(e).__name__} has no printable message: {type(x).__name__}: {x}")
        if not isinstance(t, str):
            raise Violation(f"{what}: message {t!r}")
        if only and only not in [c.__name__ for c in type(e).__mro__]:
            raise Violation(f"{what}: {type(e).__name__}: {t} is not a {only}")
        log.bad[type(e).__name__] = log.bad.get(type(e).__name__, 0) + 1
        return None
    except Violation:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{f.filename.rpartition('/')[2]}:{f.lineno}" for f in tb[-4:])
        raise Violation(f"{what}: {type(e).__name__}: {str(e)[:300]} [{where}]")
    log.ok += 1
    return r


# ------------------------------------------------------------------ JSON values

SCAL = [None, True, False, 0, 1, -1, 255, 256, 2 ** 63, -2 ** 64, 10 ** 30, 0.5, -0.0, 1e300, 1e-300, "", " ", "a", "1", "-1", "0x1f", "1e3", "true", "null",
        "[null]", "ma:da", "da", ":", "a:b:c", "é", "\U0001f600", "\x00", "AA==", "A", "one", "b0 b0", "b0 b1", "/", "/ma:c", "/ma:l[k='x']", "..", "nan",
        "inf", "1_0", "٣", "\n", "\ud7ff", "9" * 40, "1" * 300 + ".5"]


def gen_json(d, depth=2):
    k = d.int(0, 9)
    if depth and k == 0:
        return [gen_json(d, depth - 1) for _ in range(d.int(0, 3))]
    if depth and k == 1:
        return {gen_key(d): gen_json(d, depth - 1) for _ in range(d.int(0, 3))}
    if k == 2:
        return d.choice([[], {}, [None], [[]], [{}], {"": 1}, [None, None], {"@": {}}])
    return d.choice(SCAL)


KEYS = ["@", "@a", "@ma:a", "@ma:c", "@@", "", ":", "a:", ":a", "a", "ma:a", "mb:a", "a:b:c", "zz:a", "ma:c", "c", "x", "k", " ", "é", "/", "@:", "@zz:zz", "ma", "@ma:zzz"]


def gen_key(d):
    return d.choice(KEYS)


def spots(v, path=()):
    yield path
    if isinstance(v, dict):
        for k in v:
            yield from spots(v[k], path + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            yield from spots(v[i], path + (i,))


def break_json(d, raw, n):
    raw = copy.deepcopy(raw)
    for _ in range(n):
        ps = list(spots(raw))
        p = d.choice(ps)
        par = raw
        for k in p[:-1]:
            par = par[k]
        op = d.int(0, 9)
        cur = par[p[-1]] if p else raw
        if op <= 3 or not p:
            new = gen_json(d)
            if d.p(20):
                new = copy.deepcopy(at(raw, d.choice(ps)))
            if d.p(15):
                new = [cur]
            if p:
                par[p[-1]] = new
            elif d.p(40):
                raw = new
        elif op <= 5 and isinstance(par, dict):
            k = d.choice([gen_key(d), "@" + p[-1], p[-1].rpartition(":")[2], "mb:" + p[-1], "ma:" + p[-1].rpartition(":")[2]])
            if d.p(50):
                par[k] = par.pop(p[-1])
            else:
                par[k] = gen_json(d)
        elif op == 6 and isinstance(par, dict):
            par["@" + p[-1]] = d.choice([gen_json(d), {gen_key(d): gen_json(d)}, [None, {gen_key(d): gen_json(d)}], {"ma:zz": 1}])
        elif op == 7 and isinstance(par, list):
            par.insert(p[-1], gen_json(d) if d.p(60) else copy.deepcopy(par[p[-1]]))
        elif op == 8:
            if isinstance(par, dict) or isinstance(par, list):
                del par[p[-1]]
        elif isinstance(cur, dict):
            cur["@"] = d.choice([gen_json(d), {gen_key(d): gen_json(d)}])
    return raw


def at(v, p):
    for k in p:
        v = v[k]
    return v


def model(d, **kw):
    if d.p(25):
        return RICH
    f = rs.default_feat(kinds=KINDS, typedefs=15, **{**dict(must=d.p(50), unique=d.p(40), leafref=d.p(50), iid=d.p(40), ops=d.p(40)), **kw})
    return rs.Gen(d, f).gen()


@case
def gen_raw(d):
    mj = model(d)
    m = rs.Model(mj)
    out = []
    for _ in range(d.int(2, 5)):
        dj = opdocs.gen_doc(d, mj, m, "all", density=d.choice([40, 90])) or {"kind": "data", "op": None, "raw": {}}
        doc = opdocs.doc_of(m, dj)
        full = doc.full(docs.mutate(d, m, dj["raw"], doc.top)[0] if d.p(20) else None)
        if d.p(15):
            full = gen_json(d, 3)
        out.append({"sub": d.choice([doc.sub, doc.sub, doc.sub, "ma:c", "zz", "a:b:c", ":", "ma:zzz"]) if d.p(30) else doc.sub,
                    "raw": break_json(d, full, d.int(1, 4))})
    return {"m": mj, "docs": out}


def use(log, inst, what, valid_only=False):
    """Read-only requests on an accepted document."""
    from yangson.enumerations import ContentType, ValidationScope
    good = True
    for scope in ValidationScope:
        for ct in (ContentType.config, ContentType.all):
            if attempt(log, f"validate {scope.name} {ct.name} {what}", lambda: inst.validate(scope, ct) or True, only="ValidationError") is None:
                good = False
    attempt(log, f"raw_value {what}", inst.raw_value, only="NONE")
    attempt(log, f"add_defaults {what}", lambda: inst.add_defaults(ContentType.all).raw_value(), only="NONE")
    if good:
        attempt(log, f"to_xml {what}", inst.to_xml, NotImplementedError)
    return good


def check_raw(c):
    dm = rs.load(c["m"])
    log = Log()
    for x in c["docs"]:
        what = f"{json.dumps(x['raw'])[:600]} {x['sub']}"
        i = attempt(log, f"from_raw {what}", lambda: dm.from_raw(x["raw"], x["sub"]))
        if i is not None:
            use(log, i, what)
    return log.done()


# ------------------------------------------------------------------ XML

def break_xml(d, el, n):
    for _ in range(n):
        els = list(el.iter())
        els = [x for x in els if isinstance(x.tag, str)]
        e = d.choice(els)
        op = d.int(0, 9)
        if op == 0:
            e.text = d.choice([None, "", " ", "zz", "1", "ma:da", "da", "a b", "/ma:c", "-", "é", "AA="])
        elif op == 1:
            e.tag = d.choice(["a", "{urn:x:ma}a", "{urn:x:zz}a", "{}a", "{urn:x:mb}c", "{urn:x:ma}c", d.choice(els).tag, e.tag.rpartition("}")[2], "{urn:x:ma}-"])
        elif op == 2:
            o = copy.deepcopy(d.choice(els))
            e.insert(d.int(0, len(e)), o)
        elif op == 3 and len(e):
            e.remove(e[d.int(0, len(e) - 1)])
        elif op == 4:
            e.set(d.choice(["a", "{urn:x:ma}a", "{urn:x:zz}b", "xmlns:zz", "operation", "{urn:ietf:params:xml:ns:yang:ietf-netconf-with-defaults}default"]),
                  d.choice(["", "1", "true", "urn:x:ma"]))
        elif op == 5:
            e.attrib.clear()
        elif op == 6:
            e.tail = "zz"
        elif op == 7 and len(e) > 1:
            kids = d.shuffle(list(e))
            e[:] = kids
        elif op == 8:
            e.insert(0, d.choice([ET.Comment("x"), ET.ProcessingInstruction("x", "y")]))
        else:
            s = ET.SubElement(e, d.choice([d.choice(els).tag, "x", "{urn:x:ma}x"]))
            s.text = d.choice([None, "1", "zz"])
    return el


@case
def gen_xml(d):
    """The XML itself is made when checking, from the seed of alterations kept in the case: here only JSON data."""
    mj = model(d, any=False)
    m = rs.Model(mj)
    out = []
    for _ in range(d.int(2, 4)):
        dj = opdocs.gen_doc(d, mj, m, "all", density=d.choice([40, 90])) or {"kind": "data", "op": None, "raw": {}}
        doc = opdocs.doc_of(m, dj)
        try:
            el = to_el(m, doc)
        except (Skip, rs.Bad):
            continue
        text = ET.tostring(break_xml(d, el, d.int(1, 4)), encoding="unicode")
        if d.p(15):
            i = d.int(0, len(text) - 1)
            text = text[:i] + d.choice(["", "<", ">", "&", "</a>", "\x01", "<!--", "\"", "&#0;", "<a/>", "]]>", " "]) + text[i + d.int(0, 3):]
        sub = doc.sub
        if d.p(25):
            sub = d.choice(["ma:c", "zz", "a:b:c", ":", "ma:zzz", None])
        out.append({"sub": sub, "xml": text})
    return {"m": mj, "docs": out}


def to_el(m, doc):
    """Plain XML form of a document."""
    root = ET.Element("content-data")
    top = root
    if doc.kind in ("input", "output", "notification"):
        top = ET.SubElement(root, f"{{{rs.ns_uri(m.mods[doc.op['ns']])}}}{doc.op['name'] if doc.kind == 'notification' else doc.kind}") \
            if doc.kind != "notification" else root

    def rec(rn, el):
        for c in rn.children:
            if c.default:
                continue
            e = ET.SubElement(el, f"{{{rs.ns_uri(m.mods[c.schema.ns])}}}{c.schema.name}")
            if c.val is not None:
                try:
                    e.text = "".join(ch for ch in rt.canon(c.val) if ch >= " " or ch in "\n\t")
                except Skip:
                    e.text = "x"
            else:
                rec(c, e)
    rec(doc.tree(), top)
    return root


def check_xml(c):
    from yangson.xmlparser import XMLParser
    dm = rs.load(c["m"])
    log = Log()
    for x in c["docs"]:
        what = f"{x['xml'][:700]} {x['sub']}"
        el = attempt(log, f"XMLParser {what}", lambda: XMLParser(x["xml"]).root, ET.ParseError)
        if el is None:
            continue
        i = attempt(log, f"from_xml {what}", lambda: dm.from_xml(el, x["sub"]), NotImplementedError)
        if i is not None:
            use(log, i, what)
    return log.done()


# ------------------------------------------------------------------ texts of addresses and expressions

def mangle(d, text, tokens, n):
    for _ in range(n):
        i = d.int(0, len(text))
        op = d.int(0, 5)
        if op <= 2:
            text = text[:i] + d.choice(tokens) + text[i:]
        elif op == 3:
            text = text[:i] + text[i + d.int(1, 3):]
        elif op == 4:
            j = d.int(0, len(text))
            i, j = min(i, j), max(i, j)
            text = text[:j] + text[i:j][:12] + text[j:]
        else:
            text = text[:i] + d.choice(tokens) + text[i + d.int(1, 3):]
    return text


IDTOK = ["/", "ma:", "mb:", "zz:", "a", "c", "l", "k", "x", "=", "[", "]", "'", "\"", "[1]", "[0]", "[-1]", "[k='x']", "[.='1']", "[j='one']", ",", "%", "%2", "%2F",
         "%zz", "%c3%28", "%00", ".", "..", "//", " ", "\t", "*", "é", ":", "@", "1", "99999999999999999999", "-", "#", "[k=\"", "[ma:k = 'x']", "''", "\x00", "u",
         "[k='a'][k='b']", "=,", "=a,b,c,d", "rpc1", "٣", "[٣]", "&", "?", "l=x", "/ma:l", "any", "e", "n=1,one"]


@case
def gen_ids(d):
    mj = model(d)
    m = rs.Model(mj)
    raw = rs.DataGen(d, m, "all", density=90).doc() or {}
    out = []
    valid = ["/ma:c/in/x", "/ma:l[k='x']/n[k='1'][j='one']/v", "/ma:l=x/n=1,one", "/ma:e[.='x']", "/mb:c/l"] if mj is RICH else []
    try:
        rn = m.build(raw)
        for n in rn.desc():
            if rs.iid_ok(n):
                valid.append(rs.iid_text(m, n))
    except (Skip, rs.Bad):
        pass
    valid = [v for v in valid if v]
    valid += ["".join(f"/{m.mods[a]}:{b}" for a, b in s.dpath()) for s in m.all_data()]
    for _ in range(d.int(6, 14)):
        r = d.int(0, 9)
        if r < 7 and valid:
            t = mangle(d, d.choice(valid), IDTOK, d.int(0, 3))
        else:
            t = "".join(d.choice(IDTOK) for _ in range(d.int(0, 8)))
        out.append(t)
    return {"m": mj, "raw": raw, "ids": out}


def check_ids(c):
    dm = rs.load(c["m"])
    log = Log()
    inst = dm.from_raw(c["raw"])
    for t in c["ids"]:
        for how in ("parse_instance_id", "parse_resource_id"):
            r = attempt(log, f"{how} {t!r}", lambda: getattr(dm, how)(t))
            if r is None:
                continue
            str(r)
            n = attempt(log, f"goto {t!r} ({how}) in {c['raw']}", lambda: inst.goto(r))
            attempt(log, f"peek {t!r} ({how}) in {c['raw']}", lambda: inst.peek(r) or 1)
            if n is not None:
                attempt(log, f"pointer {t!r} in {c['raw']}", lambda: (n.json_pointer(), str(n.instance_route()), n.raw_value()))
        for how in ("get_data_node", "get_schema_node"):
            r = attempt(log, f"{how} {t!r}", lambda: getattr(dm, how)(t) or 1)
        attempt(log, f"instance-identifier value {t!r}", lambda: dm.schema_data is not None)
    return log.done()


XTOK = ["/", "//", "..", ".", "*", "@", "(", ")", "[", "]", "|", "+", "-", "=", "!=", "<", "<=", ">", ">=", " and ", " or ", " div ", " mod ", "::", ":", ",",
        "$", "'", "\"", "1", "1.5", ".5", "1.", "1..2", "a", "pma:a", "xmb:a", "zz:a", "ma:a", "ancestor::", "following-sibling::", "namespace::", "attribute::",
        "descendant-or-self::", "self::", "self::node()", "text()", "comment()", "processing-instruction('a')", "node()", "count(", "last()", "position()",
        "current()", "deref(.)", "deref(", "re-match(., '", "re-match('a','[')", "derived-from(., 'ma:da')", "derived-from-or-self(.,'zz:x')", "enum-value(.)",
        "bit-is-set(., 'b0')", "id('a')", "lang('en')", "sum(.)", "translate('a','b','c')", "substring('abc', 1 div 0)", "string(", "concat(", "concat('a')",
        "name()", "local-name()", "namespace-uri()", "number('x')", "floor(", "round(-0.5)", "boolean(", "true(", "1 div 0", "-", "--", "é", "[1]", "[0]", "[-1]",
        "[1 div 0]", "[.]", "[position() = last()]", "0 div 0", " ", "\n", "\t", "not(", "normalize-space()", "string-length()", "starts-with('a',", "''", "#", "\x00"]


@case
def gen_xp(d):
    mj = model(d)
    m = rs.Model(mj)
    raw = rs.DataGen(d, m, "all", density=90).doc() or {}
    mod = len(m.mods) - 1
    out = []
    nodes = list(m.all_data())
    em = rs.Emitter(mj).run()
    for _ in range(d.int(4, 10)):
        if d.p(75):
            g = XGen(d, m, mod, ["a", "1"])
            s = d.choice(nodes)
            g.cur = s
            t = mangle(d, rx.text(g.expr(s, d.int(1, 3)), em.pfx(mod)), XTOK, d.int(0, 3))
        else:
            t = "".join(d.choice(XTOK) for _ in range(d.int(0, 8)))
        out.append([t, d.int(0, 30)])
    return {"m": mj, "raw": raw, "xs": out}


def check_xp(c):
    from yangson.xpathparser import XPathParser
    from yangson.schemadata import SchemaContext
    from .p19 import paths, locate
    m = rs.Model(c["m"])
    dm = rs.load(c["m"])
    log = Log()
    inst = dm.from_raw(c["raw"])
    ps = list(paths(inst))
    name = m.mods[-1]
    for t, i in c["xs"]:
        e = attempt(log, f"XPath {t!r}", lambda: XPathParser(t, SchemaContext(dm.schema_data, name, (name, ""))).parse())
        if e is None:
            continue
        attempt(log, f"printing XPath {t!r}", lambda: (str(e), e.syntax_tree()))
        p = ps[i % len(ps)]
        n = locate(inst, p)
        attempt(log, f"evaluating {t!r} at {p} in {c['raw']}", lambda: (e.evaluate(n), 1))
        attempt(log, f"truth of {t!r} at {p} in {c['raw']}", lambda: (e.is_true(n), 1))
    return log.done()


FTOK = ["and", "or", "not", "(", ")", " ", "\n", "fa", "fb", "ma:fa", "zz:fa", ":", "ma:", "nota", "andfa", "  ", "-", "é", "((", "not not ", "or or", "\t", "@", "1"]


@case
def gen_feat(d):
    out = []
    for _ in range(d.int(6, 14)):
        if d.p(60):
            t = mangle(d, d.choice(["fa and fb", "not (fa or fb)", "ma:fa", "fa or not fb and fa", "(fa)"]), FTOK, d.int(0, 3))
        else:
            t = "".join(d.choice(FTOK) for _ in range(d.int(0, 8)))
        out.append(t)
    return {"exprs": out}


def feat_model():
    from yangson import DataModel
    with rs.Workspace({"ma.yang": "module ma { yang-version 1.1; namespace 'urn:x:ma'; prefix ma; feature fa; feature fb; leaf a { type string; } }"}) as w:
        return DataModel(rs.yang_library(["ma"], features={"ma": ["fa"]}), (w,))


def check_feat(c):
    from yangson.schemadata import FeatureExprParser
    dm = feat_model()
    log = Log()
    for t in c["exprs"]:
        attempt(log, f"if-feature {t!r}", lambda: (FeatureExprParser(t, dm.schema_data, ("ma", "")).parse(), 1))
    return log.done()


# ------------------------------------------------------------------ edits and values

@case
def gen_edits(d):
    mj = model(d)
    m = rs.Model(mj)
    raw = rs.DataGen(d, m, "all", density=90).doc() or {}
    names = sorted({s.iname() for s in m.all_data()}) + KEYS
    out = []
    for _ in range(d.int(5, 12)):
        o = {"at": d.int(0, 60), "op": d.choice(["put", "update", "before", "after", "lookup", "delete", "get", "sibling", "value", "merge", "next", "valid"]),
             "k": d.choice(names) if d.p(75) else d.int(-3, 5), "v": gen_json(d, 2), "raw": d.p(75)}
        if d.p(40):
            s = d.choice(list(m.all_data()))
            dg = rs.DataGen(d, m, "all", density=70)
            dg.budget = 8
            v = docs.val(dg, s)
            if v is not None:
                o["v"] = break_json(d, v[0], d.int(0, 2))
        if o["op"] == "lookup":
            o["v"] = {d.choice(names): gen_json(d, 1) for _ in range(d.int(0, 3))}
        out.append(o)
    return {"m": mj, "raw": raw, "ops": out}


def check_edits(c):
    from .p19 import paths, locate
    dm = rs.load(c["m"])
    log = Log()
    inst = dm.from_raw(c["raw"])
    for o in c["ops"]:
        ps = list(paths(inst))
        n = locate(inst, ps[o["at"] % len(ps)])
        v, k, op = copy.deepcopy(o["v"]), o["k"], o["op"]
        what = f"{o} at {n.json_pointer()} of {inst.raw_value()}"
        name = k if isinstance(k, str) else "a"
        new = None
        if op == "put":
            new = attempt(log, what, lambda: n.put_member(name, v, raw=True))
        elif op == "update":
            new = attempt(log, what, lambda: n.update(v, raw=True))
        elif op in ("before", "after"):
            if "insert_" + op not in dir(n):
                continue
            new = attempt(log, what, lambda: getattr(n, "insert_" + op)(v, raw=True))
        elif op == "lookup":
            attempt(log, what, lambda: n.look_up(True, **v), TypeError if "raw" in v or "self" in v else NotImplementedError)
        elif op == "delete":
            from yangson.instvalue import ArrayValue
            new = attempt(log, what, lambda: n.delete_item(name if not isinstance(n.value, ArrayValue) else (k if isinstance(k, int) else 0)))
        elif op == "get":
            attempt(log, what, lambda: n[k if isinstance(k, str) != isinstance(n.value, list) else (0 if isinstance(n.value, list) else "a")])
        elif op in ("next", "sibling"):
            if "next" not in dir(n) and op == "next" or "sibling" not in dir(n) and op == "sibling":
                continue
            attempt(log, what, lambda: n.next() if op == "next" else n.sibling(name))
        elif op == "value":
            t = getattr(n.schema_node, "type", None)
            if t is None:
                continue
            x = attempt(log, f"value {v!r} {what}", lambda: (t.from_raw(v), 1))
            if isinstance(v, str):
                attempt(log, f"text {v!r} {what}", lambda: (t.parse_value(v), 1))
            if x and x[0] is not None:
                attempt(log, f"value {v!r} {what}", lambda: (x[0] in t, 1))
        elif op == "valid":
            use(log, inst, what)
        if new is not None:
            r = attempt(log, f"top after {what}", new.top)
            if r is not None:
                attempt(log, f"dump after {what}", r.raw_value)
                inst = r
                if len(json.dumps(inst.raw_value())) > 4000:
                    break
    use(log, inst, f"{c['ops']} on {c['raw']}")
    return log.done()


# ------------------------------------------------------------------ schemas

YTOK = ["{", "}", ";", "'", "\"", "+", "//", "/*", "*/", " ", "\n", "\\", "a", "leaf", "leaf x { type string; }", "type string;", "type leafref;", "key a;", "key 'a a';",
        "mandatory maybe;", "min-elements -1;", "max-elements x;", "default x;", "uses zz;", "uses g;", "augment /a { leaf q { type string; } }", "augment zz;",
        "import zz { prefix zz; }", "include zz;", "config perhaps;", "status old;", "when '[';", "must '1 +';", "must 'zz:a';", "path '..';", "path '/zz:a';",
        "type union;", "type enumeration;", "type bits;", "type identityref;", "type decimal64;", "type zz;", "type zz:t;", "type ma:t;", "base zz;", "range '5..1';",
        "range 'x';", "length '-1';", "pattern '[';", "pattern '\\p{Zz}';", "fraction-digits 19;", "fraction-digits x;", "enum a;", "enum a { value x; }", "bit b { position -1; }",
        "unique a;", "unique 'zz';", "refine zz { mandatory true; }", "deviation /a { deviate delete { zz q; } }", "deviation /a { deviate not-supported; }",
        "deviation /ma:a { deviate add { default 1; } }", "deviate zz;", "if-feature 'zz and';", "if-feature zz;", "feature zz;", "identity zz { base zz; }", "typedef t { type t; }",
        "grouping g { uses g; }", "rpc r { input { leaf a { type string; } } }", "notification n;", "action a;", "choice c { default zz; }", "case c;", "anydata d;", "anyxml d;",
        "ordered-by zz;", "presence 1;", "yang-version 1;", "yang-version 2;", "revision 2020-01-01;", "revision xx;", "prefix zz;", "namespace '';", "ext:foo bar;", "zz:foo;",
        "é", "\x00", "\t", "+ 'a'", "/", ":", "value 1;", "require-instance maybe;", "error-app-tag x;", "modifier invert-match;", "units s;", "bogus;"]


@case
def gen_ytext(d):
    """Texts for the module parser alone: arbitrary alterations."""
    out = []
    f = rs.default_feat(kinds=KINDS, typedefs=25, must=True, ops=d.p(40), size=4, maxmods=2)
    mj = rs.Gen(d, f).gen()
    texts = rs.Emitter(mj).run().texts()
    for _ in range(d.int(3, 8)):
        t = texts[d.choice(sorted(texts))]
        if d.p(20):
            t = "".join(d.choice(YTOK + ["module ma {", "}"]) for _ in range(d.int(0, 10)))
        else:
            t = mangle(d, t, YTOK, d.int(1, 4))
        out.append(t)
    return {"texts": out}


def check_ytext(c):
    from yangson.statement import ModuleParser
    log = Log()
    for t in c["texts"]:
        st = attempt(log, f"module text {t!r}", lambda: ModuleParser(t).parse())
        if st is not None:
            attempt(log, f"statement of {t!r}", lambda: (str(st), st.find1("leaf"), st.find_all("container"), 1))
        attempt(log, f"module ma from text {t!r}", lambda: ModuleParser(t, "ma", "2020-01-01").parse())
    return log.done()


REFS = ["zz", "zz:zz", "pma:zz", "xma:zz", "pmb:zz", "ma:a", "_", "zz:"]
TEXTS = {"type": REFS, "uses": REFS, "base": REFS, "if-feature": REFS + ["a and", "not", "(zz", "pma:zz or not"], "import": ["zz", "mz"],
         "augment": ["/pma:zz", "/zz:zz", "/pma:zz/pma:y", "/", "pma:zz", "//"], "refine": ["zz", "zz/zz", "zz:zz", "/"],
         "key": ["zz", "k zz", "zz zz", "zz:k"], "unique": ["zz", "zz/zz", "zz:a", "a zz", "1"], "prefix": ["zz", "zzz"],
         "default": ["", "zz", "-1", "999999999999999999999", "zz:zz", "true", "1.5", "/zz", "b0 b0", "["],
         "range": ["zz", "1..", "..", "5..1", "1|", "|1", "min..max", "max..min", "-1", "1.5", "1 .. 2 | 2", "999999999999999999999999", "0x1", ""],
         "length": ["zz", "-1", "1..", "5..1", "1|", "min..max", "1.5", "99999999999999999999999999", ""],
         "pattern": ["[", "(", "*", "a{2,1}", "\\p{Zz}", "\\p{L", "\\", "[a-", "[z-a]", "a{99999999}", "(?:a)", "[^]", "\\1", "\\i\\c", "[a-[b]]", "\\d"],
         "path": ["..", "/", "/zz:a", "../zz", "/pma:zz", "1", "../a[", "deref(a)/../b", "", ".", "../../../../../../a"],
         "must": None, "when": None}
EXTRA = [["feature", "zz", [["if-feature", "zy", []]]], ["identity", "zz", [["base", "zy", []]]], ["augment", "/pma:zz", [["leaf", "zz", [["type", "string", []]]]]],
         ["deviation", "/pma:zz", [["deviate", "not-supported", []]]], ["deviation", "/zz:zz", [["deviate", "not-supported", []]]],
         ["uses", "zz", []], ["leaf", "zz", [["type", "zz", []]]], ["leaf", "zz", [["type", "leafref", [["path", "../zy", []]]]]],
         ["leaf", "zz", [["type", "identityref", [["base", "zy", []]]]]], ["import", "zz", [["prefix", "zz", []]]], ["include", "zz", []],
         ["leaf", "zz", [["type", "string", []], ["must", "zz:a", []]]], ["leaf", "zz", [["type", "string", []], ["default", "zz", []], ["when", "zz:a = 1", []]]],
         ["leaf", "zz", [["type", "union", [["type", "zz", []], ["type", "string", []]]]]], ["rpc", "zz", [["input", None, [["uses", "zy", []]]]]],
         ["leaf", "zz", [["type", "string", []], ["if-feature", "zz:zz", []]]], ["choice", "zz", [["default", "zy", []], ["leaf", "zy2", [["type", "string", []]]]]]]


DEFAULTS = TEXTS["default"] + ["/pma:a", "/zz:a", "/pma:a/pma:b[1]", "/pma:a[pma:k='x']", "/pma:a[.='x']", "/pma:a[.=1]", "/pma:a[pma:k=1]", "/pma:a[pma:k>'1']", "/pma:a[1.5]",
                               "/pma:a[0]", "/pma:a[", "/pma:a | /pma:b", "//pma:a", "/*", "/pma:a/@b", "/pma:a[pma:k='x'][2]", "/pma:a[position()=1]", "1 + 2", "/pma:a/..",
                               "pma:a", "..", "-", "+", "0x", "08", "1e5", "1.", ".5", "-0", "١", " 1", "1 ", "false ", "=", "QQ=", "b0  b1", "pma:", ":a", "a:b:c"]
TYPES = [["instance-identifier", []], ["union", [["type", "instance-identifier", []], ["type", "string", [["length", "0..3", []]]]]], ["union", [["type", "uint8", []]]],
         ["int8", []], ["uint64", []], ["decimal64", [["fraction-digits", "2", []]]], ["boolean", []], ["empty", []], ["binary", []], ["bits", [["bit", "b0", []], ["bit", "b1", []]]],
         ["enumeration", [["enum", "a", []], ["enum", "b c", []]]], ["identityref", [["base", "zzid", []]]], ["leafref", [["path", "../zz0", []]]],
         ["string", [["pattern", "[0-9]*", []]]], ["zzt", []]]


def typed_leafs(d):
    """Leafs of any type with any default: what can't be a value of the type has to be refused as such."""
    T = d.choice(TYPES)
    n = ["leaf-list" if d.p(15) else "leaf", "zz9", [["type", T[0], T[1]], ["default", d.choice(DEFAULTS), []]]]
    res = [["identity", "zzid", []], ["typedef", "zzt", [["type", "instance-identifier", []]] + ([["default", d.choice(DEFAULTS), []]] if d.p(30) else [])],
           ["leaf", "zz0", [["type", d.choice(["instance-identifier", "string", "int32"]), []]]]]
    return res, n


def stmt_of(e):
    return [None, e[0], e[1], [stmt_of(x) for x in e[2]]]


@case
def gen_yang(d):
    """Modules with broken references, expressions and restrictions (grammatically still fine)."""
    out = []
    for _ in range(d.int(1, 2)):
        f = rs.default_feat(kinds=KINDS, typedefs=25, must=True, unique=True, leafref=d.p(40), iid=d.p(30), ops=d.p(40), size=6, maxmods=2)
        mj = rs.Gen(d, f).gen()
        texts = rs.Emitter(mj).run().texts()
        name = d.choice(sorted(texts))
        for _ in range(d.int(1, 3)):
            t = ys.parse(texts[name])
            if d.p(25):
                res, n = typed_leafs(d)
                t[3].extend(stmt_of(x) for x in res + [n])
                out.append({"mods": mj["mods"], "texts": {**texts, name: ys.emit(t)}})
                continue
            for _ in range(d.int(1, 2)):
                cands = [(s, p) for s, p in ys.walk(t) if s[0] is None and s[1] in TEXTS]
                if cands and d.p(75):
                    s, p = d.choice(cands)
                    if s[1] == "prefix" and not p[-1][1] == "import":
                        continue
                    pool = TEXTS[s[1]]
                    if pool is None or s[1] in ("path", "range", "length", "pattern", "if-feature") and d.p(50):
                        s[2] = mangle(d, s[2], XTOK, d.int(1, 2)) or "."
                    else:
                        s[2] = d.choice(pool)
                else:
                    e = stmt_of(d.choice(EXTRA))
                    if d.p(60) and e[1] not in ("feature", "identity", "deviation", "import", "include", "rpc", "augment"):
                        hosts = [s for s, _ in ys.walk(t) if s[1] in ("container", "list", "case", "grouping")]
                        (d.choice(hosts) if hosts else t)[3].append(e)
                    else:
                        t[3].append(e)
            out.append({"mods": mj["mods"], "texts": {**texts, name: ys.emit(t)}})
    return {"models": out}


def load_texts(mods, texts, lib=None):
    from yangson import DataModel
    with rs.Workspace({f"{k}.yang": v for k, v in texts.items()}) as w:
        return DataModel(lib if lib is not None else rs.yang_library(mods), (w,))


def check_yang(c):
    log = Log()
    for x in c["models"]:
        what = "\n".join(x["texts"].values())
        dm = attempt(log, f"schema {what}", lambda: load_texts(x["mods"], x["texts"]))
        if dm is not None:
            attempt(log, f"digest of {what}", dm.schema_digest)
            attempt(log, f"tree of {what}", lambda: dm.ascii_tree())
            i = attempt(log, f"empty document of {what}", lambda: dm.from_raw({}))
            if i is not None:
                use(log, i, f"{{}} of {what}")
    return log.done()


@case
def gen_lib(d):
    f = rs.default_feat(kinds=KINDS, typedefs=0, size=3, maxmods=2)
    mj = rs.Gen(d, f).gen()
    lib = json.loads(rs.yang_library(mj["mods"]))
    out = []
    for _ in range(d.int(3, 6)):
        v = break_json(d, lib, d.int(1, 3))
        t = json.dumps(v)
        if d.p(15):
            t = mangle(d, t, ["{", "}", "[", "]", ",", ":", "\"", "1", "null", "\\u", "\x00", "NaN", "é"], d.int(1, 2))
        out.append(t)
    return {"m": mj, "libs": out}


def check_lib(c):
    log = Log()
    texts = rs.Emitter(c["m"]).run().texts()
    for t in c["libs"]:
        dm = attempt(log, f"library {t}", lambda: load_texts(c["m"]["mods"], texts, t))
        if dm is not None:
            attempt(log, f"set id, library {t}", dm.module_set_id)
            attempt(log, f"tree, library {t}", lambda: dm.ascii_tree())
    return log.done()


LEGS = [Leg("json", gen_raw, check_raw, quick=4400, thorough=40000),
        Leg("xml", gen_xml, check_xml, quick=2400, thorough=15000),
        Leg("addresses", gen_ids, check_ids, quick=2400, thorough=15000),
        Leg("xpath", gen_xp, check_xp, quick=1600, thorough=15000),
        Leg("edits", gen_edits, check_edits, quick=1000, thorough=10000),
        Leg("features", gen_feat, check_feat, quick=600, thorough=6000),
        Leg("module text", gen_ytext, check_ytext, quick=800, thorough=8000),
        Leg("yang", gen_yang, check_yang, quick=2400, thorough=15000),
        Leg("library", gen_lib, check_lib, quick=800, thorough=8000)]
