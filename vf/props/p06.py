"""P06: XML documents carry the same data as their JSON counterparts; XMLParser sees what a standard parser sees."""
import io
import random
from xml.sax.saxutils import escape, quoteattr
from ..core import Leg, Skip, Violation, HarnessError
from ..d import case
from .. import rschema as rs, rtypes as rt
from ..opdocs import gen_doc, doc_of
from ..typed import accept_text

RULE = ("one case is a schema with several valid documents written as XML by the library and, in another style, by the reference (or one XML text for the "
        "parser leg); it is non-trivial when the documents hold at least four leaves of two types (or the text has several elements, a namespace "
        "declaration and character data)")
ASSUMPTIONS = ["documents with anydata or anyxml, carriage returns, and union values whose text selects another member type are outside the domain",
               "the prefixes inside instance-identifier values are module names, as the library writes them (only the round trip is judged for them)"]


def make(**kw):
    @case
    def gen(d):
        f = rs.default_feat(iid=d.p(25), leafref=d.p(40), any=False, **kw)
        mj = rs.Gen(d, f).gen()
        m = rs.Model(mj)
        out = []
        for _ in range(d.int(2, 4)):
            dj = gen_doc(d, mj, m, density=d.choice([60, 95]))
            if dj is not None:
                dj["style"] = [d.int(0, 99) for _ in range(d.int(3, 24))]
                out.append(dj)
        return {"m": mj, "docs": out}
    return gen


class Tape:
    """Deterministic stream of choices drawn in the case."""

    def __init__(self, vals):
        self.v, self.i = vals, 0

    def next(self, n):
        self.i += 1
        return (self.v[self.i % len(self.v)] * 7 + self.i * (self.i // len(self.v) + 1)) % n

    def p(self, percent):
        return self.next(100) < percent


def vtext(T, v):
    return rt.canon(v)


class Writer:
    """Reference XML writer with varied spelling."""

    def __init__(self, m, tape):
        self.m, self.t, self.n = m, tape, 0

    def uri(self, ns):
        return rs.ns_uri(self.m.mods[ns])

    def name(self, loc, uri, scope):
        """(qualified name, declarations, new scope)"""
        t = self.t
        decl, sc = [], dict(scope)
        cands = [p for p in sc if sc[p] == uri]
        if cands and t.p(70):
            p = cands[t.next(len(cands))]
        elif t.p(50):
            p = ""
            sc[""] = uri
            decl.append(("", uri))
        else:
            p = ["p", "q", "x"][t.next(3)]
            if sc.get(p) != uri:
                sc[p] = uri
                decl.append((p, uri))
        return (p + ":" + loc if p else loc), decl, sc

    def extra(self, scope, decl, own):
        """Sometimes declare a further namespace that is used below, or another name for a module."""
        t = self.t
        if t.p(12):
            k = t.next(len(self.m.mods))
            p = ["p", "q", "z", self.m.mods[k]][t.next(4)]
            u = self.uri(k)
            if p != own and all(q != p for q, _ in decl):
                scope[p] = u
                decl.append((p, u))

    def open(self, loc, uri, scope, more=()):
        q, decl, sc = self.name(loc, uri, scope)
        self.extra(sc, decl, q.partition(":")[0] if ":" in q else "")
        for p, u in more:
            pass
        return q, decl, sc

    def tag(self, q, decl, attrs=""):
        return "<" + q + "".join(f' xmlns{":" + p if p else ""}={quoteattr(u)}' for p, u in decl) + attrs

    def ws(self):
        return ["", "", "\n  ", " ", "<!-- c -->", "<?pi x?>", "\t"][self.t.next(7)]

    def text(self, s):
        t = self.t
        if s == "":
            return ""
        k = t.next(6)
        if k == 0 and "]]>" not in s:
            return "<![CDATA[" + s + "]]>"
        if k == 1:
            return "".join(f"&#{ord(c)};" if i % 3 == 0 else escape(c) for i, c in enumerate(s))
        if k == 2 and len(s) > 1:
            return escape(s[:1]) + "<!-- x -->" + escape(s[1:])
        if k == 3 and len(s) > 1 and "]]>" not in s:
            return escape(s[:1]) + "<![CDATA[" + s[1:] + "]]>"
        return escape(s)

    def node(self, x, scope):
        loc, uri = x.name, self.uri(x.schema.ns)
        q, decl, sc = self.open(loc, uri, scope)
        if x.val is None:
            body = self.children(x, sc)
        else:
            v, txt = x.val, rt.canon(x.val)
            T = x.schema.j["type"]
            b = rt.builtin_of(T)["t"]
            if v[0] == "idref":
                u = self.uri(self.m.mods.index(v[1]))
                ps = [p for p in sc if sc[p] == u]
                strict = b in ("identityref",)
                if not strict:
                    ps = [p for p in ps if p == v[1]]
                if ps and self.t.p(70):
                    p = ps[self.t.next(len(ps))]
                else:
                    p = v[1] if not strict or self.t.p(50) else ["p", "q", "i", self.m.mods[x.schema.ns]][self.t.next(4)]
                    own = q.partition(":")[0] if ":" in q else ""
                    if (p == own and sc[p] != u):
                        p = "idp" if strict else None
                    if p is None:
                        raise Skip("prefix in use")
                    if sc.get(p) != u:
                        decl = [x for x in decl if x[0] != p] + [(p, u)]
                        sc = dict(sc)
                        sc[p] = u
                txt = p + ":" + v[2] if p else v[2]
            elif v[0] == "bits" and b == "bits" and self.t.p(40):
                names = list(v[1])
                k = self.t.next(max(1, len(names)))
                txt = "  ".join(names[k:] + names[:k])
            elif v[0] == "int" and b in rt.INTS and v[1] >= 0 and self.t.p(20):
                txt = ["+", "0", "+00"][self.t.next(3)] + txt
            elif v[0] == "dec" and b == "decimal64" and v[1] >= 0 and self.t.p(30):
                txt = ["+", "0"][self.t.next(2)] + txt
            body = self.text(txt)
        if body == "" and self.t.p(60):
            return self.tag(q, decl) + "/>"
        return self.tag(q, decl) + [">", " >", "\n>"][self.t.next(3)] + body + f"</{q}>"

    def children(self, x, scope):
        groups = {}
        for c in x.children:
            groups.setdefault((c.schema.ns, c.name), []).append(c)
        qs = list(groups.values())
        out = ""
        while qs:
            i = self.t.next(len(qs)) if self.t.p(40) else 0
            out += self.ws() + self.node(qs[i].pop(0), scope)
            if not qs[i]:
                qs.pop(i)
        return out + (self.ws() if out else "")

    def document(self, x, tree):
        if x.kind == "data":
            loc, uri = "content-data", "urn:ietf:params:xml:ns:yang:ietf-yang-instance-data"
        elif x.kind == "notification":
            loc, uri = x.op["name"], self.uri(x.op["ns"])
        else:
            loc, uri = x.kind, self.uri(x.op["ns"])
        q, decl, sc = self.open(loc, uri, {})
        return ["", '<?xml version="1.0"?>\n', "<!-- head -->"][self.t.next(3)] + self.tag(q, decl) + ">" + self.children(tree, sc) + f"</{q}>"


def ns_tree(text):
    """Namespace-aware reading by xml.etree: (element, {element: prefixes in scope})."""
    import xml.etree.ElementTree as ET
    scopes, stack, pend = {}, [{}], {}
    root = None
    for ev, x in ET.iterparse(io.StringIO(text), events=("start", "end", "start-ns")):
        if ev == "start-ns":
            pend[x[0]] = x[1]
        elif ev == "start":
            stack.append({**stack[-1], **pend})
            pend = {}
            scopes[x] = stack[-1]
            root = x if root is None else root
        else:
            stack.pop()
    return root, scopes


def compare(m, el, scopes, rn, where):
    """The element's content is exactly that of the reference node."""
    groups, got = {}, {}
    for c in rn.children:
        groups.setdefault(f"{{{rs.ns_uri(m.mods[c.schema.ns])}}}{c.name}", []).append(c)
    for c in el:
        got.setdefault(c.tag, []).append(c)
    if {k: len(v) for k, v in groups.items()} != {k: len(v) for k, v in got.items()}:
        raise Violation(f"{where}: elements { {k: len(v) for k, v in got.items()} } instead of { {k: len(v) for k, v in groups.items()} }")
    for k in groups:
        for i, (c, e) in enumerate(zip(groups[k], got[k])):
            w = f"{where}/{k}[{i}]"
            if c.val is None:
                if (e.text or "").strip():
                    raise Violation(f"{w}: unexpected text {e.text!r}")
                compare(m, e, scopes, c, w)
                continue
            if len(e):
                raise Violation(f"{w}: leaf with child elements")
            t, v = e.text or "", c.val
            if v[0] == "idref":
                p, s, n = t.partition(":")
                if not s:
                    p, n = "", p
                if scopes[e].get(p) != rs.ns_uri(v[1]) or n != v[2]:
                    raise Violation(f"{w}: identity {v[1]}:{v[2]} written as {t!r} with prefixes {scopes[e]}")
            elif v[0] != "iid" and t != rt.canon(v):
                raise Violation(f"{w}: text {t!r} instead of {rt.canon(v)!r}")


def ambiguous(m, tree):
    for n in tree.desc():
        if n.val is not None:
            if "\r" in rt.canon(n.val):
                raise Skip("carriage return")
            T, tc = m.leaf_type(n.schema)
            if rt.builtin_of(T)["t"] == "union":
                try:
                    v = accept_text(T, rt.canon(n.val), m.ctx, tc.ns)
                except rt.Reject:
                    v = None
                if list(map(str, v or ())) != list(map(str, n.val)):
                    raise Skip("ambiguous union text")


def same_value(a, b):
    return a == b and type(a) is type(b)


def judge(case_):
    import xml.etree.ElementTree as ET
    from yangson.xmlparser import XMLParser
    from yangson.instvalue import ObjectValue
    mj = case_["m"]
    m = rs.Model(mj)
    dm = rs.load(mj)
    labels, leaves, kinds = set(), 0, set()
    for dj in case_["docs"]:
        x = doc_of(m, dj)
        tree = x.tree()
        try:
            ambiguous(m, tree)
            exp = x.canon()
            ref = Writer(m, Tape(dj["style"])).document(x, tree)
        except Skip as s:
            labels.add("docskip:" + str(s))
            continue
        inst = dm.from_raw(x.full(), x.sub)
        el = inst.to_xml()
        text = ET.tostring(el, encoding="unicode")
        root, scopes = ns_tree(text)
        want = {"data": "{urn:ietf:params:xml:ns:yang:ietf-yang-instance-data}content-data"}.get(
            x.kind, x.op and f"{{{rs.ns_uri(m.mods[x.op['ns']])}}}{x.op['name'] if x.kind == 'notification' else x.kind}")
        if root.tag != want:
            raise Violation(f"document element {root.tag} instead of {want}")
        compare(m, root, scopes, tree, "")
        back = dm.from_xml(XMLParser(text).root, x.sub)
        if not rs.same(back.raw_value(), exp):
            raise Violation(f"XML written by the library reads differently: {rs.diff(back.raw_value(), exp)}\n{text}")
        if back.value != inst.value:
            raise Violation(f"XML written by the library reads as another value: {back.value} versus {inst.value}\n{text}")
        other = dm.from_xml(XMLParser(ref).root, x.sub)
        if not rs.same(other.raw_value(), exp):
            raise Violation(f"XML reads differently: {rs.diff(other.raw_value(), exp)}\n{ref}")
        if other.value != inst.value:
            raise Violation(f"XML reads as another value: {other.value} versus {inst.value}\n{ref}")
        if not rs.same(inst.raw_value(), exp):
            raise Violation("writing XML changed the data")
        if ET.tostring(inst.to_xml(), encoding="unicode") != text:
            raise Violation("writing XML twice gives different texts")
        if x.kind == "data":
            subtrees(m, inst, tree, labels)
        for y in tree.desc():
            if y.val is not None:
                leaves += 1
                kinds.add(y.val[0])
        labels.add(x.kind)
    return {"nontrivial": leaves >= 4 and len(kinds) > 1, "labels": sorted(labels | {"v:" + k for k in kinds})}


def subtrees(m, inst, rn, labels):
    """XML of parts of the document."""
    import xml.etree.ElementTree as ET
    for c in rn.children:
        sub = inst[c.schema.iname()]
        if c.index is not None:
            sub = sub[c.index]
        if c.val is not None:
            continue
        e = sub.to_xml()
        if e is None:
            if c.children:
                raise Violation(f"no XML for {c.name}")
            continue
        root, scopes = ns_tree(ET.tostring(e, encoding="unicode"))
        want = f"{{{rs.ns_uri(m.mods[c.schema.ns])}}}{c.name}"
        if root.tag != want:
            raise Violation(f"element {root.tag} instead of {want} for a subtree")
        compare(m, root, scopes, c, want)
        labels.add("subtree")
        subtrees(m, sub, c, labels)


# ------------------------------------------------------------------ XMLParser

TXT = ["", "", " ", "a", "x y", "&amp;", "&#x41;", "&lt;b&gt;", "<![CDATA[<&]]>", "\n  ", "\u00e9", "<!-- c -->", "<?p d?>", "t<!--x-->u", "&quot;'"]
PFX = ["", "p", "q", "r"]
URIS = ["urn:a", "urn:b", "http://c/?x=1&y=2"]


@case
def gen_xml(d):
    def el(scope, depth):
        decl = {}
        for p in PFX:
            if d.p(25):
                decl[p] = d.choice(URIS + ([""] if p == "" else []))
        sc = {**scope, **decl}
        have = [p for p in sc if p and sc[p]]
        p = d.choice([""] + have) if have else ""
        attrs, seen = [], set()
        for _ in range(d.weighted([(3, 0), (2, 1), (1, 2)])):
            ap = d.choice([""] + have) if have else ""
            nm = d.choice(["a", "b", "xml-x", "type"])
            if (sc[ap] if ap else "", nm) in seen:
                continue
            seen.add((sc[ap] if ap else "", nm))
            attrs.append([ap, nm, d.choice(["", "v", "1 2", "&", "<", "\"", "'", "\u00e9", "p:x"])])
        kids = []
        for _ in range(d.weighted([(1, 0), (3, 1), (3, 2), (2, 3)]) if depth else 0):
            kids.append([el(sc, depth - 1), d.choice(TXT)])
        return {"p": p, "n": d.choice(["a", "b", "c-d", "e.1", "_f"]), "decl": decl, "attrs": attrs, "t": d.choice(TXT), "kids": kids}
    return {"el": el({}, d.weighted([(4, 2), (1, 0), (3, 3), (2, 1)])), "cuts": sorted(d.int(0, 400) for _ in range(d.int(0, 5)))}


def xml_text(e):
    q = (e["p"] + ":" if e["p"] else "") + e["n"]
    s = "<" + q
    for p, u in e["decl"].items():
        s += f" xmlns{':' + p if p else ''}={quoteattr(u)}"
    for ap, n, v in e["attrs"]:
        s += f" {ap + ':' if ap else ''}{n}={quoteattr(v)}"
    body = e["t"] + "".join(xml_text(k) + t for k, t in e["kids"])
    return s + "/>" if body == "" else s + ">" + body + f"</{q}>"


def expect_xml(e, scope, got, want, where):
    sc = {**scope, **e["decl"]}
    u = sc.get(e["p"], "")
    tag = f"{{{u}}}{e['n']}" if u else e["n"]
    if got.tag != tag or want.tag != tag:
        raise Violation(f"{where}: element {got.tag} instead of {tag}")
    plain = {k: v for k, v in got.attrib.items() if not (k == "xmlns" or k.startswith("xmlns:"))}
    if plain != dict(want.attrib):
        raise Violation(f"{where}: attributes {plain} instead of {want.attrib}")
    nsa = {k: v for k, v in got.attrib.items() if k == "xmlns" or k.startswith("xmlns:")}
    exp = {("xmlns:" + p if p else "xmlns"): x for p, x in sc.items()}
    if {k: v or "" for k, v in nsa.items()} != exp:
        raise Violation(f"{where}: namespaces in scope {nsa} instead of {exp}")
    if (got.text or "") != (want.text or "") or (got.tail or "") != (want.tail or ""):
        raise Violation(f"{where}: text {got.text!r}, {got.tail!r} instead of {want.text!r}, {want.tail!r}")
    if len(got) != len(e["kids"]) or len(want) != len(got):
        raise Violation(f"{where}: {len(got)} children instead of {len(e['kids'])}")
    for i, (k, _) in enumerate(e["kids"]):
        expect_xml(k, sc, got[i], want[i], f"{where}/{i}")


def check_xml(c):
    import xml.etree.ElementTree as ET
    from yangson.xmlparser import XMLParser
    text = xml_text(c["el"])
    want = ET.fromstring(text)
    expect_xml(c["el"], {}, XMLParser(text).root, want, "")
    p = XMLParser()
    a = 0
    for b in [x for x in c["cuts"] if x < len(text)] + [len(text)]:
        p.feed(text[a:b])
        p.parse()
        a = b
    p.close()
    p.parse()
    expect_xml(c["el"], {}, p.root, want, "(in chunks)")
    n = sum(1 for _ in want.iter())
    return {"nontrivial": n > 2 and "xmlns" in text, "labels": [f"chunks{len(c['cuts'])}", f"elements{min(n, 9)}"]}


LEGS = [Leg("data", make(size=12), judge, quick=4800, thorough=24000),
        Leg("idref", make(size=8, kinds=[(5, "identityref"), (2, "union"), (1, "string")]), judge, quick=3200, thorough=12800),
        Leg("ops", make(ops=True, size=5), judge, quick=3200, thorough=16000),
        Leg("parser", gen_xml, check_xml, quick=8000, thorough=40000)]
