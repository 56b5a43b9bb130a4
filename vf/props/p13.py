"""P13: XPath parsing against a reference recogniser of XPath 1.0, and printing."""
import math
from ..core import Leg, Skip, Violation
from ..d import case
from .. import rschema as rs, rtypes as rt, rxpath as rx, rxparse
from ..xgen import XGen
from . import p12

RULE = ("one case is a document with several expression texts (spaced and abbreviated at random, some then damaged); it is non-trivial when at "
        "least two well-formed expressions were parsed, printed, parsed again and evaluated, or at least one malformed text was refused and one accepted")
ASSUMPTIONS = ["literals with the characters & < > tab or newline are outside the domain of printing (the repository's tests pin XML escaping there)",
               "a doubled unary minus is outside the domain of printing (the repository's tests pin that it disappears)",
               "namespace wildcards, variables, attributes, predicates on '.' and '..' and paths starting from literals are outside the domain"]


class OneMod(rs.Emitter):
    def own_prefix(self, i):
        return self.mods[i]


def spacing(d):
    mode = d.choice([0, 1, 2])

    def sp(kind):
        if kind == "quote":
            return "x" if d.p(50) else ""
        if kind == "abbr":
            return "x" if mode == 2 and d.p(40) else ""
        if mode == 0:
            return " " if kind == "op" else ""
        if kind == "op" and mode == 1:
            return " "
        return d.weighted([(4, ""), (2, " "), (1, "\n"), (1, "\t"), (1, "  "), (1, " \r\n")])
    return sp


def op_ok(text):
    return text


@case
def gen(d):
    f = rs.default_feat(kinds=p12.KINDS, typedefs=10, leafref=True, when=False, size=8, maxmods=1)
    mj = rs.Gen(d, f).gen()
    mj["mods"] = mj["mods"][:1]
    m = rs.Model(mj)
    doc = rs.DataGen(d, m, "all", density=90, maxlist=3).doc() or {}
    try:
        rn = m.build(doc)
        m.complete(rn)
    except (Skip, rs.Bad):
        rn, doc = m.build({}), {}
    nodes = [rn] + list(rn.desc())
    em = OneMod(mj).run()
    out = []
    for _ in range(d.int(3, 5)):
        i = d.int(0, len(nodes) - 1)
        g = XGen(d, m, 0, ["x", "1"])
        g.cur = nodes[i].schema
        e = g.expr(nodes[i].schema, d.int(1, 4))
        try:
            t = rx.text(e, em.pfx(0), spacing(d))
        except Skip:
            continue
        out.append({"node": i, "t": t})
        if d.p(50):
            out.append({"node": i, "t": damage(d, t)})
    return {"m": mj, "doc": doc, "exprs": out}


FRAGS = ["(", ")", "[", "]", "/", "//", "|", "*", "+", "-", "=", "!", "!=", "<", ">", ",", ".", "..", "::", ":", "or", "and", "div", "mod", " ", "1", "'", "\"",
         "a", "node()", "self::", "child::", "parent::*", "ma:a", "$x", "@a", "not(", "1.", ".5", "count(a)", "[1]", " or ", " div ", "_", "\n", "#", "true()"]


def damage(d, t):
    for _ in range(d.weighted([(5, 1), (2, 2), (1, 3)])):
        i = d.int(0, len(t))
        k = d.int(0, 4)
        if k == 0 and t:
            j = min(len(t), i + d.int(1, 3))
            t = t[:i] + t[j:]
        elif k == 1:
            t = t[:i]
        elif k == 2 and t:
            j = min(len(t), i + d.int(1, 4))
            t = t[:i] + t[i:j] + t[i:]
        else:
            t = t[:i] + d.choice(FRAGS) + t[i:]
    return t


def has_dneg(e):
    if not isinstance(e, list):
        return False
    if e and e[0] == "neg" and e[1][0] == "neg":
        return True
    return any(has_dneg(x) for x in e)


def strings(e):
    if isinstance(e, list):
        if len(e) == 2 and e[0] == "str":
            yield e[1]
        for x in e:
            yield from strings(x)


def depth_ok(e):
    return True


def snap(v):
    from yangson.nodeset import NodeSet
    if isinstance(v, NodeSet):
        return ("ns", sorted(map(str, (n.path for n in v))))
    return ("nan",) if isinstance(v, float) and math.isnan(v) else (type(v).__name__, v)


def check(c):
    from yangson import DataModel
    from yangson.exceptions import ParserException, UnknownPrefix, YangsonException
    from yangson.schemadata import SchemaContext
    from yangson.xpathparser import XPathParser
    m = rs.Model(c["m"])
    try:
        rn = m.build(c["doc"])
        m.complete(rn)
    except rs.Bad:
        raise Skip("document")
    nodes = [rn] + list(rn.desc())
    texts = OneMod(c["m"]).run().texts()
    with rs.Workspace({f"{k}.yang": t for k, t in texts.items()}) as w:
        dm = DataModel(rs.yang_library(c["m"]["mods"]), (w,))
    inst = dm.from_raw(c["doc"])
    from yangson.enumerations import ContentType
    full = inst.add_defaults(ContentType.all)
    sctx = SchemaContext(dm.schema_data, "ma", dm.schema_data.last_revision("ma"))

    def parse(text):
        p = XPathParser(text, sctx)
        ex = p.parse()
        return ex if p.at_end() else None

    good = refused = 0
    labels = set()
    for x in c["exprs"]:
        text = x["t"]
        try:
            ast = rxparse.parse(text, {"ma": "ma"})
        except Skip as s:
            labels.add("skip:" + str(s))
            continue
        except rxparse.Bad as b:
            try:
                ex = parse(text)
            except (ParserException, UnknownPrefix) as e:
                str(e)
                ex = None
            if ex is not None:
                raise Violation(f"malformed expression {text!r} ({b}) accepted as {ex}")
            refused += 1
            labels.add("malformed: " + str(b))
            continue
        try:
            ex = parse(text)
        except ParserException as e:
            raise Violation(f"well-formed expression {text!r} refused: {type(e).__name__}: {e}")
        if ex is None:
            raise Violation(f"well-formed expression {text!r} not parsed to its end")
        ex.syntax_tree()
        printable = not has_dneg(ast) and not any(ch in s for s in strings(ast) for ch in "&<>\n\t\r")
        if printable:
            back = str(ex)
            try:
                ex2 = parse(back)
            except ParserException as e:
                raise Violation(f"printed form {back!r} of {text!r} refused: {type(e).__name__}: {e}")
            if ex2 is None:
                raise Violation(f"printed form {back!r} of {text!r} not parsed to its end")
            if str(ex2) != back:
                raise Violation(f"printed form {back!r} of {text!r} prints as {str(ex2)!r}")
        node = nodes[x["node"]]
        cn = p12.locate(full, p12.key_path(node))
        try:
            val = ex.evaluate(cn)
        except YangsonException as e:
            val = type(e)
            labels.add("evaluation: " + type(e).__name__)
        if printable:
            try:
                val2 = ex2.evaluate(cn)
            except YangsonException as e:
                val2 = type(e)
            if (snap(val) != snap(val2)) if not isinstance(val, type) else val is not val2:
                raise Violation(f"{text!r} gives {val}, its printed form {back!r} gives {val2}")
        if not isinstance(val, type):
            try:
                exp = rx.evaluate(p12_ready(ast), node, m.env(0))
            except (Skip, AttributeError, TypeError, AssertionError, KeyError):
                labels.add("not evaluated by the reference")
            else:
                p12.compare(exp, val, f"{text!r} at {p12.key_path(node)}")
        good += 1
        labels.update(p12.features(ast))
    return {"nontrivial": good >= 2 or bool(good and refused), "labels": sorted(labels)}


def p12_ready(ast):
    """re-match() needs its pattern as an AST: leave such expressions to P12."""
    def walk(e):
        if isinstance(e, list):
            if len(e) == 3 and e[0] == "fn" and e[1] in ("re-match", "name"):
                raise Skip("re-match")
            for x in e:
                walk(x)
    walk(ast)
    return ast


LEGS = [Leg("text", gen, check, quick=12000, thorough=48000)]
