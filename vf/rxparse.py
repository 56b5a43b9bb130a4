"""Reference recogniser of XPath 1.0 expressions (grammar and lexical rules of the W3C recommendation), producing rxpath ASTs."""
import re
from .core import Skip

WS = " \t\r\n"
NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_.-]*")
NUM = re.compile(r"[0-9]+(\.[0-9]*)?|\.[0-9]+")
SYM = ["::", "..", "//", "!=", "<=", ">=", "(", ")", "[", "]", ".", "@", ",", "/", "|", "+", "-", "=", "<", ">", "*", "$", ":"]
AXES = ("ancestor", "ancestor-or-self", "child", "descendant", "descendant-or-self", "following-sibling", "parent", "preceding-sibling", "self")
UNSUP_AXES = ("attribute", "following", "namespace", "preceding")
OPS = ("and", "or", "mod", "div")
ARITY = {"last": (0, 0), "position": (0, 0), "count": (1, 1), "local-name": (0, 1), "name": (0, 1), "string": (0, 1), "concat": (2, 99),
         "starts-with": (2, 2), "contains": (2, 2), "substring-before": (2, 2), "substring-after": (2, 2), "substring": (2, 3),
         "string-length": (0, 1), "normalize-space": (0, 1), "translate": (3, 3), "boolean": (1, 1), "not": (1, 1), "true": (0, 0),
         "false": (0, 0), "number": (0, 1), "sum": (1, 1), "floor": (1, 1), "ceiling": (1, 1), "round": (1, 1), "current": (0, 0),
         "deref": (1, 1), "derived-from": (2, 2), "derived-from-or-self": (2, 2), "enum-value": (1, 1), "bit-is-set": (2, 2), "re-match": (2, 2)}
UNSUP_FN = ("id", "lang", "namespace-uri")


class Bad(Exception):
    pass


def tokens(text):
    res = []      # (kind, value, end)
    i = 0
    while i < len(text):
        c = text[i]
        if c in WS:
            i += 1
            continue
        if c in "\"'":
            j = text.find(c, i + 1)
            if j < 0:
                raise Bad("unterminated literal")
            res.append(("lit", text[i + 1:j]))
            i = j + 1
            continue
        m = NUM.match(text, i)
        if m:
            res.append(("num", m.group()))
            i = m.end()
            continue
        m = NAME.match(text, i)
        if m:
            prev = res[-1] if res else None
            oper = prev is not None and not (prev[0] == "op" or prev[0] == "sym" and prev[1] in ("@", "::", "(", "[", ",", "/", "//", "|", "+", "-", "=", "!=", "<", "<=", ">", ">=", "*mul"))
            i = m.end()
            if oper:
                if m.group() not in OPS:
                    raise Bad("operator expected")
                res.append(("op", m.group()))
                continue
            # QName?
            m2 = re.compile(r":(?!:)([A-Za-z_][A-Za-z0-9_.-]*|\*)").match(text, i)
            if m2:
                i = m2.end()
                if m2.group(1) == "*":
                    raise Skip("namespace wildcard (not supported by the library)")
                res.append(("name", m.group() + ":" + m2.group(1)))
            else:
                res.append(("name", m.group()))
            continue
        for s in SYM:
            if text.startswith(s, i):
                i += len(s)
                if s == "*":
                    prev = res[-1] if res else None
                    mul = prev is not None and not (prev[0] == "op" or prev[0] == "sym" and prev[1] in ("@", "::", "(", "[", ",", "/", "//", "|", "+", "-", "=", "!=", "<", "<=", ">", ">=", "*mul"))
                    res.append(("sym", "*mul" if mul else "*"))
                else:
                    res.append(("sym", s))
                break
        else:
            raise Bad("character")
    return res


class P:
    def __init__(self, text, prefixes):
        self.t = tokens(text)
        self.i = 0
        self.prefixes = prefixes

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def sym(self, *s):
        t = self.peek()
        if t[0] == "sym" and t[1] in s:
            self.i += 1
            return t[1]
        return None

    def need(self, s):
        if not self.sym(s):
            raise Bad(f"{s} expected")

    def parse(self):
        e = self.binary(0)
        if self.peek()[0] != "end":
            raise Bad("trailing text")
        return e

    LEVELS = [("or",), ("and",), ("=", "!="), ("<", "<=", ">", ">="), ("+", "-"), ("*mul", "div", "mod")]

    def binary(self, lv):
        if lv == len(self.LEVELS):
            return self.unary()
        l = self.binary(lv + 1)
        while True:
            t = self.peek()
            if t[0] in ("op", "sym") and t[1] in self.LEVELS[lv]:
                self.i += 1
                r = self.binary(lv + 1)
                l = ["bin", t[1].replace("*mul", "*"), l, r]
            else:
                return l

    def unary(self):
        if self.sym("-"):
            return ["neg", self.unary()]
        l = self.pathexpr()
        while self.sym("|"):
            l = ["bin", "|", l, self.pathexpr()]
        return l

    def pathexpr(self):
        t, n = self.peek(), self.peek(1)
        if t[0] in ("lit", "num") or t == ("sym", "(") or t == ("sym", "$") or \
                t[0] == "name" and n == ("sym", "(") and t[1] not in ("node", "text", "comment", "processing-instruction"):
            return self.filterexpr()
        return self.location()

    def filterexpr(self):
        t = self.peek()
        self.i += 1
        if t[0] == "lit":
            e = ["str", t[1]]
        elif t[0] == "num":
            e = ["num", t[1]]
        elif t == ("sym", "("):
            e = self.binary(0)
            self.need(")")
            if e[0] in ("num", "str"):
                e = ["paren", e]
        elif t[0] == "name":
            e = self.call(t[1])
        else:
            raise Skip("variable reference")
        preds = self.preds()
        if e[0] in ("lit", "num", "str") and (preds or self.peek() in (("sym", "/"), ("sym", "//"))):
            raise Skip("path or predicate on a literal")
        if e[0] == "paren":
            e = e[1]
        if preds:
            e = ["filter", e, preds]
        s = self.sym("/", "//")
        if s:
            return ["path", False, e, ([["descendant-or-self", ["node"], []]] if s == "//" else []) + self.relative()]
        return e

    def call(self, name):
        self.need("(")
        if name in UNSUP_FN:
            raise Skip("unsupported function")
        if name not in ARITY:
            raise Bad("unknown function")
        args = []
        if not self.sym(")"):
            args.append(self.binary(0))
            while self.sym(","):
                args.append(self.binary(0))
            self.need(")")
        lo, hi = ARITY[name]
        if not lo <= len(args) <= hi:
            raise Bad("number of arguments")
        return ["fn", name, args]

    def preds(self):
        res = []
        while self.sym("["):
            res.append(self.binary(0))
            self.need("]")
        return res

    def location(self):
        if self.sym("//"):
            return ["path", True, None, [["descendant-or-self", ["node"], []]] + self.relative()]
        if self.sym("/"):
            t = self.peek()
            if t[0] == "name" or t[0] == "sym" and t[1] in (".", "..", "*", "@"):
                return ["path", True, None, self.relative()]
            return ["path", True, None, []]
        return ["path", False, None, self.relative()]

    def relative(self):
        res = [self.step()]
        while True:
            s = self.sym("/", "//")
            if not s:
                return res
            if s == "//":
                res.append(["descendant-or-self", ["node"], []])
            res.append(self.step())

    def step(self):
        s = self.sym(".", "..")
        if s:
            if self.peek() == ("sym", "["):
                raise Skip("predicate on an abbreviated step (accepted by the library)")
            return ["self" if s == "." else "parent", ["node"], []]
        if self.sym("@"):
            raise Skip("attribute axis")
        axis = "child"
        t = self.peek()
        if t[0] == "name" and self.peek(1) == ("sym", "::"):
            self.i += 2
            axis = t[1]
            if axis in UNSUP_AXES:
                raise Skip("unsupported axis")
            if axis not in AXES:
                raise Bad("axis")
        if self.sym("*"):
            return [axis, ["*"], self.preds()]
        t = self.peek()
        if t[0] != "name":
            raise Bad("node test expected")
        self.i += 1
        if self.peek() == ("sym", "("):
            if t[1] in ("text", "comment", "processing-instruction"):
                raise Skip("node type")
            if t[1] != "node":
                raise Bad("node type")
            self.i += 1
            self.need(")")
            return [axis, ["node"], self.preds()]
        p, s, loc = t[1].partition(":")
        if s:
            if p not in self.prefixes:
                raise Skip("unknown prefix")
            return [axis, ["name", self.prefixes[p], loc], self.preds()]
        return [axis, ["name", None, p], self.preds()]


def parse(text, prefixes):
    """AST of a well-formed expression; Bad otherwise; Skip when it uses what the library does not support."""
    try:
        return P(text, prefixes).parse()
    except RecursionError:
        raise Skip("too deep")
