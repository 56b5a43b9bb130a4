"""P14: YANG module text against generated statement trees and an independent strict parser."""
from ..core import Leg, Skip, Violation, expect
from ..d import case

RULE = ("one case is a statement tree with a random spelling (leg trees: at least 4 statements, of which one quoted, concatenated, escaped or "
        "multi-line argument and one comment) or several damaged texts (leg texts: one refused and one accepted by both parsers)")
ASSUMPTIONS = ["quotes and '*/' inside unquoted arguments, lone carriage returns, separators made of comments only and tabs before the opening quote of "
               "a multi-line string are outside the domain (RFC 6020 and RFC 7950 differ or leave them open)",
               "the expected revision is that of the first revision statement",
               "an argument is any text without control characters"]

KW = ["leaf", "container", "description", "type", "list", "a", "x-1", "_b", "must", "revision", "prefix", "c.d", "default", "module"]
TXT = "ab1 .-:/*+;{}'\"\\\n\tn(){é€𝄞|@#"
WORDS = ["", "a", "b-c", "1.0", "m:x", "/a/b", "2020-01-01", "a/", "/", "+", "*", "a b", "a\nb", " a", "a ", "//", "/*", "*/", "}", "{", ";", "\\", "\\n", "\"",
         "'", "it's", "say \"hi\"", "a+b", "é", "x\n  y\nz", "\n", "a \n b", "\t", "back\\slash", "a\n\nb", "x//y", "a=b", "[k='v']", "....", "a;b", "-", "''", "\"\""]


def gen_arg(d):
    k = d.int(0, 9)
    if k < 2:
        return None
    if k < 7:
        return d.choice(WORDS)
    if k == 7:
        return d.text(TXT, 0, 12)
    if k == 8:
        return "".join(d.choice(WORDS) for _ in range(d.int(1, 4)))
    return d.choice(["\\", "\"", "ab\"", "\n", "x\\ny", "'\""]) * d.choice([1, 3, 40, 700])


def gen_tree(d, depth):
    subs = []
    if depth and d.p(60):
        subs = [gen_tree(d, depth - 1) for _ in range(d.int(0, 4))]
    return [d.choice(["p", "q-1", "_z"]) if d.p(25) else None, d.choice(KW), gen_arg(d), subs]


COMMENTS = ["/**/", "/* c */", "/* \" ' ; { } // */", "/***/", "/* a\n b */", "/*/ */", "// x\n", "//\n", "// \" ' { ; */ /*\n", "/* é */", "/****/", "/* * / */"]


class Spell:
    """Writes a tree as text; remembers the column of what comes next."""

    def __init__(self, d):
        self.d = d
        self.out = []
        self.line = ""
        self.style = d.weighted([(2, "plain"), (3, "mixed"), (1, "dense")])
        self.labels = set()

    def w(self, s):
        self.out.append(s)
        i = s.rfind("\n")
        self.line = s[i + 1:] if i >= 0 else self.line + s

    def ws(self):
        d = self.d
        return d.weighted([(5, " "), (2, "\n"), (1, "\t"), (1, "  "), (1, "\r\n"), (2, "\n    "), (1, "\n\n  ")])

    def sep(self, need):
        """Separator: some real white space when `need`."""
        d = self.d
        if self.style == "plain":
            return self.w(" " if need else "")
        if self.style == "dense" and not d.p(15):
            return self.w(" " if need else "")
        parts = []
        for _ in range(d.weighted([(4, 0), (3, 1), (1, 2)])):
            if d.p(40):
                parts.append(d.choice(COMMENTS))
                self.labels.add("comment")
            else:
                parts.append(self.ws())
        if need and not (parts and parts[0][0] in " \n\t\r"):
            parts.insert(0, self.ws())
        self.w("".join(parts))

    def dq(self, t):
        """A double-quoted string denoting t."""
        d = self.d
        self.w('"')
        if "\t" in self.line:
            multi = False
        else:
            multi = d.p(60)
        col = len(self.line)                 # includes the quote itself
        lines = t.split("\n")
        esc_all = d.p(30)
        for i, ln in enumerate(lines):
            if i:
                prev = lines[i - 1]
                # a real line break: nothing white before it, and no escape right next to it
                if multi and not prev.endswith((" ", "\t")) and d.p(70) and "\t" not in ln[:len(ln) - len(ln.lstrip(" \t")) + 1] and "\t" not in prev[-1:]:
                    self.labels.add("multi-line")
                    self.w(d.choice(["", "", " ", "\t ", "   "]))
                    self.w("\n")
                    if ln[:1] == " " or (ln == "" and i == len(lines) - 1):
                        # white space that belongs to the text starts right after the column of the quote
                        self.w(" " * col if ln else " " * d.int(0, col))
                    elif ln == "":
                        self.w(d.choice(["", " " * d.int(0, col)]))
                    elif col >= 8 and d.p(20):
                        self.w("\t" + " " * d.int(0, col - 8))
                    else:
                        self.w(" " * d.int(0, col))
                else:
                    self.w("\\n")
                    self.labels.add("escape")
            for ch in ln:
                if ch in '"\\':
                    self.w("\\" + ch)
                    self.labels.add("escape")
                elif ch == "\t" and (esc_all or d.p(50)):
                    self.w("\\t")
                    self.labels.add("escape")
                else:
                    self.w(ch)
        self.w('"')

    def arg(self, t):
        d = self.d
        bare = t != "" and not any(c in t for c in " \t\r\n;{}\"'") and "//" not in t and "/*" not in t and "*/" not in t
        if bare and d.p(60):
            return self.w(t + (" " if t[-1] in "/*" and (self.style != "plain" or d.p(50)) else ""))
        n = d.weighted([(5, 1), (2, 2), (1, 3)]) if self.style != "plain" else 1
        cuts = sorted(d.int(0, len(t)) for _ in range(n - 1))
        parts = [t[a:b] for a, b in zip([0] + cuts, cuts + [len(t)])]
        if n > 1:
            self.labels.add("concat")
        for i, p in enumerate(parts):
            if i:
                self.sep(False)
                self.w("+")
                self.sep(False)
            if "'" not in p and d.p(40):
                self.w("'" + p + "'")
                self.labels.add("single")
            else:
                self.dq(p)

    def stmt(self, t):
        pref, kw, arg, subs = t
        self.w((pref + ":" if pref else "") + kw)
        if arg is not None:
            self.sep(True)
            self.arg(arg)
        self.sep(False)
        if subs or self.d.p(20):
            self.w("{")
            self.sep(False)
            for s in subs:
                self.stmt(s)
                self.sep(False)
            self.w("}")
        else:
            self.w(";")

    def text(self, tree):
        self.sep(False)
        self.stmt(tree)
        self.sep(False)
        if self.d.p(15):
            self.w(self.d.choice(["// end", "/* end */", "\n//"]))
        return "".join(self.out)


def gen_module(d, depth):
    subs = [gen_tree(d, depth) for _ in range(d.int(0, 5))]
    if d.p(50):
        subs.insert(d.int(0, len(subs)), [None, "revision", d.choice(["2020-01-01", "2021-12-31"]), []])
    for s in subs:
        if s[0] is None and s[1] == "revision" and s[2] is None:
            s[2] = "1999-01-01"
    return [None, d.choice(["module", "submodule"]), d.choice(["m", "mod-1", "_x.y"]), subs]


@case
def gen_trees(d):
    t = gen_module(d, d.int(1, 4))
    s = Spell(d)
    text = s.text(t)
    return {"tree": t, "text": text, "labels": sorted(s.labels), "name": d.choice([None] + 9 * [t[2]] + ["other", t[2] + "x", t[2][:-1]]),
            "rev": d.choice(12 * ["right"] + ["", "2020-01-01", "2021-12-31", "2020-01-0"])}


def dump(st, parent=None):
    if st.superstmt is not parent:
        raise Violation(f"superstmt of {st} is {st.superstmt}")
    return [st.prefix, st.keyword, st.argument, [dump(s, st) for s in st.substatements]]


def count(t):
    return 1 + sum(count(s) for s in t[3])


def revision(t):
    return next((s[2] for s in t[3] if s[0] is None and s[1] == "revision"), "")


def queries(st):
    """find1, find_all and str agree with the substatements."""
    from yangson.exceptions import StatementNotFound
    from yangson.statement import ModuleParser
    subs = st.substatements
    for pref, kw in {(s.prefix, s.keyword) for s in subs} | {(None, "nope"), ("p", "leaf"), (None, "leaf")}:
        want = [s for s in subs if (s.prefix, s.keyword) == (pref, kw)]
        got = st.find_all(kw, pref)
        expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "find_all({}, {}) of {} gives {}", kw, pref, st, got)
        expect(st.find1(kw, None, pref) is (want[0] if want else None), "find1({}, {}) of {}", kw, pref, st)
        for a in {s.argument for s in want if s.argument is not None} | {"nope"}:
            w = next((s for s in want if s.argument == a), None)
            expect(st.find1(kw, a, pref) is w, "find1({}, {!r}, {}) of {}", kw, a, pref, st)
            if w is None:
                try:
                    st.find1(kw, a, pref, required=True)
                except StatementNotFound as e:
                    str(e)
                else:
                    raise Violation(f"find1 of absent {kw} {a!r} with required=True returned")
    s = str(st)
    if not subs and "\n" not in s:
        again = ModuleParser("module x { y { " + s + " } }").parse().substatements[0].substatements[0]
        expect((again.prefix, again.keyword, again.argument) == (st.prefix, st.keyword, st.argument), "{!r} reads back as {!r}", s, again.argument)
    info = st.get_error_info()
    w = [next((s.argument for s in subs if s.prefix is None and s.keyword == k), None) for k in ("error-app-tag", "error-message")]
    expect(list(info) == w, "get_error_info {} instead of {}", info, w)
    for s in subs:
        queries(s)


def check_trees(c):
    from yangson.exceptions import ModuleNameMismatch, ModuleRevisionMismatch
    from yangson.statement import ModuleParser
    tree, name = c["tree"], c["name"]
    real = revision(tree)
    rev = real if c["rev"] == "right" else c["rev"]
    try:
        got = ModuleParser(c["text"], name, rev).parse()
    except ModuleNameMismatch as e:
        str(e)
        expect(name is not None and name != tree[2], "name {} refused for module {}", name, tree[2])
        return {"nontrivial": True, "labels": ["wrong name"]}
    except ModuleRevisionMismatch as e:
        str(e)
        expect(rev != real, "revision {!r} refused for revision {!r}", rev, real)
        return {"nontrivial": True, "labels": ["wrong revision"]}
    expect(name is None or name == tree[2], "module {} accepted under the name {}", tree[2], name)
    expect(rev == real, "revision {!r} accepted as {!r}", real, rev)
    g = dump(got)
    if g != tree:
        raise Violation(f"parsed as {g}\ninstead of {tree}")
    queries(got)
    L = set(c["labels"])
    return {"nontrivial": count(tree) >= 4 and "comment" in L and len(L) > 1, "labels": c["labels"]}


# ---------------------------------------------------------------------------------------- damaged texts

class Reject(Exception):
    pass


LETTER = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
IDCH = LETTER + "0123456789.-"


class Ref:
    """Strict reader of RFC 7950 section 6 text; Skip where the standards leave room."""

    def __init__(self, text):
        self.t = text
        self.i = 0
        if any(ord(c) < 32 and c not in "\t\n\r" for c in text) or "\r" in text.replace("\r\n", ""):
            raise Skip("control characters")

    def ch(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def sep(self):
        """-> (anything there, first thing was white space)"""
        start = self.i
        first = None
        while True:
            c = self.ch()
            if c is not None and c in " \t\n\r":
                self.i += 1
                first = first or "ws"
            elif self.t.startswith("//", self.i):
                j = self.t.find("\n", self.i)
                self.i = len(self.t) if j < 0 else j + 1
                first = first or "comment"
            elif self.t.startswith("/*", self.i):
                j = self.t.find("*/", self.i + 2)
                if j < 0:
                    raise Reject("unterminated comment")
                self.i = j + 2
                first = first or "comment"
            else:
                return self.i > start, first == "ws"

    def ident(self):
        s = self.i
        if self.ch() is None or self.ch() not in LETTER:
            raise Reject("identifier")
        while self.ch() is not None and self.ch() in IDCH:
            self.i += 1
        return self.t[s:self.i]

    def module(self):
        self.sep()
        st = self.stmt()
        if st[1] not in ("module", "submodule") or st[0]:
            raise Reject("not a module")
        self.sep()
        if self.ch() is not None:
            raise Reject("rubbish after the module")
        return st

    def stmt(self):
        pref, kw = None, self.ident()
        if self.ch() == ":":
            self.i += 1
            pref, kw = kw, self.ident()
        any_, ws = self.sep()
        arg = None
        if self.ch() is None:
            raise Reject("end")
        if self.ch() not in ";{":
            if not any_:
                raise Reject("no separator")
            if not ws:
                raise Skip("comment as the only separator")
            arg = self.arg()
        c = self.ch()
        self.i += 1
        if c == ";":
            return [pref, kw, arg, []]
        if c != "{":
            raise Reject("neither ; nor {")
        subs = []
        self.sep()
        while self.ch() != "}":
            if self.ch() is None:
                raise Reject("end")
            subs.append(self.stmt())
            self.sep()
        self.i += 1
        return [pref, kw, arg, subs]

    def arg(self):
        c = self.ch()
        if c not in "'\"":
            s = self.i
            while self.ch() is not None and self.ch() not in " \t\r\n;{}" and self.t[self.i:self.i + 2] not in ("//", "/*"):
                self.i += 1
            w = self.t[s:self.i]
            if not w:
                raise Reject("no argument")
            if "'" in w or '"' in w or "*/" in w:
                raise Skip("quote in an unquoted string")
            self.sep()
            return w
        out = []
        while True:
            out.append(self.quoted())
            self.sep()
            if self.ch() != "+":
                return "".join(out)
            self.i += 1
            self.sep()
            if self.ch() is None or self.ch() not in "'\"":
                raise Reject("quote expected after +")

    def quoted(self):
        q = self.ch()
        start = self.i
        self.i += 1
        if q == "'":
            j = self.t.find("'", self.i)
            if j < 0:
                raise Reject("end")
            r = self.t[self.i:j]
            self.i = j + 1
            return r
        toks = []                    # (is an escape, character)
        while True:
            c = self.ch()
            if c is None:
                raise Reject("end")
            self.i += 1
            if c == '"':
                break
            if c == "\\":
                e = self.ch()
                self.i += 1
                toks.append((True, e))
            else:
                toks.append((False, c))
        body = []
        for esc, c in toks:
            if esc and c not in ("n", "t", '"', "\\"):
                raise Reject("escape")
        if (False, "\n") in toks:
            if (False, "\r") in toks:
                raise Skip("CRLF in a double-quoted string")
            before = self.t[self.t.rfind("\n", 0, start) + 1:start]
            if "\t" in before or (False, "\t") in toks:
                raise Skip("tabs")
            rows = [[]]
            for tk in toks:
                if tk == (False, "\n"):
                    rows.append([])
                else:
                    rows[-1].append(tk)
            for n, row in enumerate(rows):
                if n < len(rows) - 1:
                    while row and row[-1] == (False, " "):
                        row.pop()
                    if row and row[-1][0] and row[-1][1] in "nt":
                        raise Skip("escape before a line break")
                if n:
                    k = 0
                    while k < len(before) + 1 and k < len(row) and row[k] == (False, " "):
                        k += 1
                    row = row[k:]
                    body.append((False, "\n"))
                body += row
        else:
            body = toks
        return "".join({"n": "\n", "t": "\t"}.get(c, c) if e else c for e, c in body)


BITS = [";", "{", "}", '"', "'", "+", "//", "/*", "*/", "\\", " ", "\n", "/", "*", ":", "a", "1", "-", ".", "\\n", "\\q", "leaf x;", "é", "", "\"\"", "''", " + ", "module"]


def damage(d, t):
    for _ in range(d.weighted([(6, 1), (2, 2)])):
        i = d.int(0, len(t))
        k = d.int(0, 5)
        if k == 0:
            t = t[:i] + t[min(len(t), i + d.int(1, 2)):]
        elif k == 1:
            t = t[:i]
        elif k == 2:
            j = min(len(t), i + d.int(1, 6))
            t = t[:i] + t[i:j] + t[i:]
        elif k == 3:
            # only at characters that have a meaning
            pos = [p for p, ch in enumerate(t) if ch in ";{}\"'+/*\\:"]
            if pos:
                p = d.choice(pos)
                t = t[:p] + d.choice(["", d.choice(BITS)]) + t[p + 1:]
        else:
            t = t[:i] + d.choice(BITS) + t[i:]
    return t


@case
def gen_texts(d):
    t = gen_module(d, d.int(0, 2))
    for _ in range(3):
        text = Spell(d).text(t)
        if len(text) < 400:
            break
        t = gen_module(d, 0)
    texts = [damage(d, text) for _ in range(4)]
    if d.p(10):
        texts.append("p:" + text.lstrip())
    if d.p(20):
        texts.append(text + d.choice(["}", ";", "x", "/", "/*", "/* *", "// x", "*/", "module n;", "/* a */ x */", "\"\"", "{}", "//\n;", " \\"]))
    return {"texts": texts}


def check_texts(c):
    from yangson.exceptions import ParserException, InvalidArgument
    from yangson.statement import ModuleParser
    good = bad = 0
    labels = set()
    for text in c["texts"]:
        try:
            want = Ref(text).module()
            rev = revision(want)
            if want[2] is None or rev is None:
                raise Skip("no argument")
        except Skip as s:
            labels.add("open: " + str(s))
            continue
        except Reject as r:
            want, why, rev = None, str(r), ""
            labels.add("bad: " + why)
        try:
            got = dump(ModuleParser(text, want and want[2], rev).parse())
        except (ParserException, InvalidArgument) as e:
            if want is not None:
                raise Violation(f"well-formed text {text!r} refused: {e}")
            expect(str(e), "exception without a message")
            bad += 1
            continue
        except Exception as e:
            if want is None and type(e).__name__ in ("ModuleNameMismatch", "ModuleRevisionMismatch"):
                # reported before the end of the text was looked at
                bad += 1
                continue
            raise
        if want is None:
            raise Violation(f"malformed text ({why}) {text!r} accepted as {got}")
        if got != want:
            raise Violation(f"{text!r} parsed as {got}\ninstead of {want}")
        good += 1
    return {"nontrivial": bool(good and bad), "labels": sorted(labels), "n": good + bad}


LEGS = [Leg("trees", gen_trees, check_trees, quick=18000, thorough=90000, chunk=150), Leg("texts", gen_texts, check_texts, quick=18000, thorough=90000, chunk=150)]
