"""Reference model of YANG types, independent of the code under test.

A type is a JSON object:
  {"t": <built-in name>, ...own properties..., plus restriction keys at this level}
  {"t": "typedef", "name": n, "mod": module index, "base": T, restriction keys, "default": text?, "units": text?}
Restriction keys: "range"/"length": {"parts": [[lo, hi]...], "txt": text, "msg"?, "tag"?}
                  "patterns": [{"p": AST, "inv": bool, "msg"?, "tag"?}]
                  "enums": [[name, value or null]...], "bits": [[name, pos or null]...]
A typedef's "base" may itself carry restrictions; the *use* of a typedef carries its restrictions in the object whose
"t" is "use": {"t": "use", "of": <typedef T>, restriction keys}.

Cooked reference values are tuples: ("int", n) ("dec", n, fd) ("str", s) ("bool", b) ("empty",) ("enum", s) ("bits", (names in position order))
("bin", hex) ("idref", mod, name) ("iid", text)
"""
import base64
import binascii
import re
from .core import Skip
from .d import D

INTS = {"int8": (-128, 127), "int16": (-2**15, 2**15 - 1), "int32": (-2**31, 2**31 - 1), "int64": (-2**63, 2**63 - 1),
        "uint8": (0, 255), "uint16": (0, 2**16 - 1), "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1)}
BIG = ("int64", "uint64")


class Reject(Exception):
    """Value is not accepted. stage: 'raw' (wrong JSON encoding) or 'value'; tag/msg: declared error info."""

    def __init__(self, stage, tag=None, msg=None):
        self.stage, self.tag, self.msg = stage, tag, msg


# ---------------------------------------------------------------- XSD patterns as ASTs

def gen_pattern(d: D, depth=2):
    """AST: ["lit", text] ["cls", items, neg] ["seq", [..]] ["alt", [..]] ["rep", x, lo, hi|None] ["esc", c] ["any"]"""
    k = d.weighted([(6, "lit"), (6, "cls"), (3, "esc"), (1, "any")] + ([(5, "seq"), (3, "alt"), (6, "rep")] if depth > 0 else []))
    if k == "lit":
        return ["lit", d.text("abcxyz019-_:^$", 1, 3)]
    if k == "cls":
        items = [d.weighted([(5, "a-z"), (4, "0-9"), (2, "A-Z"), (2, "abc"), (1, "x"), (1, "_"), (1, "\\-"), (1, "\\."), (1, "^"), (1, "$")])
                 for _ in range(d.int(1, 3))]
        if items[0] == "^":
            items = ["a-z"] + items
        return ["cls", items, d.p(20)]
    if k == "esc":
        return ["esc", d.choice("dDsS")]
    if k == "any":
        return ["any"]
    if k == "seq":
        return ["seq", [gen_pattern(d, depth - 1) for _ in range(d.int(1, 3))]]
    if k == "alt":
        return ["alt", [gen_pattern(d, depth - 1) for _ in range(d.int(2, 3))]]
    lo = d.int(0, 2)
    hi = d.weighted([(2, None), (2, lo + 1), (1, lo + 3)])
    return ["rep", gen_pattern(d, depth - 1), lo, hi]


def pat_text(p):
    k = p[0]
    if k == "lit":
        return p[1]
    if k == "cls":
        return "[" + ("^" if p[2] else "") + "".join(p[1]) + "]"
    if k == "esc":
        return "\\" + p[1]
    if k == "any":
        return "."
    if k == "seq":
        return "".join(pat_text(x) for x in p[1])
    if k == "alt":
        return "(" + "|".join(pat_text(x) for x in p[1]) + ")"
    lo, hi = p[2], p[3]
    q = {(0, None): "*", (1, None): "+", (0, 1): "?"}.get((lo, hi))
    if q is None:
        q = "{%d,%s}" % (lo, "" if hi is None else hi) if hi != lo else "{%d}" % lo
    return "(" + pat_text(p[1]) + ")" + q


def _cls_match(items, neg, c):
    ok = False
    for it in items:
        if len(it) == 3 and it[1] == "-":
            ok = ok or it[0] <= c <= it[2]
        elif it[0] == "\\":
            ok = ok or c == it[1]
        else:
            ok = ok or c in it
    return ok != neg


def _esc_match(e, c):
    import unicodedata
    cat = unicodedata.category(c)
    if e == "d":
        return cat == "Nd"
    if e == "D":
        return cat != "Nd"
    if e == "s":
        return c in " \t\n\r"
    return c not in " \t\n\r"      # S


def pat_ends(p, s, starts):
    """Set of end positions of matches of p in s beginning at any of `starts` (direct denotational matcher)."""
    k = p[0]
    if k == "lit":
        return {i + len(p[1]) for i in starts if s.startswith(p[1], i)}
    if k == "cls":
        return {i + 1 for i in starts if i < len(s) and _cls_match(p[1], p[2], s[i])}
    if k == "esc":
        return {i + 1 for i in starts if i < len(s) and _esc_match(p[1], s[i])}
    if k == "any":
        return {i + 1 for i in starts if i < len(s) and s[i] not in "\n\r"}
    if k == "seq":
        cur = set(starts)
        for x in p[1]:
            cur = pat_ends(x, s, cur)
        return cur
    if k == "alt":
        r = set()
        for x in p[1]:
            r |= pat_ends(x, s, starts)
        return r
    lo, hi = p[2], p[3]
    cur = set(starts)
    for _ in range(lo):
        cur = pat_ends(p[1], s, cur)
    res = set(cur)
    n = lo
    while cur and (hi is None or n < hi):
        nxt = pat_ends(p[1], s, cur)
        if nxt <= res:
            break
        res |= nxt
        cur = nxt
        n += 1
        if n > lo + len(s) + 2:
            break
    return res


def pat_match(p, s):
    return len(s) in pat_ends(p, s, {0})


def pat_gen(d: D, p):
    """Generate a string matching p (best effort)."""
    k = p[0]
    if k == "lit":
        return p[1]
    if k == "cls":
        cand = [c for c in "abmz059AZ_-.^$x%é" if _cls_match(p[1], p[2], c)]
        return d.choice(cand) if cand else ""
    if k == "esc":
        return d.choice([c for c in "07aZ \t-é٣" if _esc_match(p[1], c)])
    if k == "any":
        return d.choice("a0 .é")
    if k == "seq":
        return "".join(pat_gen(d, x) for x in p[1])
    if k == "alt":
        return pat_gen(d, d.choice(p[1]))
    n = d.int(p[2], p[3] if p[3] is not None else p[2] + 2)
    return "".join(pat_gen(d, p[1]) for _ in range(min(n, 6)))


# ---------------------------------------------------------------- generation of types

MSGS = ["Bad thing!", "not good 'x'", "err \"q\" é"]
TAGS = ["app-tag-1", "too-odd"]


def _errinfo(d, r):
    if d.p(25):
        r["msg"] = d.choice(MSGS)
    if d.p(25):
        r["tag"] = d.choice(TAGS)
    return r


def fmt_dec(n, fd):
    """Canonical decimal64 text of n * 10^-fd."""
    sign = "-" if n < 0 else ""
    digits = str(abs(n)).rjust(fd + 1, "0")
    ip, fp = digits[:-fd], digits[-fd:].rstrip("0")
    return sign + ip + "." + (fp or "0")


def gen_parts(d: D, parts, fmt):
    """Random restriction of a list of intervals -> {"parts", "txt"}; stays inside and keeps YANG's ordering rules."""
    lo, hi = parts[0][0], parts[-1][1]
    pts = []
    n = d.weighted([(6, 1), (3, 2), (2, 3)])
    cand = set()
    for a, b in parts:
        cand.add(a)
        cand.add(b)
        for _ in range(2):
            cand.add(d.int(a, b))
        if b - a > 20:
            cand.add(a + d.int(0, 9))
            cand.add(b - d.int(0, 9))
    cand = sorted(cand)
    # choose 2n points, each pair within one parent interval
    res = []
    pos = 0
    for _ in range(n):
        rest = cand[pos:]
        if not rest:
            break
        i = d.int(0, len(rest) - 1)
        a = rest[i]
        par = next(p for p in parts if p[0] <= a <= p[1])
        up = [x for x in rest[i:] if x <= par[1]]
        b = d.choice(up)
        res.append([a, b])
        pos = cand.index(b) + 1
    txts = []
    for j, (a, b) in enumerate(res):
        sa, sb = fmt(a), fmt(b)
        if j == 0 and a == lo and d.p(60):
            sa = "min"
        if j == len(res) - 1 and b == hi and d.p(60):
            sb = "max"
        if a == b and (sa != "min" and sb != "max"):
            txts.append(sa)
        elif a == b and sb == "max" and d.p(30):
            txts.append("max")
        elif a == b and sa == "min" and sb != "max" and d.p(30):
            txts.append("min")
        else:
            dots = d.choice(["..", " .. ", ".. "])
            txts.append(sa + dots + sb)
    return {"parts": res, "txt": d.choice([" | ", "|", "| "]).join(txts)}


ENUMS = ["zero", "one", "two", "three", "un-o", "a.b", "x_1", "10", "true", "with space", "é"]
BITS = ["b0", "b1", "flag", "x-y", "z.9", "A"]


def gen_builtin(d: D, ctx, kinds=None, depth=1):
    kinds = kinds or [(3, "string"), (2, "int8"), (1, "int16"), (1, "int32"), (2, "int64"), (2, "uint8"), (1, "uint16"),
                      (1, "uint32"), (2, "uint64"), (2, "boolean"), (3, "decimal64"), (2, "enumeration"), (2, "bits"),
                      (2, "binary"), (1, "empty"), (2, "identityref"), (2, "union")]
    kinds = [k for k in kinds if (k[1] != "identityref" or ctx.get("idents")) and (k[1] != "union" or depth > 0)]
    t = d.weighted(kinds)
    T = {"t": t}
    if t == "decimal64":
        T["fd"] = d.weighted([(4, 2), (2, 1), (2, 4), (1, 7), (1, 12), (1, 18)])
    elif t == "enumeration":
        T["enums"] = gen_enum_items(d, ENUMS, -2**31, 2**31 - 1, True)
    elif t == "bits":
        T["bits"] = gen_enum_items(d, BITS, 0, 2**32 - 1, False)
    elif t == "identityref":
        T["bases"] = d.sample(range(len(ctx["idents"])), d.weighted([(5, 1), (1, 2)]))
    elif t == "union":
        uk = [(3, "string"), (2, "int8"), (2, "uint16"), (2, "int64"), (2, "boolean"), (2, "decimal64"), (2, "enumeration"),
              (2, "bits"), (1, "binary"), (1, "empty"), (2, "identityref"), (1, "union")]
        T["types"] = [gen_type(d, ctx, kinds=uk, depth=depth - 1) for _ in range(d.int(1, 3))]
        same_fd(T["types"], [])
    if d.p(45):
        add_restriction(d, T)
    return T


def same_fd(types, seen):
    """Keep at most one number of fraction digits among the members of a union: yangson rounds excess fraction digits (its
    own tests require so), and then the first of several decimal64 members takes every number."""
    for i in range(len(types)):
        b = builtin_of(types[i])
        if b["t"] == "union":
            same_fd(b["types"], seen)
        elif b["t"] == "decimal64":
            if seen and b["fd"] != seen[0]:
                types[i] = {"t": "boolean"}
            else:
                seen.append(b["fd"])


def gen_enum_items(d: D, names, lo, hi, neg):
    ns = d.sample(names, d.int(1, 5))
    items, used, cur = [], set(), None
    for n in ns:
        nxt = 0 if cur is None else cur + 1
        ex = d.p(45) or nxt in used or nxt > hi
        if ex:
            for _ in range(8):
                v = d.weighted([(5, d.int(-5 if neg else 0, 12)), (1, lo), (1, d.int(lo, lo + 3)), (1, d.int(0, 70))])
                if v not in used:
                    break
            if v in used:
                continue
            items.append([n, v])
        else:
            v = nxt
            items.append([n, None])
        used.add(v)
        cur = v if cur is None else max(cur, v)
    return items


def enum_values(items):
    """Numbering rule of RFC 7950 9.6.4.2 / 9.7.4.2 -> {name: value}."""
    res, cur = {}, None
    for n, v in items:
        if v is None:
            v = 0 if cur is None else cur + 1
        res[n] = v
        cur = v if cur is None else max(cur, v)
    return res


def gen_type(d: D, ctx, kinds=None, depth=1, typedef_p=35):
    T = gen_builtin(d, ctx, kinds, depth)
    lv = d.weighted([(100 - typedef_p, 0), (typedef_p * 2 // 3, 1), (typedef_p // 3, 2)])
    for _ in range(lv):
        ctx["ntypedef"] = ctx.get("ntypedef", 0) + 1
        mod = d.int(0, ctx.get("maxmod", 0))
        # a typedef lives in a module not lower than the ones its base needs
        mod = max(mod, min_mod(T, ctx))
        td = {"t": "typedef", "name": f"td{ctx['ntypedef']}", "mod": mod, "base": T}
        T = {"t": "use", "of": td}
        if d.p(50):
            add_restriction(d, T)
    return T


def min_mod(T, ctx):
    """Lowest module index that can mention T (identity bases and typedefs of higher modules are out of reach)."""
    t = T["t"]
    if t == "typedef":
        return T["mod"]
    if t == "use":
        return T["of"]["mod"]
    if t == "identityref":
        return max(ctx["idents"][b]["mod"] for b in T["bases"])
    if t == "union":
        return max(min_mod(x, ctx) for x in T["types"])
    return 0


def builtin_of(T):
    while T["t"] in ("typedef", "use"):
        T = T["base"] if T["t"] == "typedef" else T["of"]
    return T


def levels(T):
    """Restriction levels from the built-in outwards."""
    res = []
    while True:
        res.append(T)
        if T["t"] == "typedef":
            T = T["base"]
        elif T["t"] == "use":
            T = T["of"]
        else:
            break
    res.reverse()
    return res


def cur_parts(T, key):
    b = builtin_of(T)
    for lv in reversed(levels(T)):
        if key in lv:
            return lv[key]["parts"]
    if key == "length":
        return [[0, 12]]     # effective upper bound for generation only
    if b["t"] == "decimal64":
        return [[-2**63, 2**63 - 1]]
    return [list(INTS[b["t"]])]


def add_restriction(d: D, T):
    b = builtin_of(T)
    t = b["t"]
    if t in INTS:
        T["range"] = _errinfo(d, gen_parts(d, cur_parts(T, "range"), str))
    elif t == "decimal64":
        T["range"] = _errinfo(d, gen_parts(d, cur_parts(T, "range"), lambda n: fmt_dec(n, b["fd"])))
    elif t in ("string", "binary"):
        if t == "binary" or d.p(60):
            has = any("length" in lv for lv in levels(T))
            parts = cur_parts(T, "length")
            r = gen_parts(d, parts, str)
            if not has:
                r["txt"] = " | ".join((f"{a}..{c}" if a != c else str(a)) for a, c in r["parts"])
                if d.p(25) and r["parts"][-1][1] == 12:
                    r["parts"][-1][1] = 2**64 - 1
                    a = r["parts"][-1][0]
                    r["txt"] = " | ".join([(f"{a}..{c}" if a != c else str(a)) for a, c in r["parts"][:-1]] + [f"{a}..max"])
                elif d.p(25) and r["parts"][0][0] == 0 and r["parts"][0][1] != 0:
                    r["txt"] = "min" + r["txt"][1:]
            T["length"] = _errinfo(d, r)
        if t == "string" and d.p(60):
            T["patterns"] = [_errinfo(d, {"p": gen_pattern(d), "inv": d.p(20)}) for _ in range(d.int(1, 2))]
    elif t == "enumeration" and T is not b:
        cur = [n for n, _ in next(lv["enums"] for lv in reversed(levels(T)) if "enums" in lv)]
        vals = enum_values(b["enums"])
        keep = d.subset(cur, 70) or cur[:1]
        T["enums"] = [[n, vals[n] if d.p(20) else None] for n in keep]
    elif t == "bits" and T is not b:
        cur = [n for n, _ in next(lv["bits"] for lv in reversed(levels(T)) if "bits" in lv)]
        vals = enum_values(b["bits"])
        keep = d.subset(cur, 70) or cur[:1]
        T["bits"] = [[n, vals[n] if d.p(20) else None] for n in keep]


# ---------------------------------------------------------------- acceptance of raw JSON values

INT_RE = re.compile(r"[+-]?[0-9]+\Z", re.ASCII)
DEC_RE = re.compile(r"[+-]?[0-9]+(\.[0-9]+)?\Z", re.ASCII)


def enum_of(T, key):
    names = None
    for lv in levels(T):
        if key in lv:
            names = [n for n, _ in lv[key]]
    return names


def accept(T, raw, ctx, ns):
    """Reference verdict: cooked value, or raises Reject.  ctx: {"idents": [...], "mods": [names]};
    ns: module index of the leaf (for unprefixed identities)."""
    b = builtin_of(T)
    t = b["t"]
    if t in INTS:
        if t in BIG:
            if not isinstance(raw, str) or not INT_RE.match(raw):
                raise Reject("raw")
            n = int(raw)
        else:
            if isinstance(raw, bool) or not isinstance(raw, int):
                raise Reject("raw")
            n = raw
        check_bounds(T, n, "range")
        return ("int", n)
    if t == "decimal64":
        if not isinstance(raw, str) or not DEC_RE.match(raw):
            raise Reject("raw")
        fd = b["fd"]
        ip, _, fp = raw.lstrip("+-").partition(".")
        if len(fp) > fd:
            if set(fp[fd:]) != {"0"}:
                raise Skip("excess fraction digits")
            fp = fp[:fd]
        n = int(ip + fp.ljust(fd, "0")) * (-1 if raw[0] == "-" else 1)
        check_bounds(T, n, "range")
        return ("dec", n, fd)
    if t == "string":
        if not isinstance(raw, str):
            raise Reject("raw")
        check_bounds(T, len(raw), "length")
        for lv in levels(T):
            for p in lv.get("patterns", ()):
                if pat_match(p["p"], raw) == p["inv"]:
                    raise Reject("value", p.get("tag"), p.get("msg"))
        return ("str", raw)
    if t == "boolean":
        if not isinstance(raw, bool):
            raise Reject("raw")
        return ("bool", raw)
    if t == "empty":
        if raw != [None]:
            raise Reject("raw")
        return ("empty",)
    if t == "enumeration":
        if not isinstance(raw, str):
            raise Reject("raw")
        if raw not in enum_of(T, "enums"):
            raise Reject("value")
        return ("enum", raw)
    if t == "bits":
        if not isinstance(raw, str):
            raise Reject("raw")
        bs = raw.split()
        if len(set(bs)) < len(bs):
            raise Skip("repeated bit name")
        names = enum_of(T, "bits")
        if any(x not in names for x in bs):
            raise Reject("value")
        pos = enum_values(b["bits"])
        return ("bits", tuple(sorted(bs, key=lambda x: pos[x])))
    if t == "binary":
        if not isinstance(raw, str):
            raise Reject("raw")
        try:
            v = base64.b64decode(raw.encode("ascii"), validate=True)
        except (binascii.Error, ValueError):
            raise Reject("raw")
        check_bounds(T, len(v), "length")
        return ("bin", v.hex())
    if t == "identityref":
        if not isinstance(raw, str):
            raise Reject("raw")
        m, s, n = raw.partition(":")
        if not s:
            m, n = ctx["mods"][ns], m
        for bi in b["bases"]:
            if (m, n) not in derived(ctx, bi):
                raise Reject("value")
        return ("idref", m, n)
    if t == "union":
        for x in b["types"]:
            try:
                return accept(x, raw, ctx, ns)
            except Reject:
                pass
        raise Reject("raw")
    raise AssertionError(t)


def check_bounds(T, n, key):
    b = builtin_of(T)
    if key == "range":
        lo, hi = INTS.get(b["t"], (-2**63, 2**63 - 1))
        if not lo <= n <= hi:
            r = effective(T, key)
            raise Reject("value", r.get("tag"), r.get("msg"))
    for lv in levels(T):
        if key in lv and not any(a <= n <= c for a, c in lv[key]["parts"]):
            r = effective(T, key)
            raise Reject("value", r.get("tag"), r.get("msg"))


def effective(T, key):
    """Error info of the innermost-applied restriction: a later level overrides what it declares."""
    res = {}
    for lv in levels(T):
        if key in lv:
            for k in ("tag", "msg"):
                if k in lv[key]:
                    res[k] = lv[key][k]
    return res


def derived(ctx, base):
    """Set of (module, name) of identities properly derived from identity number `base`."""
    res = set()
    idents = ctx["idents"]
    for i in range(len(idents)):
        if i != base and _derives(idents, i, base, set()):
            res.add((ctx["mods"][idents[i]["mod"]], idents[i]["name"]))
    return res


def _derives(idents, i, base, seen):
    for b in idents[i]["bases"]:
        if b == base:
            return True
        if b not in seen:
            seen.add(b)
            if _derives(idents, b, base, seen):
                return True
    return False


def canon(v):
    """Canonical string of a cooked reference value."""
    k = v[0]
    if k == "int":
        return str(v[1])
    if k == "dec":
        return fmt_dec(v[1], v[2])
    if k in ("str", "enum", "iid"):
        return v[1]
    if k == "bool":
        return "true" if v[1] else "false"
    if k == "empty":
        return ""
    if k == "bits":
        return " ".join(v[1])
    if k == "bin":
        return base64.b64encode(bytes.fromhex(v[1])).decode()
    if k == "idref":
        return f"{v[1]}:{v[2]}"
    raise AssertionError(k)


def to_raw(v, T=None):
    """Canonical JSON encoding of a cooked value of type T (T needed for the width of integers)."""
    k = v[0]
    if k == "int":
        return v[1] if width_small(T, v) else str(v[1])
    if k == "bool":
        return v[1]
    if k == "empty":
        return [None]
    return canon(v)


def width_small(T, v):
    return builtin_of(T)["t"] not in BIG


# ---------------------------------------------------------------- generation of values

TXT = "abcz09 .:/-_'\"\\[]=,%<>&\té\n"


def gen_valid(d: D, T, ctx, ns, txt=TXT):
    """(raw value) accepted by T, or None if none was found."""
    for _ in range(4):
        r = gen_candidate(d, T, ctx, ns, txt)
        if r is None:
            continue
        try:
            accept(T, r[0], ctx, ns)
            return r
        except (Reject, Skip):
            pass
    return None


def pick_in(d: D, parts):
    a, b = d.choice(parts)
    return d.weighted([(3, None), (2, a), (2, b)]) if False else _pk(d, a, b)


def _pk(d, a, b):
    k = d.int(0, 6)
    if k == 0:
        return a
    if k == 1:
        return b
    if k == 2 and a <= 0 <= b:
        return 0
    if k == 3 and b - a > 5:
        return a + d.int(0, 5)
    if k == 4 and b - a > 300:
        return max(a, min(b, d.int(-300, 300)))
    return d.int(a, b)


def gen_candidate(d: D, T, ctx, ns, txt=TXT):
    """[raw] that is likely accepted (1-element list so that any JSON value can be told from None)."""
    b = builtin_of(T)
    t = b["t"]
    if t in INTS:
        n = pick_in(d, cur_parts(T, "range"))
        return [str(n) if t in BIG else n]
    if t == "decimal64":
        n = pick_in(d, cur_parts(T, "range"))
        s = fmt_dec(n, b["fd"])
        k = d.int(0, 9)
        if k == 1 and s.endswith(".0"):
            s = s[:-2]
        elif k == 2 and len(s.split(".")[1]) < b["fd"]:
            s += "0"
        elif k == 3 and n >= 0:
            s = "+" + s
        elif k == 4:
            s = ("-0" + s[1:]) if n < 0 else "0" + s
        return [s]
    if t == "string":
        pats = [p for lv in levels(T) for p in lv.get("patterns", ()) if not p["inv"]]
        lens = [lv["length"] for lv in levels(T) if "length" in lv]
        if pats:
            return [pat_gen(d, d.choice(pats)["p"])]
        if lens:
            n = min(pick_in(d, lens[-1]["parts"]), 15)
            return [d.text(txt, n, n)]
        return [d.text(txt, 0, 8)]
    if t == "boolean":
        return [d.p(50)]
    if t == "empty":
        return [[None]]
    if t == "enumeration":
        return [d.choice(enum_of(T, "enums"))]
    if t == "bits":
        return [d.choice([" ", " ", "  "]).join(d.shuffle(d.subset(enum_of(T, "bits"))))]
    if t == "binary":
        lens = [lv["length"] for lv in levels(T) if "length" in lv]
        n = min(pick_in(d, lens[-1]["parts"]), 15) if lens else d.int(0, 7)
        return [base64.b64encode(bytes(d.int(0, 255) for _ in range(n))).decode()]
    if t == "identityref":
        cand = None
        for bi in b["bases"]:
            s = derived(ctx, bi)
            cand = s if cand is None else cand & s
        if not cand:
            return None
        m, n = d.choice(sorted(cand))
        return [n if m == ctx["mods"][ns] and d.p(40) else f"{m}:{n}"]
    if t == "union":
        return gen_candidate(d, d.choice(b["types"]), ctx, ns, txt)
    raise AssertionError(t)


def gen_any_raw(d: D, T, ctx, ns):
    """Candidate raw value for acceptance testing: valid-looking, near-boundary, wrong encoding or arbitrary."""
    k = d.int(0, 9)
    b = builtin_of(T)
    if b["t"] == "union":
        b = builtin_of(d.choice(b["types"]))
        T2 = b
    else:
        T2 = T
    if k <= 3:
        r = gen_candidate(d, T, ctx, ns)
        if r is not None:
            return r[0]
    if k <= 7:
        t = b["t"]
        if t in INTS:
            pts = set(INTS[t])
            for lv in levels(T2):
                for a, c in lv.get("range", {}).get("parts", ()):
                    pts |= {a, c}
            n = d.choice(sorted(pts)) + d.int(-1, 1)
            m = d.int(0, 12)
            if m == 0:
                return str(n) if t not in BIG else n
            if m == 1:
                return float(n) if abs(n) < 2**53 else n + 0.5
            if m == 2 and t in BIG:
                return d.choice(["%d ", " %d", "+%d", "0%d", "%d.0", "%d_0", "0x%x", "", "-", "1e3", "٣", "-%d", "%d\n"]).replace("%d", str(n)).replace("%x", "1F")
            return str(n) if t in BIG else n
        if t == "decimal64":
            pts = {-2**63, 2**63 - 1, 0}
            for lv in levels(T2):
                for a, c in lv.get("range", {}).get("parts", ()):
                    pts |= {a, c}
            n = d.choice(sorted(pts)) + d.int(-1, 1)
            s = fmt_dec(n, b["fd"])
            m = d.int(0, 12)
            if m == 0:
                return n
            if m == 1:
                return d.choice(["NaN", "Infinity", "-Infinity", "1E2", "1e-1", "", ".5", "5.", "1_0.0", " 1.0", "1.0 ", "+1.5", "--1", "1.0.0", "0x1", "sNaN", "٣.٠"])
            if m == 2:
                return 1.5
            return s
        if t in ("string", "binary"):
            r = gen_candidate(d, T2, ctx, ns)[0]
            m = d.int(0, 5)
            if m == 0:
                r = r + d.choice(["a", "\n", "0", "=", " ", "é"])
            elif m == 1:
                r = r[:-1]
            elif m == 2 and r:
                i = d.int(0, len(r) - 1)
                r = r[:i] + d.choice("aZ0-_ é$\n!") + r[i + 1:]
            elif m == 3:
                r = d.choice("aZ0-_ ") + r
            elif m == 4:
                r = d.text(TXT, 0, 14)
            return r
        if t in ("enumeration", "bits"):
            names = [n for n, _ in b.get("enums") or b.get("bits")]
            m = d.int(0, 5)
            if m <= 2:
                return d.choice(names)
            if m == 3:
                return d.choice(names) + d.choice([" ", "x", " " + names[0]])
            if m == 4:
                return d.choice(["", "unknown", "Zero", 0, None])
            return " ".join(d.sample(names, 2))
        if t == "identityref":
            i = d.choice(ctx["idents"])
            return d.choice([i["name"], ctx["mods"][i["mod"]] + ":" + i["name"], "nomod:" + i["name"], "", ":" + i["name"],
                             ctx["mods"][0] + ":nonexistent", ctx["mods"][i["mod"]] + ":"])
        if t == "boolean":
            return d.choice([True, False, 0, 1, "true", "false", None])
        if t == "empty":
            return d.choice([[None], [], [0], None, "", [None, None], [False], {}, "null"])
    return gen_json(d)


def gen_json(d: D, depth=1):
    k = d.int(0, 9 if depth else 7)
    if k == 0:
        return None
    if k == 1:
        return d.p(50)
    if k == 2:
        return d.int(-300, 300)
    if k == 3:
        return d.choice([0, 1, -1, 127, 128, 255, 256, 2**31, 2**63, -2**63 - 1, 2**64, 10**30])
    if k == 4:
        return d.choice([0.5, -0.0, 1.0, 1e300, 2.0**63])
    if k == 5:
        return [None]
    if k in (6, 7):
        return d.text("ab01 -+.eExé\n:/'\"", 0, 6)
    if k == 8:
        return [gen_json(d, depth - 1) for _ in range(d.int(0, 3))]
    return {d.text("ab@:", 0, 3): gen_json(d, depth - 1) for _ in range(d.int(0, 2))}


# ---------------------------------------------------------------- YANG text

def q(s):
    """Double-quoted YANG string."""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def errinfo_text(r):
    s = ""
    if "msg" in r:
        s += f" error-message {q(r['msg'])};"
    if "tag" in r:
        s += f" error-app-tag {q(r['tag'])};"
    return " {" + s + " }" if s else ";"


def restr_text(T):
    out = []
    for key in ("range", "length"):
        if key in T:
            out.append(f"{key} {q(T[key]['txt'])}{errinfo_text(T[key])}")
    for p in T.get("patterns", ()):
        et = errinfo_text(p)
        if p["inv"]:
            et = " { modifier invert-match;" + (et[2:] if et != ";" else " }")
        out.append(f"pattern {q(pat_text(p['p']))}{et}")
    for key, kw, vk in (("enums", "enum", "value"), ("bits", "bit", "position")):
        for n, v in T.get(key, ()):
            out.append(f"{kw} {q(n)}" + (";" if v is None else f" {{ {vk} {v}; }}"))
    return out


def type_stmt(T, mod, em):
    """`type ...` statement text as it appears in module index `mod`; typedefs are registered with the emitter em."""
    t = T["t"]
    if "via" in T:
        v = T["via"]
        base = {k: x for k, x in T.items() if k not in ("via", "require")}
        if "t" in v:
            base["require"] = v["t"]
        em.add_typedef({"t": "typedef", "name": v["name"], "mod": v["mod"], "base": base})
        head = v["name"] if v["mod"] == mod else em.prefix(mod, v["mod"]) + ":" + v["name"]
        body = [f"require-instance {'true' if v['u'] else 'false'};"] if "u" in v else []
    elif t == "use":
        td = T["of"]
        em.add_typedef(td)
        head = td["name"] if td["mod"] == mod else em.prefix(mod, td["mod"]) + ":" + td["name"]
        body = restr_text(T)
    else:
        head = t
        body = restr_text(T)
        if t == "decimal64":
            body.insert(0, f"fraction-digits {T['fd']};")
        elif t == "identityref":
            for bi in T["bases"]:
                body.append(f"base {em.ident_ref(mod, bi)};")
        elif t == "union":
            body = [type_stmt(x, mod, em) for x in T["types"]]
        elif t == "leafref":
            body.append(f"path {q(T['path_text'](mod) if callable(T['path_text']) else T['path_text'])};")
            if T.get("require") is False:
                body.append("require-instance false;")
            elif T.get("require") is True:
                body.append("require-instance true;")
        elif t == "instance-identifier":
            if "require" in T:
                body.append(f"require-instance {'true' if T['require'] else 'false'};")
    return f"type {head}" + (" { " + " ".join(body) + " }" if body else ";")
