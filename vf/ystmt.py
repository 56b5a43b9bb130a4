"""YANG text as plain statement trees [prefix, keyword, argument, substatements], for transformations of generated modules."""


def parse(text):
    from .props.p14 import Ref
    return Ref(text).module()


def quote(a):
    return '"' + a.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def emit(st, ind=0):
    pref, kw, arg, subs = st
    s = "  " * ind + (pref + ":" if pref else "") + kw + ("" if arg is None else " " + quote(arg))
    if not subs:
        return s + ";\n"
    return s + " {\n" + "".join(emit(x, ind + 1) for x in subs) + "  " * ind + "}\n"


def st(kw, arg=None, *subs):
    pref, s, loc = kw.rpartition(":")
    return [pref if s else None, loc, arg, list(subs)]


def walk(t, path=()):
    """All statements with the chain of their ancestors (outermost first)."""
    yield t, path
    for s in t[3]:
        yield from walk(s, path + (t,))


def find(t, kw, arg=None):
    return next((s for s in t[3] if s[0] is None and s[1] == kw and (arg is None or s[2] == arg)), None)


def find_all(t, kw):
    return [s for s in t[3] if s[0] is None and s[1] == kw]


def arg(t, kw, default=None):
    s = find(t, kw)
    return default if s is None else s[2]


def copy(t):
    return [t[0], t[1], t[2], [copy(s) for s in t[3]]]
