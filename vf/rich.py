"""A fixed model with deep nesting, for legs about histories, merging, addresses, filters and metadata."""
from . import rschema as rs

U8, STR, BOOL = {"t": "uint8"}, {"t": "string"}, {"t": "boolean"}
ENUM = {"t": "enumeration", "enums": [["one", None], ["two", 5]]}
UNI = {"t": "union", "types": [U8, BOOL, STR]}


def leaf(n, t=U8, ns=0, **kw):
    return {"kind": "leaf", "name": n, "ns": ns, "type": t, **kw}


def ll(n, t=U8, ns=0, **kw):
    return {"kind": "leaf-list", "name": n, "ns": ns, "type": t, **kw}


def cont(n, *kids, ns=0, **kw):
    return {"kind": "container", "name": n, "ns": ns, "children": list(kids), **kw}


def lst(n, keys, *kids, ns=0, **kw):
    return {"kind": "list", "name": n, "ns": ns, "keys": keys, "children": list(kids), **kw}


RICH = {"mods": ["ma", "mb"], "idents": [{"name": "base", "mod": 0, "bases": []}, {"name": "da", "mod": 0, "bases": [0]}, {"name": "db", "mod": 1, "bases": [0, 1]}],
        "ops": [], "tree": [
            cont("c", leaf("x", STR), leaf("y", BOOL), ll("e"),
                 cont("in", leaf("x", STR), leaf("z", {"t": "identityref", "bases": [0]}), ll("w", STR, user=True)),
                 {"kind": "anydata", "name": "any", "ns": 0},
                 cont("p", leaf("x", STR, ns=0), presence=True)),
            lst("l", ["k"], leaf("k", STR), leaf("v"), ll("e", STR),
                lst("n", ["k", "j"], leaf("k"), leaf("j", ENUM), leaf("v", UNI), cont("c", leaf("u"), ll("e")),
                    lst("m", ["k"], leaf("k", BOOL), leaf("v", {"t": "empty"}))),
                cont("c", leaf("u", {"t": "decimal64", "fd": 2}))),
            ll("e", STR, user=True),
            lst("u", ["a"], leaf("a", UNI), leaf("v", STR), user=True),
            lst("s", [], leaf("v"), leaf("w", STR), lst("t", [], leaf("v", STR), ll("e", UNI)), config=False),
            ll("sl", U8, config=False),
            leaf("t", UNI),
            leaf("x", {"t": "bits", "bits": [["b0", None], ["b1", None]]}, ns=1),
            cont("c", leaf("x", STR, ns=1), lst("l", ["k"], leaf("k", STR, ns=1), leaf("v", {"t": "int64"}, ns=1), ns=1), ns=1)]}


def rich(d=None):
    return RICH
