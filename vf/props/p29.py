"""P29: timestamps record the last modification."""
import time
from datetime import datetime, timedelta
from ..core import Leg, Skip, Violation
from ..d import case
from .. import rschema as rs
from .p08 import State, Fail, apply, gen_op, run, KINDS
from ..rich import RICH

RULE = ("one case is a schema, a document and a sequence of moves and edits, each applied to any node obtained so far; every timestamp of the result, of its ancestors and of "
        "their members is checked against the time windows of the edits in the node's history; non-trivial when at least three edits succeeded and at least two moves "
        "between them changed the position")
ASSUMPTIONS = ["the timestamp of a scalar, and of any member that wasn't modified itself, may be that of its parent, as nodes share timestamps with the object or array they are in",
               "entries of one array are not told apart", "a case is skipped when the system clock jumps"]
EDITS = ("put", "update", "delete", "before", "after")


def make(nops, rich=False, **kw):
    @case
    def gen(d):
        f = rs.default_feat(kinds=KINDS, any=True, when=False, **kw)
        mj = RICH if rich else rs.Gen(d, f).gen()
        m = rs.Model(mj)
        doc = rs.DataGen(d, m, "all", density=80).doc() or {}
        states = [State(m, rs.canon_raw(m, doc))]
        ops = []
        for _ in range(d.int(6, nops)):
            h = len(states) - 1 if d.p(75) else d.int(0, len(states) - 1)
            s = states[h]
            try:
                if d.p(15):
                    old = [i for i, x in enumerate(states) if x.path == s.path and x.root is not s.root]
                    if not old:
                        continue
                    o = {"op": "restore", "from": d.choice(old), "h": h}
                    states.append(s.go(s.path, s.put(s.path, states[o["from"]].at())))
                    ops.append(o)
                    continue
                o = gen_op(d, m, s)
                if o is None:
                    continue
                o["h"] = h
                states.append(apply(s, o))
            except (Skip, rs.Bad, Fail):
                continue
            ops.append(o)
        return {"m": mj, "doc": doc, "ops": ops}
    return gen


def now():
    t = datetime.now()
    while datetime.now() == t:
        pass
    return datetime.now()


def cut(path):
    """The part of a path outside arrays."""
    out = []
    for k in path:
        if isinstance(k, int):
            break
        out.append(k)
    return tuple(out)


def bounds(path, edits, mine):
    """Earliest and latest timestamp of the node at path; edits are (path, start, end), mine is the edit path that was just made, if any."""
    par = cut(path[:-1])
    lo = hi = None
    for i, (q, s, e) in enumerate(edits):
        exact = i == len(edits) - 1 and mine
        k = q if exact else cut(q)
        if i == 0 or k[:len(path)] == tuple(path) and (exact or all(isinstance(x, str) for x in path)):
            lo = s
        elif len(cut(q)) < len(path) and cut(q) == tuple(path)[:len(cut(q))]:
            lo = None               # part of a value that replaced the former one
        kc = cut(q)
        if i == 0 or kc[:len(par)] == par or par[:len(kc)] == kc:
            hi = e
    return lo, hi


def judge(c):
    from yangson import exceptions as X
    mj = c["m"]
    m = rs.Model(mj)
    dm = rs.load(mj)
    try:
        s0 = State(m, rs.canon_raw(m, c["doc"]))
    except rs.Bad:
        raise Skip("document")
    w0, m0 = now(), time.monotonic()
    root = dm.from_raw(c["doc"])
    nodes = [(root, s0, [((), w0, now())])]
    bad = []

    def see(node, path, edits, mine, what):
        lo, hi = bounds(path, edits, mine)
        t = node.timestamp
        if lo and t < lo:
            bad.append(f"{what}: timestamp of {path} is {t}, before its last modification at {lo}; edits {[str(x[0]) for x in edits]}")
        elif t > hi:
            bad.append(f"{what}: timestamp of {path} is {t}, but nothing there was modified after {hi}; edits {[str(x[0]) for x in edits]}")

    def look(node, s, edits, mine, what):
        p, q = node, s
        while True:
            see(p, q.path, edits, mine, what)
            v = q.at()
            for k in list(v)[:4] if isinstance(v, dict) and q.kind() == "obj" else range(min(len(v), 3)) if isinstance(v, list) and q.kind() == "arr" else ():
                see(p[k], q.path + (k,), edits, mine and tuple(mine) == q.path + (k,), what + ", seen from above")
            if not q.path:
                break
            p, q = p.up(), q.go(q.path[:-1])
    n = moves = 0
    labels = set()
    for i, o in enumerate(c["ops"]):
        if o["h"] >= len(nodes) or o.get("from", 0) >= len(nodes):
            raise Skip("handle")
        node, s, edits = nodes[o["h"]]
        what = f"step {i} {o}"
        w = now()
        try:
            if o["op"] == "restore":
                if nodes[o["from"]][1].path != s.path:
                    raise Skip("path")
                exp = s.go(s.path, s.put(s.path, nodes[o["from"]][1].at()))
                got = node.update(nodes[o["from"]][0].value)
            else:
                exp = apply(s, o)
                got = run(node, o, s)
        except (Fail, rs.Bad, KeyError, TypeError, IndexError, X.YangsonException) as e:
            raise Skip("operation")     # P08 judges outcomes
        if tuple(got.path) != exp.path:
            raise Skip("path")
        mine = None
        if o["op"] in EDITS or o["op"] == "restore":
            mine = exp.path if o["op"] != "delete" else s.path
            edits = edits + [(mine, w, now())]
            n += 1
        else:
            moves += exp.path != s.path
        labels.add(o["op"])
        nodes.append((got, exp, edits))
        look(got, exp, edits, mine, what)
        look(node, s, nodes[o["h"]][2], None, what + " (node before)")
    if bad:
        if abs((datetime.now() - w0).total_seconds() - (time.monotonic() - m0)) > 2e-3:
            raise Skip("clock")
        raise Violation(bad[0])
    return {"nontrivial": n >= 3 and moves >= 2, "labels": sorted(labels)}


LEGS = [Leg("rich", make(18, rich=True), judge, quick=9000, thorough=36000),
        Leg("history", make(18, size=9, maxmods=2), judge, quick=9000, thorough=36000)]
