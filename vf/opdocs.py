"""Instance documents of datastores, operations and notifications."""
from . import rschema as rs
from .core import Skip
from .d import D


class Doc:
    """A document of a generated model: kind "data", "input", "output" or "notification"."""

    def __init__(self, m: rs.Model, kind, op, raw):
        self.m, self.kind, self.raw = m, kind, raw
        self.op = m.j["ops"][op] if op is not None else None
        self.sub = None if self.op is None else f"{m.mods[self.op['ns']]}:{self.op['name']}"
        self.top = m.root if self.op is None else m.op_node(self.op, None if kind == "notification" else kind)

    def full(self, raw=None):
        """The document as given to the library."""
        raw = self.raw if raw is None else raw
        if self.kind in ("input", "output"):
            return {f"{self.m.mods[self.op['ns']]}:{self.kind}": raw}
        return raw

    def canon(self):
        """Canonical dump that the library has to produce."""
        c = rs.canon_raw(self.m, self.raw, self.top)
        if self.kind == "notification":
            c = {k if ":" in k else f"{self.m.mods[self.op['ns']]}:{k}": v for k, v in c.items()}
        return self.full(c)

    def tree(self):
        return self.m.build(self.raw, self.top)


def gen_doc(d: D, mj, m, ctype="all", density=70, **kw):
    """JSON description of a valid document, or None."""
    ops = mj.get("ops") or []
    if ops and d.p(65):
        i = d.int(0, len(ops) - 1)
        kind = "notification" if ops[i]["kind"] == "notification" else d.choice(["input", "output"])
        top = m.op_node(ops[i], None if kind == "notification" else kind)
        raw = rs.DataGen(d, m, "all", density=density, **kw).doc(top)
        return None if raw is None else {"kind": kind, "op": i, "raw": raw}
    raw = rs.DataGen(d, m, ctype, density=density, **kw).doc()
    return None if raw is None else {"kind": "data", "op": None, "raw": raw}


def doc_of(m, dj):
    return Doc(m, dj["kind"], dj["op"], dj["raw"])
