"""P03: value spaces of YANG types, and the error information declared for them."""
from ..core import Leg, Skip, Violation
from ..d import case
from .. import rschema as rs, rtypes as rt
from ..typed import typed_model, leaf_raw_cands, accept_text

RULE = ("one case is a set of typed leaves with candidate values each; it is non-trivial when at least one candidate was accepted and "
        "at least one was refused, by reference verdict")
ASSUMPTIONS = ["decimal64 values with excess non-zero fraction digits are outside the domain (the repository's tests require rounding)",
               "bits values that repeat a bit name are outside the domain"]


@case
def gen(d):
    mj = typed_model(d, d.int(1, 4))
    m = rs.Model(mj)
    out = []
    for sn in m.root.kids:
        for raw in leaf_raw_cands(d, m, sn, d.int(2, 6)):
            out.append({"leaf": sn.iname(), "raw": raw})
    return {"m": mj, "vals": out}


def check(c):
    m = rs.Model(c["m"])
    dm = rs.load(c["m"])
    from yangson.exceptions import RawTypeError, YangTypeError
    seen, labels = set(), set()
    for x in c["vals"]:
        sn = next(s for s in m.root.kids if s.iname() == x["leaf"])
        T, tc = m.leaf_type(sn)
        kind = rt.builtin_of(T)["t"]
        rej = None
        try:
            v = rt.accept(T, x["raw"], m.ctx, tc.ns)
        except rt.Reject as r:
            rej = r
        except Skip as s:
            labels.add("skip:" + str(s))
            continue
        what = f"{x['leaf']} of type {kind}, value {x['raw']!r}"
        try:
            inst = dm.from_raw({x["leaf"]: x["raw"]})
        except RawTypeError as e:
            str(e)
            if rej is None:
                raise Violation(f"{what}: valid, but {e!r}")
            if rej.stage != "raw":
                raise Violation(f"{what}: is well encoded and out of the type's value space, but {e!r}")
            seen.add(False)
            labels.add(kind + ":raw")
            continue
        if rej is not None and rej.stage == "raw":
            raise Violation(f"{what}: wrong encoding accepted as {inst.value!r}")
        try:
            inst.validate()
        except YangTypeError as e:
            str(e)
            if rej is None:
                raise Violation(f"{what}: valid, but {e}")
            tag = rej.tag or "invalid-type"
            if e.tag != tag:
                raise Violation(f"{what}: error tag {e.tag!r} instead of {tag!r}")
            if rej.msg is not None and not str(e.message).startswith(rej.msg):
                raise Violation(f"{what}: error message {e.message!r} instead of {rej.msg!r}")
            if rej.tag or rej.msg:
                labels.add("declared error info")
            seen.add(False)
            labels.add(kind + ":value")
            continue
        if rej is not None:
            raise Violation(f"{what}: outside of the value space, but accepted")
        seen.add(True)
        labels.add(kind + ":ok")
        n = dm.get_data_node("/" + x["leaf"])
        if inst[x["leaf"]].value not in n.type:
            raise Violation(f"{what}: valid instance not contained in the type")
    return {"nontrivial": len(seen) == 2, "labels": sorted(labels)}


@case
def gen_text(d):
    mj = typed_model(d, d.int(1, 4))
    m = rs.Model(mj)
    out = []
    for sn in m.root.kids:
        T, tc = m.leaf_type(sn)
        for raw in leaf_raw_cands(d, m, sn, d.int(2, 5)):
            if isinstance(raw, bool):
                t = "true" if raw else "false"
            elif isinstance(raw, (str, int)):
                t = str(raw)
            else:
                t = d.choice(["", " ", "0", "1.0", "+1", "-0", "true"])
            out.append({"leaf": sn.iname(), "text": t})
    return {"m": mj, "vals": out}


def check_text(c):
    """Lexical representation: parse_value followed by membership agrees with the reference."""
    m = rs.Model(c["m"])
    dm = rs.load(c["m"])
    seen, labels = set(), set()
    for x in c["vals"]:
        sn = next(s for s in m.root.kids if s.iname() == x["leaf"])
        T, tc = m.leaf_type(sn)
        kind = rt.builtin_of(T)["t"]
        try:
            v = accept_text(T, x["text"], m.ctx, tc.ns)
        except rt.Reject:
            v = None
        except Skip as s:
            labels.add("skip:" + str(s))
            continue
        typ = dm.get_data_node("/" + x["leaf"]).type
        got = typ.parse_value(x["text"])
        ok = got is not None and got in typ
        if ok != (v is not None):
            raise Violation(f"{x['leaf']} of type {kind}: text {x['text']!r} parsed as {got!r}, in the type: {ok}; the reference says {v}")
        if ok and typ.canonical_string(got) != rt.canon(v):
            raise Violation(f"{x['leaf']} of type {kind}: text {x['text']!r} has canonical form {typ.canonical_string(got)!r} instead of {rt.canon(v)!r}")
        seen.add(ok)
        labels.add(f"{kind}:{ok}")
    return {"nontrivial": len(seen) == 2, "labels": sorted(labels)}


LEGS = [Leg("raw", gen, check, quick=22000, thorough=88000),
        Leg("text", gen_text, check_text, quick=8000, thorough=32000)]
