"""P04: conversions of leaf values between their raw, cooked, canonical, XML and default forms; numbering of enums and bits."""
import json
from ..core import Leg, Skip, Violation
from ..d import case
from .. import rschema as rs, rtypes as rt
from ..typed import typed_model, accept_text, cooked, same_cooked, has_union, kinds_in

RULE = ("one case is a set of typed leaves with accepted values; it is non-trivial when some value is not its own canonical form or "
        "its type is a union, bits, decimal64, binary, identityref or a restricted type")


@case
def gen(d):
    mj = typed_model(d, d.int(1, 3))
    m = rs.Model(mj)
    out = []
    for sn in m.root.kids:
        T, tc = m.leaf_type(sn)
        for _ in range(d.int(1, 4)):
            v = rt.gen_valid(d, T, m.ctx, tc.ns)
            if v is not None:
                out.append({"leaf": sn.iname(), "raw": v[0]})
    return {"m": mj, "vals": out}


def check(c):
    import xml.etree.ElementTree as ET
    m = rs.Model(c["m"])
    dm = rs.load(c["m"])
    labels, nontriv = set(), False
    for x in c["vals"]:
        sn = next(s for s in m.root.kids if s.iname() == x["leaf"])
        T, tc = m.leaf_type(sn)
        try:
            v = rt.accept(T, x["raw"], m.ctx, tc.ns)
        except rt.Reject:
            continue
        kind = rt.builtin_of(T)["t"]
        labels.add(kind)
        typ = dm.get_data_node("/" + x["leaf"]).type
        what = f"{x['leaf']} of type {kind}, raw {x['raw']!r}"
        val = typ.from_raw(x["raw"])
        if not same_cooked(val, cooked(v)):
            raise Violation(f"{what}: cooked as {val!r} instead of {cooked(v)!r}")
        if val not in typ:
            raise Violation(f"{what}: cooked value {val!r} is not in the type")
        can = typ.canonical_string(val)
        if can != rt.canon(v):
            raise Violation(f"{what}: canonical form {can!r} instead of {rt.canon(v)!r}")
        raw = typ.to_raw(val)
        exp = rs.value_raw(v, T, m.ctx)
        if not rs.same(raw, exp):
            raise Violation(f"{what}: raw form {raw!r} instead of {exp!r}")
        back = typ.from_raw(raw)
        if not same_cooked(back, val):
            raise Violation(f"{what}: raw form {raw!r} reads back as {back!r}")
        try:
            pv = accept_text(T, can, m.ctx, tc.ns)
        except rt.Reject:
            raise Violation(f"{what}: canonical form {can!r} is not accepted by the reference") from None
        got = typ.parse_value(can)
        if not same_cooked(got, cooked(pv)):
            raise Violation(f"{what}: canonical form {can!r} parses as {got!r} instead of {cooked(pv)!r}")
        if not has_union(T) and not same_cooked(got, val):
            raise Violation(f"{what}: canonical form {can!r} parses as {got!r} instead of {val!r}")
        # instance level
        inst = dm.from_raw({x["leaf"]: x["raw"]})
        leaf = inst[x["leaf"]]
        if str(leaf) != can:
            raise Violation(f"{what}: str() of the instance is {str(leaf)!r} instead of {can!r}")
        if not rs.same(leaf.raw_value(), exp):
            raise Violation(f"{what}: raw_value() is {leaf.raw_value()!r} instead of {exp!r}")
        # update with the raw form
        if not same_cooked(leaf.update(raw, raw=True).value, val):
            raise Violation(f"{what}: update with the raw form gives another value")
        # XML text
        el = inst.to_xml()
        if len(el):
            txt = el[0].text
            if (txt or "") != can:
                raise Violation(f"{what}: XML text {txt!r} instead of {can!r}")
        if can != x["raw"] or kind in ("union", "bits", "decimal64", "binary", "identityref") or len(rt.levels(T)) > 1:
            nontriv = True
    return {"nontrivial": nontriv, "labels": sorted(labels)}


@case
def gen_num(d):
    """Enumerations and bits with mixed explicit and automatic values, through typedefs that restrict them."""
    mj = {"mods": ["ma"], "idents": [], "tree": [], "ops": []}
    ctx = {"mods": ["ma"], "idents": [], "maxmod": 0}
    for i in range(d.int(1, 3)):
        T = rt.gen_type(d, ctx, kinds=[(1, "enumeration"), (1, "bits")], typedef_p=40)
        mj["tree"].append({"kind": "leaf", "name": f"t{i}", "ns": 0, "type": T})
    return {"m": mj}


def check_num(c):
    m = rs.Model(c["m"])
    dm = rs.load(c["m"])
    labels, nontriv = set(), False
    for sn in m.root.kids:
        T = sn.j["type"]
        b = rt.builtin_of(T)
        key = "enums" if b["t"] == "enumeration" else "bits"
        vals = rt.enum_values(b[key])
        vals = {n: vals[n] for n in rt.enum_of(T, key)}
        typ = dm.get_data_node("/" + sn.iname()).type
        got = typ.enum if key == "enums" else typ.bit
        if got != vals:
            raise Violation(f"{sn.name}: {key} {b[key]} numbered {got} instead of {vals}")
        order = [list(x) for x in sorted(vals.items(), key=lambda z: z[1])]
        gs = [list(x) for x in (typ.sorted_enums() if key == "enums" else typ.sorted_bits())]
        if gs != order:
            raise Violation(f"{sn.name}: sorted {key} {gs} instead of {order}")
        if key == "bits" and max(vals.values()) < 200:
            names = list(vals)
            for sub in (names, names[:1], names[1:], list(reversed(names)), []):
                e = sum(1 << vals[n] for n in sub)
                if typ.as_int(tuple(sub)) != e:
                    raise Violation(f"{sn.name}: as_int({sub}) is {typ.as_int(tuple(sub))} instead of {e}")
        ex = [v is not None for _, v in b[key]]
        if any(ex) and not all(ex):
            nontriv = True
        labels.add(key + (":restricted" if len(rt.levels(T)) > 1 else ""))
    return {"nontrivial": nontriv, "labels": sorted(labels)}


@case
def gen_def(d):
    """Default values written in the module, in their alternative lexical forms."""
    mj = {"mods": ["ma"], "idents": [], "tree": [], "ops": []}
    ctx = {"mods": ["ma"], "idents": [], "maxmod": 0}
    vals = []
    for i in range(d.int(1, 4)):
        T = rt.gen_type(d, ctx, kinds=[(1, k) for k in rt.INTS], typedef_p=20)
        r = rt.gen_valid(d, T, ctx, 0)
        n = int(r[0])
        a, sg = abs(n), "-" if n < 0 else d.choice(["", "", "+"])
        form = d.int(0, 3)
        txt = [str(n), sg + hex(a), sg + "0" + oct(a)[2:], sg + "0x" + "%X" % a][form]
        if form == 2 and a == 0:
            txt = "0"
        mj["tree"].append({"kind": "leaf", "name": f"t{i}", "ns": 0, "type": T})
        vals.append({"leaf": f"ma:t{i}", "text": txt, "n": n, "form": form})
    return {"m": mj, "vals": vals}


def check_def(c):
    """from_yang (used for default statements) understands decimal, hexadecimal and octal integers."""
    dm = rs.load(c["m"])
    for x in c["vals"]:
        typ = dm.get_data_node("/" + x["leaf"]).type
        got = typ.from_yang(x["text"])
        if got != x["n"]:
            raise Violation(f"{x['leaf']}: default {x['text']} read as {got!r} instead of {x['n']}")
    return {"nontrivial": any(x["form"] for x in c["vals"]), "labels": sorted({f"form{x['form']}" for x in c["vals"]})}


LEGS = [Leg("convert", gen, check, quick=30000, thorough=120000),
        Leg("numbering", gen_num, check_num, quick=7500, thorough=30000),
        Leg("defaults", gen_def, check_def, quick=4500, thorough=18000)]
