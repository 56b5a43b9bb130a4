"""P25: a model is built from exactly the modules the library data lists."""
import copy
import json
import os
from ..core import Leg, Skip, Violation, HarnessError, expect
from ..d import case
from .. import rschema as rs

RULE = ("one case is a set of module files in several directories (revisions, submodules, imports by name or revision, decoys) with library data for a "
        "part of it, every definition carrying a mark of its origin; it is non-trivial when two revisions of one module are listed or a submodule is "
        "involved, and at least four references to definitions were judged (or, in the leg 'refused', when the corrupted set was refused)")
ASSUMPTIONS = ["an import without a revision refers to the newest listed revision (RFC 7895)", "one revision of a submodule belongs to one listed revision of a module",
               "files of a listed name and revision are equal unless an earlier directory has another one"]
REVS = ["2018-05-05", "2019-01-31", "2019-01-02", "2019-11-07", "2020-12-01", "2021-01-01"]


# ------------------------------------------------------------------ generation

def gen_unit(d, mods, k, subs, insub):
    """Imports, references and nested definitions of a module or submodule text of mods[k]."""
    names = sorted({x["name"] for x in mods[:k] if x["name"] != mods[k]["name"]})
    targets = [i for i, x in enumerate(mods[:k]) if x["name"] in names and x["name"] < mods[k]["name"]]
    imps, used = [], {"own"}
    for i in d.sample(targets, min(len(targets), d.int(0, 3))):
        p = d.choice([q for q in ("p", "q", "r", "s") if q not in used])
        used.add(p)
        imps.append([p, i, d.p(55)])
    pf = [q for q, _, _ in imps]
    refs = []
    for _ in range(d.int(1, 5)):
        kind = d.weighted([(3, "t"), (2, "t2"), (3, "g"), (1, "ts"), (1, "gs")])
        p = d.choice([None, "own"] + pf * 2)
        refs.append([kind, p, d.int(0, 3)])
    return {"imports": imps, "refs": refs, "t2": d.choice([None] + pf * 2), "gn": d.choice([None] + pf), "scopes": d.p(40), "own": "own" if d.p(60) else "o"}


def gen_set(d):
    names = ["ma", "mb", "mc", "md"][:d.int(2, 4)]
    mods = []
    for n in names:
        revs = d.sample(REVS, d.weighted([(3, 1), (4, 2), (1, 3)])) if d.p(85) else [""]
        impl = d.choice(revs) if d.p(75) or n == names[-1] else None
        for r in revs:
            mods.append({"name": n, "rev": r, "impl": r == impl, "feat": d.p(50)})
    for k, x in enumerate(mods):
        x["subs"] = []
        for j in range(d.weighted([(5, 0), (3, 1), (2, 2)])):
            used = [s["rev"] for y in mods[:k] if y["name"] == x["name"] for s in y["subs"] if s["name"] == f"{x['name']}-s{j}"]
            x["subs"].append({"name": f"{x['name']}-s{j}", "rev": d.choice([r for r in REVS + ["2022-02-02"] if r not in used]), "withrev": d.p(40)})
        x.update(gen_unit(d, mods, k, x["subs"], False))
        for s in x["subs"]:
            s.update(gen_unit(d, mods, k, x["subs"], True))
    return {"mods": mods, "order": d.shuffle(list(range(len(mods)))), "order2": d.shuffle(list(range(len(mods)))), "dirs": d.int(1, 3)}


def gen_files(d, c):
    """Where the files are and which decoys there are: [unit, dir, style, variant]; variant: None the real text."""
    out, taken = [], set()
    units = [(k, j) for k, x in enumerate(c["mods"]) for j in [None] + list(range(len(x["subs"])))]
    for k, j in units:
        u = unit(c, k, j)
        dirn = d.int(0, c["dirs"] - 1)
        plain = not u["rev"] or d.p(35)
        if plain and (u["name"], dirn) in taken:
            if not u["rev"]:
                raise HarnessError("two files of one name")
            plain = False
        if plain:
            taken.add((u["name"], dirn))
        out.append([k, j, dirn, "plain" if plain else "rev", None])
    for k, j, dirn, style, _ in list(out):
        u = unit(c, k, j)
        if d.p(30) and dirn < c["dirs"] - 1:       # another text of the same revision in a later directory
            st = d.choice(["plain", "rev"]) if u["rev"] else "plain"
            if st == "rev" and any(o[:2] == [k, j] and o[2] == dirn + 1 for o in out) or st == "plain" and (u["name"], dirn + 1) in taken:
                continue
            if st == "plain":
                taken.add((u["name"], dirn + 1))
            out.append([k, j, dirn + 1, st, "later"])
        elif d.p(30) and dirn > 0 and (u["name"], dirn - 1) not in taken and u["rev"]:
            st = d.choice(["plain", "rev"])
            if st == "plain":
                taken.add((u["name"], dirn - 1))
            elif any(o[:2] == [k, j] and o[2] == dirn - 1 and o[3] == "rev" for o in out):
                continue
            out.append([k, j, dirn - 1, st, d.choice(["norev", "otherrev", "othername"])])
    return out


@case
def gen_good(d):
    c = gen_set(d)
    c["files"] = gen_files(d, c)
    c["wrong"] = [d.int(0, 99) for _ in range(8)]
    return c


# ------------------------------------------------------------------ reference

def unit(c, k, j):
    return c["mods"][k] if j is None else c["mods"][k]["subs"][j]


def newest(c, name):
    return max((i for i, x in enumerate(c["mods"]) if x["name"] == name), key=lambda i: c["mods"][i]["rev"])


def resolve(c, k, j, p):
    """Index of the module that prefix p denotes in a unit."""
    if p in (None, "own"):
        return k
    for q, i, withrev in unit(c, k, j)["imports"]:
        if q == p:
            return i if withrev else newest(c, c["mods"][i]["name"])
    raise HarnessError(p)


def mark(c, k, j=None):
    u = unit(c, k, j)
    return f"{u['name']}.{u['rev'] or 'none'}" + ("." + c["mods"][k]["rev"] if j is not None else "")


def type_mark(c, k, kind, n):
    x = c["mods"][k]
    if kind == "ts" and x["subs"]:
        return mark(c, k, n % len(x["subs"]))
    if kind == "t2":
        return type_mark(c, resolve(c, k, None, x["t2"]), "t", 0)
    return mark(c, k)


def type_name(c, k, kind, n):
    x = c["mods"][k]
    return f"ts{n % len(x['subs'])}" if kind == "ts" and x["subs"] else "t" if kind in ("ts", "t") else "t2"


def group(c, k, kind, n):
    """Content of a grouping of module k."""
    x = c["mods"][k]
    if kind == "gs" and x["subs"]:
        j = n % len(x["subs"])
        s = x["subs"][j]
        res = {f"gsl-{s['name']}": mark(c, k, j), "gst": mark(c, k)}
        if s["gn"]:
            res["gsn"] = group(c, resolve(c, k, j, s["gn"]), "g", 0)
        return res
    r = x["rev"].replace("-", "") or "x"
    res = {f"gl{r}": mark(c, k), "gloc": "L" + mark(c, k)}
    if x["feat"]:
        res["gf"] = mark(c, k)
    if x["gn"]:
        res["gn"] = group(c, resolve(c, k, None, x["gn"]), "g", 0)
    return res


def group_name(c, k, kind, n):
    x = c["mods"][k]
    return f"gs{n % len(x['subs'])}" if kind == "gs" and x["subs"] else "g"


def data(c, k, j):
    """Expected content of the container that a unit of an implemented module defines."""
    u = unit(c, k, j)
    res = {}
    for n, (kind, p, arg) in enumerate(u["refs"]):
        t = resolve(c, k, j, p)
        if kind in ("g", "gs"):
            res[f"c{n}"] = group(c, t, kind, arg)
        else:
            res[f"l{n}"] = type_mark(c, t, kind, arg)
    if u["scopes"]:
        res["s1"] = {"x": "S1", "in": {"y": "S1", "z": "S1"}}
        res["s2"] = {"x": "S2", "z": "S2"}
        for p, i, _ in u["imports"][:2]:
            t = resolve(c, k, j, p)
            res[f"h-{p}"] = {"x": "S3", "y": "U" + mark(c, t), "in": {"a": {"z": "S3"}, "b": {"z": "U" + mark(c, t)}}}
    return res


def whole(c):
    res = {}
    for k, x in enumerate(c["mods"]):
        if x["impl"]:
            for j in [None] + list(range(len(x["subs"]))):
                res[f"{x['name']}:c-{unit(c, k, j)['name']}"] = data(c, k, j)
    return res


# ------------------------------------------------------------------ texts

def text(c, k, j, variant=None, more="", drop=()):
    u, x = unit(c, k, j), c["mods"][k]
    name, rev = u["name"], u["rev"]
    if variant == "norev":
        rev = ""
    elif variant == "otherrev":
        rev = "2017-07-07"
    elif variant == "othername":
        name = "other"
    v = "V" if variant else ""
    own = u["own"] + ":"
    L = [f"module {name} {{" if j is None else f"submodule {name} {{", "yang-version 1.1;"]
    if j is None:
        L += [f'namespace "urn:x:{x["name"]}";', f'prefix {u["own"]};']
    else:
        L += [f'belongs-to {x["name"]} {{ prefix {u["own"]}; }}']
    for p, i, withrev in u["imports"]:
        t = c["mods"][i]
        rd = f" revision-date {t['rev']};" if withrev and t["rev"] else ""
        L.append(f"import {t['name']} {{ prefix {p};{rd} }}")
    for i, s in enumerate(x["subs"]):
        if j is None or i != j:
            rd = f" {{ revision-date {s['rev']}; }}" if s["withrev"] else ";"
            L.append(f"include {s['name']}{rd}")
    if rev:
        L.append(f"revision {rev};")
        if k % 2:
            L.append("revision 2011-11-11;")

    def q(p):
        return "" if p is None else own if p == "own" else p + ":"

    def enum(m):
        return f'{{ type enumeration {{ enum "{v}{m}"; }} }}'
    if j is None:
        L += ["feature f;", f"typedef t {enum(mark(c, k))}", f"typedef t2 {{ type {q(u['t2'])}t; }}"]
        r = x["rev"].replace("-", "") or "x"
        nest = f" container gn {{ uses {q(u['gn'])}g; }}" if u["gn"] else ""
        L.append(f"grouping g {{ typedef loc {enum('L' + mark(c, k))} leaf gl{r} {{ type t; }} leaf gloc {{ type loc; }} "
                 f"leaf gf {{ if-feature f; type {own}t; }}{nest} }}")
        L += [f"typedef u-{name} {enum('U' + mark(c, k))}", f"grouping h-{name} {{ leaf z {{ type u-{name}; }} }}"]
    else:
        nest = f" container gsn {{ uses {q(u['gn'])}g; }}" if u["gn"] else ""
        L += [f"typedef ts{j} {enum(mark(c, k, j))}", f"grouping gs{j} {{ leaf gsl-{u['name']} {{ type ts{j}; }} leaf gst {{ type t; }}{nest} }}"]
    body = []
    for n, (kind, p, arg) in enumerate(u["refs"]):
        t = resolve(c, k, j, p)
        if kind in ("g", "gs"):
            body.append(f"container c{n} {{ uses {q(p)}{group_name(c, t, kind, arg)}; }}")
        else:
            body.append(f"leaf l{n} {{ type {q(p)}{type_name(c, t, kind, arg)}; }}")
    if u["scopes"]:
        body += [f"container s1 {{ typedef sc {enum('S1')} leaf x {{ type sc; }} container in {{ grouping sg {{ leaf z {{ type {own}sc; }} }} "
                 f"leaf y {{ type {own}sc; }} uses sg; }} }}",
                 f"container s2 {{ leaf x {{ type sc; }} uses {own}sg; typedef sc {enum('S2')} grouping sg {{ leaf z {{ type sc; }} }} }}"]
        # local definitions that have the names of imported ones
        for p, i, _ in u["imports"][:2]:
            n = c["mods"][i]["name"]
            body.append(f"container h-{p} {{ typedef u-{n} {enum('S3')} leaf x {{ type u-{n}; }} leaf y {{ type {p}:u-{n}; }} container in {{ "
                        f"grouping h-{n} {{ leaf z {{ type {own}u-{n}; }} }} container a {{ uses h-{n}; }} container b {{ uses {p}:h-{n}; }} }} }}")
    L.append(f"container c-{u['name']} {{ {' '.join(body)} }}")
    L.append(f"rpc r-{u['name']};")
    return "\n ".join(L) + more + "\n}\n"


def library(c, order, drop=()):
    ml = []
    for k in order:
        x = c["mods"][k]
        e = {"name": x["name"], "revision": x["rev"], "namespace": f"urn:x:{x['name']}", "conformance-type": "implement" if x["impl"] else "import"}
        if x["feat"]:
            e["feature"] = ["f"]
        if x["subs"]:
            e["submodule"] = [{"name": s["name"], "revision": s["rev"]} for s in x["subs"]]
        ml.append(e)
    return {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": ml}}


def write(c, w, texts=None, skip=()):
    dirs = [os.path.join(w, f"d{i}") for i in range(c["dirs"])]
    for x in dirs:
        os.mkdir(x)
    for k, j, dirn, style, variant in c["files"]:
        u = unit(c, k, j)
        if variant is None and (k, j) in skip:
            continue
        fn = u["name"] + (f"@{u['rev']}" if style == "rev" else "") + ".yang"
        fn = os.path.join(dirs[dirn], fn)
        if os.path.exists(fn):
            raise HarnessError(f"{fn} exists")
        t = (texts or {}).get((k, j)) if variant is None else None
        with open(fn, "w") as f:
            f.write(t or text(c, k, j, variant))
    with open(os.path.join(dirs[0], "unlisted.yang"), "w") as f:
        f.write('module unlisted { yang-version 1.1; namespace "urn:x:unlisted"; prefix u; container c-unlisted { } }')
    return tuple(dirs)


def leaves(v, path=()):
    for k, w in v.items():
        if isinstance(w, dict):
            yield from leaves(w, path + (k,))
        else:
            yield path + (k,), w


def judge(c):
    from yangson import DataModel
    from yangson.exceptions import YangTypeError, RawMemberError, NonexistentSchemaNode
    from yangson.enumerations import ContentType, ValidationScope
    exp = whole(c)
    n = 0
    answers = []
    with rs.Workspace({}) as w:
        dirs = write(c, w)
        for order in (c["order"], c["order2"]):
            dm = DataModel(json.dumps(library(c, order)), dirs)
            root = dm.from_raw(copy.deepcopy(exp))
            try:
                root.validate(ValidationScope.all, ContentType.all)
            except YangTypeError as e:
                raise Violation(f"a mark is not the expected one: {e}")
            expect(rs.same(root.raw_value(), exp), "dump {}", rs.diff(root.raw_value(), exp))
            dig = json.loads(dm.schema_digest())
            got = digest_shape(dig)
            want = shape(exp)
            for k, x in enumerate(c["mods"]):
                if x["impl"]:
                    for j in [None] + list(range(len(x["subs"]))):
                        want[f"{x['name']}:r-{unit(c, k, j)['name']}"] = None
            expect(got == want, "nodes of the schema: {}", rs.diff(got, want) if set(got) == set(want) else sorted(set(got) ^ set(want)))
            answers.append((sorted(dm.ascii_tree().splitlines()), dm.module_set_id(), json.dumps(dig, sort_keys=True)))
            ls = list(leaves(exp))
            marks = sorted({m for _, m in ls})
            for q in c["wrong"]:
                path, good = ls[q % len(ls)]
                bad = [m for m in marks if m != good]
                if not bad:
                    break
                bad = "V" + good if q % 5 == 0 else bad[q % len(bad)]
                doc = copy.deepcopy(exp)
                o = doc
                for p in path[:-1]:
                    o = o[p]
                o[path[-1]] = bad
                n += 1
                try:
                    dm.from_raw(doc).validate(ValidationScope.all, ContentType.all)
                except YangTypeError as e:
                    continue
                raise Violation(f"{'/'.join(path)} accepts {bad}, a value of another definition")
            for k, x in enumerate(c["mods"]):
                if any(y["name"] == x["name"] and y["impl"] for y in c["mods"]):
                    continue
                for name in (f"{x['name']}:c-{x['name']}", "unlisted:c-unlisted"):
                    try:
                        dm.from_raw({name: {}})
                    except RawMemberError:
                        expect(dm.get_schema_node("/" + name) is None, "schema node of {}", name)
                        continue
                    raise Violation(f"{name} is accepted")
    expect(answers[0] == answers[1], "the order of the library data matters: {} and {}", answers[0], answers[1])
    multi = len({x["name"] for x in c["mods"]}) < len(c["mods"])
    subs = any(x["subs"] for x in c["mods"])
    return {"nontrivial": (multi or subs) and n >= 4, "n": n,
            "labels": [s for s, t in (("revisions", multi), ("submodules", subs), ("decoys", any(f[4] for f in c["files"])), ("dirs", c["dirs"] > 1)) if t]}


def digest_shape(v):
    return {k: digest_shape(w) if "children" in w and "input" not in [q.partition(":")[2] for q in w["children"]] else None for k, w in v.get("children", {}).items()}


def shape(v):
    return {k: shape(w) if isinstance(w, dict) else None for k, w in v.items()}


# ------------------------------------------------------------------ refusals

@case
def gen_bad(d):
    c = gen_set(d)
    c["files"] = gen_files(d, c)
    c["bad"] = [d.choice(["nofile", "nosubfile", "import", "importrev", "dup", "cycle", "prefix", "type", "group", "belongs", "include", "includerev", "unlist",
                          "unlistsub", "scope", "feature", "rename", "revision", "foreign", "own"]), d.int(0, 99), d.int(0, 99)]
    return c


def spoil(c):
    """(texts, library, files left out, expected exceptions) or None when the corruption does not apply."""
    how, a, b = c["bad"]
    mods = c["mods"]
    lib = library(c, c["order"])
    ml = lib["ietf-yang-library:modules-state"]["module"]
    ents = {k: ml[c["order"].index(k)] for k in range(len(mods))}
    k = a % len(mods)
    x = mods[k]
    units = [None] + list(range(len(x["subs"])))
    j = units[b % len(units)]
    im = [i for i, y in enumerate(mods) if y["impl"]]

    def more(s, kk=k, jj=j):
        return {(kk, jj): text(c, kk, jj, more="\n " + s)}
    if how == "nofile":
        return None, lib, [(k, None)], ["ModuleNotFound"]
    if how == "nosubfile":
        return (None, lib, [(k, j)], ["ModuleNotFound"]) if j is not None else None
    if how == "import":
        return more("import nowhere { prefix nw; }"), lib, (), ["ModuleNotRegistered"]
    if how == "importrev":
        if not k or x["name"] == "ma":
            return None
        return more("import ma { prefix nw; revision-date 2001-01-01; }"), lib, (), ["ModuleNotRegistered"]
    if how == "dup":
        c2 = [i for i, y in enumerate(mods) if not y["impl"] and any(z["impl"] and z["name"] == y["name"] for z in mods)]
        if not c2:
            return None
        ents[c2[a % len(c2)]]["conformance-type"] = "implement"
        return None, lib, (), ["MultipleImplementedRevisions"]
    if how == "cycle":
        # a module imports a later one that depends on it
        for i in im:
            for u in [i] and [None] + list(range(len(mods[i]["subs"]))):
                for p, t, withrev in unit(c, i, u)["imports"]:
                    t = resolve(c, i, u, p)
                    if mods[t]["impl"] and newest(c, mods[i]["name"]) == i:
                        return more(f"import {mods[i]['name']} {{ prefix cy; }}", t, None), lib, (), ["CyclicImports"]
        return None
    if how in ("prefix", "type", "group", "scope", "foreign", "own"):
        if not x["impl"]:
            return None
    if how == "prefix":
        s = ["leaf zz { type np:t; }", "uses np:g;", "leaf zz { type leafref { path \"/np:c\"; } }", "container zz { when \"np:a\"; }", "augment /np:c { leaf zz { type string; } }"][b % 5]
        return more(s), lib, (), ["UnknownPrefix", "InvalidXPath"] if "when" in s or "path" in s else ["UnknownPrefix"]
    if how == "type":
        return more(["leaf zz { type nosuch; }", f"leaf zz {{ type {unit(c, k, j)['own']}:nosuch; }}"][b % 2]), lib, (), ["DefinitionNotFound"]
    if how == "group":
        return more("container zz { uses nosuch; }"), lib, (), ["DefinitionNotFound"]
    if how == "scope":
        if not x["scopes"] or j is not None:
            return None
        return more(["leaf zz { type sc; }", "container zz { uses sg; }", "container zz { leaf a { type loc; } }"][b % 3]), lib, (), ["DefinitionNotFound"]
    if how == "foreign":
        # a local definition, or one of a module that the prefix does not denote
        u = unit(c, k, j)
        if not u["imports"]:
            return None
        p = u["imports"][b % len(u["imports"])][0]
        t = resolve(c, k, j, p)
        s = [f"leaf zz {{ type {p}:loc; }}", f"leaf zz {{ type {p}:sc; }}", f"leaf zz {{ type {p}:ts7; }}", f"uses {p}:c-{mods[t]['name']};"][a % 4]
        return more(s), lib, (), ["DefinitionNotFound"]
    if how == "own":
        # prefixes of the main module are not those of its submodules
        for j2 in range(len(x["subs"])):
            s = x["subs"][j2]
            have = {p for p, _, _ in s["imports"]} | {s["own"]}
            for p, _, _ in x["imports"]:
                if p not in have:
                    return more(f"leaf zz {{ type {p}:t; }}", k, j2), lib, (), ["UnknownPrefix"]
        return None
    if how == "belongs":
        if j is None:
            return None
        return {(k, j): text(c, k, j).replace(f"belongs-to {x['name']} ", "belongs-to zz ")}, lib, (), ["StatementNotFound"]
    if how == "include":
        return more("include nosub;", k, None), lib, (), ["ModuleNotRegistered"]
    if how == "includerev":
        if not x["subs"]:
            return None
        s = x["subs"][b % len(x["subs"])]
        t = text(c, k, None)
        old = f"include {s['name']}" + (f" {{ revision-date {s['rev']}; }}" if s["withrev"] else ";")
        return {(k, None): t.replace(old, f"include {s['name']} {{ revision-date 2001-01-01; }}")}, lib, (), ["ModuleNotRegistered"]
    if how == "unlist":
        # a module that others import is not listed
        for i, y in enumerate(mods):
            need = [p for u in [None] + list(range(len(y["subs"]))) for p in unit(c, i, u)["imports"]]
            for p, t, withrev in need:
                if sum(z["name"] == mods[t]["name"] for z in mods) == 1 or withrev and mods[t]["rev"]:
                    ml.remove(ents[t])
                    return None, lib, (), ["ModuleNotRegistered"]
        return None
    if how == "unlistsub":
        if not x["subs"]:
            return None
        s = b % len(x["subs"])
        e = ents[k]["submodule"]
        del e[s]
        if not e:
            del ents[k]["submodule"]
        return None, lib, (), ["ModuleNotRegistered"]
    if how == "feature":
        ents[k].setdefault("feature", []).append("ff")
        return more(["feature ff { if-feature fg; } feature fg;", "feature ff { if-feature \"not fh\"; } feature fh { if-feature f or not f; }"][0], k, None), lib, (), \
            ["FeaturePrerequisiteError"]
    if how == "rename":
        return {(k, j): text(c, k, j, "othername")}, lib, (), ["ModuleNotFound"]
    if how == "revision":
        u = unit(c, k, j)
        return {(k, j): text(c, k, j, "otherrev" if u["rev"] == "" or b % 2 else "norev")}, lib, (), ["ModuleNotFound"]
    raise HarnessError(how)


def refused(c):
    from yangson import DataModel
    from yangson import exceptions as X
    s = spoil(c)
    if s is None:
        raise Skip("does not apply")
    texts, lib, skip, want = s
    if skip or want == ["ModuleNotFound"]:
        # other usable files of that unit must not exist
        gone = {tuple(x) for x in skip} | set(texts or ())
        c["files"] = [f for f in c["files"] if not (f[4] == "later" and (f[0], f[1]) in gone)]
    with rs.Workspace({}) as w:
        dirs = write(c, w, texts, skip)
        try:
            DataModel(json.dumps(lib), dirs)
        except X.YangsonException as e:
            if not any(k.__name__ in want for k in type(e).__mro__):
                raise Violation(f"{c['bad']}: {type(e).__name__} {e}, expected {want}")
            str(e)
            return {"nontrivial": True, "labels": [c["bad"][0]]}
    raise Violation(f"{c['bad']}: a model is built, expected {want}")


LEGS = [Leg("sets", gen_good, judge, quick=4500, thorough=30000),
        Leg("refused", gen_bad, refused, quick=4500, thorough=30000)]
