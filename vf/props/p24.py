"""P24: conversion of new-style YANG library data keeps the module set."""
import contextlib
import copy
import io
import json
import os
import subprocess
import sys
import traceback
from ..core import Leg, Skip, Violation, HarnessError, expect, REPO
from ..d import case
from .. import rschema as rs
from . import p25
from .p23 import PY

RULE = ("one case is an RFC 8525 document with module-sets, schemas and datastores, converted for several selections; it is non-trivial when the document has "
        "modules outside a selected schema, or two module-sets of one schema share a module, and at least one conversion succeeded with two or more "
        "modules (in the leg 'refused': when a conversion was refused with the documented code)")
ASSUMPTIONS = ["a module that occurs in several module-sets of one schema is described identically in them (RFC 8525)",
               "an implemented revision stays implemented if another module-set of the schema lists it as import-only",
               "RFC 7895 has one location per module: any of those given will do",
               "the tool is run inside the checking process, and as a real process in the leg 'process'"]
LIBDIR = os.path.join(REPO, "yang-modules", "ietf")
DS = ["running", "startup", "candidate", "intended", "operational", "conventional", "dynamic"]
NAMES = ["all", "set 1", "a", "b", "žlutý", "x\"y", "", " ", "running", "it's", "a:b", "日本", "[name='a']", "-", "*"]


# ------------------------------------------------------------------ generation

def gen_universe(d):
    names = ["ma", "mb", "mc", "md-e", "_x", "M.a", "ietf-yang-library"][:d.int(2, 7)]
    mods = []
    for n in names:
        for r in d.sample(["2018-05-05", "2019-01-31", "2020-12-01", None], d.weighted([(5, 1), (3, 2), (1, 3)])):
            x = {"name": n, "rev": r, "ns": d.choice(["urn:x:", "http://e.x/", "urn:x:é:"]) + n, "pad": d.p(10),
                 "loc": d.sample(["file:///a", "http://x.y/z?q", "urn:l", " urn:sp "], d.weighted([(5, 0), (3, 1), (2, 2)])),
                 "feat": d.sample(["f", "g", "f-1", "_h"], d.weighted([(4, 0), (2, 1), (2, 3)])), "subs": [], "dev": []}
            for j in range(d.weighted([(6, 0), (2, 1), (2, 2)])):
                x["subs"].append({"name": f"{n}-s{j}", "rev": d.choice(["2018-05-05", "2021-01-01", None]),
                                  "loc": d.sample(["file:///s", "urn:t"], d.weighted([(5, 0), (2, 1), (1, 2)]))})
            k = len(mods)
            if k and d.p(30):
                x["dev"] = sorted(i for i in d.sample(range(k), min(k, d.int(1, 3))) if mods[i]["name"] != n)
                if len({mods[i]["name"] for i in x["dev"]}) < len(x["dev"]):
                    x["dev"] = x["dev"][:1]
            mods.append(x)
    return mods


def closure(mods, i):
    res, todo = set(), [i]
    while todo:
        k = todo.pop()
        if k not in res:
            res.add(k)
            todo.extend(mods[k]["dev"])
    return res


def fits(mods, have, new):
    both = set(have) | set(new)
    return len({mods[i]["name"] for i in both}) == len(both)


def gen_lib(d, mods):
    sets = []
    for n in d.sample(NAMES, d.int(1, 5)):
        s = {"name": n, "impl": [], "imp": []}
        for _ in range(d.weighted([(1, 0), (5, 2), (5, 4)])):
            c = closure(mods, d.int(0, len(mods) - 1))
            if fits(mods, s["impl"], c):
                s["impl"] = sorted(set(s["impl"]) | c)
        s["impl"] = d.shuffle(s["impl"])
        s["imp"] = d.sample(range(len(mods)), d.int(0, min(4, len(mods))))
        if not d.p(30):
            s["imp"] = [i for i in s["imp"] if i not in s["impl"]]
        sets.append(s)
    schemas = []
    for n in d.sample(NAMES, d.int(1, 4)):
        have, ms = set(), []
        for k in d.sample(range(len(sets)), d.int(0, len(sets))):
            if fits(mods, have, sets[k]["impl"]):
                have |= set(sets[k]["impl"])
                ms.append(k)
        schemas.append({"name": n, "sets": ms})
    stores = [{"name": n, "schema": d.int(0, len(schemas) - 1)} for n in d.sample(DS[:5] if d.p(70) else DS, d.int(0, 4))]
    if d.p(70) and not any(s["name"] == "running" for s in stores):
        stores.append({"name": "running", "schema": d.int(0, len(schemas) - 1)})
    return {"sets": sets, "schemas": schemas, "stores": stores, "id": d.choice(["x", "", "žš", "66c84db5", "\u2028\"'"]), "old": d.p(15)}


def gen_sel(d, c):
    r = d.int(0, 9)
    if r < 5:
        sel = ["s", d.choice([s["name"] for s in c["lib"]["schemas"]])] if r < 3 or not c["lib"]["stores"] else ["d", d.choice(c["lib"]["stores"])["name"]]
    elif r == 5:
        sel = ["s", d.choice(NAMES)]
    elif r == 6:
        sel = ["d", d.choice(DS + ["ietf-datastores:running", "", "x", "Running"])]
    else:
        sel = [None, None]
    return {"sel": sel, "out": d.p(50), "long": d.p(30), "env": d.p(30), "first": d.p(30)}


@case
def gen_data(d):
    c = {"mods": gen_universe(d)}
    c["lib"] = gen_lib(d, c["mods"])
    c["calls"] = [gen_sel(d, c) for _ in range(d.int(1, 3))]
    return c


BAD = ["missing", "dir", "utf", "cut", "top", "empty", "oldonly", "noid", "idtype", "nons", "noname", "dupmod", "dupset", "dupschema", "dupstore", "danglingset",
       "danglingschema", "danglingdev", "unknown", "unknowntop", "rev", "modname", "identity", "noschema", "setobj", "featobj", "nullmod", "subname", "implnorev", "outdir", "outmissing"]


@case
def gen_bad(d):
    c = {"mods": gen_universe(d)}
    c["lib"] = gen_lib(d, c["mods"])
    c["bad"] = [d.choice(BAD), d.int(0, 99), d.int(0, 99)]
    c["calls"] = [gen_sel(d, c)]
    return c


# ------------------------------------------------------------------ documents

def entry(mods, i, impl):
    x = mods[i]
    e = {"name": x["name"], "namespace": (" %s\n" if x["pad"] else "%s") % x["ns"]}
    if impl:
        if x["rev"]:
            e["revision"] = x["rev"]
        if x["feat"]:
            e["feature"] = list(x["feat"])
        if x["dev"]:
            e["deviation"] = [mods[k]["name"] for k in x["dev"]]
    else:
        e["revision"] = x["rev"] or ""
    if x["loc"]:
        e["location"] = list(x["loc"])
    if x["subs"]:
        e["submodule"] = []
        for s in x["subs"]:
            q = {"name": s["name"]}
            if s["rev"]:
                q["revision"] = s["rev"]
            if s["loc"]:
                q["location"] = list(s["loc"])
            e["submodule"].append(q)
    return e


def document(c):
    lib, mods = c["lib"], c["mods"]
    res = {"content-id": lib["id"], "module-set": [], "schema": []}
    for s in lib["sets"]:
        e = {"name": s["name"]}
        if s["impl"]:
            e["module"] = [entry(mods, i, True) for i in s["impl"]]
        if s["imp"]:
            e["import-only-module"] = [entry(mods, i, False) for i in s["imp"]]
        res["module-set"].append(e)
    for s in lib["schemas"]:
        e = {"name": s["name"]}
        if s["sets"]:
            e["module-set"] = [lib["sets"][k]["name"] for k in s["sets"]]
        res["schema"].append(e)
    if lib["stores"]:
        res["datastore"] = [{"name": "ietf-datastores:" + s["name"], "schema": lib["schemas"][s["schema"]]["name"]} for s in lib["stores"]]
    doc = {"ietf-yang-library:yang-library": res}
    if lib["old"]:
        doc["ietf-yang-library:modules-state"] = {"module-set-id": "old", "module": [
            {"name": "zz", "revision": "", "namespace": "urn:zz", "conformance-type": "implement"}]}
    return doc


def selected(c, sel):
    """The schema a selection denotes, or None."""
    lib = c["lib"]
    how, name = sel
    if how == "s":
        return next((s for s in lib["schemas"] if s["name"] == name), None)
    k = next((s["schema"] for s in lib["stores"] if s["name"] == (name if how else "running")), None)
    return None if k is None else lib["schemas"][k]


def expected(c, schema):
    """{(name, revision): (conformance, namespace, features, deviations, submodules, locations)}"""
    mods, res = c["mods"], {}
    for impl in (False, True):
        for k in schema["sets"]:
            for i in c["lib"]["sets"][k]["impl" if impl else "imp"]:
                x = mods[i]
                res[x["name"], x["rev"] or ""] = (
                    "implement" if impl else "import", x["ns"], sorted(x["feat"]) if impl else [],
                    sorted((mods[q]["name"], mods[q]["rev"] or "") for q in x["dev"]) if impl else [],
                    sorted((s["name"], s["rev"] or "") for s in x["subs"]))
    return res


def locations(c, key, sub=None):
    for x in c["mods"]:
        if (x["name"], x["rev"] or "") == key:
            if sub is None:
                return [s.strip() for s in x["loc"]]
            return [s.strip() for y in x["subs"] if (y["name"], y["rev"] or "") == sub for s in y["loc"]]
    raise HarnessError(key)


def compare(c, want, out):
    expect(set(out) == {"ietf-yang-library:modules-state"}, "top-level members {}", sorted(out))
    ms = out["ietf-yang-library:modules-state"]
    expect(set(ms) <= {"module-set-id", "module"} and ms.get("module-set-id") == c["lib"]["id"], "members {}", {k: v for k, v in ms.items() if k != "module"})
    got = {}
    for e in ms.get("module", []):
        key = (e["name"], e["revision"])
        expect(key not in got, "module {} twice", key)
        expect(not set(e) - {"name", "revision", "namespace", "schema", "feature", "deviation", "submodule", "conformance-type"}, "members {}", sorted(e))
        got[key] = (e["conformance-type"], e["namespace"], sorted(e.get("feature", [])),
                    sorted((x["name"], x["revision"]) for x in e.get("deviation", [])),
                    sorted((x["name"], x["revision"]) for x in e.get("submodule", [])))
    expect(set(got) == set(want), "modules: missing {}, added {}", sorted(set(want) - set(got)), sorted(set(got) - set(want)))
    for key in want:
        expect(got[key] == want[key], "module {}: {} instead of {}", key, got[key], want[key])
    for e in ms.get("module", []):
        for loc, x in [(locations(c, (e["name"], e["revision"])), e)] + [
                (locations(c, (e["name"], e["revision"]), (s["name"], s["revision"])), s) for s in e.get("submodule", [])]:
            expect(x["schema"] in loc if loc else "schema" not in x, "location {} of {}, given were {}", x.get("schema"), x["name"], loc)


# ------------------------------------------------------------------ runners

class Out(io.StringIO):
    def close(self):
        pass


class Here:
    def run(self, argv, env):
        from yangson import convert8525 as tool
        out, err = Out(), io.StringIO()
        old, olde = sys.argv, os.environ.get("YANG_MODPATH")
        sys.argv = ["convert8525"] + argv
        os.environ.pop("YANG_MODPATH", None)
        os.environ.update(env)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    code = tool.main()
                except SystemExit as e:
                    code = e.code
                except Exception:
                    code = None
                    err.write(traceback.format_exc())
        finally:
            sys.argv = old
            os.environ.pop("YANG_MODPATH", None)
            if olde is not None:
                os.environ["YANG_MODPATH"] = olde
        return code, out.getvalue(), err.getvalue()


class There:
    def run(self, argv, env):
        e = {k: v for k, v in os.environ.items() if k not in ("YANG_MODPATH", "PYTHONPATH")}
        e.update(env, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([PY if os.path.exists(PY) else sys.executable, "-m", "yangson.convert8525"] + argv, cwd="/", env=e, capture_output=True, text=True, timeout=60)
        return p.returncode, p.stdout, p.stderr


def convert(runner, call, w, k, outname=None):
    """(code, output text or None, standard error)"""
    lo, env, argv = call["long"], {}, []
    if call["env"]:
        env["YANG_MODPATH"] = "/nonexistent:" + LIBDIR
    else:
        argv += ["--path" if lo else "-p", LIBDIR + ":/nonexistent"]
    how, name = call["sel"]
    if how:
        argv.append({"s": "--schema=", "d": "--datastore="}[how] + name)
    fn = os.path.join(w, outname or f"out{k}.json")
    if call["out"] or outname:
        argv += ["--output" if lo else "-o", fn]
    src = os.path.join(w, "lib.json")
    argv = [src] + argv if call["first"] else argv + [src]
    code, out, err = runner.run(argv, env)
    expect("Traceback" not in err, "{}: {}", argv, err[-900:])
    expect(bool(err.strip()) == (code != 0), "exit code {} with standard error {!r}", code, err)
    if outname:
        return code, out, err
    if call["out"]:
        expect(out == "", "output to a file, but also {!r}", out[:200])
        if os.path.exists(fn):
            with open(fn, encoding="utf-8") as f:
                return code, f.read(), err
        return code, "", err
    return code, out, err


def judge_with(runner):
    def judge(c):
        doc = document(c)
        labels, n, good = set(), 0, 0
        with rs.Workspace({"lib.json": json.dumps(doc, ensure_ascii=False)}) as w:
            for k, call in enumerate(c["calls"]):
                n += 1
                schema = selected(c, call["sel"])
                code, out, err = convert(runner, call, w, k)
                expect(code == (2 if schema is None else 0), "exit code {} for {}: {}", code, call["sel"], err)
                if schema is None:
                    expect(out == "", "output {!r} with exit code 2", out[:200])
                    labels.add("no such schema")
                    continue
                want = expected(c, schema)
                compare(c, want, json.loads(out))
                if len(schema["sets"]) > 1:
                    labels.add("merged")
                    ks = [i for q in schema["sets"] for i in set(c["lib"]["sets"][q]["impl"] + c["lib"]["sets"][q]["imp"])]
                    if len(set(ks)) < len(ks):
                        labels.add("shared")
                if any(v[3] for v in want.values()):
                    labels.add("deviations")
                used = {q for s in c["lib"]["sets"] for q in s["impl"] + s["imp"]}
                if len(want) >= 2:
                    good += 1
                if len(used) > len(want):
                    labels.add("others")
        return {"nontrivial": good > 0 and bool(labels & {"others", "shared"}), "labels": sorted(labels), "n": n}
    return judge


# ------------------------------------------------------------------ refusals

def spoil(c, doc):
    """Returns (text of the library file or None for no file, expected code, output name) or None when not applicable."""
    how, a, b = c["bad"]
    yl = doc["ietf-yang-library:yang-library"]
    sets = yl["module-set"]
    s = sets[a % len(sets)]
    ents = [(e, kind) for q in sets for kind in ("module", "import-only-module") for e in q.get(kind, [])]
    e, kind = ents[b % len(ents)] if ents else (None, None)
    needs = ("nons", "noname", "rev", "modname", "nullmod", "featobj", "unknown", "subname", "implnorev")
    if how in needs and e is None:
        return None
    if how == "missing":
        return None, 1
    if how == "dir":
        return "dir", 1
    if how == "utf":
        return json.dumps(doc).encode()[:-1] + b', "a": "\xff\xfe"}', 1
    if how == "cut":
        t = json.dumps(doc)
        return t[:len(t) * (a % 100) // 100], 1
    if how == "top":
        return json.dumps([[], 1, "x", None, True, [doc]][a % 6]), 1
    if how == "empty":
        return "{}", 1
    if how == "oldonly":
        return json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "x", "module": []}}), 1
    if how == "noid":
        del yl["content-id"]
    elif how == "idtype":
        yl["content-id"] = [1, None, {}, ["x"]][a % 4]
    elif how == "nons":
        del e["namespace"]
    elif how == "noname":
        del e["name"]
    elif how == "dupmod":
        if not s.get("module"):
            return None
        s["module"].append(dict(s["module"][0], revision="2001-01-01"))
    elif how == "dupset":
        sets.append({"name": s["name"]})
    elif how == "dupschema":
        yl["schema"].append({"name": yl["schema"][0]["name"]})
    elif how == "dupstore":
        yl.setdefault("datastore", []).extend([{"name": "ietf-datastores:running", "schema": yl["schema"][0]["name"]}] * 2)
    elif how == "danglingset":
        yl["schema"][a % len(yl["schema"])].setdefault("module-set", []).append("no such set")
    elif how == "danglingschema":
        yl["datastore"] = [{"name": "ietf-datastores:operational", "schema": "no such schema"}]
    elif how == "danglingdev":
        if not s.get("module"):
            return None
        s["module"][0]["deviation"] = ["nowhere"]
    elif how == "unknown":
        e["nosuch"] = 1
    elif how == "unknowntop":
        doc[["a:b", "yang-library", "ietf-yang-library:nosuch"][a % 3]] = {}
    elif how == "rev":
        e["revision"] = ["2020", "20200101", "2020-1-1", "x", 5][a % 5]
    elif how == "modname":
        e["name"] = ["1a", "a b", "", "a:b", "é"][a % 5]
    elif how == "identity":
        yl["datastore"] = [{"name": ["ietf-datastores:nosuch", "running", "ietf-yang-library:running", "x:y", ""][a % 5], "schema": yl["schema"][0]["name"]}]
        if yl["datastore"][0]["name"] == "running":     # the prefix is needed in another module (RFC 7951)
            pass
    elif how == "noschema":
        yl["datastore"] = [{"name": "ietf-datastores:running"}]
    elif how == "setobj":
        yl["module-set"] = {"name": "x"}
    elif how == "featobj":
        if kind != "module":
            return None
        e["feature"] = ["f", [{}, None, "1a", ""][a % 4]]
    elif how == "nullmod":
        e["submodule"] = [None]
    elif how == "subname":
        e["submodule"] = [{"name": "sx"}, {"name": "sx", "revision": "2001-01-01"}] if a % 2 else [{"revision": "2001-01-01"}]
    elif how == "implnorev":
        if kind != "module":
            del e["revision"]
        else:
            e["revision"] = ""
    elif how in ("outdir", "outmissing"):
        if selected(c, c["calls"][0]["sel"]) is None:
            return None
        return json.dumps(doc), 3
    else:
        raise HarnessError(how)
    return json.dumps(doc), 1


def judge_bad(c):
    doc = document(c)
    r = spoil(c, doc)
    how = c["bad"][0]
    if r is None and how != "missing":
        raise Skip("not applicable")
    text, want = r
    with rs.Workspace({}) as w:
        fn = os.path.join(w, "lib.json")
        if text == "dir":
            os.mkdir(fn)
        elif text is not None:
            with open(fn, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode())
        outname = None
        if how == "outdir":
            outname = "od"
            os.mkdir(os.path.join(w, "od"))
        elif how == "outmissing":
            outname = "nodir/out.json"
        code, out, err = convert(Here(), c["calls"][0], w, 0, outname)
        expect(code == want and out == "", "{}: exit code {}, standard error {}, output {!r}", c["bad"], code, err, out[:100])
    return {"nontrivial": True, "labels": [how], "n": 1}


# ------------------------------------------------------------------ the schema that results

@case
def gen_whole(d):
    c = p25.gen_set(d)
    c["files"] = p25.gen_files(d, c)
    n = len(c["mods"])
    c["nsets"] = d.int(1, 3)
    c["part"] = [d.sample(range(c["nsets"]), d.weighted([(4, 1), (1, min(2, c["nsets"]))])) for _ in range(n)]
    c["seen"] = [d.p(20) for _ in range(n)]
    c["call"] = {"sel": ["s", "it"] if d.p(50) else [None, None], "out": d.p(50), "long": d.p(50), "env": d.p(50), "first": d.p(50)}
    return c


def judge_whole(c):
    from yangson import DataModel
    lib = p25.library(c, c["order"])
    sets = [{"name": f"s{k}"} for k in range(c["nsets"])]

    def put(k, kind, e):
        sets[k].setdefault(kind, []).append(e)
    for e, k in zip(lib["ietf-yang-library:modules-state"]["module"], c["order"]):
        x = copy.deepcopy(e)
        ct = x.pop("conformance-type")
        for s in x.get("submodule", ()):
            if not s["revision"]:
                del s["revision"]
        only = {q: v for q, v in x.items() if q not in ("feature", "deviation")}
        if ct == "implement":
            if not x["revision"]:
                del x["revision"]
            for q in c["part"][k]:
                put(q, "module", x)
            if c["seen"][k]:
                put((c["part"][k][0] + 1) % c["nsets"], "import-only-module", only)
        else:
            for q in c["part"][k]:
                put(q, "import-only-module", only)
    sets.append({"name": "rest", "module": [{"name": "unlisted", "namespace": "urn:x:unlisted"}]})
    doc = {"ietf-yang-library:yang-library": {
        "content-id": "x", "module-set": sets, "schema": [{"name": "it", "module-set": [f"s{k}" for k in range(c["nsets"])]}, {"name": "more", "module-set": ["rest"]}],
        "datastore": [{"name": "ietf-datastores:running", "schema": "it"}, {"name": "ietf-datastores:operational", "schema": "more"}]}}
    with rs.Workspace({"lib.json": json.dumps(doc)}) as w:
        code, out, err = convert(Here(), c["call"], w, 0)
        expect(code == 0, "exit code {}: {}", code, err)
        dirs = p25.write(c, w)
        # features of a module that is not implemented have no place in RFC 8525
        plain = copy.deepcopy(lib)
        for e in plain["ietf-yang-library:modules-state"]["module"]:
            if e["conformance-type"] == "import":
                e.pop("feature", None)
        dm, want = DataModel(out, dirs), DataModel(json.dumps(plain), dirs)
        expect(sorted(dm.ascii_tree().splitlines()) == sorted(want.ascii_tree().splitlines()), "schema tree\n{}\ninstead of\n{}", dm.ascii_tree(), want.ascii_tree())
        expect(json.loads(dm.schema_digest()) == json.loads(want.schema_digest()), "schema digest")
        expect(dm.module_set_id() == want.module_set_id(), "module set {} and {}", dm.module_set_id(), want.module_set_id())
    return {"nontrivial": c["nsets"] > 1 and len(c["mods"]) > 2, "labels": [f"sets{c['nsets']}"], "n": 1}


LEGS = [Leg("data", gen_data, judge_with(Here()), quick=2000, thorough=30000, chunk=10),
        Leg("refused", gen_bad, judge_bad, quick=2000, thorough=25000, chunk=10),
        Leg("loads", gen_whole, judge_whole, quick=1000, thorough=16000, chunk=10),
        Leg("process", gen_data, judge_with(There()), quick=41, thorough=500, chunk=4)]
