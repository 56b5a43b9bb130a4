"""P23: the command line tool reports what the library decides."""
import contextlib
import copy
import io
import json
import os
import subprocess
import sys
import traceback
from ..core import Leg, Skip, Violation, HarnessError, expect, REPO
from ..d import case
from .. import rschema as rs, docs
from ..opdocs import gen_doc, doc_of

RULE = ("one case is a schema (sometimes made unusable) with a batch of invocations of the tool: operations, documents, scopes, content types, subschemas, "
        "pickled models; it is non-trivial when two different exit codes were expected and met, or a model was refused with its code")
ASSUMPTIONS = ["a library file that is not JSON may be reported with code 1 or 2 (the manual page and the library class it differently)",
               "the tool is run inside the checking process with its standard streams captured, and as a real process in the leg 'process'"]

PY = "/opt/venv/bin/python"


def gen_model(d, broken, **kw):
    f = rs.default_feat(**kw)
    mj = rs.Gen(d, f).gen()
    c = {"m": mj, "break": None}
    if broken:
        c["break"] = d.choice([["nolib"], ["libdir"], ["pickle", d.int(0, 99)], ["pickle", d.choice([-1, 0, 100])], ["libtext", d.int(1, 40)], ["libutf"], ["libkey", d.choice(["name", "revision", "conformance-type", "top", "list"])],
                               ["nomodule", d.int(0, 9)], ["cut", d.int(0, 9), d.int(5, 95)], ["body", d.int(0, 9), d.choice(
                                   ["leaf zz { type nosuchtype; }", "leaf zz { type nopfx:t; }", "uses nogroup;", "leaf zz { type string { length 'x'; } }",
                                    "leaf zz;", "leaf zz { type leafref { path \"../[\"; } }", "container zz { when '1 +'; }", "leaf zz { type int8 { range '1..'; } }",
                                    "import nomod { prefix np; }", "augment '/zz:q' { leaf a { type string; } }", "leaf zz { if-feature 'a and'; type string; }",
                                    "leaf zz { type identityref { base nopfx:b; } }", "feature a { if-feature b; } feature b;"])],
                               ["rev", d.int(0, 9)], ["name", d.int(0, 9)], ["dup", d.int(0, 9)]])
        if c["break"][0] == "body" and c["break"][2].startswith("feature"):
            c["break"][2] = "feature zzf { if-feature zzg; } feature zzg;"
    return c


def gen_inst(d, mj, m):
    """[kind, ...] instance argument."""
    r = d.int(0, 11)
    if r == 0:
        return {"kind": d.choice(["missing", "dir", "utf", "text"]), "text": d.choice(["", "{", "{'a': 1}", "[1,]", "nul", '{"a": 1} x', "{\"a\":\n"])}
    if r == 1:
        return {"kind": "value", "raw": d.choice([[], 1, "x", None, True, [{}], {"nocolon": 1}, {"no:such": 1}, {"": 1}, {"@": 1}, {"@x": {}}, 1.5])}
    dj = gen_doc(d, mj, m, density=d.choice([40, 70, 95]))
    if dj is None:
        return {"kind": "value", "raw": {}}
    x = doc_of(m, dj)
    raw = dj["raw"]
    if d.p(60):
        raw, _ = docs.mutate(d, m, raw, x.top)
    return {"kind": "doc", "raw": x.full(raw), "sub": x.sub}


def gen_calls(d, mj, m):
    calls = []
    names = [s for s in (m.mods[o["ns"]] + ":" + o["name"] for o in mj.get("ops") or ())]
    bad = ["nocolon", ":", "a:", ":b", "", "no:such", m.mods[0] + ":nosuch"] + [f"{m.mods[c.ns]}:{c.name}" for c, _ in m.root.data_children()][:3]
    for _ in range(d.int(2, 6)):
        op = d.weighted([(8, "validate"), (1, "tree"), (1, "digest"), (1, "id"), (1, "none")])
        c = {"op": op, "pickled": d.p(15), "env": d.p(15), "long": d.p(30)}
        if op == "tree":
            c["notypes"] = d.p(50)
        if op == "validate":
            c["inst"] = gen_inst(d, mj, m)
            c["sub"] = d.weighted([(8, c["inst"].get("sub")), (1, d.choice(bad)), (1, d.choice(names) if names else None)])
            c["scope"] = d.weighted([(4, None), (2, "syntax"), (2, "semantics"), (1, "all")])
            c["ctype"] = d.weighted([(4, None), (3, "config"), (1, "all")])
            c["indent"] = d.p(20)
        calls.append(c)
    return calls


def make(broken, ops):
    @case
    def gen(d):
        c = gen_model(d, broken, ops=ops, size=5 if ops else 8, leafref=d.p(40), must=d.p(60), unique=d.p(40))
        m = rs.Model(c["m"])
        c["calls"] = gen_calls(d, c["m"], m)[:2 if broken else 6]
        return c
    return gen


# ------------------------------------------------------------------ set-up

def files(c):
    """(module texts, library text or None, expected code class of the model)"""
    mj = c["m"]
    em = rs.Emitter(mj).run()
    texts = em.texts()
    mods = mj["mods"]
    lib = json.loads(rs.yang_library(mods))
    ml = lib["ietf-yang-library:modules-state"]["module"]
    b = c["break"]
    want = {0}
    text = None
    if b is None:
        return texts, json.dumps(lib), want
    want = {2}
    how = b[0]
    i = b[1] % len(mods) if how in ("nomodule", "cut", "body", "rev", "name", "dup") else 0
    mod = mods[i]
    if how == "nolib":
        return texts, None, {1}
    if how == "pickle":
        return texts, json.dumps(lib), {1}
    if how == "libdir":
        return texts, None, {1}
    if how == "libutf":
        return texts, b"\xff\xfe{}", {1}
    if how == "libtext":
        t = json.dumps(lib)
        return texts, t[:len(t) - b[1]], {1, 2}
    if how == "libkey":
        if b[1] == "top":
            lib = {"modules-state": lib["ietf-yang-library:modules-state"]}
        elif b[1] == "list":
            del lib["ietf-yang-library:modules-state"]["module"]
        else:
            del ml[0][b[1]]
    elif how == "nomodule":
        del texts[mod]
    elif how == "cut":
        t = texts[mod].rstrip()
        texts[mod] = t[:max(8, len(t) * b[2] // 100 - 1)]
    elif how == "body":
        t = texts[mod].rstrip()
        texts[mod] = t[:-1] + "\n" + b[2] + "\n}"
        if b[2].startswith("feature"):
            ml[i]["feature"] = ["zzf"]
    elif how == "rev":
        ml[i]["revision"] = "2020-01-01"
    elif how == "name":
        texts[mod] = texts[mod].replace(f"module {mod} ", "module zz ", 1)
    elif how == "dup":
        ml.append(dict(ml[i], revision="2020-01-01"))
        texts[mod + "@2020-01-01"] = texts[mod].replace("prefix", "revision 2020-01-01;\n prefix", 1)
    return texts, json.dumps(lib), want


class Here:
    """The tool in this process."""

    def run(self, argv, env, cwd):
        from yangson import __main__ as tool
        out, err = io.StringIO(), io.StringIO()
        old, olde, oldc = sys.argv, os.environ.get("YANG_MODPATH"), os.getcwd()
        sys.argv = ["yangson"] + argv
        os.environ.pop("YANG_MODPATH", None)
        os.environ.update(env)
        os.chdir(cwd)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    code = tool.main()
                except SystemExit as e:
                    code = e.code
                except Exception:
                    code = None
                    err.write(traceback.format_exc())
        finally:
            sys.argv = old
            os.chdir(oldc)
            os.environ.pop("YANG_MODPATH", None)
            if olde is not None:
                os.environ["YANG_MODPATH"] = olde
        return code, out.getvalue(), err.getvalue()


class There:
    """The tool as a process."""

    def run(self, argv, env, cwd):
        e = {k: v for k, v in os.environ.items() if k not in ("YANG_MODPATH", "PYTHONPATH")}
        e.update(env, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([PY if os.path.exists(PY) else sys.executable, "-m", "yangson"] + argv, cwd=cwd, env=e, capture_output=True, text=True, timeout=60)
        return p.returncode, p.stdout, p.stderr


def judge_with(runner):
    def judge(c):
        from yangson import DataModel
        texts, lib, mwant = files(c)
        labels, codes, n = set(), set(), 0
        with rs.Workspace({f"{k}.yang": t for k, t in texts.items()}) as w:
            libf = os.path.join(w, "lib.json")
            if lib is not None:
                with open(libf, "wb") as f:
                    f.write(lib if isinstance(lib, bytes) else lib.encode())
            elif c["break"] == ["libdir"]:
                os.mkdir(libf)
            dm = None
            if mwant == {0}:
                dm = DataModel(lib, (w,))
            for k, call in enumerate(c["calls"]):
                n += 1
                codes.add(one(runner, c, call, k, w, libf, dm, mwant, labels))
        return {"nontrivial": len(codes) > 1 or c["break"] is not None and codes == {2}, "labels": sorted(labels | {f"code{x}" for x in codes}), "n": n}
    return judge


def one(runner, c, call, k, w, libf, dm, mwant, labels):
    from yangson.exceptions import YangsonException
    from yangson.enumerations import ContentType, ValidationScope
    lo = call["long"]
    argv, env, cwd = [], {}, "/"
    src = libf
    mpath = f"/nonexistent:{w}"
    if call["pickled"] and dm is not None:
        src = os.path.join(w, f"p{k}.pickle")
        code, out, err = runner.run(["--dump" if lo else "-D", src, "-p", w, libf], {}, "/")
        expect(code == 0 and not out and not err, "dump: code {}, {} {}", code, out, err)
        argv.append("--pickled" if lo else "-P")
        labels.add("pickled")
    elif c["break"] and c["break"][0] == "pickle":
        argv.append("--pickled" if lo else "-P")
        if c["break"][1] >= 0:
            src = os.path.join(w, f"p{k}.pickle")
            code, out, err = runner.run(["-D", src, "-p", w, libf], {}, "/")
            with open(src, "rb") as f:
                b = f.read()
            b = b[:(len(b) - 1) * c["break"][1] // 100]
            with open(src, "wb") as f:
                f.write(b)
    elif call["env"]:
        env["YANG_MODPATH"] = mpath
    elif lo and k % 2:
        cwd = w     # the default search path is the current directory
        labels.add("cwd")
    else:
        argv += ["--path", mpath] if lo else ["-p", mpath]
        if k % 2 == 0:
            env["YANG_MODPATH"] = "/nonexistent"
            labels.add("both paths")
    want, wout = set(mwant), ""
    op = call["op"]
    if op == "tree":
        argv.append("--tree" if lo else "-t")
        if call["notypes"]:
            argv.append("--no-types" if lo else "-n")
        if dm is not None:
            wout = dm.ascii_tree(call["notypes"]) + "\n"
    elif op == "digest":
        argv.append("--digest" if lo else "-d")
        if dm is not None:
            wout = dm.schema_digest() + "\n"
    elif op == "id":
        argv.append("--id" if lo else "-i")
        if dm is not None:
            wout = dm.module_set_id() + "\n"
    elif op == "validate":
        inst = call["inst"]
        fn = os.path.join(w, f"inst{k}.json")
        kind = inst["kind"]
        if kind == "dir":
            os.mkdir(fn)
        elif kind in ("utf", "text"):
            with open(fn, "wb") as f:
                f.write(b'{"a": "\xff"}' if kind == "utf" else inst["text"].encode())
        elif kind != "missing":
            with open(fn, "w", encoding="utf-8") as f:
                json.dump(inst["raw"], f, ensure_ascii=k % 2 == 0, indent=2 if call["indent"] else None)
        argv += ["--validate" if lo else "-v", fn]
        if call["scope"]:
            argv += ["--scope" if lo else "-s", call["scope"]]
        if call["ctype"]:
            argv += ["--ctype" if lo else "-c", call["ctype"]]
        if call["sub"] is not None:
            argv += [f"--subschema={call['sub']}"] if lo else ["-S", call["sub"]]
        if dm is not None:
            if kind in ("missing", "dir", "utf", "text"):
                want = {1}
            else:
                try:
                    r = dm.from_raw(copy.deepcopy(inst["raw"]), call["sub"])
                    r.validate(ValidationScope[call["scope"] or "all"], ContentType[call["ctype"] or "all"])
                    want = {0}
                except YangsonException as e:
                    want = {3}
                    labels.add(type(e).__name__)
    argv.append(src)
    if k % 3 == 1:
        argv = [argv[-1]] + argv[:-1]
    code, out, err = runner.run(argv, env, cwd)
    if "Traceback" in err or code not in want:
        raise Violation(f"exit code {code}, expected {sorted(want)}; arguments {argv}\ninstance {call.get('inst')}\nmodel {c['break']}\nstandard error: {err[-900:]}")
    labels.add(op)
    if out != wout:
        raise Violation(f"output of {op}: {out[:400]!r}, the library says {wout[:400]!r}")
    if bool(err.strip()) != (code != 0):
        raise Violation(f"exit code {code} with standard error {err[:300]!r}; arguments {argv}")
    return code


LEGS = [Leg("data", make(False, False), judge_with(Here()), quick=1400, thorough=14000),
        Leg("ops", make(False, True), judge_with(Here()), quick=800, thorough=8000),
        Leg("unusable", make(True, False), judge_with(Here()), quick=1400, thorough=12000),
        Leg("process", make(False, True), judge_with(There()), quick=100, thorough=800, chunk=6)]
