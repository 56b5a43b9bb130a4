#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes seeded/<id> from a spec (id, prop, needs, breaks, edits=[(file, old, new)], demo) and tries it out:
tests with the change, demo with and without, quick check of the property (result printed)."""
import json, os, pathlib, runpy, shutil, subprocess, sys
V = pathlib.Path("/verif"); R = pathlib.Path("/repo")

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def one(s):
    d = V / "seeded" / s["id"]
    if d.exists(): shutil.rmtree(d)
    assert not sh("git -C /repo status --porcelain").stdout, "repo not clean"
    try:
        for f, old, new in s["edits"]:
            p = R / "yangson" / f
            t = p.read_text()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            p.write_text(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        d.mkdir(parents=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text("from mini import *\n\n" + s["demo"].strip() + "\n")
        shutil.copy(V / "tools/mini.py", d / "mini.py")
        (d / "demo.sh").write_text('#!/bin/sh\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        # original lines only?
        msg = []
        demo = f"bash {d}/demo.sh"
        r1 = sh(demo, cwd=R)
        if r1.returncode == 0: msg.append("DEMO PASSES WITH PATCH")
        if "--notest" not in sys.argv:
            sh("bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/o.json")
            o = json.load(open("/tmp/o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            bad = set(b["stable"]) - set(o["passed"])
            if bad: msg.append(f"TESTS FAIL: {sorted(bad)[:3]}")
        r = None
        if (V / "vf/props" / (s["prop"].lower() + ".py")).exists():
            r = sh(f"python3-vt check.py {s['prop']} --tier quick", cwd=V, env=dict(os.environ, VERIF_SEED="1"))
    finally:
        sh("git -C /repo checkout -- .")
    r2 = sh(demo, cwd=R)
    if r2.returncode != 0: msg.append("DEMO FAILS ON CLEAN: " + r2.stderr[-500:])
    chk = "no check" if r is None else {0: "MISSED", 1: "caught"}.get(r.returncode, f"exit {r.returncode}")
    print(f"{s['id']} [{s['prop']}]: {'; '.join(msg) or 'valid'}; check: {chk}; demo err: {r1.stderr.strip().splitlines()[-1:]}", flush=True)
    if r is not None and r.returncode == 1: print("    ", r.stdout.strip().splitlines()[1][:300])
    if r is not None and r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-1500:])
    if msg: shutil.rmtree(d)

ns = runpy.run_path(sys.argv[1])
only = [a for a in sys.argv[2:] if not a.startswith("-")]
for s in ns["BUGS"]:
    if not only or s["id"] in only: one(s)
