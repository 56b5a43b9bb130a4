#!/opt/veriftools/pyvenv/bin/python
"""DESIGN.md from tools/design.in.md, tools/design_props.py, the check modules and seeded/*/meta.json."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, "/repo"); sys.path.append("/opt/venv/lib/python3.12/site-packages")
from tools.design_props import T
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
o = []
for p in props:
    m = importlib.import_module("vf.props." + p["id"].lower())
    g, orc, why = T[p["id"]]
    o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append("* **Generated**: %s. Cases quick / thorough: %s." % (g, "; ".join("%s %d / %d" % (l.name, l.quick, l.thorough) for l in m.LEGS)))
    o.append("* **Oracle**: %s." % orc)
    o.append("* **Non-trivial**: %s." % m.RULE)
    if getattr(m, "ASSUMPTIONS", None):
        o.append("* **Domain**: %s." % "; ".join(m.ASSUMPTIONS))
    o.append("* **Beyond the tests**: %s.\n" % why)
b = ["`seeded/<id>/`: patch, demo and what it needs. `by` is the check of the bug's own property at the quick tier.\n", "| id | property | needs | caught |", "|---|---|---|---|"]
S = V + "/seeded"
for i in sorted(os.listdir(S)):
    f = "%s/%s/meta.json" % (S, i)
    if os.path.exists(f):
        x = json.load(open(f))
        b.append("| %s | %s | %s | %s |" % (i, x["property"], x["needs"].replace("|", "/"), x.get("caught", "yes")))
s = open(V + "/tools/design.in.md").read()
fa = open(V + "/tools/design_false.md").read()
s = s.replace("@PROPS@", "\n".join(o)).replace("@FALSE@", fa).replace("@BUGS@", "\n".join(b) + "\n")
open(V + "/DESIGN.md", "w").write(s)
