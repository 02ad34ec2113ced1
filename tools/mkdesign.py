"""Writes DESIGN.md from tools/DESIGN.in.md, the check modules, properties.jsonl, known_findings.json, tools/seeded.json."""
import importlib
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, "-B", "-W", "ignore"] + sys.argv)
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
t = []
for p in props:
    m = importlib.import_module(p["id"].lower())
    i = m.INFO
    t.append("### %s %s\n" % (p["id"], p["title"]))
    t.append("* enumerated, and against what: %s" % i["rule"])
    for k in ("quick", "thorough"):
        t.append("* %s: %s" % (k, i["bounds"][k]))
    t.append("* assumed: %s" % "; ".join(i["assumptions"]))
    t.append("* why tests cannot: %s" % p["why_tests_cant"])
    ev = os.path.join(V, "tools", "cost.json")
    if os.path.exists(ev):
        c = json.load(open(ev)).get(p["id"])
        if c:
            t.append("* cost (quick): %s" % c)
    t.append("")
k = json.load(open(os.path.join(V, "known_findings.json")))
f = "\n".join("* " + x[len("fixed: "):] for x in k["fixed"])
s = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
r = {}
if os.path.exists(os.path.join(V, "tools/seeded.json")):
    r = json.load(open(os.path.join(V, "tools/seeded.json")))
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    s.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), r.get(d, "?")))
x = open(os.path.join(V, "tools/DESIGN.in.md")).read()
x = x.replace("@TABLE@", "\n".join(t)).replace("@FIXED@", f).replace("@SEEDED@", "\n".join(s))
open(os.path.join(V, "DESIGN.md"), "w").write(x)
