"""python3 tools/seed.py ID...: what the planted bugs do, each in a scratch copy of /repo (never in /repo itself).

Prints per bug: does the patch apply, change original lines, build, pass the tests; demo before and after; what its check says.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "d074442"
lock = threading.Lock()


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def original(patch):
    """removed lines are lines of the original repository"""
    bad = 0
    n = 0
    f = None
    for l in open(patch, errors="replace"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m:
            ln = int(m.group(1))
            continue
        if l.startswith(("diff", "index", "+++", "---")):
            continue
        if l.startswith("-"):
            n += 1
            rc, o = sh(["git", "blame", "-s", "-l", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], os.environ.get("SEEDREPO", "/repo"))
            base = sh(["git", "merge-base", "--is-ancestor", o.split()[0].lstrip("^"), BASE], os.environ.get("SEEDREPO", "/repo"))[0] == 0
            bad += not base
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return n, bad


def one(i):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    t = "/tmp/sd/" + i
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs("/tmp/sd", exist_ok=True)
    sh(["cp", "-a", os.environ.get("SEEDREPO", "/repo"), t], "/")
    out = {"id": i, "property": meta["property"]}
    try:
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], t)
        if rc:
            out["apply"] = o[:300]
            return out
        out["removed"], out["notoriginal"] = original(os.path.join(d, "patch.diff"))
        env = {"VERIF_REPO": t, "VERIF_BUILD_DIR": "/tmp/sd/build"}
        rc, o = sh([sys.executable, os.path.join(V, "lib/build.py"), "plain"], t, env)
        if rc:
            out["build"] = o[-500:]
            return out
        py = o.strip().split("\n")[-1]
        rc, o = sh([sys.executable, os.path.join(V, "lib/build.py"), "plain"], t, {"VERIF_BUILD_DIR": "/tmp/sd/build"})
        clean = o.strip().split("\n")[-1]
        if "notest" not in sys.argv:
            rc, o = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x"], t, {"PYTHONPATH": py})
            out["tests"] = re.findall(r"\d+ (?:passed|failed)", o)
        demo = "/tmp/sd/demo_" + i
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        out["demo_clean"] = sh(["bash", demo + "/demo.sh"], os.environ.get("SEEDREPO", "/repo"), {"PYTHONPATH": clean}, 300)[0]
        rc, o = sh(["bash", demo + "/demo.sh"], t, {"PYTHONPATH": py}, 300)
        out["demo_bug"] = (rc, o.strip().split("\n")[-1][:150])
        shutil.rmtree(demo, ignore_errors=True)
        if "nocheck" not in sys.argv:
            with lock:
                t0 = time.time()
                rc, o = sh([sys.executable, os.path.join(V, "run.py"), meta["property"]], V, env)
                out["check"] = (rc, "VIOLATION property=%s " % meta["property"] in o, round(time.time() - t0), o.strip().split("\n")[0][:300])
        shutil.rmtree(py, ignore_errors=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return out


ids = [a for a in sys.argv[1:] if not a.startswith("no")]
if not ids:
    ids = sorted(os.listdir(os.path.join(V, "seeded")))
res_file = os.path.join(V, "tools/seeded.json")
res = json.load(open(res_file)) if os.path.exists(res_file) else {}
with ThreadPoolExecutor(int(os.environ.get("W","4"))) as ex:
    for r in ex.map(one, ids):
        if "check" in r:
            c = r["check"][:2] == (1, True)
            old = res.get(r["id"])
            res[r["id"]] = (r["property"] + (" (after it was strengthened)" if old and "missed" in old or old and "strength" in old else "")) if c else "missed"
            json.dump(res, open(res_file, "w"), indent=1, sort_keys=True)
        ok = r.get("removed") and not r.get("notoriginal") and r.get("demo_clean") == 0 and r.get("demo_bug", (0,))[0] != 0 and (r.get("tests") in (None, ["74 passed"]))
        print("%-14s %s %s" % (r["id"], "valid" if ok else "INVALID", "caught" if r.get("check", (0, 0))[:2] == (1, True) else "MISSED"), json.dumps(r), flush=True)
