"""Runs one check: enumerates the cases of a property module, executes every one
of them against a fresh build of /repo in worker processes, writes evidence.

A worker that dies (segfault, abort) or hangs on a case is itself a violation of
the property on that case.
"""
import importlib
import json
import os
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))

import build  # noqa: E402

NWORK = int(os.environ.get("VERIF_JOBS", "8"))


class Worker:
    def __init__(self, pydir, pid, flavour):
        env = dict(os.environ)
        env["PYTHONPATH"] = os.pathsep.join([pydir, HERE, os.path.join(VERIF, "checks")])
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONHASHSEED"] = "0"
        for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
            env[k] = "1"
        # lists of atoms are large and short lived: do not return them to the system each time
        env.update(MALLOC_MMAP_MAX_="0", MALLOC_TRIM_THRESHOLD_="4000000000", MALLOC_TOP_PAD_="67108864")
        r, w = os.pipe()
        self.err = open(os.path.join("/tmp", "verif_worker_%d_%d.err" % (os.getpid(), id(self))), "w+b")
        self.p = subprocess.Popen([build.PY, "-W", "ignore", os.path.join(HERE, "worker.py"), pid, str(w)],
                                  stdin=subprocess.PIPE, stdout=self.err, stderr=self.err,
                                  pass_fds=(w,), env=env)
        os.close(w)
        self.r = os.fdopen(r, "rb")
        self.case = None
        self.t0 = 0

    def send(self, idx, case):
        self.case = idx
        self.t0 = time.time()
        self.p.stdin.write((json.dumps(case) + "\n").encode())
        self.p.stdin.flush()

    def errtext(self):
        try:
            self.err.flush()
            self.err.seek(0, 2)
            n = self.err.tell()
            self.err.seek(max(0, n - 1500))
            return self.err.read().decode("utf-8", "replace")
        except Exception:
            return ""

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        name = self.err.name
        self.err.close()
        self.r.close()
        try:
            os.unlink(name)
        except OSError:
            pass


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    out = {}
    for e in json.load(open(p)).get("findings", []):
        out.setdefault(e["property"], {})[e["key"]] = e["what"]
    return out


def run(pid, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(pid.lower())
    try:
        pydir = build.build("plain")
    except build.BuildError as e:
        print("ERROR: /repo does not build\n%s" % e)
        return 2
    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        cases = list(mod.cases(tier))
    limit = getattr(mod, "CASE_LIMIT", 300)
    budget = float(os.environ.get("VERIF_BUDGET", 780 if tier == "quick" else 6 * 3600))
    known = load_known().get(pid, {})
    workers = [Worker(pydir, pid, "plain") for _ in range(min(NWORK, max(1, len(cases))))]
    sel = selectors.DefaultSelector()
    for w in workers:
        sel.register(w.r, selectors.EVENT_READ, w)
    nxt = 0
    done = 0
    states = set()
    agg = {"ops": 0, "transitions": 0, "comparisons": 0}
    counters = {}
    violations = []
    knownseen = {}
    samples = []
    cut = False

    def record(idx, res):
        nonlocal done
        done += 1
        states.update(res.get("states", ()))
        for k in agg:
            agg[k] += res.get(k, 0)
        for k, v in res.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
        for key, msg in res.get("known", {}).items():
            if key in known:
                knownseen.setdefault(key, (idx, msg))
            else:
                violations.append((idx, "unlisted finding %s: %s" % (key, msg)))
        if res.get("violation"):
            violations.append((idx, res["violation"]))
        if res.get("sample") and len(samples) < 4 and (done % max(1, len(cases) // 4) == 0 or not samples):
            samples.append(res["sample"])

    def feed(w):
        nonlocal nxt, cut
        if nxt < len(cases) and len(violations) < 12:
            if time.time() - t0 > budget:
                cut = True
                w.case = None
                return
            w.send(nxt, cases[nxt])
            nxt += 1
        else:
            w.case = None

    for w in workers:
        feed(w)
    bufs = {id(w): b"" for w in workers}
    while any(w.case is not None for w in workers):
        for key, _ in sel.select(timeout=2):
            w = key.data
            chunk = os.read(w.r.fileno(), 1 << 20)
            if not chunk:                       # the worker died
                idx = w.case
                rc = w.p.wait()
                sel.unregister(w.r)
                text = w.errtext()
                w.close()
                workers.remove(w)
                if idx is not None:
                    record(idx, {"violation": "process died (exit status %s) %s" % (rc, text[-400:])})
                if len(violations) < 12 and nxt < len(cases):
                    nw = Worker(pydir, pid, "plain")
                    workers.append(nw)
                    bufs[id(nw)] = b""
                    sel.register(nw.r, selectors.EVENT_READ, nw)
                    feed(nw)
                continue
            bufs[id(w)] += chunk
            while b"\n" in bufs[id(w)]:
                line, bufs[id(w)] = bufs[id(w)].split(b"\n", 1)
                record(w.case, json.loads(line))
                feed(w)
        now = time.time()
        for w in workers:
            if w.case is not None and now - w.t0 > limit:
                w.p.kill()                      # the pipe closes, handled above
                w.t0 = now + 1e9
    for w in workers:
        w.close()
    build_wall = time.time() - t0

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for n, (idx, msg) in enumerate(violations[:5]):
        rp = os.path.join(VERIF, "evidence", "replay_%s_%d.json" % (pid, n))
        if not replay:
            json.dump({"property": pid, "case": cases[idx], "message": msg}, open(rp, "w"), indent=1)
        else:
            rp = replay
        print("# %s" % msg.replace("\n", "\n# ")[:2500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    for key, (idx, msg) in sorted(knownseen.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[key], msg[:200]))
    if not replay:
        info = getattr(mod, "INFO", {})
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": len(states),
                "transitions": agg["transitions"],
                "traces_validated_against_impl": done,
                "implementation_calls": agg["ops"],
                "observations_compared": agg["comparisons"],
                "samples": samples or [cases[0]],
                "exhaustive": (not cut) and not violations,
                "counters": counters,
                "cases_in_space": len(cases),
                "rule": info.get("rule", ""),
                "bounds": info.get("bounds", {}).get(tier, "") if isinstance(info.get("bounds"), dict) else info.get("bounds", ""),
            },
            "assumptions": info.get("assumptions", []),
            "wall_s": round(build_wall, 2),
            "violations": len(violations),
        }
        if knownseen:
            ev["coverage"]["known_findings_seen"] = sorted(knownseen)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d/%d cases, %d states, %d transitions, %d comparisons, %d violations, %.1f s%s" % (
        pid, tier, done, len(cases), len(states), agg["transitions"], agg["comparisons"], len(violations),
        build_wall, " (budget reached, not exhaustive)" if cut else ""))
    return 1 if violations else 0
