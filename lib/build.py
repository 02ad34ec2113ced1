"""Build pyscal from /repo's current working tree into a private directory.

The Python files are copied and the two C++ extensions are compiled from the
sources which /repo/setup.py names (setup.py is executed with setuptools.setup
replaced by a recorder, so a changed source list is followed).  Nothing in
/repo is written.  The result is cached by content hash, so that any change of
a source file, header or of the voro++ library leads to a new build.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def _files():
    out = []
    for base in ("src", "lib"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__" and not d.endswith(".egg-info"))
            for f in sorted(files):
                if f.endswith((".so", ".pyc", ".o")):
                    continue
                out.append(os.path.join(root, f))
    out.append(os.path.join(REPO, "setup.py"))
    return out


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for f in _files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


_PROBE = r"""
import sys, json, os
os.chdir(sys.argv[1])
sys.path.insert(0, sys.argv[1])
import setuptools
cap = {}
setuptools.setup = lambda **kw: cap.update(kw)
src = open("setup.py").read()
exec(compile(src, "setup.py", "exec"), {"__name__": "__main__", "__file__": "setup.py"})
import pybind11, sysconfig
exts = []
for e in cap.get("ext_modules", []):
    exts.append(dict(name=e.name, sources=list(e.sources), include_dirs=list(e.include_dirs),
                     define_macros=[list(x) for x in e.define_macros],
                     cflags=[x for x in e.extra_compile_args], lflags=list(e.extra_link_args)))
print(json.dumps(dict(exts=exts, pyinc=sysconfig.get_paths()["include"], pbinc=pybind11.get_include(),
                      suffix=sysconfig.get_config_var("EXT_SUFFIX"))))
"""

FLAVOURS = {
    "plain": (["-O2", "-DNDEBUG"], []),
    # libstdc++ bounds assertions + UBSan (out-of-bounds on fixed arrays)
    "ubsan": (["-O1", "-g", "-D_GLIBCXX_ASSERTIONS",
               "-fsanitize=bounds", "-fno-sanitize-recover=bounds"], ["-fsanitize=bounds"]),
    "asan": (["-O1", "-g", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds",
              "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=address,bounds"]),
}


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), (r.stderr or r.stdout)[-4000:]))
    return r.stdout


def build(flavour="plain"):
    """Return the directory to put on PYTHONPATH."""
    import json
    cflags, lflags = FLAVOURS[flavour]
    base = os.environ.get("VERIF_BUILD_DIR") or os.path.join(tempfile.gettempdir(), "verif_pyscal_build_%d" % os.getuid())
    os.makedirs(base, exist_ok=True)
    key = flavour + "_" + tree_hash(" ".join(cflags))
    final = os.path.join(base, key)
    with open(os.path.join(base, key + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, "ok")):
            return final
        work = final + ".work"
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        # snapshot of the sources
        for f in _files():
            dst = os.path.join(work, "tree", os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(f, dst)
        tree = os.path.join(work, "tree")
        for extra in ("README.md",):
            p = os.path.join(REPO, extra)
            if os.path.exists(p):
                shutil.copyfile(p, os.path.join(tree, extra))
        info = json.loads(_run([PY, "-c", _PROBE, tree], tree).strip().splitlines()[-1])
        objs, jobs = {}, []
        for e in info["exts"]:
            for s in e["sources"]:
                k = (s, tuple(e["include_dirs"]))
                if k in objs:
                    continue
                o = os.path.join(work, "obj%d.o" % len(objs))
                objs[k] = o
                cmd = ["g++", "-std=c++17", "-fPIC", "-fvisibility=hidden", "-g0"] + cflags
                cmd += ["-I" + info["pyinc"], "-I" + info["pbinc"]]
                cmd += ["-I" + d for d in e["include_dirs"]]
                cmd += ["-D%s=%s" % (a, b) if b is not None else "-D" + a for a, b in e["define_macros"]]
                cmd += [c for c in e["cflags"] if not c.startswith(("-std", "-g", "-fvis"))]
                cmd += ["-c", s, "-o", o]
                jobs.append(cmd)
        # biggest compile jobs first
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda c: _run(c, tree), jobs))
        shutil.copytree(os.path.join(tree, "src"), os.path.join(work, "py"))
        for e in info["exts"]:
            out = os.path.join(work, "py", *e["name"].split(".")) + info["suffix"]
            os.makedirs(os.path.dirname(out), exist_ok=True)
            _run(["g++", "-shared"] + lflags + [objs[(s, tuple(e["include_dirs"]))] for s in e["sources"]]
                 + e["lflags"] + ["-o", out], tree)
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(os.path.join(work, "py"), final)
        open(os.path.join(final, "ok"), "w").close()
        shutil.rmtree(work, ignore_errors=True)
        return final


if __name__ == "__main__":
    print(build(*(sys.argv[1:2] or ["plain"])))
