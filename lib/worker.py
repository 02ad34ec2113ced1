"""Executes cases of one property module; one JSON case per line on stdin."""
import importlib
import json
import os
import sys
import tempfile
import traceback
import warnings

warnings.simplefilter("ignore")
pid, fd = sys.argv[1], int(sys.argv[2])
out = os.fdopen(fd, "wb", buffering=0)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import core  # noqa: E402

mod = importlib.import_module(pid.lower())
with tempfile.TemporaryDirectory(prefix="verif_pyscal_run_") as scratch:
    os.chdir(scratch)
    for line in sys.stdin:
        case = json.loads(line)
        ctx = core.Ctx(pid, scratch)
        try:
            mod.run(case, ctx)
        except core.Violation as e:
            ctx.violation = str(e)
        except Exception as e:      # the code under test failed where it must not
            tb = traceback.format_exc()
            ctx.violation = "unexpected %s: %s\n%s" % (type(e).__name__, e, tb[-1800:])
        if ctx.violation:
            ctx.violation = "case %s: %s" % (json.dumps(case)[:600], ctx.violation)
        out.write((json.dumps(ctx.result(case)) + "\n").encode())
    os.chdir("/")
