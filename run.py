#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, "-B", "-W", "ignore"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(here, "lib"))
import runner  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
a = ap.parse_args()
sys.exit(runner.run(a.id, a.tier, a.replay))
