"""Writes MANIFEST.json for the checks that exist in checks/."""
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
sys.path.insert(0, os.path.join(root, "checks"))
import mkprops

TECH = {
    "C17": "explicit-state search over all call sequences of the real system, against fresh replays",
    "C18": "explicit-state search over all call sequences of the real system",
    "C19": "explicit-state search of an abstract register model, every trace replayed on the implementation",
    "C23": "explicit-state search of an abstract trajectory model, every trace replayed on the implementation",
    "C24": "exhaustive enumeration of truncation points of trajectory files",
    "C25": "exhaustive enumeration of faulty requests and follow-up histories",
    "C26": "exhaustive enumeration of structures, types, precisions and forms of output, against an independent tessellation",
    "C27": "exhaustive enumeration of structures, species orders and call histories with a stand-in calculator",
    "C28": "exhaustive enumeration of structures, colourings, selections and redrawing histories; every figure compared with the structure",
}
checks, na = [], []
for p in mkprops.P:
    i = p["id"]
    if os.path.exists(os.path.join(root, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=TECH.get(i, "bounded explicit-state exploration of the implementation against a reference model"),
                           level="model_checking",
                           level_note="every state of the bounded space (structures x parameters x short histories) is executed on the real code and compared with an independent model; nothing is claimed outside the bounds stated in the evidence file"))
    else:
        na.append(dict(property=i, reason="the check for this property is not built yet"))
m = dict(version=1, setup_cmd="python3 lib/build.py plain",
         hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: the checks use the public Python interface of a private build of the working tree (lib/build.py)", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="run.py ID builds /repo's working tree privately (cached by content hash), explores the space of checks/<id>.py in 8 worker processes and writes evidence/<ID>.json; --replay FILE re-executes one case.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
