#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  Every property with a harness module is claimed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
DEF_TECH = "stateless explicit-state model checking of the real crate: exhaustive enumeration of a bounded choice tree"
COMMON = ("Complete within the bounds listed in the evidence file, in a debug build with overflow checks and in a release build; "
          "nothing is claimed beyond them. Trusted: the reference model or decoder in /verif/harness, rustc, and the dependencies as shipped. ")
exec(open(os.path.join(HERE, "tools", "manifest_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
done = set(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "harness/src/props")) if f.startswith("c") and f.endswith(".rs"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique=TECH.get(i, DEF_TECH), level="model_checking", level_note=COMMON + NOTE.get(i, "")))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks use its public API only; scheduling points for C14 come from a patched copy of crossbeam-utils in /verif/shims.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
