"""Writes MANIFEST.json from the claims below (python3 tools/manifest.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contract-based deductive verification of the real Python source (symbolic execution of /repo/src with a "
        "shape-polymorphic array VC generator, z3 back end); contracts re-run on CPython for replay")
NOTE = ("Every obligation of every unit is generated from /repo/src on each run and discharged for all sizes and all "
        "entries; units out of the verifier's reach are listed as bounded stand-ins in the evidence and not counted as "
        "proved. Trusted: the engine (pv/), library contracts in pv/shims.py, z3; floats are treated as reals. ")
CLAIMS = {}
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py --property {i} --tier quick",
                           thorough_cmd=f"python3 check.py --property {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH, level="proof", level_note=NOTE + CLAIMS[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no contract written yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the verifier reads /repo/src as it is. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not applicable")
