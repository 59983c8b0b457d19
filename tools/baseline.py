"""Records which contracts are proved on the committed tree, from the evidence of a full run."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = set()
for f in sorted(glob.glob(os.path.join(HERE, "evidence", "C*.json"))):
    for u in json.load(open(f))["coverage"]["units"]:
        if u["status"] == "proved":
            out.add(f"{u['unit']}[{u['backend']}]")
json.dump(sorted(out), open(os.path.join(HERE, "baseline.json"), "w"), indent=0)
print(len(out), "contracts proved")
