"""developer helper: dev.py [-b backend] unit... : symbolic + concrete results"""
import json, subprocess, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
bs = ["numpy", "torch"]
args = sys.argv[1:]
if args[0] == "-b":
    bs = [args[1]]; args = args[2:]
for b in bs:
    p = subprocess.run(["python3-vt", "-m", "pv.symworker", b, "90", ",".join(args) if args[0] != "*" else "*"], cwd=HERE, capture_output=True, text=True)
    seen = []
    for l in p.stdout.splitlines():
        d = json.loads(l)
        if "unit" not in d:
            continue
        seen.append(d["unit"])
        if d["status"] == "proved":
            npr = globals().setdefault("NPR", {}); npr[b] = npr.get(b, 0) + 1; continue
        print(f"{b:6} {d['unit']:38} {d['status']:11} paths={d.get('paths')} obl={d.get('n_proved')}/{d.get('n_obligations')} {d.get('wall_s')}s stub={len(d.get('stubbed',[]))} {d.get('reason','')[:300]}")
        if d.get("bad"):
            print("      ", {k: (v if k != 'goal' else v[:300]) for k, v in d["bad"].items() if k in ("label", "model", "path", "goal", "opaque")})
    if p.returncode: print(p.stderr[-1500:])
    jobs = [dict(unit=a, seed=i) for a in (args if args[0] != "*" else seen) for i in range(8)]
    env = dict(os.environ, PYTHONPATH=HERE)
    p = subprocess.run(["/opt/venv/bin/python", "-m", "pv.conworker", b], cwd=HERE, env=env, input=json.dumps(jobs), capture_output=True, text=True)
    if p.returncode: print(p.stderr[-1500:])
    agg = {}
    for l in p.stdout.splitlines():
        d = json.loads(l)
        a = agg.setdefault(d["unit"], dict(ok=0, fail=0, skip=0, first=None))
        a[d["status"]] += 1
        if d["status"] == "fail" and not a["first"]:
            a["first"] = (d["seed"], d["failures"][:3], {k: v for k, v in d["inputs"].items() if k[0] != "#"})
    for u, a in agg.items():
        if not a["fail"] and a["ok"]:
            continue
        print(f"   con {u:38} {a}")
    print(b, "proved:", globals().get("NPR", {}).get(b, 0), "of", len(seen), " con ok:", sum(1 for a in agg.values() if not a["fail"] and a["ok"]))
