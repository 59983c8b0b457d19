#!/usr/bin/env python3
"""Decides one property:  check.py --property Cxx [--tier quick|thorough]

1. symbolic: every unit (contract) of the property is re-verified against the
   current /repo/src under the back ends it names (pv.symworker).
2. CPython cross-check: the same contracts are evaluated on the real code
   (pv.conworker), also used to replay counterexamples and as bounded stand-in.
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import argparse
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SRC = os.environ.get("PV_SRC", "/repo/src")
PYSYM = "python3-vt"
PYCON = {"numpy": ["/opt/venv/bin/python"], "torch": ["/opt/venv/bin/python"],
         "mpi": ["/opt/venv/bin/python"]}
TRUSTED = [
    "pv/shims.py: contracts of numpy, torch, scipy, sklearn, bayes_opt, hnswlib, mpi4py entry points",
    "pv/tensor.py, pv/sym.py, pv/loader.py: symbolic execution of CPython semantics over arrays",
    "pv/terms.py, pv/smt.py: term rewriting, extensionality of finite sums / matrix inverses",
    "z3 (python bindings of python3-vt)", "CPython 3.12",
]
ASSUME = [
    "IEEE-754 floats are treated as mathematical reals; concrete cross-checks use relative tolerance 1e-6",
    "covariance matrices handed to solve/inv are symmetric and nonsingular",
    "1/0 is an unspecified real in specifications and code alike; NaN and infinities are outside the symbolic domain",
    "third-party functions satisfy the contracts stated in pv/shims.py",
    "termination is not verified",
]


def sym_job(backend, units, budget, wall):
    env = dict(os.environ, PV_SRC=SRC, PYTHONPATH=HERE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    out = []
    try:
        p = subprocess.run([PYSYM, "-m", "pv.symworker", backend, str(budget), ",".join(units)], cwd=HERE,
                           env=env, capture_output=True, text=True, timeout=wall)
        text, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        text = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        err = "timeout"
    for l in text.splitlines():
        try:
            out.append(json.loads(l))
        except ValueError:
            pass
    got = {d.get("unit") for d in out}
    for u in units:
        if u not in got:
            out.append(dict(unit=u, backend=backend, status="unsupported", obligations={}, n_obligations=0, n_proved=0,
                            reason="worker ended: " + err[-300:], bad=None, calls=[], stubbed=[], wall_s=0, stats={}))
    return out


def con_job(backend, jobs, wall):
    if not jobs:
        return []
    env = dict(os.environ, PV_SRC=SRC, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1",
               PV_CON_BUDGET=str(max(10, wall - 20)), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try:
        p = subprocess.run(PYCON[backend] + ["-m", "pv.conworker", backend], cwd=HERE, env=env,
                           input=json.dumps(jobs), capture_output=True, text=True, timeout=wall)
        text, rc, err = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        text = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        rc, err = 0, "timeout"
    out = []
    for l in text.splitlines():
        try:
            out.append(json.loads(l))
        except ValueError:
            pass
    if rc != 0 and len(out) < len(jobs):
        # the real code could not even be driven: report as an error of that job
        out.append(dict(unit=jobs[len(out)]["unit"], backend=backend, seed=jobs[len(out)].get("seed"),
                        given=jobs[len(out)].get("given"), status="error", checks=0, failures=[("worker", err[-1500:])]))
    return out


def split(jobs, n):
    return [jobs[i::n] for i in range(n) if jobs[i::n]]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--units", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    from pv import unit as U
    units = [u for u in U.load() if a.property in u.props]
    if a.units:
        units = [u for u in units if u.name in a.units.split(",")]
    if not units:
        print(f"no contracts for {a.property}")
        return 2
    byname = {u.name: u for u in units}
    budget = 150 if tier == "quick" else 300
    wall = 480 if tier == "quick" else 1500
    backends = sorted({b for u in units for b in u.backends})
    sym_res, con_res = [], []
    mult = 1 if tier == "quick" else 12
    with cf.ThreadPoolExecutor(16) as ex:
        futs = []
        for b in backends:
            us = [u.name for u in units if b in u.backends and not u.bounded]
            for s in split(us, 4 if tier == "quick" else 6):
                futs.append(("s", ex.submit(sym_job, b, s, budget, wall)))
        for b in backends:
            jobs = []
            for u in units:
                if b in u.backends and not u.lemma:
                    jobs += [dict(unit=u.name, seed=a.seed * 1000 + i) for i in range(u.trials * mult)]
            for s in split(jobs, 2):
                futs.append(("c", ex.submit(con_job, b, s, wall)))
        for k, f in futs:
            (sym_res if k == "s" else con_res).extend(f.result())
    ures = [r for r in sym_res if "unit" in r]
    stats = [r for r in sym_res if r.get("done")]
    # ---- second round: guided replays and stand-ins
    extra = []
    failed_con = {(r["unit"], r["backend"]) for r in con_res if r["status"] == "fail"}
    for r in ures:
        u = byname[r["unit"]]
        if r["status"] == "proved" or u.lemma or (u.name, r["backend"]) in failed_con:
            continue
        jobs = []
        m = (r.get("bad") or {}).get("model")
        if m:
            jobs += [dict(unit=u.name, seed=77 + i, given=m) for i in range(6)]
            md = {k: v for k, v in m.items() if not k.startswith("@")}
            jobs += [dict(unit=u.name, seed=177 + i, given=md) for i in range(20)]
        jobs += [dict(unit=u.name, seed=a.seed * 1000 + 500 + i) for i in range(6 * u.trials * mult)]
        extra.append((r["backend"], jobs))
    if extra:
        with cf.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(con_job, b, j, wall if tier != "quick" else max(60, 700 - (time.time() - t0))) for b, j in extra]:
                con_res.extend(f.result())
    left = 780 - (time.time() - t0) if tier == "quick" else 2 * budget
    # ---- third round: contracts the committed tree satisfies and this one does not are given more time
    failed_con = {(r["unit"], r["backend"]) for r in con_res if r["status"] == "fail"}
    base = baseline()
    again = [i for i, r in enumerate(ures) if r["status"] == "unknown" and not byname[r["unit"]].lemma
             and (r["unit"], r["backend"]) not in failed_con and f"{r['unit']}[{r['backend']}]" in base]
    if again and left > 30:
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [(i, ex.submit(sym_job, ures[i]["backend"], [ures[i]["unit"]], min(2 * budget, left), left + 20)) for i in again]
            for i, f in fs:
                r = next((x for x in f.result() if x.get("unit") == ures[i]["unit"]), None)
                if r:
                    ures[i] = r
    errs = [r for r in con_res if r["status"] == "error"]
    fails = [r for r in con_res if r["status"] == "fail"]
    # ---- verdict
    known = known_findings(a.property)
    known_units = {k["unit"]: k for k in known}
    violations = []
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    seen = set()
    printed_known = set()
    for r in fails:
        if r["unit"] in known_units and all(
                (f[0] + ":").startswith(known_units[r["unit"]]["label"] + ":") for f in r["failures"]):
            k = known_units[r["unit"]]
            if k["id"] not in printed_known:
                printed_known.add(k["id"])
                print(f"KNOWN-FINDING: property={a.property} {k['what']}")
            continue
        key = (r["unit"], r["backend"])
        if key in seen:
            continue
        seen.add(key)
        s = next((x for x in ures if x["unit"] == r["unit"] and x["backend"] == r["backend"]), None)
        path = os.path.join(HERE, "evidence", "replays", f"{a.property}.{r['unit']}.{r['backend']}.json")
        json.dump(dict(property=a.property, replayed=True, unit=r["unit"], backend=r["backend"], seed=r["seed"],
                       given=r.get("given"), failures=r["failures"], inputs=r.get("inputs"),
                       failed_obligation=(s or {}).get("bad"),
                       how=f"cd {HERE}; echo '[{json.dumps(dict(unit=r['unit'], seed=r['seed'], given=r.get('given')))}]' | "
                           f"PYTHONPATH={HERE} {' '.join(PYCON[r['backend']])} -m pv.conworker {r['backend']}"),
                  open(path, "w"), indent=1)
        violations.append((r, path, True))
    for r in ures:
        u = byname[r["unit"]]
        if u.lemma or r["unit"] in known_units or (r["unit"], r["backend"]) in seen:
            continue
        if r["status"] == "refuted" or (r["status"] == "unknown" and r["bad"] and f"{r['unit']}[{r['backend']}]" in base):
            path = os.path.join(HERE, "evidence", "replays", f"{a.property}.{r['unit']}.{r['backend']}.json")
            json.dump(dict(property=a.property, replayed=False, unit=r["unit"], backend=r["backend"],
                           failed_obligation=r["bad"], verifier_output=r), open(path, "w"), indent=1)
            violations.append((r, path, False))
    # ---- evidence
    api = [r for r in ures if r["unit"] not in known_units]
    nob = sum(r["n_obligations"] for r in api)
    npr = sum(r["n_proved"] for r in api)
    bounded = sorted({f"{r['unit']}[{r['backend']}]: {r['reason'][:160]}" for r in api if r["status"] in ("unsupported", "unknown")}
                     | {f"{u.name}: bounded by construction" for u in units if u.bounded})
    # obligations of units that are not fully proved are never counted as proved
    disch = sum(r["n_proved"] for r in api if r["status"] == "proved")
    ob_total = sum(r["n_obligations"] for r in api if r["status"] == "proved") + sum(
        max(1, r["n_obligations"]) for r in api if r["status"] not in ("proved", "unsupported", "unknown"))
    fns = sorted({f.replace("{B}", b) for u in units for b in u.backends for f in u.fns})
    calls = sorted({c for r in api for c in r.get("calls", [])})
    evals = [r for r in con_res if r["status"] in ("ok", "fail")]
    ev = dict(
        property=a.property, tier=tier, seed=a.seed, level="proof",
        coverage=dict(
            obligations=ob_total, discharged=disch,
            checker_cmd=f"python3-vt -m pv.symworker <backend> {budget} <units>  (z3 {z3v()})",
            trusted_base=TRUSTED,
            functions_under_contract=fns, functions_executed=calls,
            units=[dict(unit=r["unit"], backend=r["backend"], status=r["status"], paths=r.get("paths"),
                        reachable_paths=r.get("covers"), obligations=r["n_obligations"], proved=r["n_proved"],
                        callee_contracts_used=r.get("stubbed"), wall_s=r.get("wall_s"), reason=r["reason"][:200]) for r in ures],
            solver=dict(vcs=sum(r.get("stats", {}).get("vcs", 0) for r in ures),
                        sub_vcs=sum(r.get("stats", {}).get("sub_vcs", 0) for r in ures),
                        z3_calls=sum(r.get("stats", {}).get("z3_calls", 0) for r in ures),
                        z3_time_s=round(sum(r.get("stats", {}).get("z3_time", 0) for r in ures), 2),
                        syntactic=sum(r.get("stats", {}).get("syntactic", 0) for r in ures)),
            bounded_stand_ins=bounded,
            evaluations=len(evals), contract_checks_on_real_code=sum(r["checks"] for r in evals),
            rule="one evaluation = one contract evaluated on the real code under CPython with drawn inputs "
                 "(dims 1..4 incl. coincidences); never counted as proved",
        ),
        assumptions=ASSUME + sorted({x for s in stats for x in s.get("assumptions", [])}),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(HERE, "evidence", a.property + ".json"), "w"), indent=1)
    if a.v:
        for r in ures:
            print(r["backend"], r["unit"], r["status"], f"{r['n_proved']}/{r['n_obligations']}", r.get("wall_s"), r["reason"][:200])
    nproved = sum(r["status"] == "proved" for r in api)
    print(f"{a.property}: {nproved}/{len(api)} contracts proved, {disch} obligations discharged, "
          f"{len(bounded)} bounded stand-ins, {len(evals)} concrete evaluations, {ev['wall_s']} s")
    if errs and not violations:
        for e in errs[:3]:
            print("ERROR", e["unit"], e["failures"])
        return 3
    if nob == 0 and not any(u.bounded for u in units):
        print("no obligations were generated")
        return 3
    for r, path, replayed in violations:
        what = r["failures"][0] if replayed else r["bad"]["label"]
        print(f"  {r['unit']}[{r['backend']}]: {what}")
        print(f"VIOLATION property={a.property} replay={path}" + ("" if replayed else " no-failing-input-found"))
    return 1 if violations else 0


def z3v():
    try:
        return subprocess.run([PYSYM, "-c", "import z3;print(z3.get_version_string())"], capture_output=True, text=True).stdout.strip()
    except Exception:
        return "?"


def baseline():
    """contracts every obligation of which the verifier accepts on the committed tree (tools/baseline.py)"""
    f = os.path.join(HERE, "baseline.json")
    return set(json.load(open(f))) if os.path.exists(f) else set()


def known_findings(prop):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop and k.get("status") == "open"]


if __name__ == "__main__":
    sys.exit(main())
