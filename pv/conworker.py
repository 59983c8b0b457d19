"""Evaluates the contracts on the real code under CPython.
usage: python -m pv.conworker BACKEND < JSON jobs [{unit, seed, given}]  -> JSON lines"""
import json
import os
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
src = os.environ.get("PV_SRC", "/repo/src")
sys.path.insert(0, src)


def main():
    backend = sys.argv[1]
    os.environ["MUYGPYS_BACKEND"] = backend
    os.environ.setdefault("MUYGPYS_FTYPE", "64")
    warnings.simplefilter("ignore")
    real_out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    jobs = json.load(sys.stdin)
    if backend == "mpi":
        from pv import ranks
        ranks.install()
    import MuyGPyS
    assert os.path.abspath(MuyGPyS.__file__).startswith(os.path.abspath(src)), MuyGPyS.__file__
    from pv import unit
    units = {u.name: u for u in unit.load()}
    t_end = time.time() + float(os.environ.get("PV_CON_BUDGET", "400"))
    for j in jobs:
        if time.time() > t_end:
            break
        r = run_one(units[j["unit"]], backend, j.get("seed", 0), j.get("given"))
        real_out.write(json.dumps(dict(unit=j["unit"], backend=backend, seed=j.get("seed", 0), given=j.get("given"), **r)) + "\n")
        real_out.flush()


def run_one(u, backend, seed, given=None):
    from pv import conctx
    c = conctx.ConCtx(backend, seed, given)
    try:
        return _run_one(c, u)
    finally:
        c.unwatch()


def _run_one(c, u):
    from pv import conctx
    try:
        import numpy as np
        with np.errstate(all="ignore"):
            u.fn(c)
    except conctx.Skip as e:
        return dict(status="skip", checks=0)
    except AssertionError as e:
        if "specification" in str(e) and not c.failures:
            raise
        return dict(status="fail", checks=c.checks, failures=c.failures + [exc(e)], inputs=small(c.record))
    except Exception as e:
        return dict(status="fail", checks=c.checks, failures=c.failures + [exc(e)], inputs=small(c.record))
    return dict(status="fail" if c.failures else "ok", checks=c.checks, failures=c.failures,
                inputs=small(c.record) if c.failures else None)


def exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ("raised", f"{type(e).__name__}: {e} @ {tb[-1].filename}:{tb[-1].lineno}"[:500])


def small(rec):
    return {k: v for k, v in rec.items() if len(json.dumps(v)) < 4000}


if __name__ == "__main__":
    main()
