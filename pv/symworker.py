"""Generates and discharges the obligations of the selected units for one backend.
usage: python3-vt -m pv.symworker BACKEND BUDGET_S UNIT[,UNIT...]   -> JSON lines"""
import re
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    backend, budget, names = sys.argv[1], float(sys.argv[2]), sys.argv[3]
    os.environ["MUYGPYS_BACKEND"] = backend
    os.environ.setdefault("MUYGPYS_FTYPE", "64")
    real_out = sys.stdout
    sys.stdout = sys.stderr
    from pv import terms as tm, smt, sym, shims, loader, unit, symctx, stubs
    shims.install(backend)
    loader.install()
    units = unit.load()
    sel = [u for u in units if (names == "*" or u.name in names.split(",")) and backend in u.backends and not u.bounded]
    files, assume = set(), set()
    for u in sel:
        # every unit starts from the same state, whatever ran before it
        r = in_child(u, backend, budget)
        files |= set(r.pop("files", ()))
        assume |= set(r.pop("assume", ()))
        real_out.write(json.dumps(r) + "\n")
        real_out.flush()
    real_out.write(json.dumps(dict(done=True, files=sorted(files), assumptions=sorted(assume))) + "\n")


def in_child(u, backend, budget):
    from pv import loader
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        code = 0
        try:
            try:
                r = run_unit(u, backend, budget)
            except Exception as e:  # engine failure: never a verdict
                r = dict(unit=u.name, backend=backend, status="unsupported", n_obligations=0, n_proved=0, bad=None, calls=[],
                         reason="engine: " + "".join(traceback.format_exception(e))[-600:], obligations={}, stubbed=[])
            from pv import tensor
            r["files"], r["assume"] = sorted(loader.FILES), sorted(tensor.ASSUME)
            with os.fdopen(wr, "w") as f:
                f.write(json.dumps(r))
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd) as f:
        text = f.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(text)
    except ValueError:
        return dict(unit=u.name, backend=backend, status="unsupported", n_obligations=0, n_proved=0, bad=None, calls=[],
                    reason="engine: the worker process died", obligations={}, stubbed=[])


ENGINE_TYPE = re.compile(r"\b(Sym|SymBool|SymRange|Tensor|NpT|TorchT|MaskedView|Shape|DType|Unknown|Proposal|Module|Storage)\b")


def run_unit(u, backend, budget):
    from pv import terms as tm, smt, sym, shims, loader, symctx, stubs
    t0 = time.time()
    smt.DEADLINE[0] = t0 + budget
    stats0 = dict(smt.STATS)
    work = [[]]
    paths, infeasible = 0, 0
    obs, bad = [], None
    status, reason = "proved", ""
    covers = 0
    calls0 = dict(loader.CALLS)
    while work:
        if paths >= u.paths:
            status, reason = "unsupported", f"more than {u.paths} paths"
            break
        if time.time() - t0 > budget:
            status, reason = "unsupported", "time budget"
            break
        dec = work.pop()
        p = sym.Path(dec)
        sym.CUR[0] = p
        shims.reset_counts()
        c = symctx.SymCtx(backend)
        stubs.activate(u, backend, c)
        exc = None
        try:
            u.fn(c)
        except sym.Infeasible:
            infeasible += 1
            work.extend(p.alts)
            continue
        except (sym.Unsupported, sym.PathLimit) as e:
            status, reason = "unsupported", f"{type(e).__name__}: {e} @ {where(e)}"
            work.extend(p.alts)
            paths += 1
            continue
        except tm.TooBig as e:
            status, reason = "unsupported", f"TooBig: {e} @ {where(e)}"
            work.extend(p.alts)
            paths += 1
            continue
        except AssertionError as e:
            if "specification" in str(e):
                raise
            exc = e
        except Exception as e:
            exc = e
        finally:
            stubs.deactivate()
        paths += 1
        work.extend(p.alts)
        if exc is not None:
            src = where(exc)
            engine_side = "/verif/pv/" in src or "/contracts/" in src
            tb = traceback.extract_tb(exc.__traceback__)
            through = any(loader.SRC in f.filename for f in tb)
            if isinstance(exc, (TypeError, AttributeError)) and ENGINE_TYPE.search(str(exc)):
                # an operation the engine's values do not have, which says nothing about the code's own
                status, reason = "unsupported", f"{type(exc).__name__}: {exc} @ {src}"
                continue
            if not through and not isinstance(exc, (ValueError, TypeError, IndexError)):
                status, reason = "unsupported", f"engine exception {exc!r} @ {src}"
                continue
            p.obligations.append((f"no exception ({type(exc).__name__}: {str(exc)[:120]} @ {src})", tm.FALSE, tuple(p.pc)))
        if smt.sat_model(p.pc) is not None:
            covers += 1
        for label, goal, ctx in p.obligations:
            if time.time() - t0 > budget:
                status, reason = "unsupported", "time budget"
                break
            try:
                r = smt.prove(goal, ctx, model=True)
            except tm.TooBig as e:
                r = smt.Result("unknown")
            obs.append((label, r.status))
            if r.status != "proved":
                m = concretize(c, goal, ctx)
                sure = r.status == "refuted" and not r.opaque
                bad = bad or dict(label=label, status=r.status, opaque=r.opaque, goal=repr(goal)[:int(__import__("os").environ.get("GOAL", 600))],
                                  path=[f"{t!r}={d}"[:200] for t, d in p.trace][:12], model=m)
                if status == "proved" or (sure and status == "unknown"):
                    status = "refuted" if sure else "unknown"
                    bad = dict(label=label, status=r.status, opaque=r.opaque, goal=repr(goal)[:int(__import__("os").environ.get("GOAL", 600))],
                               path=[f"{t!r}={d}"[:200] for t, d in p.trace][:12], model=m)
                reason = reason or label
    summary = {}
    for l, s in obs:
        k = summary.setdefault(l, dict(n=0, proved=0))
        k["n"] += 1
        k["proved"] += s == "proved"
    if status == "proved" and (not obs or covers == 0):
        status, reason = "unsupported", "vacuous: no obligation or no reachable path"
    d = {k: smt.STATS[k] - stats0[k] for k in smt.STATS}
    return dict(unit=u.name, backend=backend, status=status, reason=reason, paths=paths, covers=covers,
                obligations=summary, n_obligations=len(obs), n_proved=sum(s == "proved" for _, s in obs), bad=bad,
                calls=sorted(k for k in loader.CALLS if loader.CALLS[k] > calls0.get(k, 0)),
                stubbed=sorted(stubs.used()), stats=d, wall_s=round(time.time() - t0, 2))


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    best = tb[-1] if tb else None
    from pv import loader
    for f in tb:
        if loader.SRC in f.filename:
            best = f
    return f"{best.filename}:{best.lineno}" if best else "?"


def concretize(c, goal, ctx):
    """small concrete inputs violating the goal under ctx, from the solver"""
    from pv import terms as tm, smt
    dims = [tm.var(n, "I") for k, n in c.inputs if k == "dim"]
    for bound in (3, 5, 9):
        m = smt.sat_model(tuple(ctx) + (tm.not_(goal),) + tuple(tm.le(v, tm.num(bound)) for v in dims), 3000)
        if m is not None:
            break
    else:
        m = smt.sat_model(tuple(ctx), 3000)
    if m is None:
        return None
    out = {}
    for k, n in c.inputs:
        if k in ("dim", "real", "choose"):
            for s in ("I", "R"):
                v = smt.model_value(m, tm.var(n, s))
                if v is not None:
                    out[n] = int(v) if s == "I" else float(v)
        elif k == "tensor":
            ent = {}
            for d in m.decls():
                if d.name().split("/")[0] == n and d.arity() > 0:
                    fi = m[d]
                    try:
                        for i in range(fi.num_entries()):
                            e = fi.entry(i)
                            key = ",".join(str(e.arg_value(j)) for j in range(e.num_args()))
                            v = e.value()
                            val = float(v.as_fraction()) if hasattr(v, "as_fraction") else (v.as_long() if hasattr(v, "as_long") else None)
                            if val is not None:
                                ent[key] = val
                    except Exception:
                        pass
            if ent:
                out["@" + n] = ent
    return out


if __name__ == "__main__":
    main()
