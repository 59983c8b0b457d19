"""C10: optimizers return a new in-bounds model and leave the input model alone.

External contract used: scipy.optimize.minimize / BayesianOptimization return some point
inside the bounds they are given (nothing else is assumed about their search)."""
from pv.unit import unit
from contracts.c09_objective import param, losses, iso, data, BOUNDS

CH = "MuyGPyS._src.optimize.chassis.numpy:"
L = [CH + "_scipy_optimize", CH + "_new_muygps", CH + "_get_opt_lists", CH + "_obj_fn_adapter",
     "MuyGPyS.optimize.chassis:OptimizeFn.__call__", "MuyGPyS.gp.muygps:MuyGPS.get_opt_params"]
B = [CH + "_bayes_opt_optimize", CH + "_bayes_get_kwargs", CH + "_new_muygps", CH + "_get_opt_lists",
     "MuyGPyS.optimize.chassis:OptimizeFn.__call__", "MuyGPyS.gp.muygps:MuyGPS.get_opt_params"]


def optimizer(which):
    from MuyGPyS import optimize as o
    return o.L_BFGS_B_optimize if which == "lbfgsb" else o.Bayes_optimize


def extra(c, which):
    return {} if which == "lbfgsb" else dict(init_points=1, n_iter=1, random_state=1)


def run(c, which, make, free, bounds, d, loss=None, kw=None, opt_kw=None):
    """make(values) -> (model, read): read(model) gives the values it holds, by name"""
    b, n, cross, pair, Y, T = d
    c.watch()
    opt = optimizer(which)
    loss = loss or losses().mse_fn
    kw = kw or {}
    stored = {k: c.real("stored_" + k, lo=bounds[k][0], hi=bounds[k][1]) for k in bounds}
    m, read = make(stored)
    names, _, _ = m.get_opt_params()
    c.true(sorted(names) == sorted(k for k in free if free[k]), "the offered hyperparameters")
    f = opt.make_obj_fn(m, T, Y, cross, pair, loss_fn=loss, loss_kwargs=kw, **(opt_kw or {}))
    arrays = {"responses": Y, "targets": T, "crosswise": cross, "pairwise": pair}
    snaps = {k: c.read(v) for k, v in arrays.items()}
    before = c.read(m.posterior_mean(m.kernel(pair), m.kernel(cross), Y)) if opt_kw is None else None
    r = opt(m, T, Y, cross, pair, loss_fn=loss, loss_kwargs=kw, **(opt_kw or {}), **extra(c, which))
    runs = c.runs(names)
    c.true(len(runs) == 1, "one optimizer run")
    run = runs[0]
    if which == "lbfgsb":
        c.true(run["method"].upper() == "L-BFGS-B", "method")
    c.true(sorted(run["start"]) == sorted(names) and sorted(run["bounds"]) == sorted(names), "optimizer arguments")
    # the optimizer searches the objective, from the current values, inside the bounds
    cand = {k: c.real("cand_" + k, lo=bounds[k][0], hi=bounds[k][1]) for k in names}
    c.scalar(run["score"](cand), f(**cand), "candidates are compared by the objective")
    for k in names:
        c.scalar(run["start"][k], stored[k], f"the search starts at the stored {k}")
        for i in (0, 1):
            c.scalar(run["bounds"][k][i], bounds[k][i], f"the search is restricted to the bounds of {k}")
    # the returned model
    c.true(r is not m, "a new model is returned")
    want = {**stored, **run["best"]}
    got, old = read(r), read(m)
    for k in bounds:
        c.scalar(got[k], want[k], f"returned {k}" + ("" if free[k] else " is unchanged"))
        c.scalar(old[k], stored[k], f"{k} of the model passed in")
    rn, _, rb = r.get_opt_params()
    mn, mv, mb = m.get_opt_params()
    c.true(list(rn) == list(names) and list(mn) == list(names), "the same hyperparameters stay optimizable")
    for i, k in enumerate(names):
        for q, who in ((rb, "returned model"), (mb, "model passed in")):
            for e in (0, 1):
                c.scalar(q[i][e], bounds[k][e], f"bounds of {k} of the {who}")
        c.true(c.and_(bounds[k][0] <= got[k], got[k] <= bounds[k][1]), f"the returned {k} is inside its bounds")
    # whole models: the returned one predicts with the best values, the old one as before
    ref, _ = make(want)
    for x, y, label in ((r, ref, "returned model"), (m, make(stored)[0], "model passed in")):
        xk = (dict(batch_features=opt_kw["batch_features"]) if opt_kw else {})
        Kx, Ky = x.kernel(pair, **xk), y.kernel(pair, **xk)
        kx, ky = x.kernel(cross, **xk), y.kernel(cross, **xk)
        e1, e2 = c.read(x.posterior_mean(Kx, kx, Y)), c.read(y.posterior_mean(Ky, ky, Y))
        c.true(c.forall(b, lambda i: c.eq(e1[i], e2[i])), f"posterior mean of the {label}")
        v1, v2 = c.read(x.posterior_variance(Kx, kx)), c.read(y.posterior_variance(Ky, ky))
        c.true(c.forall(b, lambda i: c.eq(v1[i], v2[i])), f"posterior variance of the {label}")
    for k, v in arrays.items():
        c.unchanged(v, snaps[k], k)
    # at least as good as the start whenever the optimizer's answer is
    c.assume(run["score"](run["best"]) >= run["score"](run["start"]))
    a, z = f(**{k: got[k] for k in names}), f(**{k: stored[k] for k in names})
    if c.symbolic:
        c.true(c.T(a) is c.T(run["score"](run["best"])) or c.eq(a, run["score"](run["best"])), "objective of the returned values")
        c.scalar(z, run["score"](run["start"]), "objective of the starting values")
    else:
        c.true(c.num(a) >= c.num(z) - 1e-9 * (1 + abs(c.num(z))), "the returned values are at least as good as the start")


def interval(c, name):
    lo = c.real(name + "_lo", lo=0.05, hi=1.0)
    hi = c.real(name + "_hi", lo=1.5, hi=4.0)
    return (lo, hi)


def scalar(v, bounds, free):
    from MuyGPyS.gp.hyperparameter import ScalarParam
    return ScalarParam(v, bounds) if free else ScalarParam(v)


def noise(v, bounds, free):
    from MuyGPyS.gp.noise import HomoscedasticNoise
    return HomoscedasticNoise(v, bounds) if free else HomoscedasticNoise(v)


def isotropic(c, which, loss=None, scale=None, **kw):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, F2
    from MuyGPyS.gp.kernels import RBF
    bounds = {k: interval(c, k) for k in ("length_scale", "noise")}
    free = {"length_scale": c.boolean("free_ls"), "noise": c.boolean("free_noise")}
    if not any(free.values()):
        free["noise"] = True
    d = data(c)

    def make(v):
        k = {} if scale is None else dict(scale=scale())
        m = MuyGPS(kernel=RBF(deformation=Isotropy(F2, length_scale=scalar(v["length_scale"], bounds["length_scale"], free["length_scale"]))),
                   noise=noise(v["noise"], bounds["noise"], free["noise"]), **k)
        return m, lambda m: {"length_scale": m.kernel.deformation.length_scale(), "noise": m.noise()}
    run(c, which, make, free, bounds, d, loss, kw)


@unit("C10", fns=L, backends=("numpy",))
def opt_lbfgsb(c):
    isotropic(c, "lbfgsb")


@unit("C10", fns=B, backends=("numpy",))
def opt_bayes(c):
    isotropic(c, "bayes")


@unit("C10", fns=L + B, backends=("numpy",))
def opt_analytic_scale(c):
    """the loss uses the variance and the optimized scale; the model's own scale is left alone"""
    from MuyGPyS.gp.hyperparameter import AnalyticScale
    s = c.real("sigma", pos=True)
    isotropic(c, c.choose("which", ["lbfgsb", "bayes"]), loss=losses().lool_fn, scale=lambda: AnalyticScale(val=s))


@unit("C10", fns=L + B, backends=("numpy",))
def opt_pseudo_huber(c):
    isotropic(c, c.choose("which", ["lbfgsb", "bayes"]), loss=losses().pseudo_huber_fn, boundary_scale=c.real("boundary", lo=0.5, hi=4))


def smooth(c, which):
    """two or three optimized hyperparameters, matched by name"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2
    from MuyGPyS.gp.kernels import Matern
    bounds = {k: interval(c, k) for k in ("smoothness", "length_scale", "noise")}
    free = {"smoothness": True, "length_scale": c.boolean("free_ls"), "noise": c.boolean("free_noise")}
    d = data(c)

    def make(v):
        m = MuyGPS(kernel=Matern(smoothness=scalar(v["smoothness"], bounds["smoothness"], True),
                                 deformation=Isotropy(l2, length_scale=scalar(v["length_scale"], bounds["length_scale"], free["length_scale"]))),
                   noise=noise(v["noise"], bounds["noise"], free["noise"]))
        return m, lambda m: {"smoothness": m.kernel.smoothness(), "length_scale": m.kernel.deformation.length_scale(), "noise": m.noise()}
    run(c, which, make, free, bounds, d)


@unit("C10", fns=L, backends=("numpy",))
def opt_lbfgsb_smoothness(c):
    smooth(c, "lbfgsb")


@unit("C10", fns=B, backends=("numpy",))
def opt_bayes_smoothness(c):
    smooth(c, "bayes")


def anis(c, which):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Anisotropy, F2
    from MuyGPyS.gp.hyperparameter import VectorParam
    from MuyGPyS.gp.kernels import RBF
    bounds = {k: interval(c, k) for k in ("length_scale0", "length_scale1", "noise")}
    free = {"length_scale0": c.boolean("free_0"), "length_scale1": c.boolean("free_1"), "noise": c.boolean("free_noise")}
    if not any(free.values()):
        free["length_scale1"] = True
    b, n = c.dim("b"), c.dim("n")
    d = (b, n, c.tensor("cross", b, n, 2), c.tensor("pair", b, n, n, 2), c.tensor("y", b, n), c.tensor("t", b))

    def make(v):
        p = [scalar(v[k], bounds[k], free[k]) for k in ("length_scale0", "length_scale1")]
        m = MuyGPS(kernel=RBF(deformation=Anisotropy(F2, VectorParam(*p))), noise=noise(v["noise"], bounds["noise"], free["noise"]))

        def read(m):
            ls = c.read(m.kernel.deformation.length_scale())
            return {"length_scale0": ls[0], "length_scale1": ls[1], "noise": m.noise()}
        return m, read
    run(c, which, make, free, bounds, d)


@unit("C10", fns=L, backends=("numpy",))
def opt_lbfgsb_anisotropic(c):
    anis(c, "lbfgsb")


@unit("C10", fns=B, backends=("numpy",))
def opt_bayes_anisotropic(c):
    anis(c, "bayes")


MB = "MuyGPyS.optimize.experimental.chassis:optimize_from_tensors_mini_batch"


def mini(c, make, read, bounds, free, n, epochs, aniso, keep=False, previous=False, analytic=False, **kw):
    """make(values) -> model, read(model) -> values"""
    from MuyGPyS.optimize.experimental.chassis import optimize_from_tensors_mini_batch
    c.watch()
    N, k = c.dim("N", lo=n + 1 if not c.symbolic else 2), c.dim("batch")
    c.assume(n + 1 <= N)
    X, Y = c.tensor("X", N, 2), c.tensor("Y", N)
    x, y = c.read(X), c.read(Y)
    stored = {q: c.real("stored_" + q, lo=bounds[q][0], hi=bounds[q][1]) for q in bounds}
    m = make(stored)
    names = [q for q in bounds if free[q]]
    made = []
    build = m.make_train_tensors

    def recorded(*a, **kw):
        r = build(*a, **kw)
        made.append((a, r))
        return r
    m.make_train_tensors = recorded
    loss = losses().mse_fn
    effort = kw.get("effort", dict(init_points=2, n_iter=1))
    try:
        r, lookup, _, probed, steps = optimize_from_tensors_mini_batch(
            m, X, Y, n, k, N, num_epochs=epochs, keep_state=keep, probe_previous=previous, loss_fn=loss, random_state=1, **effort)
    except ValueError as e:
        if "positive" not in str(e):
            raise
        c.assume(c.implies(analytic, False))  # the estimate of the scale is positive unless all responses are zero
        raise
    effort = {**dict(init_points=5, n_iter=20), **effort}
    runs = c.runs(names)
    c.true(len(runs) == epochs and len(made) == epochs, "one search per epoch, over one batch")
    bests = []
    for e, (run, (args, tensors)) in enumerate(zip(runs, made)):
        at, nn = args[0], args[1]
        c.true(args[2] is X and args[3] is Y, "batches of the training data")
        cross, pair, T, T2 = tensors
        size = k if not keep and k < N else N
        c.shape(at, [size], "batch size")
        c.shape(nn, [size, n], "neighborhoods of the batch")
        i_, n_ = c.read(at), c.read(nn)
        c.true(c.forall(size, lambda i: c.and_(0 <= i_[i], i_[i] < N)), "batch elements are training points")
        c.true(c.forall((size, size), lambda i, j: c.or_(c.eq(i, j), c.not_(c.eq(i_[i], i_[j])))), "batch elements are distinct")
        c.true(c.forall((size, n), lambda i, p: c.not_(c.eq(n_[i, p], i_[i]))), "no batch element is its own neighbor")
        cand = {q: c.real(f"cand{e}_" + q, lo=bounds[q][0], hi=bounds[q][1]) for q in names}
        ref = make({**stored, **cand})
        want = 0 - loss(ref.posterior_mean(ref.kernel(pair), ref.kernel(cross), T2), T)
        c.scalar(run["score"](cand), want, f"epoch {e}: candidates are compared by the loss over the batch")
        c.true(sorted(run["bounds"]) == sorted(names), "searched hyperparameters")
        for q in names:
            for s in (0, 1):
                c.scalar(run["bounds"][q][s], bounds[q][s], f"epoch {e}: the search is restricted to the bounds of {q}")
        c.true(all(int(run["settings"].get(q, d)) == effort[q] for q, d in (("init_points", 5), ("n_iter", 25))), "search effort")
        start = [stored] + bests if previous else [stored] if e == 0 else []
        c.true(len(run["probes"]) == len(start), f"epoch {e}: number of known points tried")
        for p, w in zip(run["probes"], start):
            for q in names:
                c.scalar(p[q], w[q], f"epoch {e}: known points are tried")
        scale = [1.0, 1.0] if not aniso or e == 0 else [{**stored, **bests[-1]}[q] for q in ("length_scale0", "length_scale1")]
        if c.symbolic:
            from pv import shims
            fits = [v["obj"] for v in shims.EVENTS if v["kind"] == "nn_fit"]
            qs = [v for v in shims.EVENTS if v["kind"] == "nn_query"]
            z = c.read(qs[e]["obj"].Xcopy)
            c.true(c.forall(N, lambda i: c.and_(*[c.eq(z[i, s], x[i, s] / scale[s]) for s in (0, 1)])), "neighbors by the learned length scales")
        else:
            d = lambda i, j: sum(((x[i, s] - x[j, s]) / c.num(scale[s])) ** 2 for s in (0, 1))
            for i in range(size):
                far = max(d(i_[i], n_[i, p]) for p in range(n))
                c.true(all(d(i_[i], j) >= far - 1e-9 for j in range(N) if j != i_[i] and j not in [n_[i, p] for p in range(n)]),
                       "neighbors by the learned length scales")
        bests.append(run["best"])
    c.scalar(probed, epochs * effort["init_points"] + sum(len(q["probes"]) for q in runs), "number of tried points")
    c.scalar(steps, epochs * effort["n_iter"], "number of search steps")
    c.true(r is not m, "a new model is returned")
    best = {**stored, **bests[-1]}
    got, old = read(r), read(m)
    for q in bounds:
        c.scalar(got[q], best[q], f"returned {q}" + ("" if free[q] else " is unchanged"))
        c.scalar(old[q], stored[q], f"{q} of the model passed in")
    # the scale is estimated from the last batch by the returned model
    _, (cross, pair, T, T2) = made[-1]
    ref = make(best)
    c.scalar(r.scale(), ref.scale.get_opt_fn(ref)(ref.kernel(pair), T2), "scale of the returned model")
    c.scalar(m.scale(), make(stored).scale(), "scale of the model passed in")
    c.same(lookup.train, X, "the returned lookup holds the training features")
    c.unchanged(X, x, "training features")
    c.unchanged(Y, y, "training responses")


@unit("C10", fns=[MB] + B, backends=("numpy",), paths=300)
def opt_mini_batch(c):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, F2
    from MuyGPyS.gp.hyperparameter import AnalyticScale, FixedScale
    from MuyGPyS.gp.kernels import RBF
    bounds = {q: interval(c, q) for q in ("length_scale", "noise")}
    epochs, keep, previous, analytic = c.choose("how", [(1, False, False, True), (2, False, False, False), (2, False, True, False),
                                                        (2, True, False, False), (2, True, True, False)])
    free = dict(length_scale=True, noise=not analytic and c.boolean("free_noise"))
    S = AnalyticScale if analytic else FixedScale
    make = lambda v: MuyGPS(kernel=RBF(deformation=Isotropy(F2, length_scale=scalar(v["length_scale"], bounds["length_scale"], True))),
                            noise=noise(v["noise"], bounds["noise"], free["noise"]), scale=S())
    read = lambda m: {"length_scale": m.kernel.deformation.length_scale(), "noise": m.noise()}
    mini(c, make, read, bounds, free, c.dim("n"), epochs, False, keep, previous, analytic)


@unit("C10", fns=[MB] + B, backends=("numpy",), paths=300)
def opt_mini_batch_anisotropic(c):
    """neighborhoods follow the learned length scales"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Anisotropy, F2
    from MuyGPyS.gp.hyperparameter import VectorParam
    from MuyGPyS.gp.kernels import RBF
    bounds = {q: interval(c, q) for q in ("length_scale0", "length_scale1", "noise")}
    free = dict(length_scale0=c.boolean("free_0"), length_scale1=True, noise=False)
    ls = ("length_scale0", "length_scale1")
    make = lambda v: MuyGPS(kernel=RBF(deformation=Anisotropy(F2, VectorParam(*[scalar(v[q], bounds[q], free[q]) for q in ls]))),
                            noise=noise(v["noise"], bounds["noise"], False))

    def read(m):
        v = c.read(m.kernel.deformation.length_scale())
        return {ls[0]: v[0], ls[1]: v[1], "noise": m.noise()}
    mini(c, make, read, bounds, free, c.dim("n"), c.choose("epochs", [2, 3]), True, c.boolean("keep_state"), effort=dict(init_points=1, n_iter=0) if not c.symbolic else {})


@unit("C10", fns=L + B, backends=("numpy",))
def opt_overshoot(c):
    """should an optimizer's best value lie outside a bound (by rounding, or otherwise), the model holds the bound"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2
    from MuyGPyS.gp.kernels import Matern
    c.watch(overshoot=True)
    which = c.choose("which", ["lbfgsb", "bayes"])
    bounds = {k: interval(c, k) for k in ("length_scale", "noise")}
    b, n, cross, pair, Y, T = data(c)
    stored = {k: c.real("stored_" + k, lo=bounds[k][0], hi=bounds[k][1]) for k in bounds}
    m = MuyGPS(kernel=Matern(smoothness=scalar(c.num(0.5), None, False),
                             deformation=Isotropy(l2, length_scale=scalar(stored["length_scale"], bounds["length_scale"], True))),
               noise=noise(stored["noise"], bounds["noise"], True))
    r = optimizer(which)(m, T, Y, cross, pair, loss_fn=losses().mse_fn, **extra(c, which))
    best = c.runs([k for k in ("length_scale", "noise")])[0]["best"]
    for k, v, old in (("length_scale", r.kernel.deformation.length_scale(), m.kernel.deformation.length_scale()), ("noise", r.noise(), m.noise())):
        lo, hi = bounds[k]
        c.scalar(v, c.ite(best[k] < lo, lo, c.ite(best[k] > hi, hi, best[k])), f"returned {k}")
        c.scalar(old, stored[k], f"{k} of the model passed in")
    c.scalar(r.kernel.smoothness(), 0.5, "returned smoothness is unchanged")
