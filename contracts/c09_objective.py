"""C09: the training objective is minus the loss of the model holding the candidate values."""
from pv.unit import unit

O = ["MuyGPyS.optimize.objective:make_loo_crossval_fn", "MuyGPyS.optimize.objective:make_kernels_fn",
     "MuyGPyS.optimize.chassis:OptimizeFn.make_obj_fn", "MuyGPyS.gp.muygps:MuyGPS.get_opt_mean_fn",
     "MuyGPyS.gp.muygps:MuyGPS.get_opt_var_fn", "MuyGPyS.gp.mean:PosteriorMean.get_opt_fn",
     "MuyGPyS.gp.variance:PosteriorVariance.get_opt_fn", "MuyGPyS.gp.noise.homoscedastic:HomoscedasticNoise.perturb_fn"]
RAW = O + ["MuyGPyS.optimize.loss:make_raw_predict_and_loss_fn"]
VAR = O + ["MuyGPyS.optimize.loss:make_var_predict_and_loss_fn"]
BOUNDS = (0.25, 4.0)


def losses():
    from MuyGPyS.optimize import loss as l
    return l


def param(v, free):
    from MuyGPyS.gp.hyperparameter import ScalarParam
    return ScalarParam(v, BOUNDS) if free else ScalarParam(v)


def value(c, name, free):
    return c.real(name, lo=BOUNDS[0], hi=BOUNDS[1])


def objective(m, loss, Y, T, cross, pair, **k):
    from MuyGPyS.optimize import L_BFGS_B_optimize, Bayes_optimize
    return L_BFGS_B_optimize.make_obj_fn(m, T, Y, cross, pair, loss_fn=loss, **k)


def judged(m, one, loss, Y, T, cross, pair, **kw):
    """minus the loss of the predictions of model m, through its public interface;
    one: the same model with unit scale (its variances are unscaled)"""
    Kin, Kcross = m.kernel(pair), m.kernel(cross)
    mean = m.posterior_mean(Kin, Kcross, Y)
    l = losses()
    if loss in (l.lool_fn, l.looph_fn):
        return 0 - loss(mean, T, one.posterior_variance(Kin, Kcross), m.scale.get_opt_fn(m)(Kin, Y), **kw)
    if loss is l.lool_fn_unscaled:
        return 0 - loss(mean, T, one.posterior_variance(Kin, Kcross), **kw)
    return 0 - loss(mean, T, **kw)


def iso(kind, ls, lsfree, tau, taufree, scale=None):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels import RBF, Matern
    from MuyGPyS.gp.noise import HomoscedasticNoise
    d = Isotropy(metric=F2 if kind == "rbf" else l2, length_scale=param(ls, lsfree))
    k = RBF(deformation=d) if kind == "rbf" else Matern(smoothness=ScalarParam(kind), deformation=d)
    kw = {} if scale is None else dict(scale=scale)
    return MuyGPS(kernel=k, noise=HomoscedasticNoise(tau, BOUNDS) if taufree else HomoscedasticNoise(tau), **kw)


def data(c, R=None):
    b, n = c.dim("b"), c.dim("n")
    cross, pair = c.tensor("cross", b, n, lo=0.0), c.tensor("pair", b, n, n, lo=0.0)
    if R is None:
        return b, n, cross, pair, c.tensor("y", b, n), c.tensor("t", b)
    return b, n, cross, pair, c.tensor("y", b, n, R), c.tensor("t", b, R)


def cand(c, names):
    return {k: c.real("cand_" + k, lo=BOUNDS[0], hi=BOUNDS[1]) for k in names}


def run(c, make, loss, d, free, stored, label, **kw):
    """make(values, free, **scale) builds the model; free: which names are optimized"""
    from MuyGPyS.gp.hyperparameter import FixedScale
    b, n, cross, pair, Y, T = d
    m = make(stored, free)
    snap = {k: v for k, v in stored.items()}
    f = objective(m, loss, Y, T, cross, pair, loss_kwargs=kw)
    names = [k for k in stored if free[k]]
    cv = cand(c, names)
    unit = dict(scale=lambda: FixedScale())
    other = make({**stored, **cv}, free)
    c.scalar(f(**cv), judged(other, make({**stored, **cv}, free, **unit), loss, Y, T, cross, pair, **kw), label)
    # the stored values again, through the same objective
    c.scalar(f(**{k: stored[k] for k in names}), judged(m, make(stored, free, **unit), loss, Y, T, cross, pair, **kw), label + " at the stored values")
    got, _, _ = m.get_opt_params()
    c.true(sorted(got) == sorted(names), label + ": the optimized names")


def iso_run(c, kind, loss, scale=None, R=None, **kw):
    free = {"length_scale": c.boolean("free_ls"), "noise": c.boolean("free_noise")}
    st = {k: c.real("stored_" + k, lo=BOUNDS[0], hi=BOUNDS[1]) for k in free}
    mk = lambda v, f, scale=scale: iso(kind, v["length_scale"], f["length_scale"], v["noise"], f["noise"], scale() if scale else None)
    run(c, mk, loss, data(c, R), free, st, "objective", **kw)


@unit("C09", fns=RAW)
def obj_mse(c):
    iso_run(c, c.choose("kernel", ["rbf", 0.5, 1.5]), losses().mse_fn)


@unit("C09", fns=RAW)
def obj_mse_multiresponse(c):
    iso_run(c, c.choose("kernel", ["rbf", 2.5]), losses().mse_fn, R=c.dim("R"))


@unit("C09", fns=RAW)
def obj_pseudo_huber(c):
    if c.boolean("default"):
        iso_run(c, 0.5, losses().pseudo_huber_fn)
    else:
        iso_run(c, "rbf", losses().pseudo_huber_fn, boundary_scale=c.real("boundary", lo=0.5, hi=4))


@unit("C09", fns=RAW)
def obj_cross_entropy(c):
    iso_run(c, "rbf", losses().cross_entropy_fn, R=c.dim("R"))


def scales(c):
    from MuyGPyS.gp import hyperparameter as h
    k = c.choose("scale", ["fixed", "analytic"])
    s = c.real("sigma", pos=True)
    return {"fixed": lambda: h.FixedScale(val=s), "analytic": lambda: h.AnalyticScale(val=s)}[k]


@unit("C09", fns=VAR)
def obj_lool(c):
    iso_run(c, "rbf", losses().lool_fn, scale=scales(c))


@unit("C09", fns=VAR)
def obj_lool_matern(c):
    iso_run(c, c.choose("kernel", [0.5, 1.5]), losses().lool_fn, scale=scales(c))


@unit("C09", fns=VAR)
def obj_looph(c):
    kw = {} if c.boolean("default") else dict(boundary_scale=c.real("boundary", lo=0.5, hi=4))
    iso_run(c, "rbf", losses().looph_fn, scale=scales(c), **kw)


@unit("C09", fns=VAR + ["MuyGPyS.optimize.loss:make_unscaled_var_predict_and_loss_fn"])
def obj_lool_unscaled(c):
    iso_run(c, "rbf", losses().lool_fn_unscaled, scale=scales(c))


@unit("C09", fns=RAW + VAR, backends=("numpy",))
def obj_smoothness(c):
    """training the smoothness (general Matern form)"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2
    from MuyGPyS.gp.kernels import Matern
    from MuyGPyS.gp.noise import HomoscedasticNoise
    free = {"smoothness": True, "length_scale": c.boolean("free_ls"), "noise": c.boolean("free_noise")}
    st = {k: c.real("stored_" + k, lo=BOUNDS[0], hi=BOUNDS[1]) for k in free}
    mk = lambda v, f, scale=None: MuyGPS(
        kernel=Matern(smoothness=param(v["smoothness"], True), deformation=Isotropy(l2, length_scale=param(v["length_scale"], f["length_scale"]))),
        noise=HomoscedasticNoise(v["noise"], BOUNDS) if f["noise"] else HomoscedasticNoise(v["noise"]))
    l = losses()
    loss = c.choose("loss", [l.mse_fn, l.lool_fn])
    run(c, mk, loss, data(c), free, st, "objective")


@unit("C09", fns=RAW + VAR + ["MuyGPyS.gp.hyperparameter.vector:NamedVectorParameter.apply_embedding_fn"], paths=200)
def obj_anisotropic(c):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Anisotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import VectorParam, ScalarParam
    from MuyGPyS.gp.kernels import Matern, RBF
    from MuyGPyS.gp.noise import HomoscedasticNoise
    free = {"length_scale0": c.boolean("free_0"), "length_scale1": c.boolean("free_1"), "noise": c.boolean("free_noise")}
    st = {k: c.real("stored_" + k, lo=BOUNDS[0], hi=BOUNDS[1]) for k in free}
    rbf = c.boolean("rbf")

    def mk(v, f, scale=None):
        d = Anisotropy(F2 if rbf else l2, VectorParam(param(v["length_scale0"], f["length_scale0"]),
                                                      param(v["length_scale1"], f["length_scale1"])))
        return MuyGPS(kernel=RBF(deformation=d) if rbf else Matern(smoothness=ScalarParam(0.5), deformation=d),
                      noise=HomoscedasticNoise(v["noise"], BOUNDS) if f["noise"] else HomoscedasticNoise(v["noise"]))
    b, n = c.dim("b"), c.dim("n")
    d = (b, n, c.tensor("cross", b, n, 2), c.tensor("pair", b, n, n, 2), c.tensor("y", b, n), c.tensor("t", b))
    l = losses()
    run(c, mk, c.choose("loss", [l.mse_fn, l.lool_fn]), d, free, st, "objective")


@unit("C09", fns=VAR + ["MuyGPyS.gp.noise.heteroscedastic:HeteroscedasticNoise.perturb_fn"])
def obj_heteroscedastic(c):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, F2
    from MuyGPyS.gp.hyperparameter import AnalyticScale
    from MuyGPyS.gp.kernels import RBF
    from MuyGPyS.gp.noise import HeteroscedasticNoise
    d = data(c)
    eps = c.tensor("eps", d[0], d[1], pos=True)
    free = {"length_scale": True}
    st = {"length_scale": c.real("stored", lo=BOUNDS[0], hi=BOUNDS[1])}
    mk = lambda v, f, scale=AnalyticScale: MuyGPS(kernel=RBF(deformation=Isotropy(F2, length_scale=param(v["length_scale"], True))),
                             noise=HeteroscedasticNoise(eps), scale=scale())
    l = losses()
    run(c, mk, c.choose("loss", [l.mse_fn, l.lool_fn]), d, free, st, "objective")


@unit("C09", fns=VAR)
def obj_no_noise(c):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, F2
    from MuyGPyS.gp.hyperparameter import AnalyticScale
    from MuyGPyS.gp.kernels import RBF
    from MuyGPyS.gp.noise import NullNoise
    free = {"length_scale": True}
    st = {"length_scale": c.real("stored", lo=BOUNDS[0], hi=BOUNDS[1])}
    mk = lambda v, f, scale=AnalyticScale: MuyGPS(kernel=RBF(deformation=Isotropy(F2, length_scale=param(v["length_scale"], True))),
                             noise=NullNoise(), scale=scale())
    b, n = c.dim("b"), c.dim("n")
    # differences of distinct points, so that the noiseless covariance is nonsingular
    if c.symbolic:
        cross, pair = c.tensor("cross", b, n, lo=0.0), c.tensor("pair", b, n, n, lo=0.0)
    else:
        import numpy as np
        x, z = c.rng.uniform(0, 3, size=(b, n)), c.rng.uniform(0, 3, size=b)
        pair = c._out((x[:, :, None] - x[:, None, :]) ** 2 + 2.0 * (1 - np.eye(n)), None)
        cross = c._out((x - z[:, None]) ** 2, None)
    d = (b, n, cross, pair, c.tensor("y", b, n), c.tensor("t", b))
    l = losses()
    run(c, mk, c.choose("loss", [l.mse_fn, l.lool_fn]), d, free, st, "objective")


def crossval(c, loss, noise, scale_fn, pair, cross, Y, T, **k):
    """objective over given covariances (an arbitrary kernel)"""
    from MuyGPyS.gp.mean import PosteriorMean
    from MuyGPyS.optimize.objective import make_loo_crossval_fn
    mean = PosteriorMean(noise)
    return mean, lambda var_fn: make_loo_crossval_fn(
        loss, lambda x, **kw: x, mean.get_opt_fn(), var_fn, scale_fn, pair, cross, Y, T, **k)


@unit("C09", fns=RAW)
def obj_mask_mean(c):
    """only the masked responses enter the loss, whatever the selection"""
    from MuyGPyS.gp.noise import HomoscedasticNoise
    b, n, R, m = c.dim("b"), c.dim("n"), c.dim("R"), c.dim("m")
    tau = c.real("noise", pos=True)
    Kin, Kc, Y = c.cov("Kin", (b,), (n,)), c.tensor("Kc", b, n), c.tensor("y", b, n, R)
    T, mask = c.tensor("t", b, m), c.indices("mask", m, upper=R)
    mean, mk = crossval(c, losses().mse_fn, HomoscedasticNoise(tau), None, Kin, Kc, Y, T, target_mask=mask)
    t, M = c.read(T), c.read(mask)
    p = c.read(mean(Kin, Kc, Y))
    want = 0 - c.sum((b, m), lambda i, j: (p[i, M[j]] - t[i, j]) * (p[i, M[j]] - t[i, j])) / (b * m)
    c.scalar(mk(None)(), want, "masked objective")


@unit("C09", fns=VAR)
def obj_mask_var(c):
    """the covariance block of exactly the masked outputs enters the loss"""
    from MuyGPyS.gp.hyperparameter import FixedScale
    from MuyGPyS.gp.noise import HomoscedasticNoise
    from MuyGPyS.gp.variance import PosteriorVariance
    b, o, n, m = c.dim("b"), c.dim("o", lo=2), c.dim("n"), c.dim("m")
    c.assume(m <= o)
    tau, s = c.real("noise", pos=True), c.real("scale", pos=True)
    Kin, Kc = c.cov("Kin", (b,), (o, n)), c.tensor("Kc", b, o, n, o)
    Y, T = c.tensor("y", b, o, n), c.tensor("t", b, m)
    mask = c.indices("mask", m, upper=o, distinct=True)
    V = c.cov("V", (b,), (o,))
    noise = HomoscedasticNoise(tau)
    mean, mk = crossval(c, losses().lool_fn, noise, lambda *a, **k: s, Kin, Kc, Y, T, target_mask=mask)
    t, M, v = c.read(T), c.read(mask), c.read(V)
    p = c.read(mean(Kin, Kc, Y))
    blk = lambda i: lambda x, y: s * v[i, M[x], M[y]]
    want = 0 - c.sum(b, lambda i: c.sum((m, m), lambda x, y: (p[i, M[x]] - t[i, x]) * c.inv(m, blk(i))(x, y) * (
        p[i, M[y]] - t[i, y])) + c.logdet(m, blk(i)))
    c.scalar(mk(lambda *a, **k: V)(), want, "masked objective")
