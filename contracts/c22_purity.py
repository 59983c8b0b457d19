"""C22: computations change neither their arguments nor the model, and give the same result when repeated."""
from pv.unit import unit


def pure(c, label, call, *args):
    """call() twice: equal results, every argument as before"""
    old = [c.read(a) for a in args]
    r = call()
    c.same(call(), r, label + ", repeated")
    for i, (a, o) in enumerate(zip(args, old)):
        c.unchanged(a, o, f"{label}: argument {i} is not modified")
    return r


T = ["MuyGPyS._src.gp.tensors.{B}:_pairwise_tensor", "MuyGPyS._src.gp.tensors.{B}:_crosswise_tensor", "MuyGPyS._src.gp.tensors.{B}:_batch_features_tensor",
     "MuyGPyS._src.gp.tensors.{B}:_make_heteroscedastic_tensor", "MuyGPyS.gp.deformation.metric:MetricFn.pairwise_differences",
     "MuyGPyS.gp.deformation.metric:MetricFn.crosswise_differences"]


def points(c, one=False):
    N, M, b, n = c.dim("N"), c.dim("M"), c.dim("b"), c.dim("n")
    dims = () if one else (2,)
    X, Z = c.tensor("X", N, *dims), c.tensor("Z", M, *dims)
    return N, b, n, X, Z, c.indices("nn", b, n, upper=N), c.indices("at", b, upper=M), c.indices("bi", b, upper=N)


def deformation(c, kind, name="ls"):
    from MuyGPyS.gp.deformation import Isotropy, Anisotropy, DifferenceIsotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam, VectorParam
    a = c.real(name, lo=0.25, hi=4.0)
    met = F2 if kind.endswith("F2") else l2
    if kind.startswith("iso"):
        return Isotropy(met, length_scale=ScalarParam(a))
    if kind.startswith("diff"):
        return DifferenceIsotropy(met, length_scale=ScalarParam(a))
    return Anisotropy(met, length_scale=VectorParam(ScalarParam(a), ScalarParam(c.real(name + "1", lo=0.25, hi=4.0))))


@unit("C22", fns=T)
def pure_tensors(c):
    from MuyGPyS.gp.tensors import batch_features_tensor, make_heteroscedastic_tensor
    N, b, n, X, Z, nn, at, bi = points(c, c.boolean("one_feature"))
    d = deformation(c, c.choose("deformation", ["isol2", "isoF2", "diffF2"]))
    pure(c, "pairwise tensor", lambda: d.pairwise_tensor(X, nn), X, nn)
    pure(c, "crosswise tensor", lambda: d.crosswise_tensor(Z, X, at, nn), Z, X, at, nn)
    pure(c, "batch features", lambda: batch_features_tensor(Z, at), Z, at)
    e = c.tensor("e", N)
    pure(c, "heteroscedastic tensor", lambda: make_heteroscedastic_tensor(e, nn), e, nn)


@unit("C22", fns=["MuyGPyS.gp.muygps:MuyGPS.make_predict_tensors", "MuyGPyS.gp.muygps:MuyGPS.make_train_tensors"] + T)
def pure_model_tensors(c):
    N, b, n, X, Z, nn, at, bi = points(c)
    m, _ = model(c, c.choose("kernel", ["rbf", 0.5]))
    y = c.tensor("y", N)
    pure(c, "prediction tensors", lambda: m.make_predict_tensors(at, nn, Z, X, y), at, nn, Z, X, y)
    pure(c, "training tensors", lambda: m.make_train_tensors(bi, nn, X, y), bi, nn, X, y)


@unit("C22", fns=["MuyGPyS.gp.fast_precompute:FastPrecomputeCoefficients", "MuyGPyS._src.gp.tensors.{B}:_make_fast_predict_tensors",
                  "MuyGPyS._src.gp.tensors.{B}:_fast_nn_update"])
def pure_fast_tensors(c):
    from MuyGPyS.gp.tensors import make_fast_predict_tensors, fast_nn_update
    N, n = c.dim("N"), c.dim("n")
    X, y, nn = c.tensor("X", N, 2), c.tensor("y", N), c.indices("nn", N, n, upper=N)
    pure(c, "updated neighborhoods", lambda: fast_nn_update(nn), nn)
    pure(c, "fast prediction tensors", lambda: make_fast_predict_tensors(nn, X, y), nn, X, y)


def model(c, kind="rbf", scale=None, noise=None, name="ls"):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.hyperparameter import ScalarParam, FixedScale
    from MuyGPyS.gp.kernels import RBF, Matern
    from MuyGPyS.gp.noise import HomoscedasticNoise
    d = deformation(c, "isoF2" if kind == "rbf" else "isol2", name)
    k = RBF(deformation=d) if kind == "rbf" else Matern(smoothness=ScalarParam(kind), deformation=d)
    m = MuyGPS(kernel=k, noise=noise or HomoscedasticNoise(c.real(name + "_noise", lo=0.05, hi=2.0)), scale=scale or FixedScale())

    def state():
        r = [m.kernel.deformation.length_scale(), m.scale()]
        if kind != "rbf":
            r.append(m.kernel.smoothness())
        if noise is None:
            r.append(m.noise())
        return [c.num(x) for x in r]
    return m, state


def keeps(c, state, label):
    """returns a check that the model's hyperparameters are what they are now"""
    old = state()

    def check():
        for i, (a, o) in enumerate(zip(state(), old)):
            c.scalar(a, o, f"{label}: hyperparameter {i} is unchanged")
    return check


K = ["MuyGPyS._src.gp.kernels.{B}:_rbf_fn", "MuyGPyS._src.gp.kernels.{B}:_matern_05_fn", "MuyGPyS._src.gp.kernels.{B}:_matern_15_fn",
     "MuyGPyS._src.gp.kernels.{B}:_matern_25_fn", "MuyGPyS._src.gp.kernels.{B}:_matern_inf_fn", "MuyGPyS.gp.kernels.kernel_fn:KernelFn.set_params"]


@unit("C22", fns=K)
def pure_kernels(c):
    """distances as a model's tensors give them, or any others; call-time values do not stay"""
    kind = c.choose("kernel", ["rbf", 0.5, 1.5, 2.5, float("inf")])
    m, state = model(c, kind)
    ok = keeps(c, state, "covariance")
    b, n = c.dim("b"), c.dim("n")
    P, X = c.tensor("pair", b, n, n, lo=0.0), c.tensor("cross", b, n, lo=0.0)
    cand = c.real("cand", lo=0.25, hi=4.0)
    k = pure(c, "pairwise covariance", lambda: m.kernel(P), P)
    f = m.kernel.get_opt_fn()
    pure(c, "crosswise covariance", lambda: m.kernel(X), X)
    pure(c, "covariance of a candidate", lambda: f(P, length_scale=cand), P)
    c.same(m.kernel(P), k, "covariance after a candidate")
    ok()


@unit("C22", backends=("numpy",), fns=["MuyGPyS._src.gp.kernels.numpy:_matern_gen_fn"])
def pure_kernel_general(c):
    m, state = model(c, 0.7)
    ok = keeps(c, state, "covariance")
    b, n = c.dim("b"), c.dim("n")
    P = c.tensor("pair", b, n, n, lo=0.0)
    pure(c, "pairwise covariance", lambda: m.kernel(P), P)
    ok()


@unit("C22", fns=K[:5] + ["MuyGPyS._src.gp.kernels.shear.{B}:_shear_33_fn"])
def pure_kernel_functions(c):
    """the backend's covariance functions themselves, of arrays no deformation has copied"""
    from MuyGPyS._src.gp import kernels as f
    from MuyGPyS._src.gp.kernels import shear
    b, n = c.dim("b"), c.dim("n")
    T = c.tensor("T", b, n, n, lo=0.0) if c.boolean("pairwise") else c.tensor("T", b, n, lo=0.0)
    for name in ("_rbf_fn", "_matern_05_fn", "_matern_15_fn", "_matern_25_fn", "_matern_inf_fn"):
        pure(c, name, lambda: getattr(f, name)(T), T)
    D = c.tensor("D", b, n, n, 2)
    pure(c, "_shear_33_fn", lambda: shear._shear_33_fn(D, c.num(2.0)), D)


@unit("C22", backends=("numpy",), fns=["MuyGPyS._src.gp.kernels.numpy:_matern_gen_fn"])
def pure_general_function(c):
    from MuyGPyS._src.gp.kernels import _matern_gen_fn
    T = c.tensor("T", c.dim("b"), c.dim("n"), lo=0.0)
    if not c.symbolic and c.boolean("zero"):
        T[0, 0] = 0.0
    pure(c, "_matern_gen_fn", lambda: _matern_gen_fn(T, c.num(0.7)), T)


@unit("C22", fns=["MuyGPyS.gp.deformation.anisotropy:Anisotropy.__call__", "MuyGPyS.gp.deformation.isotropy:Isotropy.__call__"])
def pure_anisotropic(c):
    from MuyGPyS.gp.kernels import RBF, Matern
    from MuyGPyS.gp.hyperparameter import ScalarParam
    d = deformation(c, c.choose("deformation", ["aniF2", "anil2"]))
    k = RBF(deformation=d) if d.metric.__class__ and c.boolean("squared") else Matern(smoothness=ScalarParam(0.5), deformation=deformation(c, "anil2", "m"))
    b, n = c.dim("b"), c.dim("n")
    P, X = c.tensor("pair", b, n, n, 2), c.tensor("cross", b, n, 2)
    r = pure(c, "deformed differences", lambda: d(P), P)
    pure(c, "deformed differences of a candidate", lambda: d(P, length_scale1=c.num(2.0)), P)
    c.same(d(P), r, "deformed differences after a candidate")


@unit("C22", fns=["MuyGPyS._src.gp.kernels.shear.{B}:_shear_33_fn", "MuyGPyS._src.gp.noise.{B}:_shear_perturb33"])
def pure_shear(c):
    from MuyGPyS.gp.deformation import F2
    from MuyGPyS.gp.kernels.experimental import ShearKernel
    from MuyGPyS.gp.noise import ShearNoise33
    k = ShearKernel(deformation=deformation(c, "diffF2"))
    b, n = c.dim("b"), c.dim("n")
    P = c.tensor("pair", b, n, n, 2)
    K3 = c.tensor("K", b, 3, n, 3, n)
    pure(c, "shear covariance", lambda: k(P), P)
    nz = ShearNoise33(c.real("noise", lo=0.05, hi=2.0))
    pure(c, "shear noise", lambda: nz.perturb(K3), K3)


@unit("C22", fns=["MuyGPyS._src.gp.noise.{B}:_homoscedastic_perturb", "MuyGPyS._src.gp.noise.{B}:_heteroscedastic_perturb", "MuyGPyS.gp.noise.null:NullNoise"])
def pure_noise(c):
    from MuyGPyS.gp.noise import HomoscedasticNoise, HeteroscedasticNoise, NullNoise
    b, n, o = c.dim("b"), c.dim("n"), c.dim("o")
    Kin, K5, e = c.tensor("Kin", b, n, n), c.tensor("K5", b, o, n, o, n), c.tensor("e", b, n, lo=0.0)
    tau, cand = c.real("noise", lo=0), c.real("cand", lo=0)
    h, g, z = HomoscedasticNoise(tau), HeteroscedasticNoise(e), NullNoise()
    pure(c, "homoscedastic noise", lambda: h.perturb(Kin), Kin)
    pure(c, "homoscedastic noise of many outputs", lambda: h.perturb(K5), K5)
    pure(c, "candidate noise", lambda: h.perturb(Kin, noise=cand), Kin)
    c.scalar(h(), tau, "the stored noise is unchanged")
    pure(c, "heteroscedastic noise", lambda: g.perturb(Kin), Kin, e)
    pure(c, "no noise", lambda: z.perturb(Kin), Kin)


V = ["MuyGPyS.gp.mean:PosteriorMean", "MuyGPyS.gp.variance:PosteriorVariance", "MuyGPyS._src.gp.muygps.{B}:_muygps_posterior_mean",
     "MuyGPyS._src.gp.muygps.{B}:_muygps_diagonal_variance"]


@unit("C22", fns=V)
def pure_predictions(c):
    m, state = model(c, c.choose("kernel", ["rbf", 1.5]))
    ok = keeps(c, state, "prediction")
    b, n = c.dim("b"), c.dim("n")
    Kin, k = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n)
    Y = c.tensor("Y", b, n, c.dim("R")) if c.boolean("multi") else c.tensor("y", b, n)
    mean = pure(c, "posterior mean", lambda: m.posterior_mean(Kin, k, Y), Kin, k, Y)
    var = pure(c, "posterior variance", lambda: m.posterior_variance(Kin, k), Kin, k)
    cand = c.real("cand", lo=0.05, hi=2.0)
    f, g = m.get_opt_mean_fn(), m.get_opt_var_fn()
    pure(c, "mean of a candidate", lambda: f(Kin, k, Y, noise=cand), Kin, k, Y)
    pure(c, "variance of a candidate", lambda: g(Kin, k, noise=cand), Kin, k)
    c.same(m.posterior_mean(Kin, k, Y), mean, "posterior mean after a candidate")
    c.same(m.posterior_variance(Kin, k), var, "posterior variance after a candidate")
    ok()


@unit("C22", fns=V)
def pure_predictions_multi(c):
    from MuyGPyS.gp.noise import HeteroscedasticNoise, NullNoise
    b, n, o = c.dim("b"), c.dim("n"), c.dim("o", lo=2)
    m, state = model(c, 0.5)
    Kin, k, y = c.cov("Kin", (b,), (o, n)), c.tensor("Kcross", b, o, n, o), c.tensor("y", b, o, n)
    pure(c, "multi-output posterior mean", lambda: m.posterior_mean(Kin, k, y), Kin, k, y)


@unit("C22", fns=V + ["MuyGPyS._src.gp.noise.{B}:_heteroscedastic_perturb"])
def pure_predictions_heteroscedastic(c):
    from MuyGPyS.gp.noise import HeteroscedasticNoise
    b, n = c.dim("b"), c.dim("n")
    e = c.tensor("e", b, n, pos=True)
    m, _ = model(c, 0.5, noise=HeteroscedasticNoise(e))
    Kin, k, y = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n), c.tensor("y", b, n)
    pure(c, "posterior mean", lambda: m.posterior_mean(Kin, k, y), Kin, k, y, e)
    pure(c, "posterior variance", lambda: m.posterior_variance(Kin, k), Kin, k, e)
    pure(c, "fast coefficients", lambda: m.fast_coefficients(Kin, y), Kin, y, e)


@unit("C22", fns=["MuyGPyS.gp.fast_mean:FastPosteriorMean", "MuyGPyS.gp.fast_precompute:FastPrecomputeCoefficients"])
def pure_fast(c):
    m, state = model(c, 0.5)
    ok = keeps(c, state, "fast prediction")
    b, n = c.dim("b"), c.dim("n")
    Kin, k, y = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n), c.tensor("y", b, n)
    pure(c, "fast coefficients", lambda: m.fast_coefficients(Kin, y), Kin, y)
    pure(c, "fast posterior mean", lambda: m.fast_posterior_mean(k, y), k, y)
    ok()


L = ["MuyGPyS._src.optimize.loss.{B}:" + f for f in ("_mse_fn", "_lool_fn", "_lool_fn_unscaled", "_pseudo_huber_fn", "_looph_fn")]


@unit("C22", fns=L)
def pure_losses(c):
    from MuyGPyS.optimize import loss as l
    b = c.dim("b")
    dims = (b, c.dim("R")) if c.boolean("multi") else (b,)
    P, Y, S = c.tensor("P", *dims), c.tensor("T", *dims), c.tensor("V", *dims, pos=True)
    s = c.real("scale", pos=True)
    pure(c, "mean squared error", lambda: l.mse_fn(P, Y), P, Y)
    pure(c, "likelihood", lambda: l.lool_fn(P, Y, S, s), P, Y, S)
    pure(c, "unscaled likelihood", lambda: l.lool_fn_unscaled(P, Y, S), P, Y, S)
    pure(c, "pseudo-Huber", lambda: l.pseudo_huber_fn(P, Y), P, Y)
    pure(c, "variance-scaled pseudo-Huber", lambda: l.looph_fn(P, Y, S, s), P, Y, S)


@unit("C22", fns=["MuyGPyS._src.optimize.loss.{B}:_cross_entropy_fn", "MuyGPyS._src.optimize.loss.{B}:_lool_fn"])
def pure_losses_multi(c):
    from MuyGPyS.optimize import loss as l
    b, o = c.dim("b"), c.dim("o", lo=2)
    P, Y = c.tensor("P", b, o), c.tensor("T", b, o)
    pure(c, "cross entropy", lambda: l.cross_entropy_fn(P, Y), P, Y)
    C = c.cov("C", (b,), (o,))
    pure(c, "multi-output likelihood", lambda: l.lool_fn(P, Y, C, c.num(2.0)), P, Y, C)


S = ["MuyGPyS.gp.muygps:MuyGPS.optimize_scale", "MuyGPyS.gp.hyperparameter.scale:AnalyticScale.get_opt_fn", "MuyGPyS._src.optimize.scale.{B}:_analytic_scale_optim"]


@unit("C22", fns=S)
def pure_scale(c):
    """estimating the scale changes the scale alone, and not on the data already seen"""
    from MuyGPyS.gp.hyperparameter import AnalyticScale, FixedScale
    m, state = model(c, "rbf", scale=AnalyticScale() if c.boolean("analytic") else FixedScale())
    ls, tau = c.num(m.kernel.deformation.length_scale()), c.num(m.noise())
    b, n = c.dim("b"), c.dim("n")
    Kin, P, y = c.cov("Kin", (b,), (n,)), c.tensor("pair", b, n, n, lo=0.0), c.tensor("y", b, n, pos=True)
    f = m.scale.get_opt_fn(m)
    ok = keeps(c, state, "scale estimate")
    if c.boolean("estimate"):
        pure(c, "scale estimate", lambda: f(Kin, y), Kin, y)
        ok()
    else:
        p, t = c.read(P), c.read(y)
        try:
            m.optimize_scale(P, y)
        except ValueError:
            return  # a degenerate estimate
        c.scalar(m.kernel.deformation.length_scale(), ls, "the length scale is unchanged")
        c.scalar(m.noise(), tau, "the noise is unchanged")
        c.unchanged(P, p, "scale optimization does not modify the differences")
        c.unchanged(y, t, "scale optimization does not modify the responses")


@unit("C22", fns=["MuyGPyS.optimize.objective:make_loo_crossval_fn", "MuyGPyS.optimize.chassis:OptimizeFn.make_obj_fn"])
def pure_objective(c):
    """evaluating the training objective: the model, the data and the objective itself stay as they are"""
    from MuyGPyS.optimize import L_BFGS_B_optimize
    from MuyGPyS.optimize import loss as l
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels import Matern
    from MuyGPyS.gp.noise import HomoscedasticNoise
    ls, tau = c.real("ls", lo=0.25, hi=4.0), c.real("noise", lo=0.05, hi=2.0)
    m = MuyGPS(kernel=Matern(smoothness=ScalarParam(0.5), deformation=Isotropy(l2, length_scale=ScalarParam(ls, (0.25, 4.0)))),
               noise=HomoscedasticNoise(tau, (0.05, 2.0)))
    b, n = c.dim("b"), c.dim("n")
    X, P, y, t = c.tensor("cross", b, n, lo=0.0), c.tensor("pair", b, n, n, lo=0.0), c.tensor("y", b, n), c.tensor("t", b)
    f = L_BFGS_B_optimize.make_obj_fn(m, t, y, X, P, loss_fn=c.choose("loss", [l.mse_fn, l.lool_fn]))
    a, e = c.real("cand_ls", lo=0.25, hi=4.0), c.real("cand_noise", lo=0.05, hi=2.0)
    pure(c, "training objective", lambda: f(length_scale=a, noise=e), X, P, y, t)
    c.scalar(m.kernel.deformation.length_scale(), ls, "the length scale is unchanged")
    c.scalar(m.noise(), tau, "the noise is unchanged")


@unit("C22", fns=["MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.posterior_mean", "MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.posterior_variance",
                  "MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.fast_coefficients", "MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.fast_posterior_mean"])
def pure_multivariate(c):
    from contracts.c17_multivariate import make
    m, _ = make(c, 2)
    b, n = c.dim("b"), c.dim("n")
    P, X, Y = c.dists("pair", (b,), n), c.tensor("cross", b, n, lo=0.0), c.tensor("y", b, n, 2)
    old = [c.num(x.kernel.deformation.length_scale()) for x in m.models]
    pure(c, "multivariate mean", lambda: m.posterior_mean(P, X, Y), P, X, Y)
    pure(c, "multivariate variance", lambda: m.posterior_variance(P, X), P, X)
    C = pure(c, "multivariate fast coefficients", lambda: m.fast_coefficients(P, Y), P, Y)
    pure(c, "multivariate fast mean", lambda: m.fast_posterior_mean(X, C), X, C)
    for x, o in zip(m.models, old):
        c.scalar(x.kernel.deformation.length_scale(), o, "the length scale is unchanged")


@unit("C22", fns=["MuyGPyS.neighbors:NN_Wrapper.get_nns", "MuyGPyS.neighbors:NN_Wrapper.get_batch_nns"])
def pure_neighbors(c):
    """the data are neither modified by building the index nor by querying it"""
    from MuyGPyS.neighbors import NN_Wrapper
    N, M, k = c.dim("N", lo=3), c.dim("M"), c.dim("k", hi=2)
    X, Z, bi = c.tensor("X", N, 2, lib="np"), c.tensor("Z", M, 2, lib="np"), c.indices("bi", c.dim("b"), upper=N, lib="np")
    x, z, i = c.read(X), c.read(Z), c.read(bi)
    w = NN_Wrapper(X, k, nn_method=c.choose("method", ["exact", "hnsw"]))
    w.get_nns(Z)
    w.get_batch_nns(bi)
    for a, o in ((X, x), (Z, z), (bi, i)):
        c.unchanged(a, o, "the neighbor lookup does not modify its arguments")
