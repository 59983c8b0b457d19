"""C02: posterior variance."""
from pv.unit import unit
from contracts.common import matern_model, noisy, noisy2, krige_quad, quad2

FN = ["MuyGPyS._src.gp.muygps.{B}:_muygps_diagonal_variance", "MuyGPyS._src.gp.noise.{B}:_homoscedastic_perturb",
      "MuyGPyS.gp.variance:PosteriorVariance", "MuyGPyS.gp.hyperparameter.scale:ScaleFn.scale_fn",
      "MuyGPyS.gp.muygps:MuyGPS.posterior_variance"]


@unit("C02", fns=FN)
def var_single(c):
    s = c.real("scale", pos=True)
    kind = c.choose("kernel", ["l2", "F2"])
    m, tau = matern_model(c, scale=s, metric=kind)
    b, n = c.dim("b"), c.dim("n")
    Kin, Kcross = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n)
    K, k = c.read(Kin), c.read(Kcross)
    r = m.posterior_variance(Kin, Kcross)
    c.arr(r, [b], lambda i: s * (1 - krige_quad(c, noisy(c, K, tau, i), n, lambda p: k[i, p], lambda q: k[i, q])),
          "posterior variance")


@unit("C02", fns=FN)
def var_default_scale(c):
    m, tau = matern_model(c)
    b, n = c.dim("b"), c.dim("n")
    Kin, Kcross = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n)
    K, k = c.read(Kin), c.read(Kcross)
    r = m.posterior_variance(Kin, Kcross)
    c.arr(r, [b], lambda i: 1 - krige_quad(c, noisy(c, K, tau, i), n, lambda p: k[i, p], lambda q: k[i, q]),
          "posterior variance with unit scale")


def functor(c, Kout, tau, s):
    from MuyGPyS.gp.variance import PosteriorVariance
    from MuyGPyS.gp.noise import HomoscedasticNoise
    from MuyGPyS.gp.hyperparameter import FixedScale
    return PosteriorVariance(Kout, HomoscedasticNoise(tau), FixedScale(val=s))


@unit("C02", fns=FN)
def var_multioutput(c):
    b, o, n, e = c.dim("b"), c.dim("o"), c.dim("n"), c.dim("e")
    s, tau = c.real("scale", pos=True), c.real("noise", pos=True)
    Kout = c.tensor("Kout", e, e)
    v = functor(c, Kout, tau, s)
    Kin, Kcross = c.cov("Kin", (b,), (o, n)), c.tensor("Kcross", b, o, n, e)
    K, k, P = c.read(Kin), c.read(Kcross), c.read(Kout)
    r = v(Kin, Kcross)
    c.arr(r, [b, e, e], lambda i, s1, s2: s * (P[s1, s2] - quad2(
        c, noisy2(c, K, tau, i), o, n, lambda a, p: k[i, a, p, s1], lambda d, q: k[i, d, q, s2])), "posterior covariance block")


@unit("C02", fns=FN)
def var_prior(c):
    """any prior variance, single output"""
    b, n = c.dim("b"), c.dim("n")
    s, tau, P = c.real("scale", pos=True), c.real("noise", pos=True), c.real("prior", pos=True)
    v = functor(c, P, tau, s)
    Kin, Kcross = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n)
    K, k = c.read(Kin), c.read(Kcross)
    r = v(Kin, Kcross)
    c.arr(r, [b], lambda i: s * (P - krige_quad(c, noisy(c, K, tau, i), n, lambda p: k[i, p], lambda q: k[i, q])),
          "posterior variance")


@unit("C02", fns=FN)
def var_opt_fn(c):
    """the unscaled variance handed to optimization, candidate noise and candidate scale"""
    s = c.real("scale", pos=True)
    m, tau = matern_model(c, scale=s)
    cand = c.real("cand", pos=True)
    b, n = c.dim("b"), c.dim("n")
    Kin, Kcross = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n)
    K, k = c.read(Kin), c.read(Kcross)
    f = m.get_opt_var_fn()
    spec = lambda t: lambda i: 1 - krige_quad(c, noisy(c, K, t, i), n, lambda p: k[i, p], lambda q: k[i, q])
    c.arr(f(Kin, Kcross, noise=cand), [b], spec(cand), "unscaled variance with the candidate noise")
    c.arr(f(Kin, Kcross), [b], spec(tau), "unscaled variance with the stored noise")


@unit("C02", fns=["MuyGPyS.gp.noise.heteroscedastic:HeteroscedasticNoise.perturb_fn"] + FN)
def var_heteroscedastic(c):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2
    from MuyGPyS.gp.hyperparameter import ScalarParam, FixedScale
    from MuyGPyS.gp.kernels import Matern
    from MuyGPyS.gp.noise import HeteroscedasticNoise
    b, n = c.dim("b"), c.dim("n")
    s = c.real("scale", pos=True)
    eps = c.tensor("eps", b, n, pos=True)
    E = c.read(eps)
    m = MuyGPS(kernel=Matern(deformation=Isotropy(l2, length_scale=ScalarParam(1.0))), noise=HeteroscedasticNoise(eps),
               scale=FixedScale(val=s))
    Kin, Kcross = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n)
    K, k = c.read(Kin), c.read(Kcross)
    r = m.posterior_variance(Kin, Kcross)
    c.arr(r, [b], lambda i: s * (1 - krige_quad(c, lambda p, q: K[i, p, q] + c.ite(c.eq(p, q), E[i, p], 0.0), n,
                                                lambda p: k[i, p], lambda q: k[i, q])), "posterior variance")


@unit("C02", fns=FN)
def var_after_training(c):
    """the newest scale is the one applied, once"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2
    from MuyGPyS.gp.hyperparameter import ScalarParam, AnalyticScale
    from MuyGPyS.gp.kernels import Matern
    from MuyGPyS.gp.noise import HomoscedasticNoise
    tau, s = c.real("noise", pos=True), c.real("scale", pos=True)
    m = MuyGPS(kernel=Matern(smoothness=ScalarParam(0.5), deformation=Isotropy(l2, length_scale=ScalarParam(1.0))),
               noise=HomoscedasticNoise(tau), scale=AnalyticScale())
    m.scale._set(s)
    m._make()
    b, n = c.dim("b"), c.dim("n")
    Kin, Kcross = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n)
    K, k = c.read(Kin), c.read(Kcross)
    r = m.posterior_variance(Kin, Kcross)
    c.arr(r, [b], lambda i: s * (1 - krige_quad(c, noisy(c, K, tau, i), n, lambda p: k[i, p], lambda q: k[i, q])),
          "posterior variance")
