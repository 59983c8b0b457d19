"""C01: posterior mean."""
from pv.unit import unit
from contracts.common import model, noisy, noisy2, krige_quad, quad2, deq

FN = ["MuyGPyS._src.gp.muygps.{B}:_muygps_posterior_mean", "MuyGPyS._src.gp.muygps.{B}:_find_matching_ndim",
      "MuyGPyS._src.gp.noise.{B}:_homoscedastic_perturb", "MuyGPyS.gp.mean:PosteriorMean",
      "MuyGPyS.gp.muygps:MuyGPS.posterior_mean"]


@unit("C01", fns=FN)
def mean_single(c):
    m, tau = model(c)
    b, n = c.dim("b"), c.dim("n")
    Kin, Kcross, y = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n), c.tensor("y", b, n)
    K, k, Y = c.read(Kin), c.read(Kcross), c.read(y)
    r = m.posterior_mean(Kin, Kcross, y)
    c.arr(r, [b], lambda i: krige_quad(c, noisy(c, K, tau, i), n, lambda p: k[i, p], lambda q: Y[i, q]), "posterior mean")


@unit("C01", fns=FN)
def mean_multiresponse(c):
    m, tau = model(c)
    b, n, R = c.dim("b"), c.dim("n"), c.dim("R")
    Kin, Kcross, y = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n), c.tensor("y", b, n, R)
    K, k, Y = c.read(Kin), c.read(Kcross), c.read(y)
    r = m.posterior_mean(Kin, Kcross, y)
    c.arr(r, [b, R], lambda i, s: krige_quad(c, noisy(c, K, tau, i), n, lambda p: k[i, p], lambda q: Y[i, q, s]),
          "posterior mean")


@unit("C01", fns=FN)
def mean_multioutput(c):
    m, tau = model(c)
    b, o, n, e = c.dim("b"), c.dim("o"), c.dim("n"), c.dim("e")
    Kin, Kcross, y = c.cov("Kin", (b,), (o, n)), c.tensor("Kcross", b, o, n, e), c.tensor("y", b, o, n)
    K, k, Y = c.read(Kin), c.read(Kcross), c.read(y)
    r = m.posterior_mean(Kin, Kcross, y)
    c.arr(r, [b, e], lambda i, s: quad2(c, noisy2(c, K, tau, i), o, n, lambda a, p: k[i, a, p, s],
                                        lambda d, q: Y[i, d, q]), "posterior mean")


@unit("C01", fns=FN)
def mean_multioutput_multiresponse(c):
    m, tau = model(c)
    b, o, n, e, R = c.dim("b"), c.dim("o"), c.dim("n"), c.dim("e"), c.dim("R")
    Kin, Kcross, y = c.cov("Kin", (b,), (o, n)), c.tensor("Kcross", b, o, n, e), c.tensor("y", b, o, n, R)
    K, k, Y = c.read(Kin), c.read(Kcross), c.read(y)
    r = m.posterior_mean(Kin, Kcross, y)
    c.arr(r, [b, e, R], lambda i, s, t: quad2(c, noisy2(c, K, tau, i), o, n, lambda a, p: k[i, a, p, s],
                                              lambda d, q: Y[i, d, q, t]), "posterior mean")


@unit("C01", fns=FN)
def mean_crosscov_vector(c):
    """cross-covariance with explicit single-output trailing axis"""
    m, tau = model(c)
    b, n, e = c.dim("b"), c.dim("n"), c.dim("e")
    Kin, Kcross, y = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n, e), c.tensor("y", b, n)
    K, k, Y = c.read(Kin), c.read(Kcross), c.read(y)
    r = m.posterior_mean(Kin, Kcross, y)
    c.arr(r, [b, e], lambda i, s: krige_quad(c, noisy(c, K, tau, i), n, lambda p: k[i, p, s], lambda q: Y[i, q]),
          "posterior mean")


@unit("C01", fns=["MuyGPyS.gp.noise.heteroscedastic:HeteroscedasticNoise.perturb_fn"] + FN)
def mean_heteroscedastic(c):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels import Matern
    from MuyGPyS.gp.noise import HeteroscedasticNoise
    b, n = c.dim("b"), c.dim("n")
    eps = c.tensor("eps", b, n, pos=True)
    E = c.read(eps)
    m = MuyGPS(kernel=Matern(deformation=Isotropy(l2, length_scale=ScalarParam(1.0))), noise=HeteroscedasticNoise(eps))
    Kin, Kcross, y = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n), c.tensor("y", b, n)
    K, k, Y = c.read(Kin), c.read(Kcross), c.read(y)
    r = m.posterior_mean(Kin, Kcross, y)
    c.arr(r, [b], lambda i: krige_quad(c, lambda p, q: K[i, p, q] + c.ite(c.eq(p, q), E[i, p], 0.0), n,
                                       lambda p: k[i, p], lambda q: Y[i, q]), "posterior mean")


@unit("C01", fns=["MuyGPyS.gp.noise.null:NullNoise.perturb_fn"] + FN)
def mean_nullnoise(c):
    from MuyGPyS.gp.mean import PosteriorMean
    from MuyGPyS.gp.noise import NullNoise
    b, n = c.dim("b"), c.dim("n")
    Kin, Kcross, y = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n), c.tensor("y", b, n)
    K, k, Y = c.read(Kin), c.read(Kcross), c.read(y)
    r = PosteriorMean(NullNoise())(Kin, Kcross, y)
    c.arr(r, [b], lambda i: krige_quad(c, lambda p, q: K[i, p, q], n, lambda p: k[i, p], lambda q: Y[i, q]),
          "posterior mean")


@unit("C01", fns=["MuyGPyS.gp.muygps:MuyGPS.get_opt_mean_fn"] + FN)
def mean_opt_fn(c):
    """the function handed to optimization: a call-time noise value replaces the stored one for that call"""
    m, tau = model(c)
    cand = c.real("cand", pos=True)
    b, n = c.dim("b"), c.dim("n")
    Kin, Kcross, y = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n), c.tensor("y", b, n)
    K, k, Y = c.read(Kin), c.read(Kcross), c.read(y)
    f = m.get_opt_mean_fn()
    r1 = f(Kin, Kcross, y, noise=cand)
    r2 = f(Kin, Kcross, y)
    spec = lambda t: lambda i: krige_quad(c, noisy(c, K, t, i), n, lambda p: k[i, p], lambda q: Y[i, q])
    c.arr(r1, [b], spec(cand), "posterior mean with the candidate noise")
    c.arr(r2, [b], spec(tau), "posterior mean with the stored noise")
