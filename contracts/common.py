"""Builders shared by the contracts."""


def scalar_params():
    from MuyGPyS.gp.hyperparameter import ScalarParam
    return ScalarParam


def matern_model(c, nu=0.5, noise=None, scale=None, metric="l2", ls=None, deformation=None):
    """a model with fixed hyperparameters; returns (model, noise value)"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam, FixedScale
    from MuyGPyS.gp.kernels import Matern, RBF
    from MuyGPyS.gp.noise import HomoscedasticNoise
    tau = c.real("noise", pos=True) if noise is None else noise
    if deformation is None:
        deformation = Isotropy(metric={"l2": l2, "F2": F2}[metric], length_scale=ScalarParam(1.0 if ls is None else ls))
    kern = RBF(deformation=deformation) if metric == "F2" else Matern(smoothness=ScalarParam(nu), deformation=deformation)
    kw = {} if scale is None else dict(scale=FixedScale(val=scale))
    return MuyGPS(kernel=kern, noise=HomoscedasticNoise(tau), **kw), tau


def model(c):
    return matern_model(c)


def delta(c, i, j, v):
    return c.ite(c.eq(i, j), v, 0.0)


def deq(c, p, q):
    """equality of composite indices"""
    return c.and_(*[c.eq(x, y) for x, y in zip(p, q)])


def noisy(c, K, tau, b):
    """entries of the homoscedastically perturbed covariance of batch element b"""
    return lambda i, j: K[b, i, j] + delta(c, i, j, tau)


def noisy2(c, K, tau, b):
    """same for multi-output covariances (output, neighbor) pairs"""
    return lambda p, q: K[b, p[0], p[1], q[0], q[1]] + c.ite(deq(c, p, q), tau, 0.0)


def krige_mean(c, M, n, k, y):
    iv = c.inv(n, M)
    return c.sum((n, n), lambda p, q: k(p) * iv(p, q) * y(q))


def krige_quad(c, M, n, k, l):
    iv = c.inv(n, M)
    return c.sum((n, n), lambda p, q: k(p) * iv(p, q) * l(q))


def quad2(c, M, o, n, k, l):
    iv = c.inv((o, n), M)
    return c.sum((o, n, o, n), lambda a, p, d, q: k(a, p) * iv((a, p), (d, q)) * l(d, q))
