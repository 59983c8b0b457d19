"""C17: a multivariate model is its univariate models, one per response."""
from pv.unit import unit
from contracts.common import krige_mean, krige_quad

M = "MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS."
CORE = ["MuyGPyS.gp.muygps:MuyGPS", "MuyGPyS._src.gp.muygps.{B}:_muygps_posterior_mean"]


def args(c, i, scale=None):
    """keyword arguments of the i-th model, and its kernel and noise as specification functions"""
    from MuyGPyS.gp.deformation import Isotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import FixedScale, ScalarParam
    from MuyGPyS.gp.kernels import Matern, RBF
    from MuyGPyS.gp.noise import HomoscedasticNoise
    ls, tau = c.real(f"ls{i}", lo=0.25, hi=4.0), c.real(f"tau{i}", lo=0.05, hi=2.0)
    rbf = i % 2 == 0
    if rbf:
        k = RBF(deformation=Isotropy(F2, length_scale=ScalarParam(ls)))
        of = lambda d: c.exp(0 - d / (ls * ls) / 2)
    else:
        k = Matern(smoothness=ScalarParam(0.5), deformation=Isotropy(l2, length_scale=ScalarParam(ls)))
        of = lambda d: c.exp(0 - d / ls)
    s = scale() if scale else FixedScale()
    return dict(kernel=k, noise=HomoscedasticNoise(tau), scale=s), of, tau


def make(c, K, scale=None):
    from MuyGPyS.gp import MultivariateMuyGPS
    a = [args(c, i, scale(i) if scale else None) for i in range(K)]
    return MultivariateMuyGPS(*[x[0] for x in a]), [x[1:] for x in a]


def count(c):
    return c.choose("models", [1, 2, 3])


def dists(c):
    b, n = c.dim("b"), c.dim("n")
    pair, cross = c.dists("pair", (b,), n), c.tensor("cross", b, n, lo=0.0)
    return b, n, pair, cross


def column(c, K, s, vals):
    r = vals(K - 1)
    for j in range(K - 2, -1, -1):
        r = c.ite(c.eq(s, j), vals(j), r)
    return r


def noisyK(c, of, tau, P, i):
    return lambda p, q: of(P[i, p, q]) + c.ite(c.eq(p, q), tau, 0.0)


@unit("C17", fns=[M + "posterior_mean"] + CORE)
def multi_mean(c):
    K = count(c)
    m, sp = make(c, K)
    b, n, pair, cross = dists(c)
    Y = c.tensor("y", b, n, K)
    P, k, y = c.read(pair), c.read(cross), c.read(Y)
    c.arr(m.posterior_mean(pair, cross, Y), [b, K], lambda i, s: column(c, K, s, lambda j: krige_mean(
        c, noisyK(c, *sp[j], P, i), n, lambda p: sp[j][0](k[i, p]), lambda q: y[i, q, j])), "multivariate mean", each=1)


@unit("C17", fns=[M + "posterior_variance", "MuyGPyS._src.gp.muygps.{B}:_muygps_diagonal_variance"] + CORE)
def multi_variance(c):
    from MuyGPyS.gp.hyperparameter import FixedScale
    K = count(c)
    ss = [c.real(f"sigma{i}", pos=True) for i in range(K)]
    m, sp = make(c, K, lambda i: lambda: FixedScale(val=ss[i]))
    b, n, pair, cross = dists(c)
    P, k = c.read(pair), c.read(cross)
    c.arr(m.posterior_variance(pair, cross), [b, K], lambda i, s: column(c, K, s, lambda j: ss[j] * (1 - krige_quad(
        c, noisyK(c, *sp[j], P, i), n, lambda p: sp[j][0](k[i, p]), lambda q: sp[j][0](k[i, q])))), "multivariate variance", each=1)


FAST = ["MuyGPyS._src.gp.muygps.{B}:_muygps_fast_posterior_mean_precompute"] + CORE


@unit("C17", fns=[M + "fast_coefficients"] + FAST)
def multi_fast_coefficients(c):
    K = count(c)
    m, sp = make(c, K)
    b, n, pair, _ = dists(c)
    Y = c.tensor("y", b, n, K)
    P, y = c.read(pair), c.read(Y)
    c.arr(m.fast_coefficients(pair, Y), [b, n, K], lambda i, p, s: column(c, K, s, lambda j: c.sum(
        n, lambda q: c.inv(n, noisyK(c, *sp[j], P, i))(p, q) * y[i, q, j])), "multivariate fast coefficients", each=2)


@unit("C17", fns=[M + "fast_posterior_mean", "MuyGPyS._src.gp.muygps.{B}:_mmuygps_fast_posterior_mean"])
def multi_fast_mean(c):
    K = count(c)
    m, sp = make(c, K)
    b, n, _, cross = dists(c)
    C = c.tensor("C", b, n, K)
    k, d = c.read(cross), c.read(C)
    c.arr(m.fast_posterior_mean(cross, C), [b, K], lambda i, s: column(c, K, s, lambda j: c.sum(
        n, lambda p: sp[j][0](k[i, p]) * d[i, p, j])), "multivariate fast mean", each=1)


def quad(c, of, tau, P, y, b, n, j):
    def one(i):
        iv = c.inv(n, noisyK(c, of, tau, P, i))
        return c.sum((n, n), lambda p, q: y[i, p, j] * iv(p, q) * y[i, q, j])
    return c.sum(b, one) / (b * n)


@unit("C17", fns=[M + "optimize_scale", M + "posterior_variance", "MuyGPyS._src.optimize.scale.{B}:_analytic_scale_optim",
                  "MuyGPyS.gp.hyperparameter.scale:AnalyticScale.get_opt_fn"])
def multi_optimize_scale(c):
    from MuyGPyS.gp.hyperparameter import AnalyticScale, FixedScale
    K = c.choose("models", [1, 2])
    fix = [c.boolean(f"fixed{i}") for i in range(K)]
    ss = [c.real(f"sigma{i}", pos=True) for i in range(K)]
    m, sp = make(c, K, lambda i: lambda: (FixedScale if fix[i] else AnalyticScale)(val=ss[i]))
    b, n, pair, cross = dists(c)
    Y = c.tensor("y", b, n, K)
    P, k, y = c.read(pair), c.read(cross), c.read(Y)
    want = [ss[j] if fix[j] else quad(c, *sp[j], P, y, b, n, j) for j in range(K)]
    for w in want:
        c.assume(w > 0)
    r = m.optimize_scale(pair, Y)
    c.true(r is m, "returns the model")
    for j in range(K):
        c.scalar(m.models[j].scale(), want[j], f"scale {j}")
    c.arr(m.posterior_variance(pair, cross), [b, K], lambda i, s: column(c, K, s, lambda j: want[j] * (1 - krige_quad(
        c, noisyK(c, *sp[j], P, i), n, lambda p: sp[j][0](k[i, p]), lambda q: sp[j][0](k[i, q])))), "variances use the new scales", each=1)


@unit("C17", fns=[M + "optimize_scale", "MuyGPyS._src.optimize.scale.{B}:_analytic_scale_optim"])
def multi_rescale(c):
    """optimizing again, with other data, leaves the scales of those data: earlier training has no influence"""
    from MuyGPyS.gp.hyperparameter import AnalyticScale
    K = c.choose("models", [1, 2])
    m, sp = make(c, K, lambda i: AnalyticScale)
    first, n0 = c.dim("b0"), c.dim("n0")
    b, n, pair, _ = dists(c)
    Y0, Y = c.tensor("y0", first, n0, K), c.tensor("y", b, n, K)
    P0, y0, P, y = c.dists("pair0", (first,), n0), c.read(Y0), c.read(pair), c.read(Y)
    p0 = c.read(P0)
    for j in range(K):
        c.assume(quad(c, *sp[j], p0, y0, first, n0, j) > 0)
    want = [quad(c, *sp[j], P, y, b, n, j) for j in range(K)]
    for w in want:
        c.assume(w > 0)
    m.optimize_scale(P0, Y0)
    m.optimize_scale(pair, Y)
    for j in range(K):
        c.scalar(m.models[j].scale(), want[j], f"scale {j}")


@unit("C17", fns=[M + "optimize_scale"])
def multi_scale_rejects(c):
    """a wrong number of responses is rejected and nothing changes"""
    from MuyGPyS.gp.hyperparameter import AnalyticScale
    K = c.choose("models", [1, 2])
    ss = [c.real(f"sigma{i}", pos=True) for i in range(K)]
    m, sp = make(c, K, lambda i: lambda: AnalyticScale(val=ss[i]))
    b, n, pair, _ = dists(c)
    R = c.dim("R", hi=6)
    if R == K:
        return
    c.raises(m.optimize_scale, pair, c.tensor("y", b, n, R), exc=ValueError, label="wrong response count")
    for j in range(K):
        c.scalar(m.models[j].scale(), ss[j], f"scale {j} unchanged")


@unit("C17", fns=[M + "fixed", M + "__init__"])
def multi_fixed(c):
    from MuyGPyS.gp import MultivariateMuyGPS
    from MuyGPyS.gp.deformation import Isotropy, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels import RBF
    from MuyGPyS.gp.noise import HomoscedasticNoise
    K = count(c)
    free = [c.boolean(f"free{i}") for i in range(K)]
    mk = lambda i: dict(kernel=RBF(deformation=Isotropy(F2, length_scale=ScalarParam(1.0, (0.5, 2.0)) if free[i] else ScalarParam(1.0))),
                        noise=HomoscedasticNoise(0.1))
    m = MultivariateMuyGPS(*[mk(i) for i in range(K)])
    c.true(m.fixed() == (not any(free)), "fixed when every model is")
    c.true(len(m.models) == K, "one model per argument set")


@unit("C17", fns=[M + "make_predict_tensors", M + "make_train_tensors"])
def multi_tensors(c):
    """distances and responses of the named points"""
    K = c.choose("models", [1, 2])
    m, _ = make(c, K)
    N, Q, b, n, f = c.dim("N"), c.dim("Q"), c.dim("b"), c.dim("n"), c.dim("f")
    X, Z, Y = c.tensor("X", N, f), c.tensor("Z", Q, f), c.tensor("y", N, K)
    nn = c.indices("nn", b, n, upper=N)
    x, z, y, W = c.read(X), c.read(Z), c.read(Y), c.read(nn)
    d2 = lambda u, v: c.sum(f, lambda s: (u(s) - v(s)) * (u(s) - v(s)))
    pairs = lambda i, p, q: d2(lambda s: x[W[i, p], s], lambda s: x[W[i, q], s])
    if c.boolean("train"):
        ind = c.indices("ind", b, upper=N)
        I = c.read(ind)
        cross, pair, T, NT = m.make_train_tensors(ind, nn, X, Y)
        c.arr(T, [b, K], lambda i, s: y[I[i], s], "batch responses")
        src = x
    else:
        ind = c.indices("ind", b, upper=Q)
        I = c.read(ind)
        cross, pair, NT = m.make_predict_tensors(ind, nn, Z, X, Y)
        src = z
    c.arr(cross, [b, n], lambda i, p: d2(lambda s: src[I[i], s], lambda s: x[W[i, p], s]), "crosswise distances")
    c.arr(pair, [b, n, n], pairs, "pairwise distances")
    c.arr(NT, [b, n, K], lambda i, p, s: y[W[i, p], s], "neighbor responses")
