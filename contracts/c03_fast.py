"""C03: fast prediction."""
from pv.unit import unit
from contracts.common import model, noisy, deq

PRE = ["MuyGPyS._src.gp.muygps.{B}:_muygps_fast_posterior_mean_precompute",
       "MuyGPyS.gp.fast_precompute:FastPrecomputeCoefficients", "MuyGPyS.gp.muygps:MuyGPS.fast_coefficients"]
FM = ["MuyGPyS._src.gp.muygps.{B}:_muygps_fast_posterior_mean", "MuyGPyS.gp.fast_mean:FastPosteriorMean",
      "MuyGPyS.gp.muygps:MuyGPS.fast_posterior_mean"]
TEN = ["MuyGPyS._src.gp.tensors.{B}:_fast_nn_update", "MuyGPyS._src.gp.tensors.{B}:_make_fast_predict_tensors",
       "MuyGPyS.gp.tensors:fast_nn_update", "MuyGPyS.gp.tensors:make_fast_predict_tensors"]


def coeff(c, K, tau, i, p, n, y):
    iv = c.inv(n, noisy(c, K, tau, i))
    return c.sum(n, lambda q: iv(p, q) * y(q))


@unit("C03", fns=PRE)
def fast_coeff(c):
    m, tau = model(c)
    b, n = c.dim("b"), c.dim("n")
    Kin, y = c.cov("Kin", (b,), (n,)), c.tensor("y", b, n)
    K, Y = c.read(Kin), c.read(y)
    c.arr(m.fast_coefficients(Kin, y), [b, n], lambda i, p: coeff(c, K, tau, i, p, n, lambda q: Y[i, q]),
          "fast coefficients")


@unit("C03", fns=PRE)
def fast_coeff_multiresponse(c):
    m, tau = model(c)
    b, n, R = c.dim("b"), c.dim("n"), c.dim("R", lo=2)
    Kin, y = c.cov("Kin", (b,), (n,)), c.tensor("y", b, n, R)
    K, Y = c.read(Kin), c.read(y)
    c.arr(m.fast_coefficients(Kin, y), [b, n, R], lambda i, p, s: coeff(c, K, tau, i, p, n, lambda q: Y[i, q, s]),
          "fast coefficients")


@unit("C03", fns=PRE)
def fast_coeff_column(c):
    """responses given as a single column"""
    m, tau = model(c)
    b, n = c.dim("b"), c.dim("n")
    Kin, y = c.cov("Kin", (b,), (n,)), c.tensor("y", b, n, 1)
    K, Y = c.read(Kin), c.read(y)
    c.arr(m.fast_coefficients(Kin, y), [b, n], lambda i, p: coeff(c, K, tau, i, p, n, lambda q: Y[i, q, 0]),
          "fast coefficients")


@unit("C03", fns=FM)
def fast_mean(c):
    m, tau = model(c)
    b, n = c.dim("b"), c.dim("n")
    Kcross, C = c.tensor("Kcross", b, n), c.tensor("C", b, n)
    k, D = c.read(Kcross), c.read(C)
    c.arr(m.fast_posterior_mean(Kcross, C), [b], lambda i: c.sum(n, lambda p: k[i, p] * D[i, p]), "fast posterior mean")


@unit("C03", fns=FM)
def fast_mean_multiresponse(c):
    m, tau = model(c)
    b, n, R = c.dim("b"), c.dim("n"), c.dim("R", lo=2)
    Kcross, C = c.tensor("Kcross", b, n), c.tensor("C", b, n, R)
    k, D = c.read(Kcross), c.read(C)
    c.arr(m.fast_posterior_mean(Kcross, C), [b, R], lambda i, s: c.sum(n, lambda p: k[i, p] * D[i, p, s]),
          "fast posterior mean")


@unit("C03", fns=PRE + FM)
def fast_pipeline(c):
    """coefficients of the closest training point, then the inner product"""
    m, tau = model(c)
    N, b, n = c.dim("N"), c.dim("b"), c.dim("n")
    Kin, y = c.cov("Kin", (N,), (n,)), c.tensor("y", N, n)
    Kcross = c.tensor("Kcross", b, n)
    near = c.indices("near", b, upper=N)
    K, Y, k, w = c.read(Kin), c.read(y), c.read(Kcross), c.read(near)
    C = m.fast_coefficients(Kin, y)
    r = m.fast_posterior_mean(Kcross, C[near])

    def spec(i):
        j = w[i]
        iv = c.inv(n, noisy(c, K, tau, j))
        return c.sum((n, n), lambda p, q: k[i, p] * iv(p, q) * Y[j, q])
    c.arr(r, [b], spec, "fast posterior mean from coefficients")


def new_nn(c, W, i, p):
    return c.ite(c.eq(p, 0), i, W[i, c.ite_int(c.eq(p, 0), 0, p - 1)])


@unit("C03", fns=TEN)
def fast_nn(c):
    from MuyGPyS.gp.tensors import fast_nn_update
    N, n = c.dim("N"), c.dim("n")
    nn = c.indices("nn", N, n, upper=N)
    W = c.read(nn)
    c.arr(fast_nn_update(nn), [N, n], lambda i, p: new_nn(c, W, i, p), "updated neighborhoods")
    c.unchanged(nn, W, "the neighbor indices are not modified")


def fast_tensors(c, f, *resp):
    from MuyGPyS.gp.tensors import make_fast_predict_tensors
    N, n = c.dim("N"), c.dim("n")
    X = c.tensor("X", N, f)
    R = tuple(c.dim(r) for r in resp)
    y = c.tensor("y", N, *R)
    nn = c.indices("nn", N, n, upper=N)
    W, x, Y = c.read(nn), c.read(X), c.read(y)
    D, T = make_fast_predict_tensors(nn, X, y)

    def at(i, p):
        return c.ite_int(c.eq(p, 0), i, W[i, c.ite_int(c.eq(p, 0), 0, p - 1)])
    c.arr(D, [N, n, n, f], lambda i, p, q, s: x[at(i, p), s] - x[at(i, q), s], "pairwise differences of fast neighborhoods")
    c.arr(T, [N, n] + list(R), lambda i, p, *s: Y[(at(i, p),) + s], "responses of fast neighborhoods")


@unit("C03", fns=TEN)
def fast_tensors_single(c):
    fast_tensors(c, c.dim("f"))


@unit("C03", fns=TEN)
def fast_tensors_multi(c):
    fast_tensors(c, c.dim("f"), "R")


def several(c):
    """one model per response: kernels that may share their length scale"""
    from MuyGPyS.gp import MultivariateMuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels import Matern
    from MuyGPyS.gp.noise import HomoscedasticNoise
    K = c.choose("models", [1, 2])
    shared = c.boolean("shared")
    args, sp = [], []
    for i in range(K):
        ls = c.real("ls0" if shared else f"ls{i}", lo=0.25, hi=4.0) if i == 0 or not shared else ls
        tau, nu = c.real(f"tau{i}", lo=0.05, hi=2.0), (0.5, 1.5)[i]
        k = Matern(smoothness=ScalarParam(nu), deformation=Isotropy(l2, length_scale=ScalarParam(ls)))
        args.append(dict(kernel=k, noise=HomoscedasticNoise(tau)))

        def of(d, ls=ls, i=i):
            s = c.sqrt(3) * d / ls
            return (1 + s) * c.exp(0 - s) if i else c.exp(0 - d / ls)
        sp.append((of, tau))
    return K, MultivariateMuyGPS(*args), sp


@unit("C03", fns=PRE + ["MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.fast_coefficients"])
def fast_coeff_models(c):
    K, m, sp = several(c)
    b, n = c.dim("b"), c.dim("n")
    pair, Y = c.dists("pair", (b,), n), c.tensor("y", b, n, K)
    P, y = c.read(pair), c.read(Y)

    def at(i, p, j):
        of, tau = sp[j]
        iv = c.inv(n, lambda q, r: of(P[i, q, r]) + c.ite(c.eq(q, r), tau, 0.0))
        return c.sum(n, lambda q: iv(p, q) * y[i, q, j])
    c.arr(m.fast_coefficients(pair, Y), [b, n, K], lambda i, p, s: at(i, p, 0) if K == 1 else c.ite(
        c.eq(s, 0), at(i, p, 0), at(i, p, 1)), "fast coefficients of each model", each=2)


@unit("C03", fns=["MuyGPyS._src.gp.muygps.{B}:_mmuygps_fast_posterior_mean",
                  "MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.fast_posterior_mean"])
def fast_mean_models(c):
    K, m, sp = several(c)
    b, n = c.dim("b"), c.dim("n")
    cross, C = c.tensor("cross", b, n, lo=0.0), c.tensor("C", b, n, K)
    k, d = c.read(cross), c.read(C)

    def at(i, j):
        return c.sum(n, lambda p: sp[j][0](k[i, p]) * d[i, p, j])
    c.arr(m.fast_posterior_mean(cross, C), [b, K], lambda i, s: at(i, 0) if K == 1 else c.ite(
        c.eq(s, 0), at(i, 0), at(i, 1)), "fast posterior mean of each model", each=1)


class Nbrs:
    """stands for a neighbor lookup: any neighbor index arrays"""

    def __init__(self, train, test):
        self.train, self.test = train, test

    def get_batch_nns(self, idx):
        return self.train[idx], None

    def get_nns(self, X):
        return self.test, None


def rbf(c, f, d):
    return c.exp(-c.sum(f, lambda s: d(s) * d(s)) / 2)


def updated(c, W, i, p):
    return c.ite_int(c.eq(p, 0), i, W[i, c.ite_int(c.eq(p, 0), 0, p - 1)])


@unit("C03", backends=("numpy",), fns=["MuyGPyS.examples.fast_posterior_mean:make_fast_regressor"] + PRE)
def fast_regressor(c):
    """the coefficients, and the neighborhoods returned with them"""
    from MuyGPyS.examples.fast_posterior_mean import make_fast_regressor
    from contracts.common import matern_model
    m, tau = matern_model(c, metric="F2")
    N, n, f = c.dim("N"), c.dim("n"), c.dim("f")
    X, y, nn = c.tensor("X", N, f), c.tensor("y", N), c.indices("nn", N, n, upper=N)
    x, Y, W = c.read(X), c.read(y), c.read(nn)
    C, I = make_fast_regressor(m, Nbrs(nn, None), X, y)
    at = lambda j, p: updated(c, W, j, p)
    c.arr(I, [N, n], at, "neighborhoods of the coefficients")
    M = lambda j: lambda p, q: rbf(c, f, lambda s: x[at(j, p), s] - x[at(j, q), s]) + c.ite(c.eq(p, q), tau, 0.0)
    c.arr(C, [N, n], lambda j, p: c.sum(n, lambda q: c.inv(n, M(j))(p, q) * Y[at(j, q)]), "fast coefficients")


@unit("C03", backends=("numpy",), fns=["MuyGPyS.examples.from_indices:fast_posterior_mean_from_indices"] + FM)
def fast_from_indices(c):
    """cross-covariance of the named neighbors times the coefficients of the closest training point"""
    from MuyGPyS.examples.from_indices import fast_posterior_mean_from_indices
    from contracts.common import matern_model
    m, tau = matern_model(c, metric="F2")
    N, Q, b, n, f = c.dim("N"), c.dim("Q"), c.dim("b"), c.dim("n"), c.dim("f")
    X, Z, C = c.tensor("X", N, f), c.tensor("Z", Q, f), c.tensor("C", N, n)
    ind, sets, near = c.indices("ind", b, upper=Q), c.indices("sets", b, n, upper=N), c.indices("near", b, upper=N)
    x, z, k, q, S, V = (c.read(v) for v in (X, Z, C, ind, sets, near))
    r = fast_posterior_mean_from_indices(m, ind, sets, Z, X, near, C)
    c.arr(r, [b], lambda i: c.sum(n, lambda p: rbf(c, f, lambda s: z[q[i], s] - x[S[i, p], s]) * k[V[i], p]),
          "fast posterior mean")


@unit("C03", backends=("numpy",), fns=["MuyGPyS.examples.fast_posterior_mean:fast_posterior_mean_any",
                                       "MuyGPyS.examples.fast_posterior_mean:make_fast_regressor",
                                       "MuyGPyS.examples.from_indices:fast_posterior_mean_from_indices"] + PRE + FM)
def fast_workflow(c):
    """the convenience workflow: coefficients and cross-covariance refer to the same neighbors"""
    from MuyGPyS.examples.fast_posterior_mean import fast_posterior_mean_any
    from contracts.common import matern_model
    m, tau = matern_model(c, metric="F2")
    N, b, n, f = c.dim("N"), c.dim("b"), c.dim("n"), c.dim("f")
    X, Z, y = c.tensor("X", N, f), c.tensor("Z", b, f), c.tensor("y", N)
    nn, near = c.indices("nn", N, n, upper=N), c.indices("near", b, n, upper=N)
    x, z, Y, W, V = c.read(X), c.read(Z), c.read(y), c.read(nn), c.read(near)
    r, C, _ = fast_posterior_mean_any(m, Z, X, Nbrs(nn, near), y)

    def at(i, p):
        return c.ite_int(c.eq(p, 0), i, W[i, c.ite_int(c.eq(p, 0), 0, p - 1)])

    def rbf(d):
        return c.exp(-c.sum(f, lambda s: d(s) * d(s)) / 2)

    def cf(j):
        M = lambda p, q: rbf(lambda s: x[at(j, p), s] - x[at(j, q), s]) + c.ite(c.eq(p, q), tau, 0.0)
        return c.inv(n, M)
    c.arr(C, [N, n], lambda j, p: c.sum(n, lambda q: cf(j)(p, q) * Y[at(j, q)]), "fast coefficients")

    def spec(i):
        j = V[i, 0]
        return c.sum((n, n), lambda p, q: rbf(lambda s: z[i, s] - x[at(j, p), s]) * cf(j)(p, q) * Y[at(j, q)])
    c.arr(r, [b], spec, "fast posterior mean")
