"""C23: predictions from raw data are the kriging equations on the named points.

No covariance is abstract here: features, responses, indices and hyperparameters are the inputs, and the whole
composition tensors -> deformation -> kernel -> noise -> posterior is executed."""
from pv.unit import unit
from contracts.common import krige_mean, krige_quad
from contracts.c06_kernels import closed

PIPE = ["MuyGPyS.gp.muygps:MuyGPS.make_predict_tensors", "MuyGPyS.gp.tensors:make_predict_tensors", "MuyGPyS._src.gp.tensors.{B}:_pairwise_tensor",
        "MuyGPyS._src.gp.tensors.{B}:_crosswise_tensor", "MuyGPyS.gp.muygps:MuyGPS.posterior_mean", "MuyGPyS.gp.muygps:MuyGPS.posterior_variance",
        "MuyGPyS._src.gp.muygps.{B}:_muygps_posterior_mean", "MuyGPyS._src.gp.muygps.{B}:_muygps_diagonal_variance"]
ISO = ["MuyGPyS.gp.deformation.isotropy:Isotropy.__call__", "MuyGPyS.gp.kernels.matern:Matern.__call__", "MuyGPyS.gp.kernels.rbf:RBF.__call__"]
ANI = ["MuyGPyS.gp.deformation.anisotropy:Anisotropy.__call__"]
HET = ["MuyGPyS.gp.noise.heteroscedastic:HeteroscedasticNoise.perturb", "MuyGPyS._src.gp.tensors.{B}:_make_heteroscedastic_tensor"]
KINDS = ["rbf", 0.5, 1.5, 2.5, float("inf")]


class Data:
    """training features X and responses Y, test features Z, N training and M test points"""

    def __init__(self, c, multi=False, flat=False, features=None):
        self.c, self.N, self.M = c, c.dim("N"), c.dim("M")
        self.F = None if flat else features or c.dim("F")
        self.R = c.dim("R") if multi else None
        tail = () if flat else (self.F,)
        self.X, self.Z = c.tensor("X", self.N, *tail), c.tensor("Z", self.M, *tail)
        self.Y = c.tensor("Y", self.N, *((self.R,) if multi else ()))
        self.x, self.z, self.y = c.read(self.X), c.read(self.Z), c.read(self.Y)

    def sq(self, a, i, b, j):
        """squared distance of point i of a to point j of b"""
        c = self.c
        if self.F is None:
            return (a[i] - b[j]) * (a[i] - b[j])
        return c.sum(self.F, lambda f: (a[i, f] - b[j, f]) * (a[i, f] - b[j, f]))


class Model:
    def __init__(self, c, kind, noise="homo", features=None, like=None):
        from MuyGPyS.gp import MuyGPS
        from MuyGPyS.gp.deformation import Anisotropy, Isotropy, l2, F2
        from MuyGPyS.gp.hyperparameter import FixedScale, ScalarParam, VectorParam
        from MuyGPyS.gp.kernels import Matern, RBF
        from MuyGPyS.gp.noise import HomoscedasticNoise, NullNoise
        self.c, self.kind, self.features = c, kind, features
        if like is not None:
            self.tau, self.s, self.ls = like.tau, like.s, like.ls
        else:
            self.tau, self.s = c.real("noise", lo=0.05, hi=2.0), c.real("scale", lo=0.25, hi=4.0)
            self.ls = [c.real(f"ls{i}", lo=0.25, hi=4.0) for i in range(features or 1)]
        met = F2 if kind == "rbf" else l2
        if features is None:
            d = Isotropy(met, length_scale=ScalarParam(self.ls[0]))
        else:
            d = Anisotropy(met, length_scale=VectorParam(*[ScalarParam(l) for l in self.ls]))
        self.kernel = RBF(deformation=d) if kind == "rbf" else Matern(smoothness=ScalarParam(kind), deformation=d)
        nz = HomoscedasticNoise(self.tau) if noise == "homo" else NullNoise() if noise == "none" else noise
        self.m = MuyGPS(kernel=self.kernel, noise=nz, scale=FixedScale(val=self.s))

    def cov(self, D, a, i, b, j):
        """covariance of point i of a and point j of b"""
        c, l = self.c, self.ls
        if self.features is None:
            d2, l2 = D.sq(a, i, b, j), l[0] * l[0]
            if self.kind == "rbf":
                return c.exp(-(d2 / l2) / 2)
            return closed(c, self.kind, c.sqrt(d2) / l[0])
        d2 = 0
        for f in range(self.features):
            d2 = d2 + (a[i, f] - b[j, f]) / l[f] * ((a[i, f] - b[j, f]) / l[f])
        return c.exp(-d2 / 2) if self.kind == "rbf" else closed(c, self.kind, c.sqrt(d2))


def predict(m, at, nn, D):
    cross, pair, y = m.make_predict_tensors(at, nn, D.Z, D.X, D.Y)
    Kin, Kcross = m.kernel(pair), m.kernel(cross)
    return m.posterior_mean(Kin, Kcross, y), m.posterior_variance(Kin, Kcross)


def kriging(c, M, D, at, nn, n, noise):
    """(mean, unscaled variance) at batch element i; noise(i, p): variance of its p-th neighbor"""
    a, w = c.read(at), c.read(nn)
    K = lambda i: (lambda p, q: M.cov(D, D.x, w[i, p], D.x, w[i, q]) + c.ite(c.eq(p, q), noise(i, p), 0.0))
    k = lambda i: (lambda p: M.cov(D, D.z, a[i], D.x, w[i, p]))
    mean = lambda i, *r: krige_mean(c, K(i), n, k(i), lambda q: D.y[(w[i, q],) + r])
    var = lambda i: 1 - krige_quad(c, K(i), n, k(i), k(i))
    return mean, var


def check(c, M, D, noise=None, distinct=False):
    b, n = c.dim("b"), c.dim("n")
    at, nn = c.indices("at", b, upper=D.M), c.indices("nn", b, n, upper=D.N, distinct=distinct)
    mean, var = predict(M.m, at, nn, D)
    sm, sv = kriging(c, M, D, at, nn, n, noise or (lambda i, p: M.tau))
    c.arr(mean, [b] + ([D.R] if D.R is not None else []), sm, "posterior mean of the named points")
    c.arr(var, [b], lambda i: M.s * sv(i), "posterior variance of the named points")


@unit("C23", fns=PIPE + ISO)
def end_to_end(c):
    check(c, Model(c, c.choose("kernel", KINDS)), Data(c))


@unit("C23", fns=PIPE + ISO)
def end_to_end_one_feature(c):
    check(c, Model(c, c.choose("kernel", KINDS)), Data(c, flat=True))


@unit("C23", fns=PIPE + ISO)
def end_to_end_multiresponse(c):
    check(c, Model(c, c.choose("kernel", KINDS)), Data(c, multi=True))


def reorder(c, M, D):
    b, n = c.dim("b"), c.dim("n")
    at, nn = c.indices("at", b, upper=D.M), c.indices("nn", b, n, upper=D.N)
    mean, var = predict(M.m, at, nn, D)
    p = c.permutation("order", b, n)
    mean2, var2 = predict(M.m, at, c.reordered(nn, p), D)
    c.same(mean2, mean, "posterior mean, neighbors reordered")
    c.same(var2, var, "posterior variance, neighbors reordered")


@unit("C23", fns=PIPE + ISO)
def neighbor_order(c):
    reorder(c, Model(c, c.choose("kernel", KINDS)), Data(c, multi=c.boolean("multi")))


def compose(c, M, D):
    b, n, e = c.dim("b"), c.dim("n"), c.dim("e")
    at, nn = c.indices("at", b, upper=D.M), c.indices("nn", b, n, upper=D.N)
    s = c.indices("part", e, upper=b)
    mean, var = predict(M.m, at, nn, D)
    mean2, var2 = predict(M.m, c.selected(at, s), c.selected(nn, s), D)
    m, v, t = c.read(mean), c.read(var), c.read(s)
    c.arr(mean2, [e] + ([D.R] if D.R is not None else []), lambda i, *r: m[(t[i],) + r], "posterior mean in another batch")
    c.arr(var2, [e], lambda i: v[t[i]], "posterior variance in another batch")


@unit("C23", fns=PIPE + ISO)
def batch_composition(c):
    compose(c, Model(c, c.choose("kernel", KINDS)), Data(c, multi=c.boolean("multi")))


# ------------------------------------------------------------------ other models
def aniso(c, multi=False):
    return Model(c, c.choose("kernel", KINDS), features=2), Data(c, multi=multi, features=2)


@unit("C23", fns=PIPE + ANI)
def end_to_end_anisotropic(c):
    check(c, *aniso(c))


@unit("C23", fns=PIPE + ANI)
def neighbor_order_anisotropic(c):
    reorder(c, *aniso(c))


@unit("C23", fns=PIPE + ANI)
def batch_composition_anisotropic(c):
    compose(c, *aniso(c))


@unit("C23", fns=PIPE + ISO)
def end_to_end_noiseless(c):
    """a model without noise"""
    check(c, Model(c, c.choose("kernel", KINDS if c.symbolic else [0.5, 1.5]), noise="none"), Data(c), noise=lambda i, p: 0.0, distinct=not c.symbolic)


def heteroscedastic(c, at, nn, eps, D, kind, like=None):
    from MuyGPyS.gp.noise import HeteroscedasticNoise
    from MuyGPyS.gp.tensors import make_heteroscedastic_tensor
    M = Model(c, kind, noise=HeteroscedasticNoise(make_heteroscedastic_tensor(eps, nn)), like=like)
    return M, predict(M.m, at, nn, D)


def het_setup(c):
    D, b, n = Data(c), c.dim("b"), c.dim("n")
    at, nn = c.indices("at", b, upper=D.M), c.indices("nn", b, n, upper=D.N)
    eps = c.tensor("eps", D.N, lo=0.05)
    return D, b, n, at, nn, eps, c.choose("kernel", KINDS)


@unit("C23", fns=PIPE + ISO + HET)
def end_to_end_heteroscedastic(c):
    """measurement noise given per training point"""
    D, b, n, at, nn, eps, kind = het_setup(c)
    e, w = c.read(eps), c.read(nn)
    M, (mean, var) = heteroscedastic(c, at, nn, eps, D, kind)
    sm, sv = kriging(c, M, D, at, nn, n, lambda i, p: e[w[i, p]])
    c.arr(mean, [b], sm, "posterior mean of the named points")
    c.arr(var, [b], lambda i: M.s * sv(i), "posterior variance of the named points")


@unit("C23", fns=PIPE + ISO + HET)
def neighbor_order_heteroscedastic(c):
    D, b, n, at, nn, eps, kind = het_setup(c)
    M, (mean, var) = heteroscedastic(c, at, nn, eps, D, kind)
    p = c.permutation("order", b, n)
    M2, (mean2, var2) = heteroscedastic(c, at, c.reordered(nn, p), eps, D, kind, M)
    c.same(mean2, mean, "posterior mean, neighbors reordered")
    c.same(var2, var, "posterior variance, neighbors reordered")


@unit("C23", fns=PIPE + ISO + HET)
def batch_composition_heteroscedastic(c):
    D, b, n, at, nn, eps, kind = het_setup(c)
    M, (mean, var) = heteroscedastic(c, at, nn, eps, D, kind)
    k = c.dim("e")
    s = c.indices("part", k, upper=b)
    M2, (mean2, var2) = heteroscedastic(c, c.selected(at, s), c.selected(nn, s), eps, D, kind, M)
    m, v, t = c.read(mean), c.read(var), c.read(s)
    c.arr(mean2, [k], lambda i: m[t[i]], "posterior mean in another batch")
    c.arr(var2, [k], lambda i: v[t[i]], "posterior variance in another batch")


# ------------------------------------------------------------------ multivariate models
MULTI = ["MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS." + f for f in ("make_predict_tensors", "posterior_mean", "posterior_variance")]


class Multi:
    """one univariate model per response, each with its own hyperparameters"""

    def __init__(self, c, K):
        from MuyGPyS.gp import MultivariateMuyGPS
        from MuyGPyS.gp.deformation import Isotropy, l2
        from MuyGPyS.gp.hyperparameter import FixedScale, ScalarParam
        from MuyGPyS.gp.kernels import Matern
        from MuyGPyS.gp.noise import HomoscedasticNoise
        self.K, self.kinds = K, [0.5, 1.5, 2.5][:K]
        self.ls, self.tau, self.s = ([c.real(f"{w}{i}", lo=0.25, hi=4.0) for i in range(K)] for w in ("ls", "noise", "scale"))
        self.c = c
        self.m = MultivariateMuyGPS(*[
            dict(kernel=Matern(smoothness=ScalarParam(k), deformation=Isotropy(l2, length_scale=ScalarParam(l))),
                 noise=HomoscedasticNoise(t), scale=FixedScale(val=s))
            for k, l, t, s in zip(self.kinds, self.ls, self.tau, self.s)])

    def predict(self, at, nn, D):
        cross, pair, y = self.m.make_predict_tensors(at, nn, D.Z, D.X, D.Y)
        return self.m.posterior_mean(pair, cross, y), self.m.posterior_variance(pair, cross)

    def cov(self, o, D, a, i, b, j):
        return closed(self.c, self.kinds[o], self.c.sqrt(D.sq(a, i, b, j)) / self.ls[o])


class Of:
    def __init__(self, M, o):
        self.M, self.o = M, o

    def cov(self, *a):
        return self.M.cov(self.o, *a)


def multi_setup(c):
    K = c.choose("models", [1, 2, 3])
    M, D = Multi(c, K), Data(c)
    D.R = K
    D.Y = c.tensor("Y2", D.N, K)
    D.y = c.read(D.Y)
    b, n = c.dim("b"), c.dim("n")
    return K, M, D, b, n, c.indices("at", b, upper=D.M), c.indices("nn", b, n, upper=D.N)


@unit("C23", fns=PIPE + MULTI)
def end_to_end_multivariate(c):
    K, M, D, b, n, at, nn = multi_setup(c)
    mean, var = M.predict(at, nn, D)
    specs = [kriging(c, Of(M, o), D, at, nn, n, lambda i, p, o=o: M.tau[o]) for o in range(K)]

    def pick(r, f):
        v = f(K - 1)
        for o in range(K - 2, -1, -1):
            v = c.ite(c.eq(r, o), f(o), v)
        return v
    c.arr(mean, [b, K], lambda i, r: pick(r, lambda o: specs[o][0](i, o)), "posterior mean of the named points", each=1)
    c.arr(var, [b, K], lambda i, r: pick(r, lambda o: M.s[o] * specs[o][1](i)), "posterior variance of the named points", each=1)


@unit("C23", fns=PIPE + MULTI)
def neighbor_order_multivariate(c):
    K, M, D, b, n, at, nn = multi_setup(c)
    mean, var = M.predict(at, nn, D)
    p = c.permutation("order", b, n)
    mean2, var2 = M.predict(at, c.reordered(nn, p), D)
    c.same(mean2, mean, "posterior mean, neighbors reordered")
    c.same(var2, var, "posterior variance, neighbors reordered")


@unit("C23", fns=PIPE + MULTI)
def batch_composition_multivariate(c):
    K, M, D, b, n, at, nn = multi_setup(c)
    mean, var = M.predict(at, nn, D)
    e = c.dim("e")
    s = c.indices("part", e, upper=b)
    mean2, var2 = M.predict(c.selected(at, s), c.selected(nn, s), D)
    m, v, t = c.read(mean), c.read(var), c.read(s)
    c.arr(mean2, [e, K], lambda i, r: m[t[i], r], "posterior mean in another batch")
    c.arr(var2, [e, K], lambda i, r: v[t[i], r], "posterior variance in another batch")
