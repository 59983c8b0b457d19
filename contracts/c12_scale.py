"""C12: scale optimization."""
import itertools

from pv.unit import unit
from contracts.common import noisy, noisy2, krige_quad

S = "MuyGPyS._src.optimize.scale.{B}:"
H = "MuyGPyS.gp.hyperparameter.scale:"
FN = [S + "_analytic_scale_optim", S + "_analytic_scale_optim_unnormalized", H + "AnalyticScale.get_opt_fn"]
OPT = FN + ["MuyGPyS.gp.muygps:MuyGPS.optimize_scale", H + "ScaleFn._set"]


def make(c, scale, tau=None, kernel=None):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels import RBF
    from MuyGPyS.gp.noise import HomoscedasticNoise, NullNoise
    return MuyGPS(kernel=kernel or RBF(deformation=Isotropy(metric=F2, length_scale=ScalarParam(1.0))),
                  noise=NullNoise() if tau is None else HomoscedasticNoise(tau), scale=scale)


def qform(c, M, n, y):
    iv = c.inv(n, M)
    ns = n if isinstance(n, tuple) else (n,)
    if len(ns) == 1:
        return c.sum((n, n), lambda p, q: y(p) * iv(p, q) * y(q))
    return c.sum(ns + ns, lambda a, p, d, q: y((a, p)) * iv((a, p), (d, q)) * y((d, q)))


def responses(c, b, n):
    """(b, n) responses, or the same with a trailing response axis of one"""
    if c.boolean("column"):
        Y = c.tensor("y", b, n, 1)
        r = c.read(Y)
        return Y, lambda i, p: r[i, p, 0]
    Y = c.tensor("y", b, n)
    r = c.read(Y)
    return Y, lambda i, p: r[i, p]


def estimate(c, b, n, M, y):
    return c.sum(b, lambda i: qform(c, M(i), n, lambda p: y(i, p))) / (b * n)


@unit("C12", fns=FN)
def scale_analytic(c):
    from MuyGPyS.gp.hyperparameter import AnalyticScale
    b, n = c.dim("b"), c.dim("n")
    null = c.boolean("noiseless")
    tau = None if null else c.real("noise", pos=True)
    sc = AnalyticScale()
    m = make(c, sc, tau)
    Kin = c.cov("Kin", (b,), (n,))
    Y, y = responses(c, b, n)
    K = c.read(Kin)
    spec = lambda t: estimate(c, b, n, lambda i: noisy(c, K, t, i), y)
    f = m.scale.get_opt_fn(m)
    c.scalar(f(Kin, Y), spec(0.0 if null else tau), "analytic scale estimate")
    if not null:
        t2 = c.real("cand", pos=True)
        c.scalar(f(Kin, Y, noise=t2), spec(t2), "analytic scale estimate with a candidate noise")
    c.scalar(m.scale(), 1.0, "the estimate alone does not change the scale")


@unit("C12", fns=FN)
def scale_analytic_multioutput(c):
    from MuyGPyS.gp.hyperparameter import AnalyticScale
    b, o, n = c.dim("b"), c.dim("o"), c.dim("n")
    tau = c.real("noise", pos=True)
    m = make(c, AnalyticScale(), tau)
    Kin, Y = c.cov("Kin", (b,), (o, n)), c.tensor("y", b, o, n)
    K, y = c.read(Kin), c.read(Y)
    want = c.sum(b, lambda i: qform(c, noisy2(c, K, tau, i), (o, n), lambda p: y[i, p[0], p[1]])) / (b * o * n)
    c.scalar(m.scale.get_opt_fn(m)(Kin, Y), want, "multi-output analytic scale estimate")


@unit("C12", fns=FN + ["MuyGPyS._src.gp.noise.{B}:_heteroscedastic_perturb"])
def scale_analytic_heteroscedastic(c):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam, AnalyticScale
    from MuyGPyS.gp.kernels import RBF
    from MuyGPyS.gp.noise import HeteroscedasticNoise
    b, n = c.dim("b"), c.dim("n")
    eps = c.tensor("eps", b, n, pos=True)
    E = c.read(eps)
    m = MuyGPS(kernel=RBF(deformation=Isotropy(F2, length_scale=ScalarParam(1.0))), noise=HeteroscedasticNoise(eps),
               scale=AnalyticScale())
    Kin = c.cov("Kin", (b,), (n,))
    K = c.read(Kin)
    Y, y = responses(c, b, n)
    c.scalar(m.scale.get_opt_fn(m)(Kin, Y), estimate(
        c, b, n, lambda i: lambda p, q: K[i, p, q] + c.ite(c.eq(p, q), E[i, p], 0.0), y), "analytic scale estimate")


def rbf_of(c, D, f, ls):
    """entries of the RBF covariance of a difference tensor (squared metric)"""
    return lambda i, p, q: c.exp(0 - c.sum(f, lambda k: D[i, p, q, k] * D[i, p, q, k]) / (ls * ls) / 2)


@unit("C12", fns=OPT + ["MuyGPyS.gp.hyperparameter.scale:ScaleFn.scale_fn", "MuyGPyS.gp.muygps:MuyGPS.posterior_variance"])
def scale_optimize_model(c):
    """the model's own covariance and noise are used, the result is stored and applied by later variances"""
    from MuyGPyS.gp.deformation import Isotropy, F2
    from MuyGPyS.gp.hyperparameter import AnalyticScale, ScalarParam
    from MuyGPyS.gp.kernels import RBF
    b, n = c.dim("b"), c.dim("n")
    tau, ls = c.real("noise", pos=True), c.real("ls", pos=True)
    kern = RBF(deformation=Isotropy(metric=F2, length_scale=ScalarParam(ls)))
    m = make(c, AnalyticScale(), tau, kern)
    c.true(m.scale.trained is False, "an untouched scale is not trained")
    D = c.tensor("D", b, n, n, lo=0.0)  # squared distances
    Y, y = responses(c, b, n)
    d = c.read(D)
    want = estimate(c, b, n, lambda i: noisy3(
        c, lambda p, q: c.exp(0 - d[i, p, q] / (ls * ls) / 2), tau), y)
    c.assume(want > 0)
    r = m.optimize_scale(D, Y)
    c.true(r is m, "returns the model")
    c.scalar(m.scale(), want, "optimized scale")
    c.true(m.scale.trained is True, "the scale is marked as trained")
    b2, n2 = c.dim("b2"), c.dim("n2")
    Kin, Kcross = c.cov("Kin", (b2,), (n2,)), c.tensor("Kcross", b2, n2)
    K, k = c.read(Kin), c.read(Kcross)
    c.arr(m.posterior_variance(Kin, Kcross), [b2], lambda i: want * (1 - krige_quad(
        c, noisy(c, K, tau, i), n2, lambda p: k[i, p], lambda q: k[i, q])), "variances use the newest scale, once")


def noisy3(c, K, tau):
    return lambda p, q: K(p, q) + c.ite(c.eq(p, q), tau, 0.0)


@unit("C12", fns=OPT)
def scale_optimize_twice(c):
    """the estimate depends on the data alone, not on an earlier estimate"""
    from MuyGPyS.gp.hyperparameter import AnalyticScale
    b, n = c.dim("b"), c.dim("n")
    tau = c.real("noise", pos=True)
    m = make(c, AnalyticScale(val=c.real("start", pos=True)), tau)
    D1, Y1 = c.tensor("D1", b, n, n, lo=0.0), c.tensor("y1", b, n)
    D2, Y2 = c.tensor("D2", b, n, n, lo=0.0), c.tensor("y2", b, n)
    spec = lambda D, Y: estimate(c, b, n, lambda i: noisy3(c, lambda p, q: c.exp(0 - D[i, p, q] / 2), tau), lambda i, p: Y[i, p])
    w1, w2 = spec(c.read(D1), c.read(Y1)), spec(c.read(D2), c.read(Y2))
    c.assume(c.and_(w1 > 0, w2 > 0))
    m.optimize_scale(D1, Y1)
    c.scalar(m.scale(), w1, "first estimate")
    m.optimize_scale(D2, Y2)
    c.scalar(m.scale(), w2, "second estimate")


@unit("C12", fns=[H + "FixedScale.get_opt_fn", "MuyGPyS.gp.muygps:MuyGPS.optimize_scale"])
def scale_fixed(c):
    from MuyGPyS.gp.hyperparameter import FixedScale, ScaleFn
    b, n = c.dim("b"), c.dim("n")
    s, tau = c.real("s", pos=True), c.real("noise", pos=True)
    cls = c.choose("class", [FixedScale, ScaleFn])
    m = make(c, cls(val=s), tau)
    D, Y = c.tensor("D", b, n, n, lo=0.0), c.tensor("y", b, n)
    m.optimize_scale(D, Y)
    c.scalar(m.scale(), s, "a fixed scale is unchanged")
    Kin = c.cov("Kin", (b,), (n,))
    c.scalar(m.scale.get_opt_fn(m)(Kin, Y, noise=c.real("cand", pos=True)), s, "a fixed scale is its own estimate")


def quads(c, Kin, Y, b, k, idx, tau):
    return c.sum(b, lambda i: qform(c, lambda p, q: Kin[i, idx(p), idx(q)] + c.ite(c.eq(p, q), tau, 0.0), k,
                                    lambda p: Y[i, idx(p)]))


@unit("C12", fns=[H + "DownSampleScale.get_opt_fn", H + "DownSampleScale.__init__", S + "_analytic_scale_optim_unnormalized"])
def scale_downsample(c):
    """median over the drawn subsets of the normalized quadratic form (one, two or three subsets)"""
    from MuyGPyS.gp.hyperparameter import DownSampleScale
    b, n, k = c.dim("b"), c.dim("n", lo=2), c.dim("k")
    c.assume(k < n)
    its = c.choose("iterations", [1, 2, 3])
    tau = c.real("noise", pos=True)
    m = make(c, DownSampleScale(down_count=k, iteration_count=its), tau)
    Kin, Y = c.cov("Kin", (b,), (n,)), c.tensor("y", b, n)
    K, y = c.read(Kin), c.read(Y)
    got = m.scale.get_opt_fn(m)(Kin, Y)
    if c.symbolic:
        ch = c.choices()
        c.true(len(ch) == its, "one subset per iteration")
        for pop, size, rep, _ in ch:
            c.true(c.and_(c.eq(pop, n), c.eq(size, k)), "subsets of the requested size, of the neighbors")
            c.true(rep is False, "subsets hold distinct neighbors")
        vals = [quads(c, K, y, b, k, ix, tau) for _, _, _, ix in ch]
        c.scalar(got, c.median(vals) / (k * b), "down-sampled scale estimate")
    else:
        one = [quads(c, K, y, b, k, lambda j, s=s: s[j], tau) / (k * b) for s in itertools.combinations(range(n), k)]
        ok = any(c.close(c.T(got), c.median(v)) for v in itertools.combinations_with_replacement(one, its))
        c.true(ok, "down-sampled scale estimate")
        if its == 2 and len(one) > 2:
            # two different subsets are all but certain to occur in forty attempts: some estimate is no single subset's
            f = m.scale.get_opt_fn(m)
            again = [c.T(f(Kin, Y)) for _ in range(40)]
            c.true(any(not any(c.close(a, v) for v in one) for a in again), "the middle of an even number of estimates is their mean")


@unit("C12", fns=[H + "DownSampleScale.get_opt_fn"])
def scale_downsample_rejects(c):
    from MuyGPyS.gp.hyperparameter import DownSampleScale
    b, n, k = c.dim("b"), c.dim("n"), c.dim("k")
    c.assume(n <= k)
    m = make(c, DownSampleScale(down_count=k, iteration_count=1), c.real("noise", pos=True))
    Kin, Y = c.cov("Kin", (b,), (n,)), c.tensor("y", b, n)
    c.raises(m.scale.get_opt_fn(m), Kin, Y, exc=ValueError, label="more samples than neighbors are rejected")


@unit("C12", fns=[H + "ScaleFn.__init__", H + "ScaleFn._set", H + "ScaleFn._check_positive_float"])
def scale_positive(c):
    from MuyGPyS.gp import hyperparameter as h
    cls = c.choose("class", [h.FixedScale, h.AnalyticScale, h.DownSampleScale])
    v, w = c.real("v"), c.real("w")
    if v > 0:
        s = cls(val=v)
        c.scalar(s(), v, "the scale holds its value")
        c.true(s.trained is False, "untrained")
        if w > 0:
            s._set(w)
            c.scalar(s(), w, "the scale holds its new value")
            c.true(s.trained is True, "trained")
        else:
            c.raises(s._set, w, exc=ValueError, label="a nonpositive new scale is rejected")
            c.scalar(s(), v, "a rejected scale leaves the old one")
    else:
        c.raises(cls, val=v, exc=ValueError, label="a nonpositive scale is rejected")


@unit("C12", fns=[H + "ScaleFn._check_positive_float"])
def scale_malformed(c):
    from MuyGPyS.gp import hyperparameter as h
    n = c.dim("n", lo=2)
    v = c.tensor("v", n, pos=True)
    bad = {"list": lambda: [1.0, 2.0], "tuple": lambda: (1.0,), "array": lambda: v, "string": lambda: "1.0x"}
    k = c.choose("kind", sorted(bad))
    cls = c.choose("class", [h.FixedScale, h.AnalyticScale])
    c.raises(lambda: cls(val=bad[k]()), exc=(ValueError, TypeError), label="a nonscalar scale is rejected")
    s = cls()
    c.raises(lambda: s._set(bad[k]()), exc=(ValueError, TypeError), label="a nonscalar new scale is rejected")
    c.scalar(s(), 1.0, "a rejected scale leaves the old one")
