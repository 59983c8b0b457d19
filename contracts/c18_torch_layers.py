"""C18: torch layers reproduce the model predictions."""
from pv.unit import unit
from contracts.common import krige_mean, krige_quad

L = ["MuyGPyS.torch.muygps_layer:MuyGPs_layer.__init__", "MuyGPyS.torch.muygps_layer:MuyGPs_layer.forward",
     "MuyGPyS.gp.muygps:MuyGPS", "MuyGPyS._src.gp.muygps.torch:_muygps_posterior_mean",
     "MuyGPyS._src.gp.muygps.torch:_muygps_diagonal_variance", "MuyGPyS.gp.deformation.isotropy:Isotropy.__call__"]
KERNELS = ["rbf", 0.5, 1.5, 2.5, "inf"]


def kern(c, kind, ls, free=False):
    from MuyGPyS.gp.deformation import Isotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels import Matern, RBF
    p = ScalarParam(ls, (0.25, 4.0)) if free else ScalarParam(ls)
    if kind == "rbf":
        return RBF(deformation=Isotropy(F2, length_scale=p))
    return Matern(smoothness=ScalarParam(float("inf") if kind == "inf" else kind), deformation=Isotropy(l2, length_scale=p))


def entry(c, kind, f, d, ls):
    """kernel of a feature difference d(s)"""
    D2 = c.sum(f, lambda s: d(s) * d(s))
    if kind == "rbf":
        return c.exp(0 - D2 / (ls * ls) / 2)
    r = c.sqrt(D2) / ls
    if kind == 0.5:
        return c.exp(0 - r)
    if kind == "inf":
        return c.exp(0 - r * r / 2)
    if kind == 1.5:
        x = r * c.sqrt(c.num(3))
        return (1 + x) * c.exp(0 - x)
    x = r * c.sqrt(c.num(5))
    return (1 + x + x * x / 3) * c.exp(0 - x)


def setup(c, R=None):
    N, b, n, f = c.dim("N"), c.dim("b"), c.dim("n"), c.dim("f")
    X = c.tensor("X", N, f)
    ind, nn = c.indices("ind", b, upper=N), c.indices("nn", b, n, upper=N)
    r = () if R is None else (R,)
    T, NT = c.tensor("t", b, *r), c.tensor("nt", b, n, *r)
    return N, b, n, f, X, ind, nn, T, NT


def forms(c, kind, f, X, ind, nn, ls, tau):
    x, I, W = c.read(X), c.read(ind), c.read(nn)
    M = lambda i: lambda p, q: entry(c, kind, f, lambda s: x[W[i, p], s] - x[W[i, q], s], ls) + c.ite(c.eq(p, q), tau, 0.0)
    k = lambda i: lambda p: entry(c, kind, f, lambda s: x[I[i], s] - x[W[i, p], s], ls)
    return M, k


def judge(c, out, b, n, M, k, y, sigma, label, R=None):
    mean, var = out
    if R is None:
        c.arr(mean, [b], lambda i: krige_mean(c, M(i), n, k(i), lambda q: y[i, q]), label + ": mean")
    else:
        c.arr(mean, [b, R], lambda i, s: krige_mean(c, M(i), n, k(i), lambda q: y[i, q, s]), label + ": mean")
    c.arr(var, [b], lambda i: sigma * (1 - krige_quad(c, M(i), n, k(i), k(i))), label + ": variance")


def reference(c, make, ls, X, ind, nn, NT):
    """mean and variance of a model holding the value, on the differences and targets of the batch"""
    m = make(ls)
    d = m.kernel.deformation
    cross, pair = d.crosswise_tensor(X, X, ind, nn), d.pairwise_tensor(X, nn)
    Kin, Kc = m.kernel(pair), m.kernel(cross)
    return m.posterior_mean(Kin, Kc, NT), m.posterior_variance(Kin, Kc)


def same(c, out, ref, dims, label):
    for o, r, what in zip(out, ref, ("mean", "variance")):
        v = c.read(r)
        d = dims if what == "mean" else dims[:1]
        c.arr(o, d, lambda *ix: v[ix], f"{label}: {what}")


def layer_relational(c, kind, R=None):
    """the same against the public predictions of a model (whose closed forms are settled by C01, C02, C06)"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.hyperparameter import FixedScale
    from MuyGPyS.gp.noise import HomoscedasticNoise
    from MuyGPyS.torch import MuyGPs_layer
    N, b, n, f, X, ind, nn, T, NT = setup(c, R)
    ls, tau, sigma = c.real("ls", lo=0.25, hi=4.0), c.real("tau", lo=0.05, hi=2.0), c.real("sigma", pos=True)
    free = c.boolean("free")
    make = lambda l: MuyGPS(kernel=kern(c, kind, l, free), noise=HomoscedasticNoise(tau), scale=FixedScale(val=sigma))
    layer = MuyGPs_layer(make(ls), ind, nn, T, NT)
    dims = [b] if R is None else [b, R]
    same(c, layer(X), reference(c, make, ls, X, ind, nn, NT), dims, "layer")
    l2 = c.real("ls2", lo=0.25, hi=4.0)
    c.set_parameter(layer.length_scale, l2)
    same(c, layer(X), reference(c, make, l2, X, ind, nn, NT), dims, "layer after a parameter update")


def layer_run(c, kind, R=None):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.hyperparameter import FixedScale
    from MuyGPyS.gp.noise import HomoscedasticNoise
    from MuyGPyS.torch import MuyGPs_layer
    N, b, n, f, X, ind, nn, T, NT = setup(c, R)
    ls, tau, sigma = c.real("ls", lo=0.25, hi=4.0), c.real("tau", lo=0.05, hi=2.0), c.real("sigma", pos=True)
    m = MuyGPS(kernel=kern(c, kind, ls, c.boolean("free")), noise=HomoscedasticNoise(tau), scale=FixedScale(val=sigma))
    layer = MuyGPs_layer(m, ind, nn, T, NT)
    y = c.read(NT)
    M, k = forms(c, kind, f, X, ind, nn, ls, tau)
    judge(c, layer(X), b, n, M, k, y, sigma, "layer", R)
    # an optimizer step on the trainable parameter
    l2 = c.real("ls2", lo=0.25, hi=4.0)
    c.set_parameter(layer.length_scale, l2)
    M, k = forms(c, kind, f, X, ind, nn, l2, tau)
    judge(c, layer(X), b, n, M, k, y, sigma, "layer after a parameter update", R)


@unit("C18", backends=("torch",), fns=L)
def layer_rbf(c):
    layer_run(c, "rbf")


@unit("C18", backends=("torch",), fns=L)
def layer_matern(c):
    layer_relational(c, c.choose("kernel", [0.5, 1.5, 2.5, "inf"]))


@unit("C18", backends=("torch",), fns=L)
def layer_multiresponse(c):
    layer_run(c, "rbf", R=c.dim("R"))


@unit("C18", backends=("torch",), fns=L)
def layer_matern_multiresponse(c):
    layer_relational(c, c.choose("kernel", [0.5, 1.5, 2.5, "inf"]), R=c.dim("R"))


@unit("C18", backends=("torch",), fns=L)
def layer_gradients(c):
    """length scale, noise and embedding reach mean and variance without being detached"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.hyperparameter import FixedScale
    from MuyGPyS.gp.noise import HomoscedasticNoise
    from MuyGPyS.torch import MuyGPs_layer
    kind = c.choose("kernel", KERNELS)
    N, b, n, f, X, ind, nn, T, NT = setup(c)
    ls, tau, sigma = c.real("ls", lo=0.25, hi=4.0), c.real("tau", lo=0.05, hi=2.0), c.real("sigma", pos=True)
    noise = HomoscedasticNoise(tau)
    m = MuyGPS(kernel=kern(c, kind, ls, True), noise=noise, scale=FixedScale(val=sigma))
    layer = MuyGPs_layer(m, ind, nn, T, NT)
    make = lambda l: MuyGPS(kernel=kern(c, kind, l, True), noise=HomoscedasticNoise(tau), scale=FixedScale(val=sigma))
    ref = reference(c, make, ls, X, ind, nn, NT)
    with c.gradients(layer.length_scale, noise(), X):
        same(c, layer(X), ref, [b], "differentiable layer")
    for j, what in enumerate(("mean", "variance")):
        c.differentiable(lambda: layer(X)[j], [layer.length_scale, noise()], "gradient of the " + what)


@unit("C18", backends=("torch",), fns=["MuyGPyS.torch.muygps_layer:MuyGPs_layer.__init__"])
def layer_rejects(c):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Anisotropy, F2
    from MuyGPyS.gp.hyperparameter import VectorParam, ScalarParam
    from MuyGPyS.gp.kernels import RBF
    from MuyGPyS.torch import MuyGPs_layer
    N, b, n, f, X, ind, nn, T, NT = setup(c)
    m = MuyGPS(kernel=RBF(deformation=Anisotropy(F2, VectorParam(ScalarParam(1.0), ScalarParam(2.0)))))
    c.raises(MuyGPs_layer, m, ind, nn, T, NT, exc=NotImplementedError, label="anisotropic deformations are rejected")


ML = ["MuyGPyS.torch.multivariate_muygps_layer:MultivariateMuyGPs_layer.__init__",
      "MuyGPyS.torch.multivariate_muygps_layer:MultivariateMuyGPs_layer.forward",
      "MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.posterior_mean",
      "MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.posterior_variance"]


@unit("C18", backends=("torch",), fns=ML)
def multi_layer(c):
    from MuyGPyS.gp import MultivariateMuyGPS, MuyGPS
    from MuyGPyS.gp.hyperparameter import FixedScale
    from MuyGPyS.gp.noise import HomoscedasticNoise
    from MuyGPyS.torch import MultivariateMuyGPs_layer
    kinds = c.choose("kernels", [["rbf"], ["rbf", "rbf"], [0.5, 1.5], [2.5, 0.5, "inf"]])
    K = len(kinds)
    N, b, n, f, X, ind, nn, T, NT = setup(c, K)
    ls = [c.real(f"ls{j}", lo=0.25, hi=4.0) for j in range(K)]
    tau = [c.real(f"tau{j}", lo=0.05, hi=2.0) for j in range(K)]
    sg = [c.real(f"sigma{j}", pos=True) for j in range(K)]
    m = MultivariateMuyGPS(*[dict(kernel=kern(c, kinds[j], ls[j], True), noise=HomoscedasticNoise(tau[j]),
                                  scale=FixedScale(val=sg[j])) for j in range(K)])
    layer = MultivariateMuyGPs_layer(m, ind, nn, T, NT)

    def refs(ls):
        make = lambda j: lambda l: MuyGPS(kernel=kern(c, kinds[j], l, True), noise=HomoscedasticNoise(tau[j]),
                                          scale=FixedScale(val=sg[j]))
        return [reference(c, make(j), ls[j], X, ind, nn, NT[:, :, j]) for j in range(K)]

    def check(ref, label):
        mean, var = layer(X)
        for j in range(K):
            rm, rv = (c.read(r) for r in ref[j])
            c.arr(mean[:, j], [b], lambda i: rm[i], f"{label}: mean {j}")
            c.arr(var[:, j], [b], lambda i: rv[i], f"{label}: variance {j}")
        c.shape(mean, [b, K], label + ": mean")
        c.shape(var, [b, K], label + ": variance")
    ps = [q.kernel.deformation.length_scale() for q in m.models]
    ref = refs(ls)
    with c.gradients(*ps, *[q.noise() for q in m.models], X):
        check(ref, "multivariate layer")
    new = [c.real(f"new{j}", lo=0.25, hi=4.0) for j in range(K)]
    for p, v in zip(ps, new):
        c.set_parameter(p, v)
    check(refs(new), "multivariate layer after a parameter update")
    for j, what in enumerate(("mean", "variance")):
        c.differentiable(lambda: layer(X)[j], ps, "gradient of the " + what)
