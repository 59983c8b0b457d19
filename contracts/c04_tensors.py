"""C04: gathering of differences and responses."""
from pv.unit import unit

FN = ["MuyGPyS._src.gp.tensors.{B}:_pairwise_tensor", "MuyGPyS._src.gp.tensors.{B}:_crosswise_tensor",
      "MuyGPyS.gp.deformation.metric:MetricFn.pairwise_differences", "MuyGPyS.gp.deformation.metric:MetricFn.crosswise_differences"]
MD = ["MuyGPyS.gp.muygps:MuyGPS.make_predict_tensors", "MuyGPyS.gp.muygps:MuyGPS.make_train_tensors",
      "MuyGPyS.gp.deformation.isotropy:Isotropy.pairwise_tensor", "MuyGPyS.gp.deformation.isotropy:Isotropy.crosswise_tensor",
      "MuyGPyS._src.gp.tensors.{B}:_F2"]


def metric(c):
    from MuyGPyS.gp.deformation import l2, F2
    return c.choose("metric", [l2, F2])


@unit("C04", fns=FN)
def tensor_pairwise(c):
    m = metric(c)
    N, b, n, f = c.dim("N"), c.dim("b"), c.dim("n"), c.dim("f")
    X, nn = c.tensor("X", N, f), c.indices("nn", b, n, upper=N)
    x, w = c.read(X), c.read(nn)
    c.arr(m.pairwise_differences(X, nn), [b, n, n, f], lambda i, p, q, s: x[w[i, p], s] - x[w[i, q], s], "pairwise differences")
    c.unchanged(X, x, "features are not modified")


@unit("C04", fns=FN)
def tensor_crosswise(c):
    m = metric(c)
    N, M, b, n, f = c.dim("N"), c.dim("M"), c.dim("b"), c.dim("n"), c.dim("f")
    X, Z = c.tensor("X", N, f), c.tensor("Z", M, f)
    nn, bi = c.indices("nn", b, n, upper=N), c.indices("bi", b, upper=M)
    x, z, w, v = c.read(X), c.read(Z), c.read(nn), c.read(bi)
    c.arr(m.crosswise_differences(Z, X, bi, nn), [b, n, f], lambda i, p, s: z[v[i], s] - x[w[i, p], s], "crosswise differences")


@unit("C04", fns=FN)
def tensor_1d(c):
    m = metric(c)
    N, M, b, n = c.dim("N"), c.dim("M"), c.dim("b"), c.dim("n")
    X, Z = c.tensor("X", N), c.tensor("Z", M)
    nn, bi = c.indices("nn", b, n, upper=N), c.indices("bi", b, upper=M)
    x, z, w, v = c.read(X), c.read(Z), c.read(nn), c.read(bi)
    c.arr(m.pairwise_differences(X, nn), [b, n, n, 1], lambda i, p, q, s: x[w[i, p]] - x[w[i, q]], "pairwise differences, 1-d features")
    c.arr(m.crosswise_differences(Z, X, bi, nn), [b, n, 1], lambda i, p, s: z[v[i]] - x[w[i, p]], "crosswise differences, 1-d features")


@unit("C04", fns=["MuyGPyS._src.gp.tensors.{B}:_F2", "MuyGPyS._src.gp.tensors.{B}:_l2"])
def tensor_metrics(c):
    from MuyGPyS.gp.deformation import l2, F2
    b, n, f = c.dim("b"), c.dim("n"), c.dim("f")
    D, P = c.tensor("D", b, n, f), c.tensor("P", b, n, n, f)
    d, p_ = c.read(D), c.read(P)
    sq = lambda g: c.sum(f, lambda s: g(s) * g(s))
    c.arr(F2(D), [b, n], lambda i, p: sq(lambda s: d[i, p, s]), "squared distance")
    c.arr(l2(D), [b, n], lambda i, p: c.sqrt(sq(lambda s: d[i, p, s])), "distance")
    c.arr(F2(P), [b, n, n], lambda i, p, q: sq(lambda s: p_[i, p, q, s]), "pairwise squared distance")
    c.arr(l2(P), [b, n, n], lambda i, p, q: c.sqrt(sq(lambda s: p_[i, p, q, s])), "pairwise distance")
    c.unchanged(D, d, "differences are not modified")


def mk(c, iso, met):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, Anisotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam, VectorParam
    from MuyGPyS.gp.kernels import Matern, RBF
    if iso:
        d = Isotropy(metric=F2 if met else l2, length_scale=ScalarParam(1.0))
    else:
        d = Anisotropy(metric=F2 if met else l2, length_scale=VectorParam(ScalarParam(1.0), ScalarParam(1.0)))
    return MuyGPS(kernel=RBF(deformation=d) if met else Matern(deformation=d))


def tensors(c, iso, met, resp, names):
    m = mk(c, iso, met)
    N, M, b, n, f = c.dim("N"), c.dim("M"), c.dim("b"), c.dim("n"), (c.dim("f") if iso else 2)
    X, Z = c.tensor("X", N, f), c.tensor("Z", M, f)
    R = tuple(c.dim(r) for r in resp)
    y = c.tensor("y", N, *R)
    nn, bi, ti_ = c.indices("nn", b, n, upper=N), c.indices("bi", b, upper=M), c.indices("ti", b, upper=N)
    x, z, w, v, t, Y = c.read(X), c.read(Z), c.read(nn), c.read(bi), c.read(ti_), c.read(y)

    def out(g):
        if not iso:
            return g
        q = lambda *ix: c.sum(f, lambda s: g(*ix, s) * g(*ix, s))
        return q if met else (lambda *ix: c.sqrt(q(*ix)))
    tail = [] if iso else [f]
    cross = lambda zz, vv: out(lambda i, p, s: zz[vv[i], s] - x[w[i, p], s])
    pair = out(lambda i, p, q, s: x[w[i, p], s] - x[w[i, q], s])
    if "predict" in names:
        C, P, T = m.make_predict_tensors(bi, nn, Z, X, y)
        c.arr(C, [b, n] + tail, cross(z, v), "crosswise tensor for prediction")
        c.arr(P, [b, n, n] + tail, pair, "pairwise tensor for prediction")
        c.arr(T, [b, n] + list(R), lambda i, p, *s: Y[(w[i, p],) + s], "neighbor responses")
        C, P, T = m.make_predict_tensors(ti_, nn, None, X, y)
        c.arr(C, [b, n] + tail, cross(x, t), "crosswise tensor, training features")
    else:
        C, P, B, T = m.make_train_tensors(ti_, nn, X, y)
        c.arr(C, [b, n] + tail, cross(x, t), "crosswise tensor for training")
        c.arr(P, [b, n, n] + tail, pair, "pairwise tensor for training")
        c.arr(B, [b] + list(R), lambda i, *s: Y[(t[i],) + s], "batch responses")
        c.arr(T, [b, n] + list(R), lambda i, p, *s: Y[(w[i, p],) + s], "neighbor responses")
    for a, s in ((X, x), (Z, z), (y, Y), (nn, w)):
        c.unchanged(a, s, "inputs are not modified")


@unit("C04", fns=MD)
def tensors_predict_iso(c):
    tensors(c, True, c.boolean("F2"), (), "predict")


@unit("C04", fns=MD)
def tensors_predict_multi(c):
    tensors(c, True, True, ("R",), "predict")


@unit("C04", fns=MD)
def tensors_predict_aniso(c):
    tensors(c, False, c.boolean("F2"), ("R",), "predict")


@unit("C04", fns=MD)
def tensors_train_iso(c):
    tensors(c, True, c.boolean("F2"), (), "train")


@unit("C04", fns=MD)
def tensors_train_multi(c):
    tensors(c, True, True, ("R",), "train")


@unit("C04", fns=MD)
def tensors_train_aniso(c):
    tensors(c, False, c.boolean("F2"), ("R",), "train")


GT = ["MuyGPyS.gp.tensors:make_predict_tensors", "MuyGPyS.gp.tensors:make_train_tensors", "MuyGPyS.gp.tensors:batch_features_tensor",
      "MuyGPyS.gp.tensors:make_heteroscedastic_tensor"]


@unit("C04", fns=GT[2:])
def tensors_gather(c):
    from MuyGPyS.gp.tensors import batch_features_tensor, make_heteroscedastic_tensor
    N, b, n, f = c.dim("N"), c.dim("b"), c.dim("n"), c.dim("f")
    X, e = c.tensor("X", N, f), c.tensor("e", N)
    nn, bi = c.indices("nn", b, n, upper=N), c.indices("bi", b, upper=N)
    x, ev, w, v = c.read(X), c.read(e), c.read(nn), c.read(bi)
    c.arr(batch_features_tensor(X, bi), [b, f], lambda i, s: x[v[i], s], "batch features")
    c.arr(make_heteroscedastic_tensor(e, nn), [b, n], lambda i, p: ev[w[i, p]], "heteroscedastic noise tensor")


@unit("C04", fns=["MuyGPyS._src.gp.tensors.{B}:_pairwise_differences", "MuyGPyS._src.gp.tensors.{B}:_crosswise_differences"])
def point_differences(c):
    """differences of gathered points, with or without a batch dimension"""
    from MuyGPyS._src.gp.tensors import _pairwise_differences, _crosswise_differences
    b, n, f = c.dim("b"), c.dim("n"), c.dim("f")
    P, L = c.tensor("P", b, n, f), c.tensor("L", b, f)
    p, l = c.read(P), c.read(L)
    c.arr(_pairwise_differences(P), [b, n, n, f], lambda i, u, v, s: p[i, u, s] - p[i, v, s], "batched pairwise differences")
    c.arr(_crosswise_differences(L, P), [b, n, f], lambda i, u, s: l[i, s] - p[i, u, s], "batched crosswise differences")
    c.arr(_pairwise_differences(L), [b, b, f], lambda u, v, s: l[u, s] - l[v, s], "unbatched pairwise differences")
    c.raises(_pairwise_differences, c.tensor("Q", b, n, n, f), exc=ValueError, label="points of unknown rank are rejected")
