"""C11: loss functions."""
from pv.unit import unit

L = "MuyGPyS._src.optimize.loss.{B}:"
F = "MuyGPyS.optimize.loss:LossFn.__call__"


def loss():
    from MuyGPyS.optimize import loss as l
    return l


def data(c, multi, var=True):
    b = c.dim("b")
    dims = (b, c.dim("R")) if multi else (b,)
    P, T = c.tensor("P", *dims), c.tensor("T", *dims)
    V = c.tensor("V", *dims, pos=True) if var else None
    return dims, P, T, V, c.read(P), c.read(T), (c.read(V) if var else None)


def ix(k):
    return k if isinstance(k, tuple) else (k,)


def total(c, dims, f):
    return c.sum(dims, lambda *k: f(*k))


def both(f):
    return f


@unit("C11", fns=[L + "_mse_fn", L + "_mse_fn_unnormalized", F])
def mse(c):
    dims, P, T, _, p, t, _ = data(c, c.boolean("multi"), False)
    n = 1
    for d in dims:
        n = n * d
    want = total(c, dims, lambda *k: (p[k] - t[k]) * (p[k] - t[k])) / n
    c.scalar(loss().mse_fn(P, T), want, "mean squared error")
    c.unchanged(P, p, "the predictions are not modified")
    c.unchanged(T, t, "the targets are not modified")


def lool_spec(c, dims, p, t, v):
    return total(c, dims, lambda *k: (p[k] - t[k]) * (p[k] - t[k]) / v(*k) + c.log(v(*k)))


@unit("C11", fns=[L + "_lool_fn", L + "_lool_fn_unscaled", F])
def lool(c):
    dims, P, T, V, p, t, v = data(c, c.boolean("multi"))
    s = c.real("scale", pos=True)
    c.scalar(loss().lool_fn_unscaled(P, T, V), lool_spec(c, dims, p, t, lambda *k: v[k]), "unscaled likelihood")
    c.scalar(loss().lool_fn(P, T, V, s), lool_spec(c, dims, p, t, lambda *k: s * v[k]), "likelihood")
    for a, r in ((P, p), (T, t), (V, v)):
        c.unchanged(a, r, "the arguments are not modified")


@unit("C11", fns=[L + "_lool_fn", F])
def lool_vector_scale(c):
    dims, P, T, V, p, t, v = data(c, True)
    S = c.tensor("S", dims[1], pos=True)
    s = c.read(S)
    c.scalar(loss().lool_fn(P, T, V, S), lool_spec(c, dims, p, t, lambda i, k: s[k] * v[i, k]), "likelihood, a scale per response")


@unit("C11", fns=[L + "_lool_fn", L + "_lool_fn_unscaled", F])
def lool_multioutput(c):
    """residual quadratic form in the inverse covariance plus log-determinant"""
    b, o = c.dim("b"), c.dim("o")
    P, T = c.tensor("P", b, o), c.tensor("T", b, o)
    V = c.cov("V", (b,), (o,))
    p, t, v = c.read(P), c.read(T), c.read(V)
    s = c.real("scale", pos=True)

    def spec(f):
        M = lambda i: lambda x, y: f * v[i, x, y]
        return c.sum(b, lambda i: c.sum((o, o), lambda x, y: (p[i, x] - t[i, x]) * c.inv(o, M(i))(x, y) * (
            p[i, y] - t[i, y])) + c.logdet(o, M(i)))
    c.scalar(loss().lool_fn_unscaled(P, T, V), spec(1), "unscaled multi-output likelihood")
    c.scalar(loss().lool_fn(P, T, V, s), spec(s), "multi-output likelihood")
    for a, r in ((P, p), (T, t), (V, v)):
        c.unchanged(a, r, "the arguments are not modified")


def huber(c, x, d):
    return d * d * (c.sqrt(1 + x / (d * d)) - 1)


@unit("C11", fns=[L + "_pseudo_huber_fn", F])
def pseudo_huber(c):
    dims, P, T, _, p, t, _ = data(c, c.boolean("multi"), False)
    d = c.real("delta", pos=True)
    q = lambda k: (t[k] - p[k]) * (t[k] - p[k])
    c.scalar(loss().pseudo_huber_fn(P, T, boundary_scale=d), total(c, dims, lambda *k: huber(c, q(k), d)), "pseudo-Huber")
    h = c.num(1.5)
    c.scalar(loss().pseudo_huber_fn(P, T), total(c, dims, lambda *k: huber(c, q(k), h)), "pseudo-Huber, default boundary")


@unit("C11", fns=[L + "_looph_fn", L + "_looph_fn_unscaled", F])
def looph(c):
    dims, P, T, V, p, t, v = data(c, c.boolean("multi"))
    s, d = c.real("scale", pos=True), c.real("delta", pos=True)

    def spec(d):
        return total(c, dims, lambda *k: 2 * huber(c, (t[k] - p[k]) * (t[k] - p[k]) / (s * v[k]), d) + c.log(s * v[k]))
    c.scalar(loss().looph_fn(P, T, V, s, boundary_scale=d), spec(d), "leave-one-out pseudo-Huber")
    c.scalar(loss().looph_fn(P, T, V, s), spec(c.num(3.0)), "leave-one-out pseudo-Huber, default boundary")
    for a, r in ((P, p), (T, t), (V, v)):
        c.unchanged(a, r, "the arguments are not modified")


@unit("C11", fns=[L + "_looph_fn_unscaled", F])
def looph_multioutput(c):
    b, o = c.dim("b"), c.dim("o")
    P, T, V = c.tensor("P", b, o), c.tensor("T", b, o), c.cov("V", (b,), (o,))
    c.raises(loss().looph_fn, P, T, V, c.real("scale", pos=True), exc=ValueError, label="multi-output covariances are rejected")


@unit("C11", fns=[L + "_cross_entropy_fn", F])
def cross_entropy(c):
    b, R = c.dim("b"), c.dim("R", lo=2)
    P, T = c.tensor("P", b, R), c.tensor("T", b, R)
    p, t = c.read(P), c.read(T)

    def logp(i, k):
        return c.log(c.exp(p[i, k]) / c.sum(R, lambda l: c.exp(p[i, l])))
    c.scalar(loss().cross_entropy_fn(P, T), -c.sum((b, R), lambda i, k: c.ite(t[i, k] > 0, logp(i, k), 0.0)), "cross entropy")
    c.unchanged(P, p, "the predictions are not modified")
    c.unchanged(T, t, "the targets are not modified")
