"""C06: kernel closed forms."""
import math
from pv.unit import unit

KF = ["MuyGPyS.gp.kernels.rbf:RBF.__call__", "MuyGPyS._src.gp.kernels.{B}:_rbf_fn"]
MF = ["MuyGPyS.gp.kernels.matern:Matern.__call__", "MuyGPyS.gp.kernels.matern:_set_matern_fn",
      "MuyGPyS._src.gp.kernels.{B}:_matern_05_fn", "MuyGPyS._src.gp.kernels.{B}:_matern_15_fn",
      "MuyGPyS._src.gp.kernels.{B}:_matern_25_fn", "MuyGPyS._src.gp.kernels.{B}:_matern_inf_fn"]
GEN = ["MuyGPyS._src.gp.kernels.{B}:_matern_gen_fn", "MuyGPyS.gp.kernels.matern:_set_matern_fn"]


def imports():
    from MuyGPyS.gp import deformation as d, hyperparameter as h, kernels as k
    return d, h, k


def closed(c, nu, d):
    if nu == 0.5:
        return c.exp(-d)
    if nu == 1.5:
        k = c.sqrt(c.real_const(3)) * d
        return (1 + k) * c.exp(-k)
    if nu == 2.5:
        k = c.sqrt(c.real_const(5)) * d
        return (1 + k + k * k / 3) * c.exp(-k)
    return c.exp(-(d * d) / 2)


EPS = 2 ** -52


def bessel(c, nu, d):
    """the general form, evaluated at machine epsilon when d is zero"""
    x = c.ite(c.eq0(d), c.num(2.0 ** -52), d)
    t = c.sqrt(2 * nu) * x
    return c.pow(2, 1 - nu) / c.fn("gamma", nu) * c.pow(t, nu) * c.fn("kv", nu, t)


def run(c, K, T, t, dims, form, scale, ls, cand):
    """stored and call-time length scale, directly and through the optimization function"""
    f = c.choose("via", [K, K.get_opt_fn()])
    c.arr(f(T), dims, lambda *ix: form(scale(t[ix], ls)), "kernel of the deformed distance")
    c.arr(f(T, length_scale=cand), dims, lambda *ix: form(scale(t[ix], cand)), "kernel, call-time length scale")
    c.arr(f(T), dims, lambda *ix: form(scale(t[ix], ls)), "kernel, stored length scale after an override")
    c.unchanged(T, t, "the difference tensor is not modified")
    c.scalar(K.Kout(), 1, "prior variance")


@unit("C06", fns=KF)
def rbf(c):
    d, h, k = imports()
    ls, cand = c.real("ls", pos=True), c.real("cand", pos=True)
    K = k.RBF(deformation=d.Isotropy(metric=d.F2, length_scale=h.ScalarParam(ls)))
    dims = [c.dim("b"), c.dim("n")] + ([c.dim("m")] if c.boolean("pairwise") else [])
    T = c.tensor("T", *dims, lo=0)
    run(c, K, T, c.read(T), dims, lambda x: c.exp(-x / 2), lambda v, l: v / (l * l), ls, cand)


def matern(c, nu):
    d, h, k = imports()
    ls, cand = c.real("ls", pos=True), c.real("cand", pos=True)
    K = k.Matern(smoothness=h.ScalarParam(nu), deformation=d.Isotropy(metric=d.l2, length_scale=h.ScalarParam(ls)))
    dims = [c.dim("b"), c.dim("n")] + ([c.dim("m")] if c.boolean("pairwise") else [])
    T = c.tensor("T", *dims, lo=0)
    run(c, K, T, c.read(T), dims, lambda x: closed(c, nu, x), lambda v, l: v / l, ls, cand)


@unit("C06", fns=MF)
def matern_half(c):
    matern(c, 0.5)


@unit("C06", fns=MF)
def matern_three_halves(c):
    matern(c, 1.5)


@unit("C06", fns=MF)
def matern_five_halves(c):
    matern(c, 2.5)


@unit("C06", fns=MF)
def matern_infinite(c):
    matern(c, math.inf)


@unit("C06", fns=MF)
def matern_aniso(c):
    d, h, k = imports()
    nu = c.choose("nu", [0.5, 1.5, 2.5])
    l0, l1 = c.real("l0", pos=True), c.real("l1", pos=True)
    K = k.Matern(smoothness=h.ScalarParam(nu), deformation=d.Anisotropy(
        metric=d.l2, length_scale=h.VectorParam(h.ScalarParam(l0), h.ScalarParam(l1))))
    b, n = c.dim("b"), c.dim("n")
    T = c.tensor("T", b, n, 2)
    t = c.read(T)
    dist = lambda i, p: c.sqrt((t[i, p, 0] / l0) * (t[i, p, 0] / l0) + (t[i, p, 1] / l1) * (t[i, p, 1] / l1))
    c.arr(K(T), [b, n], lambda i, p: closed(c, nu, dist(i, p)), "anisotropic kernel")
    c.unchanged(T, t, "the difference tensor is not modified")


@unit("C06", backends=("numpy",), fns=GEN)
def matern_general(c):
    """fixed smoothness without a closed form, or any smoothness that is trained"""
    d, h, k = imports()
    ls, cand = c.real("ls", pos=True), c.real("cand", pos=True)
    trained = c.boolean("trained")
    nu = c.choose("nu", [0.5, 1.5, 2.5, 1.0, 0.7]) if trained else c.choose("nu", [0.38, 1.0, 2.2, 3.5, 0.505, 1.4951, 2.5005])
    nu = c.num(nu)
    sm = h.ScalarParam(nu, (0.1, 4.0)) if trained else h.ScalarParam(nu)
    K = k.Matern(smoothness=sm, deformation=d.Isotropy(metric=d.l2, length_scale=h.ScalarParam(ls)))
    dims = [c.dim("b"), c.dim("n")]
    T = c.tensor("T", *dims, lo=0)
    if not c.symbolic and c.boolean("zero"):
        T[0, 0] = 0.0
    run(c, K, T, c.read(T), dims, lambda x: bessel(c, nu, x), lambda v, l: v / l, ls, cand)


@unit("C06", backends=("numpy",), fns=GEN)
def matern_trained(c):
    """a trained smoothness supplied at call time takes part for that call only"""
    d, h, k = imports()
    ls, nu, cand = c.real("ls", pos=True), c.real("nu", lo=0.5, hi=3), c.real("cand", lo=0.5, hi=3)
    K = k.Matern(smoothness=h.ScalarParam(nu, (0.25, 4.0)), deformation=d.Isotropy(metric=d.l2, length_scale=h.ScalarParam(ls)))
    dims = [c.dim("b"), c.dim("n")]
    T = c.tensor("T", *dims, lo=0)
    t = c.read(T)
    f = c.choose("via", [K, K.get_opt_fn()])
    spec = lambda v: lambda *ix: bessel(c, v, t[ix] / ls)
    c.arr(f(T, smoothness=cand), dims, spec(cand), "kernel with the supplied smoothness")
    c.arr(f(T), dims, spec(nu), "kernel with the stored smoothness")
    c.unchanged(T, t, "the difference tensor is not modified")


@unit("C06", backends=("numpy",), fns=GEN)
def matern_general_limit(c):
    """the general form agrees with the closed forms at their smoothness"""
    d, h, k = imports()
    ls = c.real("ls", pos=True)
    c.half_integers()
    p = c.choose("twice_nu", [1, 3, 5])
    D = lambda: d.Isotropy(metric=d.l2, length_scale=h.ScalarParam(ls))
    A = k.Matern(smoothness=h.ScalarParam(p / 2), deformation=D())
    G = k.Matern(smoothness=h.ScalarParam(c.real_const(p, 2), (0.1, 4.0)), deformation=D())
    b, n = c.dim("b"), c.dim("n")
    T = c.tensor("T", b, n, pos=True)
    a = c.read(A(T))
    c.arr(G(T), [b, n], lambda i, p: a[i, p], "general form at a closed-form smoothness")


@unit("C06", fns=["MuyGPyS.gp.kernels.matern:_set_matern_fn"], backends=("torch",))
def matern_torch_limit(c):
    """torch declares, rather than miscomputes, the smoothnesses it does not support"""
    d, h, k = imports()
    nu = c.choose("nu", [0.38, 1.0, 2.2])
    K = k.Matern(smoothness=h.ScalarParam(nu), deformation=d.Isotropy(metric=d.l2, length_scale=h.ScalarParam(1.0)))
    b, n = c.dim("b"), c.dim("n")
    c.raises(K, c.tensor("T", b, n, lo=0), exc=NotImplementedError, label="unsupported smoothness is rejected")


@unit("C06", fns=["MuyGPyS.gp.kernels.kernel_fn:KernelFn.set_params"])
def kernel_opt_params(c):
    """unfixed hyperparameters are listed once each, by name, with value and bounds"""
    d, h, k = imports()
    fl, fs = c.boolean("fixed_ls"), c.boolean("fixed_nu")
    ls, nu = c.real("ls", lo=1, hi=2), c.real("nu", lo=1, hi=2)
    K = k.Matern(smoothness=h.ScalarParam(nu, "fixed" if fs else (0.5, 2.5)),
                 deformation=d.Isotropy(metric=d.l2, length_scale=h.ScalarParam(ls, "fixed" if fl else (0.25, 4.0))))
    names, params, bounds = K.get_opt_params()
    want = ([] if fl else [("length_scale", ls, (0.25, 4.0))]) + ([] if fs else [("smoothness", nu, (0.5, 2.5))])
    c.true(list(names) == [w[0] for w in want], "names of the unfixed hyperparameters")
    c.true(len(params) == len(want) and len(bounds) == len(want), "one value and one pair of bounds per name")
    for p, b_, w in zip(params, bounds, want):
        c.scalar(p, w[1], "value of " + w[0])
        c.scalar(b_[0], w[2][0], "lower bound of " + w[0])
        c.scalar(b_[1], w[2][1], "upper bound of " + w[0])
