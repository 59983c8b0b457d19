"""C13: every operation is the same function under the NumPy and the Torch implementation.

Relational: both implementations are called on the same entries and compared shape by shape and entry by entry;
no closed form is involved."""
import importlib
from pv.unit import unit

G = "MuyGPyS._src.gp."
O = "MuyGPyS._src.optimize."


def fns(pkg, *names):
    return [f"{pkg}.{b}:{n}" for b in ("numpy", "torch") for n in names]


def both(c, pkg, name, args, label, **kw):
    """call the two implementations; arrays are handed over in each library's type"""
    f = getattr(importlib.import_module(pkg + ".numpy"), name)
    g = getattr(importlib.import_module(pkg + ".torch"), name)
    conv = lambda a: c.other(a, "torch") if len(getattr(a, "shape", ())) else a
    ts = [conv(a) for a in args]
    tk = {k: conv(v) for k, v in kw.items()}
    r = f(*args, **kw)
    s = g(*ts, **tk)
    c.same(s, r, label, unlike=True)
    return r, s


M = G + "muygps"


@unit("C13", backends=("numpy",), fns=fns(M, "_muygps_posterior_mean"))
def both_mean(c):
    b, n = c.dim("b"), c.dim("n")
    Kin, k = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n)
    if c.boolean("multi"):
        y = c.tensor("yr", b, n, c.dim("R"))
    else:
        y = c.tensor("y", b, n)
    both(c, M, "_muygps_posterior_mean", [Kin, k, y], "posterior mean")


@unit("C13", backends=("numpy",), fns=fns(M, "_muygps_posterior_mean"))
def both_mean_multi(c):
    b, n, o, e = c.dim("b"), c.dim("n"), c.dim("o", lo=2), c.dim("e")
    Kin, k = c.cov("Kin", (b,), (o, n)), c.tensor("Kcross", b, o, n, e)
    if c.boolean("multi"):
        y = c.tensor("yr", b, o, n, c.dim("R"))
    else:
        y = c.tensor("y", b, o, n)
    both(c, M, "_muygps_posterior_mean", [Kin, k, y], "posterior mean")


@unit("C13", backends=("numpy",), fns=fns(M, "_muygps_diagonal_variance"))
def both_variance(c):
    b, n = c.dim("b"), c.dim("n")
    Kin, k = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n)
    both(c, M, "_muygps_diagonal_variance", [Kin, k, c.real("Kout")], "posterior variance")


@unit("C13", backends=("numpy",), fns=fns(M, "_muygps_diagonal_variance"))
def both_variance_multi(c):
    b, n, o, e = c.dim("b"), c.dim("n"), c.dim("o", lo=2), c.dim("e")
    Kin, k = c.cov("Kin", (b,), (o, n)), c.tensor("Kcross", b, o, n, e)
    both(c, M, "_muygps_diagonal_variance", [Kin, k, c.tensor("Kout", e, e)], "posterior variance")


@unit("C13", backends=("numpy",), fns=fns(M, "_muygps_fast_posterior_mean", "_mmuygps_fast_posterior_mean", "_muygps_fast_posterior_mean_precompute"))
def both_fast(c):
    b, n, R = c.dim("b"), c.dim("n"), c.dim("R")
    Kin, k, y = c.cov("Kin", (b,), (n,)), c.tensor("Kcross", b, n), c.tensor("y", b, n)
    both(c, M, "_muygps_fast_posterior_mean_precompute", [Kin, y], "fast coefficients")
    both(c, M, "_muygps_fast_posterior_mean", [k, y], "fast posterior mean")
    both(c, M, "_muygps_fast_posterior_mean", [k, c.tensor("co", b, n, R)], "fast posterior mean of many responses")
    both(c, M, "_mmuygps_fast_posterior_mean", [c.tensor("mk", b, n, R), c.tensor("mc", b, n, R)], "multivariate fast posterior mean")


T = G + "tensors"


@unit("C13", backends=("numpy",), fns=fns(T, "_crosswise_tensor", "_pairwise_tensor", "_batch_features_tensor", "_make_heteroscedastic_tensor"))
def both_gather(c):
    N, M_, b, n = c.dim("N"), c.dim("M"), c.dim("b"), c.dim("n")
    if c.boolean("matrix"):
        F = c.dim("F")
        X, Z = c.tensor("X", N, F), c.tensor("Z", M_, F)
    else:
        X, Z = c.tensor("X1", N), c.tensor("Z1", M_)
    nn, at = c.indices("nn", b, n, upper=N), c.indices("at", b, upper=M_)
    both(c, T, "_pairwise_tensor", [X, nn], "pairwise differences")
    both(c, T, "_crosswise_tensor", [Z, X, at, nn], "crosswise differences")
    both(c, T, "_batch_features_tensor", [Z, at], "batch features")
    both(c, T, "_make_heteroscedastic_tensor", [c.tensor("noise", N), nn], "noise of the neighbors")


@unit("C13", backends=("numpy",), fns=fns(T, "_crosswise_differences", "_pairwise_differences", "_F2", "_l2", "_fast_nn_update", "_make_fast_predict_tensors"))
def both_differences(c):
    N, b, n, F = c.dim("N"), c.dim("b"), c.dim("n"), c.dim("F")
    P, Z = c.tensor("P", b, n, F), c.tensor("Z", b, F)
    D, _ = both(c, T, "_pairwise_differences", [P], "differences of points")
    both(c, T, "_crosswise_differences", [Z, P], "differences from locations")
    both(c, T, "_F2", [D], "squared distances")
    both(c, T, "_l2", [D], "distances")


@unit("C13", backends=("numpy",), fns=fns(T, "_fast_nn_update", "_make_fast_predict_tensors"))
def both_fast_tensors(c):
    N, n, F = c.dim("N"), c.dim("n"), c.dim("F")
    nn = c.indices("nn", N, n, upper=N)
    X, y = c.tensor("X", N, F), c.tensor("y", N, c.dim("R")) if c.boolean("multi") else c.tensor("y1", N)
    both(c, T, "_fast_nn_update", [nn], "updated neighborhoods")
    both(c, T, "_make_fast_predict_tensors", [nn, X, y], "tensors of the fast prediction")


K = G + "kernels"
KN = ("_rbf_fn", "_matern_05_fn", "_matern_15_fn", "_matern_25_fn", "_matern_inf_fn")


@unit("C13", backends=("numpy",), fns=fns(K, *KN))
def both_kernels(c):
    b, n = c.dim("b"), c.dim("n")
    D = c.dists("d", (b,), n) if c.boolean("pairwise") else c.tensor("k", b, n, lo=0)
    for name in KN:
        both(c, K, name, [D], "kernel " + name)


S = G + "kernels.shear"


@unit("C13", backends=("numpy",), fns=fns(S, "_shear_33_fn"))
def both_shear(c):
    b, n, l = c.dim("b"), c.dim("n"), c.real("ls", lo=0.25, hi=4.0)
    both(c, S, "_shear_33_fn", [c.tensor("d", b, n, n, 2)], "pairwise shear covariance", length_scale=l)
    both(c, S, "_shear_33_fn", [c.tensor("e", b, n, 2)], "crosswise shear covariance", length_scale=l)


Z = G + "noise"


@unit("C13", backends=("numpy",), fns=fns(Z, "_homoscedastic_perturb", "_heteroscedastic_perturb", "_shear_perturb33"))
def both_noise(c):
    b, n, o, t = c.dim("b"), c.dim("n"), c.dim("o"), c.real("noise", lo=0)
    A = c.tensor("K", b, n, n)
    both(c, Z, "_homoscedastic_perturb", [A, t], "homoscedastic noise")
    both(c, Z, "_homoscedastic_perturb", [c.tensor("K5", b, o, n, o, n), t], "homoscedastic noise of many outputs")
    both(c, Z, "_heteroscedastic_perturb", [A, c.tensor("t", b, n, lo=0)], "heteroscedastic noise")
    both(c, Z, "_shear_perturb33", [c.tensor("K3", b, 3, n, 3, n), t], "shear noise")


L = O + "loss"
LN = ("_mse_fn", "_mse_fn_unnormalized", "_lool_fn", "_lool_fn_unscaled", "_pseudo_huber_fn", "_looph_fn", "_looph_fn_unscaled")


@unit("C13", backends=("numpy",), fns=fns(L, *LN))
def both_losses(c):
    b = c.dim("b")
    dims = (b, c.dim("R")) if c.boolean("multi") else (b,)
    P, Y, V = c.tensor("P", *dims), c.tensor("T", *dims), c.tensor("V", *dims, pos=True)
    s, d = c.real("scale", pos=True), c.real("delta", pos=True)
    both(c, L, "_mse_fn", [P, Y], "mean squared error")
    both(c, L, "_mse_fn_unnormalized", [P, Y], "sum of squared errors")
    both(c, L, "_lool_fn", [P, Y, V, s], "likelihood")
    both(c, L, "_lool_fn_unscaled", [P, Y, V], "unscaled likelihood")
    both(c, L, "_pseudo_huber_fn", [P, Y], "pseudo-Huber loss, default boundary")
    both(c, L, "_pseudo_huber_fn", [P, Y], "pseudo-Huber loss", boundary_scale=d)
    both(c, L, "_looph_fn", [P, Y, V, s], "variance-scaled pseudo-Huber loss, default boundary")
    both(c, L, "_looph_fn", [P, Y, V, s], "variance-scaled pseudo-Huber loss", boundary_scale=d)
    both(c, L, "_looph_fn_unscaled", [P, Y, V], "unscaled variance-scaled pseudo-Huber loss", boundary_scale=d)


@unit("C13", backends=("numpy",), fns=fns(L, "_lool_fn", "_lool_fn_unscaled"))
def both_lool_multi(c):
    b, o = c.dim("b"), c.dim("o", lo=2)
    P, Y, V = c.tensor("P", b, o), c.tensor("T", b, o), c.cov("V", (b,), (o,))
    both(c, L, "_lool_fn", [P, Y, V, c.real("scale", pos=True)], "multi-output likelihood")
    both(c, L, "_lool_fn_unscaled", [P, Y, V], "unscaled multi-output likelihood")


@unit("C13", backends=("numpy",), fns=fns(L, "_cross_entropy_fn"))
def both_cross_entropy(c):
    n, C = c.dim("n"), c.dim("classes", lo=2)
    both(c, L, "_cross_entropy_fn", [c.tensor("P", n, C), c.tensor("T", n, C)], "cross entropy")


A = O + "scale"


@unit("C13", backends=("numpy",), fns=fns(A, "_analytic_scale_optim", "_analytic_scale_optim_unnormalized"))
def both_scale(c):
    b, n, o = c.dim("b"), c.dim("n"), c.dim("o", lo=2)
    both(c, A, "_analytic_scale_optim", [c.cov("Kin", (b,), (n,)), c.tensor("y", b, n)], "analytic scale")
    both(c, A, "_analytic_scale_optim", [c.cov("K5", (b,), (o, n)), c.tensor("y5", b, o, n)], "analytic scale of many outputs")


X = "MuyGPyS._src.math"


@unit("C13", backends=("numpy",), fns=["MuyGPyS._src.math.numpy:assign", "MuyGPyS._src.math.torch:assign", "MuyGPyS._src.math.meta:wrap_torch_signature",
                                        "MuyGPyS._src.math.meta:fix_type"])
def both_math(c):
    a, b, x = c.dim("a"), c.dim("b"), c.real("x")
    V, W = c.tensor("V", a, b), c.tensor("W", a, b)
    v = c.read(V)
    for name in ("sum",):
        both(c, X, name, [V], name)
        both(c, X, name, [V], name + " along an axis", axis=0)
        both(c, X, name, [V], name + " along the last axis", axis=-1)
    for name in ("exp", "atleast_1d", "atleast_2d", "squeeze"):
        both(c, X, name, [V], name)
    both(c, X, "divide", [V, W], "divide")
    both(c, X, "diagonal", [c.tensor("Q", a, a)], "diagonal")
    for name in ("eye", "ones", "zeros", "arange"):
        both(c, X, name, [a], name)
    both(c, X, "full", [(a, b), x], "full")
    both(c, X, "assign", [V, x, 0, 0], "assign")
    c.unchanged(V, v, "assignment returns a copy")
    both(c, X, "outer", [c.tensor("p", a), c.tensor("q", b)], "outer")
