"""C20: the shear covariances are combinations of fourth derivatives of the squared exponential kernel.

The specification differentiates exp(-(x^2 + y^2) / (2 l)) by machine: a derivative is a polynomial in
x, y and 1/l times the exponential, and d/dx (p e) = (dp/dx - x p / l) e."""
from fractions import Fraction
from pv.unit import unit

S = "MuyGPyS.gp.kernels.experimental.shear:ShearKernel."
S2 = "MuyGPyS.gp.kernels.experimental.shear:ShearKernel2in3out."
F33 = ["MuyGPyS._src.gp.kernels.shear.{B}:_shear_33_fn", S + "__call__"]
F23 = ["MuyGPyS._src.gp.kernels.shear.{B}:_shear_Kin23_fn", "MuyGPyS._src.gp.kernels.shear.{B}:_shear_Kcross23_fn", S2 + "__call__"]


def derivative(nx, ny):
    """{(i, j, k): a}: the derivative is the sum of a x^i y^j l^-k times the exponential"""
    p = {(0, 0, 0): Fraction(1)}
    for v in [0] * nx + [1] * ny:
        q = {}
        for e, a in p.items():
            if e[v]:
                d = list(e)
                d[v] -= 1
                q[tuple(d)] = q.get(tuple(d), 0) + a * e[v]
            u = list(e)
            u[v] += 1
            u[2] += 1
            q[tuple(u)] = q.get(tuple(u), 0) - a
        p = q
    return p


# components as combinations of second derivatives of the potential: convergence, first and second shear
COMP = [{(2, 0): Fraction(1, 2), (0, 2): Fraction(1, 2)}, {(2, 0): Fraction(1, 2), (0, 2): Fraction(-1, 2)}, {(1, 1): Fraction(1)}]


def block(a, b):
    """covariance of components a and b: the derivatives by the second point cancel their signs (even order)"""
    p = {}
    for (i, j), u in COMP[a].items():
        for (k, l), v in COMP[b].items():
            for e, w in derivative(i + k, j + l).items():
                p[e] = p.get(e, 0) + u * v * w
    return {e: w for e, w in p.items() if w}


BLOCKS = [[block(a, b) for b in range(3)] for a in range(3)]


def value(c, a, b, x, y, l):
    r = 0
    for (i, j, k), w in BLOCKS[a][b].items():
        t = c.real_const(w.numerator, w.denominator) if c.symbolic else float(w)
        for f, n in ((x, i), (y, j), (1 / l, k)):
            for _ in range(n):
                t = t * f
        r = r + t
    return r * c.exp(0 - (x * x + y * y) / (2 * l))


def zero(c):
    return c.real_const(0, 1) if c.symbolic else 0.0


def pick(c, i, vals, lo=0):
    """vals[i] for an index that may be symbolic"""
    r = vals(2)
    for j in range(1, lo - 1, -1):
        r = c.ite(c.eq(i, j - lo), vals(j), r)
    return r


def cov(c, d, l, rows=0, cols=0):
    """entries: rows/cols: first output component (1 drops the convergence)"""
    return lambda lead, a, p, b, q: pick(c, a, lambda i: pick(c, b, lambda j: value(
        c, i, j, d[lead + (p, q, 0)], d[lead + (p, q, 1)], l), cols), rows)


def kernel(c, two=False, name="ls"):
    from MuyGPyS.gp.deformation import DifferenceIsotropy, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels.experimental import ShearKernel, ShearKernel2in3out
    ls = c.real(name, lo=0.25, hi=4.0)
    return (ShearKernel2in3out if two else ShearKernel)(deformation=DifferenceIsotropy(F2, length_scale=ScalarParam(ls))), ls


def lengths(c, ls):
    """stored, or overridden at call time"""
    if c.boolean("override"):
        cand = c.real("cand", lo=0.25, hi=4.0)
        return dict(length_scale=cand), cand
    return {}, ls


@unit("C20", fns=F33)
def shear_pairwise(c):
    K, ls = kernel(c)
    kw, l = lengths(c, ls)
    b, n = c.dim("b"), c.dim("n")
    D = c.tensor("d", b, n, n, 2)
    d = c.read(D)
    f = cov(c, d, l)
    fn = K if c.boolean("direct") else K.get_opt_fn()
    c.arr(fn(D, **kw), [b, 3, n, 3, n], lambda i, a, p, e, q: f((i,), a, p, e, q), "pairwise shear covariance")
    c.unchanged(D, d, "differences")


@unit("C20", fns=F33)
def shear_crosswise(c):
    """batch and neighbor counts that differ (equal ones: shear_square)"""
    K, ls = kernel(c)
    kw, l = lengths(c, ls)
    b, n = c.dim("b"), c.dim("n")
    c.assume(c.not_(c.eq(b, n)))
    D = c.tensor("d", b, n, 2)
    d = c.read(D)
    fn = K if c.boolean("direct") else K.get_opt_fn()

    def f(i, a, p, e):
        return pick(c, a, lambda u: pick(c, e, lambda v: value(c, u, v, d[i, p, 0], d[i, p, 1], l)))
    c.arr(fn(D, **kw), [b, 3, n, 3], f, "crosswise shear covariance")
    c.unchanged(D, d, "differences")


@unit("C20", fns=F33)
def shear_square(c):
    """the batch is as large as the neighborhoods"""
    K, ls = kernel(c)
    b = c.dim("b", lo=2)
    D = c.tensor("d", b, b, 2)
    d = c.read(D)

    def f(i, a, p, e):
        return pick(c, a, lambda u: pick(c, e, lambda v: value(c, u, v, d[i, p, 0], d[i, p, 1], ls)))
    c.arr(K(D), [b, 3, b, 3], f, "crosswise shear covariance of a square batch")


@unit("C20", fns=F33)
def shear_unbatched(c):
    K, ls = kernel(c)
    n, m = c.dim("n"), c.dim("m")
    D, E = c.tensor("d", n, n, 2), c.tensor("e", n, m, 2)
    d, e = c.read(D), c.read(E)
    f, g = cov(c, d, ls), cov(c, e, ls)
    c.arr(K(D), [3, n, 3, n], lambda a, p, u, q: f((), a, p, u, q), "shear covariance of one set of points")
    c.arr(K(E, adjust=False), [3, n, 3, m], lambda a, p, u, q: g((), a, p, u, q), "shear cross-covariance of two sets of points")


@unit("C20", fns=F33 + ["MuyGPyS.gp.deformation.isotropy:DifferenceIsotropy.pairwise_tensor"])
def shear_symmetric(c):
    """swapping the two observations transposes the covariance"""
    K, ls = kernel(c)
    N, b, n = c.dim("N"), c.dim("b"), c.dim("n")
    X, nn = c.tensor("X", N, 2), c.indices("nn", b, n, upper=N)
    k = K(K.deformation.pairwise_tensor(X, nn))
    v = c.read(k)
    c.arr(k, [b, 3, n, 3, n], lambda i, a, p, e, q: v[i, e, q, a, p], "symmetry")


@unit("C20", fns=F33 + [S + "Kout"])
def shear_prior(c):
    """the prior covariance is the covariance at zero difference"""
    K, ls = kernel(c)
    kw, l = lengths(c, ls)
    z = zero(c)
    c.arr(K.Kout(**kw), [3, 3], lambda a, e: pick(c, a, lambda u: pick(c, e, lambda v: value(c, u, v, z, z, l))),
          "prior shear covariance")


@unit("C20", fns=F23, backends=("numpy",))
def shear23_pairwise(c):
    K, ls = kernel(c, two=True)
    kw, l = lengths(c, ls)
    b, n = c.dim("b"), c.dim("n")
    D = c.tensor("d", b, n, n, 2)
    d = c.read(D)

    def f(i, a, p, e, q):
        g = lambda u, v: value(c, u, v, d[i, p, q, 0], d[i, p, q, 1], l)
        return c.ite(c.eq(a, 0), c.ite(c.eq(e, 0), g(1, 1), g(1, 2)), c.ite(c.eq(e, 0), g(2, 1), g(2, 2)))
    c.arr(K(D, **kw), [b, 2, n, 2, n], f, "pairwise covariance of the two shears")
    c.unchanged(D, d, "differences")


@unit("C20", fns=F23, backends=("numpy",))
def shear23_crosswise(c):
    K, ls = kernel(c, two=True)
    kw, l = lengths(c, ls)
    b, n, m = c.dim("b"), c.dim("n"), c.dim("m")
    c.assume(c.not_(c.eq(b, n)))
    D, E = c.tensor("d", b, n, 2), c.tensor("e", n, m, 2)
    d, e = c.read(D), c.read(E)

    def at(x, y, a, o):
        g = lambda u: pick(c, o, lambda v: value(c, u, v, x, y, l))
        return c.ite(c.eq(a, 0), g(1), g(2))
    c.arr(K(D, **kw), [b, 2, n, 3], lambda i, a, p, o: at(d[i, p, 0], d[i, p, 1], a, o), "covariance of the two shears with all components")
    c.arr(K(E, force_Kcross=True, **kw), [2, n, 3, m], lambda a, p, o, q: at(e[p, q, 0], e[p, q, 1], a, o),
          "cross-covariance of two sets of points")


@unit("C20", fns=F23 + [S2 + "Kout"], backends=("numpy",))
def shear23_prior(c):
    K, ls = kernel(c, two=True)
    kw, l = lengths(c, ls)
    z = zero(c)
    c.arr(K.Kout(**kw), [3, 3], lambda a, e: pick(c, a, lambda u: pick(c, e, lambda v: value(c, u, v, z, z, l))), "prior shear covariance")


@unit("C20", fns=[S + "__init__", S2 + "__init__"])
def shear_deformation(c):
    """only difference deformations keep the components apart"""
    from MuyGPyS.gp.deformation import Isotropy, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels.experimental import ShearKernel, ShearKernel2in3out
    for K in (ShearKernel, ShearKernel2in3out):
        c.raises(lambda: K(deformation=Isotropy(F2, length_scale=ScalarParam(1.0))), exc=ValueError, label="distances are rejected")


def model(c, two=False, free=False):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.noise import HomoscedasticNoise, ShearNoise33
    K, ls = kernel(c, two)
    tau = c.real("noise", lo=0.05, hi=2.0)
    return MuyGPS(kernel=K, noise=(HomoscedasticNoise if two else ShearNoise33)(tau)), ls, tau


def consumed(c, two):
    """the whole model: outputs times neighbors are one covariance index; the entries of the covariances are
    specified by the units above"""
    from contracts.common import quad2
    m, ls, tau = model(c, two)
    o = 2 if two else 3
    b, n = c.dim("b"), c.dim("n")
    c.assume(c.not_(c.eq(b, n)))
    if c.symbolic:  # by the kernel's contract: any covariances of these shapes
        Kin, Kcross = c.cov("Kin", (b,), (o, n)), c.tensor("Kcross", b, o, n, 3)
    else:
        import numpy as np
        pts, z = c.rng.uniform(-1, 1, size=(b, n, 2)), c.rng.uniform(-1, 1, size=(b, 1, 2))
        Kin, Kcross = m.kernel(c._out(pts[:, :, None, :] - pts[:, None, :, :], None)), m.kernel(c._out(z - pts, None))
    Y = c.tensor("y", b, o, n)
    y = c.read(Y)
    k, x = c.read(Kin), c.read(Kcross)
    amount = (lambda a: tau) if two else (lambda a: c.ite(c.eq(a, 0), 2 * tau, tau))

    def M(i):
        return lambda p, q: k[i, p[0], p[1], q[0], q[1]] + c.ite(c.and_(c.eq(p[0], q[0]), c.eq(p[1], q[1])), amount(p[0]), 0.0)
    cross = lambda i, s: lambda a, p: x[i, a, p, s]
    return m, (b, o, n), Kin, Kcross, Y, y, M, cross


def mean(c, two):
    from contracts.common import quad2
    m, (b, o, n), Kin, Kcross, Y, y, M, k = consumed(c, two)
    c.arr(m.posterior_mean(Kin, Kcross, Y), [b, 3], lambda i, s: quad2(c, M(i), o, n, k(i, s), lambda a, p: y[i, a, p]), "posterior mean of the sheared field")


def variance(c, two):
    from contracts.common import quad2
    m, (b, o, n), Kin, Kcross, Y, y, M, k = consumed(c, two)
    K0 = c.read(m.kernel.Kout())
    c.arr(m.posterior_variance(Kin, Kcross), [b, 3, 3], lambda i, s, t: K0[s, t] - quad2(c, M(i), o, n, k(i, s), k(i, t)), "posterior variance of the sheared field")


NOISE = ["MuyGPyS._src.gp.noise.{B}:_shear_perturb33"]


@unit("C20", fns=["MuyGPyS.gp.muygps:MuyGPS.posterior_mean"] + NOISE + F33)
def shear_mean(c):
    mean(c, False)


@unit("C20", fns=["MuyGPyS.gp.muygps:MuyGPS.posterior_variance"] + NOISE + F33)
def shear_variance(c):
    variance(c, False)


@unit("C20", fns=["MuyGPyS.gp.muygps:MuyGPS.posterior_mean"] + F23, backends=("numpy",))
def shear23_mean(c):
    mean(c, True)


@unit("C20", fns=["MuyGPyS.gp.muygps:MuyGPS.posterior_variance"] + F23, backends=("numpy",))
def shear23_variance(c):
    variance(c, True)
