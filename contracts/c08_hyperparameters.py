"""C08: hyperparameter values, bounds and what is offered to the optimizer."""
from pv.unit import unit

P = ["MuyGPyS.gp.hyperparameter.scalar:Parameter.__init__", "MuyGPyS.gp.hyperparameter.scalar:Parameter._set_val",
     "MuyGPyS.gp.hyperparameter.scalar:Parameter._set_bounds"]
NP_ = ["MuyGPyS.gp.hyperparameter.scalar:NamedParameter"]
TOL = 2e-5  # the library accepts values up to 1e-5 outside the bounds


def H():
    from MuyGPyS.gp import hyperparameter as h
    return h


def as_stored(c, p, val, lo, hi, what):
    c.scalar(p(), val, what + ": value")
    b = p.get_bounds()
    c.true(len(b) == 2, what + ": one pair of bounds")
    c.scalar(b[0], lo, what + ": lower bound")
    c.scalar(b[1], hi, what + ": upper bound")


def offers(c, p, want, what):
    """want: list of (name, value, lower, upper)"""
    names, params, bounds = [], [], []
    p.append_lists(names, params, bounds)
    offered(c, names, params, bounds, want, what)


def offered(c, names, params, bounds, want, what):
    c.true(list(names) == [w[0] for w in want], what + ": offered names")
    c.true(len(params) == len(want) and len(bounds) == len(want), what + ": one value and one pair of bounds per name")
    if len(params) != len(want) or len(bounds) != len(want):
        return
    for i, w in enumerate(want):
        c.scalar(params[i], w[1], what + ": offered value of " + w[0])
        c.scalar(bounds[i][0], w[2], what + ": offered lower bound of " + w[0])
        c.scalar(bounds[i][1], w[3], what + ": offered upper bound of " + w[0])


@unit("C08", fns=P + NP_)
def scalar_bounds(c):
    """accepted exactly when lower <= value <= upper (up to the documented tolerance)"""
    h = H()
    v, lo, hi = c.real("v"), c.real("lo"), c.real("hi")
    make = lambda: h.ScalarParam(v, (lo, hi))
    if lo <= hi and lo <= v and v <= hi:
        p = make()
        c.true(p.fixed() is False, "a bounded parameter is not fixed")
        as_stored(c, p, v, lo, hi, "bounded parameter")
        n = h.NamedParam("theta", p)
        c.true(n.fixed() is False and n.name() == "theta", "named parameter")
        as_stored(c, n, v, lo, hi, "named parameter")
        offers(c, n, [("theta", v, lo, hi)], "named parameter")
        d = {}
        n.populate(d)
        c.true(list(d) == ["theta"] and d["theta"] is n, "registered once under its own name")
    elif lo > hi:
        c.raises(make, exc=ValueError, label="crossed bounds are rejected")
    elif v < lo - TOL or v > hi + TOL:
        c.raises(make, exc=ValueError, label="a value outside the bounds is rejected")
        if v < lo - TOL:
            c.true(True, "below")


@unit("C08", fns=P)
def scalar_equal_bounds(c):
    h = H()
    v = c.real("v")
    p = h.ScalarParam(v, [v, v])
    c.true(p.fixed() is False, "equal bounds do not fix a parameter")
    as_stored(c, p, v, v, v, "parameter")


@unit("C08", fns=P + NP_)
def scalar_fixed(c):
    h = H()
    v = c.real("v")
    p = h.ScalarParam(v, "fixed") if c.boolean("explicit") else h.ScalarParam(v)
    c.true(p.fixed() is True, "fixed")
    c.scalar(p(), v, "value")
    n = h.NamedParam("theta", p)
    c.true(n.fixed() is True, "fixed")
    c.scalar(n(), v, "value")
    offers(c, n, [], "fixed parameter")
    c.raises(h.ScalarParam, "sample", "fixed", exc=ValueError, label="sampling needs bounds")
    c.raises(h.ScalarParam, "log_sample", exc=ValueError, label="sampling needs bounds")


@unit("C08", fns=P)
def scalar_malformed(c):
    h = H()
    v = c.real("v", lo=0, hi=1)
    bad = {
        "unknown bounds option": lambda: h.ScalarParam(v, "badstring"),
        "bounds that are a number": lambda: h.ScalarParam(v, 1.0),
        "one bound": lambda: h.ScalarParam(v, (0.0,)),
        "three bounds": lambda: h.ScalarParam(v, (0.0, 1.0, 2.0)),
        "lower bound that is not a number": lambda: h.ScalarParam(v, ("0", 1.0)),
        "upper bound that is not a number": lambda: h.ScalarParam(v, (0.0, None)),
        "array bounds": lambda: h.ScalarParam(v, (0.0, [1.0])),
        "value that is a list": lambda: h.ScalarParam([v], (0.0, 2.0)),
        "value that is an array": lambda: h.ScalarParam(c.tensor("a", 2, lo=0, hi=1), (0.0, 2.0)),
        "fixed value that is an array": lambda: h.ScalarParam(c.tensor("a", 2, lo=0, hi=1)),
        "unknown value option": lambda: h.ScalarParam("wut", (0.0, 2.0)),
    }
    k = c.choose("kind", sorted(bad))
    c.raises(bad[k], exc=(ValueError, TypeError), label=k + " is rejected")


@unit("C08", fns=["MuyGPyS.gp.hyperparameter.scalar:Parameter._sample_val"] + P)
def scalar_sampled(c):
    """a drawn value lies within its bounds"""
    h = H()
    lo, hi = c.real("lo", pos=True), c.real("hi", pos=True)
    c.assume(lo <= hi)
    p = h.ScalarParam("sample", (lo, hi))
    v = p()
    eps = 0.0 if c.symbolic else 1e-12
    c.true(c.and_(v >= lo - eps, v <= hi + eps), "a uniform draw lies within the bounds")
    as_stored(c, p, v, lo, hi, "drawn parameter")
    c.true(p.fixed() is False, "a drawn parameter is not fixed")


@unit("C08", fns=["MuyGPyS.gp.hyperparameter.scalar:Parameter._sample_val"] + P)
def scalar_log_sampled(c):
    h = H()
    if c.boolean("small"):
        lo, hi = c.real("lo", lo=1e-9, hi=1e-8), c.real("hi", lo=1e-9, hi=1e-7)
    else:
        lo, hi = c.real("lo", pos=True), c.real("hi", pos=True)
    c.assume(lo <= hi)
    p = h.ScalarParam("log_sample", (lo, hi))
    v = p()
    eps = 0.0 if c.symbolic else 1e-12
    c.true(c.and_(v >= lo * (1 - eps), v <= hi * (1 + eps)), "a log-uniform draw lies within the bounds")


def maybe(c, name, v, fixed):
    h = H()
    return (h.ScalarParam(v) if fixed else h.ScalarParam(v, (0.25, 4.0))), ([] if fixed else [(name, v, 0.25, 4.0)])


@unit("C08", fns=["MuyGPyS.gp.hyperparameter.vector:VectorParameter", "MuyGPyS.gp.hyperparameter.vector:NamedVectorParameter"])
def vector_offers(c):
    h = H()
    k = c.choose("k", [1, 2, 3])
    ps, want, fx = [], [], []
    vals = [c.real(f"v{i}", lo=0.5, hi=3) for i in range(k)]
    for i in range(k):
        f = c.boolean(f"fixed{i}")
        p, w = maybe(c, f"theta{i}", vals[i], f)
        ps.append(p), want.extend(w), fx.append(f)
    V = h.VectorParam(*ps)
    c.true(len(V) == k, "one entry per element")
    c.true(bool(V.fixed()) == all(fx), "a vector is fixed exactly if all its elements are")
    c.arr(V(), [k], lambda i: sel(c, vals, i), "values in order")
    N = h.NamedVectorParam("theta", V)
    c.true(bool(N.fixed()) == all(fx), "a named vector is fixed exactly if all its elements are")
    c.arr(N(), [k], lambda i: sel(c, vals, i), "values in order")
    offers(c, N, want, "vector")
    d = {}
    N.populate(d)
    c.true(sorted(d) == [f"theta{i}" for i in range(k)], "each element is registered under its own name")
    for i in range(k):
        c.scalar(d[f"theta{i}"](), vals[i], "registered value")


@unit("C08", fns=["MuyGPyS.gp.hyperparameter.vector:VectorParameter", "MuyGPyS.gp.hyperparameter.vector:NamedVectorParameter"])
def vector_offers_many(c):
    """elements whose numbers have more than one digit are still offered and set in order"""
    h = H()
    k = 12
    fx = c.choose("fixed", [(), (1, 10), (0, 2, 11)])
    vals = [c.real(f"v{i}", lo=0.5, hi=3) for i in range(k)]
    ps, want = [], []
    for i in range(k):
        p, w = maybe(c, f"theta{i}", vals[i], i in fx)
        ps.append(p), want.extend(w)
    N = h.NamedVectorParam("theta", h.VectorParam(*ps))
    offers(c, N, want, "vector")
    c.arr(N(), [k], lambda i: sel(c, vals, i), "values in order")
    from MuyGPyS.gp.deformation import Anisotropy, F2
    from MuyGPyS.gp.kernels import RBF
    K = RBF(deformation=Anisotropy(F2, length_scale=h.VectorParam(*ps)))
    offers(c, K.deformation.length_scale, [("length_scale" + w[0][5:],) + w[1:] for w in want], "kernel")
    j = c.choose("which", [0, 1, 10, 11])
    new = c.real("new", lo=0.5, hi=3)
    K.set_params(**{f"length_scale{j}": maybe(c, f"theta{j}", new, j in fx)[0]})
    c.arr(K.deformation.length_scale(), [k], lambda i: sel(c, vals[:j] + [new] + vals[j + 1:], i), "values after setting one element by name")


def sel(c, vals, i):
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = c.ite(c.eq(i, j), vals[j], r)
    return r


@unit("C08", paths=500, fns=["MuyGPyS.gp.muygps:MuyGPS.get_opt_params", "MuyGPyS.gp.muygps:MuyGPS.fixed",
                  "MuyGPyS.gp.kernels.matern:Matern.get_opt_params", "MuyGPyS.gp.kernels.kernel_fn:KernelFn.get_opt_params"] + NP_)
def model_offers(c):
    """the model offers exactly its unfixed hyperparameters, once each"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, Anisotropy, l2, F2
    from MuyGPyS.gp.kernels import Matern, RBF
    from MuyGPyS.gp.noise import HomoscedasticNoise, NullNoise
    h = H()
    kern = c.choose("kernel", ["matern", "rbf"])
    aniso = c.boolean("anisotropic")
    noise = c.choose("noise", ["fixed", "free", "null"])
    want, allfixed = [], True
    ls = []
    for i in range(2 if aniso else 1):
        v, f = c.real(f"ls{i}", lo=0.5, hi=3), c.boolean(f"fixed{i}")
        p, w = maybe(c, f"length_scale{i}" if aniso else "length_scale", v, f)
        ls.append(p), want.extend(w)
        allfixed = allfixed and f
    d = Anisotropy(metric=F2 if kern == "rbf" else l2, length_scale=h.VectorParam(*ls)) if aniso else Isotropy(
        metric=F2 if kern == "rbf" else l2, length_scale=ls[0])
    if kern == "rbf":
        K = RBF(deformation=d)
    else:
        nu, f = c.real("nu", lo=0.5, hi=3), c.boolean("fixed_nu")
        p, w = maybe(c, "smoothness", nu, f)
        want.extend(w)
        allfixed = allfixed and f
        K = Matern(smoothness=p, deformation=d)
    tau = c.real("tau", lo=0.5, hi=3)
    if noise == "free":
        nz = HomoscedasticNoise(tau, (0.25, 4.0))
        want.append(("noise", tau, 0.25, 4.0))
        allfixed = False
    else:
        nz = HomoscedasticNoise(tau) if noise == "fixed" else NullNoise()
    m = MuyGPS(kernel=K, noise=nz)
    names, params, bounds = m.get_opt_params()
    k = len(want)
    c.true(list(names) == [w[0] for w in want], "names of exactly the unfixed hyperparameters")
    c.true(bool(m.fixed()) == allfixed, "the model is fixed exactly if all hyperparameters are")
    if k:
        c.arr(params, [k], lambda i: sel(c, [w[1] for w in want], i), "offered values")
        c.arr(bounds, [k, 2], lambda i, j: c.ite(c.eq(j, 0), 0.25, 4.0), "offered bounds")
    else:
        c.true(len(params) == 0 and len(bounds) == 0, "a fixed model offers nothing")


@unit("C08", fns=["MuyGPyS.gp.noise.homoscedastic:HomoscedasticNoise.__init__", "MuyGPyS.gp.noise.null:NullNoise"])
def noise_params(c):
    from MuyGPyS.gp.noise import HomoscedasticNoise, ShearNoise33, NullNoise
    N = c.choose("noise", [HomoscedasticNoise, ShearNoise33])
    v, lo, hi = c.real("v", lo=0.5, hi=1), c.real("lo"), c.real("hi", lo=1, hi=3)
    c.assume(lo <= 0.5)
    if lo >= 0:
        p = N(v, (lo, hi))
        c.true(p.fixed() is False, "not fixed")
        as_stored(c, p, v, lo, hi, "noise")
        offers(c, p, [("noise", v, lo, hi)], "noise")
    else:
        c.raises(N, v, (lo, hi), exc=ValueError, label="negative noise bounds are rejected")
    q = N(v)
    c.true(q.fixed() is True, "fixed")
    c.scalar(q(), v, "noise value")
    offers(c, q, [], "fixed noise")
    z = NullNoise()
    c.true(z.fixed() is True, "null noise is fixed")
    c.scalar(z(), 0, "null noise is zero")
    offers(c, z, [], "null noise")


@unit("C08", fns=["MuyGPyS.gp.hyperparameter.tensor:TensorParam", "MuyGPyS.gp.noise.heteroscedastic:HeteroscedasticNoise"])
def tensor_params(c):
    from MuyGPyS.gp.noise import HeteroscedasticNoise
    h = H()
    b, n = c.dim("b"), c.dim("n")
    E = c.tensor("E", b, n, lo=0)
    e = c.read(E)
    for p in (h.TensorParam(E), HeteroscedasticNoise(E)):
        c.true(p.fixed() is True, "fixed")
        c.arr(p(), [b, n], lambda i, j: e[i, j], "value")
        offers(c, p, [], "tensor parameter")
    k = c.choose("bad", ["string", "number", "list", "noise string"])
    bad = {"string": lambda: h.TensorParam("wut"), "number": lambda: h.TensorParam(1.0),
           "list": lambda: h.TensorParam([1.0, 2.0]), "noise string": lambda: HeteroscedasticNoise("sample")}
    c.raises(bad[k], exc=ValueError, label=f"a {k} is rejected")


@unit("C08", fns=["MuyGPyS.gp.noise.heteroscedastic:HeteroscedasticNoise.__init__"])
def heteroscedastic_negative(c):
    from MuyGPyS.gp.noise import HeteroscedasticNoise
    b, n = c.dim("b"), c.dim("n")
    E = c.tensor("E", b, n)
    i, j = c.integer("i", lo=0, hi=None), c.integer("j", lo=0, hi=None)
    c.assume(c.and_(i < b, j < n))
    c.assume(c.read(E)[i, j] < 0)
    c.raises(HeteroscedasticNoise, E, exc=ValueError, label="a negative noise variance is rejected")


@unit("C08", fns=["MuyGPyS.gp.kernels.kernel_fn:KernelFn.set_params", "MuyGPyS.gp.hyperparameter.scalar:Parameter._set"])
def set_params(c):
    """replaced hyperparameters are read back, used, and offered; the others are untouched"""
    from MuyGPyS.gp.deformation import Isotropy, l2
    from MuyGPyS.gp.kernels import Matern
    h = H()
    v, w, nu = c.real("v", pos=True), c.real("w", lo=0.5, hi=3), c.real("nu", lo=0.5, hi=3)
    K = Matern(smoothness=h.ScalarParam(nu, (0.25, 4.0)), deformation=Isotropy(metric=l2, length_scale=h.ScalarParam(v)))
    K.set_params(length_scale=h.ScalarParam(w, (0.25, 4.0)))
    offered(c, *K.get_opt_params(), [("length_scale", w, 0.25, 4.0), ("smoothness", nu, 0.25, 4.0)], "replaced length scale")
    K.set_params(smoothness=h.ScalarParam(0.5), length_scale=h.ScalarParam(v))
    offered(c, *K.get_opt_params(), [], "replaced by fixed values")
    c.scalar(K.deformation.length_scale(), v, "length scale")
    c.scalar(K.smoothness(), 0.5, "smoothness")
    b, n = c.dim("b"), c.dim("n")
    T = c.tensor("T", b, n, lo=0)
    t = c.read(T)
    K._make()
    c.arr(K(T), [b, n], lambda i, j: c.exp(-t[i, j] / v), "kernel with the replaced hyperparameters")
