"""C19: hierarchical hyperparameters interpolate their knot values."""
from pv.unit import unit
from contracts.common import krige_mean

H = "MuyGPyS.gp.hyperparameter.experimental.hierarchical:"
NAMED = [H + "HierarchicalParameter.__init__", H + "NamedHierarchicalParameter.__call__"]
DEF = NAMED + [H + "NamedHierarchicalParameter.filter_kwargs", H + "NamedHierarchicalParameter.apply_embedding_fn",
               "MuyGPyS.gp.deformation.isotropy:Isotropy.__call__"]
B = (0.25, 4.0)


def higher(c, met, ls):
    """the knots' kernel, and it as a function of a squared distance"""
    from MuyGPyS.gp.deformation import Isotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels import Matern, RBF
    if met == "rbf":
        return RBF(deformation=Isotropy(F2, length_scale=ScalarParam(ls))), lambda F: c.exp(0 - F / (ls * ls) / 2)
    return Matern(smoothness=ScalarParam(0.5), deformation=Isotropy(l2, length_scale=ScalarParam(ls))), lambda F: c.exp(0 - c.sqrt(F) / ls)


class Knots:
    """a hierarchical parameter over k knots with the given values, and its specification"""

    def __init__(self, c, k, f, oned=False, tag="", noise=True, met=None):
        from MuyGPyS.gp.noise import HomoscedasticNoise
        self.c, self.k, self.f, self.oned, self.tag = c, k, f, oned, tag
        self.kern, self.of = higher(c, met or c.choose(tag + "higher", ["rbf", 0.5]), c.real(tag + "higher_ls", lo=0.5, hi=2.0))
        self.X = c.tensor(tag + "knots", k) if oned else c.tensor(tag + "knots", k, f)
        self.x = c.read(self.X)
        self.default = not noise
        self.tau = c.real(tag + "knot_noise", lo=0.01, hi=1.0) if noise else (c.real_const(1, 100000) if c.symbolic else 1e-5)
        self.noise = {} if self.default else dict(noise=HomoscedasticNoise(self.tau))

    def make(self, vals, free=None, bounds=None):
        from MuyGPyS.gp.hyperparameter import ScalarParam, VectorParam
        from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParam
        free = free or [False] * self.k
        bounds = bounds or [B] * self.k
        return HierarchicalParam(self.X, VectorParam(*[ScalarParam(v, b) if q else ScalarParam(v) for v, q, b in zip(vals, free, bounds)]),
                                 self.kern, **self.noise)

    def features(self, b, name="B"):
        return self.c.tensor(name, b) if self.oned else self.c.tensor(name, b, self.f)

    def spec(self, vals, Z):
        c, z, x, k = self.c, self.c.read(Z), self.x, self.k
        at = (lambda a, i, s: a[i]) if self.oned else (lambda a, i, s: a[i, s])
        F = lambda a, i, w, j: c.sum(1 if self.oned else self.f, lambda s: (at(a, i, s) - at(w, j, s)) * (at(a, i, s) - at(w, j, s)))

        y = c.read(c.arrayof(vals))
        v = lambda q: y[q]
        K = lambda p, q: self.of(F(x, p, x, q)) + c.ite(c.eq(p, q), self.tau, 0.0)
        return lambda i: krige_mean(c, K, k, lambda p: self.of(F(z, i, x, p)), v)


def values(c, k, tag="v"):
    return [c.real(f"{tag}{i}", lo=B[0], hi=B[1]) for i in range(k)]


def mixed(c, k, name, vals, cand):
    """some of the knot values supplied by name, in some order"""
    import itertools
    orders = [o for r in range(1, k + 1) for o in itertools.permutations(range(k), r)] if k < 3 else [(1,), (2, 0), (2, 1, 0)]
    o = c.choose("order", orders)
    return {f"{name}{i}": cand[i] for i in o}, [cand[i] if i in o else vals[i] for i in range(k)]


@unit("C19", fns=NAMED, paths=200)
def hier_value(c):
    from MuyGPyS.gp.hyperparameter.experimental import NamedHierarchicalParam
    k = c.choose("knot_count", [1, 2, 3])
    b, f = c.dim("b"), c.dim("f")
    h = Knots(c, k, f)
    vals = values(c, k)
    p = NamedHierarchicalParam("custom", h.make(vals))
    Z = h.features(b)
    c.arr(p(Z), [b], h.spec(vals, Z), "interpolation of the knot values")
    c.arr(p.knot_values(), [k], lambda i: vals[0] if k == 1 else c.ite(c.eq(i, 0), vals[0], vals[1] if k == 2 else c.ite(c.eq(i, 1), vals[1], vals[2])),
          "knot values")


@unit("C19", fns=NAMED + ["MuyGPyS.gp.hyperparameter.vector:NamedVectorParameter.filter_kwargs"], paths=200, trials=20)
def hier_override(c):
    from MuyGPyS.gp.hyperparameter.experimental import NamedHierarchicalParam
    k = c.choose("knot_count", [2, 3])
    b, f = c.dim("b"), c.dim("f")
    h = Knots(c, k, f, met="rbf", noise=False)
    vals, cand = values(c, k), values(c, k, "cand")
    p = NamedHierarchicalParam("custom", h.make(vals))
    Z = h.features(b)
    kw, use = mixed(c, k, "custom", vals, cand)
    c.arr(p(Z, **kw), [b], h.spec(use, Z), "knot values supplied by name")
    c.arr(p(Z), [b], h.spec(vals, Z), "stored knot values after an override")
    low, rest = p.filter_kwargs(batch_features=Z, other=1, **kw)
    c.true(sorted(low) == ["custom"] and sorted(rest) == ["batch_features", "other"], "only the parameter's own keywords are consumed")
    c.arr(low["custom"], [b], h.spec(use, Z), "interpolated keyword")


@unit("C19", fns=NAMED)
def hier_one_feature(c):
    """one-dimensional features behave as single-column matrices"""
    from MuyGPyS.gp.hyperparameter.experimental import NamedHierarchicalParam
    k = c.choose("knot_count", [1, 2, 3])
    b = c.dim("b")
    h = Knots(c, k, 1, oned=True)
    vals = values(c, k)
    Z = h.features(b)
    c.arr(NamedHierarchicalParam("custom", h.make(vals))(Z), [b], h.spec(vals, Z), "interpolation of the knot values")


@unit("C19", fns=NAMED)
def hier_mismatch(c):
    from MuyGPyS.gp.hyperparameter import ScalarParam, VectorParam
    from MuyGPyS.gp.hyperparameter.experimental import HierarchicalParam
    from MuyGPyS.gp.kernels import RBF
    k, f, m = c.choose("knot_count", [1, 2, 3]), c.dim("f"), c.dim("m", choices=[1, 2, 3, 4])
    c.assume(m != k)
    c.raises(HierarchicalParam, c.tensor("knots", m, f), VectorParam(*[ScalarParam(1.0) for _ in range(k)]), RBF(), exc=ValueError,
             label="as many knots as knot values")


def lower(c, dist, kind):
    """deformed lower-level kernel as a function of distance (l2) or squared distance (F2) and length scale"""
    return (lambda d, l: c.exp(0 - d / (l * l) / 2)) if kind == "rbf" else (lambda d, l: c.exp(0 - d / l))


def kern(kind, h):
    from MuyGPyS.gp.deformation import Isotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels import Matern, RBF
    if kind == "rbf":
        return RBF(deformation=Isotropy(F2, length_scale=h))
    return Matern(smoothness=ScalarParam(0.5), deformation=Isotropy(l2, length_scale=h))


def hkernel(c, kind):
    """each batch element's covariances use the length scale interpolated at its own features"""
    b, n, f = c.dim("b"), c.dim("n"), c.dim("f")
    h = Knots(c, 2, f, met="rbf")
    vals, cand = values(c, 2), values(c, 2, "cand")
    K = kern(kind, h.make(vals))
    pair, cross = c.tensor("pair", b, n, n, lo=0.0), c.tensor("cross", b, n, lo=0.0)
    return b, n, h, vals, cand, K, pair, cross, h.features(b), lower(c, None, kind)


@unit("C19", fns=DEF)
def hier_kernel(c):
    b, n, h, vals, cand, K, pair, cross, Z, g = hkernel(c, c.choose("kernel", ["rbf", 0.5]))
    P, C = c.read(pair), c.read(cross)
    L = h.spec(vals, Z)
    fn = K if c.boolean("direct") else K.get_opt_fn()
    c.arr(fn(pair, batch_features=Z), [b, n, n], lambda i, p, q: g(P[i, p, q], L(i)), "pairwise covariance")
    c.arr(fn(cross, batch_features=Z), [b, n], lambda i, p: g(C[i, p], L(i)), "crosswise covariance")
    c.unchanged(pair, P, "pairwise distances")
    c.unchanged(cross, C, "crosswise distances")


@unit("C19", fns=DEF, trials=20)
def hier_kernel_by_name(c):
    b, n, h, vals, cand, K, pair, cross, Z, g = hkernel(c, "rbf")
    C = c.read(cross)
    kw, use = mixed(c, 2, "length_scale", vals, cand)
    L, S = h.spec(use, Z), h.spec(vals, Z)
    fn = K if c.boolean("direct") else K.get_opt_fn()
    c.arr(fn(cross, batch_features=Z, **kw), [b, n], lambda i, p: g(C[i, p], L(i)), "covariance for knot values supplied by name")
    c.arr(fn(cross, batch_features=Z), [b, n], lambda i, p: g(C[i, p], S(i)), "covariance for the stored knot values after an override")


@unit("C19", fns=["MuyGPyS.gp.hyperparameter.experimental.hierarchical:NamedHierarchicalParameter.append_lists",
                  "MuyGPyS.gp.hyperparameter.experimental.hierarchical:NamedHierarchicalParameter.populate",
                  "MuyGPyS.gp.hyperparameter.vector:NamedVectorParameter.append_lists", "MuyGPyS.gp.muygps:MuyGPS.get_opt_params"])
def hier_params(c):
    """every knot value is a parameter of its own"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.hyperparameter import ScalarParam
    k = c.choose("knot_count", [1, 2, 3])
    f = c.dim("f")
    h = Knots(c, k, f, met="rbf")
    vals = values(c, k)
    free = [c.boolean(f"free{i}") for i in range(k)]
    bounds = [(c.real(f"lo{i}", lo=0.01, hi=0.2), c.real(f"hi{i}", lo=4.0, hi=9.0)) for i in range(k)]
    H_ = h.make(vals, free, bounds)
    c.true(bool(H_.fixed()) == (not any(free)), "a hierarchical parameter is fixed iff all its knots are")
    m = MuyGPS(kernel=kern("rbf", H_))
    ls = m.kernel.deformation.length_scale
    c.true(bool(ls.fixed()) == (not any(free)), "a named hierarchical parameter is fixed iff all its knots are")
    c.true(bool(m.fixed()) == (not any(free)), "the model is fixed iff all the knots are")
    want = [i for i in range(k) if free[i]]
    for who, (names, params, bds) in (("kernel", m.kernel.get_opt_params()), ("model", m.get_opt_params())):
        c.true(list(names) == [f"length_scale{i}" for i in want], f"{who}: the offered knots")
        for j, i in enumerate(want):
            c.scalar(params[j], vals[i], f"{who}: value of knot {i}")
            for e in (0, 1):
                c.scalar(bds[j][e], bounds[i][e], f"{who}: bound {e} of knot {i}")
    store = m.kernel._hyperparameters
    c.true(sorted(store) == sorted(f"length_scale{i}" for i in range(k)), "stored by name")
    new = values(c, k, "new")
    i = c.choose("which", list(range(k)))
    m.kernel.set_params(**{f"length_scale{i}": ScalarParam(new[i], bounds[i]) if free[i] else ScalarParam(new[i])})
    after = c.read(ls.knot_values())
    for j in range(k):
        c.scalar(after[j], new[i] if j == i else vals[j], f"knot {j} after setting knot {i}")


def hmodel(h, kind, v, free, noise, nfree, bounds=None):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.noise import HomoscedasticNoise
    bounds = bounds or {}
    names = [f"length_scale{i}" for i in range(h.k)]
    H_ = h.make([v[q] for q in names], [free[q] for q in names], [bounds.get(q, B) for q in names])
    return MuyGPS(kernel=kern(kind, H_), noise=HomoscedasticNoise(noise, bounds.get("noise", B)) if nfree else HomoscedasticNoise(noise))


@unit(("C19", "C09"), fns=["MuyGPyS.optimize.objective:make_loo_crossval_fn", "MuyGPyS.optimize.objective:make_kernels_fn"] + DEF, paths=200)
def obj_hierarchical(c):
    """the objective of candidate knot values is the loss of the model holding them"""
    from contracts.c09_objective import losses, data
    from MuyGPyS.optimize import L_BFGS_B_optimize
    k = 2
    b, n, cross, pair, Y, T = data(c)
    f = c.dim("f")
    h = Knots(c, k, f, met="rbf")
    Z = h.features(b)
    kind = c.choose("kernel", ["rbf", 0.5])
    names = [f"length_scale{i}" for i in range(k)] + ["noise"]
    free = {q: c.boolean("free_" + q) for q in names}
    st = {q: c.real("stored_" + q, lo=B[0], hi=B[1]) for q in names}
    mk = lambda v: hmodel(h, kind, v, free, v["noise"], free["noise"])
    m = mk(st)
    l = losses()
    loss = c.choose("loss", [l.mse_fn, l.lool_fn])
    obj = L_BFGS_B_optimize.make_obj_fn(m, T, Y, cross, pair, batch_features=Z, loss_fn=loss)
    cv = {q: c.real("cand_" + q, lo=B[0], hi=B[1]) for q in names if free[q]}

    def judged(m):
        Kin, Kcross = m.kernel(pair, batch_features=Z), m.kernel(cross, batch_features=Z)
        mean = m.posterior_mean(Kin, Kcross, Y)
        return 0 - (loss(mean, T) if loss is l.mse_fn else loss(mean, T, m.posterior_variance(Kin, Kcross), m.scale.get_opt_fn(m)(Kin, Y)))
    c.scalar(obj(**cv), judged(mk({**st, **cv})), "objective at candidate knot values")
    c.scalar(obj(**{q: st[q] for q in cv}), judged(m), "objective at the stored knot values")


def optimize(c, which, frees):
    from contracts.c10_optimizers import run, interval
    from contracts.c09_objective import data
    k = 2
    d = data(c)
    f = c.dim("f")
    h = Knots(c, k, f, met="rbf")
    Z = h.features(d[0])
    names = [f"length_scale{i}" for i in range(k)] + ["noise"]
    bounds = {q: interval(c, q) for q in names}
    free = dict(zip(names, frees))

    def make(v):
        m = hmodel(h, "rbf", v, free, v["noise"], free["noise"], bounds)

        def read(m):
            kv = c.read(m.kernel.deformation.length_scale.knot_values())
            return {"length_scale0": kv[0], "length_scale1": kv[1], "noise": m.noise()}
        return m, read
    run(c, which, make, free, bounds, d, opt_kw=dict(batch_features=Z))


OPT = ["MuyGPyS._src.optimize.chassis.numpy:_new_muygps", "MuyGPyS._src.optimize.chassis.numpy:_get_opt_lists"] + DEF


@unit(("C19", "C10"), fns=OPT + ["MuyGPyS._src.optimize.chassis.numpy:_scipy_optimize"], backends=("numpy",), paths=200)
def opt_lbfgsb_hierarchical(c):
    optimize(c, "lbfgsb", c.choose("free", [(True, True, False), (True, False, False)]))


@unit(("C19", "C10"), fns=OPT + ["MuyGPyS._src.optimize.chassis.numpy:_bayes_opt_optimize"], backends=("numpy",), paths=200)
def opt_bayes_hierarchical(c):
    optimize(c, "bayes", c.choose("free", [(True, True, False), (False, True, True)]))


@unit("C19", fns=NAMED + ["MuyGPyS.gp.hyperparameter.vector:NamedVectorParameter.filter_kwargs"], trials=6)
def hier_many_knots(c):
    """names with more than one digit: knots are counted, not sorted"""
    from MuyGPyS.gp.hyperparameter.experimental import NamedHierarchicalParam
    k = 12
    b, f = c.dim("b"), c.dim("f")
    h = Knots(c, k, f, met="rbf", noise=False)
    vals, cand = values(c, k), values(c, k, "cand")
    p = NamedHierarchicalParam("custom", h.make(vals, [True] * k))
    Z = h.features(b)
    c.arr(p(Z), [b], h.spec(vals, Z), "interpolation of the knot values")
    o = c.choose("order", [(1,), (10, 1), (11, 2, 10, 0), (1, 10, 3, 11, 0, 9)])
    use = [cand[i] if i in o else vals[i] for i in range(k)]
    c.arr(p(Z, **{f"custom{i}": cand[i] for i in o}), [b], h.spec(use, Z), "knot values supplied by name")
    v = c.read(p.knot_values())
    for i in range(k):
        c.scalar(v[i], vals[i], f"knot value {i}")
    names, params, bounds = [], [], []
    p.append_lists(names, params, bounds)
    c.true(list(names) == [f"custom{i}" for i in range(k)], "the offered knots")
    for i in range(k):
        c.scalar(params[i], vals[i], f"offered value of knot {i}")
