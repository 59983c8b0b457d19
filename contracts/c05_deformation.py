"""C05: deformations."""
from pv.unit import unit

ISO = ["MuyGPyS.gp.deformation.isotropy:Isotropy.__call__", "MuyGPyS.gp.deformation.metric:MetricFn.apply_length_scale",
       "MuyGPyS.gp.hyperparameter.scalar:NamedParameter.filter_kwargs"]
ANI = ["MuyGPyS.gp.deformation.anisotropy:Anisotropy.__call__", "MuyGPyS.gp.hyperparameter.vector:NamedVectorParameter.filter_kwargs",
       "MuyGPyS.gp.hyperparameter.vector:NamedVectorParameter.__call__", "MuyGPyS._src.gp.tensors.{B}:_F2",
       "MuyGPyS._src.gp.tensors.{B}:_l2"]


def imports():
    from MuyGPyS.gp import deformation as d, hyperparameter as h
    return d, h


def iso(c, name, lead):
    d, h = imports()
    ls, cand = c.real("ls", pos=True), c.real("cand", pos=True)
    D = d.Isotropy(metric=getattr(d, name), length_scale=h.ScalarParam(ls))
    dims = [c.dim(x) for x in lead]
    T = c.tensor("T", *dims, lo=0)
    t = c.read(T)
    sc = lambda v, l: v / l if name == "l2" else v / (l * l)
    c.arr(D(T), dims, lambda *ix: sc(t[ix], ls), "distance over the stored length scale")
    c.arr(D(T, length_scale=cand), dims, lambda *ix: sc(t[ix], cand), "distance over the supplied length scale")
    c.arr(D(T), dims, lambda *ix: sc(t[ix], ls), "stored length scale after an override")
    c.unchanged(T, t, "distances are not modified")


@unit("C05", fns=ISO)
def iso_l2(c):
    iso(c, "l2", ("b", "n"))


@unit("C05", fns=ISO)
def iso_F2(c):
    iso(c, "F2", ("b", "n"))


@unit("C05", fns=ISO)
def iso_pairwise(c):
    iso(c, c.choose("metric", ["l2", "F2"]), ("b", "n", "m"))


@unit("C05", fns=["MuyGPyS.gp.deformation.isotropy:Isotropy.pairwise_tensor"] + ISO)
def iso_from_features(c):
    """deformed distances of data: metric distance of feature differences over the length scale"""
    d, h = imports()
    met = c.choose("metric", ["l2", "F2"])
    ls = c.real("ls", pos=True)
    D = d.Isotropy(metric=getattr(d, met), length_scale=h.ScalarParam(ls))
    N, b, n, f = c.dim("N"), c.dim("b"), c.dim("n"), c.dim("f")
    X, nn = c.tensor("X", N, f), c.indices("nn", b, n, upper=N)
    x, w = c.read(X), c.read(nn)
    r = D(D.pairwise_tensor(X, nn))

    def spec(i, p, q):
        F = c.sum(f, lambda s: (x[w[i, p], s] - x[w[i, q], s]) * (x[w[i, p], s] - x[w[i, q], s]))
        return c.sqrt(F) / ls if met == "l2" else F / (ls * ls)
    c.arr(r, [b, n, n], spec, "deformed pairwise distance")


@unit("C05", fns=["MuyGPyS.gp.deformation.isotropy:DifferenceIsotropy.__call__",
                  "MuyGPyS.gp.deformation.isotropy:DifferenceIsotropy.pairwise_tensor"])
def iso_difference(c):
    d, h = imports()
    met = c.choose("metric", ["l2", "F2"])
    ls, cand = c.real("ls", pos=True), c.real("cand", pos=True)
    D = d.DifferenceIsotropy(metric=getattr(d, met), length_scale=h.ScalarParam(ls))
    N, b, n, f = c.dim("N"), c.dim("b"), c.dim("n"), c.dim("f")
    X, nn = c.tensor("X", N, f), c.indices("nn", b, n, upper=N)
    x, w = c.read(X), c.read(nn)
    T = D.pairwise_tensor(X, nn)
    c.arr(T, [b, n, n, f], lambda i, p, q, s: x[w[i, p], s] - x[w[i, q], s], "differences are kept")

    def spec(l):
        def g(i, p, q):
            e = lambda s: (x[w[i, p], s] - x[w[i, q], s]) / l
            F = c.sum(f, lambda s: e(s) * e(s))
            return c.sqrt(F) if met == "l2" else F
        return g
    c.arr(D(T), [b, n, n], spec(ls), "metric of the scaled differences")
    c.arr(D(T, length_scale=cand), [b, n, n], spec(cand), "metric of the differences over the supplied length scale")


def aniso(c, k, met):
    d, h = imports()
    ls = [c.real(f"ls{i}", pos=True) for i in range(k)]
    D = d.Anisotropy(metric=getattr(d, met), length_scale=h.VectorParam(*[h.ScalarParam(v) for v in ls]))
    b, n = c.dim("b"), c.dim("n")
    T = c.tensor("T", b, n, k)
    t = c.read(T)

    def spec(L):
        def g(i, p):
            l = L if k < 4 else c.read(c.arrayof(L))
            q = lambda s: (t[i, p, s] / l[s]) * (t[i, p, s] / l[s])
            F = sum(map(q, range(k))) if k < 4 else c.sum(k, q)
            return c.sqrt(F) if met == "l2" else F
        return g
    return D, ls, b, n, T, t, spec


@unit("C05", fns=ANI)
def aniso_stored(c):
    k = c.choose("k", [1, 2, 3])
    D, ls, b, n, T, t, spec = aniso(c, k, c.choose("metric", ["l2", "F2"]))
    c.arr(D(T), [b, n], spec(ls), "metric distance over the stored length scales")
    c.unchanged(T, t, "differences are not modified")


@unit("C05", fns=ANI, trials=20)
def aniso_by_name(c):
    """any subset of the length scales, supplied in any order"""
    import itertools
    k = 3
    D, ls, b, n, T, t, spec = aniso(c, k, "F2")
    cand = [c.real(f"cand{i}", pos=True) for i in range(k)]
    orders = [o for r in range(1, k + 1) for o in itertools.permutations(range(k), r)]
    o = c.choose("order", orders)
    L = [cand[i] if i in o else ls[i] for i in range(k)]
    c.arr(D(T, **{f"length_scale{i}": cand[i] for i in o}), [b, n], spec(L), "length scales are matched by name")
    c.arr(D(T), [b, n], spec(ls), "stored length scales after an override")


@unit("C05", fns=ANI, trials=8)
def aniso_many_features(c):
    """length scales whose numbers have more than one digit"""
    k = 12
    D, ls, b, n, T, t, spec = aniso(c, k, c.choose("metric", ["l2", "F2"]))
    cand = [c.real(f"cand{i}", pos=True) for i in range(k)]
    o = c.choose("order", [(), (1,), (10, 1), (11, 2, 10, 0), (1, 10, 3, 11, 0, 9)])
    L = [cand[i] if i in o else ls[i] for i in range(k)]
    c.arr(D(T, **{f"length_scale{i}": cand[i] for i in o}), [b, n], spec(L), "length scales are matched by name")
    c.arr(D(T), [b, n], spec(ls), "stored length scales after an override")


@unit("C05", fns=ANI + ["MuyGPyS.gp.hyperparameter.vector:NamedVectorParameter.apply_embedding_fn"], trials=20)
def aniso_kernel_by_name(c):
    """same through a kernel, whatever other keywords are present"""
    from MuyGPyS.gp.kernels import RBF
    k = 2
    D, ls, b, n, T, t, spec = aniso(c, k, "F2")
    K = RBF(deformation=D)
    cand = [c.real(f"cand{i}", pos=True) for i in range(k)]
    o = c.choose("order", [(0,), (1,), (0, 1), (1, 0)])
    L = [cand[i] if i in o else ls[i] for i in range(k)]
    kw = {f"length_scale{i}": cand[i] for i in o}
    f = c.choose("via", [K, K.get_opt_fn()])
    c.arr(f(T, **kw), [b, n], lambda i, p: c.exp(-spec(L)(i, p) / 2), "kernel with length scales by name")


@unit("C05", fns=ANI[:1])
def aniso_wrong_size(c):
    d, h = imports()
    D = d.Anisotropy(metric=d.F2, length_scale=h.VectorParam(h.ScalarParam(1.0), h.ScalarParam(1.0)))
    b, n, f = c.dim("b"), c.dim("n"), c.dim("f", choices=[1, 3, 4])
    c.assume(f != 2)
    c.raises(D, c.tensor("T", b, n, f), exc=ValueError, label="mismatched feature count is rejected")


@unit("C05", fns=["MuyGPyS.gp.hyperparameter.vector:VectorParameter.fixed", "MuyGPyS.gp.hyperparameter.vector:VectorParameter.__call__"])
def vector_param(c):
    d, h = imports()
    f0, f1 = c.boolean("fixed0"), c.boolean("fixed1")
    a, b = c.real("a", lo=1, hi=2), c.real("b", lo=1, hi=2)
    v = h.VectorParam(h.ScalarParam(a, "fixed" if f0 else (0.5, 3.0)), h.ScalarParam(b, "fixed" if f1 else (0.5, 3.0)))
    c.true(bool(v.fixed()) == (f0 and f1), "a vector is fixed iff all its elements are")
    c.true(len(v) == 2, "length")
    c.arr(v(), [2], lambda i: c.ite(c.eq(i, 0), a, b), "vector of element values")
