"""C14: distributed runs partition the batch and reproduce the serial results.

Every process executes the real code in its own copy of the library (pv/ranks.py is the communicator contract).
Process counts are enumerated; batch sizes, data and - for everything computed from the chunks - the partition
itself stay symbolic, chunks without any element included."""
from pv.unit import unit

MPI = "MuyGPyS._src.mpi_utils:"
CH = [MPI + f for f in ("_get_chunk_sizes", "_prepare_parallel_data", "_big_scatter", "_chunk_tensor", "_chunk_function_tensor", "mpi_chunk")]
TEN = ["MuyGPyS._src.gp.tensors.mpi:" + f for f in ("_batch_features_tensor", "_make_heteroscedastic_tensor")]
LOSS = "MuyGPyS._src.optimize.loss.mpi:"
ON = dict(backends=("mpi",))


def processes(c, most=3):
    return c.choose("processes", list(range(1, (most if c.symbolic else 6) + 1)))


def partition(c, B, parts, whole, label):
    """the arrays parts[rank] are consecutive rows of whole, of lengths that differ by at most one"""
    w = c.read(whole)
    sizes = [p.shape[0] for p in parts]
    c.true(c.eq(sum(sizes), B), label + ": the chunks cover the batch")
    for i, s in enumerate(sizes):
        c.true(0 <= s, label + ": chunk sizes")
        for t in sizes[i + 1:]:
            c.true(c.and_(s - t <= 1, t - s <= 1), label + ": chunk sizes differ by at most one")
    start = 0
    for r, p in enumerate(parts):
        dims = [sizes[r]] + [d for d in whole.shape[1:]]
        c.arr(p, dims, lambda i, *k, o=start: w[(i + o,) + k], f"{label}: chunk of process {r}", lib="any")
        start = start + sizes[r]


def chunked(c, P, B, work, label, count=1):
    """work() distributes what it returns in a serial run"""
    parts = c.spmd(P, lambda r: work(), label)
    if parts is None:
        return
    whole = c.serial(work)
    if count == 1:
        parts, whole = [(p,) for p in parts], (whole,)
    c.true(len(whole) == count and all(len(p) == count for p in parts), label + ": number of results")
    for k in range(count):
        partition(c, B, [p[k] for p in parts], whole[k], f"{label} {k}" if count > 1 else label)


# ------------------------------------------------------------------ chunks
@unit("C14", fns=CH[:1], **ON)
def chunk_sizes(c):
    from MuyGPyS._src import mpi_utils
    P, B = processes(c, 6), c.size("B")
    s = c.attribute(mpi_utils, "_get_chunk_sizes")(B, P)
    c.true(len(s) == P, "one chunk for each process")
    c.true(c.eq(sum(s), B), "the chunks cover the batch")
    for i, a in enumerate(s):
        c.true(0 <= a, "chunk sizes")
        for b in s[i + 1:]:
            c.true(c.and_(a - b <= 1, b - a <= 1), "chunk sizes differ by at most one")


@unit("C14", fns=CH[:4], **ON)
def chunk_tensor(c):
    P, B = processes(c), c.size("B")
    two = c.boolean("two")
    n = c.dim("n")
    A, C = c.tensor("A", B, n), c.tensor("C", B)

    def work():
        from MuyGPyS._src import mpi_utils as u
        if u.config.state.backend != "mpi":
            return (A, C) if two else A
        return u._chunk_tensor((A, C), return_count=2) if two else u._chunk_tensor(A)
    chunked(c, P, B, work, "chunks", 2 if two else 1)


class Points:
    def __init__(self, c, features=None):
        self.N, self.M, self.B, self.n = c.dim("N"), c.dim("M"), c.size("B"), c.dim("n")
        self.F = features or c.dim("F")
        self.X, self.Z = c.tensor("X", self.N, self.F), c.tensor("Z", self.M, self.F)
        self.at, self.nn = c.indices("at", self.B, upper=self.M), c.indices("nn", self.B, self.n, upper=self.N)
        self.of = c.indices("of", self.B, upper=self.N)


@unit("C14", fns=CH + TEN, **ON)
def chunk_tensors(c):
    """the tensor functions of the library"""
    P, p = processes(c), Points(c)
    eps = c.tensor("eps", p.N, lo=0.05)
    what = c.choose("what", ["features", "noise"])

    def work():
        from MuyGPyS.gp import tensors as t
        return {"features": lambda: t.batch_features_tensor(p.Z, p.at), "noise": lambda: t.make_heteroscedastic_tensor(eps, p.nn)}[what]()
    chunked(c, P, p.B, work, what)


def model(kind, c=None, ls=1.0, tau=0.1, bounds=None, scale=None):
    from MuyGPyS.gp import MuyGPS, MultivariateMuyGPS
    from MuyGPyS.gp.deformation import Anisotropy, Isotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam, VectorParam
    from MuyGPyS.gp.kernels import Matern, RBF
    from MuyGPyS.gp.noise import HomoscedasticNoise
    p = lambda v: ScalarParam(v, bounds) if bounds else ScalarParam(v)
    if kind == "multi":
        return MultivariateMuyGPS(*[dict(kernel=Matern(smoothness=ScalarParam(s), deformation=Isotropy(l2, length_scale=p(ls))), noise=HomoscedasticNoise(tau),
                                         **(dict(scale=scale()) if scale else {})) for s in (0.5, 1.5)])
    d = Anisotropy(F2, length_scale=VectorParam(p(ls), p(ls))) if kind == "aniso" else Isotropy(l2 if kind == "matern" else F2, length_scale=p(ls))
    k = Matern(smoothness=ScalarParam(0.5), deformation=d) if kind == "matern" else RBF(deformation=d)
    return MuyGPS(kernel=k, noise=HomoscedasticNoise(tau), **(dict(scale=scale()) if scale else {}))


MAKE = ["MuyGPyS.gp.muygps:MuyGPS.", "MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS."]


@unit("C14", fns=CH + ["MuyGPyS.gp.deformation.isotropy:Isotropy.pairwise_tensor", "MuyGPyS.gp.deformation.isotropy:Isotropy.crosswise_tensor",
                       "MuyGPyS.gp.deformation.anisotropy:Anisotropy.pairwise_tensor", "MuyGPyS.gp.deformation.anisotropy:Anisotropy.crosswise_tensor"], paths=300, **ON)
def chunk_deformation(c):
    kind = c.choose("model", ["matern", "rbf", "aniso"])
    P, p = processes(c), Points(c, features=2 if kind == "aniso" else None)
    pair = c.boolean("pairwise")

    def work():
        d = model(kind).kernel.deformation
        return d.pairwise_tensor(p.X, p.nn) if pair else d.crosswise_tensor(p.Z, p.X, p.at, p.nn)
    chunked(c, P, p.B, work, "deformation tensor")


@unit("C14", fns=CH + [m + "make_predict_tensors" for m in MAKE], **ON)
def chunk_predict(c):
    kind = c.choose("model", ["matern", "aniso", "multi"])
    P, p = processes(c), Points(c, features=2 if kind == "aniso" else None)
    Y = c.tensor("Y", p.N, *((2,) if kind == "multi" else ()))
    named = kind == "aniso" and c.boolean("named")

    def work():
        if named:
            return model(kind).make_predict_tensors(p.at, p.nn, test_features=p.Z, train_features=p.X, train_targets=Y)
        return model(kind).make_predict_tensors(p.at, p.nn, p.Z, p.X, Y)
    chunked(c, P, p.B, work, "prediction tensors", 3)


@unit("C14", fns=CH + [m + "make_train_tensors" for m in MAKE], **ON)
def chunk_train(c):
    kind = c.choose("model", ["matern", "aniso", "multi"])
    P, p = processes(c), Points(c, features=2 if kind == "aniso" else None)
    Y = c.tensor("Y", p.N, *((2,) if kind == "multi" else ()))
    chunked(c, P, p.B, lambda: model(kind).make_train_tensors(p.of, p.nn, p.X, Y), "training tensors", 4)


# ------------------------------------------------------------------ any partition of the batch
class Parts:
    """P processes holding arbitrary numbers of consecutive batch elements"""

    def __init__(self, c, most=3):
        self.c, self.P = c, processes(c, most)
        self.sizes = [c.size(f"s{r}") for r in range(self.P)]
        self.B = sum(self.sizes)
        c.assume(1 <= self.B)

    def __call__(self, a, r):
        return self.c.rows(a, sum(self.sizes[:r]), self.sizes[r])

    def everywhere(self, body, work, label):
        """body(rank) is work() of the serial run on every process"""
        got = self.c.spmd(self.P, body, label)
        if got is not None:
            want = self.c.serial(work)
            for r, v in enumerate(got):
                self.c.scalar(v, want, f"{label} on process {r}")


def losses():
    from MuyGPyS.optimize import loss
    return loss


@unit("C14", fns=[LOSS + f for f in ("_mse_fn", "_cross_entropy_fn", "_lool_fn", "_lool_fn_unscaled", "_pseudo_huber_fn", "_looph_fn")], **ON)
def losses_combine(c):
    p = Parts(c)
    name = c.choose("loss", ["mse_fn", "cross_entropy_fn", "lool_fn", "lool_fn_unscaled", "pseudo_huber_fn", "looph_fn"])
    R = c.dim("R", lo=2)
    A, T, V = c.tensor("P", p.B, R), c.tensor("T", p.B, R), c.tensor("V", p.B, R, pos=True)
    s, d = c.real("scale", pos=True), c.real("boundary", lo=0.5, hi=4)
    more = {"lool_fn": (V, s), "looph_fn": (V, s), "lool_fn_unscaled": (V,)}.get(name, ())
    kw = dict(boundary_scale=d) if name in ("looph_fn", "pseudo_huber_fn") and c.boolean("boundary_given") else {}
    cut = lambda x, r: p(x, r) if x is V else x
    p.everywhere(lambda r: getattr(losses(), name)(p(A, r), p(T, r), *[cut(x, r) for x in more], **kw),
                 lambda: getattr(losses(), name)(A, T, *more, **kw), name)


@unit("C14", fns=[LOSS + f for f in ("_mse_fn", "_lool_fn", "_pseudo_huber_fn", "_looph_fn")], **ON)
def losses_combine_one_response(c):
    p = Parts(c)
    name = c.choose("loss", ["mse_fn", "lool_fn", "lool_fn_unscaled", "pseudo_huber_fn", "looph_fn"])
    A, T, V = c.tensor("P", p.B), c.tensor("T", p.B), c.tensor("V", p.B, pos=True)
    s = c.real("scale", pos=True)
    more = {"lool_fn": (V, s), "looph_fn": (V, s), "lool_fn_unscaled": (V,)}.get(name, ())
    cut = lambda x, r: p(x, r) if x is V else x
    p.everywhere(lambda r: getattr(losses(), name)(p(A, r), p(T, r), *[cut(x, r) for x in more]),
                 lambda: getattr(losses(), name)(A, T, *more), name)


@unit("C14", fns=[LOSS + "_lool_fn", LOSS + "_lool_fn_unscaled"], **ON)
def losses_combine_covariances(c):
    """the likelihoods of responses with a joint covariance"""
    p = Parts(c)
    R, s = c.choose("R", [2, 3]), c.real("scale", pos=True)
    A, T, V = c.tensor("P", p.B, R), c.tensor("T", p.B, R), c.cov("V", (p.B,), (R,))
    name = c.choose("loss", ["lool_fn", "lool_fn_unscaled"])
    more = (s,) if name == "lool_fn" else ()
    p.everywhere(lambda r: getattr(losses(), name)(p(A, r), p(T, r), p(V, r), *more),
                 lambda: getattr(losses(), name)(A, T, V, *more), name)


@unit("C14", fns=["MuyGPyS._src.optimize.scale.mpi:_analytic_scale_optim", "MuyGPyS.gp.hyperparameter.scale:AnalyticScale.get_opt_fn",
                  "MuyGPyS.gp.muygps:MuyGPS.optimize_scale"], **ON)
def scale_combines(c):
    p, n = Parts(c), c.dim("n")
    D, Y = c.tensor("D", p.B, n, n, lo=0.0), c.tensor("y", p.B, n)
    tau = c.real("noise", pos=True)

    def new():
        from MuyGPyS.gp.hyperparameter import AnalyticScale
        return model("rbf", tau=tau, scale=AnalyticScale)

    def estimate(D, Y):
        m = new()
        return m.scale.get_opt_fn(m)(m.kernel(D), Y)
    want = c.serial(lambda: estimate(D, Y))
    c.assume(c.num(want) > 0)
    p.everywhere(lambda r: estimate(p(D, r), p(Y, r)), lambda: want, "analytic scale")
    p.everywhere(lambda r: new().optimize_scale(p(D, r), p(Y, r)).scale(), lambda: want, "optimized scale")


@unit("C14", fns=["MuyGPyS._src.optimize.scale.mpi:_analytic_scale_optim"], **ON)
def scale_combines_multioutput(c):
    p, n, o = Parts(c), c.dim("n"), c.choose("o", [2, 3])
    K, Y = c.cov("K", (p.B,), (o, n)), c.tensor("y", p.B, o, n)

    def work(K, Y):
        from MuyGPyS._src.optimize.scale import _analytic_scale_optim
        return _analytic_scale_optim(K, Y, batch_dim_count=1)
    p.everywhere(lambda r: work(p(K, r), p(Y, r)), lambda: work(K, Y), "analytic scale")


@unit("C14", fns=["MuyGPyS._src.gp.muygps.mpi:_muygps_posterior_mean", "MuyGPyS._src.gp.muygps.mpi:_muygps_diagonal_variance",
                  "MuyGPyS._src.gp.noise.mpi:_homoscedastic_perturb"], **ON)
def predictions_combine(c):
    """every process predicts its own batch elements, as a serial run does"""
    p, n = Parts(c), c.dim("n")
    K, k = c.cov("K", (p.B,), (n,)), c.tensor("k", p.B, n)
    R = c.dim("R") if c.boolean("multi") else None
    Y = c.tensor("y", p.B, n, *((R,) if R is not None else ()))
    tau = c.real("noise", pos=True)
    kind = c.choose("model", ["rbf", "matern"])

    def work(K, k, Y):
        m = model(kind, tau=tau)
        return m.posterior_mean(K, k, Y), m.posterior_variance(K, k)
    got = c.spmd(p.P, lambda r: work(p(K, r), p(k, r), p(Y, r)), "predictions")
    if got is None:
        return
    mean, var = (c.read(x) for x in c.serial(lambda: work(K, k, Y)))
    start = 0
    for r, (m, v) in enumerate(got):
        s = p.sizes[r]
        c.arr(m, [s] + ([R] if R is not None else []), lambda i, *q, o=start: mean[(i + o,) + q], f"posterior mean on process {r}")
        c.arr(v, [s], lambda i, o=start: var[i + o], f"posterior variance on process {r}")
        start = start + s


@unit("C14", fns=["MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.posterior_mean", "MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.posterior_variance",
                  "MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.optimize_scale"], **ON)
def multivariate_combines(c):
    p, n, m = Parts(c, 2), c.dim("n"), 2
    cross, pair = c.tensor("cross", p.B, n, lo=0.0), c.dists("pair", (p.B,), n)
    Y = c.tensor("y", p.B, n, m)

    def work(cross, pair, Y):
        g = model("multi")
        return g.posterior_mean(pair, cross, Y), g.posterior_variance(pair, cross)
    got = c.spmd(p.P, lambda r: work(p(cross, r), p(pair, r), p(Y, r)), "predictions")
    if got is None:
        return
    mean, var = (c.read(x) for x in c.serial(lambda: work(cross, pair, Y)))
    start = 0
    for r, (u, v) in enumerate(got):
        c.arr(u, [p.sizes[r], m], lambda i, k, o=start: mean[i + o, k], f"posterior mean on process {r}")
        c.arr(v, [p.sizes[r], m], lambda i, k, o=start: var[i + o, k], f"posterior variance on process {r}")
        start = start + p.sizes[r]


@unit("C14", fns=["MuyGPyS.gp.multivariate_muygps:MultivariateMuyGPS.optimize_scale"], **ON)
def multivariate_scales_combine(c):
    p, n, m = Parts(c, 2), c.dim("n"), 2
    pair, Y = c.dists("pair", (p.B,), n), c.tensor("y", p.B, n, m)
    tau = c.real("noise", pos=True)

    def new():
        from MuyGPyS.gp.hyperparameter import AnalyticScale
        return model("multi", tau=tau, scale=AnalyticScale)

    def estimates(pair, Y):
        return [g.scale.get_opt_fn(g)(g.kernel(pair), Y[..., k]) for k, g in enumerate(new().models)]
    want = [c.num(v) for v in c.serial(lambda: estimates(pair, Y))]
    c.assume(c.and_(*[v > 0 for v in want]))
    got = c.spmd(p.P, lambda r: [g.scale() for g in new().optimize_scale(p(pair, r), p(Y, r)).models], "scale optimization")
    if got is not None:
        for r, v in enumerate(got):
            for k in range(m):
                c.scalar(v[k], want[k], f"scale {k} on process {r}")


# ------------------------------------------------------------------ training
BOUNDS = (0.25, 4.0)


@unit("C14", fns=["MuyGPyS.optimize.objective:make_loo_crossval_fn", LOSS + "_mse_fn", LOSS + "_lool_fn", LOSS + "_looph_fn",
                  "MuyGPyS._src.optimize.scale.mpi:_analytic_scale_optim"], **ON)
def objectives_combine(c):
    """the training objective on the chunks is that of the whole batch, on every process"""
    p, n = Parts(c, 2), c.dim("n")
    cross, pair = c.tensor("cross", p.B, n, lo=0.0), c.dists("pair", (p.B,), n)
    Y, T = c.tensor("y", p.B, n), c.tensor("t", p.B)
    kind = c.choose("model", ["rbf", "matern"])
    name = c.choose("loss", ["mse_fn", "lool_fn", "lool_fn_unscaled", "pseudo_huber_fn", "looph_fn"])
    ls, tau, at = c.real("ls", lo=0.25, hi=4.0), c.real("noise", lo=0.05, hi=2.0), c.real("cand", lo=0.25, hi=4.0)

    def work(cross, pair, Y, T):
        from MuyGPyS.gp.hyperparameter import AnalyticScale
        from MuyGPyS.optimize import L_BFGS_B_optimize
        m = model(kind, ls=ls, tau=tau, bounds=BOUNDS, scale=AnalyticScale)
        f = L_BFGS_B_optimize.make_obj_fn(m, T, Y, cross, pair, loss_fn=getattr(losses(), name))
        return f(length_scale=at)
    p.everywhere(lambda r: work(*[p(x, r) for x in (cross, pair, Y, T)]), lambda: work(cross, pair, Y, T), "objective")


@unit("C14", fns=["MuyGPyS.optimize.chassis:OptimizeFn.__call__", "MuyGPyS._src.optimize.chassis.mpi:_scipy_optimize",
                  "MuyGPyS._src.optimize.chassis.mpi:_bayes_opt_optimize"], **ON)
def training_agrees(c):
    """training on the chunks gives every process the same model"""
    p, n = Parts(c, 2), c.dim("n")
    cross, pair = c.tensor("cross", p.B, n, lo=0.0), c.dists("pair", (p.B,), n)
    Y, T = c.tensor("y", p.B, n), c.tensor("t", p.B)
    bayes = c.boolean("bayes")
    ls, tau = c.real("ls", lo=0.25, hi=4.0), c.real("noise", lo=0.05, hi=2.0)
    name = c.choose("loss", ["mse_fn", "lool_fn"])
    seed = dict(random_state=c.integer("seed", lo=0, hi=1000)) if bayes and c.boolean("seeded") else {}
    few = dict(init_points=1, n_iter=1) if bayes else {}

    def body(r):
        from MuyGPyS.gp.hyperparameter import AnalyticScale
        from MuyGPyS.optimize import Bayes_optimize, L_BFGS_B_optimize
        m = model("matern", ls=ls, tau=tau, bounds=BOUNDS, scale=AnalyticScale)
        opt = Bayes_optimize if bayes else L_BFGS_B_optimize
        m = opt(m, p(T, r), p(Y, r), p(cross, r), p(pair, r), loss_fn=getattr(losses(), name), **few, **seed)
        return m.kernel.deformation.length_scale()
    got = c.spmd(p.P, body, "training")
    if got is not None:
        for g in got:
            c.scalar(g, got[0], "trained length scale")
            c.true(c.and_(BOUNDS[0] <= c.num(g), c.num(g) <= BOUNDS[1]), "inside the bounds")


# ------------------------------------------------------------------ collecting
@unit("C14", fns=[MPI + "_consistent_unchunk_tensor"], **ON)
def unchunk(c):
    """gathering the chunks gives the whole, on every process"""
    p = Parts(c)
    d = c.choose("rank", [1, 2, 3])
    A = c.tensor("A", p.B, *[c.dim(f"a{i}") for i in range(d - 1)])

    def body(r):
        from MuyGPyS._src.mpi_utils import _consistent_unchunk_tensor
        return _consistent_unchunk_tensor(p(A, r))
    got = c.spmd(p.P, body, "gathering")
    if got is not None:
        for g in got:
            c.same(g, A, "gathered tensor")


@unit("C14", fns=[MPI + "_consistent_reduce_scalar"], **ON)
def reduce_scalar(c):
    P = processes(c)
    v = [c.real(f"v{r}") for r in range(P)]

    def body(r):
        from MuyGPyS._src.mpi_utils import _consistent_reduce_scalar
        return _consistent_reduce_scalar(v[r])
    got = c.spmd(P, body, "reduction")
    if got is not None:
        for g in got:
            c.scalar(g, sum(v), "sum over the processes")


@unit("C14", fns=["MuyGPyS.gp.hyperparameter.scalar:ScalarParam._sample_val"], **ON)
def samples_agree(c):
    """a sampled hyperparameter has the same value on every process"""
    P = processes(c)
    lo, hi = c.real("lo", lo=0.1, hi=1.0), c.real("hi", lo=2.0, hi=4.0)
    how = c.choose("how", ["sample", "log_sample"])

    def body(r):
        from MuyGPyS.gp.hyperparameter import ScalarParam
        return ScalarParam(how, (lo, hi))()
    got = c.spmd(P, body, "sampling")
    if got is not None:
        for g in got:
            c.scalar(g, got[0], "the value of process 0")
            c.true(c.and_(lo <= g, g <= hi), "inside the bounds")
