"""C21: the selected backend and precision are the ones in force.

Configurations are finitely many and enumerated; sizes and entries of the arrays involved stay symbolic."""
import importlib
import types
from pv.unit import unit

PKG = {
    "math": "all allclose arange argmax array atleast_1d atleast_2d assign corrcoef cov cholesky eye exp diagonal divide iarray inf int32 int64 "
            "itype isclose farray float32 float64 ftype full linalg linspace log logical_or max mean median min ndarray ones outer parameter prod "
            "repeat reshape sqrt squeeze sum tile unique vstack where zeros",
    "gp.kernels": "_rbf_fn _matern_05_fn _matern_15_fn _matern_25_fn _matern_inf_fn _matern_gen_fn",
    "gp.kernels.shear": "_shear_33_fn _shear_Kin23_fn _shear_Kcross23_fn",
    "gp.noise": "_homoscedastic_perturb _heteroscedastic_perturb _shear_perturb33",
    "gp.tensors": "_make_fast_predict_tensors _batch_features_tensor _crosswise_differences _crosswise_tensor _pairwise_differences "
                  "_pairwise_tensor _fast_nn_update _make_heteroscedastic_tensor _F2 _l2",
    "gp.muygps": "_muygps_posterior_mean _muygps_diagonal_variance _muygps_fast_posterior_mean _muygps_fast_posterior_mean_precompute "
                 "_mmuygps_fast_posterior_mean",
    "optimize.scale": "_analytic_scale_optim _analytic_scale_optim_unnormalized",
    "optimize.chassis": "_scipy_optimize _bayes_opt_optimize",
    "optimize.loss": "_mse_fn _cross_entropy_fn _lool_fn _lool_fn_unscaled _pseudo_huber_fn _looph_fn",
}
ALL = ("numpy", "torch", "jax", "mpi")
UTIL = ["MuyGPyS._src.util:_collect_implementation", "MuyGPyS._src.util:_collect_functions"]


def foreign(name, backend):
    """a module:function of another backend's implementation (the array functions of NumPy are shared, and the
    distributed backend computes its chunks with the NumPy one)"""
    m = name.split(":")[0]
    if backend == "mpi" and m.endswith(".numpy"):
        return False
    return m.startswith("MuyGPyS._src.") and m.rsplit(".", 1)[-1] in set(ALL) - {backend} and m != "MuyGPyS._src.math.numpy"


def implementations(c, backend):
    with c.library(backend):
        for pkg, names in PKG.items():
            p = "MuyGPyS._src." + pkg
            impl, facade = importlib.import_module(p + "." + backend), importlib.import_module(p)
            for name in names.split():
                c.true(hasattr(facade, name), f"{pkg}.{name} is exported under {backend}")
                v = getattr(facade, name, None)
                c.true(v is getattr(impl, name, None), f"{pkg}.{name} is the {backend} implementation")
            for name, v in vars(facade).items():
                if name in names.split() or name.startswith("__") or isinstance(v, types.ModuleType):
                    continue
                if hasattr(impl, name):
                    c.true(v is getattr(impl, name), f"{pkg}.{name} is the {backend} implementation")
                m = getattr(v, "__module__", None)
                c.true(not (isinstance(m, str) and foreign(m, backend)), f"{pkg}.{name} is of no other backend")


@unit("C21", backends=("numpy",), fns=UTIL)
def dispatch(c):
    """every exported name, under every installed backend"""
    implementations(c, c.choose("backend", ["numpy", "torch"]))


@unit("C21", backends=("mpi",), fns=UTIL)
def dispatch_mpi(c):
    implementations(c, "mpi")


SHARED_MPI = set("""_pairwise_tensor _crosswise_tensor _F2 _l2 _rbf_fn _matern_05_fn _matern_15_fn _matern_25_fn _matern_inf_fn _shear_33_fn
    _homoscedastic_perturb _muygps_posterior_mean _muygps_diagonal_variance""".split())
SERIAL_ONLY = set("""_fast_nn_update _make_fast_predict_tensors _heteroscedastic_perturb _muygps_fast_posterior_mean
    _muygps_fast_posterior_mean_precompute _mmuygps_fast_posterior_mean""".split())


@unit("C21", backends=("mpi",), fns=UTIL + ["MuyGPyS._src.gp.tensors.mpi:_batch_features_tensor", "MuyGPyS._src.optimize.loss.mpi:_mse_fn"])
def executed_operations_mpi(c):
    """under the distributed backend: its own reductions and chunks, NumPy arithmetic, documented refusals"""
    with c.library("mpi"), c.executed() as ran:
        out = run_operations(c, "np")
    for name in sorted(ran):
        c.true(not foreign(name, "mpi"), f"{name} runs under mpi")
    for name, v in out.items():
        op = name.split()[0]
        if op in SERIAL_ONLY:
            c.true(v is None, f"{op} is refused under mpi")
        else:
            own = any(r.endswith(f".mpi:{op}") for r in ran)
            c.true(own or op in SHARED_MPI and any(r.endswith(f".numpy:{op}") for r in ran), f"{op} runs its mpi implementation")


def run_operations(c, lib):
    """every operation, on valid arguments; returns the resulting arrays"""
    g = lambda p: importlib.import_module("MuyGPyS._src." + p)
    t, k, m, z, l, s, h = (g(p) for p in ("gp.tensors", "gp.kernels", "gp.muygps", "gp.noise", "optimize.loss", "optimize.scale", "gp.kernels.shear"))
    N, M, b, n, R = c.dim("N"), c.dim("M"), c.dim("b"), c.dim("n"), c.dim("R")
    X, Z = c.tensor("X", N, 2, lib=lib), c.tensor("Z", M, 2, lib=lib)
    nn, at = c.indices("nn", b, n, upper=N, lib=lib), c.indices("at", b, upper=M, lib=lib)
    nf = c.indices("nf", N, n, upper=N, lib=lib)
    y1 = c.tensor("y1", N, lib=lib)
    tau = c.real("noise", lo=0.05, hi=2.0)
    out = {}

    def refusable(f, *a):
        try:
            return f(*a)
        except NotImplementedError:
            return None
    P = out["_pairwise_tensor"] = t._pairwise_tensor(X, nn)
    C = out["_crosswise_tensor"] = t._crosswise_tensor(Z, X, at, nn)
    out["_batch_features_tensor"] = t._batch_features_tensor(Z, at)
    out["_make_heteroscedastic_tensor"] = t._make_heteroscedastic_tensor(y1, nn)
    out["_fast_nn_update"] = refusable(t._fast_nn_update, nf)
    for i, r in enumerate(refusable(t._make_fast_predict_tensors, nf, X, y1) or (None, None)):
        out[f"_make_fast_predict_tensors {i}"] = r
    D, E = out["_l2"], out["_l2 crosswise"] = t._l2(P), t._l2(C)
    out["_F2"] = t._F2(P)
    for name in ("_rbf_fn", "_matern_05_fn", "_matern_15_fn", "_matern_25_fn", "_matern_inf_fn"):
        out[name] = getattr(k, name)(D)
    out["_shear_33_fn"] = h._shear_33_fn(P, length_scale=c.real("ls", lo=0.25, hi=4.0))
    K, k1 = c.cov("K", (b,), (n,), lib=lib), c.tensor("k1", b, n, lib=lib)
    y = c.tensor("y", b, n, lib=lib)
    out["_homoscedastic_perturb"] = z._homoscedastic_perturb(K, tau)
    out["_heteroscedastic_perturb"] = refusable(z._heteroscedastic_perturb, K, c.tensor("t", b, n, pos=True, lib=lib))
    out["_muygps_posterior_mean"] = m._muygps_posterior_mean(K, k1, y)
    V = out["_muygps_diagonal_variance"] = m._muygps_diagonal_variance(K, k1, c.num(1.0))
    F = out["_muygps_fast_posterior_mean_precompute"] = refusable(m._muygps_fast_posterior_mean_precompute, K, y)
    out["_muygps_fast_posterior_mean"] = refusable(m._muygps_fast_posterior_mean, k1, F)
    out["_mmuygps_fast_posterior_mean"] = refusable(
        m._mmuygps_fast_posterior_mean, c.tensor("mk", b, n, R, lib=lib), c.tensor("mc", b, n, R, lib=lib))
    a, w, v = c.tensor("pred", b, R, lib=lib), c.tensor("true", b, R, lib=lib), c.tensor("var", b, R, pos=True, lib=lib)
    out["_mse_fn"], out["_pseudo_huber_fn"] = l._mse_fn(a, w), l._pseudo_huber_fn(a, w)
    out["_lool_fn"], out["_lool_fn_unscaled"] = l._lool_fn(a, w, v, tau), l._lool_fn_unscaled(a, w, v)
    out["_looph_fn"] = l._looph_fn(a, w, v, tau)
    cl = c.dim("classes", lo=2)
    out["_cross_entropy_fn"] = l._cross_entropy_fn(c.tensor("p2", b, cl, lib=lib), c.tensor("t2", b, cl, lib=lib))
    out["_analytic_scale_optim"] = s._analytic_scale_optim(K, y)
    return out


@unit("C21", backends=("numpy",), fns=UTIL + ["MuyGPyS._src.gp.tensors.torch:_pairwise_tensor", "MuyGPyS._src.optimize.loss.torch:_mse_fn"])
def executed_operations(c):
    """running every operation executes code of the selected backend only and yields its arrays"""
    backend = c.choose("backend", ["numpy", "torch"])
    lib = {"numpy": "np", "torch": "torch"}[backend]
    with c.library(backend), c.executed() as ran:
        out = run_operations(c, lib)
    for name in sorted(ran):
        c.true(not foreign(name, backend), f"{name} runs under {backend}")
    for name in out:
        op = name.split()[0]
        c.true(any(r.endswith(f".{backend}:{op}") for r in ran), f"{op} runs its {backend} implementation")
    for name, v in out.items():
        c.true(v is not None, f"{name} is available")
        if getattr(v, "shape", ()):
            c.true(c.is_array(v, lib), f"{name} gives {backend} arrays")


def model(c, lib):
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, Anisotropy, l2, F2
    from MuyGPyS.gp.hyperparameter import ScalarParam, VectorParam, AnalyticScale
    from MuyGPyS.gp.kernels import Matern, RBF
    from MuyGPyS.gp.noise import HomoscedasticNoise
    ls = c.real("ls", lo=0.25, hi=4.0)
    if c.boolean("anisotropic"):
        kernel = RBF(deformation=Anisotropy(F2, length_scale=VectorParam(ScalarParam(ls), ScalarParam(c.real("ls1", lo=0.25, hi=4.0)))))
    else:
        kernel = Matern(smoothness=ScalarParam(c.choose("smoothness", [0.5, 1.5, 2.5, float("inf")])), deformation=Isotropy(l2, length_scale=ScalarParam(ls)))
    return MuyGPS(kernel=kernel, noise=HomoscedasticNoise(c.real("noise", lo=0.05, hi=2.0)), scale=AnalyticScale())


@unit("C21", backends=("numpy",), fns=["MuyGPyS.gp.muygps:MuyGPS", "MuyGPyS.gp.kernels.matern:Matern"])
def executed_model(c):
    """the public model runs the selected backend throughout"""
    backend = c.choose("backend", ["numpy", "torch"])
    lib = {"numpy": "np", "torch": "torch"}[backend]
    with c.library(backend), c.executed() as ran:
        m = model(c, lib)
        N, M, b, n = c.dim("N"), c.dim("M"), c.dim("b"), c.dim("n")
        X, Z, y = c.tensor("X", N, 2, lib=lib), c.tensor("Z", M, 2, lib=lib), c.tensor("y", N, lib=lib)
        at, nn = c.indices("at", b, upper=M, lib=lib), c.indices("nn", b, n, upper=N, lib=lib)
        cross, pair, yn = m.make_predict_tensors(at, nn, Z, X, y)
        Kin, k = m.kernel(pair), m.kernel(cross)
        K = c.cov("K", (b,), (n,), lib=lib)
        out = dict(cross=cross, pair=pair, responses=yn, Kin=Kin, Kcross=k, mean=m.posterior_mean(K, k, yn), variance=m.posterior_variance(K, k),
                   coefficients=m.fast_coefficients(K, yn))
    for name in sorted(ran):
        c.true(not foreign(name, backend), f"{name} runs under {backend}")
    for name, v in out.items():
        c.true(c.is_array(v, lib), f"{name} is an array of {backend}")


@unit("C21", backends=("numpy",), fns=["MuyGPyS._src.jaxconfig:Config", "MuyGPyS._src.config:MuyGPySConfig"])
def rejected(c):
    """unknown names and backends that are not installed"""
    def load():
        import MuyGPyS  # noqa: F401
        importlib.import_module("MuyGPyS._src.math")
        importlib.import_module("MuyGPyS.gp")
    kind = c.choose("what", ["backend", "ftype", "missing"])
    if kind == "backend":
        for name in ("tensorflow", "cupy", "numpy2", "num", "", "torchmpi", "64"):
            with c.library(name):
                c.raises(load, exc=ValueError, label=f"backend {name!r} is rejected")
    elif kind == "ftype":
        for name in ("16", "128", "", "float64", "double", "numpy"):
            for backend in ("numpy", "torch"):
                with c.library(backend, name):
                    c.raises(load, exc=ValueError, label=f"precision {name!r} is rejected under {backend}")
    else:
        for name, package in (("jax", "jax"), ("mpi", "mpi4py"), ("torch", "torch")):
            with c.library(name, without=(package,)):
                c.raises(load, exc=ValueError, label=f"backend {name} without {package} is rejected")


@unit("C21", backends=("numpy",), fns=UTIL + ["MuyGPyS._src.math.meta:set_type"])
def reconfigured(c):
    """choosing through the configuration object before the operations are imported"""
    for name in ("tensorflow", "numpy2", ""):
        with c.library():
            from MuyGPyS import config
            config.update("muygpys_backend", name)
            c.raises(lambda: importlib.import_module("MuyGPyS._src.gp.kernels"), label=f"backend {name!r} is rejected")
    for name in ("16", "", "float64"):
        for backend in ("numpy", "torch"):
            with c.library(backend):
                from MuyGPyS import config
                config.update("muygpys_ftype", name)
                c.raises(lambda: importlib.import_module("MuyGPyS._src.math"), label=f"precision {name!r} is rejected under {backend}")
    for before in ("numpy", "torch"):
        for after in ("numpy", "torch"):
            with c.library(before):
                from MuyGPyS import config
                config.update("muygpys_backend", after)
                import MuyGPyS._src.gp.tensors as t
                c.true(t._l2 is importlib.import_module("MuyGPyS._src.gp.tensors." + after)._l2, f"{after} chosen after {before}")
    for backend in ("numpy", "torch"):
        for before, after in (("64", "32"), ("32", "64")):
            with c.library(backend, before):
                from MuyGPyS import config
                config.update("muygpys_ftype", after)
                import MuyGPyS._src.math as mm
                c.true(c.precision(mm.array([1.0])) == "float" + after, f"precision {after} chosen after {before} under {backend}")
                c.true(config.state.low_precision() == (after == "32"), f"low precision flag after choosing {after}")
    with c.library():
        from MuyGPyS import config
        c.true(config.state.backend == "numpy" and config.state.ftype == "64", "defaults")


@unit("C21", backends=("numpy",), fns=["MuyGPyS._src.math.meta:fix_type", "MuyGPyS._src.math.meta:set_type", "MuyGPyS._src.math.torch:parameter"])
def precision(c):
    """arrays are created in the selected precision, whatever they are created from; an explicit type prevails"""
    backend, bits = c.choose("backend", ["numpy", "torch"]), c.choose("ftype", ["32", "64"])
    n, k, x = c.dim("n"), c.dim("k"), c.real("x")
    f = "float" + bits
    lib = {"numpy": "np", "torch": "torch"}[backend]
    with c.library(backend, bits):
        import MuyGPyS._src.math as mm
        from MuyGPyS import config
        c.true(config.state.ftype == bits and config.state.backend == backend, "the configuration is the selected one")
        c.true(config.state.low_precision() == (bits == "32"), "low precision flag")
        made = dict(array=mm.array([1.0, 2.0]), farray=mm.farray([1.0, 2.0]), array_of_integers=mm.array([1, 2]), eye=mm.eye(n), full=mm.full((n, k), x), zeros=mm.zeros((n, k)),
                    ones=mm.ones(n), linspace=mm.linspace(0.0, 1.0, 5), promote=mm.promote([1.0, 2.0]), array_of_number=mm.array(2.5))
        if backend == "torch":
            made["parameter"] = mm.parameter(2.5)
        for name, v in made.items():
            c.true(c.precision(v) == f, f"{name} has precision {bits} under {backend}")
        for name, v in dict(arange=mm.arange(n), iarray=mm.iarray([1, 2])).items():
            c.true(c.precision(v) == "int64", f"{name} holds indices under {backend}")
        for name, v in dict(array=mm.array([1.0, 2.0], dtype=mm.float32), full=mm.full((n, k), x, dtype=mm.float32), zeros=mm.zeros((n, k), dtype=mm.float32),
                            ones=mm.ones((n, k), dtype=mm.float32), eye=mm.eye(n, dtype=mm.float32)).items():
            c.true(c.precision(v) == "float32", f"{name} of an explicit type under {backend}")
        for name, v in dict(array=mm.array([1.0, 2.0], dtype=mm.float64), full=mm.full((n, k), x, dtype=mm.float64), zeros=mm.zeros((n, k), dtype=mm.float64),
                            ones=mm.ones((n, k), dtype=mm.float64), eye=mm.eye(n, dtype=mm.float64)).items():
            c.true(c.precision(v) == "float64", f"{name} of an explicit type under {backend}")
        c.true(c.precision(mm.array([1.0, 2.0], dtype=mm.itype)) == "int64", f"index arrays of an explicit type under {backend}")
        c.true(str(mm.ftype).find(f) >= 0, "the precision in force")
