"""C07: noise models."""
from pv.unit import unit
from contracts.common import deq

H = ["MuyGPyS._src.gp.noise.{B}:_homoscedastic_perturb", "MuyGPyS.gp.noise.homoscedastic:HomoscedasticNoise.perturb",
     "MuyGPyS.gp.noise.homoscedastic:HomoscedasticNoise.perturb_fn"]
S = ["MuyGPyS._src.gp.noise.{B}:_shear_perturb33", "MuyGPyS.gp.noise.shear:ShearNoise33"]
T = ["MuyGPyS._src.gp.noise.{B}:_heteroscedastic_perturb", "MuyGPyS.gp.noise.heteroscedastic:HeteroscedasticNoise"]


def tau_of(c, name="noise"):
    return c.real(name, lo=0)


@unit("C07", fns=H)
def noise_homo(c):
    from MuyGPyS.gp.noise import HomoscedasticNoise
    tau, cand = tau_of(c), tau_of(c, "cand")
    nz = HomoscedasticNoise(tau)
    b, n = c.dim("b"), c.dim("n")
    Kin = c.tensor("Kin", b, n, n)
    K = c.read(Kin)
    spec = lambda t: lambda i, p, q: K[i, p, q] + c.ite(c.eq(p, q), t, 0.0)
    c.arr(nz.perturb(Kin), [b, n, n], spec(tau), "perturbed covariance")
    c.unchanged(Kin, K, "the input covariance is not modified")
    c.arr(nz.perturb(Kin, noise=cand), [b, n, n], spec(cand), "perturbed covariance, call-time noise")
    c.arr(nz.perturb(Kin), [b, n, n], spec(tau), "stored noise after a call-time override")
    f = nz.perturb_fn(lambda A, x, **kw: A * x)
    x = c.real("x")
    c.arr(f(Kin, x), [b, n, n], lambda i, p, q: spec(tau)(i, p, q) * x, "perturbed function")
    c.arr(f(Kin, x, noise=cand), [b, n, n], lambda i, p, q: spec(cand)(i, p, q) * x, "perturbed function, call-time noise")
    c.unchanged(Kin, K, "the input covariance is not modified by a perturbed function")


@unit("C07", fns=H)
def noise_homo_multi(c):
    from MuyGPyS.gp.noise import HomoscedasticNoise
    tau, cand = tau_of(c), tau_of(c, "cand")
    nz = HomoscedasticNoise(tau)
    b, o, n = c.dim("b"), c.dim("o"), c.dim("n")
    Kin = c.tensor("Kin", b, o, n, o, n)
    K = c.read(Kin)
    spec = lambda t: lambda i, s, p, u, q: K[i, s, p, u, q] + c.ite(deq(c, (s, p), (u, q)), t, 0.0)
    c.arr(nz.perturb(Kin), [b, o, n, o, n], spec(tau), "perturbed covariance")
    c.arr(nz.perturb(Kin, noise=cand), [b, o, n, o, n], spec(cand), "perturbed covariance, call-time noise")
    c.unchanged(Kin, K, "the input covariance is not modified")


@unit("C07", fns=S)
def noise_shear(c):
    from MuyGPyS.gp.noise import ShearNoise33
    tau, cand = tau_of(c), tau_of(c, "cand")
    nz = ShearNoise33(tau)
    b, n = c.dim("b"), c.dim("n")
    Kin = c.tensor("Kin", b, 3, n, 3, n)
    K = c.read(Kin)
    spec = lambda t: lambda i, s, p, u, q: K[i, s, p, u, q] + c.ite(
        deq(c, (s, p), (u, q)), c.ite(c.eq(s, 0), 2 * t, t), 0.0)
    c.arr(nz.perturb(Kin), [b, 3, n, 3, n], spec(tau), "perturbed covariance")
    c.arr(nz.perturb(Kin, noise=cand), [b, 3, n, 3, n], spec(cand), "perturbed covariance, call-time noise")
    c.unchanged(Kin, K, "the input covariance is not modified")


@unit("C07", fns=T)
def noise_hetero(c):
    from MuyGPyS.gp.noise import HeteroscedasticNoise
    b, n = c.dim("b"), c.dim("n")
    eps = c.tensor("eps", b, n, lo=0)
    Kin = c.tensor("Kin", b, n, n)
    K, E = c.read(Kin), c.read(eps)
    nz = HeteroscedasticNoise(eps)
    spec = lambda i, p, q: K[i, p, q] + c.ite(c.eq(p, q), E[i, p], 0.0)
    c.arr(nz.perturb(Kin), [b, n, n], spec, "perturbed covariance")
    c.arr(nz.perturb_fn(lambda A: A)(Kin), [b, n, n], spec, "perturbed function")
    c.unchanged(Kin, K, "the input covariance is not modified")
    c.unchanged(eps, E, "the noise tensor is not modified")
    c.true(nz.fixed(), "heteroscedastic noise is fixed")


@unit("C07", fns=T, trials=8)
def noise_hetero_negative(c):
    """a strictly negative entry anywhere is rejected"""
    from MuyGPyS.gp.noise import HeteroscedasticNoise
    b, n = c.dim("b"), c.dim("n")
    i, j = c.integer("i", 0, b - 1), c.integer("j", 0, n - 1)
    eps = c.tensor("eps", b, n, lo=0)
    v = c.real("v", lo=-2.0, hi=-1.0)
    eps[i, j] = v
    c.raises(HeteroscedasticNoise, eps, exc=ValueError, label="negative noise variance is rejected")


@unit("C07", fns=["MuyGPyS.gp.noise.null:NullNoise.perturb", "MuyGPyS.gp.noise.null:NullNoise.perturb_fn"])
def noise_null(c):
    from MuyGPyS.gp.noise import NullNoise
    b, n = c.dim("b"), c.dim("n")
    Kin = c.tensor("Kin", b, n, n)
    K = c.read(Kin)
    nz = NullNoise()
    c.arr(nz.perturb(Kin), [b, n, n], lambda i, p, q: K[i, p, q], "perturbed covariance")
    c.arr(nz.perturb_fn(lambda A: A)(Kin), [b, n, n], lambda i, p, q: K[i, p, q], "perturbed function")
    c.unchanged(Kin, K, "the input covariance is not modified")


@unit("C07", fns=["MuyGPyS.gp.noise.null:NullNoise"])
def noise_null_model(c):
    """a model may be built with null noise: it predicts, is fixed and offers nothing"""
    from MuyGPyS.gp import MuyGPS
    from MuyGPyS.gp.deformation import Isotropy, l2
    from MuyGPyS.gp.hyperparameter import ScalarParam
    from MuyGPyS.gp.kernels import Matern
    from MuyGPyS.gp.noise import NullNoise
    m = MuyGPS(kernel=Matern(deformation=Isotropy(l2, length_scale=ScalarParam(1.0))), noise=NullNoise())
    c.true(m.fixed(), "null noise is fixed")
    names, params, bounds = m.get_opt_params()
    c.true(len(names) == 0, "null noise offers nothing to the optimizer")


@unit("C07", fns=["MuyGPyS._src.gp.noise.{B}:_homoscedastic_perturb", "MuyGPyS._src.gp.noise.{B}:_shear_perturb33"])
def unsupported_ranks(c):
    """a tensor that is no covariance is rejected, never perturbed somehow"""
    from MuyGPyS.gp.noise import HomoscedasticNoise, ShearNoise33
    b, n = c.dim("b"), c.dim("n")
    rank = c.choose("rank", [1, 2, 4])
    K = c.tensor("K", *[b, n, n, n][:rank])
    k = c.read(K)
    c.raises(HomoscedasticNoise(c.real("noise", pos=True)).perturb, K, exc=ValueError, label="homoscedastic noise of a tensor of unknown rank")
    c.raises(ShearNoise33(c.real("snoise", pos=True)).perturb, K if rank != 1 else c.tensor("K3", b, n, n), exc=ValueError, label="shear noise of a tensor of unknown rank")
    c.unchanged(K, k, "rejected tensor")
