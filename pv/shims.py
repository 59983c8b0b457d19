"""Trusted contracts of the third-party libraries MuyGPyS calls.

Each shim gives the documented mathematical meaning of a numpy / torch / scipy /
sklearn / bayes_opt / hnswlib / mpi4py entry point over symbolic arrays.  Anything
not listed resolves to a callable that raises Unsupported: it can never yield a
verdict.  This file is the trusted base of the proofs (together with the engine).
"""
import math
import sys
import types

from . import sym, tensor, terms as tm
from .sym import Sym, SymBool, SymRange, Unsupported, cur, scalar, ti, wrap, wrapb, branch
from .tensor import Tensor, asarr, ret, ZERO, ONE
from . import loader


class NpT(Tensor):
    lib = "np"


class TorchT(Tensor):
    lib = "torch"


tensor.CLASSES["np"] = NpT
tensor.CLASSES["torch"] = TorchT

EVENTS = []  # external calls recorded for the contracts


class DType(str):
    def __call__(self, x=0):
        k = "i" if "int" in self else ("b" if "bool" in self else "f")
        if isinstance(x, Tensor):
            return tensor.cast(x, self)
        if k == "f":
            return loader.pv_float(x)
        if k == "i":
            return loader.pv_int(x)
        return x


class Unknown:
    def __init__(self, name):
        self._n = name

    def __call__(self, *a, **k):
        raise Unsupported(f"external function {self._n}")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Unknown(f"{self._n}.{n}")

    def __mro_entries__(self, bases):
        return (object,)


class Shim(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Unknown(f"{self.__name__}.{n}")


def module(name, **d):
    m = Shim(name)
    m.__dict__.update(d)
    m.__path__ = []
    m.__spec__ = None
    sys.modules[name] = m
    if "." in name:
        p, _, c = name.rpartition(".")
        if p in sys.modules:
            setattr(sys.modules[p], c, m)
    return m


def kind_of(dtype):
    if dtype is None:
        return None
    if dtype is int or dtype is loader.pv_int:
        return "i"
    if dtype is float or dtype is loader.pv_float:
        return "f"
    if dtype is bool:
        return "b"
    d = str(dtype)
    if "int" in d:
        return "i"
    if "bool" in d:
        return "b"
    if "float" in d:
        return "f"
    raise Unsupported(f"dtype {dtype}")


def as_kind(a, k):
    if k is None or a.kind == k:
        return a
    if k == "i" and a.kind == "f":
        return tensor.unop_nd(a, loader.trunc_term, "i")
    return tensor.cast(a, {"f": "float", "i": "int", "b": "bool"}[k])


def tag(r, dtype, default):
    """ghost: the element type the array was created with"""
    d = {int: "int64", loader.pv_int: "int64", float: "float64", loader.pv_float: "float64", bool: "bool"}.get(dtype)
    r.dt = (d or str(dtype)) if dtype is not None else default
    return r


def unop_nd(a, f, kind):
    g = a.getter()
    return type(a)(a.axes, lambda idx: f(g(idx)), kind)


tensor.unop_nd = unop_nd


def mk(cls):
    """library functions for arrays of class cls"""
    NP = cls.lib == "np"
    F = "float64" if NP else "float32"  # element type of arrays created without one
    L = {}

    def A(x):
        if isinstance(x, Tensor):
            return x if isinstance(x, cls) else tensor.retype(x, cls)
        return asarr(x, cls=cls)

    def need(x):
        """torch functions reject non-tensors"""
        if not NP and not isinstance(x, Tensor):
            raise TypeError("expected a Tensor")
        return A(x)

    def R(t):
        return ret(t)

    def un(f, kind=None):
        def g(x, *a, **k):
            if a or (set(k) - {"dtype"}):
                raise Unsupported("ufunc options")
            return tensor.unop(need(x), f, kind)
        return g

    def bi(f, kind=None):
        def g(x, y, *a, **k):
            if a or k:
                raise Unsupported("ufunc options")
            if isinstance(x, (list, tuple)):
                x = A(x)
            if isinstance(y, (list, tuple)):
                y = A(y)
            return tensor.binop(need(x) if not NP else A(x), y, f, kind)
        return g

    def array(x, dtype=None, copy=True, **k):
        k = set(k) - {"device", "requires_grad", "ndmin", "order"}
        if k:
            raise Unsupported("array options")
        a = A(x)
        r = a.detach() if tensor.GRAD else a.copy()
        r = as_kind(r, kind_of(dtype))
        return tag(r, dtype, getattr(x, "dt", None))

    def asarray(x, dtype=None, **k):
        return as_kind(A(x), kind_of(dtype))

    def full(shape, v, dtype=None, **k):
        s = scalar(v)
        if s is None and isinstance(v, Tensor) and v.ndim == 0:
            t, kd = v.elem(()), v.kind
        elif s is None:
            raise Unsupported("full of a non-scalar")
        else:
            t, kd = s
        kd = kind_of(dtype) or kd
        if isinstance(shape, Tensor):
            shape = tuple(shape)
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        for d in shape:
            if scalar(d)[1] == "f":
                raise TypeError("'float' object cannot be interpreted as an integer")
        return tag(cls(tuple((ti(d),) for d in shape), lambda idx: t, kd), dtype, F if kd == "f" else "int64")

    def zs(v):
        def g(*shape, dtype=None, size=None, **k):
            if size is not None:
                shape = (size,)
            if len(shape) == 1:
                shape = shape[0]
            elif NP and len(shape) > 1:
                if len(shape) == 2 and isinstance(shape[1], str):
                    dtype, shape = shape[1], shape[0]
                else:
                    raise TypeError("Cannot interpret shape as dtype")
            return full(shape, float(v), dtype or F)
        return g

    def zs_like(v):
        def g(a, dtype=None, **k):
            a = A(a)
            kd = kind_of(dtype) or a.kind
            return cls(a.axes, lambda idx: tm.num(v), kd)
        return g

    def eye(n, m=None, dtype=None, **k):
        return tag(tensor.eye(n, m, cls=cls, kind=kind_of(dtype) or "f"), dtype, F)

    def arange(*a, dtype=None, **k):
        a = [x._item() if isinstance(x, Tensor) else x for x in a]
        return tag(as_kind(tensor.arange(*a, cls=cls), kind_of(dtype)), dtype, None)

    def linspace(lo, hi, n=50, dtype=None, **k):
        n = ti(n)
        a, b = scalar(lo)[0], scalar(hi)[0]
        return tag(cls(((n,),), lambda idx: tm.add(a, tm.mul(tm.sub(b, a), tm.div(
            idx[0][0], tm.sub(n, ONE)))), "f"), dtype, F)

    def shape_list(x):
        return [x] if not isinstance(x, (list, tuple)) else list(x)

    def cat(arrs, axis=0, dim=None, **k):
        if dim is not None:
            axis = dim
        if isinstance(arrs, loader.SymList) or not isinstance(arrs, (list, tuple)):
            return catlist(arrs, axis)
        return tensor.concat([A(x) for x in arrs], axis, cls=cls)

    def catlist(arrs, axis):
        f = getattr(arrs, "pv_concat", None)
        if f is not None:
            return f(axis)
        if isinstance(arrs, Tensor):
            return tensor.concat(list(arrs), axis, cls=cls)
        raise Unsupported("concatenation of a symbolic-length list")

    def stack(arrs, axis=0, dim=None, **k):
        if dim is not None:
            axis = dim
        arrs = [A(x) for x in arrs]
        n = arrs[0].ndim + 1
        return tensor.concat([tensor.expand_dims(a, axis % n) for a in arrs], axis % n, cls=cls)

    def vstack(arrs):
        if isinstance(arrs, loader.SymList) or hasattr(arrs, "pv_concat"):
            return catlist(arrs, 0)
        return tensor.concat([tensor.atleast(A(x), 2) for x in arrs], 0, cls=cls)

    def hstack(arrs):
        arrs = [tensor.atleast(A(x), 1) for x in arrs]
        return tensor.concat(arrs, 0 if arrs[0].ndim == 1 else 1, cls=cls)

    def column_stack(arrs):
        arrs = [A(x) for x in arrs]
        arrs = [tensor.expand_dims(a, 1) if a.ndim == 1 else a for a in arrs]
        return tensor.concat(arrs, 1, cls=cls)

    def axis_of(axis, dim, args):
        if args:
            return args[0]
        return dim if axis is None else axis

    def asum(x, *a, axis=None, dim=None, keepdims=False, keepdim=False, dtype=None, **k):
        if k:
            raise Unsupported("sum options")
        axis = axis_of(axis, dim, a)
        if not NP:
            x = need(x)
        if isinstance(x, loader.SymList):
            return x.pv_sum()
        x = A(x)
        if x.ndim == 0 and isinstance(axis, int):
            if not NP and axis in (0, -1):
                return x
        return tensor.reduce_sum(x, axis, keepdims or keepdim)

    def amean(x, *a, axis=None, dim=None, keepdims=False, keepdim=False, **k):
        if k:
            raise Unsupported("mean options")
        return tensor.mean(need(x), axis_of(axis, dim, a), keepdims or keepdim)

    def prod(x, *a, axis=None, dtype=None, dim=None, **k):
        axis = axis_of(axis, dim, a)
        if isinstance(x, (tuple, list)) and axis is None:
            if not NP:
                raise TypeError("prod(): argument 'input' must be Tensor")
            r = 1 if dtype is not None else (1.0 if len(x) == 0 else 1)
            for d in x:
                r = r * d
            return r
        return tensor.prod_arr(need(x), axis)

    def ext(name):
        def g(x, *a, axis=None, dim=None, **k):
            if k:
                raise Unsupported("options of " + name)
            ax = axis_of(axis, dim, a)
            x = need(x)
            r = tensor.extremum(x, ax, name)
            return r
        return g

    def median(x, *a, axis=None, dim=None, **k):
        return tensor.extremum(need(x), axis_of(axis, dim, a), "median" if NP else "lower_median")

    def where(c, *ab):
        if len(ab) != 2:
            return (tensor.nonzero(need(c)),)
        return tensor.where(A(c) if isinstance(c, Tensor) else c, *ab)

    def squeeze(x, axis=None, dim=None):
        x = need(x)
        return x.squeeze(axis=axis, dim=dim)

    def dot(x, y):
        x, y = A(x), A(y)
        if x.ndim == 0 or y.ndim == 0:
            return tensor.binop(x, y, tm.mul)
        if y.ndim <= 2:
            return tensor.matmul(x, y)
        raise Unsupported("dot of high-rank arrays")

    def outer(x, y):
        x, y = A(x).reshape(-1), A(y).reshape(-1)
        return x[:, None] * y[None, :]

    def sub_outer(x, y):
        x, y = A(x), A(y)
        if x.ndim != 1 or y.ndim != 1:
            raise Unsupported("subtract.outer of matrices")
        return x[:, None] - y[None, :]

    def norm(x, *a, axis=None, dim=None, ord=None, p=None, keepdims=False, keepdim=False, **k):
        if a and not NP:
            p = a[0]
            a = a[1:]
        elif a:
            ord = a[0]
            a = a[1:]
        o = ord if p is None else p
        if o not in (None, 2, 2.0, "fro") or k:
            raise Unsupported("norm order")
        x = need(x)
        ax = axis_of(axis, dim, a)
        if o in (2, 2.0) and ax is None and x.ndim != 1:
            raise Unsupported("matrix norm")
        return tensor.unop(tensor.lift(tensor.reduce_sum(x * x, ax, keepdims or keepdim), x), tm.sqrt, "f")

    def slogdet(x):
        x = need(x)
        return tuple_ns(sign=tensor.matfun(x, "signdet"), logabsdet=tensor.matfun(x, "logdet"))

    def isclose(*a, **k):
        raise Unsupported("isclose")

    def isnan(x):
        return tensor.unop(A(x), lambda t: tm.FALSE, "b")

    def transpose(x, *p, axes=None):
        x = need(x)
        if axes is not None:
            return x.permute(*axes)
        return x.transpose(*p)

    def broadcast_to(x, shape):
        x = A(x)
        axes = tuple((ti(d),) for d in shape)
        g = tensor.broadcast_getter(x, axes)
        return cls(axes, g, x.kind)

    def count_nonzero(x, *a, **k):
        if a or k:
            raise Unsupported("count_nonzero axis")
        x = need(x)
        g = x.getter()
        n = unop_nd(x, lambda t: tm.ite(tensor.truth(t), ONE, ZERO), "i")
        return tensor.reduce_sum(n)

    def aall(x, *a, axis=None, **k):
        if a or k or axis is not None:
            raise Unsupported("all over an axis")
        if not NP:
            need(x)
        return tensor.reduce_all(x)

    def aany(x, *a, axis=None, **k):
        if a or k or axis is not None:
            raise Unsupported("any over an axis")
        if not NP:
            need(x)
        return tensor.reduce_any(x)

    def einsum(spec, *ops):
        return tensor.einsum(spec, *[A(o) for o in ops])

    def tensordot(x, y, axes=2, dims=None):
        axes = dims if dims is not None else axes
        x, y = A(x), A(y)
        if isinstance(axes, int):
            ax, ay = list(range(x.ndim - axes, x.ndim)), list(range(axes))
        else:
            ax, ay = ([q] if isinstance(q, int) else list(q) for q in axes)
        ls = "abcdefghijklm"[: x.ndim]
        rs = list("nopqrstuvwxyz"[: y.ndim])
        for p, q in zip(ax, ay):
            rs[q % y.ndim] = ls[p % x.ndim]
        out = "".join(c for i, c in enumerate(ls) if i not in [p % x.ndim for p in ax]) + "".join(
            c for i, c in enumerate(rs) if i not in [q % y.ndim for q in ay])
        return tensor.einsum(ls + "," + "".join(rs) + "->" + out, x, y)

    def clip(x, lo=None, hi=None, min=None, max=None, **k):
        lo = min if lo is None else lo
        hi = max if hi is None else hi
        x = A(x)
        if lo is not None:
            x = tensor.binop(x, lo, lambda a, b: tm.ite(tm.lt(a, b), b, a))
        if hi is not None:
            x = tensor.binop(x, hi, lambda a, b: tm.ite(tm.lt(b, a), b, a))
        return x

    def take(x, idx, axis=None, **k):
        x = A(x)
        if axis is None:
            return x.reshape(-1)[idx]
        key = [slice(None)] * x.ndim
        key[axis] = idx
        return x[tuple(key)]

    def trace(x, *a, **k):
        return tensor.reduce_sum(tensor.diagonal(A(x), 0, 0, 1), -1)

    def choose(a, choices, *r, **k):
        if r or k or len(choices) != 2:
            raise Unsupported("choose options")
        a = A(a)
        lo, hi = (tensor.asarr(x, cls=cls) for x in choices)
        if lo.ndim or hi.ndim:
            raise Unsupported("choose among arrays")
        u, v = lo.elem(()), hi.elem(())
        g = a.getter()
        if a.kind != "b":
            raise Unsupported("choose by integers")
        return ret(unop_nd(a, lambda t: tm.ite(tensor.truth(t), v, u), lo.kind))

    def fill_diagonal(*a, **k):
        raise Unsupported("fill_diagonal")

    sq = lambda t: tm.mul(t, t)
    ab = lambda t: tm.ite(tm.le(ZERO, t), t, tm.neg(t))
    mx = lambda a, b: tm.ite(tm.lt(a, b), b, a)
    mn = lambda a, b: tm.ite(tm.lt(b, a), b, a)
    L.update(
        array=array, asarray=asarray, tensor=array, as_tensor=asarray, full=full, zeros=zs(0), ones=zs(1),
        empty=Unknown("empty"), zeros_like=zs_like(0), ones_like=zs_like(1), eye=eye, identity=eye,
        arange=arange, linspace=linspace,
        concatenate=cat, cat=cat, stack=stack, vstack=vstack, hstack=hstack, column_stack=column_stack,
        sum=asum, mean=amean, prod=prod, max=ext("max"), min=ext("min"), amax=ext("max"), amin=ext("min"),
        argmax=ext("argmax"), argmin=ext("argmin"), median=median, where=where, squeeze=squeeze,
        dot=dot, outer=outer, matmul=lambda x, y: tensor.matmul(need(x), need(y)),
        bmm=lambda x, y: tensor.matmul(need(x), need(y)), einsum=einsum, tensordot=tensordot,
        exp=un(tm.exp, "f"), log=un(tm.log, "f"), sqrt=un(tm.sqrt, "f"), square=un(sq),
        abs=un(ab), absolute=un(ab), negative=un(tm.neg), neg=un(tm.neg),
        sin=un(lambda t: tm.app("sin", t), "f"), cos=un(lambda t: tm.app("cos", t), "f"),
        expm1=un(lambda t: tm.sub(tm.exp(t), ONE), "f"), log1p=un(lambda t: tm.log(tm.add(t, ONE)), "f"),
        reciprocal=un(tm.recip, "f"),
        divide=bi(tm.div, "f"), div=bi(tm.div, "f"), true_divide=bi(tm.div, "f"), multiply=bi(tm.mul),
        mul=bi(tm.mul), add=bi(tm.add), subtract=bi(tm.sub), sub=bi(tm.sub), power=bi(tm.pow_), pow=bi(tm.pow_),
        maximum=bi(mx), minimum=bi(mn),
        equal=bi(tm.eq, "b"), eq=bi(tm.eq, "b"), not_equal=bi(lambda a, b: tm.not_(tm.eq(a, b)), "b"),
        less=bi(tm.lt, "b"), less_equal=bi(tm.le, "b"), greater=bi(lambda a, b: tm.lt(b, a), "b"),
        greater_equal=bi(lambda a, b: tm.le(b, a), "b"),
        logical_and=bi(tm.and_, "b"), logical_or=bi(tm.or_, "b"), logical_not=un(lambda t: tm.not_(tensor.truth(t)), "b"),
        invert=un(lambda t: tm.not_(tensor.truth(t)), "b"),
        isclose=isclose, allclose=isclose, isnan=isnan, all=aall, any=aany, count_nonzero=count_nonzero,
        atleast_1d=lambda x: tensor.atleast(A(x), 1), atleast_2d=lambda x: tensor.atleast(A(x), 2),
        atleast_3d=lambda x: tensor.atleast(A(x), 3),
        expand_dims=lambda x, axis: tensor.expand_dims(A(x), axis),
        unsqueeze=lambda x, dim: tensor.expand_dims(need(x), dim),
        reshape=lambda x, *s, **k: A(x).reshape(*(s or (k.get("newshape", k.get("shape")),))),
        copy=lambda x: A(x).copy(), clone=lambda x: need(x).copy(), ravel=lambda x: A(x).reshape(-1),
        swapaxes=lambda x, a, b: A(x).swapaxes(a, b),
        transpose=transpose, permute=transpose, moveaxis=Unknown("moveaxis"),
        repeat=lambda x, n, axis=None, dim=None: tensor.repeat(A(x), n, axis if dim is None else dim),
        repeat_interleave=lambda x, n, dim=None: tensor.repeat(need(x), n, dim),
        tile=lambda x, r, dims=None: tensor.tile(A(x), r),
        diag=lambda x, k=0: tensor.diag(A(x), k),
        diagonal=lambda x, offset=0, axis1=0, axis2=1, dim1=None, dim2=None: tensor.diagonal(
            A(x), offset, axis1 if dim1 is None else dim1, axis2 if dim2 is None else dim2),
        broadcast_to=broadcast_to, clip=clip, clamp=clip, take=take, trace=trace, norm=norm,
        fill_diagonal=fill_diagonal, choose=choose, ndim=lambda x: A(x).ndim, shape=lambda x: A(x).shape,
        size=lambda x: tensor.prod_shape(A(x).shape), numel=lambda x: x.numel(),
        softmax=lambda x, axis=None, dim=None: tensor.softmax(need(x), axis if dim is None else dim),
        float32=DType("float32"), float64=DType("float64"), int32=DType("int32"), int64=DType("int64"),
        double=DType("float64"), float=DType("float32"), long=DType("int64"),
        bool_=DType("bool"), inf=math.inf, nan=math.nan, pi=math.pi, newaxis=None,
        number=Sym, ascontiguousarray=asarray,
    )
    L["logical_or"].accumulate = lambda x, axis=0: tensor.accumulate(need(x), axis, "any")
    L["logical_and"].accumulate = lambda x, axis=0: tensor.accumulate(need(x), axis, "all")
    L["add"].accumulate = L["cumsum"] = lambda x, axis=None, dim=None: tensor.accumulate(need(x), axis if dim is None else dim, "sum")
    L["nonzero"] = lambda x: (tensor.nonzero(need(x)),)
    L["flatnonzero"] = lambda x: tensor.nonzero(need(x))
    L["unique"] = unique
    la = dict(
        solve=lambda a, b: tensor.solve(need(a), need(b)), inv=lambda a: tensor.inverse(need(a)),
        slogdet=slogdet, norm=norm, LinAlgError=type("LinAlgError", (ValueError,), {}),
        logdet=lambda x: tensor.matfun(need(x), "logdet"),
    )
    return L, la, sub_outer


def tuple_ns(**kw):
    from collections import namedtuple
    return namedtuple("NS", kw)(**kw)


CLASSES_OF = {}  # label array -> its distinct values, ascending (declared by contracts)


def unique(x, **k):
    if k or not isinstance(x, Tensor):
        raise Unsupported("unique")
    t = x.getter()(tuple((tm.var("unique?", "I"),) for _ in x.axes))
    vs = CLASSES_OF.get(t)
    if vs is None:
        raise Unsupported("unique of an array without declared classes")
    return tensor.asarr([Sym(v, "i") for v in vs], cls=type(x))


# -------------------------------------------------------------------- random
_rng_count = {}


def reset_counts():
    _rng_count.clear()
    EVENTS.clear()
    OVERSHOOT.clear()
    tensor.SELECTED.clear()


def _nth(name):
    n = _rng_count.get(name, 0)
    _rng_count[name] = n + 1
    return f"{name}!{n}"


def rand_choice(a, size=None, replace=True, p=None):
    if p is not None:
        raise Unsupported("weighted choice")
    arr = None
    if isinstance(a, Tensor):
        if a.ndim != 1:
            raise ValueError("'a' must be 1-dimensional")
        arr = a
        n = tensor.axsize(a.axes[0])
    elif isinstance(a, SymRange):
        arr = asarr(a)
        n = a.count()
    elif scalar(a) is not None and scalar(a)[1] == "i":
        n = ti(a)
    else:
        raise Unsupported("choice population")
    if size is None:
        raise Unsupported("scalar choice")
    if isinstance(size, tuple):
        if len(size) != 1:
            raise Unsupported("choice of a matrix")
        size = size[0]
    m = ti(size)
    if replace is False and not branch(tm.le(m, n)):
        raise ValueError("Cannot take a larger sample than population when 'replace=False'")
    name = _nth("choice")
    tm.declare(name, "I", facts=lambda i: [tm.le(ZERO, tm.app(name, i)), tm.lt(tm.app(name, i), n)])
    tm.UFS[name].inj = 0 if replace is False else None
    r = NpT(((m,),), lambda idx: tm.app(name, idx[0][0]), "i")
    if arr is not None:
        g = arr.getter()
        r0 = r
        r = NpT(((m,),), lambda idx: g(tensor_comps(tm.app(name, idx[0][0]), arr)), arr.kind)
    r.origin = "choice"
    EVENTS.append(dict(kind="choice", n=n, m=m, replace=replace, name=name))
    return r


def tensor_comps(t, arr):
    return (tensor.comps_of(t, arr.axes[0]),)


def rand_uniform(low=0.0, high=1.0, size=None):
    if size is not None:
        raise Unsupported("uniform array")
    v = tm.var(_nth("uniform"), "R")
    lo, hi = scalar(low), scalar(high)
    if lo is None or hi is None:
        raise Unsupported("uniform bounds")
    # low + (high - low) * u with 0 <= u < 1, also when the interval is reversed
    if branch(tm.le(lo[0], hi[0])):
        cur().assume(tm.le(lo[0], v))
        cur().assume(tm.le(v, hi[0]))
    else:
        cur().assume(tm.lt(hi[0], v))
        cur().assume(tm.le(v, lo[0]))
    EVENTS.append(dict(kind="uniform", lo=lo[0], hi=hi[0]))
    return Sym(v, "f")


def rand_randint(low, high=None, size=None, dtype=None):
    if size is not None:
        raise Unsupported("randint array")
    lo, hi = (ti(0), ti(low)) if high is None else (ti(low), ti(high))
    v = tm.var(_nth("randint"), "I")
    cur().assume(tm.le(lo, v))
    cur().assume(tm.lt(v, hi))
    return Sym(v, "i")


# -------------------------------------------------------------------- install
def install(backend="numpy"):
    L, la, sub_outer = mk(NpT)
    npm = module("numpy", **L)
    npm.ndarray = NpT
    npm.subtract = _with_outer(L["subtract"], sub_outer)
    npm.finfo = lambda *_: types.SimpleNamespace(eps=2.0 ** -52, tiny=2.2250738585072014e-308)
    npm.prod = L["prod"]
    module("numpy.linalg", **la, cholesky=Unknown("cholesky"))
    module("numpy.random", choice=rand_choice, uniform=rand_uniform, randint=rand_randint,
           seed=lambda *a, **k: None)
    module("scipy")
    module("scipy.special", gamma=_special("gamma"), kv=_kv,
           softmax=lambda x, axis=None: tensor.softmax(asarr(x), axis))
    module("scipy.optimize", minimize=_minimize)
    module("scipy.stats")
    module("scipy.stats.qmc", LatinHypercube=LatinHypercube)
    module("sklearn")
    module("sklearn.metrics", log_loss=_log_loss)
    module("sklearn.neighbors", NearestNeighbors=NearestNeighbors)
    module("bayes_opt", BayesianOptimization=BayesianOptimization)
    module("hnswlib", Index=HnswIndex)
    sys.modules["jax"] = None
    sys.modules["absl"] = None

    Lt, lat, _ = mk(TorchT)
    tt = module("torch", **Lt)
    tt.Tensor = TorchT
    tt.from_numpy = lambda x: tensor.retype(x, TorchT)
    tt.cuda = Unknown("torch.cuda")
    tt.is_tensor = lambda x: isinstance(x, TorchT)
    module("torch.linalg", **lat, cholesky=Unknown("cholesky"))
    module("torch.nn", Module=Module, Parameter=Parameter, ParameterList=ParameterList, ModuleList=list)
    module("torch.optim")
    module("torch.nn.functional", softmax=Lt["softmax"])
    module("torch.cuda")
    tt.no_grad = Unknown("torch.no_grad")
    if backend == "mpi":
        from . import ranks
        ranks.install(module)
    else:
        sys.modules["mpi4py"] = None


class _with_outer:
    def __init__(self, f, o):
        self.f, self.outer = f, o

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def _special(name):
    return lambda x: tensor.unop(asarr(x), lambda t: tm.reapp(name, (t,)), "f")


def _kv(nu, x):
    def at(a, b):
        if tm._half(a) is not None:
            tensor.ASSUME.add("Gamma and K_nu take their elementary values at half-integers (DLMF 5.4.6, 10.39.2, 10.29.1)")
        return tm.kv(a, b)
    return tensor.binop(nu, x, at, "f")


def _log_loss(y_true, y_pred, normalize=True, **k):
    k = {a: b for a, b in k.items() if a != "eps"}
    if k:
        raise Unsupported("log_loss options")
    y, p = asarr(y_true), asarr(y_pred)
    if y.shape[0] == 0:
        raise ValueError("Found array with 0 sample(s)")
    r = -tensor.lift(tensor.reduce_sum(y * tensor.unop(p, tm.log, "f")))
    if normalize:
        r = r / p.shape[0]
    return r._item() if isinstance(r, Tensor) else r


class OptResult:
    pass


def _scal(q):
    return scalar(q._item() if isinstance(q, Tensor) else q)[0]


OVERSHOOT = []  # set by contracts that do not rely on optimizers respecting their bounds


class Proposal:
    """what an optimizer evaluates last and returns: some point within the bounds.

    In a distributed run (pv.ranks) optimizers are deterministic: the k-th one of every process proposes the same
    as that of the first process to get there, as long as it has seen the same - start, bounds, seed and value of the
    objective at an arbitrary proposal."""

    def __init__(self, kind, names, bounds, seen):
        from . import ranks
        self.kind, self.names, self.bounds, self.first = kind, names, bounds, None
        run = ranks.Here.run
        if run is None or seen is None:
            self.vars = self.fresh()
            return
        k = run.optimizers.get((kind, ranks.Here.rank), 0)
        run.optimizers[kind, ranks.Here.rank] = k + 1
        f = run.first.get((kind, k))
        if f is None:
            self.vars = self.fresh()
            run.first[kind, k] = self.first = dict(seen=seen, vars=self.vars, names=names)
        elif names == f["names"] and len(seen) == len(f["seen"]) and all(cur().provable(tm.eq(x, y)) for x, y in zip(seen, f["seen"])):
            self.vars, self.first = f["vars"], f
        else:
            self.vars = self.fresh()

    def fresh(self):
        name = _nth(self.kind)
        vs = []
        for i, b in zip(self.names, self.bounds):
            v = tm.var(f"{name}.{i}", "R")
            if b is not None:
                lo, hi = map(_scal, b)
                if not branch(tm.le(lo, hi)):
                    raise ValueError("infeasible bounds")
                cur().assume(tm.le(lo, v))
                cur().assume(tm.le(v, hi))
            vs.append(v)
        return vs

    def evaluated(self, value):
        """the proposals to return, given the value of the objective at self.vars"""
        if OVERSHOOT:
            return [tm.var(f"{_nth(self.kind)}.{i}", "R") for i in self.names]
        if self.first is None:
            return self.vars
        v = _scal(value)
        w = self.first.setdefault("value", v)
        if cur().provable(tm.eq(v, w)):
            return self.vars
        return self.fresh()


def _minimize(fun, x0, args=(), method=None, bounds=None, **k):
    xs = x0 if isinstance(x0, Tensor) else asarr(x0)
    if xs.ndim != 1 or not tm.is_num(tensor.axsize(xs.axes[0])):
        raise Unsupported("optimize start vector")
    n = int(tm.nval(tensor.axsize(xs.axes[0])))
    bs = [tuple(b) for b in bounds] if bounds is not None else [None] * n
    seen = [_scal(xs[i]) for i in range(n)] + [_scal(q) for b in bs if b is not None for q in b]
    prop = Proposal("optx", list(range(n)), bs, seen)
    arr = lambda vs: NpT(((tm.num(n),),), lambda idx: tensor.select(idx[0][0], [lambda v=v: v for v in vs]), "f")
    r = OptResult()
    r.success = True
    r.fun = fun(arr(prop.vars))
    vs = prop.evaluated(r.fun)
    r.x = arr(vs)
    EVENTS.append(dict(kind="minimize", fun=fun, x0=xs.copy(), bounds=bounds, method=method, kwargs=k,
                       x=vs, args=args))
    return r


class BayesianOptimization:
    def __init__(self, f=None, pbounds=None, **kw):
        self.pbounds, self.kw = dict(pbounds), kw
        self._space = OptResult()
        self._space.target_func = f
        self.probes, self.asked, self.done = [], 0, []
        self._max = None
        EVENTS.append(dict(kind="bayes", opt=self))

    def probe(self, params, lazy=True):
        if not isinstance(params, dict):
            raise Unsupported("array probe")
        if not lazy:
            raise Unsupported("eager probe")
        self.probes.append(dict(params))

    def maximize(self, **kw):
        names = sorted(self.pbounds)
        seed = self.kw.get("random_state")
        seen = None
        if seed is not None:  # otherwise every process proposes something else
            seen = [_scal(seed)] + [_scal(q) for n in names for q in self.pbounds[n]]
            seen += [_scal(p[n]) for p in self.probes for n in sorted(p)]
        f = self._space.target_func
        prop = Proposal("bayes", names, [self.pbounds[n] for n in names], seen)
        named = lambda vs: {n: Sym(v, "f") for n, v in zip(names, vs)}
        value = f(**named(prop.vars))
        self._max = {"params": named(prop.evaluated(value)), "target": value}
        self.done.append(dict(f=f, start=self.probes[self.asked:], best=dict(self._max["params"]), kw=kw))
        self.asked = len(self.probes)

    @property
    def max(self):
        return self._max


class LatinHypercube:
    def __init__(self, *a, **k):
        raise Unsupported("LatinHypercube")


class NearestNeighbors:
    """sklearn contract: kneighbors returns (distances, indices) of shape (q, k)"""

    def __init__(self, **k):
        self.kwargs = k
        self.metric = k.get("metric", "minkowski")
        self.p = k.get("p", 2)
        self.n_neighbors = k.get("n_neighbors", 5)

    def fit(self, X):
        self.X = X
        self.Xcopy = X.copy()
        EVENTS.append(dict(kind="nn_fit", obj=self))
        return self

    def kneighbors(self, Q, n_neighbors=None, return_distance=True):
        k = self.n_neighbors if n_neighbors is None else n_neighbors
        if not branch(tm.le(ti(k), tensor.axsize(self.X.axes[0]))):
            raise ValueError("Expected n_neighbors <= n_samples_fit")
        return _nn_answer(self, Q, k)


def _nn_answer(self, Q, k, sorted_=True):
    if not tensor.same(tensor.axsize(Q.axes[1]), tensor.axsize(self.X.axes[1])):
        raise ValueError("feature count mismatch")
    n = _nth("nn")
    N, kt, nq = tensor.axsize(self.X.axes[0]), ti(k), tensor.axsize(Q.axes[0])
    di, ii = n + ".dist", n + ".idx"
    inr = lambda q, j: tm.and_(tm.le(ZERO, q), tm.lt(q, nq), tm.le(ZERO, j), tm.lt(j, kt))
    tm.declare(ii, "I", facts=lambda q, j: [tm.implies(inr(q, j), tm.and_(tm.le(ZERO, tm.app(ii, q, j)), tm.lt(tm.app(ii, q, j), N)))])
    tm.UFS[ii].inj = 1

    def dfacts(q, j):
        d = tm.app(di, q, j)
        out = [tm.le(ZERO, d)]
        if sorted_:
            p = tm.sub(j, ONE)
            out.append(tm.implies(tm.and_(tm.le(ONE, j), tm.lt(j, kt)), tm.le(tm.app(di, q, p), d)))
        return out
    tm.declare(di, "R", facts=dfacts)
    tensor.ASSUME.add("nearest-neighbor libraries return, per query row, the requested number of distinct in-range training rows, nearest first")
    axes = (Q.axes[0], (kt,))
    lq = lambda idx: tensor.linidx(idx[0], axes[0])
    D = NpT(axes, lambda idx: tm.app(di, lq(idx), idx[1][0]), "f")
    I = NpT(axes, lambda idx: tm.app(ii, lq(idx), idx[1][0]), "i")
    EVENTS.append(dict(kind="nn_query", obj=self, Q=Q.copy(), k=k, D=D.copy(), I=I.copy()))
    return D, I


class HnswIndex:
    """hnswlib contract: knn_query returns (labels, distances), labels are insertion order"""

    def __init__(self, space=None, dim=None):
        self.space, self.dim = space, dim

    def init_index(self, **k):
        self.kwargs = k

    def add_items(self, X, *a):
        if a:
            raise Unsupported("hnsw labels")
        self.X = X
        self.Xcopy = X.copy()
        EVENTS.append(dict(kind="nn_fit", obj=self))

    def set_ef(self, *a):
        pass

    def knn_query(self, Q, k=1, **kw):
        if not branch(tm.le(ti(k), tensor.axsize(self.X.axes[0]))):
            raise RuntimeError("Cannot return the results in a contiguous 2D array. Probably ef or M is too small")
        D, I = _nn_answer(self, Q, k)
        return I, D


class Module:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def train(self, *a):
        return self

    def eval(self):
        return self

    def register_parameter(self, n, p):
        setattr(self, n, p)

    def register_buffer(self, n, p):
        setattr(self, n, p)


class _ParamMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Tensor) and getattr(x, "is_param", False)

    def __call__(cls, data=None, requires_grad=True):
        r = (data.detach() if tensor.GRAD else data.view_as(data.axes, lambda i: i, lambda i: (tm.TRUE, i))) if isinstance(data, Tensor) else asarr(data, cls=TorchT)
        r.is_param = True
        r.dt = getattr(data, "dt", None)
        r.requires_grad = requires_grad
        return r


class Parameter(metaclass=_ParamMeta):
    pass


class ParameterList(list):
    pass
