"""Symbolic n-dimensional arrays with numpy / torch semantics.

An array is a tuple of axes; an axis is a tuple of atomic extents (row-major
composite), so reshapes between products and their factors are structural.
Contents are a function from index components to terms held in a shared
Storage, so views alias and in-place writes are visible through every alias.
"""
from fractions import Fraction
import itertools

from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE
from . import sym
from .sym import Sym, SymBool, SymRange, Unsupported, scalar, ti, wrap, wrapb, cur, branch

OBL = []  # bounds obligations are recorded on the current path


def memo(fn):
    cache = {}

    def g(idx):
        r = cache.get(idx)
        if r is None:
            r = cache[idx] = fn(idx)
        return r

    return g


class Storage:
    __slots__ = ("axes", "fn", "kind", "name", "version")

    def __init__(self, axes, fn, kind, name=None):
        self.axes, self.fn, self.kind, self.name, self.version = axes, memo(fn), kind, name, 0

    def write(self, fn):
        self.fn = memo(fn)
        self.version += 1


def axsize(ax):
    r = ONE
    for d in ax:
        r = tm.mul(r, d)
    return r


def mkaxis(d):
    return (d,)


def normax(atoms):
    a = tuple(d for d in atoms if d is not ONE)
    return a if a else (ONE,)


def linidx(comps, ax):
    return tm.lin(comps, ax)


def comps_of(t, ax):
    """linear index term -> components for axis ax"""
    if len(ax) == 1:
        return (t,)
    if t.op == "lin" and tuple(t.args[1]) == tuple(ax):
        return tuple(t.args[0])
    if tm.is_num(t) and all(tm.is_num(d) for d in ax[1:]):
        v, out = int(tm.nval(t)), []
        for d in reversed(ax[1:]):
            out.append(tm.num(v % int(tm.nval(d))))
            v //= int(tm.nval(d))
        out.append(tm.num(v))
        return tuple(reversed(out))
    # general row-major decomposition
    out, rest = [], t
    for d in reversed(ax[1:]):
        out.append(tm.fmod(rest, d))
        rest = tm.fdiv(rest, d)
    out.append(rest)
    return tuple(reversed(out))


def same(a, b):
    """are two sizes provably equal (on this path)"""
    return a is b or cur().provable(tm.eq(a, b))


def freshidx(axes, prefix="k"):
    return tuple(tuple(ZERO if d is ONE else tm.fresh(prefix) for d in ax) for ax in axes)


class Shape(tuple):
    def numel(self):
        return prod_shape(self)

    def __add__(self, o):
        return Shape(tuple(self) + tuple(o))

    def __radd__(self, o):
        return Shape(tuple(o) + tuple(self))

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Shape(r) if isinstance(i, slice) else r


def prod_shape(s):
    r = 1
    for d in s:
        r = r * d
    return r


def is_arr(x):
    return isinstance(x, Tensor)


GRAD = set()  # names of the gradient roots while gradients are being followed


def detached(g):
    """element function cut off from the gradient roots: no longer known to equal them"""
    def f(idx):
        t = g(idx)
        if any(x.op in ("var", "app") and x.args[0] in GRAD for x in tm.all_subterms(t)):
            return tm.app("detached", t)
        return t
    return f


class Tensor:
    lib = "np"
    dt = None
    __array_ufunc__ = None

    def __init__(self, axes, fn=None, kind="f", st=None, vm=None, inv=None, name=None):
        self.axes = tuple(tuple(a) for a in axes)
        if st is None:
            st = Storage(self.axes, fn, kind, name)
        self.st = st
        self.vm = vm  # view idx -> storage idx
        self.inv = inv  # storage idx -> (cond, view idx)
        self.requires_grad = False
        self.origin = None

    def new(self, axes, fn, kind="f"):
        return type(self)(axes, fn, kind)

    @property
    def kind(self):
        return self.st.kind

    # ---------------------------------------------------------------- reads
    def getter(self):
        """snapshot of the current contents as idx -> term"""
        f, vm = self.st.fn, self.vm
        if vm is None:
            return f
        return lambda idx: f(vm(idx))

    def elem(self, idx):
        return self.getter()(tuple(tuple(c) for c in idx))

    def at(self, *lin):
        return self.elem(tuple(comps_of(t, ax) for t, ax in zip(lin, self.axes)))

    # ---------------------------------------------------------------- shape
    @property
    def shape(self):
        s = tuple(wrap(axsize(a), "i") for a in self.axes)
        return Shape(s) if self.lib == "torch" else s

    @property
    def ndim(self):
        return len(self.axes)

    def dim(self):
        return len(self.axes)

    @property
    def size(self):
        if self.lib == "torch":
            return lambda d=None: self.shape if d is None else self.shape[d]
        return prod_shape(self.shape)

    def numel(self):
        return prod_shape(self.shape)

    @property
    def dtype(self):
        return {"f": "float64", "i": "int64", "b": "bool"}[self.kind]

    @property
    def T(self):
        return self.transpose()

    @property
    def mT(self):
        return self.swapaxes(-1, -2)

    @property
    def data(self):
        return self.detach() if GRAD else self

    @property
    def device(self):
        return "cpu"

    @property
    def grad(self):
        raise Unsupported("autograd")

    def backward(self, *a, **k):
        raise Unsupported("autograd")

    def len_(self):
        if not self.axes:
            raise TypeError("len() of unsized object" if self.lib == "np" else "len() of a 0-d tensor")
        return self.shape[0]

    def __len__(self):
        n = self.len_()
        if isinstance(n, int):
            return n
        raise Unsupported("len() outside the loader")

    def __iter__(self):
        n = self.len_()
        if not isinstance(n, int):
            raise Unsupported("iteration over a symbolic extent")
        return iter([self[i] for i in range(n)])

    def __deepcopy__(self, memo_):
        r = self.copy()
        memo_[id(self)] = r
        return r

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"Tensor{self.shape}"

    def __format__(self, s):
        return repr(self)

    def __bool__(self):
        if len(self.axes) == 0 or all(a == (ONE,) for a in self.axes):
            return branch(truth(self.elem(zero_idx(self.axes))))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def item(self):
        return self.detach()._item() if GRAD else self._item()

    def _item(self):
        if any(a != (ONE,) for a in self.axes):
            for a in self.axes:
                if not same(axsize(a), ONE):
                    raise ValueError("can only convert an array of size 1 to a Python scalar")
        t = self.elem(zero_idx(self.axes))
        return wrapb(t) if t.sort == "B" else Sym(t, "i" if self.kind == "i" else "f")

    def scalar_value(self):
        return self._item()

    def __index__(self):
        if self.kind == "f":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        v = self._item()
        return v if isinstance(v, int) else v.__index__()

    def __float__(self):
        raise Unsupported("float() of a symbolic array outside the loader")

    __int__ = __float__

    def tolist(self):
        if not self.axes:
            return self._item()
        return [x.tolist() if is_arr(x) else x for x in self]

    # ---------------------------------------------------------------- views
    def view_as(self, axes, fwd, back):
        """view with new axes; fwd: new idx -> my idx; back: my idx -> (cond, new idx) or None"""
        ovm, oinv = self.vm, self.inv
        vm = fwd if ovm is None else (lambda idx: ovm(fwd(idx)))
        if back is None or (ovm is not None and oinv is None):
            inv = None
        elif ovm is None:
            inv = back
        else:
            def inv(sidx):
                c1, i1 = oinv(sidx)
                c2, i2 = back(i1)
                return tm.and_(c1, c2), i2
        r = type(self)(axes, st=self.st, vm=vm, inv=inv or False)
        r.requires_grad = self.requires_grad
        return r

    def write_view(self, pred_val):
        """pred_val: view idx -> (cond, val) to assign where cond"""
        st = self.st
        old = st.fn
        if self.vm is None:
            def nf(sidx):
                c, v = pred_val(sidx)
                return old(sidx) if c is FALSE else tm.ite(c, v, old(sidx))
        else:
            inv = self.inv
            if not inv:
                raise Unsupported("write through a non-invertible view")

            def nf(sidx):
                c0, vi = inv(sidx)
                if c0 is FALSE:
                    return old(sidx)
                c, v = pred_val(vi)
                return tm.ite(tm.and_(c0, c), v, old(sidx))
        st.write(nf)

    def copy(self, *a, **k):
        return self.new(self.axes, self.getter(), self.kind)

    def clone(self, *a, **k):
        return self.copy()

    def detach(self):
        if GRAD:
            return self.new(self.axes, detached(self.getter()), self.kind)
        return self.view_as(self.axes, lambda i: i, lambda i: (TRUE, i))

    def contiguous(self):
        return self

    def cpu(self):
        return self

    def numpy(self):
        return retype(self.detach() if GRAD else self, CLASSES["np"])

    def to(self, *a, **k):
        return self

    def double(self):
        return self

    def float(self):
        return self

    def long(self):
        return self

    def requires_grad_(self, *a):
        return self

    def type(self, *a):
        return self

    def astype(self, dtype=None, *a, **k):
        return cast(self, dtype)

    def flatten(self, *a):
        return self.reshape(-1).copy()

    def ravel(self, *a):
        return self.reshape(-1)

    def swapaxes(self, a, b):
        n = self.ndim
        perm = list(range(n))
        a, b = a % n, b % n
        perm[a], perm[b] = b, a
        return self.permute(*perm)

    def transpose(self, *p):
        if self.lib == "torch" and len(p) == 2:
            return self.swapaxes(*p)
        if len(p) == 1 and isinstance(p[0], (tuple, list)):
            p = tuple(p[0])
        if not p:
            p = tuple(reversed(range(self.ndim)))
        return self.permute(*p)

    def permute(self, *p):
        if len(p) == 1 and isinstance(p[0], (tuple, list)):
            p = tuple(p[0])
        p = [x % self.ndim for x in p]
        if sorted(p) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        inv = [p.index(i) for i in range(self.ndim)]
        return self.view_as([self.axes[i] for i in p],
                            lambda idx: tuple(idx[inv[i]] for i in range(len(p))),
                            lambda idx: (TRUE, tuple(idx[i] for i in p)))

    def squeeze(self, axis=None, dim=None):
        axis = dim if axis is None else axis
        keep = []
        for i, a in enumerate(self.axes):
            if axis is not None:
                axs = [x % self.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
                if i not in axs:
                    keep.append(i)
                    continue
                if branch(tm.eq(axsize(a), ONE)):
                    continue
                if self.lib == "torch":
                    keep.append(i)
                    continue
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
            if not branch(tm.eq(axsize(a), ONE)):
                keep.append(i)
        return self._dropaxes(keep)

    def _dropaxes(self, keep):
        if len(keep) == self.ndim:
            return self.view_as(self.axes, lambda i: i, lambda i: (TRUE, i))
        axes = self.axes

        def fwd(idx):
            it = iter(idx)
            return tuple(next(it) if i in keep else tuple(ZERO for _ in axes[i]) for i in range(len(axes)))

        return self.view_as([axes[i] for i in keep], fwd,
                            lambda idx: (TRUE, tuple(idx[i] for i in keep)))

    def unsqueeze(self, dim):
        return expand_dims(self, dim)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == 1 and is_arr(shape[0]):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def view(self, *shape):
        return self.reshape(*shape)

    def repeat(self, *reps, **k):
        if self.lib == "torch":
            if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
                reps = tuple(reps[0])
            return tile(self, reps)
        return repeat(self, *reps, **k)

    def fill(self, v):
        t = conv(scalar_term(v), self.kind)
        self.write_view(lambda idx: (TRUE, t))

    fill_ = fill

    def sort(self, *a, **k):
        if self.lib == "np" and self.origin == "choice" and not a and not k:
            return None  # order of a sampled index set: any order is admitted
        raise Unsupported("sort")

    # ---------------------------------------------------------------- reductions
    def sum(self, axis=None, dim=None, keepdims=False, keepdim=False, dtype=None, **k):
        return reduce_sum(self, axis if dim is None else dim, keepdims or keepdim)

    def mean(self, axis=None, dim=None, keepdims=False, keepdim=False, **k):
        return mean(self, axis if dim is None else dim, keepdims or keepdim)

    def all(self, axis=None, **k):
        return reduce_all(self, axis)

    def any(self, axis=None, **k):
        return reduce_any(self, axis)

    def softmax(self, dim):
        return softmax(self, dim)

    def prod(self, *a, axis=None, dim=None, keepdims=False, keepdim=False, **k):
        if k:
            raise Unsupported("prod options")
        if axis is None:
            axis = dim if dim is not None else (a[0] if a else None)
        return prod_arr(self, axis, keepdims or keepdim)

    def diagonal(self, offset=0, axis1=0, axis2=1, dim1=None, dim2=None):
        return diagonal(self, offset, axis1 if dim1 is None else dim1, axis2 if dim2 is None else dim2)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"array method {name}")

    # ---------------------------------------------------------------- arithmetic
    def _b(self, o, f, kind=None):
        return binop(self, o, f, kind)

    def __add__(self, o):
        return binop(self, o, tm.add)

    def __radd__(self, o):
        return binop(o, self, tm.add)

    def __sub__(self, o):
        return binop(self, o, tm.sub)

    def __rsub__(self, o):
        return binop(o, self, tm.sub)

    def __mul__(self, o):
        return binop(self, o, tm.mul)

    def __rmul__(self, o):
        return binop(o, self, tm.mul)

    def __truediv__(self, o):
        return binop(self, o, tm.div, "f")

    def __rtruediv__(self, o):
        return binop(o, self, tm.div, "f")

    def __pow__(self, o):
        return binop(self, o, tm.pow_)

    def __rpow__(self, o):
        return binop(o, self, tm.pow_)

    def __neg__(self):
        return unop(self, tm.neg)

    def __pos__(self):
        return self

    def __abs__(self):
        return unop(self, lambda t: tm.ite(tm.le(ZERO, t), t, tm.neg(t)))

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(asarr(o, like=self), self)

    def __floordiv__(self, o):
        raise Unsupported("array floor division")

    def __mod__(self, o):
        raise Unsupported("array modulo")

    def __lt__(self, o):
        return binop(self, o, tm.lt, "b")

    def __le__(self, o):
        return binop(self, o, tm.le, "b")

    def __gt__(self, o):
        return binop(self, o, lambda a, b: tm.lt(b, a), "b")

    def __ge__(self, o):
        return binop(self, o, lambda a, b: tm.le(b, a), "b")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return binop(self, o, tm.eq, "b")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return binop(self, o, lambda a, b: tm.not_(tm.eq(a, b)), "b")

    def __and__(self, o):
        return binop(self, o, tm.and_, "b")

    def __or__(self, o):
        return binop(self, o, tm.or_, "b")

    def __invert__(self):
        return unop(self, tm.not_, "b")

    def _inplace(self, o, f):
        if isinstance(o, MaskedView):
            raise Unsupported("in-place op with a masked selection")
        r = binop(self, o, f)
        b = broadcast_getter(r, self.axes)
        if self.kind == "i" and r.kind == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        self.write_view(lambda idx: (TRUE, b(idx)))
        return self

    def __iadd__(self, o):
        return self._inplace(o, tm.add)

    def __isub__(self, o):
        return self._inplace(o, tm.sub)

    def __imul__(self, o):
        return self._inplace(o, tm.mul)

    def __itruediv__(self, o):
        return self._inplace(o, tm.div)

    def __ipow__(self, o):
        return self._inplace(o, tm.pow_)

    # ---------------------------------------------------------------- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)


CLASSES = {"np": Tensor, "torch": Tensor}


def retype(t, cls):
    r = cls(t.axes, st=t.st, vm=t.vm, inv=t.inv)
    return r


def zero_idx(axes):
    return tuple(tuple(ZERO for _ in a) for a in axes)


def truth(t):
    return t if t.sort == "B" else tm.not_(tm.eq(t, ZERO))


def conv(t, kind):
    if kind == "b":
        return truth(t)
    if t.sort == "B":
        return tm.ite(t, ONE, ZERO)
    return t


def scalar_term(x):
    s = scalar(x)
    if s is None:
        if is_arr(x):
            return x.elem(zero_idx(x.axes)) if x.ndim == 0 else _bad(x)
        _bad(x)
    return s[0]


def _bad(x):
    raise Unsupported(f"cannot use {type(x).__name__} as an array scalar")


def like_of(*xs):
    for x in xs:
        if isinstance(x, Tensor):
            return x
    return None


def cls_for(*xs):
    x = like_of(*xs)
    return type(x) if x is not None else CLASSES["np"]


def asarr(x, like=None, cls=None):
    cls = cls or (type(like) if like is not None else CLASSES["np"])
    if isinstance(x, Tensor):
        return x
    if isinstance(x, MaskedView):
        return x.array()
    if isinstance(x, SymBool):
        return cls((), lambda idx, t=x.t: t, "b")
    if isinstance(x, bool):
        return cls((), lambda idx, t=tm.boolc(x): t, "b")
    s = scalar(x)
    if s is not None:
        return cls((), lambda idx, t=s[0]: t, s[1])
    if isinstance(x, SymRange):
        st = ti(x.start)
        return cls(((x.count(),),), lambda idx: tm.add(st, idx[0][0]), "i")
    if isinstance(x, (list, tuple, range)):
        items = [asarr(i, cls=cls) for i in x]
        if not items:
            return cls(((ZERO,),), lambda idx: ZERO, "f")
        return stack0(items, cls)
    raise Unsupported(f"cannot convert {type(x).__name__} to an array")


def lift(x, like=None):
    return asarr(x, like)


def kind_join(*ks):
    return "f" if "f" in ks else ("i" if "i" in ks else "b")


def stack0(items, cls):
    a0 = items[0]
    for b in items[1:]:
        if b.ndim != a0.ndim:
            raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        for x, y in zip(a0.axes, b.axes):
            if not same(axsize(x), axsize(y)):
                if branch(tm.eq(axsize(x), axsize(y))):
                    continue
                raise ValueError("inhomogeneous shape")
    k = kind_join(*[i.kind for i in items])
    gs = [conform(i, a0.axes) for i in items]

    def fn(idx):
        i, rest = idx[0][0], idx[1:]
        return select(i, [lambda g=g: conv(g(rest), k) for g in gs])

    return cls(((tm.num(len(items)),),) + a0.axes, fn, k)


def select(i, thunks):
    if tm.is_num(i):
        return thunks[int(tm.nval(i))]()
    r = thunks[-1]()
    for j in range(len(thunks) - 2, -1, -1):
        r = tm.ite(tm.eq(i, tm.num(j)), thunks[j](), r)
    return r


def conform(a, axes):
    """getter of a re-indexed by axes of equal sizes but maybe other factoring"""
    g = a.getter()
    maps = [axmap(src, dst) for src, dst in zip(a.axes, axes)]
    if all(m is None for m in maps):
        return g
    return lambda idx: g(tuple(c if m is None else m(c) for m, c in zip(maps, idx)))


def axmap(src, dst):
    """function taking components for dst to components for src (equal sizes)"""
    if src == dst or (len(src) == 1 and len(dst) == 1):
        return None
    if len(src) == len(dst) and all(same(a, b) for a, b in zip(src, dst)):
        return None
    return lambda c: comps_of(linidx(c, dst), src)


def broadcast(*arrs):
    """-> result axes, getters"""
    n = max([a.ndim for a in arrs] + [0])
    res = []
    for k in range(n):
        cands = []
        for a in arrs:
            j = k - (n - a.ndim)
            if j >= 0:
                cands.append(a.axes[j])
        res.append(_bcast_axis(cands))
    getters = []
    for a in arrs:
        off = n - a.ndim
        maps = []
        for j, ax in enumerate(a.axes):
            dst = res[j + off]
            if ax == dst:
                maps.append(None)
            elif ax == (ONE,) or (same(axsize(ax), ONE) and not same(axsize(dst), ONE)):
                maps.append(lambda c, ax=ax: tuple(ZERO for _ in ax))
            else:
                m = axmap(ax, dst)
                maps.append(m)
        g = a.getter()
        if off == 0 and all(m is None for m in maps):
            getters.append(g)
        else:
            getters.append(lambda idx, g=g, maps=maps, off=off: g(
                tuple(c if m is None else m(c) for m, c in zip(maps, idx[off:]))))
    return tuple(res), getters


def _bcast_axis(cands):
    cur_ax = (ONE,)
    for ax in cands:
        if ax == (ONE,) or ax == cur_ax:
            continue
        if cur_ax == (ONE,):
            cur_ax = ax
            continue
        a, b = axsize(cur_ax), axsize(ax)
        if same(a, b):
            if len(ax) > len(cur_ax):
                cur_ax = ax
            continue
        if branch(tm.eq(a, b)):
            if len(ax) > len(cur_ax):
                cur_ax = ax
            continue
        if branch(tm.eq(a, ONE)):
            cur_ax = ax
            continue
        if branch(tm.eq(b, ONE)):
            continue
        raise ValueError("operands could not be broadcast together")
    return cur_ax


def broadcast_getter(a, axes):
    """getter of a broadcast to given axes (shape errors raised)"""
    if a.ndim > len(axes):
        lead = a.ndim - len(axes)
        for ax in a.axes[:lead]:
            if not branch(tm.eq(axsize(ax), ONE)):
                raise ValueError("could not broadcast input array")
        a = a._dropaxes(list(range(lead, a.ndim)))
    off = len(axes) - a.ndim
    maps = []
    for ax, dst in zip(a.axes, axes[off:]):
        if ax == dst:
            maps.append(None)
        elif ax == (ONE,):
            maps.append(lambda c, ax=ax: tuple(ZERO for _ in ax))
        elif same(axsize(ax), axsize(dst)) or branch(tm.eq(axsize(ax), axsize(dst))):
            maps.append(axmap(ax, dst))
        elif branch(tm.eq(axsize(ax), ONE)):
            maps.append(lambda c, ax=ax: tuple(ZERO for _ in ax))
        else:
            raise ValueError("could not broadcast input array into shape")
    g = a.getter()
    return lambda idx: g(tuple(c if m is None else m(c) for m, c in zip(maps, idx[off:])))


def ret(t, np_scalar=True):
    """numpy returns scalars for 0-d ufunc/reduction results"""
    if t.lib == "np" and np_scalar and t.ndim == 0:
        return t._item()
    return t


def binop(a, b, f, kind=None):
    a, b = (x.array() if isinstance(x, MaskedView) else x for x in (a, b))
    for x in (a, b):
        if x is None:
            raise TypeError("unsupported operand type(s): 'NoneType'")
        if isinstance(x, str):
            raise TypeError("unsupported operand type(s): 'str'")
    cls = cls_for(a, b)
    if isinstance(a, (list, tuple)) and cls.lib == "torch" or isinstance(b, (list, tuple)) and cls.lib == "torch":
        raise TypeError("unsupported operand type(s) for tensor and sequence")
    import math
    for x in (a, b):
        if isinstance(x, float) and math.isnan(x):
            raise Unsupported("non-finite literal in array arithmetic")
    x, y = asarr(a, cls=cls), asarr(b, cls=cls)
    axes, (gx, gy) = broadcast(x, y)
    kx, ky = x.kind, y.kind
    k = kind or kind_join(kx, ky)
    if kind is None and k == "b":
        k = "i"
    boolop = f in (tm.and_, tm.or_)

    def fn(idx):
        u, v = gx(idx), gy(idx)
        if boolop:
            return f(truth(u), truth(v))
        if u.sort == "B":
            u = tm.ite(u, ONE, ZERO)
        if v.sort == "B":
            v = tm.ite(v, ONE, ZERO)
        return f(u, v)

    return ret(cls(axes, fn, k))


def unop(a, f, kind=None):
    if not isinstance(a, Tensor):
        a = asarr(a)
    g = a.getter()

    def fn(idx):
        t = g(idx)
        if kind != "b":
            t = conv(t, a.kind if a.kind != "b" else "i")
        return f(t)

    return ret(type(a)(a.axes, fn, kind or (a.kind if a.kind != "b" else "i")))


# -------------------------------------------------------------------- reshape
def reshape(a, shape):
    sizes = []
    total = prod_shape([wrap(axsize(x), "i") for x in a.axes])
    total = ti(total)
    neg = None
    for i, s in enumerate(shape):
        t = ti(s)
        if tm.is_num(t) and tm.nval(t) == -1:
            neg = i
            sizes.append(None)
        else:
            sizes.append(t)
    if neg is not None:
        rest = ONE
        for s in sizes:
            if s is not None:
                rest = tm.mul(rest, s)
        sizes[neg] = _exact_div(total, rest)
    atoms = []  # (axis, pos, dim)
    for i, ax in enumerate(a.axes):
        for j, d in enumerate(ax):
            if d is not ONE:
                atoms.append((i, j, d))
    # two-pointer grouping
    plan = []  # list of (atom list, target list)
    ai = 0
    ti_ = 0
    tgt = [(k, s) for k, s in enumerate(sizes) if s is not ONE]
    p = 0
    failed = False
    groups = []
    while ai < len(atoms) or p < len(tgt):
        L, Rr = [], []
        P, Q = ONE, ONE
        closed = False
        while not closed:
            if P is not ONE and Q is not ONE and same(P, Q):
                closed = True
                break
            # extend
            if not Rr and p < len(tgt):
                Rr.append(tgt[p]); Q = tm.mul(Q, tgt[p][1]); p += 1
                continue
            if not L and ai < len(atoms):
                L.append(atoms[ai]); P = tm.mul(P, atoms[ai][2]); ai += 1
                continue
            ext_left = _divides(P, Q)
            ext_right = _divides(Q, P)
            if ext_left and not ext_right and ai < len(atoms):
                L.append(atoms[ai]); P = tm.mul(P, atoms[ai][2]); ai += 1
            elif ext_right and not ext_left and p < len(tgt):
                Rr.append(tgt[p]); Q = tm.mul(Q, tgt[p][1]); p += 1
            elif ai >= len(atoms) and p < len(tgt):
                # only size-one targets can remain
                if L or Rr:
                    if same(tgt[p][1], ONE):
                        p += 1
                        continue
                failed = True
                break
            elif p >= len(tgt) and ai < len(atoms):
                if same(atoms[ai][2], ONE):
                    ai += 1
                    continue
                failed = True
                break
            else:
                failed = True
                break
        if failed:
            break
        groups.append((L, Rr))
    if failed:
        want = ONE
        for s in sizes:
            want = tm.mul(want, s)
        if not branch(tm.eq(total, want)):
            raise ValueError(f"cannot reshape array into shape")
        # one single group: linear re-indexing
        groups = [(atoms, [(k, s) for k, s in enumerate(sizes) if s is not ONE])]
    new_axes = [(ONE,)] * len(sizes)
    rules = []
    for L, Rr in groups:
        if len(Rr) == 1:
            k = Rr[0][0]
            new_axes[k] = tuple(d for _, _, d in L) or (Rr[0][1],)
            rules.append(("join", L, k))
        elif len(L) == 1 or True:
            for k, s in Rr:
                new_axes[k] = (s,)
            rules.append(("split", L, Rr))
    oaxes = a.axes
    naxes = tuple(new_axes)

    def fwd(idx):
        out = [[ZERO] * len(ax) for ax in oaxes]
        for r in rules:
            if r[0] == "join":
                for (i, j, d), c in zip(r[1], idx[r[2]]):
                    out[i][j] = c
            else:
                L, Rr = r[1], r[2]
                t = tm.lin([idx[k][0] for k, _ in Rr], [s for _, s in Rr])
                cs = comps_of(t, tuple(d for _, _, d in L)) if L else ()
                for (i, j, d), c in zip(L, cs):
                    out[i][j] = c
        return tuple(tuple(x) for x in out)

    def back(idx):
        out = [tuple(ZERO for _ in ax) for ax in naxes]
        for r in rules:
            if r[0] == "join":
                if r[1]:
                    out[r[2]] = tuple(idx[i][j] for i, j, _ in r[1])
            else:
                L, Rr = r[1], r[2]
                t = tm.lin([idx[i][j] for i, j, _ in L], [d for _, _, d in L])
                cs = comps_of(t, tuple(s for _, s in Rr))
                for (k, _), c in zip(Rr, cs):
                    out[k] = (c,)
        return TRUE, tuple(out)

    return a.view_as(naxes, fwd, back)


def _exact_div(total, rest):
    if total is rest:
        return ONE
    if tm.is_num(total) and tm.is_num(rest):
        return tm.num(tm.nval(total) / tm.nval(rest))
    q = _mono_div(total, rest)
    if q is not None:
        return q
    if same(total, rest):
        return ONE
    q = tm.fdiv(total, rest)
    return q


def _mono_div(a, b):
    da, db = tm._pd(a), tm._pd(b)
    if len(db) != 1 or len(da) != 1:
        if len(db) == 1 and () in db:
            return None
        return None
    (ma, ca), = da.items()
    (mb, cb), = db.items()
    d = dict(ma)
    for x, e in mb:
        if d.get(x, 0) < e:
            return None
        d[x] -= e
    if (ca / cb).denominator != 1:
        return None
    return tm._fromd({tuple((x, e) for x, e in d.items() if e): ca / cb})


def _divides(p, q):
    """monomial p strictly divides q"""
    if p is q:
        return False
    return _mono_div(q, p) is not None


# -------------------------------------------------------------------- reductions
def _axes_list(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return [x % a.ndim for x in axis]
    if not isinstance(axis, int):
        raise Unsupported("symbolic axis")
    if not -a.ndim <= axis < a.ndim:
        raise IndexError(f"axis {axis} is out of bounds")
    return [axis % a.ndim]


def _reduced(a, axis, keepdims):
    ax = _axes_list(a, axis)
    keep = [i for i in range(a.ndim) if i not in ax]
    if keepdims:
        axes = tuple((ONE,) if i in ax else a.axes[i] for i in range(a.ndim))
    else:
        axes = tuple(a.axes[i] for i in keep)

    def assemble(idx, vs):
        it = iter(vs)
        if keepdims:
            return tuple(next(it) if i in ax else idx[i] for i in range(a.ndim))
        ik = iter(idx)
        return tuple(next(it) if i in ax else next(ik) for i in range(a.ndim))

    return ax, axes, assemble


def bindover(a, ax):
    """fresh bound variables for axes ax: -> (per-axis comps, ranges, vars)"""
    comps, rngs, vs = [], [], []
    for i in ax:
        c = []
        for d in a.axes[i]:
            if d is ONE:
                c.append(ZERO)
            else:
                v = tm.fresh("s")
                c.append(v)
                vs.append(v)
                rngs.append(d)
        comps.append(tuple(c))
    return comps, rngs, vs


def reduce_sum(a, axis=None, keepdims=False):
    if not is_arr(a):
        a = asarr(a)
    g = a.getter()
    ax, axes, asm = _reduced(a, axis, keepdims)

    def fn(idx):
        comps, rngs, vs = bindover(a, ax)
        body = conv(g(asm(idx, comps)), "f")
        return tm.mk_sum(rngs, vs, body)

    return ret(type(a)(axes, fn, "i" if a.kind in "ib" else "f"))


def mean(a, axis=None, keepdims=False):
    if not is_arr(a):
        a = asarr(a)
    n = ONE
    for i in _axes_list(a, axis):
        n = tm.mul(n, axsize(a.axes[i]))
    return reduce_sum(a, axis, keepdims) / Sym(n, "f")


def prod_arr(a, axis=None, keepdims=False):
    if isinstance(a, (tuple, list)) and all(scalar(x) is not None for x in a):
        return prod_shape(a)
    a = asarr(a)
    if a.ndim == 1 and axis is None and tm.is_num(axsize(a.axes[0])):
        return prod_shape(list(a))
    ax, axes, asm = _reduced(a, axis, keepdims)
    sizes = [axsize(a.axes[i]) for i in ax]
    if not all(tm.is_num(n) and int(tm.nval(n)) <= 8 for n in sizes) or a.kind not in "f" or any(len(a.axes[i]) != 1 for i in ax):
        raise Unsupported("prod over a symbolic extent")
    g = a.getter()

    def fn(idx):
        r = tm.ONE
        for pos in itertools.product(*[range(int(tm.nval(n))) for n in sizes]):
            r = tm.mul(r, conv(g(asm(idx, [(tm.num(p),) for p in pos])), "f"))
        return r

    return ret(type(a)(axes, fn, a.kind))


def reduce_all(a, axis=None):
    if not is_arr(a):
        if isinstance(a, (SymBool, bool)):
            return a
        if hasattr(a, "__next__"):
            return True  # numpy: a generator object is truthy
        a = asarr(a)
    if axis is not None:
        raise Unsupported("all(axis)")
    g = a.getter()
    comps, rngs, vs = bindover(a, range(a.ndim))
    t = truth(g(tuple(comps)))
    t = tm.mk_forall(rngs, vs, t) if vs else t
    return ret(type(a)((), lambda idx: t, "b"))


def reduce_any(a, axis=None):
    if not is_arr(a):
        if isinstance(a, (SymBool, bool)):
            return a
        a = asarr(a)
    r = reduce_all(unop(a, lambda t: tm.not_(truth(t)), "b"), axis)
    return unop(r, tm.not_, "b") if is_arr(r) else (not r if isinstance(r, bool) else ~r)


def accumulate(a, axis, how):
    """running any / all / sum along an axis"""
    if not is_arr(a):
        a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("accumulate over a flattened array")
        axis = 0
    p = int(axis) % a.ndim
    ax = a.axes[p]
    g = a.getter()

    def fn(idx):
        j = linidx(idx[p], ax)
        v = tm.fresh("acc")
        t = g(idx[:p] + (comps_of(v, ax),) + idx[p + 1:])
        n = tm.add(j, ONE)
        if how == "sum":
            return tm.mk_sum([n], [v], tm.ite(truth(t), ONE, ZERO) if a.kind == "b" else t)
        t = truth(t)
        return tm.mk_forall([n], [v], t) if how == "all" else tm.not_(tm.mk_forall([n], [v], tm.not_(t)))
    return type(a)(a.axes, fn, "i" if how == "sum" and a.kind == "b" else ("b" if how != "sum" else a.kind))


def softmax(a, axis):
    e = unop(a, tm.exp, "f")
    return e / reduce_sum(e, axis, True)


def extremum(a, axis, name):
    if not is_arr(a):
        a = asarr(a)
    g = a.getter()
    ax, axes, asm = _reduced(a, axis, False)

    def fn(idx):
        comps, rngs, vs = bindover(a, ax)
        if not vs:
            return g(asm(idx, comps))
        if name in ("median", "lower_median", "min", "max") and len(rngs) == 1 and tm.is_num(rngs[0]) and tm.nval(rngs[0]) <= 3:
            return small_order([tm.replace(g(asm(idx, comps)), {vs[0]: tm.num(i)}) for i in range(int(tm.nval(rngs[0])))], name)
        return tm.raw_bind(name, (tuple(rngs),), (tuple(vs),), [g(asm(idx, comps))])

    return ret(type(a)(axes, fn, a.kind if not name.startswith("arg") else "i"))


def small_order(v, name):
    mx = lambda a, b: tm.ite(tm.lt(a, b), b, a)
    mn = lambda a, b: tm.ite(tm.lt(b, a), b, a)
    if name in ("min", "max"):
        f = mn if name == "min" else mx
        r = v[0]
        for x in v[1:]:
            r = f(r, x)
        return r
    if len(v) == 1:
        return v[0]
    if len(v) == 2:
        return mn(*v) if name == "lower_median" else tm.mul(tm.add(*v), tm.num(Fraction(1, 2)))
    return mx(mn(v[0], v[1]), mn(mx(v[0], v[1]), v[2]))


# -------------------------------------------------------------------- linear algebra
def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = expand_dims(a, 0)
    if vb:
        b = expand_dims(b, 1)
    ka, kb = a.axes[-1], b.axes[-2]
    kax = contract_axis(ka, kb)
    lead_a = a._stub(a.ndim - 2) if False else None
    axes, ga, gb = lead_broadcast(a, b, 2)
    ma, mb = axmap(ka, kax), axmap(kb, kax)
    cls = type(a)
    nl = len(axes)

    def fn(idx):
        rngs, vs, c = [], [], []
        for d in kax:
            if d is ONE:
                c.append(ZERO)
            else:
                v = tm.fresh("s")
                c.append(v); vs.append(v); rngs.append(d)
        c = tuple(c)
        ca = c if ma is None else ma(c)
        cb = c if mb is None else mb(c)
        return tm.mk_sum(rngs, vs, tm.mul(ga(idx[:nl], (idx[nl], ca)), gb(idx[:nl], (cb, idx[nl + 1]))))

    r = cls(tuple(axes) + (a.axes[-2], b.axes[-1]), fn, kind_join(a.kind, b.kind))
    if va:
        r = r._dropaxes([i for i in range(r.ndim) if i != r.ndim - 2])
    if vb:
        r = r._dropaxes(list(range(r.ndim - 1)))
    return ret(r)


def contract_axis(x, y):
    """common axis of two axes that must have equal sizes"""
    a, b = axsize(x), axsize(y)
    if not same(a, b) and not branch(tm.eq(a, b)):
        raise ValueError("mismatch in core dimension")
    return x if len(x) >= len(y) else y


def lead_broadcast(a, b, k):
    """broadcast all but the last k axes -> axes, ga(lead, rest), gb(lead, rest)"""
    A = type(a)(a.axes[: a.ndim - k], lambda idx: ZERO)
    B = type(b)(b.axes[: b.ndim - k], lambda idx: ZERO)
    n = max(A.ndim, B.ndim)
    res = []
    for j in range(n):
        c = []
        for X in (A, B):
            i = j - (n - X.ndim)
            if i >= 0:
                c.append(X.axes[i])
        res.append(_bcast_axis(c))

    def mkg(X, full):
        off = n - X.ndim
        maps = []
        for j, ax in enumerate(X.axes):
            dst = res[j + off]
            if ax == dst:
                maps.append(None)
            elif ax == (ONE,) or (same(axsize(ax), ONE) and not same(axsize(dst), ONE)):
                maps.append(lambda c, ax=ax: tuple(ZERO for _ in ax))
            else:
                maps.append(axmap(ax, dst))
        g = full.getter()
        return lambda lead, rest: g(
            tuple(c if m is None else m(c) for m, c in zip(maps, lead[off:])) + tuple(rest))

    return res, mkg(A, a), mkg(B, b)


def _solve_prep(a):
    if a.ndim < 2:
        raise ValueError("array must be at least two-dimensional")
    r, c = a.axes[-2], a.axes[-1]
    ax = contract_axis(r, c)
    return ax, axmap(r, ax), axmap(c, ax)


def _matvars(ax):
    rows = tuple(tm.fresh("r") if d is not ONE else ZERO for d in ax)
    cols = tuple(tm.fresh("c") if d is not ONE else ZERO for d in ax)
    return rows, cols


ASSUME = set()


def inv_elem(g, lead, ax, mr, mc, p, q):
    """element (p,q) of the inverse of the matrix g(lead, (row, col)) over axis ax"""
    rows, cols = _matvars(ax)
    body = g(lead, (rows if mr is None else mr(rows), cols if mc is None else mc(cols)))
    keep = [i for i, d in enumerate(ax) if d is not ONE]
    rng = tuple(ax[i] for i in keep)
    args = tuple(p[i] for i in keep) + tuple(q[i] for i in keep)
    ASSUME.add("matrices passed to solve/inv are nonsingular")
    return tm.mk_mat("inv", (rng, rng), (tuple(rows[i] for i in keep), tuple(cols[i] for i in keep)),
                     conv(body, "f"), args)


def solve(a, b):
    a, b = asarr(a), asarr(b)
    vec = False
    if type(a).lib == "np":
        vec = b.ndim == a.ndim - 1
    else:
        if b.ndim == 1:
            vec = True
        elif a.ndim - 1 == b.ndim:
            vec = all(same(axsize(x), axsize(y)) for x, y in zip(b.axes, a.axes[:-1]))
            if not vec:
                vec = all(branch(tm.eq(axsize(x), axsize(y))) for x, y in zip(b.axes, a.axes[:-1]))
    if vec:
        b = expand_dims(b, b.ndim)
    if b.ndim < 2:
        raise ValueError("solve: b must be at least one-dimensional")
    nax, mr, mc = _solve_prep(a)
    nax2 = contract_axis(nax, b.axes[-2])
    if nax2 != nax:
        m0r, m0c = mr, mc
        mm = axmap(nax, nax2)
        mr = (lambda c: (m0r or (lambda x: x))(mm(c))) if mm else mr
        mc = (lambda c: (m0c or (lambda x: x))(mm(c))) if mm else mc
        nax = nax2
    mb = axmap(b.axes[-2], nax)
    axes, ga, gb = lead_broadcast(a, b, 2)
    nl = len(axes)

    def fn(idx):
        lead, p, j = idx[:nl], idx[nl], idx[nl + 1]
        q, rngs, vs = [], [], []
        for d in nax:
            if d is ONE:
                q.append(ZERO)
            else:
                v = tm.fresh("s")
                q.append(v); vs.append(v); rngs.append(d)
        q = tuple(q)
        iv = inv_elem(ga, lead, nax, mr, mc, p, q)
        return tm.mk_sum(rngs, vs, tm.mul(iv, conv(gb(lead, (q if mb is None else mb(q), j)), "f")))

    r = type(a)(tuple(axes) + (nax, b.axes[-1]), fn, "f")
    if vec:
        r = r._dropaxes(list(range(r.ndim - 1)))
    return r


def inverse(a):
    a = asarr(a)
    nax, mr, mc = _solve_prep(a)
    g0 = a.getter()
    g = lambda lead, rest: g0(tuple(lead) + tuple(rest))
    return type(a)(a.axes[:-2] + (nax, nax),
                   lambda idx: inv_elem(g, idx[:-2], nax, mr, mc, idx[-2], idx[-1]), "f")


def matfun(a, name):
    a = asarr(a)
    nax, mr, mc = _solve_prep(a)
    g = a.getter()

    def fn(idx):
        rows, cols = _matvars(nax)
        keep = [i for i, d in enumerate(nax) if d is not ONE]
        rng = tuple(nax[i] for i in keep)
        body = g(tuple(idx) + (rows if mr is None else mr(rows), cols if mc is None else mc(cols)))
        return tm.mk_mat(name, (rng, rng), (tuple(rows[i] for i in keep), tuple(cols[i] for i in keep)), conv(body, "f"))

    return ret(type(a)(a.axes[:-2], fn, "f"))


def einsum(spec, *ops):
    ops = [asarr(o) for o in ops]
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    if "->" in spec:
        lhs, out = spec.split("->")
    else:
        lhs = spec
        allc = lhs.replace(",", "")
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum: operand count mismatch")
    axof = {}
    maps = []
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum: wrong number of dimensions")
        for c, ax in zip(s, o.axes):
            if c not in axof:
                axof[c] = ax
            elif axof[c] == (ONE,):
                axof[c] = ax
            elif ax == (ONE,):
                pass
            else:
                a, b = axsize(axof[c]), axsize(ax)
                if not same(a, b) and not branch(tm.eq(a, b)):
                    if branch(tm.eq(a, ONE)):
                        axof[c] = ax
                    elif branch(tm.eq(b, ONE)):
                        pass
                    else:
                        raise ValueError("einsum: dimension mismatch")
                elif len(ax) > len(axof[c]):
                    axof[c] = ax
    summed = [c for c in axof if c not in out]
    gs = [o.getter() for o in ops]
    am = [[(c, ax, None if ax == axof[c] else
            ((lambda comps, ax=ax: tuple(ZERO for _ in ax)) if ax == (ONE,) or
             (same(axsize(ax), ONE) and not same(axsize(axof[c]), ONE)) else axmap(ax, axof[c])))
           for c, ax in zip(s, o.axes)] for s, o in zip(ins, ops)]

    def fn(idx):
        env = dict(zip(out, idx))
        rngs, vs = [], []
        for c in summed:
            comp = []
            for d in axof[c]:
                if d is ONE:
                    comp.append(ZERO)
                else:
                    v = tm.fresh("s")
                    comp.append(v); vs.append(v); rngs.append(d)
            env[c] = tuple(comp)
        p = ONE
        for g, m in zip(gs, am):
            p = tm.mul(p, conv(g(tuple(env[c] if f is None else f(env[c]) for c, _, f in m)), "f"))
        return tm.mk_sum(rngs, vs, p)

    return ret(cls_for(*ops)(tuple(axof[c] for c in out), fn, kind_join(*[o.kind for o in ops])), True)


# -------------------------------------------------------------------- construction
def full(shape, v, kind=None, cls=None):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    s = scalar(v)
    t, k = (s[0], s[1]) if s is not None else (scalar_term(v), "f")
    return cls(tuple((ti(d),) for d in shape), lambda idx: t, kind or k)


def eye(n, m=None, cls=None, kind="f"):
    n = ti(n)
    m = n if m is None else ti(m)
    return cls(((n,), (m,)), lambda idx: tm.ite(tm.eq(idx[0][0], idx[1][0]), ONE, ZERO), kind)


def arange(*a, cls=None):
    if len(a) == 1:
        start, stop = 0, a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        raise Unsupported("arange with a step")
    s, e = ti(start), ti(stop)
    k = "i"
    for x in a:
        if scalar(x)[1] == "f":
            raise Unsupported("float arange")
    return cls(((tm.sub(e, s),),), lambda idx: tm.add(s, idx[0][0]), k)


def expand_dims(a, axis):
    a = asarr(a)
    n = a.ndim + 1
    k = axis % n
    axes = a.axes[:k] + ((ONE,),) + a.axes[k:]
    return a.view_as(axes, lambda idx: idx[:k] + idx[k + 1:],
                     lambda idx: (TRUE, idx[:k] + ((ZERO,),) + idx[k:]))


def atleast(a, n):
    a = asarr(a)
    if n == 1:
        return a if a.ndim >= 1 else expand_dims(a, 0)
    if n == 2:
        if a.ndim == 0:
            return expand_dims(expand_dims(a, 0), 0)
        return expand_dims(a, 0) if a.ndim == 1 else a
    if a.ndim == 0:
        return expand_dims(expand_dims(expand_dims(a, 0), 0), 0)
    if a.ndim == 1:
        return expand_dims(expand_dims(a, 0), 2)
    if a.ndim == 2:
        return expand_dims(a, 2)
    return a


def concat(arrs, axis=0, cls=None):
    cls = cls or cls_for(*arrs)
    arrs = [asarr(x, cls=cls) for x in arrs]
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions must match")
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    axes = list(arrs[0].axes)
    for a in arrs[1:]:
        for i in range(nd):
            if i != axis:
                x, y = axsize(axes[i]), axsize(a.axes[i])
                if not same(x, y) and not branch(tm.eq(x, y)):
                    raise ValueError("all the input array dimensions must match exactly")
                if len(a.axes[i]) > len(axes[i]):
                    axes[i] = a.axes[i]
    sizes = [axsize(a.axes[axis]) for a in arrs]
    tot = tm.add(*sizes)
    gs = []
    for a in arrs:
        g = a.getter()
        maps = [None if i == axis or a.axes[i] == axes[i] else axmap(a.axes[i], axes[i]) for i in range(nd)]
        gs.append((a, g, maps))
    axes[axis] = (tot,)
    k = kind_join(*[a.kind for a in arrs])

    def fn(idx):
        i = idx[axis][0]

        def val(n, off):
            a, g, maps = gs[n]
            li = tm.sub(i, off)
            out = []
            for j in range(nd):
                if j == axis:
                    out.append(comps_of(li, a.axes[axis]))
                else:
                    out.append(idx[j] if maps[j] is None else maps[j](idx[j]))
            return conv(g(tuple(out)), k)

        offs, o = [], ZERO
        for s in sizes:
            offs.append(o)
            o = tm.add(o, s)
        r = None
        for n in range(len(gs) - 1, -1, -1):
            if r is None:
                r = val(n, offs[n])
            else:
                c = tm.lt(i, tm.add(offs[n], sizes[n]))
                r = r if c is FALSE else (val(n, offs[n]) if c is TRUE else tm.ite(c, val(n, offs[n]), r))
        return r

    return cls(tuple(axes), fn, k)


def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    axis %= a.ndim
    t = ti(n)
    axes = list(a.axes)
    ax0 = axes[axis]
    nax = normax(ax0 + (t,))
    axes[axis] = nax
    k0 = len(normax(ax0)) if normax(ax0) != (ONE,) else 0
    g = a.getter()

    def fn(idx):
        c = idx[axis]
        src = _sub_comps(c, nax, ax0, 0)
        return g(idx[:axis] + (src,) + idx[axis + 1:])

    return type(a)(tuple(axes), fn, a.kind)


def _sub_comps(c, nax, ax0, start):
    """components of ax0 embedded (ones dropped) in nax at position start"""
    it = start
    out = []
    for d in ax0:
        if d is ONE:
            out.append(ZERO)
        else:
            out.append(c[it])
            it += 1
    return tuple(out)


def tile(a, reps):
    a = asarr(a)
    if is_arr(reps):
        reps = tuple(reps)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    while a.ndim < len(reps):
        a = expand_dims(a, 0)
    reps = (1,) * (a.ndim - len(reps)) + tuple(reps)
    axes = []
    offs = []
    for ax, r in zip(a.axes, reps):
        t = ti(r)
        axes.append(normax((t,) + ax))
        offs.append(0 if t is ONE else 1)
    g = a.getter()
    oax = a.axes

    def fn(idx):
        return g(tuple(_sub_comps(c, n, o, s) if n != o else c
                       for c, n, o, s in zip(idx, axes, oax, offs)))

    return type(a)(tuple(axes), fn, a.kind)


def diag(a, k=0):
    a = asarr(a)
    if k != 0:
        raise Unsupported("off-diagonal diag")
    g = a.getter()
    if a.ndim == 1:
        ax = a.axes[0]
        return type(a)((ax, ax), lambda idx: tm.ite(
            tm.eq(linidx(idx[0], ax), linidx(idx[1], ax)), g((idx[0],)), ZERO), a.kind)
    return diagonal(a)


def diagonal(a, offset=0, axis1=0, axis2=1):
    if offset != 0:
        raise Unsupported("offset diagonal")
    n = a.ndim
    i, j = axis1 % n, axis2 % n
    x, y = axsize(a.axes[i]), axsize(a.axes[j])
    if not same(x, y):
        raise Unsupported("diagonal of a non-square array")
    keep = [k for k in range(n) if k not in (i, j)]
    g = a.getter()
    m = axmap(a.axes[j], a.axes[i])

    def fn(idx):
        it = iter(idx[:-1])
        d = idx[-1]
        return g(tuple(d if k == i else ((d if m is None else m(d)) if k == j else next(it)) for k in range(n)))

    return type(a)(tuple(a.axes[k] for k in keep) + (a.axes[i],), fn, a.kind)


def where(c, a, b):
    cls = cls_for(c, a, b)
    x, y, z = asarr(c, cls=cls), asarr(a, cls=cls), asarr(b, cls=cls)
    axes, (gc, ga, gb) = broadcast(x, y, z)
    k = kind_join(y.kind, z.kind)
    return ret(cls(axes, lambda idx: tm.ite(truth(gc(idx)), conv(ga(idx), k), conv(gb(idx), k)), k))


def cast(a, dtype):
    d = str(dtype)
    a = asarr(a)
    g = a.getter()
    if "bool" in d:
        return type(a)(a.axes, lambda i: truth(g(i)), "b")
    if "int" in d:
        if a.kind == "f":
            raise Unsupported("truncation of a symbolic array")
        return type(a)(a.axes, lambda i: conv(g(i), "i"), "i")
    return type(a)(a.axes, lambda i: conv(g(i), "f"), "f")


# -------------------------------------------------------------------- indexing
class MaskedView:
    """x[mask] as an operand of an in-place update x[mask] op= v"""

    def __init__(self, base, mask, f=None):
        self.base, self.mask = base, mask
        self.f = f or (lambda t: t)
        self.base_getter = base.getter()

    @property
    def shape(self):
        return self.array().shape

    def array(self):
        """the selected elements, in order"""
        if self.base.ndim != 1:
            raise Unsupported("masked selection used as an array")
        ix = nonzero(self.mask)
        b = type(self.base)(self.base.axes, lambda idx: self.f(self.base_getter(idx)), self.base.kind)
        return _advanced(b, [ix])

    def _u(self, g):
        r = MaskedView(self.base, self.mask, lambda t, f=self.f: g(f(t)))
        r.base_getter = self.base_getter
        return r

    def _op(self, o, op, rev=False):
        s = scalar(o)
        if s is None:
            raise Unsupported("masked selection with an array operand")
        return self._u((lambda t: op(s[0], t)) if rev else (lambda t: op(t, s[0])))

    def __add__(self, o):
        return self._op(o, tm.add)

    __radd__ = __iadd__ = __add__

    def __sub__(self, o):
        return self._op(o, tm.sub)

    __isub__ = __sub__

    def __mul__(self, o):
        return self._op(o, tm.mul)

    __rmul__ = __imul__ = __mul__

    def __truediv__(self, o):
        return self._op(o, tm.div)

    __itruediv__ = __truediv__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.array(), n)

    def __len__(self):
        return len(self.array())

    def __getitem__(self, k):
        return self.array()[k]


def nonzero(mask):
    """numpy.nonzero of a one-dimensional mask: the positions of its true entries, ascending"""
    if mask.ndim != 1:
        raise Unsupported("nonzero of a matrix")
    ax = mask.axes[0]
    n = axsize(ax)
    g = mask.getter()
    test = lambda i: truth(g((comps_of(i, ax),)))
    key = (n, test(tm.var("nonzero?", "I")))
    if key not in SELECTIONS:
        name = f"sel!{len(SELECTIONS)}"
        m = tm.var(name + ".count", "I")
        from . import smt
        smt.FACT_BINDERS[0] = True
        smt.var_fact(m, tm.le(ZERO, m), tm.le(m, n))
        pos, rank = name + ".pos", name + ".rank"
        inr = lambda k, d: tm.and_(tm.le(ZERO, k), tm.lt(k, d))
        tm.declare(pos, "I", facts=lambda k: [tm.implies(inr(k, m), tm.and_(inr(tm.app(pos, k), n), test(tm.app(pos, k))))])
        tm.UFS[pos].inj = 0
        tm.declare(rank, "I", facts=lambda i: [tm.implies(tm.and_(inr(i, n), test(i)), tm.and_(
            inr(tm.app(rank, i), m), tm.eq(tm.app(pos, tm.app(rank, i)), i)))])
        SELECTIONS[key] = dict(n=n, m=m, pos=pos, rank=rank, test=test)
    e = SELECTIONS[key]
    if not any(u is e for u in SELECTED):
        SELECTED.append(e)
    ASSUME.add("numpy.nonzero / boolean indexing return exactly the positions of the true entries in ascending order")
    return type(mask)(((e["m"],),), lambda idx: tm.app(e["pos"], idx[0][0]), "i")


SELECTIONS = {}  # every selection made by this process
SELECTED = []  # those of the current path


def _norm_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = [list(k) if isinstance(k, range) else k for k in key]
    n = 0
    for k in key:
        if k is None or k is Ellipsis or isinstance(k, bool):
            continue
        if is_arr(k) and k.kind == "b":
            n += k.ndim
        else:
            n += 1
    if Ellipsis in [k for k in key if not is_arr(k) and not isinstance(k, (list, Sym, SymBool))]:
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key = key[:i] + [slice(None)] * (a.ndim - n) + key[i + 1:]
    else:
        key = key + [slice(None)] * (a.ndim - n)
    if n > a.ndim:
        raise IndexError("too many indices for array")
    return key


def _slice_bounds(s, n):
    """-> (start, length) of a step-1 slice over extent n (numpy clamping)"""
    if s.step not in (None, 1):
        raise Unsupported("strided slice")

    def fix(v, default):
        if v is None:
            return default
        t = ti(v)
        if branch(tm.lt(t, ZERO)):
            t = tm.add(t, n)
            if branch(tm.lt(t, ZERO)):
                t = ZERO
            return t
        if branch(tm.lt(n, t)):
            return n
        return t

    st = fix(s.start, ZERO)
    en = fix(s.stop, n)
    if st is en or branch(tm.le(en, st)):
        return st, ZERO
    return st, tm.sub(en, st)


def obligation(kind, t, idxvars_ctx=()):
    cur().obligations.append((kind, t))


def _wrap_index(t, n):
    """index term possibly negative -> non-negative; bounds recorded as assumption-free check"""
    if cur().provable(tm.le(ZERO, t)):
        r = t
    elif cur().provable(tm.lt(t, ZERO)):
        r = tm.add(t, n)
    else:
        r = tm.ite(tm.lt(t, ZERO), tm.add(t, n), t)
    return r


def getitem(a, key):
    # boolean mask selection
    if is_arr(key) and key.kind == "b":
        if key.ndim == a.ndim:
            return MaskedView(a, key)
        if key.ndim != 1:
            raise Unsupported("partial boolean mask")
    key = [_mask_index(k, a) for k in _norm_key(a, key)]
    adv = [k for k in key if is_arr(k) or isinstance(k, (list, SymRange)) or hasattr(k, "axes")]
    if any(is_arr(k) and k.kind == "b" for k in adv):
        raise Unsupported("boolean mask inside an index tuple")
    if any(isinstance(k, (bool, SymBool)) for k in key):
        raise Unsupported("boolean scalar index")
    if not adv:
        return _basic(a, key)
    return _advanced(a, key)


def _mask_index(k, a):
    if is_arr(k) and k.kind == "b" and k.ndim == 1:
        return nonzero(k)
    return k


def _int_index(k, n):
    t = ti(k)
    if not branch(tm.and_(tm.le(tm.neg(n), t), tm.lt(t, n))):
        raise IndexError("index out of bounds")
    if branch(tm.lt(t, ZERO)):
        t = tm.add(t, n)
    return t


def _basic(a, key):
    # process into view
    axes = []
    plan = []  # per source axis: ("int", comps) | ("full", newpos) | ("slice", newpos, start, len)
    src = 0
    for k in key:
        if k is None:
            axes.append((ONE,))
            continue
        ax = a.axes[src]
        n = axsize(ax)
        if isinstance(k, slice):
            if k == slice(None) or (k.start is None and k.stop is None and k.step in (None, 1)):
                plan.append(("full", len(axes)))
                axes.append(ax)
            else:
                st, ln = _slice_bounds(k, n)
                if st is ZERO and same(ln, n):
                    plan.append(("full", len(axes)))
                    axes.append(ax)
                else:
                    plan.append(("slice", len(axes), st, ln))
                    axes.append((ln,))
        else:
            if scalar(k) is None:
                raise IndexError("only integers, slices, ellipsis, None and arrays are valid indices")
            plan.append(("int", comps_of(_int_index(k, n), ax)))
        src += 1
    oaxes = a.axes

    def fwd(idx):
        out = []
        for p, ax in zip(plan, oaxes):
            if p[0] == "int":
                out.append(p[1])
            elif p[0] == "full":
                out.append(idx[p[1]])
            else:
                out.append(comps_of(tm.add(idx[p[1]][0], p[2]), ax))
        return tuple(out)

    def back(idx):
        out = [(ZERO,) for _ in axes]
        c = TRUE
        for p, ax, comps in zip(plan, oaxes, idx):
            if p[0] == "int":
                c = tm.and_(c, *[tm.eq(x, y) for x, y in zip(comps, p[1])])
            elif p[0] == "full":
                out[p[1]] = comps
            else:
                t = tm.sub(linidx(comps, ax), p[2])
                c = tm.and_(c, tm.le(ZERO, t), tm.lt(t, p[3]))
                out[p[1]] = (t,)
        return c, tuple(out)

    r = a.view_as(tuple(axes), fwd, back)
    if not axes and a.lib == "np" and all(p[0] == "int" for p in plan):
        return r._item()
    return r


def _advanced(a, key):
    cls = type(a)
    # ints next to arrays are advanced too
    items = []
    src = 0
    pos = []
    for k in key:
        if k is None:
            items.append(("new",))
            continue
        ax = a.axes[src]
        if isinstance(k, slice):
            items.append(("slice", src, k))
        else:
            items.append(("adv", src, asarr(k, cls=cls)))
        src += 1
    advs = [it for it in items if it[0] == "adv"]
    badv, gadv = broadcast(*[it[2] for it in advs])
    for it in advs:
        if it[2].kind == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
    where_adv = [i for i, it in enumerate(items) if it[0] == "adv"]
    contiguous = where_adv == list(range(where_adv[0], where_adv[-1] + 1))
    axes = []
    plan = {}
    nadv = len(badv)
    if not contiguous:
        axes.extend(badv)
        advpos = 0
    first = True
    for it in items:
        if it[0] == "new":
            axes.append((ONE,))
        elif it[0] == "slice":
            ax = a.axes[it[1]]
            k = it[2]
            n = axsize(ax)
            if k.start is None and k.stop is None and k.step in (None, 1):
                plan[it[1]] = ("full", len(axes))
                axes.append(ax)
            else:
                st, ln = _slice_bounds(k, n)
                plan[it[1]] = ("slice", len(axes), st)
                axes.append((ln,))
        else:
            if contiguous and first:
                advpos = len(axes)
                axes.extend(badv)
                first = False
    advget = {it[1]: g for it, g in zip(advs, gadv)}
    nonneg = set()
    # bounds check of the index arrays (for every position)
    for it, g in zip(advs, gadv):
        idx = freshidx(badv, "x")
        ctx = range_facts(badv, idx)
        n = axsize(a.axes[it[1]])
        t = g(idx)
        goal = tm.and_(tm.le(tm.neg(n), t), tm.lt(t, n))
        cur().obligations.append(("index in bounds", goal, tuple(cur().pc) + tuple(ctx)))
        # decided once for all positions: are the indices non-negative?
        mark = len(cur().pc)
        cur().pc.extend(ctx)
        try:
            if cur().provable(tm.le(ZERO, t)):
                nonneg.add(it[1])
        finally:
            del cur().pc[mark:]
    oaxes = a.axes
    g0 = a.getter()

    def src_index(idx):
        ai = idx[advpos:advpos + nadv]
        out = []
        for s, ax in enumerate(oaxes):
            if s in advget:
                t = advget[s](ai)
                out.append(comps_of(t if s in nonneg else _wrap_index(t, axsize(ax)), ax))
            else:
                p = plan[s]
                if p[0] == "full":
                    out.append(idx[p[1]])
                else:
                    out.append(comps_of(tm.add(idx[p[1]][0], p[2]), ax))
        return tuple(out)

    r = cls(tuple(axes), lambda idx: g0(src_index(idx)), a.kind)
    r._adv = (badv, advpos, nadv, advget, plan, nonneg)
    return r


def range_facts(axes, idx):
    out = []
    for ax, comps in zip(axes, idx):
        for d, c in zip(ax, comps):
            if d is ONE or c is ZERO:
                continue
            out += [tm.le(ZERO, c), tm.lt(c, d)]
    return out


def setitem(a, key, val):
    if is_arr(key) and key.kind == "b" and key.ndim == a.ndim:
        axes, (gm,) = broadcast(key)
        gm = conform(key, a.axes)
        if isinstance(val, MaskedView):
            if val.mask is not key or val.base.st is not a.st:
                raise Unsupported("masked assignment from another selection")
            bg, f = val.base_getter, val.f
            a.write_view(lambda idx: (truth(gm(idx)), f(bg(idx))))
            return
        t = conv(scalar_term(val), a.kind)
        a.write_view(lambda idx: (truth(gm(idx)), t))
        return
    key = _norm_key(a, key)
    adv = [k for k in key if is_arr(k) or isinstance(k, (list, SymRange))]
    if any(is_arr(k) and k.kind == "b" for k in adv):
        raise Unsupported("boolean mask inside an index tuple")
    cls = type(a)
    if not adv:
        v = _basic_view(a, key)
        src = asarr(val, cls=cls)
        b = broadcast_getter(src, v.axes)
        k = a.kind
        v.write_view(lambda idx: (TRUE, conv(b(idx), k)))
        return
    probe = _advanced(a, key)
    badv, advpos, nadv, advget, plan, nonneg = probe._adv
    src = asarr(val, cls=cls)
    b = broadcast_getter(src, probe.axes)
    k = a.kind
    oaxes = a.axes

    def pv(sidx):
        # solve index arrays = sidx for the result position
        unk = {}
        pos = freshidx(badv, "y")
        allv = {v: (i, j) for i, c in enumerate(pos) for j, v in enumerate(c) if v is not ZERO}
        sol, conds = {}, []
        todo = []
        for s, g in advget.items():
            t = g(pos)
            if s not in nonneg:
                t = _wrap_index(t, axsize(oaxes[s]))
            todo.append((t, tm.lin(sidx[s], oaxes[s])))
        rest = []
        for t, target in todo:
            done = False
            d = tm._pd(t)
            for m, c in d.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in allv and m[0][0] not in sol and abs(c) == 1:
                    v = m[0][0]
                    others = tm._fromd({x: y for x, y in d.items() if x != m})
                    if not (others.fv & set(allv)):
                        sol[v] = tm.mul(tm.num(1 / c), tm.sub(target, others))
                        done = True
                        break
            if not done:
                rest.append((t, target))
        if set(sol) != set(allv):
            raise Unsupported(f"scatter assignment whose positions cannot be inverted {todo} {badv}")
        for v, val_ in sol.items():
            i, j = allv[v]
            conds += [tm.le(ZERO, val_), tm.lt(val_, badv[i][j])]
        for t, target in rest:
            conds.append(tm.eq(tm.replace(t, sol), target))
        comps = tuple(tuple(sol.get(v, v) for v in c) for c in pos)
        idx = [None] * len(probe.axes)
        idx[advpos:advpos + nadv] = list(comps)
        for s, p in plan.items():
            if p[0] == "full":
                idx[p[1]] = sidx[s]
            else:
                t = tm.sub(tm.lin(sidx[s], oaxes[s]), p[2])
                ln = axsize(probe.axes[p[1]])
                conds += [tm.le(ZERO, t), tm.lt(t, ln)]
                idx[p[1]] = (t,)
        idx = tuple((ZERO,) if x is None else x for x in idx)
        # drop range conditions that hold on this path
        cs = [c for c in conds if c is not TRUE]
        return tm.and_(*cs), conv(b(idx), k)

    a.write_view(pv)


def _basic_view(a, key):
    if any(scalar(k) is None and not isinstance(k, slice) and k is not None for k in key):
        raise Unsupported("index")
    lib = a.lib
    # avoid scalar return
    axes_int = [k for k in key]
    r = _basic_noscalar(a, axes_int)
    return r


def _basic_noscalar(a, key):
    saved = type(a).lib
    ret_ = _basic(a, key)
    if is_arr(ret_):
        return ret_
    # all-integer index of a numpy array: rebuild as 0-d view
    comps = tuple(comps_of(_int_index(k, axsize(ax)), ax) for k, ax in zip(key, a.axes))
    return a.view_as((), lambda idx: comps,
                     lambda idx: (tm.and_(*[tm.eq(x, y) for c, d in zip(idx, comps) for x, y in zip(c, d)]), ()))
