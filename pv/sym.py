"""Symbolic Python scalars and path exploration."""
from fractions import Fraction
import math
import numbers

from . import terms as tm
from . import smt
from .terms import T, TRUE, FALSE


class Unsupported(BaseException):
    """outside the verifier's reach (never a verdict)"""


class Infeasible(BaseException):
    pass


class PathLimit(BaseException):
    pass


class Path:
    """one symbolic execution; `decisions` fixes the outcome of the branches"""

    def __init__(self, decisions=()):
        self.decisions = list(decisions)
        self.pos = 0
        self.pc = []
        self.alts = []  # decision prefixes still to explore
        self.obligations = []
        self.trace = []

    def assume(self, t):
        if t is FALSE:
            raise Infeasible()
        if t is not TRUE and t not in self.pc:
            self.pc.append(t)

    def branch(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t in self.pc:
            return True
        if tm.not_(t) in self.pc:
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            n = tm.not_(t)
            if smt.binders_of([t]):
                if smt.prove_quick(t, self.pc):
                    return True
                if smt.prove_quick(n, self.pc):
                    return False
            if smt.prove(t, self.pc, 3000):
                return self._take(t, True, False)
            if smt.prove(tm.not_(t), self.pc, 3000):
                return self._take(t, False, False)
            d = True
            self.alts.append(self.decisions[: self.pos] + [False])
            self.decisions.append(True)
            if len(self.decisions) > 60:
                raise PathLimit("too many branches")
        self.pos += 1
        self.pc.append(t if d else tm.not_(t))
        self.trace.append((t, d))
        return d

    def _take(self, t, d, _):
        return d

    def provable(self, t, timeout=3000):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        return bool(smt.prove(t, self.pc, timeout))


CUR = [Path()]


def cur():
    return CUR[0]


def branch(t):
    return CUR[0].branch(t)


# ------------------------------------------------------------------ scalars
def flt(x):
    """python float -> exact decimal rational"""
    if isinstance(x, float):
        if math.isinf(x):
            return tm.INF if x > 0 else tm.NINF
        if math.isnan(x):
            raise Unsupported(f"non-finite float {x}")
        return tm.num(Fraction(repr(x)))
    return tm.num(Fraction(x))


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return branch(self.t)

    def __invert__(self):
        return wrapb(tm.not_(self.t))

    def __and__(self, o):
        b = asb(o)
        return NotImplemented if b is None else wrapb(tm.and_(self.t, b))

    __rand__ = __and__

    def __or__(self, o):
        b = asb(o)
        return NotImplemented if b is None else wrapb(tm.or_(self.t, b))

    __ror__ = __or__

    def __eq__(self, o):
        b = asb(o)
        if b is None:
            return False
        return wrapb(tm.eq(self.t, b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f"SymBool({self.t})"

    def __deepcopy__(self, memo):
        return self

    # arithmetic use of booleans
    def _n(self):
        return Sym(tm.ite(self.t, tm.ONE, tm.ZERO), "i")

    def __add__(self, o):
        return self._n() + o

    def __radd__(self, o):
        return o + self._n()

    def __mul__(self, o):
        return self._n() * o

    def __rmul__(self, o):
        return o * self._n()

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self


def asb(o):
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, bool):
        return tm.boolc(o)
    return None


def wrapb(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return SymBool(t)


class Sym:
    """symbolic int ('i') or float ('f')"""

    __slots__ = ("t", "k")
    __array_ufunc__ = None

    def __init__(self, t, k):
        self.t, self.k = t, k

    # numpy-scalar look-alike
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return "float64" if self.k == "f" else "int64"

    def item(self):
        return self

    def numpy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def copy(self):
        return self

    def squeeze(self, *a, **k):
        return self

    def flatten(self):
        from . import tensor
        return tensor.lift(self).reshape(1)

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def reshape(self, *shape):
        from . import tensor
        return tensor.lift(self).reshape(*shape)

    def __getitem__(self, k):
        if k == ():
            return self
        raise IndexError("invalid index to scalar variable.")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"<{self.t}>"

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return branch(tm.not_(tm.eq(self.t, tm.ZERO)))

    def __index__(self):
        return concretize(self)

    def __int__(self):
        raise Unsupported("int() of a symbolic value outside the loader")

    def __float__(self):
        raise Unsupported("float() of a symbolic value outside the loader")

    def _bin(self, o, f, k=None):
        s = scalar(o)
        if s is None:
            return NotImplemented
        t, ok = s
        return wrap(f(self.t, t), k or ("f" if "f" in (self.k, ok) else "i"))

    def _rbin(self, o, f, k=None):
        s = scalar(o)
        if s is None:
            return NotImplemented
        t, ok = s
        return wrap(f(t, self.t), k or ("f" if "f" in (self.k, ok) else "i"))

    def __add__(self, o):
        return self._bin(o, tm.add)

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            raise Unsupported("sequence repetition by a symbolic count")
        return self._bin(o, tm.mul)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._bin(o, tm.sub)

    def __rsub__(self, o):
        return self._rbin(o, tm.sub)

    def __truediv__(self, o):
        return self._bin(o, tm.div, "f")

    def __rtruediv__(self, o):
        return self._rbin(o, tm.div, "f")

    def __floordiv__(self, o):
        s = scalar(o)
        if s is None:
            return NotImplemented
        if self.k == "i" and s[1] == "i" and cur().provable(tm.lt(tm.ZERO, s[0])):
            return wrap(tm.fdiv(self.t, s[0]), "i")
        raise Unsupported("floor division")

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __mod__(self, o):
        s = scalar(o)
        if s is None:
            return NotImplemented
        if self.k == "i" and s[1] == "i" and cur().provable(tm.lt(tm.ZERO, s[0])):
            return wrap(tm.fmod(self.t, s[0]), "i")
        raise Unsupported("modulo")

    def __rfloordiv__(self, o):
        return wrap(*scalar(o)).__floordiv__(self) if not isinstance(o, (int, float)) else Sym(*scalar(o)).__floordiv__(self)

    def __rmod__(self, o):
        return Sym(*scalar(o)).__mod__(self)

    def __pow__(self, o):
        return self._bin(o, tm.pow_)

    def __rpow__(self, o):
        return self._rbin(o, tm.pow_)

    def __neg__(self):
        return wrap(tm.neg(self.t), self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(tm.ite(tm.le(tm.ZERO, self.t), self.t, tm.neg(self.t)), self.k)

    def _cmp(self, o, f, inf):
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            return inf(o)
        s = scalar(o)
        if s is None:
            return NotImplemented
        return wrapb(f(self.t, s[0]))

    def __lt__(self, o):
        return self._cmp(o, tm.lt, lambda v: v > 0)

    def __le__(self, o):
        return self._cmp(o, tm.le, lambda v: v > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: tm.lt(b, a), lambda v: v < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: tm.le(b, a), lambda v: v < 0)

    def __eq__(self, o):
        r = self._cmp(o, tm.eq, lambda v: False)
        return False if r is NotImplemented and not hasattr(o, "axes") else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: tm.not_(tm.eq(a, b)), lambda v: v == v or True)
        return True if r is NotImplemented and not hasattr(o, "axes") else r


numbers.Number.register(Sym)


def wrap(t, k):
    if k == "i" and tm.is_num(t) and tm.nval(t).denominator == 1:
        return int(tm.nval(t))
    return Sym(t, k)


def scalar(o):
    """-> (term, kind) for scalar operands, else None"""
    if isinstance(o, Sym):
        return o.t, o.k
    if isinstance(o, SymBool):
        return tm.ite(o.t, tm.ONE, tm.ZERO), "i"
    if isinstance(o, bool):
        return tm.num(int(o)), "i"
    if isinstance(o, int):
        return tm.num(o), "i"
    if isinstance(o, float):
        return flt(o), "f"
    if isinstance(o, Fraction):
        return tm.num(o), "f"
    return None


def ti(o):
    """int-like -> term"""
    s = scalar(o)
    if s is None:
        raise Unsupported(f"integer expected, got {type(o).__name__}")
    return s[0]


class SymRange:
    """range over a symbolic extent"""

    def __init__(self, start, stop):
        self.start, self.stop = start, stop

    def __iter__(self):
        n = self.count()
        if not cur().provable(tm.le(n, tm.num(12))):
            raise Unsupported("loop over a symbolic range without an invariant")
        if branch(tm.le(n, tm.ZERO)):
            return iter(())
        k = concretize(wrap(n, "i"))
        return iter([self.start + i for i in range(k)])

    def __len__(self):
        raise Unsupported("len of a symbolic range outside the loader")

    def count(self):
        return tm.sub(ti(self.stop), ti(self.start))


def concretize(s, hi=12):
    """machine value of a symbolic integer with provably few values (by case split)"""
    if s.k != "i":
        raise TypeError("'float' object cannot be interpreted as an integer")
    if not (cur().provable(tm.le(tm.ZERO, s.t)) and cur().provable(tm.le(s.t, tm.num(hi)))):
        raise Unsupported("symbolic integer used as a machine index")
    for v in range(hi + 1):
        if branch(tm.eq(s.t, tm.num(v))):
            return v
    raise Infeasible()
