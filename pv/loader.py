"""Loads the code under verification from /repo/src, unmodified in meaning.

Every module of MuyGPyS is read from the current working tree and executed by
CPython itself; the only rewriting is
  * `x is True` / `x is False`  ->  a call that also understands symbolic booleans,
  * list comprehensions with one generator -> a call that also understands
    ranges of symbolic length (pv_listcomp),
  * every module-level function is registered so that a caller can be checked
    against its contract.
Builtins that must return machine values (len, float, int, range, isinstance,
abs, min, max, print) are replaced by versions that accept symbolic operands.
"""
import ast
import builtins
import math
import importlib.abc
import importlib.machinery
import importlib.metadata
import importlib.util
import os
import sys
import types

from . import sym, tensor, terms as tm
from .sym import Sym, SymBool, SymRange, Unsupported
from .tensor import Tensor

SRC = os.environ.get("PV_SRC", "/repo/src")
FUNCS = {}  # "module:name" -> original function
STUBS = {}  # "module:name" -> contract stub in force
CALLS = {}  # "module:name" -> call count (reachability)
FILES = set()


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.depth = 0

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            c = n.comparators[0]
            if isinstance(c, ast.Constant) and (c.value is True or c.value is False):
                call = ast.Call(ast.Name("__pv_is__", ast.Load()), [n.left, c], [])
                r = call
                if isinstance(n.ops[0], ast.IsNot):
                    r = ast.UnaryOp(ast.Not(), call)
                return ast.copy_location(r, n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async:
            g = n.generators[0]
            if isinstance(g.target, ast.Name):
                lam = ast.Lambda(
                    ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
                r = ast.Call(ast.Name("__pv_listcomp__", ast.Load()), [lam, g.iter], [])
                return ast.copy_location(r, n)
        return n

    def visit_FunctionDef(self, n):
        top = self.depth == 0
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        if top:
            d = ast.Call(ast.Name("__pv_fn__", ast.Load()),
                         [ast.Constant(f"{self.modname}:{n.name}")], [])
            n.decorator_list.append(ast.copy_location(d, n))
        return n

    def visit_ClassDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n


def pv_is(x, c):
    if isinstance(x, SymBool):
        return x if c else ~x
    return x is c


def pv_listcomp(f, it):
    if isinstance(it, SymRange):
        return SymList(it, f)
    return [f(i) for i in it]


class SymList:
    """list of symbolic length: element function over an index term"""

    def __init__(self, rng, f):
        self.rng, self.f = rng, f

    def n(self):
        return self.rng.count()

    def at(self, i):
        return self.f(sym.wrap(tm.add(sym.ti(self.rng.start), i), "i"))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is None and i.step is None and i.stop is not None:
                # prefix; callers only take prefixes with 0 <= stop <= n
                t = sym.ti(i.stop)
                if not (sym.cur().provable(tm.le(tm.ZERO, t)) and sym.cur().provable(tm.le(t, self.n()))):
                    raise Unsupported("slice of a symbolic list")
                return SymList(SymRange(self.rng.start, sym.wrap(tm.add(sym.ti(self.rng.start), t), "i")), self.f)
            raise Unsupported("slice of a symbolic list")
        t = sym.ti(i)
        if not sym.cur().provable(tm.and_(tm.le(tm.ZERO, t), tm.lt(t, self.n()))):
            raise Unsupported("index into a symbolic list not provably in range")
        return self.at(t)

    def __iter__(self):
        raise Unsupported("iteration over a list of symbolic length")

    def __len__(self):
        raise Unsupported("len of a symbolic list")


def pv_fn(name):
    def deco(f):
        if not isinstance(f, types.FunctionType):
            return f
        FUNCS[name] = f

        def wrapper(*a, **k):
            CALLS[name] = CALLS.get(name, 0) + 1
            stub = STUBS.get(name)
            if stub is not None:
                r = stub(f, a, k)
                if r is not NotImplemented:
                    return r
            return f(*a, **k)

        wrapper.__name__ = f.__name__
        wrapper.__qualname__ = f.__qualname__
        wrapper.__module__ = f.__module__
        wrapper.__wrapped__ = f
        wrapper.__doc__ = f.__doc__
        wrapper.__defaults__ = None
        wrapper.pv_name = name
        return wrapper

    return deco


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.float) or (builtins.isinstance(x, Sym) and x.k == "f")

    def __call__(cls, x=0.0):
        if builtins.isinstance(x, Sym):
            return Sym(x.t, "f")
        if builtins.isinstance(x, SymBool):
            return Sym(tm.ite(x.t, tm.ONE, tm.ZERO), "f")
        if builtins.isinstance(x, Tensor):
            return pv_float(x.item())
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class pv_float(metaclass=_FloatMeta):
    pass


tm.declare("trunc", "I", facts=lambda x: [
    tm.or_(tm.lt(x, tm.ZERO), tm.and_(
        tm.le(tm.app("trunc", x), x), tm.lt(x, tm.add(tm.app("trunc", x), tm.ONE)))),
    tm.or_(tm.le(tm.ZERO, x), tm.and_(
        tm.le(x, tm.app("trunc", x)), tm.lt(tm.sub(tm.app("trunc", x), tm.ONE), x)))])


def trunc_term(t):
    if t.sort == "I":
        return t
    d = tm._pd(t)
    if tm.is_num(t):
        return tm.num(int(tm.nval(t)))
    den = 1
    for c in d.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    if all(a.sort == "I" and e > 0 for m in d for a, e in m) and sym.cur().provable(tm.le(tm.ZERO, t)):
        return tm.fdiv(tm.mul(t, tm.num(den)), tm.num(den))
    return tm.app("trunc", t)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int) or (builtins.isinstance(x, Sym) and x.k == "i")

    def __call__(cls, x=0, *a):
        if builtins.isinstance(x, Sym):
            return sym.wrap(trunc_term(x.t), "i")
        if builtins.isinstance(x, SymBool):
            return sym.wrap(tm.ite(x.t, tm.ONE, tm.ZERO), "i")
        if builtins.isinstance(x, Tensor):
            return pv_int(x._item())
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class pv_int(metaclass=_IntMeta):
    pass


def _unmap(c):
    if c is pv_float:
        return builtins.float
    if c is pv_int:
        return builtins.int
    return c


def pv_isinstance(x, c):
    if builtins.isinstance(c, tuple):
        return builtins.any(pv_isinstance(x, k) for k in c)
    if c is builtins.float or c is pv_float:
        return _FloatMeta.__instancecheck__(pv_float, x)
    if c is builtins.int or c is pv_int:
        return _IntMeta.__instancecheck__(pv_int, x)
    if c is builtins.bool and builtins.isinstance(x, SymBool):
        return True
    return builtins.isinstance(x, c)


def pv_len(x):
    if builtins.isinstance(x, Tensor):
        return x.len_()
    if builtins.isinstance(x, SymList):
        return sym.wrap(x.n(), "i")
    if builtins.isinstance(x, SymRange):
        return sym.wrap(x.count(), "i")
    f = getattr(type(x), "pv_len", None)
    if f is not None:
        return f(x)
    return builtins.len(x)


def pv_range(*a):
    a = [x._item() if builtins.isinstance(x, Tensor) else x for x in a]
    if builtins.any(builtins.isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(a[0], a[1])
        raise Unsupported("range with a symbolic step")
    return builtins.range(*a)


def pv_print(*a, **k):
    pass


def pv_type(*a):
    if len(a) == 1 and builtins.isinstance(a[0], Sym):
        return pv_float if a[0].k == "f" else pv_int
    return builtins.type(*a)


def pv_round(x, n=None):
    if builtins.isinstance(x, (Sym, Tensor)):
        raise Unsupported("round")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def make_builtins():
    b = dict(vars(builtins))
    b.update(len=pv_len, float=pv_float, int=pv_int, isinstance=pv_isinstance, range=pv_range,
             print=pv_print, round=pv_round,
             __pv_is__=pv_is, __pv_listcomp__=pv_listcomp, __pv_fn__=pv_fn)
    return b


BUILTINS = make_builtins()


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != "MuyGPyS" and not name.startswith("MuyGPyS."):
            return None
        base = os.path.join(SRC, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            s = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=True)
            s.submodule_search_locations = [base]
            return s
        f = base + ".py"
        if os.path.exists(f):
            return importlib.machinery.ModuleSpec(name, self, origin=f)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        FILES.add(os.path.relpath(f, SRC))
        with open(f) as fh:
            src = fh.read()
        tree = ast.parse(src, f)
        tree = Rewrite(module.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, f, "exec")
        module.__dict__["__builtins__"] = BUILTINS
        module.__file__ = f
        exec(code, module.__dict__)


_orig_version = importlib.metadata.version


def _version(name):
    try:
        return _orig_version(name)
    except importlib.metadata.PackageNotFoundError:
        return "0"


def install():
    importlib.metadata.version = _version
    sys.meta_path.insert(0, Finder())
