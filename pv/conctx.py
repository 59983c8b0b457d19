"""Concrete (CPython) mode of the contract context: the same contracts, evaluated
on the real code with real numpy / torch."""
import contextlib
import itertools
import math

import numpy as np

from . import libctx


class CheckFailed(Exception):
    pass


class Skip(Exception):
    """the drawn input does not satisfy the precondition"""


def num(v):
    if hasattr(v, "detach"):
        v = v.detach()
    a = np.asarray(v, dtype=float)
    if a.size != 1:
        raise AssertionError("array used as a scalar in a specification")
    return float(a.reshape(-1)[0])


def tonp(v):
    if hasattr(v, "detach"):
        v = v.detach().cpu().numpy()
    return np.asarray(v)


class Read:
    def __init__(self, t):
        self.a = np.array(tonp(t), copy=True)

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) != self.a.ndim:
            raise AssertionError("specification reads a tensor with the wrong rank")
        for k, n in zip(key, self.a.shape):
            assert 0 <= k < n, "specification reads out of range"
        r = self.a[tuple(int(k) for k in key)]
        if self.a.dtype.kind in "iu":
            return int(r)
        if self.a.dtype.kind == "b":
            return bool(r)
        return float(r)


class ConCtx:
    symbolic = False

    def __init__(self, backend, seed=0, given=None, rtol=1e-6, atol=1e-9):
        self.backend = backend
        self.rng = np.random.default_rng(seed)
        self.given = given or {}
        self.record = {}
        self.failures = []
        self.checks = 0
        self.rtol, self.atol = rtol, atol
        np.random.seed(seed % (2 ** 32))
        if backend == "torch":
            import torch
            torch.manual_seed(seed)
            self.torch = torch

    # ------------------------------------------------------------- inputs
    def dim(self, name, lo=1, hi=None, choices=None):
        if name in self.given:
            v = int(self.given[name])
        else:
            v = int(self.rng.choice(choices)) if choices else int(self.rng.integers(lo, min(hi, lo + 3) + 1 if hi is not None else lo + 4))
        if v < lo or (hi is not None and v > hi):
            raise Skip(name)
        self.record[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, kind="f"):
        if name in self.given:
            v = self.given[name]
            v = int(v) if kind == "i" else float(v)
        else:
            a = lo if lo is not None else (0.3 if pos else -2.0)
            b = hi if hi is not None else (max(a, 0) + 2.0)
            v = int(self.rng.integers(a, b + 1)) if kind == "i" else float(self.rng.uniform(a, b))
        if pos and not v > 0 or lo is not None and v < lo or hi is not None and v > hi:
            raise Skip(name)
        self.record[name] = v
        return v

    def integer(self, name, lo=0, hi=None):
        return self.real(name, lo=lo, hi=hi if hi is not None else lo + 4, kind="i")

    def choose(self, name, options):
        i = int(self.given[name]) if name in self.given else int(self.rng.integers(0, len(options)))
        i = min(max(i, 0), len(options) - 1)
        self.record[name] = i
        return options[i]

    def boolean(self, name):
        return self.choose(name, [True, False])

    def _out(self, a, lib):
        if (lib or ("torch" if self.backend == "torch" else "np")) == "torch":
            import torch
            return torch.from_numpy(np.array(a))
        return a

    def _override(self, name, a):
        ov = self.given.get("@" + name)
        if ov:
            for k, v in ov.items():
                idx = tuple(int(x) for x in k.split(",")) if k else ()
                if all(0 <= i < n for i, n in zip(idx, a.shape)):
                    a[idx] = v
        self.record["#" + name] = a.tolist()
        return a

    def tensor(self, name, *dims, pos=False, lo=None, hi=None, lib=None, **k):
        a0 = lo if lo is not None else (0.3 if pos else None)
        if a0 is None:
            a = self.rng.normal(size=dims)
        else:
            a = self.rng.uniform(a0, hi if hi is not None else a0 + 2.0, size=dims)
        return self._out(self._override(name, a), lib)

    def indices(self, name, *dims, upper, lib=None, distinct=False):
        if upper < 1:
            raise Skip(name)
        n = int(np.prod(dims))
        if distinct:
            if upper < n:
                raise Skip(name)
            a = self.rng.permutation(upper)[:n].reshape(dims)
        else:
            a = self.rng.integers(0, upper, size=dims)
        return self._out(self._override(name, a.astype(np.int64)), lib)

    def size(self, name):
        v = int(self.rng.choice([0, 0, 1, 2, 3])) if name not in self.given else max(0, int(self.given[name]))
        self.record[name] = v
        return v

    def rows(self, a, start, count):
        return a[start:start + count]

    def spmd(self, size, body, label="distributed run"):
        from . import ranks
        try:
            return ranks.spmd(size, body)
        except ranks.Mismatch as e:
            self.true(False, f"{label} completes ({e})")
            return None
        except ranks.Unmodelled as e:
            raise Skip(str(e))

    def half_integers(self):
        pass

    def attribute(self, owner, name):
        if not hasattr(owner, name):
            raise Skip(f"no {name}")
        return getattr(owner, name)

    def serial(self, body):
        from . import ranks
        return ranks.serial(body)

    def permutation(self, name, b, n):
        a = np.array([self.rng.permutation(n) for _ in range(b)], dtype=np.int64).reshape(b, n)
        a = self._override(name, a)
        if any(sorted(r) != list(range(n)) for r in a.tolist()):
            raise Skip(name)
        return self._out(a, None)

    def reordered(self, a, p):
        return self._out(np.take_along_axis(tonp(a), tonp(p), axis=1), None)

    def selected(self, a, s):
        return self._out(tonp(a)[tonp(s)], None)

    def labels(self, name, n, classes, lib=None):
        if n < classes:
            raise Skip(name)
        vs = sorted(int(x) for x in self.rng.choice(50, size=classes, replace=False))
        a = np.array(vs + [vs[int(i)] for i in self.rng.integers(0, classes, size=n - classes)])
        a = self._override(name, self.rng.permutation(a))
        if sorted(set(a.tolist())) != vs:
            raise Skip(name)
        return self._out(a, lib), vs

    def cov(self, name, batch, inner, lib=None):
        m = int(np.prod(inner))
        b = int(np.prod(batch)) if batch else 1
        X = self.rng.normal(size=(b, m, m + 1))
        A = X @ X.transpose(0, 2, 1) / (m + 1) + 0.5 * np.eye(m)
        A = 0.5 * (A + A.transpose(0, 2, 1))
        A = A.reshape(tuple(batch) + tuple(inner) + tuple(inner))
        self.record["#" + name] = A.tolist()
        return self._out(A, lib)

    def dists(self, name, batch, n, lib=None):
        X = self.rng.uniform(0, 3, size=tuple(batch) + (n, 2))
        A = np.sqrt(((X[..., :, None, :] - X[..., None, :, :]) ** 2).sum(-1))
        self.record["#" + name] = A.tolist()
        return self._out(A, lib)

    def vec(self, items, lib=None):
        return self._out(np.array([num(x) for x in items]), lib)

    def arrayof(self, x, lib=None):
        return self._out(np.array(x), lib)

    def other(self, t, lib):
        return self._out(np.array(tonp(t), copy=True), lib)

    def is_array(self, v, lib):
        return hasattr(v, "shape") and hasattr(v, "detach") == (lib == "torch")

    def same(self, v, w, label, unlike=False):
        self.checks += 1
        if isinstance(v, (tuple, list)) or isinstance(w, (tuple, list)):
            if type(v) is not type(w) or len(v) != len(w):
                return self.bad(label + ": number of results")
            for i, (a, b) in enumerate(zip(v, w)):
                self.same(a, b, f"{label} [{i}]", unlike)
            return
        a, b = tonp(v), tonp(w)
        if a.shape != b.shape:
            return self.bad(label + ": shape", f"{a.shape} and {b.shape}")
        if unlike and a.ndim and hasattr(v, "detach") == hasattr(w, "detach"):
            return self.bad(label + ": array types of the two libraries")
        if a.ndim and a.dtype.kind != b.dtype.kind:
            return self.bad(label + ": element kind", f"{a.dtype} and {b.dtype}")
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            if not self.close(float(x), float(y)):
                return self.bad(label, f"{float(x)!r} and {float(y)!r}")

    def assume(self, cond):
        if not cond:
            raise Skip("assume")

    # ------------------------------------------------------------- spec terms
    def read(self, t):
        return Read(t) if hasattr(t, "shape") and len(getattr(t, "shape")) else t

    def T(self, v):
        return num(v)

    def sum(self, dims, fn):
        dims = dims if isinstance(dims, tuple) else (dims,)
        return sum(fn(*ix) for ix in itertools.product(*[range(d) for d in dims]))

    def _mat(self, dims, fn):
        dims = dims if isinstance(dims, tuple) else (dims,)
        ix = list(itertools.product(*[range(d) for d in dims]))
        one = len(dims) == 1
        M = np.array([[fn(p[0] if one else p, q[0] if one else q) for q in ix] for p in ix], dtype=float)
        return M, {p: i for i, p in enumerate(ix)}

    def inv(self, dims, fn):
        M, pos = self._mat(dims, fn)
        I = np.linalg.inv(M)
        t = lambda p: pos[p if isinstance(p, tuple) else (p,)]
        return lambda p, q: float(I[t(p), t(q)])

    def logdet(self, dims, fn):
        M, _ = self._mat(dims, fn)
        return float(np.linalg.slogdet(M)[1])

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def pow(self, x, y):
        return x ** y

    def fn(self, name, *a):
        if name == "round":
            return float(np.round(a[0]))
        import scipy.special as sp
        return float(getattr(sp, name)(*a))

    def real_const(self, p, q=1):
        return p / q

    def median(self, xs):
        return float(np.median([num(x) for x in xs]))

    @contextlib.contextmanager
    def gradients(self, *roots):
        yield

    def set_parameter(self, p, v):
        p.data.fill_(float(num(v)))

    def differentiable(self, f, params, label):
        """autograd gradients of sum(f()) against central differences"""
        import torch
        self.checks += 1
        for k, p in enumerate(params):
            p.requires_grad_(True)
            g = torch.autograd.grad(f().sum(), p, allow_unused=True)[0]
            flat = p.data.view(-1)
            for j in range(min(3, flat.numel())):
                old, h = float(flat[j]), 1e-5
                flat[j] = old + h
                up = float(f().sum())
                flat[j] = old - h
                dn = float(f().sum())
                flat[j] = old
                fd = (up - dn) / (2 * h)
                got = 0.0 if g is None else float(g.reshape(-1)[j])
                if abs(got - fd) > 1e-3 * (1 + abs(fd)):
                    return self.bad(label, f"gradient {k}[{j}]: got {got!r}, finite difference {fd!r}")

    library = staticmethod(libctx.library)

    @contextlib.contextmanager
    def executed(self):
        import sys
        out = set()

        def prof(frame, event, arg):
            if event == "call":
                m = frame.f_globals.get("__name__", "")
                if libctx.ours(m) and frame.f_code.co_name != "<module>":
                    out.add(m + ":" + frame.f_code.co_name)
        sys.setprofile(prof)
        try:
            yield out
        finally:
            sys.setprofile(None)

    def precision(self, v):
        return str(v.dtype).replace("torch.", "")

    def watch(self, overshoot=False):
        self._choices = []
        real = np.random.mtrand._rand.choice

        def choice(a, size=None, replace=True, p=None):
            r = real(a, size=size, replace=replace, p=p)
            pop = a if np.ndim(a) == 0 else len(a)
            pos = np.array(r, copy=True)
            if np.ndim(a):
                assert len(set(np.asarray(a).tolist())) == pop
            self._choices.append((int(pop), int(np.size(r)), replace, lambda j, pos=pos: int(pos[j])))
            return r
        np.random.choice = choice
        self._opts, self._inside = [], False
        import sys
        import scipy.optimize as so
        import bayes_opt
        real_min, B = so.minimize, bayes_opt.BayesianOptimization

        def minimize(fun, x0, args=(), method=None, bounds=None, **k):
            r = real_min(fun, x0, args=args, method=method, bounds=bounds, **k)
            if self._inside:
                return r
            if overshoot:
                r.x = np.array([self.rng.uniform(lo - 1, hi + 1) for lo, hi in bounds])
            x0c = np.array(x0, dtype=float, copy=True)
            self._opts.append(dict(kind="minimize", fun=fun, x0=x0c, args=args, method=method, bounds=bounds, x=np.array(r.x, copy=True)))
            return r

        class Bayes(B):
            def __init__(s, f=None, pbounds=None, **kw):
                s._pv = dict(kind="bayes", pbounds=dict(pbounds), probes=[], done=[])
                self._opts.append(s._pv)
                super().__init__(f=f, pbounds=pbounds, **kw)

            def probe(s, params, lazy=True):
                if isinstance(params, dict) and lazy:
                    s._pv["probes"].append(dict(params))
                return super().probe(params, lazy=lazy)

            @property
            def max(s):
                r = super().max
                return {**r, "params": dict(s._pv["far"])} if "far" in s._pv else r

            def maximize(s, **k):
                self._inside = True
                super().maximize(**k)
                self._inside = False
                if overshoot:
                    s._pv["far"] = {q: self.rng.uniform(b[0] - 1, b[1] + 1) for q, b in s._pv["pbounds"].items()}
                s._pv["done"].append(dict(f=s._space.target_func, start=s._pv["probes"], best=dict(s.max["params"]), kw=dict(k)))
                s._pv["probes"] = []

        for m in [m for n, m in list(sys.modules.items()) if n.startswith("MuyGPyS") or m in (so, bayes_opt)]:
            for a, v in list(vars(m).items()):
                if v is real_min:
                    setattr(m, a, minimize)
                elif v is B:
                    setattr(m, a, Bayes)
        self._undo = lambda: [setattr(m, a, real_min if v is minimize else B)
                              for n, m in list(sys.modules.items()) if n.startswith("MuyGPyS") or m in (so, bayes_opt)
                              for a, v in list(vars(m).items()) if v is minimize or v is Bayes]

    def count(self, n, fn):
        return sum(1 for i in range(n) if fn(i))

    def floordiv(self, a, b):
        return a // b

    def exists_for_all(self, n, cond, m, fn, label):
        self.true(all(any(fn(i, t) for t in range(m)) for i in range(n) if cond(i)), label)

    def unwatch(self):
        if hasattr(self, "_undo"):
            np.random.choice = np.random.mtrand._rand.choice
            self._undo()

    def runs(self, names):
        out = []
        for e in self._opts:
            if e["kind"] == "minimize":
                if len(e["x0"]) != len(names) or e["bounds"] is None or len(e["bounds"]) != len(names):
                    raise AssertionError("optimizer dimension")
                out.append(dict(method=str(e["method"]), start=dict(zip(names, e["x0"])),
                                bounds={k: tuple(b) for k, b in zip(names, e["bounds"])}, best=dict(zip(names, e["x"])),
                                score=lambda d, e=e: 0 - e["fun"](np.array([num(d[k]) for k in names]), *e["args"])))
            else:
                for r in e["done"]:
                    out.append(dict(method="bayes", start=dict(r["start"][0]) if r["start"] else {}, bounds=dict(e["pbounds"]),
                                    probes=[dict(p) for p in r["start"]], settings=dict(r["kw"]),
                                    best=dict(r["best"]), score=lambda d, r=r: r["f"](**d)))
        return out

    def choices(self):
        return list(self._choices)

    def ite(self, c, a, b):
        return a if c else b

    def ite_int(self, c, a, b):
        return a if c else b

    def eq0(self, a):
        return num(a) == 0.0

    def num(self, x):
        return num(x)

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def eq(self, a, b):
        return num(a) == num(b) or self.close(num(a), num(b))

    def forall(self, dims, fn):
        dims = dims if isinstance(dims, tuple) else (dims,)
        return all(fn(*ix) for ix in itertools.product(*[range(d) for d in dims]))

    # ------------------------------------------------------------- obligations
    def close(self, a, b):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self.atol + self.rtol * max(abs(a), abs(b))

    def bad(self, label, detail=""):
        self.failures.append((label, str(detail)[:400]))

    def true(self, cond, label):
        self.checks += 1
        if hasattr(cond, "shape") and len(cond.shape):
            ok = bool(np.all(tonp(cond)))
        else:
            ok = bool(cond)
        if not ok:
            self.bad(label)

    def scalar(self, v, expected, label):
        self.checks += 1
        try:
            a = np.asarray(tonp(v), dtype=float)
        except Exception as e:
            return self.bad(label + ": is a number", e)
        if a.size != 1:
            return self.bad(label + ": is a single number", a.shape)
        if not self.close(float(a.reshape(-1)[0]), num(expected)):
            self.bad(label, f"got {float(a.reshape(-1)[0])!r}, specified {num(expected)!r}")

    def arr(self, v, dims, fn, label, lib=None, kind=None, each=None):
        self.checks += 1
        want_torch = (lib or ("torch" if self.backend == "torch" else "np")) == "torch"
        if lib != "any" and len(dims):
            if want_torch != hasattr(v, "detach"):
                return self.bad(label + ": array type of the backend", type(v).__name__)
        if not hasattr(v, "shape") and len(dims):
            return self.bad(label + ": is an array", type(v).__name__)
        a = tonp(v)
        if kind and a.dtype.kind != {"f": "f", "i": "i", "b": "b"}[kind]:
            return self.bad(label + ": element kind", a.dtype)
        shape = tuple(int(np.prod(d)) if isinstance(d, tuple) else int(d) for d in dims)
        if a.shape != shape:
            return self.bad(label + ": shape", f"got {a.shape}, specified {shape}")
        sub = [list(itertools.product(*[range(x) for x in d])) if isinstance(d, tuple) else list(range(d)) for d in dims]
        for ix in itertools.product(*[range(n) for n in shape]):
            want = fn(*[s[i] for s, i in zip(sub, ix)])
            got = a[ix]
            if isinstance(want, (bool, np.bool_)):
                ok = bool(got) == bool(want)
            else:
                ok = self.close(float(got), num(want))
            if not ok:
                return self.bad(label, f"at {ix}: got {got!r}, specified {want!r}")

    def unchanged(self, t, snap, label):
        self.checks += 1
        a = tonp(t)
        b = snap.a if isinstance(snap, Read) else np.asarray(snap)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
            self.bad(label, "the array was modified")

    def raises(self, fn, *a, exc=Exception, label="raises", **k):
        self.checks += 1
        try:
            fn(*a, **k)
        except exc:
            return True
        self.bad(label, "no exception")
        return False

    def fail(self, label):
        self.checks += 1
        self.bad(label)

    def shape(self, v, dims, label):
        self.checks += 1
        if tuple(int(x) for x in v.shape) != tuple(int(d) for d in dims):
            self.bad(label + ": shape", f"got {tuple(v.shape)}, specified {tuple(dims)}")
