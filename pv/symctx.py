"""Symbolic (proof) mode of the contract context."""
import contextlib
import itertools
import math

from . import sym, tensor, terms as tm, smt, shims, loader, libctx, ranks
from .sym import Sym, SymBool, Unsupported, cur, scalar, ti, wrap, wrapb
from .tensor import Tensor, ZERO, ONE


class Read:
    """pre-state snapshot of an array, for use in specifications"""

    def __init__(self, t):
        self.axes, self.g, self.kind = t.axes, t.getter(), t.kind

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) != len(self.axes):
            raise AssertionError("specification reads a tensor with the wrong rank")
        comps = []
        for k, ax in zip(key, self.axes):
            if isinstance(k, tuple):
                k = tm.lin([ti(x) for x in k], ax)
            else:
                k = ti(k)
            comps.append(tensor.comps_of(k, ax))
        t = self.g(tuple(comps))
        return wrapb(t) if t.sort == "B" else Sym(t, "i" if self.kind == "i" else "f")


class SymCtx:
    symbolic = True

    def __init__(self, backend, params=None):
        self.backend = backend
        self.cls = shims.TorchT if backend == "torch" else shims.NpT
        self.inputs = []
        self.assumed = []

    # ------------------------------------------------------------- inputs
    def dim(self, name, lo=1, hi=None, choices=None):
        v = tm.var(name, "I")
        cur().assume(tm.le(tm.num(lo), v))
        if hi is not None:
            cur().assume(tm.le(v, tm.num(hi) if not isinstance(hi, Sym) else hi.t))
        self.inputs.append(("dim", name))
        return Sym(v, "i")

    def real(self, name, lo=None, hi=None, pos=False, kind="f"):
        v = tm.var(name, "R" if kind == "f" else "I")
        if pos:
            cur().assume(tm.lt(ZERO, v))
        if lo is not None:
            cur().assume(tm.le(scalar(lo)[0], v))
        if hi is not None:
            cur().assume(tm.le(v, scalar(hi)[0]))
        self.inputs.append(("real", name))
        return Sym(v, kind)

    def integer(self, name, lo=0, hi=None):
        return self.real(name, lo=lo, hi=hi, kind="i")

    def choose(self, name, options):
        """nondeterministic choice among finitely many program values"""
        self.inputs.append(("choose", name))
        for i, o in enumerate(options[:-1]):
            if cur().branch(tm.eq(tm.var(name, "I"), tm.num(i))):
                return o
        return options[-1]

    def boolean(self, name):
        return self.choose(name, [True, False])

    def _mk(self, name, dims, kind, facts, symg, lib):
        tm.declare(name, "I" if kind == "i" else "R", sym=symg, facts=facts)
        ds = tuple(ti(d) for d in dims)
        cls = {"np": shims.NpT, "torch": shims.TorchT, None: self.cls}[lib]

        def fn(idx):
            return tm.app(name, *[c for g, d in zip(idx, ds) for c in g])

        self.inputs.append(("tensor", name))
        return cls(tuple((d,) for d in ds), fn, kind)

    def tensor(self, name, *dims, pos=False, lo=None, hi=None, lib=None, **k):
        def facts(*args):
            a = tm.app(name, *args)
            out = []
            if pos:
                out.append(tm.lt(ZERO, a))
            if lo is not None:
                out.append(tm.le(scalar(lo)[0], a))
            if hi is not None:
                out.append(tm.le(a, scalar(hi)[0]))
            return out
        return self._mk(name, dims, "f", facts, None, lib)

    def indices(self, name, *dims, upper, lib=None, distinct=False):
        u = ti(upper)

        def facts(*args):
            a = tm.app(name, *args)
            return [tm.le(ZERO, a), tm.lt(a, u)]
        r = self._mk(name, dims, "i", facts, None, lib)
        tm.UFS[name].inj = 0 if distinct else None
        return r

    def permutation(self, name, b, n):
        """for every i < b a bijection of [0, n), as an index array (b, n)"""
        r = self.indices(name, b, n, upper=n)
        tm.UFS[name].inj = 1
        tm.UFS[name].perm = ti(n)
        return r

    def reordered(self, a, p):
        """a[i, p[i, j]] of an index array"""
        g, q = a.getter(), p.getter()
        return type(a)(a.axes, lambda idx: g((idx[0], tensor.comps_of(q(idx), a.axes[1]))), a.kind)

    def selected(self, a, s):
        """rows s of an index array"""
        g, q = a.getter(), s.getter()
        return type(a)(s.axes + a.axes[1:], lambda idx: g((tensor.comps_of(q(idx[:1]), a.axes[0]),) + tuple(idx[1:])), a.kind)

    # ------------------------------------------------------------- processes
    def size(self, name):
        """an extent that may be zero"""
        v = tm.var(name, "I")
        tm.SIZES.add(v)
        cur().assume(tm.le(ZERO, v))
        self.inputs.append(("dim", name))
        return Sym(v, "i")

    def rows(self, a, start, count):
        """rows start .. start + count of an array"""
        g, o = a.getter(), ti(start)
        ax = (ti(count),)
        return type(a)((ax,) + a.axes[1:], lambda idx: g((tensor.comps_of(tm.add(o, tm.lin(idx[0], ax)), a.axes[0]),) + tuple(idx[1:])), a.kind)

    def spmd(self, size, body, label="distributed run"):
        """body(rank) on every process; None if they cannot all finish"""
        try:
            return ranks.spmd(size, body)
        except ranks.Mismatch as e:
            self.oblig(f"{label} completes ({e})", tm.FALSE)
            return None
        except ranks.Unmodelled as e:
            raise Unsupported(str(e))

    def attribute(self, owner, name):
        """an internal function that need not exist"""
        if not hasattr(owner, name):
            raise Unsupported(f"no {name}")
        return getattr(owner, name)

    def serial(self, body):
        return ranks.serial(body)

    def cov(self, name, batch, inner, lib=None):
        """batch of symmetric (positive definite) matrices, shape batch+inner+inner"""
        nb, k = len(batch), len(inner)
        g = [(tuple(range(nb, nb + k)), tuple(range(nb + k, nb + 2 * k)))]
        return self._mk(name, tuple(batch) + tuple(inner) + tuple(inner), "f", None, g, lib)

    def dists(self, name, batch, n, lib=None):
        """symmetric nonnegative matrices (pairwise distances)"""
        nb = len(batch)
        return self._mk(name, tuple(batch) + (n, n), "f", lambda *a: [tm.le(ZERO, tm.app(name, *a))],
                        [((nb,), (nb + 1,))], lib)

    def vec(self, items, lib=None):
        cls = {"np": shims.NpT, "torch": shims.TorchT, None: self.cls}[lib]
        return tensor.asarr(list(items), cls=cls)

    def arrayof(self, x, lib=None):
        cls = {"np": shims.NpT, "torch": shims.TorchT, None: self.cls}[lib]
        return tensor.asarr(x, cls=cls)

    def other(self, t, lib):
        """the same entries as an array of the other library"""
        cls = {"np": shims.NpT, "torch": shims.TorchT}[lib]
        g = t.getter()
        return cls(t.axes, g, t.kind)

    def is_array(self, v, lib):
        return isinstance(v, {"np": shims.NpT, "torch": shims.TorchT}[lib])

    def same(self, v, w, label, unlike=False):
        """two results are equal: shape and every entry (unlike: as arrays of different libraries)"""
        if isinstance(v, (tuple, list)) or isinstance(w, (tuple, list)):
            self.oblig(label + ": number of results", tm.boolc(type(v) is type(w) and len(v) == len(w)))
            for i, (a, b) in enumerate(zip(v, w)):
                self.same(a, b, f"{label} [{i}]", unlike)
            return
        if isinstance(w, tensor.MaskedView):
            w = w.array()
        if not isinstance(w, Tensor) or w.ndim == 0:
            if isinstance(v, Tensor) and v.ndim:
                self.oblig(label + ": rank", tm.FALSE)
                return
            self.scalar(v, w._item() if isinstance(w, Tensor) else w, label)
            return
        r = Read(w)
        dims = [wrap(a[0], "i") if len(a) == 1 else tuple(wrap(x, "i") for x in a) for a in w.axes]
        if unlike:
            self.oblig(label + ": array types of the two libraries", tm.boolc(isinstance(v, Tensor) and type(v) is not type(w)))
        self.arr(v, dims, lambda *k: r[k], label, lib="any")
        if isinstance(v, Tensor):
            self.oblig(label + ": element kind", tm.boolc(v.kind == w.kind))

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise sym.Infeasible()
        cur().assume(cond.t)

    # ------------------------------------------------------------- spec terms
    def read(self, t):
        if isinstance(t, tensor.MaskedView):
            t = t.array()
        if isinstance(t, Tensor):
            return Read(t)
        return t

    def T(self, v):
        if isinstance(v, Tensor):
            if v.ndim == 0 or all(a == (ONE,) for a in v.axes):
                v = v._item()
            else:
                raise AssertionError("array used as a scalar in a specification")
        s = scalar(v)
        if s is None:
            if isinstance(v, SymBool):
                return v.t
            raise AssertionError(f"specification value {v!r}")
        return s[0]

    def sum(self, dims, fn):
        dims = dims if isinstance(dims, tuple) else (dims,)
        vs = [tm.fresh("s") for _ in dims]
        rng = [ti(d) for d in dims]
        body = self.T(fn(*[Sym(v, "i") for v in vs]))
        return Sym(tm.mk_sum(rng, vs, body), "f")

    def _mat(self, name, dims, fn):
        dims = dims if isinstance(dims, tuple) else (dims,)
        ds = [ti(d) for d in dims]
        rows = [ZERO if d is ONE else tm.fresh("r") for d in ds]
        cols = [ZERO if d is ONE else tm.fresh("c") for d in ds]
        w = lambda v: wrap(v, "i")
        if len(ds) == 1:
            body = self.T(fn(w(rows[0]), w(cols[0])))
        else:
            body = self.T(fn(tuple(map(w, rows)), tuple(map(w, cols))))
        keep = [i for i, d in enumerate(ds) if d is not ONE]
        rng = tuple(ds[i] for i in keep)
        return name, (rng, rng), (tuple(rows[i] for i in keep), tuple(cols[i] for i in keep)), body, keep

    def inv(self, dims, fn):
        name, rng, vs, body, keep = self._mat("inv", dims, fn)

        def e(p, q):
            p = p if isinstance(p, tuple) else (p,)
            q = q if isinstance(q, tuple) else (q,)
            args = tuple(ti(p[i]) for i in keep) + tuple(ti(q[i]) for i in keep)
            return Sym(tm.mk_mat("inv", rng, vs, body, args), "f")
        return e

    def logdet(self, dims, fn):
        name, rng, vs, body, keep = self._mat("logdet", dims, fn)
        return Sym(tm.mk_mat("logdet", rng, vs, body), "f")

    def exp(self, x):
        return Sym(tm.exp(self.T(x)), "f")

    def log(self, x):
        return Sym(tm.log(self.T(x)), "f")

    def sqrt(self, x):
        return Sym(tm.sqrt(self.T(x)), "f")

    def pow(self, x, y):
        return Sym(tm.pow_(self.T(x), self.T(y)), "f")

    def half_integers(self):
        """use the elementary values of Gamma and K_nu at half-integers"""
        tm.ELEMENTARY[0] = True

    def fn(self, name, *a):
        return Sym(tm.reapp(name, tuple(self.T(x) for x in a)), "f")

    def real_const(self, p, q=1):
        from fractions import Fraction
        return Sym(tm.num(Fraction(p, q)), "f")

    def median(self, xs):
        return Sym(tensor.small_order([self.T(x) for x in xs], "median"), "f")

    def choices(self):
        """index sets drawn by numpy.random.choice so far: (population, size, replace, index function)"""
        out = []
        for e in shims.EVENTS:
            if e["kind"] == "choice":
                out.append((wrap(e["n"], "i"), wrap(e["m"], "i"), e["replace"],
                            lambda j, e=e: Sym(tm.app(e["name"], ti(j)), "i")))
        return out

    def queries(self):
        """nearest-neighbor library calls so far: library object, indexed data, query points, count, indices, distances"""
        return [dict(lib=e["obj"], data=Read(e["obj"].Xcopy), points=Read(e["Q"]), count=wrap(ti(e["k"]), "i"),
                     indices=Read(e["I"]), dists=Read(e["D"])) for e in shims.EVENTS if e["kind"] == "nn_query"]

    def labels(self, name, n, classes, lib=None):
        """class labels with exactly the given number of distinct (arbitrary) values; returns (array, values ascending)"""
        vs = [tm.var(f"{name}.class{i}", "I") for i in range(classes)]
        for a, b in zip(vs, vs[1:]):
            cur().assume(tm.lt(a, b))
        r = self._mk(name, (n,), "i", lambda i: [tm.or_(*[tm.eq(tm.app(name, i), v) for v in vs])], None, lib)
        for i, v in enumerate(vs):
            w = tm.var(f"{name}.witness{i}", "I")
            cur().assume(tm.and_(tm.le(ZERO, w), tm.lt(w, ti(n)), tm.eq(tm.app(name, w), v)))
        shims.CLASSES_OF[tm.app(name, tm.var("unique?", "I"))] = vs
        return r, [Sym(v, "i") for v in vs]

    def function(self, name, arity, kind="f", facts=None):
        """an arbitrary function of integer arguments"""
        f = None if facts is None else (lambda *a: [facts(*[wrap(x, "i") for x in a]).t])
        tm.declare(name, "I" if kind == "i" else "R", facts=f)

    def call(self, name, *a):
        return Sym(tm.app(name, *[ti(x) for x in a]), "i" if tm.UFS[name].sort == "I" else "f")

    def build(self, dims, fn, kind="f", lib=None):
        """an array given by its entries"""
        cls = {"np": shims.NpT, "torch": shims.TorchT, None: self.cls}[lib]
        return cls(tuple((ti(d),) for d in dims), lambda idx: self.T(fn(*[wrap(x[0], "i") for x in idx])), kind)

    def count(self, n, fn):
        """how many i < n satisfy fn: the size of a selection made with an equivalent test"""
        i = tm.fresh("k")
        want = fn(Sym(i, "i")).t
        inr = (tm.le(ZERO, i), tm.lt(i, ti(n)))
        ctx = tuple(cur().pc) + inr
        same = []
        for e in tensor.SELECTED:
            if e["n"] is ti(n):
                t = e["test"](i)
                if smt.prove(want, ctx + (t,), 3000) and smt.prove(t, ctx + (want,), 3000):
                    same.append(e["m"])
        if same:
            for m in same[1:]:      # equivalent tests select equally many
                cur().assume(tm.eq(m, same[0]))
            return Sym(same[0], "i")
        return Sym(tm.mk_sum([ti(n)], [i], tm.ite(want, ONE, ZERO)), "i")

    def floordiv(self, a, b):
        return a // b

    def exists_for_all(self, n, cond, m, fn, label):
        """for all i < n with cond(i) there is t < m with fn(i, t); witnesses are looked
        for among the inverse positions of the selections made"""
        i = tm.fresh("k")
        si = Sym(i, "i")
        c = cond(si)
        facts = [tm.le(ZERO, i), tm.lt(i, ti(n)), c.t if isinstance(c, SymBool) else tm.boolc(c)]
        alts = []
        for e in tensor.SELECTED:
            w = tm.app(e["rank"], i)
            alts.append(tm.and_(tm.le(ZERO, w), tm.lt(w, ti(m)), fn(si, Sym(w, "i")).t))
        self.oblig(label, tm.or_(*alts) if alts else tm.FALSE, facts)

    def runs(self, names):
        """optimizer runs so far, each with: start, bounds, best (by name), method and
        score (by-name candidate values -> the quantity the optimizer maximizes)"""
        out = []
        for e in shims.EVENTS:
            if e["kind"] == "minimize":
                n = int(tm.nval(tensor.axsize(e["x0"].axes[0])))
                if n != len(names) or e["bounds"] is None or len(e["bounds"]) != n:
                    raise AssertionError("optimizer dimension")
                out.append(dict(
                    method=str(e["method"]),
                    start={k: e["x0"][i] for i, k in enumerate(names)},
                    bounds={k: (e["bounds"][i][0], e["bounds"][i][1]) for i, k in enumerate(names)},
                    best={k: Sym(e["x"][i], "f") for i, k in enumerate(names)},
                    score=lambda d, e=e: 0 - e["fun"](self.vec([d[k] for k in names], lib="np"), *e["args"])))
            elif e["kind"] == "bayes":
                o = e["opt"]
                for r in o.done:
                    out.append(dict(method="bayes", start=dict(r["start"][0]) if r["start"] else {}, bounds=dict(o.pbounds),
                                    probes=[dict(p) for p in r["start"]], settings=dict(r["kw"]),
                                    best=dict(r["best"]), score=lambda d, r=r: r["f"](**d)))
        return out

    @contextlib.contextmanager
    def gradients(self, *roots):
        """within: values cut off from the roots (detach, float, item, torch.tensor)
        are opaque, so a specification that holds also shows the gradient path"""
        names = set()
        for r in roots:
            t = r.getter()(tensor.zero_idx(r.axes)) if isinstance(r, Tensor) else ti(r)
            names |= {x.args[0] for x in tm.all_subterms(t) if x.op in ("var", "app")}
        tensor.GRAD.clear()
        tensor.GRAD.update(names)
        try:
            yield
        finally:
            tensor.GRAD.clear()

    def set_parameter(self, p, v):
        """in-place update of a trainable parameter, as an optimizer step does"""
        p.fill(v)

    def differentiable(self, f, params, label):
        """concrete counterpart of gradients()"""

    library = staticmethod(libctx.library)

    @contextlib.contextmanager
    def executed(self):
        """names module:function of the library executed inside"""
        out, before = set(), dict(loader.CALLS)
        yield out
        out |= {k for k, n in loader.CALLS.items() if n > before.get(k, 0)}

    def precision(self, v):
        d = getattr(v, "dt", None)
        if d is None:
            raise Unsupported("element type of a computed array")
        return d

    def watch(self, overshoot=False):
        """start recording external calls; overshoot: optimizers need not respect their bounds"""
        if overshoot:
            shims.OVERSHOOT.append(True)

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        return Sym(tm.ite(c.t, self.T(a), self.T(b)), "f")

    def ite_int(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        return Sym(tm.ite(c.t, self.T(a), self.T(b)), "i")

    def eq0(self, a):
        return wrapb(tm.eq(self.T(a), ZERO))

    def num(self, x):
        return Sym(self.T(x), "f")

    def and_(self, *cs):
        return wrapb(tm.and_(*[c.t if isinstance(c, SymBool) else tm.boolc(c) for c in cs]))

    def or_(self, *cs):
        return wrapb(tm.or_(*[c.t if isinstance(c, SymBool) else tm.boolc(c) for c in cs]))

    def not_(self, c):
        return wrapb(tm.not_(c.t)) if isinstance(c, SymBool) else not c

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def eq(self, a, b):
        return wrapb(tm.eq(self.T(a), self.T(b)))

    def forall(self, dims, fn):
        dims = dims if isinstance(dims, tuple) else (dims,)
        vs = [tm.fresh("q") for _ in dims]
        r = fn(*[Sym(v, "i") for v in vs])
        r = r.t if isinstance(r, SymBool) else tm.boolc(r)
        return wrapb(tm.mk_forall([ti(d) for d in dims], vs, r))

    # ------------------------------------------------------------- obligations
    def oblig(self, label, goal, ctx=()):
        cur().obligations.append((label, goal, tuple(cur().pc) + tuple(ctx)))

    def true(self, cond, label):
        if isinstance(cond, SymBool):
            t = cond.t
        elif isinstance(cond, Tensor):
            t = tensor.truth(cond._item().t if not isinstance(cond._item(), bool) else tm.boolc(cond._item()))
        else:
            t = tm.boolc(bool(cond))
        self.oblig(label, t)

    def scalar(self, v, expected, label):
        if isinstance(v, Tensor):
            for ax in v.axes:
                self.oblig(label + ": is a single number", tm.eq(tensor.axsize(ax), ONE))
            t = v.elem(tensor.zero_idx(v.axes))
        else:
            s = scalar(v)
            if s is None:
                self.oblig(label + f": is a number, got {type(v).__name__}", tm.FALSE)
                return
            t = s[0]
        self.oblig(label, tm.eq(t, self.T(expected)))

    def arr(self, v, dims, fn, label, lib=None, kind=None, each=None):
        """each: an axis of literal extent, checked index by index"""
        cls = {"np": shims.NpT, "torch": shims.TorchT, None: self.cls}[lib] if lib != "any" else Tensor
        if isinstance(v, tensor.MaskedView):
            v = v.array()
        if not isinstance(v, Tensor):
            if scalar(v) is not None and len(dims) == 0:
                self.oblig(label, tm.eq(scalar(v)[0], self.T(fn())))
                return
            self.oblig(label + f": is an array, got {type(v).__name__}", tm.FALSE)
            return
        if not isinstance(v, cls):
            self.oblig(label + f": array type of the backend", tm.FALSE)
        if kind is not None and v.kind != kind:
            self.oblig(label + f": element kind {kind}", tm.FALSE)
        if v.ndim != len(dims):
            self.oblig(label + f": rank {len(dims)} (is {v.ndim})", tm.FALSE)
            return
        vals = [None] if each is None else range(dims[each])
        if each is not None:
            self.oblig(label + f": extent of axis {each}", tm.eq(tensor.axsize(v.axes[each]), tm.num(dims[each])))
        for at in vals:
            self._arr(v, dims, fn, label, each, at)

    def _arr(self, v, dims, fn, label, each, at):
        lins, specs, facts = [], [], []
        for i, (ax, d) in enumerate(zip(v.axes, dims)):
            if i == each:
                lins.append(tm.num(at))
                specs.append(at)
                continue
            atoms = tuple(ti(x) for x in d) if isinstance(d, tuple) else (ti(d),)
            g = tm.eq(tensor.axsize(ax), tensor.axsize(atoms))
            self.oblig(label + f": extent of axis {i}", g)
            facts.append(g)
            cs = []
            for a in atoms:
                if a is ONE:
                    cs.append(ZERO)
                else:
                    k = tm.fresh("k")
                    facts += [tm.le(ZERO, k), tm.lt(k, a)]
                    cs.append(k)
            lins.append(tm.lin(cs, atoms))
            specs.append(tuple(wrap(c, "i") for c in cs) if isinstance(d, tuple) else wrap(cs[0], "i"))
        # facts hold while reading (value-level case splits happen under them)
        mark = len(cur().pc)
        for f in facts:
            cur().pc.append(f)
        try:
            got = v.at(*lins)
            want = self.T2(fn(*specs))
            self.oblig(label if at is None else f"{label} [{at}]", tm.eq(got, want))
        finally:
            del cur().pc[mark:mark + len(facts)]

    def T2(self, v):
        if isinstance(v, SymBool):
            return v.t
        if isinstance(v, bool):
            return tm.boolc(v)
        return self.T(v)

    def unchanged(self, t, snap, label):
        """t still holds what the snapshot (c.read before the call) held"""
        r = Read(t)
        ks, facts = [], []
        for ax in snap.axes:
            cs = []
            for a in ax:
                k = ZERO if a is ONE else tm.fresh("k")
                if k is not ZERO:
                    facts += [tm.le(ZERO, k), tm.lt(k, a)]
                cs.append(k)
            ks.append(tuple(cs))
        if t.axes != snap.axes:
            self.oblig(label + ": shape", tm.boolc(len(t.axes) == len(snap.axes)))
        self.oblig(label, tm.eq(r.g(tuple(ks)), snap.g(tuple(ks))), facts)

    def raises(self, fn, *a, exc=Exception, label="raises", **k):
        try:
            fn(*a, **k)
        except exc:
            self.oblig(label, tm.TRUE)
            return True
        self.oblig(label, tm.FALSE)
        return False

    def fail(self, label):
        self.oblig(label, tm.FALSE)

    def shape(self, v, dims, label):
        for i, (a, d) in enumerate(zip(v.shape, dims)):
            self.oblig(f"{label}: extent {i}", tm.eq(ti(a), ti(d)))
        if len(v.shape) != len(dims):
            self.oblig(f"{label}: rank", tm.FALSE)
