"""Hash-consed term language of the verifier.

Terms are integers / reals / booleans over variables, uninterpreted (array and
special-function) applications, and binders (finite sums, matrix inverses,
log-determinants, ...).  Arithmetic is kept in polynomial normal form, sums in
a linear, factored normal form.  Everything here is a *sound rewriting*: each
smart constructor returns a term equal to the mathematical object asked for,
under the conventions 1/0 = 0 and real arithmetic for floats.
"""
from fractions import Fraction
import itertools
import sys

sys.setrecursionlimit(20000)

_tab = {}
_cnt = itertools.count()
EMPTY = frozenset()


class T:
    __slots__ = ("op", "args", "sort", "id", "h", "fv", "fb", "__weakref__")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        raise TypeError("terms are not picklable")


def _subterms(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _subterms(y)


def all_subterms(t):
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        work.extend(_subterms(x.args))


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op, t.args, t.sort, t.id = op, args, sort, next(_cnt)
    h = 0
    fv = EMPTY
    fb = EMPTY
    for s in _subterms(args):
        if s.h > h:
            h = s.h
        if s.fv:
            fv = fv | s.fv
        if s.fb:
            fb = fb | s.fb
    if op == "bind":
        h = args[4]
        fb = frozenset(b for b in fb if b.args[0] != h)
    if op == "var":
        fv = frozenset((t,))
    if op == "bv":
        fb = frozenset((t,))
    t.h, t.fv, t.fb = h, fv, fb
    _tab[key] = t
    return t


# ---------------------------------------------------------------- leaves
def num(c):
    if isinstance(c, bool):
        c = int(c)
    c = Fraction(c)
    return mk("num", (c,), "I" if c.denominator == 1 else "R")


ZERO, ONE = num(0), num(1)
TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
_fresh = itertools.count()


def var(name, sort):
    return mk("var", (name,), sort)


def fresh(prefix="k", sort="I"):
    return var(f"{prefix}!{next(_fresh)}", sort)


def bv(h, k, sort="I"):
    return mk("bv", (h, k), sort)


def is_num(t):
    return t.op == "num"


def nval(t):
    return t.args[0]


# ---------------------------------------------------------------- UF registry
class UF:
    def __init__(self, name, sort, sym=None, facts=None):
        self.name, self.sort, self.sym, self.facts = name, sort, sym, facts
        self.inj = None  # k: distinct arguments after the first k give distinct values
        self.perm = None  # n: a bijection of [0, n) in the last argument, for every value of the others


UFS = {}


def declare(name, sort, sym=None, facts=None):
    u = UF(name, sort, sym, facts)
    UFS[name] = u
    return u


def app(name, *args):
    u = UFS[name]
    args = tuple(args)
    if u.sym:
        a = list(args)
        for grp in u.sym:  # grp: tuple of equal-length position tuples
            vals = sorted(
                (tuple(a[p] for p in g) for g in grp),
                key=lambda tup: tuple(x.id for x in tup),
            )
            for g, v in zip(grp, vals):
                for p, x in zip(g, v):
                    a[p] = x
        args = tuple(a)
    return mk("app", (name,) + args, u.sort)


for _n in ("exp", "log", "sqrt", "gamma", "pow", "kv", "sin", "cos", "tan",
           "arctan2", "round"):
    declare(_n, "R")
declare("detached", "R")
declare("pi", "R", facts=lambda: [lt(ZERO, pi())])


# ---------------------------------------------------------------- polynomials
def _pd(t):
    if t.op == "inf":
        raise TooBig("infinite value in arithmetic")
    if t.op == "num":
        c = t.args[0]
        return {(): c} if c else {}
    if t.op == "poly":
        return dict(t.args)
    assert t.sort != "B", f"boolean in arithmetic: {t!r}"
    return {((t, 1),): Fraction(1)}


def _fromd(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(
        sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    )
    integral = all(c.denominator == 1 for _, c in items) and all(
        a.sort == "I" for m, _ in items for a, _ in m
    )
    return mk("poly", items, "I" if integral else "R")


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _pd(t).items():
            d[m] = d.get(m, 0) + c
    return _fromd(d)


def _mm(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    inverses = False
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
        inverses |= a.op == "recip"
    if inverses:  # x^e x^-f = x^(e-f) for e != f, also at x = 0 (1/0 = 0); x^e x^-e = x x^-1
        for a in list(d):
            if a.op == "recip" and a.args[0] in d:
                e, f = d[a.args[0]], d[a]
                d[a.args[0]], d[a] = (1, 1) if e == f else (max(e - f, 0), max(f - e, 0))
    return tuple(
        sorted(((a, 1 if a.op == "ite" and a.args[1] is ONE and a.args[2] is ZERO else e) for a, e in d.items() if e),
               key=lambda ae: ae[0].id)
    )


MAXMONO = 4000


def _mul2(a, b):
    da, db = _pd(a), _pd(b)
    if len(da) * len(db) > MAXMONO:
        raise TooBig()
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _fromd(_meet(d))


def _meet(d):
    """[x = y] f(y) is written [x = y] f(x), x the older of two indices"""
    bad = None
    for m in d:
        if len(m) < 2:
            continue
        for a, _ in m:
            if a.op == "ite" and a.args[1] is ONE and a.args[2] is ZERO and a.args[0].op == "eq0":
                e = _index_equality(a.args[0])
                if e is not None and any(o is not a and (e[1] in o.fv or e[1] in o.fb) for o, _ in m):
                    bad = bad or []
                    bad.append((m, a, e))
                    break
    if bad is None:
        return d
    d = dict(d)
    for m, a, (x, y) in bad:
        v = num(d.pop(m))
        for o, e in m:
            if o is not a:
                v = _mul2(v, ipow(replace(o, {y: x}), e))
        for n, k in _pd(_mul2(v, a)).items():
            d[n] = d.get(n, 0) + k
    return d


class TooBig(Exception):
    pass


def mul(*ts):
    r = ONE
    for t in ts:
        r = _mul2(r, t)
    return r


def neg(t):
    return _mul2(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def ipow(t, k):
    r = ONE
    for _ in range(k):
        r = _mul2(r, t)
    return r


def recip(t):
    if is_num(t):
        return num(1 / nval(t)) if nval(t) else ZERO
    d = _pd(t)
    if len(d) == 1:
        (m, c), = d.items()
        r = num(1 / c)
        for a, e in m:
            if a.op == "recip":
                r = _mul2(r, ipow(a.args[0], e))
            else:
                r = _mul2(r, _fromd({((mk("recip", (a,), "R"), e),): Fraction(1)}))
        return r
    # factor the leading coefficient out
    lead = next(iter(t.args))[1]
    if lead != 1:
        return _mul2(num(1 / lead), recip(_mul2(num(1 / lead), t)))
    return mk("recip", (t,), "R")


def div(a, b):
    return _mul2(a, recip(b))


def sqrt(t):
    if is_num(t) and nval(t) >= 0:
        import math
        p, q = nval(t).numerator, nval(t).denominator
        rp, rq = math.isqrt(p), math.isqrt(q)
        if rp * rp == p and rq * rq == q:
            return num(Fraction(rp, rq))
    return app("sqrt", t)


def exp(t):
    if t is ZERO:
        return ONE
    return app("exp", t)


def log(t):
    if t is ONE:
        return ZERO
    return app("log", t)


def pow_(a, b):
    if is_num(b):
        e = nval(b)
        if e.denominator == 1 and abs(e) <= 12:
            e = int(e)
            return ipow(a, e) if e >= 0 else recip(ipow(a, -e))
        if e.denominator == 2 and abs(e) <= 12:
            k = int(e - Fraction(1, 2))
            return _mul2(sqrt(a), ipow(a, k)) if e > 0 else recip(_mul2(sqrt(a), ipow(a, -k - 1)))
    return app("pow", a, b)


ELEMENTARY = [False]  # whether a contract uses the elementary values of Gamma and K_nu


def _half(t):
    """k for k + 1/2, a half-integer of moderate size"""
    if ELEMENTARY[0] and is_num(t) and nval(t).denominator == 2 and 0 < nval(t) < 8:
        return int(nval(t) - Fraction(1, 2))


def pi():
    return app("pi")


def gamma(x):
    """Gamma(1/2) = sqrt(pi), Gamma(x + 1) = x Gamma(x)"""
    k = _half(x)
    if k is None:
        return app("gamma", x)
    r = sqrt(pi())
    for i in range(k):
        r = _mul2(num(Fraction(2 * i + 1, 2)), r)
    return r


def kv(nu, x):
    """K_1/2(x) = sqrt(pi / 2x) exp(-x), K_{v+1}(x) = K_{v-1}(x) + (2v/x) K_v(x)"""
    k = _half(nu)
    if k is None:
        return app("kv", nu, x)
    a = _mul2(_mul2(sqrt(pi()), recip(_mul2(sqrt(num(2)), sqrt(x)))), exp(neg(x)))
    last = now = a  # K_-1/2 = K_1/2
    for i in range(k):
        last, now = now, add(last, _mul2(_mul2(num(2 * i + 1), recip(x)), now))
    return now


def fdiv(a, b):
    """integer floor division, b > 0"""
    if is_num(a) and is_num(b) and nval(b) != 0:
        return num(nval(a) // nval(b))
    if b is ONE:
        return a
    if a.op == "lin":
        comps, dims = a.args
        if dims[-1] is b:
            return lin(comps[:-1], dims[:-1])
    return mk("idiv", (a, b), "I")


def fmod(a, b):
    if is_num(a) and is_num(b) and nval(b) != 0:
        return num(nval(a) % nval(b))
    if b is ONE:
        return ZERO
    if a.op == "lin":
        comps, dims = a.args
        if dims[-1] is b:
            return comps[-1]
    return mk("imod", (a, b), "I")


def lin(comps, dims):
    """row-major linear index of in-range components"""
    comps, dims = tuple(comps), tuple(dims)
    keep = [(c, d) for c, d in zip(comps, dims) if d is not ONE]
    if not keep:
        return ZERO
    if len(keep) == 1:
        return keep[0][0]
    if all(is_num(c) for c, _ in keep) and all(is_num(d) for _, d in keep[1:]):
        r = 0
        for c, d in keep:
            r = r * (nval(d) if is_num(d) else 1) + nval(c)
        return num(r)
    return mk("lin", (tuple(c for c, _ in keep), tuple(d for _, d in keep)), "I")


def lin_expand(t):
    r = ZERO
    for c, d in zip(*t.args):
        r = add(mul(r, d), c)
    return r


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == "inf" or b.op == "inf":
        raise TooBig("conditionally infinite value")
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    a = _under_equalities(c, a)
    if a is b:
        return a
    e = _index_equality(c)
    if e is not None and b is not ZERO:
        # where two indices coincide, the value differs from the general one by:
        x, y = e
        return add(b, ite(c, sub(a, replace(b, {y: x})), ZERO))
    if b is ZERO and a.sort == "R" and (e is not None and c.op == "eq0" or not (a.fv & c.fv) and not (a.fb & c.fb)):
        return mul(a, mk("ite", (c, ONE, ZERO), "I"))
    return mk("ite", (c, a, b), "I" if a.sort == b.sort == "I" else "R")


def _index_equality(c):
    """indices (older first) that are equal where c holds"""
    for e in c.args if c.op == "and" else (c,):
        if e.op == "eq0" and e.args[0].op == "poly" and len(e.args[0].args) == 2:
            (m, v), (n, w) = e.args[0].args
            if v + w == 0 and len(m) == len(n) == 1 and m[0][1] == n[0][1] == 1:
                x, y = m[0][0], n[0][0]
                if x.op in ("var", "bv") and y.op in ("var", "bv") and x.sort == y.sort == "I":
                    return (x, y) if x.id < y.id else (y, x)
    return None


def _under_equalities(c, a):
    """a, with the older of two indices written for the other where c makes them equal"""
    for e in c.args if c.op == "and" else (c,):
        if e.op == "eq0" and e.args[0].op == "poly" and len(e.args[0].args) == 2:
            (m, v), (n, w) = e.args[0].args
            if v + w == 0 and len(m) == len(n) == 1 and m[0][1] == n[0][1] == 1:
                x, y = m[0][0], n[0][0]
                if x.op in ("var", "bv") and y.op in ("var", "bv") and x.sort == y.sort == "I":
                    if y.id < x.id:
                        x, y = y, x
                    if y in a.fv or y in a.fb:
                        a = replace(a, {y: x})
    return a


INF = mk("inf", (1,), "R")
NINF = mk("inf", (-1,), "R")


# ---------------------------------------------------------------- booleans
def boolc(v):
    return TRUE if v else FALSE


def _normscale(d, signed):
    """scale a polynomial dict to coprime integers (and positive lead)"""
    from math import gcd
    L = 1
    for c in d.values():
        L = L * c.denominator // gcd(L, c.denominator)
    G = 0
    for c in d.values():
        G = gcd(G, int(c * L))
    s = Fraction(L, G or 1)
    if signed:
        items = sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
        lead = [c for m, c in items if m != ()][0]
        if lead < 0:
            s = -s
    return {m: c * s for m, c in d.items()}


def eq(a, b):
    if a.sort == "B" or b.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a is b:
        return TRUE
    if a.op == "inf" or b.op == "inf":
        return FALSE  # every other value is finite
    if a.op == "lin" and b.op == "lin" and a.args[1] == b.args[1]:
        return and_(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    if a.op == "ite" and is_num(a.args[1]) and is_num(a.args[2]) and is_num(b):
        return ite(a.args[0], boolc(a.args[1] is b), boolc(a.args[2] is b))
    d = _pd(sub(a, b))
    if not d:
        return TRUE
    if set(d) == {()}:
        return FALSE
    d = _normscale(d, True)
    # integer divisibility / trivial impossibility
    return mk("eq0", (_fromd(d),), "B")


def le(a, b):
    """a <= b"""
    if a.op == "inf" or b.op == "inf":
        return boolc(_infsign(a) <= _infsign(b))
    d = _pd(sub(a, b))
    if not d:
        return TRUE
    if set(d) == {()}:
        return boolc(d[()] <= 0)
    if len(d) == 1:
        (m, v), = d.items()
        if v > 0 and len(m) == 1 and m[0][0].op == "bv" and m[0][0].sort == "I":
            return eq(m[0][0], ZERO)  # bound indices are not negative
    r = _lin_bound(d)
    if r is not None:
        return r
    return mk("le0", (_fromd(_normscale(d, False)),), "B")


def _lin_bound(d):
    """bounds on a row-major index by a multiple of its last extent are bounds on its leading components:
    L n + p <= m n - 1 iff L <= m - 1, and L n + p >= m n iff L >= m (0 <= p < n)"""
    ls = [m for m in d if len(m) == 1 and m[0][0].op == "lin"]
    if len(ls) != 1 or ls[0][0][1] != 1 or abs(d[ls[0]]) != 1 or any(a.op == "lin" for m in d if m != ls[0] for a, _ in m):
        return None
    comps, dims = ls[0][0][0].args
    n, lead = dims[-1], lin(comps[:-1], dims[:-1])
    up = d[ls[0]] == 1
    c = d.get((), Fraction(0))
    rest = {m: v for m, v in d.items() if m not in (ls[0], ())}
    if is_num(n):
        if rest or c.denominator != 1 or (c - (1 if up else 0)) % nval(n):
            return None
        k = (c - (1 if up else 0)) / nval(n)
    elif n.op == "var" and c == (1 if up else 0) and set(rest) <= {((n, 1),)}:
        k = rest.get(((n, 1),), Fraction(0))
        if k.denominator != 1:
            return None
    else:
        return None
    return le(add(lead, num(k + 1)), ZERO) if up else le(num(k), lead)


def _infsign(t):
    return t.args[0] if t.op == "inf" else 0


def lt(a, b):
    if a.op == "inf" or b.op == "inf":
        return boolc(_infsign(a) < _infsign(b))
    d0 = sub(a, b)
    if d0.sort == "I":
        return le(add(a, ONE), b)
    d = _pd(d0)
    if not d:
        return FALSE
    if set(d) == {()}:
        return boolc(d[()] < 0)
    return mk("lt0", (_fromd(_normscale(d, False)),), "B")


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "le0":
        return lt(ZERO, t.args[0])
    if t.op == "lt0":
        return le(ZERO, t.args[0])
    if t.op == "and":
        return or_(*[not_(x) for x in t.args])
    if t.op == "or":
        return and_(*[not_(x) for x in t.args])
    return mk("not", (t,), "B")


def and_(*ts):
    s = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == "and":
            s.extend(t.args)
        else:
            s.append(t)
    u = sorted(set(s), key=lambda x: x.id)
    su = set(u)
    for t in u:
        if not_(t) in su:
            return FALSE
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    return mk("and", tuple(u), "B")


def or_(*ts):
    s = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == "or":
            s.extend(t.args)
        else:
            s.append(t)
    u = sorted(set(s), key=lambda x: x.id)
    if not u:
        return FALSE
    if len(u) == 1:
        return u[0]
    su = set(u)
    for t in u:
        n = mk("not", (t,), "B") if t.op not in ("le0", "lt0", "and", "or", "not") else None
        if n is not None and n in su:
            return TRUE
    return mk("or", tuple(u), "B")


def implies(a, b):
    return or_(not_(a), b)


# ---------------------------------------------------------------- replace
def replace(t, m, memo=None):
    """capture-free replacement of leaves (var / bv) by terms"""
    if memo is None:
        memo = {}
    keys = set(m)
    return _rep(t, m, keys, memo)


def rename(t, m):
    """replacement of leaves by distinct leaves that do not occur in t"""
    return _rep(t, m, set(m), {"renaming": True})


def replace_terms(t, m):
    """replacement of arbitrary terms without bound variables"""
    return _rep(t, m, set().union(*[k.fv for k in m]), {})


def _rep(t, m, keys, memo):
    if t in m:
        return m[t]
    if not (t.fv & keys) and not (t.fb & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    R = lambda x: _rep(x, m, keys, memo)
    if op == "poly":
        d = {}
        for mono, c in t.args:
            kept, moved = [], []
            for ae in mono:
                a = ae[0]
                (kept if a not in m and not (a.fv & keys) and not (a.fb & keys) else moved).append(ae)
            if not moved:
                d[mono] = d.get(mono, 0) + c
                continue
            k = tuple(kept)
            p = None  # the factors that are not monomials, multiplied out
            for a, e in moved:
                x = R(a)
                if x.op == "num":
                    c = c * x.args[0] ** e
                elif x.op == "poly" and len(x.args) > 1:
                    x = ipow(x, e)
                    p = x if p is None else _mul2(p, x)
                elif x.op == "poly":
                    (mx, cx), = x.args
                    for _ in range(e):
                        k = _mm(k, mx)
                        c = c * cx
                else:
                    k = _mm(k, ((x, e),))
            if not c:
                continue
            if p is None:
                d[k] = d.get(k, 0) + c
            else:
                for mx, cx in _pd(p).items():
                    mx = _mm(k, mx)
                    d[mx] = d.get(mx, 0) + c * cx
                if len(d) > MAXMONO:
                    raise TooBig()
        r = _fromd(_meet(d))
    elif op == "app":
        r = reapp(t.args[0], [R(x) for x in t.args[1:]])
    elif op == "recip":
        r = recip(R(t.args[0]))
    elif op == "ite":
        r = ite(R(t.args[0]), R(t.args[1]), R(t.args[2]))
    elif op == "eq0":
        r = eq(R(t.args[0]), ZERO)
        a = t.args[0]
        d = _pd(a)
        # re-detect lin == lin
        if len(d) == 2 and () not in d:
            (m1, c1), (m2, c2) = d.items()
            if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1:
                r = eq(R(m1[0][0]), R(m2[0][0]))
    elif op == "le0":
        r = le(R(t.args[0]), ZERO)
    elif op == "lt0":
        r = lt(R(t.args[0]), ZERO)
    elif op == "not":
        r = not_(R(t.args[0]))
    elif op == "and":
        r = and_(*[R(x) for x in t.args])
    elif op == "or":
        r = or_(*[R(x) for x in t.args])
    elif op == "idiv":
        r = fdiv(R(t.args[0]), R(t.args[1]))
    elif op == "imod":
        r = fmod(R(t.args[0]), R(t.args[1]))
    elif op == "lin":
        r = lin([R(x) for x in t.args[0]], [R(x) for x in t.args[1]])
    elif op == "bind":
        name, ranges, bodies, args, h = t.args
        if "renaming" in memo and (name in ("inv", "logdet", "signdet", "forall") or name == "sum" and len(ranges[0]) == 1):
            # nothing to simplify below the binder: its bound variables stay
            args2 = tuple(R(x) for x in args)
            if name == "inv" and _symmetric(t):
                k = len(args2) // 2
                if tuple(x.id for x in args2[k:]) < tuple(x.id for x in args2[:k]):
                    args2 = args2[k:] + args2[:k]
            r = mk("bind", (name, tuple(tuple(R(x) for x in g) for g in ranges), tuple(R(b) for b in bodies), args2, h), t.sort)
            memo[t] = r
            return r
        vs, bs = open_bind(t)
        ranges2 = tuple(tuple(R(x) for x in g) for g in ranges)
        bs2 = [R(b) for b in bs]
        args2 = tuple(R(x) for x in args)
        r = mk_bind(name, ranges2, vs, bs2, args2)
    elif op in ("var", "bv"):
        r = t
    else:
        raise AssertionError(op)
    memo[t] = r
    return r


_SYMMETRIC = {}


def _symmetric(t):
    """whether the matrix of an inverse is syntactically symmetric"""
    name, ranges, bodies, args, h = t.args
    if tuple(ranges[0]) != tuple(ranges[1]):
        return False
    key = (h, ranges, bodies)
    r = _SYMMETRIC.get(key)
    if r is None:
        n = len(ranges[0])
        m = {}
        for k in range(n):
            m[bv(h, k)], m[bv(h, n + k)] = bv(h, n + k), bv(h, k)
        r = _SYMMETRIC[key] = replace(bodies[0], m) is bodies[0]
    return r


def reapp(name, args):
    if name == "exp":
        return exp(*args)
    if name == "sqrt":
        return sqrt(*args)
    if name == "log":
        return log(*args)
    if name == "pow":
        return pow_(*args)
    if name == "gamma":
        return gamma(*args)
    if name == "kv":
        return kv(*args)
    return app(name, *args)


# ---------------------------------------------------------------- binders
BIND_SORT = {}


def open_bind(t):
    """-> (groups of fresh vars, bodies)"""
    name, ranges, bodies, args, h = t.args
    vs, m, k = [], {}, 0
    for g in ranges:
        gv = []
        for _ in g:
            v = fresh("b")
            m[bv(h, k)] = v
            gv.append(v)
            k += 1
        vs.append(tuple(gv))
    return tuple(vs), [rename(b, m) for b in bodies]


def raw_bind(name, ranges, vs, bodies, args=()):
    h = 1 + max([b.h for b in bodies] + [0])
    m, k = {}, 0
    for g in vs:
        for v in g:
            m[v] = bv(h, k)
            k += 1
    closed = tuple(rename(b, m) for b in bodies)
    # replacing vars by bv never changes binder heights of normal forms, but be safe
    hh = 1 + max([b.h for b in closed] + [0])
    if hh != h:
        h2 = max(hh, h) + 1
        m, k = {}, 0
        for g in vs:
            for v in g:
                m[v] = bv(h2, k)
                k += 1
        closed = tuple(rename(b, m) for b in bodies)
        h = h2
    return mk("bind", (name, tuple(tuple(g) for g in ranges), closed, tuple(args), h),
              BIND_SORT.get(name, "R"))


def mk_bind(name, ranges, vs, bodies, args):
    if name == "sum":
        return mk_sum(ranges[0], vs[0], bodies[0])
    if name in ("inv", "logdet", "signdet"):
        return mk_mat(name, ranges, vs, bodies[0], args)
    if name == "forall":
        return mk_forall(ranges[0], vs[0], bodies[0])
    return raw_bind(name, ranges, vs, bodies, args)


EXPAND = 6


def mk_forall(ranges, vs, body):
    if body is TRUE or body is FALSE and all(is_num(r) and nval(r) > 0 for r in ranges):
        return body
    if all(is_num(r) and nval(r) <= EXPAND for r in ranges):
        parts = []
        for tup in itertools.product(*[range(int(nval(r))) for r in ranges]):
            parts.append(replace(body, {v: num(x) for v, x in zip(vs, tup)}))
        return and_(*parts)
    return raw_bind("forall", (tuple(ranges),), (tuple(vs),), [body])


BIND_SORT["forall"] = "B"
BIND_SORT["exists"] = "B"


SIZES = set()  # variables known not to be negative


def in_range(body, vs, ranges):
    """body, where its conditions say no more than that the bound variables are in range"""
    m = {}
    for v, r in zip(vs, ranges):
        if v in body.fv:
            for c in (le(ZERO, v), lt(v, r)):
                if c.id < body.id and c is not TRUE:  # an older term: it may occur in body
                    m[c] = TRUE
    return replace_terms(body, m) if m else body


def mk_sum(ranges, vs, body):
    """sum of body over vs[i] in [0, ranges[i])"""
    ranges, vs = list(ranges), list(vs)
    body = in_range(body, vs, ranges)
    # unit / literal ranges
    for i, r in enumerate(ranges):
        if r is ONE:
            body = replace(body, {vs[i]: ZERO})
            return mk_sum(ranges[:i] + ranges[i + 1:], vs[:i] + vs[i + 1:], body)
        if is_num(r) and nval(r) <= EXPAND:
            parts = [replace(body, {vs[i]: num(k)}) for k in range(int(nval(r)))]
            s = add(*parts) if parts else ZERO
            return mk_sum(ranges[:i] + ranges[i + 1:], vs[:i] + vs[i + 1:], s)
        if r.op == "poly" and len(r.args) > 1 and all(c == 1 and (m == () or len(m) == 1 and m[0][1] == 1 and m[0][0] in SIZES) for m, c in r.args):
            # the first so many, the next so many, ...
            start, total = ZERO, []
            for m, c in sorted(r.args, key=lambda mc: tuple(a.id for a, _ in mc[0])):
                part, w = _fromd({m: c}), fresh("p")
                total.append(mk_sum(ranges[:i] + [part] + ranges[i + 1:], vs[:i] + [w] + vs[i + 1:], replace(body, {vs[i]: add(start, w)})))
                start = add(start, part)
            return add(*total)
    if not vs:
        return body
    rng = dict(zip(vs, ranges))
    total = []
    for mono, c in _pd(body).items():
        total.append(_mul2(num(c), _sum_mono(mono, rng)))
    return add(*total) if total else ZERO


def _sum_mono(mono, rng):
    rng = dict(rng)
    factors = []  # (atom, exp)
    work = list(mono)
    outer = ONE
    extra_poly = None
    while work:
        a, e = work.pop()
        if a.op == "bind" and a.args[0] == "sum" and (a.fv & set(rng)):
            for _ in range(e):
                (vs,), (b,) = open_bind(a)
                for v, r in zip(vs, a.args[1][0]):
                    rng[v] = r
                d = _pd(b)
                assert len(d) == 1, "sum body not a monomial"
                (m2, c2), = d.items()
                assert c2 == 1
                work.extend(m2)
        else:
            factors.append((a, e))
    mono = ()
    for ae in factors:
        mono = _mm(mono, (ae,))
    # ranges that depend on another bound variable cannot be split
    for r in rng.values():
        if r.fv & set(rng):
            raise TooBig("dependent range")
    # delta factors
    for a, e in mono:
        if a.op == "ite":
            got = _delta(a, rng)
            if got is not None:
                v, val, cond_rest = got
                rest = _fromd({_mm(mono, ((a, -e),)): Fraction(1)})
                tv, ev = ipow(a.args[1], e), ipow(a.args[2], e)
                # sum ite(v==val && cr, tv, ev)*rest
                #  = sum ev*rest + [inrange(val) && cr] ((tv-ev)*rest)[v:=val]
                vs, rs = list(rng), [rng[x] for x in rng]
                s1 = ZERO if ev is ZERO else mk_sum(rs, vs, mul(ev, rest))
                diff = mul(sub(tv, ev), rest)
                ok = and_(cond_rest, le(ZERO, val), lt(val, rng[v]))
                b2 = replace(ite(ok, diff, ZERO) if ok is not TRUE else diff, {v: val})
                rs2 = [rng[x] for x in rng if x is not v]
                vs2 = [x for x in rng if x is not v]
                return add(s1, mk_sum(rs2, vs2, b2))
    # components
    allv = set(rng)
    used = set()
    comps = []  # (vars, factors)
    free = []
    for a, e in mono:
        vs = {v for v in a.fv if v in allv}
        if not vs:
            free.append((a, e))
            continue
        used |= vs
        merged_v, merged_f = set(vs), [(a, e)]
        rest = []
        for cv, cf in comps:
            if cv & merged_v:
                merged_v |= cv
                merged_f += cf
            else:
                rest.append((cv, cf))
        comps = rest + [(merged_v, merged_f)]
    # repeat merging until stable
    changed = True
    while changed:
        changed = False
        for i in range(len(comps)):
            for j in range(i + 1, len(comps)):
                if comps[i][0] & comps[j][0]:
                    comps[i] = (comps[i][0] | comps[j][0], comps[i][1] + comps[j][1])
                    del comps[j]
                    changed = True
                    break
            if changed:
                break
    res = ONE
    for a, e in free:
        res = _mul2(res, ipow(a, e))
    for v in rng:
        if v not in used:
            res = _mul2(res, rng[v])
    for cv, cf in comps:
        m = ()
        for ae in cf:
            m = _mm(m, (ae,))
        body = _fromd({m: Fraction(1)})
        for v in sorted(cv, key=lambda x: x.id):
            # reindexing: the sum of f(P(v)) over all v is the sum of f(v), P a bijection
            for a in _perms(body, v, rng[v]):
                w = fresh("b")
                b2 = replace_terms(body, {a: w})
                if v not in b2.fv:
                    vs = [w if x is v else x for x in cv]
                    res = _mul2(res, mk_sum([rng[v] if x is w else rng[x] for x in vs], vs, b2))
                    break
            else:
                continue
            break
        else:
            v = None
        if v is not None:
            continue
        res = _mul2(res, _canon_bind(body, cv, rng))
    return res


def _perms(t, v, n):
    """applications P(context, v) of bijections of [0, n) occurring in t"""
    out, seen = [], set()

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, T) and v in x.fv and x not in seen:
            seen.add(x)
            if x.op == "app" and x.args[-1] is v and not x.fb and UFS[x.args[0]].perm is n \
                    and not any(v in y.fv for y in x.args[1:-1]):
                out.append(x)
            for y in x.args:
                walk(y)
    walk(t)
    return sorted(out, key=lambda x: x.id)


def _canon_bind(body, cv, rng):
    """the sum over cv with its bound variables in an order that does not depend on their names"""
    d = _pd(body)
    (m, _), = d.items()
    if len(cv) == 1:
        return raw_bind("sum", (tuple(rng[v] for v in cv),), (tuple(cv),), [body])
    sig = {}
    for v in cv:
        memo = {}
        sig[v] = sorted((akey(a, cv, v, memo), e) for a, e in m if v in a.fv)
    vs = sorted(cv, key=lambda v: (sig[v], akey(rng[v], cv, None, {}), v.id))
    groups = []
    for v in vs:
        if groups and sig[groups[-1][0]] == sig[v] and rng[groups[-1][0]] is rng[v]:
            groups[-1].append(v)
        else:
            groups.append([v])
    best = None
    # variables that look alike: the first created of the equivalent sums
    for i, perm in enumerate(itertools.product(*[itertools.permutations(g) for g in groups])):
        if i >= 24:
            break
        order = [v for g in perm for v in g]
        t = raw_bind("sum", (tuple(rng[v] for v in order),), (tuple(order),), [body])
        if best is None or t.id < best.id:
            best = t
    return best


def akey(t, cv, v, memo):
    """a description of t that does not depend on the names of the variables cv (v is marked)"""
    if not isinstance(t, T):
        return str(t)
    if t in cv:
        return "!" if t is v else "?"
    if not (t.fv & cv):
        return "#%d" % t.id
    r = memo.get(t)
    if r is not None:
        return r
    K = lambda x: akey(x, cv, v, memo)
    seq = lambda xs: ",".join(seq1(x) for x in xs)
    seq1 = lambda x: K(x) if isinstance(x, T) else "<" + seq(x) + ">" if isinstance(x, tuple) else str(x)
    op = t.op
    if op == "poly":
        r = "+(" + ",".join(sorted(str(c) + "*" + ".".join(sorted(f"{K(a)}^{e}" for a, e in m)) for m, c in t.args)) + ")"
    elif op == "eq0":
        r = "=(" + ",".join(sorted(str(abs(c)) + "*" + ".".join(sorted(f"{K(a)}^{e}" for a, e in m)) for m, c in _pd(t.args[0]).items())) + ")"
    elif op in ("and", "or"):
        r = op + "(" + ",".join(sorted(K(x) for x in t.args)) + ")"
    elif op == "app" and UFS[t.args[0]].sym:
        xs = [K(x) for x in t.args[1:]]
        for grp in UFS[t.args[0]].sym:
            for g, w in zip(grp, sorted(tuple(xs[p] for p in g) for g in grp)):
                for p, x in zip(g, w):
                    xs[p] = x
        r = t.args[0] + "(" + ",".join(xs) + ")"
    elif op == "bind":
        name, ranges, bodies, args, h = t.args
        xs = [K(x) for x in args]
        if name == "inv":
            k = len(xs) // 2
            xs = sum(sorted([xs[:k], xs[k:]]), [])
        r = f"{name}[{seq(ranges)}|{seq(bodies)}|{','.join(xs)}]"
    else:
        r = op + "(" + seq(t.args) + ")"
    memo[t] = r
    return r


def _delta(a, rng):
    """ite atom whose condition pins a bound variable: (v, value, rest cond)"""
    c = a.args[0]
    conj = c.args if c.op == "and" else (c,)
    for i, q in enumerate(conj):
        if q.op != "eq0":
            continue
        d = _pd(q.args[0])
        for m, co in d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in rng and abs(co) == 1:
                v = m[0][0]
                rest = {k: x for k, x in d.items() if k != m}
                val = _fromd({k: -x / co for k, x in rest.items()})
                if v in val.fv or val.sort != "I":
                    continue
                return v, val, and_(*[x for j, x in enumerate(conj) if j != i])
    return None


def mk_mat(name, ranges, vs, body, args=()):
    """matrix functional of body over row vars vs[0], column vars vs[1]"""
    body = in_range(body, vs[0] + vs[1], ranges[0] + ranges[1])
    m = {}
    for k, (r, c) in enumerate(zip(vs[0], vs[1])):
        if ranges[0][k] is not ranges[1][k] or name not in ("inv", "logdet"):
            continue
        for a in _perms(body, r, ranges[0][k]):
            # simultaneous reordering of rows and columns: inv(M(P., P.))(i, j) = inv(M)(P i, P j); same logdet
            P, ctx = a.args[0], a.args[1:-1]
            if any(x in y.fv for y in ctx for g in vs for x in g):
                continue
            r2, c2 = fresh("r"), fresh("c")
            b2 = replace_terms(body, {a: r2, app(P, *ctx, c): c2, eq(r, c): eq(r2, c2)})
            if r in b2.fv or c in b2.fv:
                continue
            sub = lambda g, x, y: tuple(y if z is x else z for z in g)
            n = len(vs[0])
            args2 = tuple(app(P, *ctx, x) if i in (k, n + k) else x for i, x in enumerate(args))
            return mk_mat(name, ranges, (sub(vs[0], r, r2), sub(vs[1], c, c2)), b2, args2)
    for a, b in zip(vs[0], vs[1]):
        m[a], m[b] = b, a
    if name == "inv" and len(ranges[0]) == len(ranges[1]):
        k = len(ranges[0])
        if all(r is ONE for r in ranges[0]) and all(r is ONE for r in ranges[1]):
            return recip(replace(body, {v: ZERO for g in vs for v in g}))
        if tuple(ranges[0]) == tuple(ranges[1]) and replace(body, m) is body:
            p, q = tuple(args[:k]), tuple(args[k:])
            if tuple(x.id for x in q) < tuple(x.id for x in p):
                p, q = q, p
            args = p + q
    return raw_bind(name, ranges, vs, [body], args)


# ---------------------------------------------------------------- display
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 12:
        return "..."
    op = t.op
    s = lambda x: show(x, d + 1)
    if op == "num":
        return str(t.args[0])
    if op == "var":
        return t.args[0]
    if op == "bv":
        return "#%d.%d" % t.args
    if op == "poly":
        out = []
        for m, c in t.args:
            f = "*".join(s(a) + ("^%d" % e if e != 1 else "") for a, e in m)
            out.append((str(c) + ("*" if f else "") if c != 1 or not f else "") + f)
        return "(" + " + ".join(out) + ")"
    if op == "app":
        return t.args[0] + "(" + ",".join(s(x) for x in t.args[1:]) + ")"
    if op == "bind":
        name, ranges, bodies, args, h = t.args
        return (f"{name}[h{h}:" + ";".join(",".join(s(x) for x in g) for g in ranges) + "]{"
                + " | ".join(s(b) for b in bodies) + "}" + ("(" + ",".join(s(x) for x in args) + ")" if args else ""))
    if op in ("true", "false"):
        return op
    if op == "lin":
        return "lin(" + ",".join(s(c) + "/" + s(x) for c, x in zip(*t.args)) + ")"
    return op + "(" + ", ".join(s(x) for x in t.args) + ")"
