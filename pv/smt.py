"""Discharging verification conditions with z3 (cross-checked / backed by cvc5)."""
import itertools
import time
from fractions import Fraction

import z3

from . import terms as tm
from .terms import T, TRUE, FALSE

STATS = dict(vcs=0, sub_vcs=0, z3_calls=0, z3_time=0.0, syntactic=0, cvc5_calls=0,
             unknown=0, sat=0, congruences=0)

VARFACTS = {}  # var -> list of facts (terms)
TIMEOUT_MS = 8000
DEADLINE = [None]


def var_fact(v, *facts):
    VARFACTS.setdefault(v, []).extend(facts)


class Xlate:
    def __init__(self, linear):
        self.memo = {}
        self.linear = linear
        self.fn = {}

    def const(self, name, sort):
        return {"I": z3.Int, "R": z3.Real, "B": z3.Bool}[sort](name)

    def fun(self, name, sorts, rs):
        m = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}
        return z3.Function(name, *[m[s] for s in sorts], m[rs])

    def real(self, t):
        e = self(t)
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._tr(t)
        return r

    def asort(self, t, want):
        e = self(t)
        if want == "R" and e.sort() == z3.IntSort():
            return z3.ToReal(e)
        return e

    def _tr(self, t):
        op = t.op
        if op == "num":
            v = t.args[0]
            if t.sort == "I":
                return z3.IntVal(int(v))
            return z3.RealVal(f"{v.numerator}/{v.denominator}")
        if op == "var":
            return self.const(t.args[0], t.sort)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "poly":
            isint = t.sort == "I"
            parts = []
            for m, c in t.args:
                fs = []
                for a, e in m:
                    x = self(a) if isint else self.real(a)
                    fs.extend([x] * e)
                if len(fs) > 1 and self.linear:
                    key = "mono!" + "_".join(f"{a.id}^{e}" for a, e in m)
                    p = z3.Int(key) if isint else z3.Real(key)
                elif fs:
                    p = fs[0]
                    for f in fs[1:]:
                        p = p * f
                else:
                    p = None
                cv = (z3.IntVal(int(c)) if isint
                      else z3.RealVal(f"{c.numerator}/{c.denominator}"))
                parts.append(cv if p is None else (p if c == 1 else cv * p))
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == "app":
            name, args = t.args[0], t.args[1:]
            sorts = ["R" if (name in SPECIAL) else a.sort for a in args]
            es = [self.asort(a, s) for a, s in zip(args, sorts)]
            if not args:
                return self.const(name, t.sort)
            return self.fun(f"{name}/{''.join(sorts)}", sorts, t.sort)(*es)
        if op == "recip":
            return self.fun("recip", ["R"], "R")(self.real(t.args[0]))
        if op == "ite":
            s = t.sort
            return z3.If(self(t.args[0]), self.asort(t.args[1], s), self.asort(t.args[2], s))
        if op == "eq0":
            e = self(t.args[0])
            return e == 0
        if op == "le0":
            return self(t.args[0]) <= 0
        if op == "lt0":
            return self(t.args[0]) < 0
        if op == "not":
            return z3.Not(self(t.args[0]))
        if op == "and":
            return z3.And(*[self(x) for x in t.args])
        if op == "or":
            return z3.Or(*[self(x) for x in t.args])
        if op == "idiv":
            return self(t.args[0]) / self(t.args[1])
        if op == "imod":
            return self(t.args[0]) % self(t.args[1])
        if op == "lin":
            return self(tm.lin_expand(t))
        if op == "bind":
            return self.const(f"bind!{t.id}", t.sort)
        if op == "bv":
            return self.const(f"bv!{t.args[0]}_{t.args[1]}", t.sort)
        raise AssertionError(op)


SPECIAL = {"exp", "log", "sqrt", "gamma", "pow", "kv", "sin", "cos", "tan", "arctan2", "round"}


def collect(ts):
    """all sub-terms outside binder bodies"""
    seen, work = set(), list(ts)
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "bind":
            work.extend(t.args[3])
            for g in t.args[1]:
                work.extend(g)
            continue
        if t.op == "lin":
            work.append(tm.lin_expand(t))
        for s in tm._subterms(t.args):
            work.append(s)
    return seen


def instance_facts(ts, depth=3):
    facts, done = [], set()
    frontier = list(ts)
    allseen = set()
    inj = {}
    for _ in range(depth):
        seen = collect(frontier) - allseen
        allseen |= seen
        new = []
        for t in sorted(seen, key=lambda x: x.id):
            if t.op == "app" and tm.UFS[t.args[0]].inj is not None:
                k = 1 + tm.UFS[t.args[0]].inj
                for u in inj.setdefault(t.args[0], []):
                    new.append(tm.or_(tm.not_(tm.eq(t, u)), *[tm.not_(tm.eq(x, y)) for x, y in zip(t.args[1:k], u.args[1:k])],
                                      tm.and_(*[tm.eq(x, y) for x, y in zip(t.args[k:], u.args[k:])])))
                inj[t.args[0]].append(t)
        for t in sorted(seen, key=lambda x: x.id):
            if t in done:
                continue
            done.add(t)
            if t.op == "var" and t in VARFACTS:
                new += VARFACTS[t]
            elif t.op == "app":
                u = tm.UFS.get(t.args[0])
                if u and u.facts:
                    new += list(u.facts(*t.args[1:]))
                if t.args[0] == "exp":
                    new.append(tm.lt(tm.ZERO, t))
                elif t.args[0] == "sqrt":
                    x = t.args[1]
                    new.append(tm.le(tm.ZERO, t))
                    new.append(tm.or_(tm.lt(x, tm.ZERO), tm.eq(tm.mul(t, t), x)))
                    if tm.is_num(x):
                        new.append(tm.lt(tm.ZERO, t))
            elif t.op == "recip":
                x = t.args[0]
                new.append(tm.or_(tm.and_(tm.eq(x, tm.ZERO), tm.eq(t, tm.ZERO)),
                                  tm.and_(tm.not_(tm.eq(x, tm.ZERO)), tm.eq(tm.mul(x, t), tm.ONE))))
            elif t.op == "idiv" or t.op == "imod":
                pass
            elif t.op == "lin":
                tot = tm.mul(*t.args[1])
                new.append(tm.le(tm.ZERO, t))
                new.append(tm.lt(t, tot))
        if not new:
            break
        facts += new
        frontier = new
    return facts + monotone(allseen)


def monotone(seen):
    """exp and log are strictly increasing inverses of each other"""
    ex = sorted((t for t in seen if t.op == "app" and t.args[0] == "exp"), key=lambda t: t.id)
    lg = sorted((t for t in seen if t.op == "app" and t.args[0] == "log"), key=lambda t: t.id)
    out = []
    if not lg or len(ex) + len(lg) > 6:
        return out
    iff = lambda a, b: tm.and_(tm.implies(a, b), tm.implies(b, a))
    for e in ex:
        for l in lg:
            pos = tm.lt(tm.ZERO, l.args[1])
            out.append(tm.implies(pos, iff(tm.le(l, e.args[1]), tm.le(l.args[1], e))))
            out.append(tm.implies(pos, iff(tm.le(e.args[1], l), tm.le(e, l.args[1]))))
    for i, a in enumerate(lg):
        for b in lg[:i]:
            pos = tm.and_(tm.lt(tm.ZERO, a.args[1]), tm.lt(tm.ZERO, b.args[1]))
            out.append(tm.implies(pos, iff(tm.le(a.args[1], b.args[1]), tm.le(a, b))))
    return out


_cache = {}


class Result:
    __slots__ = ("status", "model", "opaque")

    def __init__(self, status, model=None, opaque=False):
        self.status, self.model, self.opaque = status, model, opaque

    def __bool__(self):
        return self.status == "proved"


def prove(goal, ctx=(), timeout=None, depth=0, model=False):
    """is goal valid under ctx?  -> Result"""
    if depth == 0:
        STATS["vcs"] += 1
    else:
        STATS["sub_vcs"] += 1
    if goal is TRUE:
        STATS["syntactic"] += 1
        return Result("proved")
    ctx = tuple(c for c in dict.fromkeys(ctx) if c is not TRUE)
    if FALSE in ctx or goal in ctx:
        return Result("proved")
    light = tuple(c for c in ctx if not _heavy(c))
    if depth == 0 and len(light) < len(ctx) and prove(goal, light, min(timeout or TIMEOUT_MS, 3000), 0):
        STATS["vcs"] -= 1
        return Result("proved")
    key = (goal, frozenset(ctx), _QUICK[0])
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        return Result("unknown")
    r = _cache.get(key)
    if r is not None and (r.status == "proved" or not model or r.model is not None):
        return r
    r = _prove(goal, ctx, timeout or TIMEOUT_MS, depth, model)
    _cache[key] = r
    return r


_QUICK = [False]


def prove_quick(goal, ctx, timeout=2000):
    """proof attempt without the sign facts of sums"""
    old, _QUICK[0] = _QUICK[0], True
    try:
        return prove(goal, ctx, timeout)
    finally:
        _QUICK[0] = old


_heavies = {}


def _heavy(c):
    """contexts about sums or inverses are only tried when the goal needs them"""
    r = _heavies.get(c)
    if r is None:
        r = _heavies[c] = bool(binders_of([c]))
    return r


def _split_goal(goal):
    if goal.op == "and":
        out = []
        for g in goal.args:
            out += _split_goal(g)
        return out
    return [goal]


def _prove(goal, ctx, timeout, depth, model):
    if goal.op == "forall":
        pass
    parts = _split_goal(goal)
    if len(parts) > 1:
        opaque = False
        for g in parts:
            r = prove(g, ctx, timeout, depth + 1, model)
            if not r:
                return r
        return Result("proved")
    if goal.op == "bind" and goal.args[0] == "forall":
        (vs,), (b,) = tm.open_bind(goal)
        extra = []
        for v, rg in zip(vs, goal.args[1][0]):
            extra += [tm.le(tm.ZERO, v), tm.lt(v, rg)]
        r = prove(b, ctx + tuple(extra), timeout, depth + 1, model)
        if r:
            return r
    if depth <= 4:
        got = _literal_index(goal, ctx)
        if got is not None:
            v, n = got
            for k in range(n):
                m = {v: tm.num(k)}
                r = prove(tm.replace(goal, m), tuple(tm.replace(c, m) for c in ctx), timeout, depth + 1, model)
                if not r:
                    break
            else:
                return Result("proved")
            if r.status == "refuted" and not r.opaque:
                return r
    if depth <= 2 and binders_of([goal]):
        g2 = resolve_tests(goal, ctx, depth)
        if g2 is not goal:
            r = prove(g2, ctx, timeout, depth + 1, model)
            if r:
                return r
    ctx = list(ctx)
    ctx += quant_facts(goal, ctx, depth)
    eqs, unmatched = congruences(goal, ctx, depth, timeout)
    base = ctx + eqs
    # stage 1: linear abstraction; stage 2: full arithmetic
    r = _z3(goal, base, True, min(timeout, 4000), False)
    if r.status == "proved":
        return r
    if depth <= 5 and binders_of([goal]):
        c = _index_test(goal)
        if c is not None:
            a, b = c.args[0].args
            (x, _), = a[0]
            (y, _), = b[0]
            x, y = (x, y) if x.id < y.id else (y, x)
            g2 = tm.replace(goal, {y: x})
            r2 = prove(g2, tuple(tm.replace(d, {y: x}) for d in ctx), timeout, depth + 1, False)
            if r2:
                r2 = prove(tm.replace_terms(goal, {c: FALSE}), tuple(ctx) + (tm.not_(c),), timeout, depth + 1, False)
                if r2:
                    return r2
    if depth <= 2:
        g2 = resolve_ites(goal, ctx, depth)
        if g2 is not goal:
            r2 = prove(g2, tuple(ctx), timeout, depth + 1, model)
            if r2:
                return r2
    r = _z3(goal, base, False, timeout, model)
    # a countermodel may interpret uninterpreted functions impossibly
    r.opaque = bool(unmatched) or any(t.op == "bind" for t in collect(ctx)) or any(t.op == "app" and t.args[0] in SPECIAL for t in collect([goal] + ctx))
    if r.status == "unknown":
        STATS["unknown"] += 1
    elif r.status == "refuted":
        STATS["sat"] += 1
    return r


def _index_test(goal):
    """an equality of two free indices that decides a conditional of the goal"""
    for t in sorted((t for t in tm.all_subterms(goal) if t.op == "ite"), key=lambda t: t.id):
        c = t.args[0]
        for e in c.args if c.op == "and" else (c,):
            if e.op == "eq0" and e.args[0].op == "poly" and len(e.args[0].args) == 2:
                (m, v), (n, w) = e.args[0].args
                if v + w == 0 and len(m) == len(n) == 1 and m[0][1] == n[0][1] == 1 and m[0][0].op == n[0][0].op == "var" \
                        and m[0][0].sort == n[0][0].sort == "I":
                    return e
    return None


def _literal_index(goal, ctx):
    """an index that decides conditionals of the goal and has few possible values"""
    tested = set()
    for t in tm.all_subterms(goal):
        if t.op == "ite":
            tested |= t.args[0].fv
    for c in ctx:
        if c.op == "le0" and len(c.fv) == 1:
            v, = c.fv
            d = dict(tm._pd(c.args[0]))
            if v in tested and v.sort == "I" and set(d) <= {(), ((v, 1),)} and d.get(((v, 1),)) == 1:
                n = 1 - d.get((), 0)
                if 0 < n <= 4 and tm.le(tm.ZERO, v) in ctx:
                    return v, int(n)
    return None


def resolve_ites(goal, ctx, depth):
    """the goal with every conditional replaced whose condition the context decides"""
    for _ in range(8):
        m = {}
        for t in sorted((t for t in tm.all_subterms(goal) if t.op == "ite"), key=lambda t: t.id):
            c = t.args[0]
            if not t.fv or any(x.op in ("bv", "bind") for x in tm.all_subterms(t)):
                continue
            if prove(c, tuple(ctx), 500, depth + 3):
                m[t] = t.args[1]
            elif prove(tm.not_(c), tuple(ctx), 500, depth + 3):
                m[t] = t.args[2]
        if not m:
            return goal
        goal = tm.replace_terms(goal, m)
    return goal


def resolve_tests(goal, ctx, depth):
    """the goal without the parts of composite conditions that the context decides"""
    atoms = set()
    for t in tm.all_subterms(goal):
        if t.op == "ite" and t.args[0].op in ("and", "or"):
            atoms |= {x for x in t.args[0].args if x.fv and not x.fb and not binders_of([x])}
    m = {}
    for c in sorted(atoms, key=lambda t: t.id):
        if c in ctx or prove(c, tuple(ctx), 500, depth + 3):
            m[c] = TRUE
        elif prove(tm.not_(c), tuple(ctx), 500, depth + 3):
            m[c] = FALSE
    return tm.replace_terms(goal, m) if m else goal


def _z3(goal, ctx, linear, timeout, model):
    x = Xlate(linear)
    ts = [goal] + list(ctx)
    facts = instance_facts(ts)
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.set("random_seed", 0)
    for c in list(ctx) + facts:
        s.add(x(c))
    s.add(z3.Not(x(goal)))
    t0 = time.time()
    STATS["z3_calls"] += 1
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat:
        return Result("proved")
    if r == z3.sat:
        return Result("refuted", s.model() if model else None)
    return Result("unknown")


def binders_of(ts):
    return sorted((t for t in collect(ts) if t.op == "bind"), key=lambda t: t.id)


def congruences(goal, ctx, depth, timeout):
    """equalities between binder terms that can be proved extensionally, plus
    sign facts of sums; second component: binders of the goal left unmatched"""
    bs = binders_of([goal] + list(ctx))
    eqs, matched = [], set()
    if depth > 8:
        return eqs, set(bs)
    work, new = list(bs), []
    while work:
        b = work.pop()
        e = unit_range(b, ctx, depth)
        if e is not None:
            eqs.append(tm.eq(b, e))
            matched.add(b)
            new.append(e)
            work += [x for x in binders_of([e]) if x not in matched]
    if new:
        bs = [x for x in binders_of([goal] + list(ctx) + new) if x not in matched]
    if depth <= 1 and not _QUICK[0] and len(bs) <= 40:
        for b in bs:
            if b.args[0] == "sum":
                eqs += sum_facts(b, ctx, depth, goal)
    for b in bs:
        if b.args[0] in ("sum", "forall") and b.sort == "B":
            pass
    bygrp = {}
    for b in bs:
        name, ranges, bodies, args, h = b.args
        shape = tuple(len(g) for g in ranges)
        if name == "sum":
            shape = (sum(shape),)
        bygrp.setdefault((name, shape, len(bodies), len(args)), []).append(b)
    gb = set(binders_of([goal]))
    n = 0
    for grp in bygrp.values():
        rep = {b: b for b in grp}
        for i in range(len(grp)):
            for j in range(i):
                if not (grp[i] in gb or grp[j] in gb):
                    continue
                if rep[grp[i]] is rep[grp[j]]:
                    continue
                if grp[i].args[0] == "inv" and not plausible(grp[i], grp[j]):
                    continue
                n += 1
                if n > 60:
                    break
                if cong(grp[i], grp[j], ctx, depth):
                    eqs.append(tm.eq(grp[i], grp[j]))
                    matched |= {grp[i], grp[j]}
                    old, new = rep[grp[i]], rep[grp[j]]
                    for k in rep:
                        if rep[k] is old:
                            rep[k] = new
    # numeric atoms of the goal that do not cancel
    return eqs, gb - matched


_units = {}


def _is_one(rg, ctx, depth):
    if tm.is_num(rg) or rg.op != "var":
        return False
    rel = tuple(c for c in ctx if rg in c.fv and c.op in ("le0", "eq0", "lt0") and not binders_of([c]))
    k = (rg, rel)
    if k not in _units:
        _units[k] = bool(rel) and any(c.op in ("le0", "eq0") for c in rel) and bool(
            prove(tm.eq(rg, tm.ONE), rel, 1000, depth + 1))
    return _units[k]


def unit_range(b, ctx, depth):
    """rewriting of a binder some of whose ranges are provably 1"""
    name, ranges, bodies, args, _ = b.args
    if name not in ("sum", "inv", "logdet"):
        return None
    hit = {rg for g in ranges for rg in g if _is_one(rg, ctx, depth)}
    if not hit:
        return None
    vs, bd = tm.open_bind(b)
    m = {v: tm.ZERO for g, r in zip(vs, ranges) for v, rg in zip(g, r) if rg in hit}
    body = tm.replace(bd[0], m)
    keep = [[i for i, rg in enumerate(r) if rg not in hit] for r in ranges]
    if name == "sum":
        return tm.mk_sum([ranges[0][i] for i in keep[0]], [vs[0][i] for i in keep[0]], body)
    rng = tuple(tuple(r[i] for i in k) for r, k in zip(ranges, keep))
    nv = tuple(tuple(g[i] for i in k) for g, k in zip(vs, keep))
    if name == "inv":
        k = len(ranges[0])
        a = tuple(args[i] for i in keep[0]) + tuple(args[k + i] for i in keep[1])
        return tm.mk_mat("inv", rng, nv, body, a)
    return tm.mk_mat("logdet", rng, nv, body)


_skolem = {}
FACT_BINDERS = [False]  # facts of functions may contain quantifiers


def _skolems(b, n):
    if b not in _skolem:
        _skolem[b] = tuple(tm.fresh("w") for _ in range(n))
    return _skolem[b]


def quant_facts(goal, ctx, depth):
    """witnesses and instances of universal quantifiers, maxima and minima"""
    if depth > 4:
        return []
    out, done = [], set()
    for _ in range(3):
        ts = [goal] + list(ctx) + out
        if FACT_BINDERS[0]:
            ts += instance_facts(ts)
        bs = [b for b in binders_of(ts) if b.args[0] in ("forall", "max", "min") and len(b.args[1]) == 1]
        if not bs or len(bs) > 16:
            break
        sks = {}
        for b in bs:
            for r, w in zip(b.args[1][0], _skolems(b, len(b.args[1][0]))):
                sks.setdefault(r, []).append(w)
        n0 = len(out)
        for b in bs:
            kind = b.args[0]
            rng = b.args[1][0]
            (vs,), (body,) = tm.open_bind(b)
            w = _skolems(b, len(vs))
            inr = lambda ix: tm.and_(*[tm.and_(tm.le(tm.ZERO, i), tm.lt(i, r)) for i, r in zip(ix, rng)])
            at = lambda ix: tm.replace(body, dict(zip(vs, ix)))
            if b not in done:
                done.add(b)
                if kind == "forall":
                    out.append(tm.or_(b, tm.and_(inr(w), tm.not_(at(w)))))
                else:
                    some = tm.lt(tm.ZERO, rng[0])
                    for r in rng[1:]:
                        some = tm.and_(some, tm.lt(tm.ZERO, r))
                    out.append(tm.implies(some, tm.and_(inr(w), tm.eq(b, at(w)))))
            cands = instances(body, vs, ts, 10) + [w]
            if len(vs) == 1:
                cands += [(x,) for x in sum(sks.values(), [])][:6]
            for ix in cands:
                if (b, ix) in done:
                    continue
                done.add((b, ix))
                v = at(ix)
                f = tm.or_(tm.not_(b), v) if kind == "forall" else (tm.le(v, b) if kind == "max" else tm.le(b, v))
                out.append(tm.implies(inr(ix), f))
        if len(out) == n0:
            break
    return out


def sum_facts(b, ctx, depth, goal):
    """0 <= body everywhere  ->  0 <= sum;  body == 0 everywhere -> sum == 0"""
    (vs,), (body,) = tm.open_bind(b)
    rngs = b.args[1][0]
    if not _has_boolish(body):
        return _sq_facts(b, body)
    extra = []
    for v, rg in zip(vs, rngs):
        extra += [tm.le(tm.ZERO, v), tm.lt(v, rg)]
    c = tuple(ctx) + tuple(extra)
    out = []
    if prove(tm.eq(body, tm.ZERO), c, 2000, depth + 1):
        out.append(tm.eq(b, tm.ZERO))
    elif prove(tm.le(tm.ZERO, body), c, 2000, depth + 1):
        out.append(tm.le(tm.ZERO, b))
        for idx in instances(body, vs, [goal] + list(ctx)):
            rg = [tm.and_(tm.le(tm.ZERO, i), tm.lt(i, r)) for i, r in zip(idx, rngs)]
            out.append(tm.implies(tm.and_(*rg), tm.le(tm.replace(body, dict(zip(vs, idx))), b)))
    return out


def instances(body, vs, ts, most=4):
    """index tuples at which the terms ts read the arrays the body of a sum reads"""
    pats = [t for t in collect([body]) if t.op == "app" and set(vs) <= set(t.args[1:])]
    out = []
    for t in sorted(collect(ts), key=lambda t: t.id):
        for q in pats:
            if t.op == "app" and t.args[0] == q.args[0] and t is not q and len(t.args) == len(q.args):
                m = {}
                if all(m.setdefault(a, b) is b if a in vs else a is b for a, b in zip(q.args[1:], t.args[1:])):
                    idx = tuple(m[v] for v in vs)
                    if idx not in out and not any(x.op == "bv" for x in idx):
                        out.append(idx)
    return out[:most]


def _sq_facts(b, body):
    d = tm._pd(body)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 0 and all(e % 2 == 0 or (a.op == "app" and a.args[0] in ("exp", "sqrt")) for a, e in m):
            return [tm.le(tm.ZERO, b)]
    return []


def _has_boolish(t):
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            return True
        for s in tm._subterms(x.args):
            work.append(s)
    return False


def plausible(a, b):
    """entries of inverses whose numeric positions can coincide"""
    aa, ab = a.args[3], b.args[3]
    k = len(aa) // 2
    return any(all(x is y or not (tm.is_num(x) and tm.is_num(y)) for x, y in zip(aa, o)) for o in (ab, ab[k:] + ab[:k]))


def cong(a, b, ctx, depth):
    na, ra, ba, aa, _ = a.args
    nb, rb, bb, ab, _ = b.args
    STATS["congruences"] += 1
    if na == "sum":
        ra, rb = (sum(ra, ()),), (sum(rb, ()),)
    va, bodiesa = tm.open_bind(a)
    vb, bodiesb = tm.open_bind(b)
    if na == "sum":
        va, vb = (sum(va, ()),), (sum(vb, ()),)
        perms = _perms(va[0], ra[0], bodiesa[0], vb[0], rb[0], bodiesb[0])
    else:
        perms = [None]
    for p in perms:
        if p is not None:
            vb2 = (tuple(vb[0][i] for i in p),)
            rb2 = (tuple(rb[0][i] for i in p),)
        else:
            vb2, rb2 = vb, rb
        if all(x is y for x, y in zip(aa, ab)) is False and na not in ("inv",):
            if not all(prove(tm.eq(x, y), ctx, 2000, depth + 1) for x, y in zip(aa, ab)):
                continue
        ok = True
        for ga, gb_ in zip(ra, rb2):
            for x, y in zip(ga, gb_):
                if x is not y and not prove(tm.eq(x, y), ctx, 2000, depth + 1):
                    ok = False
                    break
            if not ok:
                break
        if not ok:
            continue
        m, extra = {}, []
        for ga, gb_, rg in zip(va, vb2, ra):
            for x, y, r in zip(ga, gb_, rg):
                m[y] = x
                extra += [tm.le(tm.ZERO, x), tm.lt(x, r)]
        c2 = tuple(ctx) + tuple(extra)
        if na == "inv":
            k = len(ra[0])
            opts = [ab]
            if len(ra[0]) == len(ra[1]):
                opts.append(ab[k:] + ab[:k])
            good = None
            for oi, o in enumerate(opts):
                if all(x is y or prove(tm.eq(x, y), ctx, 2000, depth + 1) for x, y in zip(aa, o)):
                    good = oi
                    break
            if good is None:
                continue
            if good == 1:
                # args swapped: needs the matrix of b symmetric
                sw = {}
                for x, y in zip(vb2[0], vb2[1]):
                    sw[x], sw[y] = y, x
                bt = tm.replace(tm.replace(bodiesb[0], sw), m)
                if not prove(tm.eq(bodiesa[0], bt), c2, 3000, depth + 1):
                    continue
                return True
        if all(_body_eq(x, tm.replace(y, m), c2, depth) for x, y in zip(bodiesa, bodiesb)):
            return True
    return False


def _uses(vs, body):
    """how each bound variable occurs in the body, up to renaming"""
    sig = {v: [] for v in vs}
    for t in collect([body]):
        for v in vs:
            if v in t.fv:
                if t.op == "bind":
                    direct = sum(1 for x in t.args[3] if x is v)
                    sig[v].append(("bind", t.args[0], direct, any(x is not v and v in x.fv for x in t.args[3])))
                elif t.op == "app":
                    sig[v].append(("app", t.args[0], tuple(i for i, x in enumerate(t.args[1:]) if x is v)))
    return {v: sorted(map(repr, l)) for v, l in sig.items()}


def _perms(va, ra, a, vb, rb, b):
    """index permutations worth trying to identify two sums"""
    n = len(vb)
    if n <= 4:
        return list(itertools.permutations(range(n)))
    sa, sb = _uses(va, a), _uses(vb, b)
    cls = [[j for j in range(n) if sa[va[i]] == sb[vb[j]] and (ra[i] is rb[j] or not (tm.is_num(ra[i]) and tm.is_num(rb[j])))]
           for i in range(n)]
    out = []

    def rec(i, used):
        if len(out) >= 150:
            return
        if i == n:
            out.append(tuple(used))
            return
        for j in cls[i]:
            if j not in used:
                rec(i + 1, used + [j])
    rec(0, [])
    syn = []
    for p in out:
        m = {vb[p[i]]: va[i] for i in range(n)}
        if tm.replace(b, m) is a:
            return [p]
        syn.append(p)
    return syn[:24]


def _body_eq(x, y, ctx, depth):
    if x is y:
        return True
    if x.sort == "B":
        return bool(prove(tm.implies(x, y), ctx, 3000, depth + 1)
                    and prove(tm.implies(y, x), ctx, 3000, depth + 1))
    if not _quick(x, y):
        return False
    return bool(prove(tm.eq(x, y), ctx, 3000, depth + 1))


def _quick(x, y):
    return True


def sat_model(ctx, timeout=4000):
    """a z3 model of ctx (path condition) or None"""
    x = Xlate(False)
    facts = instance_facts(list(ctx))
    s = z3.Solver()
    s.set("timeout", timeout)
    for c in list(ctx) + facts:
        s.add(x(c))
    STATS["z3_calls"] += 1
    t0 = time.time()
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    if r == z3.sat:
        return s.model()
    return None


def model_value(m, v):
    """value of a variable term in a z3 model"""
    c = Xlate(False)(v)
    e = m.eval(c, model_completion=False)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_algebraic_value(e):
        a = e.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
