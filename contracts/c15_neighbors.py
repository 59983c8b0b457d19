"""C15: nearest-neighbor lookup returns the documented neighbor sets.

External contract used: the index library returns, per query row, the requested number of
distinct in-range training rows, nearest first (exact back end). Nothing is assumed about
where a training point appears in the answer to its own query."""
try:
    import numpy as np
except ImportError:      # check.py only reads the list of units
    np = None
from pv.unit import unit

NN = "MuyGPyS.neighbors:NN_Wrapper."
Q = [NN + "__init__", NN + "get_nns", NN + "_get_nns"]
BQ = [NN + "__init__", NN + "get_batch_nns", NN + "_get_nns"]


def data(c, one_d=False):
    N, F, k = c.dim("N", lo=2, hi=None if c.symbolic else 12), 1 if one_d else c.dim("F"), c.dim("k")
    c.assume(k + 1 <= N)
    X = c.tensor("train", N) if one_d else c.tensor("train", N, F)
    if not c.symbolic and c.boolean("duplicates"):
        X = c._out(np.array(np.asarray(X)[np.arange(N) % c.dim('distinct', hi=3)]), None)
    return N, F, k, X


def wrapper(X, k, method, **kw):
    from MuyGPyS.neighbors import NN_Wrapper
    return NN_Wrapper(X, k, nn_method=method, **kw)


def sqd(X, P):
    X, P = (np.asarray(a, dtype=float).reshape(len(a), -1) for a in (X, P))
    return ((P[:, None, :] - X[None, :, :]) ** 2).sum(-1)


def brute(c, X, P, k, I, D, own=None, squared=True, ascending=True, p=2):
    """concrete oracle: the k nearest training rows (other than the point itself)"""
    I, D = np.asarray(I), np.asarray(D, dtype=float)
    if p == 2:
        dist = sqd(X, P)
    else:
        dist = np.abs(np.asarray(P, float).reshape(len(P), -1)[:, None, :] - np.asarray(X, float).reshape(len(X), -1)[None]).sum(-1)
    c.true(I.shape == (len(P), k) and D.shape == (len(P), k), "shape")
    for i in range(len(P)):
        row = [j for j in range(len(X)) if own is None or j != int(own[i])]
        c.true(len(set(I[i])) == k, "distinct neighbors")
        c.true(all(int(j) in row for j in I[i]), "in-range neighbors other than the point itself")
        c.true(np.allclose(D[i], dist[i, I[i]], rtol=1e-5, atol=1e-6), "distances of the named points")
        if ascending:
            c.true(bool(np.all(np.diff(D[i]) >= -1e-9)), "increasing distance")
            c.true(np.allclose(np.sort(D[i]), np.sort(dist[i, row])[:k], rtol=1e-5, atol=1e-6), "nearest neighbors")


def answered(c, X, P, b, k, I, D, f, count, one_d=False):
    """the one library query made, and the answer it gave"""
    qs = c.queries()
    c.true(len(qs) == 1, "one library query")
    q = qs[0]
    N, F = X.shape[0], (1 if one_d else X.shape[1])
    d, p, x, t = q["data"], q["points"], c.read(X), c.read(P)
    at = (lambda r, i, j: r[i]) if one_d else (lambda r, i, j: r[i, j])
    c.true(c.forall((N, F), lambda i, j: c.eq(d[i, j], at(x, i, j))), "the indexed data are the training data")
    c.true(c.forall((b, F), lambda i, j: c.eq(p[i, j], at(t, i, j))), "the query points")
    c.true(q["count"] == count, "number of neighbors requested")
    return q


def lookup(c, method, one_d=False, f=lambda d: d * d, norm=2, **kw):
    N, F, k, X = data(c, one_d)
    b = c.dim("b")
    T = c.tensor("test", b) if one_d else c.tensor("test", b, F)
    w = wrapper(X, k, method, **kw)
    I, D = w.get_nns(T)
    if not c.symbolic:
        return brute(c, X, T, k, I, D, p=norm, ascending=method == "exact")
    q = answered(c, X, T, b, k, I, D, f, k, one_d)
    qi, qd = q["indices"], q["dists"]
    c.arr(I, [b, k], lambda i, j: qi[i, j], "neighbor indices", kind="i")
    c.arr(D, [b, k], lambda i, j: f(qd[i, j]), "neighbor distances")
    if method == "exact":
        r = c.read(D)
        i, j = c.dim("i", lo=0), c.dim("j", lo=0)
        c.assume(c.and_(i < b, j + 1 < k))
        c.true(r[i, j] <= r[i, j + 1], "increasing distance")
    return q


@unit("C15", fns=Q)
def nn_exact(c):
    lookup(c, "exact")


@unit("C15", fns=Q)
def nn_exact_one_feature(c):
    """one-dimensional training and test data are single-column matrices"""
    lookup(c, "exact", one_d=True)


@unit("C15", fns=Q)
def nn_exact_metric(c):
    """options reach the library; other metrics' distances are returned as the library gives them"""
    kw, p = c.choose("options", [(dict(metric="l1", algorithm="brute"), 1), (dict(p=1, algorithm="ball_tree"), 1),
                                 (dict(p=2, algorithm="kd_tree"), 2), (dict(metric="manhattan", leaf_size=3), 1),
                                 (dict(metric="minkowski", n_jobs=1), 2)])
    q = lookup(c, "exact", f=(lambda d: d * d) if p == 2 else (lambda d: d), norm=p, **kw)
    if c.symbolic:
        for k, v in kw.items():
            c.true(q["lib"].kwargs.get(k) == v, f"option {k}")


@unit("C15", fns=Q)
def nn_hnsw(c):
    """approximate lookup: squared distances and labels as the library returns them"""
    kw = c.choose("options", [{}, dict(space="l2", M=8, ef_construction=50, random_seed=3)])
    q = lookup(c, "hnsw", f=lambda d: d, **kw)
    if c.symbolic:
        c.true(q["lib"].space == "l2", "space")
        for k, v in kw.items():
            c.true(k == "space" or q["lib"].kwargs.get(k) == v, f"option {k}")


def leave_one_out(c, method, one_d=False, f=lambda d: d * d):
    N, F, k, X = data(c, one_d)
    b = c.dim("b")
    B = c.indices("batch", b, upper=N)
    w = wrapper(X, k, method)
    I, D = w.get_batch_nns(B)
    bi = c.read(B)
    if not c.symbolic:
        X, B = np.asarray(X), np.asarray(B)
        return brute(c, X, X[B], k, I, D, own=B, ascending=method == "exact")
    x = c.read(X)

    class P:
        shape = (b, F)
    qs = c.queries()
    c.true(len(qs) == 1, "one library query")
    q = qs[0]
    d, p = q["data"], q["points"]
    at = (lambda i, j: x[i]) if one_d else (lambda i, j: x[i, j])
    c.true(c.forall((N, F), lambda i, j: c.eq(d[i, j], at(i, j))), "the indexed data are the training data")
    c.true(c.forall((b, F), lambda i, j: c.eq(p[i, j], at(bi[i], j))), "the query points are the batch points")
    c.true(q["count"] == k + 1, "number of neighbors requested")
    qi, qd = q["indices"], q["dists"]
    # the answer without the point itself (without the farthest one if the point is not in it)
    before = lambda i, j: c.forall(j + 1, lambda t: c.not_(c.eq(qi[i, t], bi[i])))
    c.arr(I, [b, k], lambda i, j: c.ite(before(i, j), qi[i, j], qi[i, j + 1]), "neighbor indices", kind="i")
    c.arr(D, [b, k], lambda i, j: c.ite(before(i, j), f(qd[i, j]), f(qd[i, j + 1])), "neighbor distances")
    ri, rd = c.read(I), c.read(D)
    i, j, j2 = c.dim("i", lo=0), c.dim("j", lo=0), c.dim("j2", lo=0)
    c.assume(c.and_(i < b, j < k, j2 < k, c.not_(c.eq(j, j2))))
    c.true(c.not_(c.eq(ri[i, j], bi[i])), "the point itself is not among its neighbors")
    c.true(c.not_(c.eq(ri[i, j], ri[i, j2])), "distinct neighbors")
    c.true(c.and_(0 <= ri[i, j], ri[i, j] < N), "in-range neighbors")
    if method == "exact":
        c.true(c.implies(c.eq(j2, j + 1), rd[i, j] <= rd[i, j2]), "increasing distance")


@unit("C15", fns=BQ)
def nn_batch_exact(c):
    leave_one_out(c, "exact")


@unit("C15", fns=BQ)
def nn_batch_exact_one_feature(c):
    leave_one_out(c, "exact", one_d=True)


@unit("C15", fns=BQ)
def nn_batch_hnsw(c):
    leave_one_out(c, "hnsw", f=lambda d: d)


@unit("C15", fns=[NN + "__init__"])
def nn_unknown_method(c):
    N, F, k, X = data(c)
    c.raises(wrapper, X, k, c.choose("method", ["exactly", "kd_tree", ""]), exc=NotImplementedError, label="unknown methods are rejected")
