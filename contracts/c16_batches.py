"""C16: batches are valid subsets aligned with their neighbor sets.

The neighbor lookup is used through its contract (C15): get_batch_nns(indices) returns, row
by row, the neighbors of the training points named by the indices, never the point itself."""
try:
    import numpy as np
except ImportError:      # check.py only reads the list of units
    np = None
from pv.unit import unit

M = "MuyGPyS.optimize.batch:"
S, F, B, G = [M + "sample_batch"], [M + "full_filtered_batch"], [M + "sample_balanced_batch"], [M + "get_balanced_batch"]


def batch():
    from MuyGPyS.optimize import batch
    return batch


class Lookup:
    """contract of NN_Wrapper.get_batch_nns"""

    def __init__(self, c, N, k):
        self.c, self.N, self.nn_count, self.train_count = c, N, k, N
        c.function("nbr", 2, kind="i", facts=lambda i, j: c.implies(
            c.and_(0 <= i, i < N, 0 <= j, j < k),
            c.and_(0 <= c.call("nbr", i, j), c.call("nbr", i, j) < N, c.not_(c.eq(c.call("nbr", i, j), i)))))

    def get_batch_nns(self, indices):
        r = self.c.read(indices)
        m = indices.shape[0]
        I = self.c.build((m, self.nn_count), lambda i, j: self.c.call("nbr", r[i], j), kind="i")
        D = self.c.tensor("nbr_dist", m, self.nn_count, lo=0.0)
        return I, D

    def nbr(self, i, j):
        return self.c.call("nbr", i, j)


class Real:
    """the real lookup, for evaluation"""

    def __init__(self, c, N, k):
        from MuyGPyS.neighbors import NN_Wrapper
        X = c.tensor("train", N, 2)
        self.w = NN_Wrapper(X, k, nn_method="exact", algorithm="brute")
        self.get_batch_nns = self.w.get_batch_nns
        I = np.asarray(self.w.get_batch_nns(c._out(np.arange(N), None))[0])
        self.nbr = lambda i, j: int(I[int(i), j])


def setup(c):
    N, k = c.dim("N", lo=2, hi=None if c.symbolic else 14), c.dim("k")
    c.assume(k + 1 <= N)
    return N, k, (Lookup if c.symbolic else Real)(c, N, k)


def rows(c, idx, nn, m, N, k, look, label):
    """indices are distinct and in range, rows are theirs"""
    r = c.read(idx)
    c.arr(nn, [m, k], lambda i, j: look.nbr(r[i], j), label + ": neighbor rows", kind="i")
    c.arr(idx, [m], lambda i: r[i], label + ": indices", kind="i")
    c.true(c.forall(m, lambda i: c.and_(0 <= r[i], r[i] < N)), label + ": in range")
    c.true(c.forall((m, m), lambda i, j: c.or_(c.eq(i, j), c.not_(c.eq(r[i], r[j])))), label + ": distinct")
    return r


@unit("C16", fns=S)
def batch_sample(c):
    """uniform batches: the requested count, or all of the data when fewer exist"""
    N, k, look = setup(c)
    n = c.dim("batch_count", hi=None if c.symbolic else 16)
    c.watch()
    idx, nn = batch().sample_batch(look if c.symbolic else look.w, n, N)
    m = c.ite_int(n < N, n, N)
    r = rows(c, idx, nn, m, N, k, look, "batch")
    c.true(c.implies(N <= n, c.forall(m, lambda i: c.eq(r[i], i))), "all of the data when fewer exist")
    for pop, size, rep, pos in c.choices():
        c.true(c.eq(pop, N), "drawn from all of the data")


def mixed(c, look, lab, k, i):
    """the neighbors of i are not all of one class"""
    return c.not_(c.forall(k, lambda j: c.eq(lab[look.nbr(i, j)], lab[look.nbr(i, 0)])))


def check_full(c, idx, nn, N, k, look, lab, label):
    m = idx.shape[0]
    r = rows(c, idx, nn, m, N, k, look, label)
    c.true(c.forall(m, lambda i: mixed(c, look, lab, k, r[i])), label + ": neighborhoods of several classes")
    c.exists_for_all(N, lambda i: mixed(c, look, lab, k, i), m, lambda i, t: c.eq(r[t], i),
                     label + ": every point with such a neighborhood is taken")


@unit("C16", fns=F)
def batch_filtered(c):
    N, k, look = setup(c)
    L, vs = c.labels("labels", N, c.choose("classes", [1, 2, 3]), lib="np" if c.backend == "numpy" or c.boolean("numpy_labels") else None)
    idx, nn = batch().full_filtered_batch(look if c.symbolic else look.w, L)
    check_full(c, idx, nn, N, k, look, c.read(L), "batch")


def check_balanced(c, idx, nn, n, N, k, look, lab, vs, label):
    each = c.floordiv(n, len(vs))
    sizes, start = [], 0
    for v in vs:
        cnt = c.count(N, lambda i: c.and_(mixed(c, look, lab, k, i), c.eq(lab[i], v)))
        sizes.append(c.ite_int(cnt < each, cnt, each))
    m = idx.shape[0]
    c.true(c.eq(m, sum(sizes)), label + ": the same number from every class as far as each has them")
    r = rows(c, idx, nn, m, N, k, look, label)
    for v, s in zip(vs, sizes):
        c.true(c.forall(s, lambda i, start=start: c.eq(lab[r[start + i]], v)), label + ": each class takes its share")
        c.true(c.forall(s, lambda i, start=start: mixed(c, look, lab, k, r[start + i])), label + ": neighborhoods of several classes")
        start = start + s


@unit("C16", fns=B)
def batch_balanced(c):
    N, k, look = setup(c)
    C = c.choose("classes", [1, 2, 3])
    n = c.dim("batch_count", hi=None if c.symbolic else 12)
    c.watch()
    L, vs = c.labels("labels", N, C, lib="np" if c.backend == "numpy" or c.boolean("numpy_labels") else None)
    idx, nn = batch().sample_balanced_batch(look if c.symbolic else look.w, L, n)
    check_balanced(c, idx, nn, n, N, k, look, c.read(L), vs, "batch")


@unit("C16", fns=G)
def batch_get_balanced(c):
    """balanced sampling when there are more points than requested, else every filtered point"""
    N, k, look = setup(c)
    C = c.choose("classes", [1, 2])
    n = c.dim("batch_count", hi=None if c.symbolic else 16)
    c.watch()
    L, vs = c.labels("labels", N, C, lib="np" if c.backend == "numpy" or c.boolean("numpy_labels") else None)
    idx, nn = batch().get_balanced_batch(look if c.symbolic else look.w, L, n)
    if N > n:
        check_balanced(c, idx, nn, n, N, k, look, c.read(L), vs, "batch")
    else:
        check_full(c, idx, nn, N, k, look, c.read(L), "batch")
