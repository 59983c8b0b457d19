"""Several processes of a distributed run, executed in one interpreter (used by both modes).

Every process is a thread with its own copy of the library (imported under backend "mpi" with its rank and the
communicator size); exactly one runs at a time. The communicator below is the contract assumed of mpi4py:
point-to-point messages are matched by (source, destination, tag) in order, sends are synchronous (the least
permissive semantics MPI allows: a program that needs buffering is reported as a deadlock), collectives match by
their order on every process, and reductions combine the contributions in rank order. Without wildcard receives
the outcome does not depend on the order in which the processes run."""
import copy
import os
import sys
import threading
import types

from .libctx import ours

threading.stack_size(512 * 1024 * 1024)


class Here:
    rank, size = 0, 1  # of the process being imported or run
    run = None


class Mismatch(Exception):
    """deadlock, unmatched message or collective"""


class Unmodelled(Exception):
    """a use of mpi4py outside this contract"""


class Abort(BaseException):
    pass


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)


def _min(a, b):
    return a if a < b else b


def _max(a, b):
    return b if a < b else a


OPS = dict(SUM=Op("SUM", lambda a, b: a + b), PROD=Op("PROD", lambda a, b: a * b), MIN=Op("MIN", _min), MAX=Op("MAX", _max))


def dup(x):
    """messages are copies"""
    if isinstance(x, (list, tuple)):
        return type(x)(dup(y) for y in x)
    if isinstance(x, dict):
        return {k: dup(v) for k, v in x.items()}
    if hasattr(x, "axes") and hasattr(x, "st"):  # symbolic array
        return x.copy()
    if type(x).__module__.startswith(("numpy", "torch", "builtins")):
        return copy.deepcopy(x)
    return x


class Request:
    """of a posted send"""

    def __init__(self, done):
        self.done = done

    def wait(self, status=None):
        self.done(True)

    Wait = wait

    def test(self, status=None):
        return (self.done(False), None)

    @staticmethod
    def waitall(requests, statuses=None):
        for r in requests:
            r.wait()

    Waitall = waitall


class Comm:
    """the communicator of all processes; rank and size are those of the process that created it"""

    def __init__(self, comm=None):
        self.rank, self.size = Here.rank, Here.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _run(self):
        if Here.run is None:
            if self.size == 1:
                return Run(1)
            raise Mismatch("communication outside the run")
        return Here.run

    def send(self, obj, dest, tag=0):
        self._run().send(self.rank, dest, tag, dup(obj))

    ssend = send

    def isend(self, obj, dest, tag=0):
        return Request(self._run().post(self.rank, dest, tag, dup(obj)))

    issend = isend

    def recv(self, buf=None, source=None, tag=-1, status=None):
        if source is None or source < 0:
            raise Unmodelled("wildcard receive")
        return self._run().recv(self.rank, source, tag)

    def bcast(self, obj, root=0):
        v = self._run().collective(self.rank, ("bcast", root), dup(obj))
        return dup(v[root])

    def gather(self, obj, root=0):
        v = self._run().collective(self.rank, ("gather", root), dup(obj))
        return dup(v) if self.rank == root else None

    def scatter(self, objs, root=0):
        v = self._run().collective(self.rank, ("scatter", root), dup(objs))
        if len(v[root]) != self.size:
            raise ValueError(f"expecting {self.size} items, got {len(v[root])}")
        return dup(v[root][self.rank])

    def allgather(self, obj):
        return dup(self._run().collective(self.rank, ("allgather",), dup(obj)))

    def _fold(self, v, op):
        op = op or OPS["SUM"]
        r = v[0]
        for x in v[1:]:
            r = op(r, x)
        return dup(r)

    def allreduce(self, obj, op=None):
        return self._fold(self._run().collective(self.rank, ("allreduce", (op or OPS["SUM"]).name), dup(obj)), op)

    def reduce(self, obj, op=None, root=0):
        v = self._run().collective(self.rank, ("reduce", (op or OPS["SUM"]).name, root), dup(obj))
        return self._fold(v, op) if self.rank == root else None

    def barrier(self):
        self._run().collective(self.rank, ("barrier",), None)

    Barrier = barrier

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unmodelled(f"communicator operation {name}")


class Run:
    """one distributed execution"""

    def __init__(self, size):
        self.size = size
        self.cv = threading.Condition()
        self.turn = None
        self.msgs = []  # (source, dest, tag, payload) not yet received
        self.rounds = []  # collectives: {rank: (signature, payload)}
        self.count = [0] * size
        self.waiting = {}  # rank -> condition it waits for
        self.done = set()
        self.dead = False
        self.optimizers, self.first = {}, {}  # see pv.shims.Proposal

    # -------------------------------------------------- scheduling
    def _block(self, rank, ready):
        """give way until ready()"""
        while not ready():
            if self.size == 1:
                raise Mismatch("a single process waits for itself")
            self.waiting[rank] = ready
            with self.cv:
                self.turn = None
                self.cv.notify_all()
                while self.turn != rank:
                    if self.dead:
                        raise Abort()
                    self.cv.wait()
            self.waiting.pop(rank, None)
            instances(rank, self.size).activate()

    def post(self, rank, dest, tag, obj):
        if not (isinstance(dest, int) and 0 <= dest < self.size):
            raise Mismatch(f"message to process {dest} of {self.size}")
        m = [rank, dest, tag, obj, False]
        self.msgs.append(m)

        def done(wait):
            if wait:
                self._block(rank, lambda: m[4])
            return m[4]
        return done

    def send(self, rank, dest, tag, obj):
        self.post(rank, dest, tag, obj)(True)

    def recv(self, rank, source, tag):
        def find():
            return next((m for m in self.msgs if m[0] == source and m[1] == rank and (tag < 0 or m[2] == tag)), None)
        self._block(rank, lambda: find() is not None)
        m = find()
        self.msgs.remove(m)
        m[4] = True
        return m[3]

    def collective(self, rank, sig, obj):
        k = self.count[rank]
        self.count[rank] += 1
        while len(self.rounds) <= k:
            self.rounds.append({})
        r = self.rounds[k]
        if any(s != sig for s, _ in r.values()):
            raise Mismatch(f"collective {sig} meets {[s for s, _ in r.values()]}")
        r[rank] = (sig, obj)
        self._block(rank, lambda: len(r) == self.size)
        return [r[q][1] for q in range(self.size)]

    # -------------------------------------------------- execution
    def go(self, body):
        results, errors, failed = [None] * self.size, [], [None]

        def main(rank):
            try:
                with self.cv:
                    while self.turn != rank:
                        if self.dead:
                            return
                        self.cv.wait()
                instances(rank, self.size).activate()
                results[rank] = body(rank)
            except Abort:
                pass
            except BaseException as e:
                errors.append((rank, e))
            finally:
                with self.cv:
                    self.done.add(rank)
                    self.turn = None
                    self.cv.notify_all()

        before = {k: v for k, v in sys.modules.items() if ours(k)}
        old, Here.run = Here.run, self
        ts = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(self.size)]
        try:
            for t in ts:
                t.start()
            while len(self.done) < self.size and not errors:
                nxt = next((r for r in range(self.size) if r not in self.done and (r not in self.waiting or self.waiting[r]())), None)
                if nxt is None:
                    raise Mismatch("deadlock: processes %s wait for each other" % sorted(set(range(self.size)) - self.done))
                Here.rank = nxt
                with self.cv:
                    self.turn = nxt
                    self.cv.notify_all()
                    while self.turn is not None:
                        self.cv.wait()
        finally:
            with self.cv:
                self.dead = True
                self.cv.notify_all()
            for t in ts:
                t.join()
            Here.run, Here.rank = old, 0
            Instance.leave()
            sys.modules.update(before)
        if errors:
            raise errors[0][1]
        if self.msgs:
            raise Mismatch("messages that no process receives")
        return results


class Instance:
    """a copy of the library"""
    active = None

    def __init__(self, backend, rank, size):
        self.backend, self.rank, self.size = backend, rank, size
        self.modules = {}

    def activate(self):
        if Instance.active is self:
            return
        Instance.leave()
        sys.modules.update(self.modules)
        Instance.active = self
        Here.rank, Here.size = self.rank, self.size
        os.environ["MUYGPYS_BACKEND"] = self.backend

    @staticmethod
    def leave():
        a = Instance.active
        gone = {k: v for k, v in sys.modules.items() if ours(k)}
        for k in gone:
            del sys.modules[k]
        if a is not None:
            a.modules = gone
        Instance.active = None
        Here.rank, Here.size = 0, 1
        return gone


_inst = {}


def instances(rank, size, backend="mpi"):
    key = (backend, rank, size)
    if key not in _inst:
        _inst[key] = Instance(backend, rank, size)
    return _inst[key]


def spmd(size, body):
    """body(rank) on every process; their results in rank order"""
    env = os.environ.get("MUYGPYS_BACKEND")
    try:
        return Run(size).go(body)
    finally:
        os.environ["MUYGPYS_BACKEND"] = env or "mpi"


def serial(body, backend="numpy"):
    """body() with the serial library"""
    env = os.environ.get("MUYGPYS_BACKEND")
    before = {k: v for k, v in sys.modules.items() if ours(k)}
    try:
        instances(0, 1, backend).activate()
        return body()
    finally:
        Instance.leave()
        sys.modules.update(before)
        os.environ["MUYGPYS_BACKEND"] = env or "mpi"


def install(module=None):
    """mpi4py as far as it is used"""
    if module is None:
        def module(name, **k):
            m = types.ModuleType(name)
            m.__dict__.update(k)
            sys.modules[name] = m
            if "." in name:
                p, _, leaf = name.rpartition(".")
                setattr(sys.modules[p], leaf, m)
            return m
    m = module("mpi4py")
    mpi = module("mpi4py.MPI", COMM_WORLD=None, Intracomm=Comm, Request=Request, ANY_SOURCE=-1, ANY_TAG=-1, **OPS)
    mpi.__dict__["COMM_WORLD"] = _World()
    u = module("mpi4py.util")
    p = module("mpi4py.util.pkl5", Intracomm=Comm)
    m.MPI, m.util, u.pkl5 = mpi, u, p


class _World:
    """MPI.COMM_WORLD used directly"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(Comm(), name)
