"""Callee contracts used at call sites (modular verification)."""
CONTRACTS = {}  # "module:name" pattern with {B} -> (spec, requires)
_used = set()


def contract(target, backends=("numpy", "torch")):
    def deco(f):
        for b in backends:
            CONTRACTS[target.replace("{B}", b)] = f
        return f
    return deco


def activate(u, backend, c):
    from . import loader
    loader.STUBS.clear()
    _used.clear()
    for t in u.uses:
        t = t.replace("{B}", backend)
        spec = CONTRACTS.get(t)
        if spec is None:
            continue

        def stub(f, a, k, spec=spec, t=t):
            r = spec(c, f, *a, **k)
            if r is not NotImplemented:
                _used.add(t)
            return r
        loader.STUBS[t] = stub


def deactivate():
    from . import loader
    loader.STUBS.clear()


def used():
    return set(_used)
