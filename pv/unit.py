"""Registry of verification units (contract + harness), usable in both modes."""
UNITS = []


class Unit:
    def __init__(self, prop, name, fn, backends, fns, trials, lemma, bounded, uses, paths):
        self.props = (prop,) if isinstance(prop, str) else tuple(prop)
        self.name, self.fn, self.backends, self.fns = name, fn, backends, fns
        self.trials, self.lemma, self.bounded, self.uses = trials, lemma, bounded, uses
        self.paths = paths


def unit(prop, backends=("numpy", "torch"), fns=(), trials=12, lemma=False, bounded=False, uses=(), name=None, paths=96):
    """prop: property id(s); fns: functions of /repo put under contract;
    bounded=True: concrete stand-in only, never counted as proved;
    lemma=True: an internal contract (a failure disables its use by callers but is no verdict)"""

    def deco(f):
        UNITS.append(Unit(prop, name or f.__name__, f, tuple(backends), tuple(fns), trials, lemma, bounded, tuple(uses), paths))
        return f

    return deco


def load():
    import importlib
    import os
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("contracts." + f[:-3])
    names = set()
    for u in UNITS:
        assert u.name not in names, "duplicate unit " + u.name
        names.add(u.name)
    return UNITS
