"""Importing the library afresh under another configuration (used by both modes)."""
import contextlib
import os
import sys


def ours(name):
    return name == "MuyGPyS" or name.startswith("MuyGPyS.")


@contextlib.contextmanager
def library(backend=None, ftype=None, without=()):
    """inside: no part of MuyGPyS is loaded, the configuration variables are as given and
    the packages in `without` cannot be imported; afterwards: everything as before"""
    saved = {k: v for k, v in sys.modules.items() if ours(k)}
    hidden = {k: v for k, v in sys.modules.items() if any(k == w or k.startswith(w + ".") for w in without)}
    env = {k: os.environ.get(k) for k in ("MUYGPYS_BACKEND", "MUYGPYS_FTYPE")}
    for k in saved:
        del sys.modules[k]
    for k in hidden:
        del sys.modules[k]
    for w in without:
        sys.modules[w] = None
    for k, v in zip(env, (backend, ftype)):
        os.environ.pop(k, None)
        if v is not None:
            os.environ[k] = v
    try:
        yield
    finally:
        for k in [k for k in sys.modules if ours(k)]:
            del sys.modules[k]
        for w in without:
            sys.modules.pop(w, None)
        sys.modules.update(saved)
        sys.modules.update(hidden)
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
