import os, sys, warnings
_done = False


def init(src):
    """make the working tree importable, switch JAX to double precision, and make sure it is what we test"""
    global _done
    if _done:
        return
    sys.path.insert(0, src)
    warnings.filterwarnings("ignore")
    import jax
    jax.config.update("jax_enable_x64", True)
    import microjax
    where = os.path.abspath(microjax.__file__)
    if not where.startswith(os.path.abspath(src) + os.sep):
        raise RuntimeError("microjax was imported from %s, not from %s" % (where, src))
    _done = True


def get(path):
    """microjax.a.b:name -> object; RepoMissing when a refactoring has moved an internal name away"""
    import importlib
    from vlib.core import RepoMissing
    m, _, n = path.partition(":")
    try:
        mod = importlib.import_module(m)
    except ModuleNotFoundError as e:
        raise RepoMissing("module %s not present" % m)
    if not hasattr(mod, n):
        raise RepoMissing("%s not present" % path)
    return getattr(mod, n)
