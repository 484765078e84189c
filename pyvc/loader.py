"""Loads /repo/bayes_optim a second time as the shadow package `vbo`: same source files,
rewritten by transform.py, with numpy / scipy.stats.norm replaced by the symbolic shims.
Without an active verification context every shim falls through to the real library."""
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import runtime, symnp, transform

REPO = os.environ.get("PYVC_REPO", "/repo")
PKG = "bayes_optim"
SHADOW = "vbo"
_real_import = __import__
FILES = {}


def _np_random_mod():
    m = types.ModuleType("numpy.random")
    m.__getattr__ = lambda n: getattr(symnp.random, n)
    return m


class _StatsShim:
    norm = symnp.norm

    def __getattr__(self, n):
        import scipy.stats

        return getattr(scipy.stats, n)


_SHIMS = {}


def shims():
    if not _SHIMS:
        _SHIMS["numpy"] = symnp.np
        _SHIMS["numpy.random"] = symnp.random
        _SHIMS["scipy.stats"] = _StatsShim()
        try:
            from . import symtorch

            _SHIMS["torch"] = symtorch.torch
        except ImportError:
            pass
    return _SHIMS


def shadow_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        s = shims()
        if name == PKG or name.startswith(PKG + "."):
            name = SHADOW + name[len(PKG):]
        elif name in s and (fromlist or "." not in name):
            return s[name]
        elif name.startswith("numpy.") and not fromlist:
            return s["numpy"]
    return _real_import(name, globals, locals, fromlist, level)


class _Loader(importlib.abc.Loader):
    def __init__(self, path, fullname):
        self.path, self.fullname = path, fullname

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        FILES[self.fullname] = self.path
        rel = self.fullname[len(SHADOW) + 1 :]
        tree = transform.rewrite(src, rel, self.path)
        b = dict(runtime.BUILTINS)
        b["__import__"] = shadow_import
        module.__dict__["__builtins__"] = b
        module.__dict__["_pyvc_"] = runtime
        exec(compile(tree, self.path, "exec"), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != SHADOW and not name.startswith(SHADOW + "."):
            return None
        parts = name.split(".")[1:]
        base = os.path.join(REPO, PKG, *parts)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(name, _Loader(p, name), is_package=True, origin=p)
            spec.submodule_search_locations = [base]
            return spec
        p = base + ".py"
        if os.path.exists(p):
            return importlib.machinery.ModuleSpec(name, _Loader(p, name), origin=p)
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def load(mod):
    install()
    import importlib

    return importlib.import_module(SHADOW + ("." + mod if mod else ""))
