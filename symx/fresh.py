"""Fresh imports of the real modules from /repo/lib (the current working tree).

Every "process" a harness simulates gets its own new set of fbuild modules, so
module-level state starts out exactly as in a new interpreter.  Sources are
compiled once per run and cached.
"""
import collections
import collections.abc
import importlib.abc
import importlib.machinery
import importlib.util
import inspect as _inspect
import os
import sys
import warnings

LIB = '/repo/lib'

if not hasattr(collections, 'Iterable'):
    # fbuild's deployment interpreter is Python 3.9, where the ABC aliases in
    # collections still exist.
    collections.Iterable = collections.abc.Iterable
if hasattr(_inspect, '__all__'):
    # fbuild.inspect does `from inspect import *` and relies on 3.9's missing
    # __all__ (it uses inspect's `re` import).
    del _inspect.__all__

warnings.filterwarnings('ignore', category=SyntaxWarning)
warnings.filterwarnings('ignore', category=DeprecationWarning)

_code = {}
transform = None        # (name, source, path) -> code or None
inject = {}             # globals given to every loaded module


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg

    def create_module(self, spec):
        return None

    def get_source(self, name):
        with open(self.path) as f:
            return f.read()

    def exec_module(self, module):
        module.__dict__.update(inject)
        code = None
        if transform is not None:
            code = transform(self.name, self.get_source(self.name), self.path)
        if code is None:
            code = code_for(self.name, self.path)
        exec(code, module.__dict__)


def code_for(name, path):
    c = _code.get(path)
    if c is None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        c = _code[path] = compile(src, path, 'exec', dont_inherit=True)
    return c


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'fbuild' and not name.startswith('fbuild.'):
            return None
        base = os.path.join(LIB, *name.split('.'))
        for cand, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if cand in _code or os.path.isfile(cand):
                spec = importlib.machinery.ModuleSpec(
                    name, _Loader(name, cand, pkg), origin=cand, is_package=pkg)
                spec.has_location = True
                return spec
        return None


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


def forget(*extra):
    """Drop all fbuild modules (and the given ones)."""
    for name in list(sys.modules):
        if name == 'fbuild' or name.startswith('fbuild.') or name in extra:
            del sys.modules[name]


def load(*names):
    install()
    mods = []
    for n in names:
        __import__(n)
        mods.append(sys.modules[n])
    return mods
