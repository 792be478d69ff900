"""NumPy as the code under contract sees it: real NumPy on concrete values,
assumed contracts (models) on symbolic ones."""
import types
import numpy as np
import z3
from . import core, seqs, loops
from .core import (SInt, SBool, SNum, SReal, Limitation, ctx, lift, num,
                   raises)
from .seqs import SSlice, VSeq, VList, VTuple, Item, Seg, parts_of


def plain(x):
    """The concrete Python value; raises Limitation if there is none."""
    if isinstance(x, (SNum, SBool)):
        raise Limitation('symbolic argument of NumPy')
    if isinstance(x, VSeq):
        c = x.concrete()
        if c is None:
            raise Limitation('symbolic sequence as argument of NumPy')
        r = [plain(v) for v in c]
        return r if x.kind != 'tuple' else tuple(r)
    if isinstance(x, SSlice):
        return slice(plain(x.start), plain(x.stop), plain(x.step))
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(plain(v) for v in x)
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, loops.Poison):
        raise Limitation('unknown value')
    if getattr(x, 'is_model', False):
        raise Limitation('model as argument of NumPy')
    return getattr(x, 'real', x) if type(x).__name__ == 'PType' else x


def passthrough(f, name, where=''):
    def wrapper(*a, **k):
        for x in a:
            h = getattr(type(x), 'np_call', None)
            if h is not None:
                return h(x, where + name, f, a, k)
        a = [plain(x) for x in a]
        k = {n: plain(x) for n, x in k.items()}
        return f(*a, **k)
    wrapper.__name__ = name
    wrapper.real = f
    return wrapper


class NumpyProxy(types.ModuleType):
    def __init__(self, real, name, models):
        types.ModuleType.__init__(self, name)
        self._real = real
        self._models = models
        self._cache = {}
        self.__name__ = name

    def __getattr__(self, name):
        if name in self._models:
            return self._models[name]
        if name == 'product':
            return passthrough(np.prod, 'product')
        if name in self._cache:
            return self._cache[name]
        r = getattr(self._real, name)
        if isinstance(r, type) or isinstance(r, np.ufunc):
            return r
        if callable(r):
            r = passthrough(r, name, 'ma.' if self._real is np.ma else '')
            self._cache[name] = r
        return r


def proxies(models=None, ma_models=None):
    p = NumpyProxy(np, 'numpy', dict(models or {}))
    p.ma = NumpyProxy(np.ma, 'numpy.ma', dict(ma_models or {}))
    return p
