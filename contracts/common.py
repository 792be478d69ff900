"""Specifications shared by the contracts."""
import numpy as np
import z3
from pyvc import core, seqs, loops, keys, npmodel
from pyvc.core import (SInt, SBool, SNum, Limitation, EndPath, ctx, lift, num,
                       raises, call)
from pyvc.seqs import (Base, Seg, FSeg, Flat, Item, SSlice, VTuple, VList,
                       VSeq, veq, finish, parts_of)
from pyvc.loops import Fold, Fact, MapGhost
from pyvc.run import contract
from pyvc.keys import kind_of_key, BoolVec


def vlen(x):
    if isinstance(x, VSeq):
        return x.vlen()
    return len(x)


def at(x, z):
    """Element of a sequence at index term z (within bounds)."""
    if isinstance(x, VSeq):
        return x.at(lift(z))
    return VTuple(parts_of(x)).at(lift(z))


class ArrVec(object):
    """A one-dimensional integer ndarray given by a rope."""
    is_model = True
    models_types = (np.ndarray,)
    dtype = np.dtype('int64')
    ndim = 1

    def __init__(self, rope):
        self.rope = rope

    def vparts(self):
        return parts_of(self.rope)

    def vlen(self):
        return vlen(self.rope)

    @property
    def size(self):
        return vlen(self.rope)

    @property
    def shape(self):
        return (self.size,)

    def _each(self, o, f):
        p = parts_of(self.rope)
        if any(not isinstance(q, Item) for q in p):
            raise Limitation('arithmetic with a vector')
        if isinstance(o, ArrVec):
            q = parts_of(o.rope)
            if len(q) != len(p) or any(not isinstance(x, Item) for x in q):
                raise Limitation('arithmetic with vectors')
            return ArrVec(VTuple([Item(f(x.v, y.v)) for x, y in zip(p, q)]))
        if not isinstance(o, (int, SInt, np.integer)):
            return NotImplemented
        return ArrVec(VTuple([Item(f(x.v, o)) for x in p]))

    def __add__(self, o): return self._each(o, lambda x, y: x + y)
    def __radd__(self, o): return self._each(o, lambda x, y: y + x)
    def __sub__(self, o): return self._each(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._each(o, lambda x, y: y - x)
    def __mod__(self, o): return self._each(o, lambda x, y: x % y)

    def __isub__(self, o):
        # In place: other names see it.
        r = self - o
        self.rope = r.rope
        return self

    def __iadd__(self, o):
        r = self + o
        self.rope = r.rope
        return self

    def __iter__(self):
        return iter(self.rope)

    def tolist(self):
        return VList(parts_of(self.rope))

    def __getitem__(self, k):
        if isinstance(k, BoolVec):
            if not core.ctx().branch(lift(k.size) == lift(self.size)):
                raise raises(IndexError('boolean index did not match'))
            pos = k.flatnonzero()
            rope = VTuple(parts_of(self.rope))
            b = Base('taken', lambda z: rope.at(lift(pos.at(z))), k.count)
            return ArrVec(VTuple([Seg(b, 0, k.count)]))
        if isinstance(k, (int, SInt)):
            return VTuple(parts_of(self.rope))[k]
        s = seqs.as_slice(k)
        if s is not None:
            return ArrVec(VTuple(VTuple(parts_of(self.rope)).slice(s)))
        raise Limitation('index of a vector')

    def __getattr__(self, name):
        if name.startswith('__') or name == '_vc':
            raise AttributeError(name)
        raise Limitation('vector: .' + name)


def np_flatnonzero(x):
    if isinstance(x, BoolVec):
        return ArrVec(x.flatnonzero())
    return np.flatnonzero(npmodel.plain(x))


def np_nonzero(x):
    return (np_flatnonzero(x),)


def np_array(x, *a, **k):
    if isinstance(x, VSeq) and x.concrete() is None:
        return ArrVec(x)
    if isinstance(x, ArrVec):
        return ArrVec(x.rope)
    if isinstance(x, (tuple, list, VSeq)):
        items = parts_of(x)
        if items is not None and any(isinstance(q, Item) and isinstance(
                q.v, SInt) for q in items) and all(
                isinstance(q, Item) and isinstance(q.v, (int, SInt))
                for q in items) and not (a or k):
            return ArrVec(VTuple(items))
    return np.array(npmodel.plain(x), *a, **k)


def np_minmax(name):
    from pyvc import load
    f = {'min': load.v_min, 'max': load.v_max}[name]

    def model(x, *a, **k):
        if a or k:
            raise Limitation('np.%s with an axis' % name)
        if isinstance(x, VSeq):
            return f(x)
        return getattr(np, name)(x)
    return model


def vector_models(env):
    m = env.np._models
    m['flatnonzero'] = np_flatnonzero
    m['nonzero'] = np_nonzero
    m['array'] = np_array
    m['asarray'] = np_array
    m['min'] = np_minmax('min')
    m['max'] = np_minmax('max')
    m['amin'] = m['min']
    m['amax'] = m['max']


def within(v, size):
    """-size <= v < size"""
    v, n = lift(v), lift(size)
    return z3.And(-n <= v, v < n)


def wrap(v, size):
    v, n = lift(v), lift(size)
    return core.simp(z3.If(v < 0, v + n, v))


def selection(k, size):
    """Spec: the non-negative positions selected by a key from a dimension of
    the given size, as a rope (an integer for an integer key)."""
    kind = kind_of_key(k)
    if kind == 'int':
        return num(wrap(k, size))
    if kind == 'slice':
        s, e, st, m = seqs.as_slice(k).resolve(size)
        sz, tz = lift(s), lift(st)
        return VTuple([Seg(Base('slice', lambda z: num(sz + z * tz), m), 0,
                           lift(m))])
    if kind == 'tuple':
        n = vlen(k)
        return VTuple([Seg(Base('wrapped', lambda z: num(wrap(at(k, z),
                                                              size)), n), 0,
                           lift(n))])
    if kind == 'bool':
        return k.flatnonzero()
    raise Limitation('selection by %r' % (k,))


def same_selection(c, name, a, b):
    """Prove that two selections are equal."""
    ia, ib = isinstance(a, (int, SInt)), isinstance(b, (int, SInt))
    if ia or ib:
        c.prove(name, z3.BoolVal(False) if ia != ib else
                lift(a) == lift(b))
        return
    na, nb = lift(vlen(a)), lift(vlen(b))
    if not c.prove(name + ': length', na == nb):
        return
    i = c.int('i')
    c.assume(z3.And(0 <= i.z, i.z < na))
    c.prove(name + ': element', lift(at(a, i.z)) == lift(at(b, i.z)))


class Source(object):
    """A concrete data source whose elements must not be looked at."""
    is_model = True

    def __init__(self, shape, dtype=np.dtype('f8'), name='source'):
        self.shape = shape
        self.dtype = dtype
        self.fill_value = None
        self.reads = []
        core.ctx().user.setdefault('sources', []).append(self)

    @property
    def ndim(self):
        return vlen(self.shape)

    def __getitem__(self, k):
        self.reads.append(k)
        raise raises(ReadError('the source was read'))

    __array_priority__ = 0

    def __array__(self, *a, **k):
        self.reads.append('array')
        raise raises(ReadError('the source was read'))


class ReadError(Exception):
    pass


def no_reads(c, name='no element is read'):
    c.prove(name, not any(s.reads for s in c.user.get('sources', ())))
