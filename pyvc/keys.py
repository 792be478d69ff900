"""Symbolic keys and shapes (rank-free)."""
import numpy as np
import z3
from . import core, seqs
from .core import SInt, SBool, Limitation, EndPath, ctx, lift, num, raises
from .seqs import Base, Seg, Item, SSlice, VTuple, VList, VSeq


def ints(name, n=None, lo=None):
    """A tuple of symbolic length of integers; the elements are given by an
    uninterpreted function of the position."""
    c = ctx()
    f = z3.Function(c.fresh_name(name), z3.IntSort(), z3.IntSort())
    if n is None:
        n = c.int(name + '.len', 0)

    def get(z):
        if lo is not None:
            c.assume(f(z) >= lo)
        return num(f(z))
    b = Base(name, get, n)
    b.f = f
    return VTuple([Seg(b, 0, n)])


class BoolVec(object):
    """A one-dimensional boolean ndarray of symbolic length."""
    is_model = True
    models_types = (np.ndarray,)
    dtype = np.dtype('bool')
    ndim = 1

    def __init__(self, name):
        c = ctx()
        self.name = name
        self.size = c.int(name + '.size', 0)
        self.count = c.int(name + '.true', 0)
        c.assume(self.count.z <= self.size.z)
        self.pos = z3.Function(c.fresh_name(name + '.pos'), z3.IntSort(),
                               z3.IntSort())
        self._nonzero = None

    @property
    def shape(self):
        return (self.size,)

    def vlen(self):
        return self.size

    def vsum(self):
        return self.count

    def sum(self):
        return self.count

    def flatnonzero(self):
        """Ascending positions of the true elements."""
        c = ctx()
        if self._nonzero is None:
            def get(z):
                v = self.pos(z)
                c.assume(z3.Implies(z3.And(0 <= z, z < self.count.z),
                                    z3.And(0 <= v, v < self.size.z)))
                return num(v)
            b = Base(self.name + '.nonzero', get, self.count)
            b.f = self.pos
            self._nonzero = VTuple([Seg(b, 0, self.count)])
        return self._nonzero

    def __getattr__(self, name):
        raise Limitation('boolean vector: .' + name)


KINDS = ('int', 'slice', 'tuple', 'bool', 'newaxis')


def key(name, kinds):
    """An arbitrary key of one of the kinds (by forking)."""
    c = ctx()
    kind = c.among(kinds)
    if kind == 'int':
        return c.int(name)
    if kind == 'npint':
        return core.SNpInt(c.int(name).z)
    if kind == 'slice':
        return SSlice(generic=c.fresh_name(name + '.slice'))
    if kind == 'full':
        return SSlice(None, None, None)
    if kind == 'slice1':
        # A slice given by its parts, step one.
        return SSlice(c.int(name + '.start'), c.int(name + '.stop'), None)
    if kind == 'tuple':
        return ints(name)
    if kind == 'bool':
        return BoolVec(name)
    if kind == 'newaxis':
        return None
    if kind == 'ellipsis':
        return Ellipsis
    raise ValueError(kind)


def keyseq(name, kinds, n=None):
    """A tuple of symbolic length of arbitrary keys."""
    c = ctx()
    if n is None:
        n = c.int(name + '.len', 0)
    def get(z):
        k = key('%s[%s]' % (name, len(b.memo)), kinds)
        if isinstance(k, VTuple):
            k.parts[0].base.parent = (b, z)
        return k
    b = Base(name, get, n)
    b.alias = True
    return VTuple([Seg(b, 0, n)]), b


def sizes(name, n=None):
    """A shape of symbolic rank."""
    return ints(name, n, 0)


def kind_of_key(k):
    if k is None:
        return 'newaxis'
    if k is Ellipsis:
        return 'ellipsis'
    if isinstance(k, (int, SInt, np.integer)):
        return 'int'
    if seqs.as_slice(k) is not None:
        return 'slice'
    if isinstance(k, (BoolVec,)):
        return 'bool'
    if isinstance(k, np.ndarray) and k.dtype == bool:
        return 'bool'
    if isinstance(k, (tuple, VTuple, np.ndarray)):
        return 'tuple'
    return '?'
