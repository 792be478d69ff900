"""Symbolic sequences, slices and the equality of values."""
import z3
import numpy as np
from . import core
from .core import (SInt, SBool, SNum, Limitation, EndPath, ctx, lift, num,
                   boolz, raises)


# --------------------------------------------------------------- slices
class SSlice(object):
    """A Python slice.  Either with given parts or wholly arbitrary: then the
    result of `indices` for a length is a triple constrained as Python
    constrains it."""

    def __init__(self, start=None, stop=None, step=None, generic=None,
                 count=None):
        self._parts = (start, stop, step)
        self.count = count          # the number of selected positions
        self.generic = generic      # name
        self._cache = []

    def _part(self, i):
        if self.generic is not None:
            raise Limitation('parts of an arbitrary slice')
        return self._parts[i]

    start = property(lambda self: self._part(0))
    stop = property(lambda self: self._part(1))
    step = property(lambda self: self._part(2))

    def is_full(self):
        return self.generic is None and self._parts == (None, None, None)

    def indices(self, n):
        s, e, st, m = self.resolve(n)
        return (s, e, st)

    def resolve(self, n):
        """start, stop, step, length for a dimension of length n."""
        nz = lift(n)
        for z, r in self._cache:
            if z.eq(nz):
                return r
        c = ctx()
        if self.generic is not None:
            for z, r in self._cache:
                if c.valid(z == nz):
                    return r
            s, e, m = (c.int(self.generic + x) for x in ('.s', '.e', '.n'))
            if self.count is not None:
                c.assume(m.z == self.count)
                m = SInt(z3.IntVal(self.count))
            st = c.int(self.generic + '.st')
            c.assume(z3.And(st.z != 0, m.z >= 0))
            c.assume(range_len(s.z, e.z, st.z) == m.z)
            c.assume(z3.Implies(m.z > 0, z3.And(
                0 <= s.z, s.z < nz, 0 <= s.z + (m.z - 1) * st.z,
                s.z + (m.z - 1) * st.z < nz)))
            # The result of slice.indices.
            c.assume(z3.If(st.z > 0,
                           z3.And(0 <= s.z, s.z <= nz, 0 <= e.z, e.z <= nz),
                           z3.And(-1 <= s.z, s.z < nz, -1 <= e.z,
                                  e.z < nz)))
            r = (s, e, st, m)
        else:
            r = self._resolve(nz)
        self._cache.append((nz, r))
        c.user.setdefault('triples', []).append(
            (self, tuple(lift(x) for x in r)))
        return r

    def _resolve(self, nz):
        c = ctx()
        start, stop, step = self._parts
        step = 1 if step is None else step
        sz = lift(step)
        if not c.branch(sz != 0):
            raise raises(ValueError('slice step cannot be zero'))
        up = c.branch(sz > 0)

        def clip(x, default):
            if x is None:
                return default
            x = lift(x)
            x = z3.If(x < 0, x + nz, x)
            if up:
                return z3.If(x < 0, z3.IntVal(0), z3.If(x > nz, nz, x))
            return z3.If(x < 0, z3.IntVal(-1), z3.If(x >= nz, nz - 1, x))
        s = clip(start, z3.IntVal(0) if up else nz - 1)
        e = clip(stop, nz if up else z3.IntVal(-1))
        if isinstance(step, int) and step in (1, -1):
            d = e - s if step == 1 else s - e
            m = z3.If(d > 0, d, z3.IntVal(0))
        elif isinstance(step, int):
            m = num(range_len(s, e, sz)).z if not isinstance(
                num(range_len(s, e, sz)), int) else range_len(s, e, sz)
        else:
            m = c.int('slice.n').z
            c.assume(m == range_len(s, e, sz))
            c.assume(m >= 0)
            c.assume(z3.Implies(m > 0, z3.And(
                0 <= s + (m - 1) * sz, s + (m - 1) * sz < nz)))
        return num(s), num(e), step, num(m)

    def __eq__(self, o):
        o = as_slice(o)
        if o is None:
            return False
        if self is o:
            return True
        if self.generic is not None or o.generic is not None:
            # An arbitrary slice which is not the full one by assumption.
            if self.is_full() or o.is_full():
                return False
            raise Limitation('comparing arbitrary slices')
        for a, b in zip(self._parts, o._parts):
            if a is None or b is None:
                if a is not b:
                    return False
            elif not (a == b):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        if self.generic is not None:
            return 'slice<%s>' % self.generic
        return 'slice%r' % (self._parts,)


def range_len(s, e, st):
    return z3.If(st > 0,
                 z3.If(e > s, (e - s - 1) / st + 1, z3.IntVal(0)),
                 z3.If(s > e, (s - e - 1) / (-st) + 1, z3.IntVal(0)))


def as_slice(x):
    if isinstance(x, SSlice):
        return x
    if isinstance(x, slice):
        return SSlice(x.start, x.stop, x.step)
    return None


# ------------------------------------------------------------ sequences
class Base(object):
    """An immutable sequence given by its elements."""

    def __init__(self, name, get, length=None):
        self.name = name
        self._get = get
        self.length = length
        self.memo = {}
        self.facts = []
        self.index_of = None
        self.alias = False      # elements are made up when asked for

    def get(self, z):
        z = core.simp(lift(z)) if not z3.is_expr(z) else core.simp(z)
        k = z.get_id()
        if k in self.memo:
            return self.memo[k][1]
        if self.alias:
            for z2, v in list(self.memo.values()):
                if ctx().branch(z == z2):
                    self.memo[k] = (z, v)
                    return v
        v = self._get(z)
        self.memo[k] = (z, v)
        for f in self.facts:
            f(z, v)
        return v

    def add_fact(self, f):
        """f(index term, element): assumes what holds of every element."""
        self.facts.append(f)
        for z, v in list(self.memo.values()):
            f(z, v)


class Seg(object):
    """base[lo:hi]"""

    def __init__(self, base, lo, hi):
        self.base = base
        self.lo = core.simp(lift(lo))
        self.hi = core.simp(lift(hi))

    def n(self):
        return self.hi - self.lo

    def get(self, z):
        return self.base.get(self.lo + z)

    def __repr__(self):
        return '%s[%s:%s]' % (self.base.name, self.lo, self.hi)


class Flat(object):
    """For each element of a base sequence, a list of items."""

    def __init__(self, name, base, items, most=1):
        self.name = name
        self.base = base
        self._items = items
        self.most = most
        c = ctx()
        self.cl = z3.Function(c.fresh_name('len_' + name), z3.IntSort(),
                              z3.IntSort())
        c.assume(self.cl(z3.IntVal(0)) == 0)
        self.memo = {}
        self.seen = []

    def items(self, z):
        z = core.simp(z)
        k = z.get_id()
        if k not in self.memo:
            r = self._items(z)
            self.memo[k] = (z, r)
            ctx().assume(self.at(core.simp(z + 1)) == self.at(z) + len(r))
        return self.memo[k][1]

    def at(self, z):
        """Number of items of the elements before z."""
        z = core.simp(z)
        v = self.cl(z)
        if not any(z.eq(x) for x in self.seen):
            self.seen.append(z)
            ctx().assume(z3.Implies(z >= 0, z3.And(v >= 0,
                                                   v <= self.most * z)))
        return v


class FSeg(object):
    """The items of the elements lo..hi of a Flat."""

    def __init__(self, flat, lo, hi):
        self.flat = flat
        self.lo = core.simp(lift(lo))
        self.hi = core.simp(lift(hi))

    def n(self):
        c = ctx()
        if z3.is_true(core.simp(self.lo == self.hi)):
            return z3.IntVal(0)
        a, b = self.flat.at(self.lo), self.flat.at(self.hi)
        c.assume(z3.Implies(self.lo <= self.hi, a <= b))
        return b - a

    def get(self, z):
        """An arbitrary item (for the arbitrary iteration of a loop)."""
        c = ctx()
        i = c.int('member')
        c.assume(z3.And(self.lo <= i.z, i.z < self.hi))
        items = self.flat.items(i.z)
        if not items:
            raise EndPath('not a member')
        if len(items) > 1:
            raise Limitation('member of a flattened sequence')
        return items[0]

    def __repr__(self):
        return '%s{%s:%s}' % (self.flat.name, self.lo, self.hi)


SEGS = (Seg, FSeg)


class Item(object):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


def parts_of(x):
    if isinstance(x, VSeq):
        return list(x.parts)
    if isinstance(x, (list, tuple)):
        return [Item(v) for v in x]
    if isinstance(x, range):
        return [Item(v) for v in x]
    if hasattr(x, 'vparts'):
        return x.vparts()
    return None


class VSeq(object):
    """A sequence of items and of segments of symbolic length."""
    kind = None

    def __init__(self, parts):
        self.parts = tuple(p for p in parts)

    def _new(self, parts):
        return type(self)._make(parts)

    @classmethod
    def _make(cls, parts):
        r = cls.__new__(cls)
        VSeq.__init__(r, parts)
        return r

    def vlen(self):
        n = z3.IntVal(0)
        for p in self.parts:
            n = n + (1 if isinstance(p, Item) else p.n())
        return num(n)

    def concrete(self):
        """The list of items if there are no segments (empty ones aside)."""
        out = []
        for p in self.parts:
            if isinstance(p, Item):
                out.append(p.v)
            elif isinstance(p, FSeg):
                return None
            else:
                n = core.simp(p.n())
                if z3.is_int_value(n):
                    out.extend(p.get(z3.IntVal(i))
                               for i in range(n.as_long()))
                else:
                    return None
        return out

    def __len__(self):
        n = self.vlen()
        if isinstance(n, int):
            return n
        raise Limitation('len() of a symbolic sequence')

    def __bool__(self):
        n = self.vlen()
        return bool(n != 0) if not isinstance(n, int) else n != 0

    def __iter__(self):
        c = self.concrete()
        if c is None:
            raise Limitation('iterating over a symbolic sequence: %r' % self)
        return iter(c)

    def at(self, z):
        """Element at index term z (within bounds)."""
        c = ctx()
        z = core.simp(z)
        lo = z3.IntVal(0)
        for i, p in enumerate(self.parts):
            n = z3.IntVal(1) if isinstance(p, Item) else p.n()
            last = i == len(self.parts) - 1
            if last or c.branch(z < lo + n):
                if isinstance(p, Item):
                    return p.v
                if not isinstance(p, Seg):
                    raise Limitation('element of a filtered sequence')
                return p.get(core.simp(z - lo))
            lo = lo + n
        raise EndPath('index of an empty sequence')

    def norm(self, i):
        """Python index -> index term, or raise IndexError."""
        c = ctx()
        z = lift(i)
        n = lift(self.vlen())
        if c.branch(z < 0):
            z = z + n
        if not c.branch(z3.And(0 <= z, z < n)):
            raise raises(IndexError('%s index out of range' % self.kind))
        return z

    def __getitem__(self, i):
        s = as_slice(i)
        if s is not None:
            return finish(self, self.slice(s))
        if not isinstance(i, (int, SInt, np.integer)):
            raise TypeError('sequence index %r' % (i,))
        return self.at(self.norm(i))

    def slice(self, s):
        if s.is_full():
            return list(self.parts)
        c = ctx()
        n = self.vlen()
        if s.generic is None and s.step in (None, 1):
            start, stop, st, m = s.resolve(n)
            return self.between(lift(start), lift(stop))
        if s.generic is None and s.step == -1 and s.start is None and \
                s.stop is None:
            return self.reversed_parts()
        start, stop, st, m = s.resolve(n)
        sz, tz = lift(start), lift(st)
        base = Base('sliced', lambda z: self.at(sz + z * tz), m)
        base.origin = ('sliced', self, s)
        return [Seg(base, 0, m)]

    def reversed_parts(self):
        out = []
        for p in reversed(self.parts):
            if isinstance(p, Item):
                out.append(p)
            elif not isinstance(p, Seg):
                raise Limitation("reversing a filtered sequence")
            else:
                base = Base('reversed', lambda z, p=p: p.get(
                    p.n() - 1 - z), num(p.n()))
                out.append(Seg(base, 0, p.n()))
        return out

    def between(self, a, b):
        """Parts of [a:b], 0 <= a and b <= length; empty if b < a."""
        c = ctx()
        if not c.branch(a < b):
            return []
        out = []
        lo = z3.IntVal(0)
        for p in self.parts:
            n = z3.IntVal(1) if isinstance(p, Item) else p.n()
            hi = lo + n
            if not isinstance(p, (Seg, Item)):
                if c.valid(z3.And(a <= lo, hi <= b)):
                    out.append(p)
                elif not c.valid(z3.Or(b <= lo, hi <= a)):
                    raise Limitation('slicing a filtered sequence')
            elif isinstance(p, Item):
                if c.branch(z3.And(a <= lo, hi <= b)):
                    out.append(p)
            else:
                if c.branch(z3.Or(b <= lo, hi <= a)):
                    pass
                else:
                    x = p.lo if c.branch(a <= lo) else p.lo + (a - lo)
                    y = p.hi if c.branch(b >= hi) else p.lo + (b - lo)
                    out.append(Seg(p.base, x, y))
            lo = hi
        return out

    def __add__(self, o):
        p = parts_of(o)
        if p is None or kind_of(o) != self.kind:
            raise TypeError('can only concatenate %s' % self.kind)
        return finish(self, list(self.parts) + p)

    def __radd__(self, o):
        p = parts_of(o)
        if p is None or kind_of(o) != self.kind:
            raise TypeError('can only concatenate %s' % self.kind)
        return finish(self, p + list(self.parts))

    def __mul__(self, k):
        return finish(self, list(repeat(self, k)))

    __rmul__ = __mul__

    def __eq__(self, o):
        if kind_of(o) != self.kind:
            return False
        r = seq_eq(self, o)
        return r if isinstance(r, bool) else SBool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else ~r

    __hash__ = None

    def __contains__(self, x):
        c = self.concrete()
        if c is None:
            raise Limitation('membership of a symbolic sequence')
        return any(bool(v == x) for v in c)

    def find(self, x):
        """(Any of the positions of x: more than what may happen.)"""
        c = ctx()
        at = z3.IntVal(0)
        for p in self.parts:
            if isinstance(p, Item):
                if bool(p.v == x):
                    return num(at)
                at = at + 1
                continue
            if isinstance(p, FSeg):
                raise Limitation('index() in a filtered sequence')
            if c.choose([p.n() > 0, z3.BoolVal(True)]) == 0:
                i = c.int('position', 0)
                c.assume(i.z < p.n())
                if bool(p.get(i.z) == x):
                    return num(core.simp(at + i.z))
                raise EndPath('not there')
            at = core.simp(at + p.n())
        raise raises(ValueError('not in the sequence'))

    def index(self, x):
        c = self.concrete()
        if c is None:
            if len(self.parts) == 1 and self.parts[0].base.index_of:
                return self.parts[0].base.index_of(x)
            return self.find(x)
        for i, v in enumerate(c):
            if v == x:
                return i
        raise raises(ValueError('not in list'))

    def count(self, x):
        c = self.concrete()
        if c is None:
            raise Limitation('count() in a symbolic sequence')
        n = 0
        for v in c:
            if v == x:
                n += 1
        return n

    def __repr__(self):
        return '%s%r' % (self.kind, list(self.parts))


class VTuple(VSeq):
    kind = 'tuple'


class VRange(VSeq):
    kind = 'range'
    triple = None


class VList(VSeq):
    """A mutable list."""
    kind = 'list'

    def __init__(self, parts=()):
        VSeq.__init__(self, parts)
        register(self)

    @classmethod
    def _make(cls, parts):
        return cls(parts)

    def state(self):
        return self.parts

    def set_state(self, parts):
        self.parts = tuple(parts)

    def _set(self, parts):
        touch(self)
        self.parts = tuple(parts)

    def append(self, v):
        self._set(self.parts + (Item(v),))

    def extend(self, x):
        p = parts_of(x)
        if p is None:
            p = [Item(v) for v in x]
        self._set(self.parts + tuple(p))

    def __iadd__(self, x):
        self.extend(x)
        return self

    def copy(self):
        return VList(self.parts)

    def clear(self):
        self._set(())

    def reverse(self):
        self._set(self.reversed_parts())

    def pop(self, i=-1):
        c = ctx()
        if not self:
            raise raises(IndexError('pop from empty list'))
        if isinstance(i, int) and i == -1 and isinstance(self.parts[-1],
                                                         Item):
            v = self.parts[-1].v
            self._set(self.parts[:-1])
            return v
        if isinstance(i, int) and i == 0 and isinstance(self.parts[0], Item):
            v = self.parts[0].v
            self._set(self.parts[1:])
            return v
        z = self.norm(i)
        v = self.at(z)
        n = lift(self.vlen())
        left = self.between(z3.IntVal(0), z)
        right = self.between(core.simp(z + 1), n)
        self._set(left + right)
        return v

    def insert(self, i, v):
        c = ctx()
        items = self.concrete()
        if items is not None and isinstance(i, int):
            items.insert(i, v)
            self._set([Item(x) for x in items])
            return
        n = lift(self.vlen())
        z = lift(i)
        if c.branch(z < 0):
            z = z + n
            if c.branch(z < 0):
                z = z3.IntVal(0)
        if c.branch(z > n):
            z = n
        self._set(self.between(z3.IntVal(0), z) + [Item(v)] +
                  self.between(z, n))

    def remove(self, v):
        i = self.index(v)
        self.pop(i)

    def __setitem__(self, i, v):
        s = as_slice(i)
        c = ctx()
        n = lift(self.vlen())
        if s is not None:
            if s.generic is not None or s.step not in (None, 1):
                raise Limitation('slice assignment with a step')
            a, b, st, m = s.resolve(num(n))
            a, b = lift(a), lift(b)
            if not c.branch(a <= b):
                b = a
            p = parts_of(v)
            if p is None:
                p = [Item(x) for x in v]
            self._set(self.between(z3.IntVal(0), a) + p +
                      self.between(b, n))
            return
        z = self.norm(i)
        items = self.concrete()
        if items is not None:
            for k in range(len(items)):
                if c.branch(z == k):
                    items[k] = v
                    self._set([Item(x) for x in items])
                    return
            raise EndPath('infeasible')
        self._set(self.between(z3.IntVal(0), z) + [Item(v)] +
                  self.between(core.simp(z + 1), n))

    def __delitem__(self, i):
        s = as_slice(i)
        n = lift(self.vlen())
        if s is not None:
            self[i] = []
            return
        z = self.norm(i)
        items = self.concrete()
        if items is not None:
            c = ctx()
            for k in range(len(items)):
                if c.branch(z == k):
                    del items[k]
                    self._set([Item(x) for x in items])
                    return
            raise EndPath('infeasible')
        self._set(self.between(z3.IntVal(0), z) +
                  self.between(core.simp(z + 1), n))

    def sort(self, key=None, reverse=False):
        items = self.concrete()
        if items is None:
            raise Limitation('sorting a symbolic list')
        self._set([Item(x) for x in vsorted(items, key, reverse)])


def vsorted(items, key=None, reverse=False):
    """Insertion sort by forking (stable)."""
    keyed = [(key(x) if key else x, x) for x in items]
    out = []
    for k, x in keyed:
        pos = len(out)
        while pos > 0:
            before = out[pos - 1][0]
            if reverse:
                move = lt(before, k)
            else:
                move = lt(k, before)
            if not move:
                break
            pos -= 1
        out.insert(pos, (k, x))
    return [x for k, x in out]


def lt(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if x == y:
                continue
            return lt(x, y)
        return len(a) < len(b)
    return bool(a < b)


def repeat(seq, k):
    """Parts of seq * k."""
    parts = parts_of(seq)
    if isinstance(k, (int, np.integer)):
        return parts * int(k)
    if isinstance(k, SInt):
        items = VTuple(parts).concrete()
        if items is not None and len(items) == 1:
            v = items[0]
            c = ctx()
            if c.branch(k.z <= 0):
                return []
            if isinstance(v, (SInt, SBool)) or not isinstance(v, SNum):
                base = Base('repeat', lambda z: v, k)
                base.const = v
                return [Seg(base, 0, k)]
        if items is not None and not items:
            return []
    raise Limitation('repeating a sequence')


def finish(like, parts):
    """A value of the kind of `like`; a real tuple if wholly concrete."""
    parts = merge(parts)
    k = like if isinstance(like, str) else like.kind
    if k == 'list':
        return VList(parts)
    r = VTuple(parts)
    if k == 'range':
        r = VRange(parts)
        return r
    items = r.concrete()
    if items is not None and all(isinstance(p, Item) for p in parts):
        return tuple(items)
    return r


def merge(parts):
    out = []
    for p in parts:
        if isinstance(p, FSeg):
            if z3.is_true(core.simp(p.lo == p.hi)):
                continue
            if out and isinstance(out[-1], FSeg) and \
                    out[-1].flat is p.flat and z3.is_true(
                        core.simp(out[-1].hi == p.lo)):
                out[-1] = FSeg(p.flat, out[-1].lo, p.hi)
                continue
        if isinstance(p, Seg):
            if z3.is_true(core.simp(p.lo == p.hi)):
                continue
            if out and isinstance(out[-1], Seg) and \
                    out[-1].base is p.base and z3.is_true(
                        core.simp(out[-1].hi == p.lo)):
                out[-1] = Seg(p.base, out[-1].lo, p.hi)
                continue
        out.append(p)
    return out


def kind_of(x):
    if isinstance(x, VSeq):
        return x.kind
    if isinstance(x, tuple):
        return 'tuple'
    if isinstance(x, list):
        return 'list'
    if isinstance(x, range):
        return 'range'
    return None


# ------------------------------------------------------------- equality
def veq(a, b):
    """z3 Bool (or bool): the values are equal."""
    if a is b:
        return True
    if hasattr(type(a), 'veq_first'):
        return a.veq_first(b)
    if hasattr(type(b), 'veq_first'):
        return b.veq_first(a)
    if isinstance(a, (SNum, int, float, np.integer, np.floating)) and \
            not isinstance(a, bool):
        if isinstance(b, (bool, SBool)) or b is None:
            return False
        bz = lift(b)
        if bz is None:
            return False
        x, y = core.arith(lift(a), bz)
        return core.simp(x == y)
    if isinstance(a, (bool, SBool, np.bool_)):
        if not isinstance(b, (bool, SBool, np.bool_)):
            return False
        return core.simp(boolz(a) == boolz(b))
    sa, sb = as_slice(a), as_slice(b)
    if sa is not None or sb is not None:
        if sa is None or sb is None:
            return False
        if sa.generic is not None or sb.generic is not None:
            return sa is sb or (sa.generic == sb.generic and
                                sa._cache is sb._cache)
        return conj(veq(x, y) for x, y in zip(sa._parts, sb._parts))
    if kind_of(a) or kind_of(b):
        if kind_of(a) != kind_of(b):
            return False
        return seq_eq(a, b)
    if hasattr(a, 'veq'):
        return a.veq(b)
    if hasattr(b, 'veq'):
        return b.veq(a)
    if z3.is_expr(a) and z3.is_expr(b):
        return core.simp(a == b)
    if a is None or b is None:
        return False
    try:
        r = a == b
    except Exception:
        return False
    if isinstance(r, (bool, np.bool_)):
        return bool(r)
    if isinstance(r, SBool):
        return r.z
    return False


def conj(xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            x = x.z
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def seq_eq(a, b):
    pa, pb = merge(parts_of(a)), merge(parts_of(b))
    return parts_eq(pa, pb)


def parts_eq(pa, pb):
    """Structural first; else by elements at an arbitrary index."""
    c = ctx()
    pa, pb = list(pa), list(pb)
    out = []
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, Item) and isinstance(y, Item):
            e = veq(x.v, y.v)
            if e is False:
                return False
            out.append(e)
            pa.pop(0), pb.pop(0)
            continue
        if isinstance(x, Seg) and isinstance(y, Seg):
            if x.base is y.base and c.valid(x.lo == y.lo):
                if c.valid(x.hi == y.hi):
                    pa.pop(0), pb.pop(0)
                    continue
                if c.valid(x.hi <= y.hi):
                    pb[0] = Seg(y.base, x.hi, y.hi)
                    pa.pop(0)
                    continue
                if c.valid(x.hi >= y.hi):
                    pa[0] = Seg(x.base, y.hi, x.hi)
                    pb.pop(0)
                    continue
            elif c.valid(x.n() == y.n()) and x.base is not y.base:
                i = c.int('ext')
                saved = c.check(z3.And(0 <= i.z, i.z < x.n()))[0]
                if saved != z3.unsat:
                    # forall i. 0 <= i < n -> x[i] == y[i]
                    e = generic_eq(x, y, i)
                    if e is False:
                        out.append(x.n() == 0)
                    elif e is not True:
                        out.append(Forall(i.z, z3.And(0 <= i.z,
                                                      i.z < x.n()), e))
                pa.pop(0), pb.pop(0)
                continue
        if isinstance(x, FSeg) and isinstance(y, FSeg) and \
                x.flat is y.flat and c.valid(x.lo == y.lo):
            if c.valid(x.hi == y.hi):
                pa.pop(0), pb.pop(0)
                continue
            # One of them may have the items of one more element.
            moved = False
            for p, q in ((pa, pb), (pb, pa)):
                u, w = p[0], q[0]
                if c.valid(u.hi == w.hi + 1) and c.valid(u.lo <= w.hi):
                    items = u.flat.items(w.hi)
                    p[0:1] = [Item(v) for v in items]
                    q.pop(0)
                    moved = True
                    break
            if moved:
                continue
            return _fallback(pa, pb, out)
        if any(isinstance(q, FSeg) and c.valid(q.lo == q.hi)
               for q in (x, y)):
            for p in (pa, pb):
                if isinstance(p[0], FSeg) and c.valid(p[0].lo == p[0].hi):
                    p.pop(0)
            continue
        # A segment may begin with the item of the other side.
        for p, q in ((pa, pb), (pb, pa)):
            if isinstance(p[0], Seg) and isinstance(q[0], Item):
                s = p[0]
                if c.valid(s.n() >= 1):
                    e = veq(s.get(z3.IntVal(0)), q[0].v)
                    if e is False:
                        return False
                    out.append(e)
                    p[0] = Seg(s.base, s.lo + 1, s.hi)
                    q.pop(0)
                    break
                if c.valid(s.n() <= 0):
                    p.pop(0)
                    break
        else:
            break
        pa, pb = merge(pa), merge(pb)
    rest = pa or pb
    for p in rest:
        if isinstance(p, SEGS) and c.valid(p.n() <= 0):
            continue
        return False if not (pa and pb) else _fallback(pa, pb, out)
    return conj(out)


def _fallback(pa, pb, out):
    # Lengths known to differ?
    n1, n2 = VTuple(pa).vlen(), VTuple(pb).vlen()
    c = ctx()
    if c.valid(lift(n1) != lift(n2)):
        return False
    raise Limitation('comparing %r with %r' % (pa, pb))


def generic_eq(x, y, i):
    c = ctx()
    u, v = x.get(i.z), y.get(i.z)
    return veq(u, v)


def Forall(i, cond, body):
    """Proved for an arbitrary i (a fresh constant): as a goal only."""
    return z3.Implies(cond, body)


# ------------------------------------------- mutable objects and frames
def register(obj):
    c = core.CTX
    if c is None:
        obj._serial = 0
        return
    c.serial += 1
    obj._serial = c.serial


def touch(obj):
    """Called before any mutation of a tracked object."""
    c = core.CTX
    if c is not None:
        for h in c.user.get('touch', ()):
            h(obj)
