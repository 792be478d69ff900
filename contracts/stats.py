"""Contracts of the aggregation stream handlers.

An array of the shape of the result is represented by its value at one
arbitrary position (Cell); a chunk of data by the column of elements along the
aggregated axis at that position (Column): element j of the axis has value
x(j) and mask m(j).  Numbers are mathematical (reals), dtypes are tracked.

What is proved for each handler class, for any number of chunks of any sizes:
  merge     processing two consecutive chunks leaves the same state as
            processing their concatenation (by induction: any sequence of
            chunks leaves the state of the whole);
  value     finalise() after the whole axis gives the statistic.
"""
from contracts.common import *

I0 = z3.IntVal(0)
trunc = z3.Function('trunc', z3.RealSort(), z3.RealSort())
sqrtf = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def real(z):
    z = lift(z) if not z3.is_expr(z) else z
    if z3.is_bool(z):
        z = z3.If(z, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(z) if z3.is_int(z) else z


class Theory(object):
    """The column of the array: its elements and the folds over them."""

    def __init__(self, c, masked):
        R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
        f = z3.Function
        self.c, self.masked = c, masked
        self.x = f('x', I, R)
        self.m = f('m', I, B)
        self.S, self.Q = f('S', I, R), f('Q', I, R)
        self.C = f('C', I, I)
        self.MN, self.MX = f('MN', I, I, R), f('MX', I, I, R)
        self.points = []
        self.ranges = []
        for g in (self.S, self.Q):
            c.assume(g(I0) == 0)
        c.assume(self.C(I0) == 0)
        self.base = Base('column', self.element)

    def element(self, z):
        """Cell of element z of the axis; unfolds the prefix folds there."""
        c = self.c
        w = core.simp(z + 1)
        self.point(z), self.point(w)
        x, on = self.x(z), self.on(z)
        zero = z3.RealVal(0)
        c.assume(self.S(w) == self.S(z) + z3.If(on, x, zero))
        c.assume(self.Q(w) == self.Q(z) + z3.If(on, x * x, zero))
        c.assume(self.C(w) == self.C(z) + z3.If(on, 1, 0))
        return (x, None if not self.masked else self.m(z))

    def on(self, z):
        return z3.Not(self.m(z)) if self.masked else z3.BoolVal(True)

    def point(self, z):
        z = core.simp(z)
        if any(z.eq(p) for p in self.points):
            return z
        for p in self.points:
            self.c.assume(z3.Implies(p <= z, z3.And(
                self.C(p) <= self.C(z), self.C(z) - self.C(p) <= z - p)))
            self.c.assume(z3.Implies(z <= p, z3.And(
                self.C(z) <= self.C(p), self.C(p) - self.C(z) <= p - z)))
            if not self.masked:
                self.c.assume(self.C(z) - self.C(p) == z - p)
            else:
                # Nothing but masked elements in between.
                self.c.assume(z3.Implies(
                    self.C(z) == self.C(p), z3.And(
                        self.S(z) == self.S(p), self.Q(z) == self.Q(p))))
        self.points.append(z)
        return z

    def count(self, lo, hi):
        lo, hi = self.point(lo), self.point(hi)
        return self.C(hi) - self.C(lo)

    def total(self, lo, hi):
        return self.S(self.point(hi)) - self.S(self.point(lo))

    def square(self, lo, hi):
        return self.Q(self.point(hi)) - self.Q(self.point(lo))

    def extreme(self, f, lo, hi):
        lo, hi = self.point(lo), self.point(hi)
        key = (f.name(), lo, hi)
        for n, a, b in self.ranges:
            if n == f.name() and a.eq(lo) and b.eq(hi):
                return f(lo, hi)
        self.ranges.append(key)
        rs = [(a, b) for n, a, b in self.ranges if n == f.name()]
        for a, b in rs:
            for b2, d in rs:
                if not b.eq(b2):
                    continue
                for a3, d3 in rs:
                    if a3.eq(a) and d3.eq(d):
                        self.c.assume(z3.Implies(
                            z3.And(a <= b, b <= d), f(a, d) == pick_extreme(
                                f.name() == 'MN', self.count(a, b), f(a, b),
                                self.count(b, d), f(b, d))))
        return f(lo, hi)


def pick_extreme(least, c1, v1, c2, v2):
    return z3.If(c1 == 0, v2, z3.If(c2 == 0, v1, z3.If(
        (v1 <= v2) if least else (v1 >= v2), v1, v2)))


class Cell(object):
    """An array, at an arbitrary position."""
    is_model = True
    models_types = (np.ndarray,)
    __array_priority__ = 1

    def __init__(self, val, mask=None, dtype=None, tag='out', cond=None,
                 source=False, whole=True):
        self.val = val
        self.mask_ = mask            # None: not a masked array
        self.dtype = np.dtype(dtype)
        self.tag = tag
        self.cond = cond             # for the elements picked by a mask
        self.source = source         # memory of the input chunk
        self.whole = whole           # the value is an integer
        seqs.register(self)

    def copy(self, **k):
        d = dict(val=self.val, mask=self.mask_, dtype=self.dtype,
                 tag=self.tag, cond=self.cond, whole=self.whole)
        d.update(k)
        return Cell(**d)

    def loop_clone(self):
        return self.copy(source=self.source)

    @property
    def masked(self):
        return self.mask_ is not None

    @property
    def ndim(self):
        if self.tag != 'out':
            raise Limitation('ndim')
        return ctx().user['outrank']

    @property
    def shape(self):
        if self.tag != 'out':
            raise Limitation('shape')
        return ctx().user['outshape']

    @shape.setter
    def shape(self, s):
        if s is not ctx().user['outshape'] or self.tag != 'flat':
            raise Limitation('reshape')
        self.tag = 'out'

    @property
    def mask(self):
        m = self.mask_ if self.masked else z3.BoolVal(False)
        r = Cell(m, dtype=bool, tag=self.tag, cond=self.cond)
        r.owner = self
        return r

    @mask.setter
    def mask(self, v):
        if isinstance(v, Cell):
            if v.tag != self.tag:
                raise Limitation('shape of a mask')
            v = v.val
        if not self.masked:
            raise Limitation('mask of an ndarray')
        self.mask_ = v

    def flatten(self):
        if self.tag not in ('out', 'flat'):
            raise Limitation('flatten')
        return self.copy(tag='flat')

    def filled(self, v):
        if not self.masked:
            return self.copy()
        return self.copy(val=core.simp(z3.If(self.mask_, real(v),
                                             real(self.val))), mask=None)

    def astype(self, dt, copy=True):
        return cast(self.copy(), np.dtype(dt))

    # -- arithmetic
    def _op(self, o, name, swap=False):
        a, b = (o, self) if swap else (self, o)
        return binary(name, a, b)

    def __add__(self, o): return self._op(o, 'add')
    def __radd__(self, o): return self._op(o, 'add', True)
    def __sub__(self, o): return self._op(o, 'subtract')
    def __rsub__(self, o): return self._op(o, 'subtract', True)
    def __mul__(self, o): return self._op(o, 'multiply')
    def __rmul__(self, o): return self._op(o, 'multiply', True)
    def __truediv__(self, o): return self._op(o, 'true_divide')
    def __rtruediv__(self, o): return self._op(o, 'true_divide', True)
    def __and__(self, o): return self._op(o, 'logical_and')
    def __or__(self, o): return self._op(o, 'logical_or')
    def __gt__(self, o): return self._op(o, 'greater')
    def __lt__(self, o): return self._op(o, 'less')
    def __ge__(self, o): return self._op(o, 'greater_equal')
    def __le__(self, o): return self._op(o, 'less_equal')
    def __eq__(self, o): return self._op(o, 'equal')
    def __ne__(self, o): return self._op(o, 'not_equal')
    __hash__ = None

    def __invert__(self):
        if self.dtype != bool:
            raise Limitation('~')
        return self.copy(val=core.simp(z3.Not(self.val)))

    def __bool__(self):
        raise Limitation('truth of an array')

    def _inplace(self, o, name):
        return self.assign(binary(name, self, o))

    def assign(self, r):
        """Write r (the result of a ufunc) to this memory."""
        wrote(ctx(), self)
        if not np.can_cast(r.dtype, self.dtype, 'same_kind'):
            raise raises(TypeError('cannot cast ufunc output'))
        r = cast(r, self.dtype)
        if r.tag != self.tag or (r.masked and not self.masked):
            raise Limitation('in-place operation')
        seqs.touch(self)
        self.val, self.mask_, self.whole = r.val, r.mask_, r.whole
        own = getattr(self, 'owner', None)
        if own is not None:
            seqs.touch(own)
            own.mask_ = self.val
        return self

    def __iadd__(self, o): return self._inplace(o, 'add')
    def __isub__(self, o): return self._inplace(o, 'subtract')
    def __imul__(self, o): return self._inplace(o, 'multiply')
    def __itruediv__(self, o): return self._inplace(o, 'true_divide')
    def __iand__(self, o): return self._inplace(o, 'logical_and')
    def __ior__(self, o): return self._inplace(o, 'logical_or')

    # -- picking by a boolean array
    def __getitem__(self, k):
        if isinstance(k, Cell) and k.dtype == bool and k.tag == self.tag:
            return self.copy(tag='sel', cond=k.val)
        raise Limitation('index of an array')

    def __setitem__(self, k, v):
        c = ctx()
        if not (isinstance(k, Cell) and k.dtype == bool and
                k.tag == self.tag) or self.masked:
            raise Limitation('assignment to an array')
        wrote(c, self)
        if isinstance(v, Cell):
            same = v.tag == 'sel' and (
                v.cond.eq(k.val) or c.valid(v.cond == k.val) is True)
            if not same or v.masked:
                raise Limitation('assignment of other elements')
            v = cast(v.copy(), self.dtype)
            val, whole = v.val, v.whole
        else:
            val, whole = real(v), isinstance(v, int)
        seqs.touch(self)
        self.val = core.simp(z3.If(k.val, real(val), real(self.val)))
        self.whole = self.whole and whole

    def veq(self, o):
        if not isinstance(o, Cell) or self.tag != o.tag or \
                self.masked != o.masked or self.dtype != o.dtype or \
                (self.source and not o.source):
            return False
        a, b = self.val, o.val
        e = a == b if a.sort() == b.sort() else real(a) == real(b)
        if self.masked:
            e = z3.And(self.mask_ == o.mask_, z3.Or(self.mask_, e))
        if self.cond is not None:
            e = z3.Or(z3.Not(self.cond), e)
        return core.simp(e)

    def __getattr__(self, name):
        if name.startswith('__') or name in ('_vc', 'owner'):
            raise AttributeError(name)
        raise Limitation('array: .' + name)


def cast(r, dt):
    if dt.kind in 'iu' and not r.whole:
        r.val, r.whole = trunc(real(r.val)), True
    if dt.kind == 'b' and r.dtype.kind != 'b':
        r.val = real(r.val) != 0
    elif dt.kind != 'b' and z3.is_bool(r.val):
        r.val = real(r.val)
    r.dtype = dt
    return r


COMPARE = {'greater': lambda a, b: a > b, 'less': lambda a, b: a < b,
           'greater_equal': lambda a, b: a >= b,
           'less_equal': lambda a, b: a <= b,
           'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b}
ARITH = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
         'multiply': lambda a, b: a * b,
         'minimum': lambda a, b: z3.If(a <= b, a, b),
         'maximum': lambda a, b: z3.If(a >= b, a, b)}


def operand(x):
    """value, dtype or scalar for the promotion, integer?"""
    if isinstance(x, Cell):
        return x.val, np.zeros(1, x.dtype), x.whole
    if isinstance(x, (bool, int, float, np.number)):
        return lift(x), x, isinstance(x, (int, np.integer))
    if isinstance(x, SInt):
        return x.z, 1, True
    if isinstance(x, SNum):
        return x.z, 1.0, False
    raise Limitation('operand %r' % (x,))


def binary(name, a, b):
    c = ctx()
    if isinstance(a, Column) or isinstance(b, Column):
        raise Limitation('arithmetic with whole chunks')
    (x, p, i), (y, q, j) = operand(a), operand(b)
    cells = [v for v in (a, b) if isinstance(v, Cell)]
    tag = cells[0].tag
    cond = cells[0].cond
    for v in cells[1:]:
        if v.tag != tag:
            raise Limitation('operands of different shapes')
        if tag == 'sel' and not (v.cond.eq(cond) or
                                 c.valid(v.cond == cond) is True):
            raise Limitation('operands of different selections')
    masked = any(v.masked for v in cells)
    masks = [v.mask_ for v in cells if v.masked]
    if name in ('logical_and', 'logical_or'):
        if not (z3.is_bool(x) and z3.is_bool(y)):
            raise Limitation('bitwise operation')
        val = (z3.And if name == 'logical_and' else z3.Or)(x, y)
        return Cell(core.simp(val), None, bool, tag, cond)
    dt = getattr(np, name)(p, q).dtype if name != 'true_divide' else \
        np.true_divide(p, np.ones_like(q) if isinstance(q, np.ndarray)
                       else type(q)(1)).dtype
    x, y = real(x), real(y)
    if name in COMPARE:
        val, whole = COMPARE[name](x, y), True
    elif name == 'true_divide':
        val, whole = x / y, False
        if masked:
            # numpy.ma masks where the divisor is zero.
            masks = masks + [y == 0]
        elif tag == 'sel':
            c.prove('no division by zero', z3.Implies(cond, y != 0))
        else:
            c.prove('no division by zero', y != 0)
    else:
        val, whole = ARITH[name](x, y), i and j
        if dt.kind in 'iu' and name in ('add', 'subtract', 'multiply'):
            c.user['int_arith'] = True
    mask = core.simp(z3.Or(masks)) if masked else None
    return Cell(core.simp(val), mask, dt, tag, cond, whole=whole)


class Column(object):
    """A chunk of data, along the axis at an arbitrary position: a list of
    ranges of the axis and of single cells."""
    is_model = True
    models_types = (np.ndarray,)

    def __init__(self, th, parts, dtype, masked, axis, source=True):
        self.th, self.parts, self.dtype = th, parts, np.dtype(dtype)
        self.masked, self.axis, self.source = masked, axis, source

    def n(self):
        return sum([z3.IntVal(1) if isinstance(p, Cell) else p[1] - p[0]
                    for p in self.parts], z3.IntVal(0))

    @property
    def shape(self):
        b = ctx().user['outshape'].parts[0].base
        n = lift(ctx().user['outrank'])
        a = lift(self.axis)
        return finish('tuple', [Seg(b, I0, a), Item(num(self.n())),
                                Seg(b, a, n)])

    @property
    def ndim(self):
        return ctx().user['outrank'] + 1

    def along(self, axis):
        c = ctx()
        if axis is None:
            c.prove('reduction along the axis', False)
            raise EndPath()
        a = lift(axis)
        ok = z3.Or(a == lift(self.axis),
                   a == lift(self.axis) - lift(self.ndim))
        if not c.prove('reduction along the axis', ok):
            raise EndPath()

    def astype(self, dt):
        dt = np.dtype(dt)
        if dt.kind in 'iu' and self.dtype.kind not in 'biu':
            raise Limitation('cast to integers')
        r = Column(self.th, self.parts, dt, self.masked, self.axis, False)
        return r

    def element(self, z):
        """Cell of element z of this chunk."""
        lo = I0
        c = ctx()
        for i, p in enumerate(self.parts):
            n = z3.IntVal(1) if isinstance(p, Cell) else p[1] - p[0]
            if i == len(self.parts) - 1 or c.branch(z < lo + n):
                if isinstance(p, Cell):
                    return p.copy(tag='out')
                x, m = self.th.base.get(core.simp(p[0] + z - lo))
                return Cell(x, m if self.masked else None, self.dtype,
                            source=self.source,
                            whole=self.dtype.kind in 'biu')
            lo = lo + n
        raise EndPath('empty')

    def vlen(self):
        c = ctx()
        if not c.branch(lift(self.axis) == 0):
            raise Limitation('length along another dimension')
        return num(self.n())

    def vparts(self):
        c = ctx()
        if not (c.valid(lift(self.axis) == 0) is True):
            c.prove('iteration along the axis', False)
            raise EndPath()
        out = []
        for p in self.parts:
            if isinstance(p, Cell):
                out.append(Item(p.copy(tag='out')))
                continue
            lo, hi = p
            b = Base('slices', lambda z, lo=lo: self.element(z))
            # Element z of the column's base, for the loop's ghosts.
            b.pointwise = [Seg(self.th.base, lo, hi)]
            if len(self.parts) > 1:
                raise Limitation('iteration over a concatenation')
            out.append(Seg(b, I0, core.simp(hi - lo)))
        return out

    def __getitem__(self, k):
        c = ctx()
        if not (c.valid(lift(self.axis) == 0) is True):
            raise Limitation('index of a chunk')
        if isinstance(k, (int, SInt)):
            z = VTuple([Seg(Base('x', lambda z: 0), I0, self.n())]).norm(k)
            return self.element(z)
        s = seqs.as_slice(k)
        if s is not None and s.step in (None, 1) and len(self.parts) == 1 \
                and not isinstance(self.parts[0], Cell):
            a, b, st, m = s.resolve(num(self.n()))
            lo, hi = self.parts[0]
            return Column(self.th, [(core.simp(lo + lift(a)), core.simp(
                lo + z3.If(lift(b) < lift(a), lift(a), lift(b))))],
                self.dtype, self.masked, self.axis, self.source)
        raise Limitation('index of a chunk')

    # -- reductions
    def total(self):
        v = z3.RealVal(0)
        for p in self.parts:
            if isinstance(p, Cell):
                v = v + (z3.If(p.mask_, z3.RealVal(0), p.val) if p.masked
                         else p.val)
            else:
                v = v + self.th.total(*p)
        return v

    def count(self):
        v = I0
        for p in self.parts:
            if isinstance(p, Cell):
                v = v + (z3.If(p.mask_, 0, 1) if p.masked else 1)
            else:
                v = v + self.th.count(*p)
        return v

    def extreme(self, least):
        f = self.th.MN if least else self.th.MX
        cnt = val = None
        for p in self.parts:
            if isinstance(p, Cell):
                n = z3.If(p.mask_, 0, 1) if p.masked else z3.IntVal(1)
                v = p.val
            else:
                n, v = self.th.count(*p), self.th.extreme(f, *p)
            if cnt is None:
                cnt, val = n, v
            else:
                val = pick_extreme(least, cnt, val, n, v)
                cnt = cnt + n
        return cnt, val

    def reduce(self, what, axis=None, keepdims=False, dtype=None):
        c = ctx()
        self.along(axis)
        if dtype is not None and what != 'sum':
            raise Limitation('dtype of a reduction')
        whole = self.dtype.kind in 'biu'
        if what in ('min', 'max'):
            if not c.branch(self.n() > 0):
                raise raises(ValueError('zero-size array'))
            n, v = self.extreme(what == 'min')
            r = Cell(core.simp(v), core.simp(n == 0) if self.masked else
                     None, self.dtype, whole=whole)
        elif what == 'sum':
            dt = sum_dtype(self.dtype, dtype)
            r = Cell(core.simp(self.total()), core.simp(self.count() == 0)
                     if self.masked else None, dt, whole=whole)
        if keepdims:
            r.tag = 'keep'
            return Column(self.th, [r], r.dtype, self.masked, self.axis,
                          False)
        return r

    def min(self, axis=None, keepdims=False):
        return self.reduce('min', axis, keepdims)

    def max(self, axis=None, keepdims=False):
        return self.reduce('max', axis, keepdims)

    def sum(self, axis=None, keepdims=False, dtype=None):
        return self.reduce('sum', axis, keepdims, dtype)

    def filled(self, v=None):
        """Only filling with zero is modelled."""
        if not self.masked:
            return self
        return Filled(self, v)

    def veq(self, o):
        if not isinstance(o, Column) or self.masked != o.masked or \
                self.dtype != o.dtype or len(self.parts) != len(o.parts):
            return False
        out = []
        for p, q in zip(self.parts, o.parts):
            if isinstance(p, Cell) and isinstance(q, Cell):
                out.append(p.veq(q))
            elif isinstance(p, tuple) and isinstance(q, tuple):
                out += [p[0] == q[0], p[1] == q[1]]
            else:
                return False
        return seqs.conj(out)

    def __getattr__(self, name):
        if name.startswith('__') or name == '_vc':
            raise AttributeError(name)
        raise Limitation('chunk: .' + name)


class Filled(object):
    """The data of a masked chunk with its masked elements replaced."""
    is_model = True

    def __init__(self, col, v):
        self.col, self.v = col, v

    def sum(self, axis=None, dtype=None):
        self.col.along(axis)
        c = self.col
        v = c.total() + z3.ToReal(c.n() - c.count()) * real(self.v)
        return Cell(core.simp(v), None, sum_dtype(c.dtype, dtype),
                    whole=c.dtype.kind in 'biu')


def sum_dtype(dtype, wanted=None):
    """The dtype of a sum."""
    dt = np.zeros(1, dtype).sum().dtype
    if wanted is not None:
        wanted = dtype_of(wanted)
        if wanted.kind in 'biu' and wanted != dt or wanted.kind not in 'iuf':
            raise Limitation('sum in %s of %s' % (wanted, dtype))
        dt = wanted
    if dt == np.float16:
        ctx().user['half'] = True
    return dt


class MaskOf(object):
    is_model = True

    def __init__(self, col, positive=True):
        self.col = col
        self.positive = positive

    def __invert__(self):
        return MaskOf(self.col, not self.positive)

    def amount(self):
        n = self.col.n() - self.col.count()
        return n if self.positive else self.col.n() - n

    def all(self, axis=None):
        self.col.along(axis)
        return Cell(core.simp(self.amount() == self.col.n()), None, bool)

    def any(self, axis=None):
        self.col.along(axis)
        return Cell(core.simp(self.amount() > 0), None, bool)

    def sum(self, axis=None):
        self.col.along(axis)
        return Cell(core.simp(self.amount()), None, np.dtype(int))


def is_outshape(s):
    return s is ctx().user['outshape']


def dtype_of(t):
    return np.dtype(t.real if type(t).__name__ == 'PType' else t)


def install(env):
    m, a = env.np._models, env.np.ma._models

    def filler(value, masked=False):
        def f(shape, dtype=float, **k):
            if is_outshape(shape):
                dt = dtype_of(dtype)
                v = z3.RealVal(value)
                if dt.kind == 'b':
                    v = z3.BoolVal(bool(value))
                return Cell(v, z3.BoolVal(False) if masked else None, dt)
            raise Limitation('array of another shape')
        return f
    m['zeros'], m['ones'] = filler(0), filler(1)
    a['zeros'], a['ones'] = filler(0, True), filler(1, True)

    def like(value):
        def f(x, dtype=None):
            if not isinstance(x, Cell):
                raise Limitation('like')
            dt = x.dtype if dtype is None else dtype_of(dtype)
            v = z3.BoolVal(bool(value)) if dt.kind == 'b' else \
                z3.RealVal(value)
            # NB. The subclass is kept.
            return Cell(v, z3.BoolVal(False) if x.masked else None, dt,
                        x.tag)
        return f
    m['ones_like'], m['zeros_like'] = like(1), like(0)

    def reducer(what, masked_ok=True):
        def f(x, axis=None, keepdims=False, **k):
            dtype = k.pop('dtype', None)
            if k:
                raise Limitation('options of a reduction')
            if isinstance(x, (Column,)):
                return x.reduce(what, axis, keepdims, dtype)
            if isinstance(x, Filled) and what == 'sum':
                return x.sum(axis, dtype)
            raise Limitation('%s of %r' % (what, x))
        return f
    for n in ('min', 'max', 'sum'):
        m[n] = a[n] = reducer(n)
        m['a' + n] = m[n]

    def np_all(x, axis=None):
        if isinstance(x, MaskOf):
            return x.all(axis)
        raise Limitation('all')
    m['all'] = np_all
    m['any'] = lambda x, axis=None: x.any(axis) if isinstance(
        x, MaskOf) else (_ for _ in ()).throw(Limitation('any'))

    def count(x, axis=None):
        if not isinstance(x, Column):
            raise Limitation('count')
        x.along(axis)
        return Cell(core.simp(real(x.count())), None, np.intp)

    def count_masked(x, axis=None):
        if not isinstance(x, Column):
            raise Limitation('count')
        x.along(axis)
        return Cell(core.simp(real(x.n() - x.count())), None, np.intp)
    a['count'], a['count_masked'] = count, count_masked

    def filled(x, v=None):
        if isinstance(x, (Column, Cell)):
            return x.filled(v)
        raise Limitation('filled')
    a['filled'] = filled

    def getmaskarray(x):
        if isinstance(x, Column):
            return MaskOf(x)
        if isinstance(x, Cell):
            return x.mask
        raise Limitation('getmaskarray')
    a['getmaskarray'] = getmaskarray

    def concatenate(xs, axis=0):
        parts = []
        xs = list(xs)
        for x in xs:
            if not isinstance(x, Column):
                raise Limitation('concatenate')
            x.along(axis)
            parts += x.parts
        return Column(xs[0].th, parts, np.result_type(*[x.dtype for x in xs]),
                      any(x.masked for x in xs), xs[0].axis, False)
    a['concatenate'] = m['concatenate'] = concatenate

    def ufunc2(name):
        def f(x, y, out=None):
            r = binary(name, x, y)
            if out is None:
                return r
            if not isinstance(out, Cell):
                raise Limitation('where a result is written')
            return out.assign(r)
        return f
    for n in list(ARITH) + ['true_divide']:
        m[n] = ufunc2(n)
    m['divide'] = m['true_divide']

    def ma_extreme(name):
        # (numpy.ma masks where an operand is masked.)
        def f(x, y):
            if isinstance(x, Cell) and isinstance(y, Cell):
                r = binary(name, x, y)
                if not r.masked:
                    r.mask_ = z3.BoolVal(False)
                return r
            if all(isinstance(v, Column) and len(v.parts) == 1 and
                   isinstance(v.parts[0], Cell) for v in (x, y)):
                r = f(x.parts[0], y.parts[0])
                return Column(x.th, [r], r.dtype, True, x.axis, False)
            raise Limitation(name)
        return f
    a['minimum'], a['maximum'] = ma_extreme('minimum'), ma_extreme('maximum')

    def is_masked(x):
        # Whether there is a masked element, here or at another position.
        if not isinstance(x, (Cell, Column)):
            raise Limitation('is_masked')
        if not x.masked:
            return False
        b = ctx().bool('some are masked')
        here = x.mask_ if isinstance(x, Cell) else x.count() < x.n()
        ctx().assume(z3.Implies(here, b.z))
        return b
    a['is_masked'] = is_masked

    def sqrt(x):
        if not isinstance(x, Cell):
            raise Limitation('sqrt')
        v = real(x.val)
        mask = x.mask_
        s = sqrtf(v)
        ctx().assume(z3.Implies(v >= 0, z3.And(s * s == v, s >= 0)))
        return x.copy(val=s, mask=mask, whole=False,
                      dtype=np.sqrt(np.zeros(1, x.dtype)).dtype)

    def ma_sqrt(x):
        r = sqrt(x)
        v = real(x.val)
        old = r.mask_ if r.mask_ is not None else z3.BoolVal(False)
        # numpy.ma masks outside of the domain.
        r.mask_ = core.simp(z3.Or(old, v < 0))
        return r
    m['sqrt'], a['sqrt'] = sqrt, ma_sqrt

    def where(k, x, y):
        if not (isinstance(k, Cell) and k.dtype == bool):
            raise Limitation('where')
        (u, p, i), (v, q, j) = operand(x), operand(y)
        return k.copy(val=core.simp(z3.If(k.val, real(u), real(v))),
                      dtype=np.result_type(p, q), whole=i and j)
    m['where'] = where

    def array(x, *args, **k):
        if isinstance(x, Cell):
            if args or k:
                raise Limitation('np.array options')
            return x.copy(mask=None)
        raise Limitation('np.array')

    def ma_array(x, mask=None, **k):
        if not isinstance(x, Cell) or k:
            raise Limitation('ma.array')
        m0 = x.mask_ if x.masked else z3.BoolVal(False)
        if mask is not None:
            if not isinstance(mask, Cell) or mask.tag != x.tag:
                raise Limitation('mask')
            m0 = core.simp(z3.Or(m0, mask.val))
        return x.copy(mask=m0)
    m['array'] = m['asarray'] = array
    a['array'] = a['masked_array'] = a['asarray'] = ma_array

    def rollaxis(x, axis, start=0):
        if not isinstance(x, Column) or start != 0:
            raise Limitation('rollaxis')
        x.along(axis)
        return Column(x.th, x.parts, x.dtype, x.masked, 0, x.source)
    m['rollaxis'] = rollaxis
    m['moveaxis'] = lambda x, s, d: rollaxis(x, s) if d == 0 else (
        _ for _ in ()).throw(Limitation('moveaxis'))


class CellGhost(object):
    """A closed form f(z) of an array after the elements before z."""

    def __init__(self, name, th, form):
        self.name, self.base, self.form = name, th.base, form

    def accepts(self, loop, v0):
        return isinstance(v0, Cell) or (isinstance(v0, (int, SInt)) and
                                        not isinstance(v0, bool))

    def at(self, loop, v0, k):
        z = loop.index(self, k)
        if z is None:
            return None
        z0 = loop.index(self, z3.IntVal(0))
        f0 = self.form(z0, v0)
        if f0 is None:
            return None
        e = veq(f0, v0)
        if e is False or (e is not True and ctx().valid(e) is not True):
            return None
        return self.form(z, v0)


def setup(c, env, masked, name, kwargs=None):
    """handler, theory and a chunk maker."""
    install(env)
    dtype = c.among([np.dtype(t) for t in ('f8', 'f4', 'f2', 'i4', 'u1', '?')
                     if not (t == '?' and name in ('std', 'var', 'sum'))])
    n = c.int('outrank', 0)
    c.user['outrank'] = n
    c.user['outshape'] = keys.sizes('outshape', n)
    axis = c.int('axis', 0)
    c.assume(axis.z <= n.z)
    N = c.int('N', 1)
    th = Theory(c, masked)

    class Source(object):
        pass
    Source.dtype = dtype
    b = c.user['outshape'].parts[0].base
    Source.shape = finish('tuple', [Seg(b, I0, axis.z), Item(N),
                                    Seg(b, axis.z, n.z)])
    Source.ndim = n + 1

    def make():
        h = env.g[handler_name(name, masked)](Source, axis, **(kwargs or {}))
        h.current_keys = KEYS
        h.bootstrap(c.user['outshape'])
        c.user['attrs'] = {id(h): Attrs(h)}
        return h

    def chunk(lo, hi):
        return Column(th, [(core.simp(lift(lo)), core.simp(lift(hi)))],
                      dtype, masked, axis)
    return make, th, chunk, N, dtype


class Attrs(object):
    """All the attributes of the handler which are arrays or numbers."""

    def __init__(self, h):
        self.h = h

    def __iter__(self):
        return iter(sorted(k for k, v in vars(self.h).items() if isinstance(
            v, (Cell, int, SInt, SNum, Column, type(None))) and
            k not in ('axis', 'ddof', '_mdtol')))


class Keys(object):
    is_model = True


KEYS = Keys()
NAMES = dict(count='Count', min='Min', max='Max', sum='Sum', mean='Mean',
             std='Std', var='Var')


def handler_name(name, masked):
    return '_%s%sStreamsHandler' % (NAMES[name], 'Masked' if masked else '')


def moments(c, th):
    """Ghosts for the running mean and the running sum of squares of the
    differences from the mean (Welford)."""
    def n(z):
        return z3.ToReal(th.count(I0, z))

    def mean(z, v0):
        if isinstance(v0, Cell):
            # 0 or the first element until there are any
            return v0.copy(val=th.total(I0, z) / n(z), whole=False,
                           source=v0.source)

    def first(z, v0):
        pass

    def m2(z, v0):
        if isinstance(v0, Cell):
            return v0.copy(val=th.square(I0, z) - th.total(I0, z) *
                           th.total(I0, z) / n(z), whole=False,
                           source=v0.source)

    def cnt(z, v0):
        if isinstance(v0, Cell):
            return v0.copy(val=n(z), source=v0.source)
        return num(th.count(I0, z))

    def zero(f):
        """Zero until there are any."""
        def g(z, v0):
            r = f(z, v0)
            if r is not None:
                r.val = z3.If(th.count(I0, z) == 0, z3.RealVal(0), r.val)
            return r
        return g
    c.user['ghosts'] = [CellGhost('count', th, cnt),
                        CellGhost('mean', th, mean),
                        CellGhost('m2', th, m2),
                        CellGhost('mean0', th, zero(mean)),
                        CellGhost('m20', th, zero(m2))]


def kwargs_of(c, name):
    if name in ('std', 'var'):
        return {'ddof': c.int('ddof', 0)}
    if name == 'mean':
        return {'mdtol': c.real('mdtol')}
    return {}


def run_contract(name, masked):
    cls = handler_name(name, masked)
    loops_ = name in ('std', 'var')

    @contract('%s: chunks merge' % cls,
              ['%s.bootstrap' % cls, '%s.process_data' % cls])
    def merge_(c, env):
        """Two consecutive chunks leave the same state as their
        concatenation."""
        kw = kwargs_of(c, name)
        make, th, chunk, N, dtype = setup(c, env, masked, name, kw)
        if loops_:
            moments(c, th)
        mid = c.int('mid', 1)
        hi = c.int('hi')
        c.assume(mid.z < hi.z)
        h1 = make()
        out = call(h1.process_data, chunk(0, mid))
        c.prove('accepted', out.ok)
        out = call(h1.process_data, chunk(mid, hi))
        c.prove('accepted', out.ok)
        unwritten(c)
        h2 = make()
        out = call(h2.process_data, chunk(0, hi))
        c.prove('accepted', out.ok)
        c.prove('same attributes', set(vars(h1)) == set(vars(h2)))
        for k in sorted(vars(h1)):
            c.prove('same state', veq(vars(h1)[k], vars(h2).get(k)))
        if name in ('mean', 'std', 'var'):
            c.prove('accumulates in floating point', not accumulates_int(
                c, h2, dtype))
            c.prove('accumulates in more than half precision',
                    not accumulates_half(c, h2))

    @contract('%s: value' % cls,
              ['%s.%s' % (cls, m) for m in ('bootstrap', 'process_data',
                                            'finalise')])
    def value(c, env):
        """The statistic of the whole axis."""
        kw = kwargs_of(c, name)
        make, th, chunk, N, dtype = setup(c, env, masked, name, kw)
        if loops_:
            moments(c, th)
        h = make()
        cnt = th.count(I0, N.z)
        if loops_ and not masked:
            c.assume(N.z > kw['ddof'].z)
        out = call(h.process_data, chunk(0, N))
        c.prove('accepted', out.ok)
        if not out.ok:
            return
        unwritten(c)
        out = call(h.finalise)
        c.prove('finalise', out.ok)
        unwritten(c)
        if not out.ok:
            return
        r = out.value
        c.prove('a chunk for the current keys', type(r) is env.g['Chunk']
                and r.keys is KEYS)
        d = r.data
        if not isinstance(d, Cell):
            raise Limitation('result %r' % (d,))
        c.prove('shape of the result', d.tag == 'out')
        want, mask = statistic(c, th, name, masked, N, kw, cnt)
        if mask is not None:
            c.prove('a masked array', d.masked or name == 'count')
        got = d.mask_ if d.masked else z3.BoolVal(False)
        if name in ('std', 'var') and masked:
            # Undefined unless there are more elements than ddof.
            n = cnt - kw['ddof'].z
            c.prove('mask', z3.Implies(z3.Or(cnt == 0, n > 0),
                                       got == (cnt == 0)))
            c.prove('value', z3.Implies(n > 0, z3.Implies(
                z3.Not(got), real(d.val) == want)))
            return
        if mask is not None:
            c.prove('mask', got == mask)
        c.prove('value', z3.Implies(z3.Not(got), real(d.val) == want))
    return [merge_, value]


def wrote(c, cell):
    """A memory is written: is it that of the input?"""
    if cell.source:
        c.user['input written'] = True
    c.prove('the input is not modified', not cell.source)


def unwritten(c):
    c.prove('the input is not modified', not c.user.get('input written'))


def accumulates_int(c, h, dtype):
    """Whether an accumulator of values (not of counts) has an integer
    dtype."""
    for k, v in vars(h).items():
        if isinstance(v, Cell) and v.dtype.kind in 'iu' and \
                'count' not in k:
            return True
    return False


def accumulates_half(c, h):
    """Whether a sum or an accumulator has half precision, which overflows
    (at 65504) and stops counting at 2048."""
    return c.user.get('half', False) or any(
        isinstance(v, Cell) and v.dtype == np.float16
        for v in vars(h).values())


def statistic(c, th, name, masked, N, kw, cnt):
    mask = (cnt == 0) if masked else None
    n = z3.ToReal(cnt)
    if name == 'count':
        return n, (z3.BoolVal(False) if masked else None)
    if name == 'min':
        return th.extreme(th.MN, I0, N.z), mask
    if name == 'max':
        return th.extreme(th.MX, I0, N.z), mask
    total = th.total(I0, N.z)
    if name == 'sum':
        return total, mask
    if name == 'mean':
        if masked:
            t = kw['mdtol'].z
            missing = z3.ToReal(N.z - cnt) / z3.ToReal(N.z)
            mask = z3.Or(mask, z3.And(t < 1, missing > t))
        return total / n, mask
    m2 = th.square(I0, N.z) - total * total / n
    # A sum of squares of differences from the mean.
    c.assume(m2 >= 0)
    v = m2 / (n - z3.ToReal(kw['ddof'].z))
    if name == 'var':
        return v, mask
    s = sqrtf(v)
    return s, mask


UNMASKED = [x for n in ('count', 'min', 'max', 'sum', 'mean', 'std', 'var')
            for x in run_contract(n, False)]
MASKED = [x for n in ('count', 'min', 'max', 'sum', 'mean', 'std', 'var')
          for x in run_contract(n, True)]


@contract('lemma: n * sum of squares >= square of the sum',
          ['_StdStreamsHandler.finalise'])
def cauchy(c, env):
    """The induction step (the base is 0 >= 0): used for the fact that the
    sum of squares of the differences from the mean is not negative."""
    n, S, Q, x = (c.real(k) for k in 'nSQx')
    c.assume(n.z >= 0)
    c.assume(n.z * Q.z >= S.z * S.z)
    # Q is a sum of squares; it is zero only if they all are.
    c.assume(Q.z >= 0)
    c.assume(z3.Implies(n.z == 0, z3.And(S.z == 0, Q.z == 0)))
    # n*(Q + x^2) + Q + x^2 - S^2 - 2*S*x - x^2 with the square completed:
    # n*x^2 - 2*S*x + Q is (n*x - S)^2/n + (n*Q - S^2)/n.
    c.prove('step', (n.z + 1) * (Q.z + x.z * x.z) >=
            (S.z + x.z) * (S.z + x.z))


UNMASKED.append(cauchy)
MASKED.append(cauchy)
