"""A pointwise model of arrays of a given rank and symbolic sizes.

An array is its shape and the function from an index to the element (value and
mask).  The contracts which use it are bounded in the rank (and, where said, in
the number of tiles or items), and unbounded in sizes, indices and values."""
from contracts.common import *
from pyvc import load

TYPES = tuple(np.dtype(t) for t in ('f8', 'i4'))


def val_fn(name, rank):
    return z3.Function(ctx().fresh_name(name), *([z3.IntSort()] * rank +
                                                 [z3.RealSort()]))


def mask_fn(name, rank):
    return z3.Function(ctx().fresh_name(name), *([z3.IntSort()] * rank +
                                                 [z3.BoolSort()]))


class Stride(object):
    """The stride of dimension `dim` of an array."""
    is_model = True

    def __init__(self, arr, dim):
        self.arr, self.dim = arr, dim


class Flags(object):
    writeable = True


class Arr(object):
    """A concrete ndarray or masked array."""
    is_model = True
    __array_priority__ = 1

    def __init__(self, shape, get, dtype, masked=False, nomask=False,
                 scalar=False, owner=None):
        """get(indices) -> (value, mask)"""
        self.shape = tuple(shape)
        self.get = get
        self.dtype = dtype
        self.masked = masked
        self.nomask = nomask
        self.scalar = scalar
        self.flags = Flags()
        self.owner = owner           # the source whose memory it is
        self.writes = []

    @property
    def models_types(self):
        if self.scalar:
            return (np.generic,)
        return (np.ma.MaskedArray,) if self.masked else (np.ndarray,)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = z3.IntVal(1)
        for x in self.shape:
            n = n * lift(x)
        return num(core.simp(n))

    def vlen(self):
        if not self.shape:
            raise raises(TypeError('len() of unsized object'))
        return self.shape[0]

    def like(self, shape=None, get=None, **k):
        d = dict(dtype=self.dtype, masked=self.masked, nomask=self.nomask,
                 owner=self.owner)
        d.update(k)
        r = Arr(self.shape if shape is None else shape, get or self.get, **d)
        if self.masked and r.masked and r.dtype == self.dtype:
            r.fill_with = self.fill_with
        return r

    # None: the default of the dtype.
    fill_with = None

    @property
    def fill_value(self):
        if not self.masked:
            raise AttributeError('fill_value')
        if self.fill_with is None:
            return np.ma.empty(0, dtype=self.dtype).fill_value
        return self.fill_with

    @fill_value.setter
    def fill_value(self, v):
        # NumPy fills the value in place: views of the array see it.
        self.write()
        self.fill_with = v

    def write(self):
        ctx().prove('the memory of a source is not written',
                    self.owner is None)

    def filled(self, fill_value=None):
        if not self.masked:
            raise AttributeError('filled')
        v = fill_real(self.fill_value if fill_value is None else fill_value)

        def get(i):
            x, m = self.get(i)
            return (x if m is None else core.simp(z3.If(m, v, x))), None
        return self.like(get=get, masked=False, nomask=False,
                         owner=self.owner if self.nomask else None)

    @property
    def data(self):
        if not self.masked:
            raise Limitation('memory of an array')
        return self.like(masked=False, nomask=False)

    @property
    def mask(self):
        if not self.masked:
            raise AttributeError('mask')
        if self.nomask:
            return np.ma.nomask
        return Arr(self.shape, lambda i: (self.get(i)[1], None),
                   np.dtype(bool))

    @property
    def strides(self):
        return tuple(Stride(self, d) for d in range(self.ndim))

    def transpose(self, *axes):
        if len(axes) == 1 and not isinstance(axes[0], (int, np.integer)):
            axes = axes[0]
        if axes is None or (type(axes) is tuple and not axes):
            axes = range(self.ndim)[::-1]
        axes = [int(a) for a in loops_items(axes)]
        n = self.ndim
        if sorted(a % n if n else a for a in axes) != list(range(n)) or \
                any(not -n <= a < n for a in axes):
            raise raises(ValueError('axes do not match array'))
        axes = [a % n for a in axes]

        def get(i):
            j = [None] * n
            for d, a in enumerate(axes):
                j[a] = i[d]
            return self.get(tuple(j))
        return self.like([self.shape[a] for a in axes], get)

    @property
    def T(self):
        return self.transpose()

    def astype(self, dt, **k):
        dt = plain_dtype(dt)
        if dt == self.dtype:
            return self.like(owner=None)

        def get(i):
            v, m = self.get(i)
            return cast(v, self.dtype, dt), m
        return self.like(get=get, dtype=dt, owner=None)

    def fill(self, v):
        self.write()
        self.writes.append(('fill', v))
        x = lift(v) if not isinstance(v, (float, np.floating)) else \
            z3.RealVal(repr(float(v)))
        if z3.is_int(x):
            x = z3.ToReal(x)
        m = z3.BoolVal(False)
        self.get = lambda i: (x, m)

    def __array_ufunc__(self, ufunc, method, *inputs, **k):
        if method != '__call__' or k:
            raise Limitation('ufunc options')
        return pointwise(ufunc.__name__, ufunc, inputs, False)

    def np_call(self, name, f, a, k):
        if k or any(not isinstance(x, Arr) for x in a):
            raise Limitation('%s of a symbolic array' % name)
        if name.startswith('ma.') and name[3:] in ELEMENTWISE:
            return pointwise(f.__name__, f, a, True)
        if name in ELEMENTWISE:
            return pointwise(f.__name__, f, a, False)
        raise Limitation('%s of a symbolic array' % name)

    def __getitem__(self, keys):
        return np_index(self, keys)

    def __setitem__(self, keys, v):
        np_assign(self, keys, v)

    def __getattr__(self, name):
        if name.startswith('__') or name in ('_vc', 'vparts', 'parts') or \
                not hasattr(np.ma.MaskedArray if self.masked else np.ndarray,
                            name):
            raise AttributeError(name)
        raise Limitation('array: .' + name)

    def __bool__(self):
        raise Limitation('truth of an array')


def fill_real(v):
    """A fill value as a real."""
    if isinstance(v, SNum):
        z = lift(v)
        return z3.ToReal(z) if z3.is_int(z) else z
    return z3.RealVal(repr(float(v)))


ELEMENTWISE = {n for n in dir(np) if isinstance(getattr(np, n), np.ufunc) and
               getattr(np, n).nout == 1} | {'isreal', 'iscomplex'}


def pointwise(name, f, xs, ma):
    """f applied to arrays of the same shape, element by element: an
    uninterpreted function of the values (and masks)."""
    c = ctx()
    xs = [to_arr(x) for x in xs]
    if any(x is None for x in xs):
        raise Limitation('%s of %r' % (name, xs))
    shape = None
    for x in xs:
        if shape is None:
            shape = x.shape
        elif len(shape) != len(x.shape) or not all(
                c.branch(lift(m) == lift(n))
                for m, n in zip(shape, x.shape)):
            raise Limitation('%s with broadcasting' % name)
    if not ma and any(x.masked for x in xs):
        raise Limitation('%s of a masked array' % name)
    args = [np.ones(1, dtype=x.dtype) for x in xs]
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            dt = np.asarray(f(*args)).dtype
        except TypeError as err:
            raise raises(err)
    n = len(xs)
    # ma.f computes f and masks what is masked or outside of its domain.
    R, B = z3.RealSort(), z3.BoolSort()
    F = z3.Function('f:' + name, *([R] * (n + 1)))
    D = z3.Function('domain:' + name, *([R] * n + [B]))
    domain = ma and getattr(getattr(f, 'real', f), 'domain', None) is not None

    def get(i):
        vs = [x.get(i) for x in xs]
        v = F(*[q[0] for q in vs])
        if not ma:
            return v, None
        m = z3.Or([z3.BoolVal(False) if q[1] is None else q[1] for q in vs] +
                  ([D(*[q[0] for q in vs])] if domain else []))
        return v, core.simp(m)
    if ma and not shape:
        if c.branch(get(())[1]):
            return np.ma.masked
    return Arr(shape, get, dt, masked=ma and bool(shape), nomask=False,
               scalar=not shape)


def to_arr(x):
    """The model of a concrete 0-dimensional array."""
    if isinstance(x, Arr):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype.kind in 'biuf':
        masked = isinstance(x, np.ma.MaskedArray)
        v = z3.RealVal(repr(float(np.ma.getdata(x))))
        m = z3.BoolVal(bool(np.ma.getmaskarray(x))) if masked else None
        return Arr((), lambda i: (v, m), x.dtype, masked=masked)
    return None


def loops_items(x):
    p = parts_of(x)
    if p is None:
        return list(x)
    if any(not isinstance(q, Item) for q in p):
        raise Limitation('axes of symbolic length')
    return [q.v for q in p]


def plain_dtype(dt):
    if isinstance(dt, np.dtype):
        return dt
    return np.dtype(getattr(dt, 'real', dt))


def cast(v, a, b):
    if a == b:
        return v
    f = z3.Function('cast_%s_%s' % (a.str[1:], b.str[1:]), z3.RealSort(),
                    z3.RealSort())
    return f(v)


def expand(keys, ndim):
    """NumPy's rule for the number of keys: (full keys) or IndexError."""
    if isinstance(keys, VTuple):
        keys = tuple(loops_items(keys))
    if not isinstance(keys, tuple):
        keys = (keys,)
    keys = tuple(int(k) if isinstance(k, np.integer) else k for k in keys)
    n = len([k for k in keys if k is not None and k is not Ellipsis])
    dots = [i for i, k in enumerate(keys) if k is Ellipsis]
    if n > ndim or len(dots) > 1:
        raise raises(IndexError('too many indices'))
    full = [SSlice(None, None, None)] * (ndim - n)
    if dots:
        i = dots[0]
        return list(keys[:i]) + full + list(keys[i + 1:])
    return list(keys) + full


def select(shape, keys):
    """The result's shape and the map from its indices to those of the
    array, for orthogonal indexing by full keys; raises IndexError."""
    c = ctx()
    out, sels = [], []
    d = 0
    for k in keys:
        kind = kind_of_key(k)
        if kind == 'newaxis':
            out.append(1)
            sels.append(None)
            continue
        size = shape[d]
        d += 1
        if kind == 'int':
            if not c.branch(within(k, size)):
                raise raises(IndexError('out of bounds'))
        elif kind == 'tuple':
            rope = k if isinstance(k, VSeq) else VTuple([Item(v) for v in
                                                         loops_items(k)])
            bad = outside(c, rope, size)
            if bad:
                raise raises(IndexError('out of bounds'))
            k = rope
        elif kind == 'bool':
            # Precondition: boolean vectors have the length of the dimension.
            c.assume(lift(k.size) == lift(size))
        elif kind == '?':
            raise Limitation('key %r' % (k,))
        s = selection(k, size)
        sels.append(s)
        if not isinstance(s, (int, SInt)):
            out.append(vlen(s))

    def back(i):
        i = list(i)
        j = []
        for s in sels:
            if s is None:
                i.pop(0)
            elif isinstance(s, (int, SInt)):
                j.append(lift(s))
            else:
                j.append(lift(at(s, core.simp(i.pop(0)))))
        return tuple(j)
    return tuple(out), back


def outside(c, rope, size):
    """Whether some element is out of bounds (forks; otherwise it is a fact
    that none is)."""
    for p in rope.parts:
        if isinstance(p, Item):
            if not c.branch(within(p.v, size)):
                return True
            continue
        key = ('outside', id(p.base), str(p.lo), str(p.hi), str(lift(size)))
        memo = c.user.setdefault('outside', {})
        if key not in memo:
            memo[key] = one_outside(c, p, size)
            c.user.setdefault('keep', []).append(p)
        if memo[key]:
            return True
    return False


def one_outside(c, p, size):
    k = c.choose([p.n() > 0, z3.BoolVal(True)])
    if k == 0:
        i = c.int('witness')
        c.assume(z3.And(0 <= i.z, i.z < p.n()))
        c.assume(z3.Not(within(p.get(i.z), size)))
        r, m = c.check()
        if r == z3.unsat:
            raise EndPath('no witness')
        return True

    def fact(z, v):
        if ctx().branch(z3.And(p.lo <= z, z < p.hi)):
            ctx().assume(within(v, size))
    p.base.add_fact(fact)
    return False


def np_index(a, keys):
    """NumPy indexing of a concrete array: like orthogonal indexing unless
    there are several vector keys."""
    full = expand(keys, a.ndim)
    full = [vector(k) for k in full]
    kinds = [kind_of_key(k) for k in full]
    n_vec = sum(k in ('tuple', 'bool') for k in kinds)
    if n_vec > 1 or (n_vec and 'int' in kinds):
        return fancy_index(a, full, kinds)
    shape, back = select(a.shape, full)
    dots = keys is Ellipsis or (isinstance(keys, tuple) and any(
        k is Ellipsis for k in keys)) or (isinstance(keys, VTuple) and any(
            k is Ellipsis for k in loops_items(keys)))
    scalar = not shape and not dots and not n_vec and bool(full or not a.ndim)
    if scalar and a.masked:
        # An element of a masked array: ma.masked or a plain scalar.
        m = a.get(back(()))[1]
        if m is not None and ctx().branch(m):
            return np.ma.masked
        return a.like(shape, lambda i: (a.get(back(i))[0], None),
                      scalar=True, masked=False, nomask=False, owner=None)
    return a.like(shape, lambda i: a.get(back(i)), scalar=scalar,
                  owner=None if n_vec else a.owner)


def fancy_index(a, full, kinds):
    """NumPy indexing by vectors and integers: they are broadcast together
    and indexed by one dimension, which comes first unless they are
    adjacent."""
    c = ctx()
    advanced = [d for d, k in enumerate(kinds) if k in ('int', 'tuple',
                                                        'bool')]
    if 'newaxis' in kinds:
        raise Limitation('NumPy indexing by vectors and new axes')
    length, sels, out = 1, [], []
    for d, (k, kind) in enumerate(zip(full, kinds)):
        size = a.shape[d]
        shape, _ = select((size,), [k])
        s = selection(k, size)
        sels.append(s)
        if kind == 'slice':
            out.append((d, shape[0]))
            continue
        if kind == 'int':
            continue
        n = shape[0]
        if c.branch(lift(n) == 1):
            continue
        if not (isinstance(length, int) and length == 1) and \
                not c.branch(lift(n) == lift(length)):
            raise raises(IndexError('shape mismatch of index arrays'))
        length = n
    adjacent = advanced == list(range(advanced[0], advanced[-1] + 1))
    first = sum(d < advanced[0] for d, n in out) if adjacent else 0
    dims = [d for d, n in out]
    sizes = [n for d, n in out]
    dims.insert(first, None)
    sizes.insert(first, length)

    def back(i):
        where = dict(zip(dims, i))
        j = []
        for d, s in enumerate(sels):
            if isinstance(s, (int, SInt)):
                j.append(lift(s))
            elif kinds[d] == 'slice':
                j.append(lift(at(s, core.simp(where[d]))))
            else:
                one = c.branch(lift(vlen(s)) == 1)
                j.append(lift(at(s, z3.IntVal(0) if one else
                                 core.simp(where[None]))))
        return tuple(j)
    return a.like(sizes, lambda i: a.get(back(i)), owner=None)


def take(a, indices, axis=None, **k):
    """np.take along an axis."""
    if not isinstance(a, Arr) or k or axis is None:
        raise Limitation('np.take')
    if isinstance(axis, SInt):
        axis = core.concretise(axis)
    axis = int(axis)
    n = a.ndim
    if not -n <= axis < n:
        raise raises(np.exceptions.AxisError(axis, n))
    axis %= n
    full = [SSlice(None, None, None)] * n
    full[axis] = vector(indices)
    if kind_of_key(full[axis]) != 'tuple':
        raise Limitation('np.take of %r' % (indices,))
    shape, back = select(a.shape, full)
    return a.like(shape, lambda i: a.get(back(i)), owner=None)


def vector(k):
    if isinstance(k, ArrVec):
        return VTuple(parts_of(k.rope))
    if isinstance(k, (list, VList)):
        return VTuple(parts_of(k))
    return k


def np_assign(a, keys, v):
    a.write()
    if isinstance(keys, (list, VList)):
        # NumPy (before 1.23) takes a list of slices for a tuple.
        keys = tuple(loops_items(keys))
    full = [vector(k) for k in expand(keys, a.ndim)]
    if not isinstance(v, Arr):
        raise Limitation('assignment of %r' % (v,))
    c = ctx()
    kinds = [kind_of_key(k) for k in full]
    if any(k not in ('int', 'slice') for k in kinds):
        raise Limitation('assignment by vectors')
    # Broadcasting of the value is not modelled: the shapes must agree.
    sels, shape = [], []
    for k, n in zip(full, a.shape):
        s = selection(k, n)
        if isinstance(s, (int, SInt)):
            if not c.branch(within(k, n)):
                raise raises(IndexError('out of bounds'))
            sels.append(lift(s))
        else:
            st = seqs.as_slice(k)
            lo, hi, step, m = st.resolve(n)
            if not (isinstance(step, int) and step == 1):
                raise Limitation('assignment with a step')
            sels.append((lift(lo), lift(m)))
            shape.append(m)
    if len(shape) != len(v.shape):
        raise Limitation('assignment with broadcasting')
    for m, n in zip(shape, v.shape):
        if not c.branch(lift(m) == lift(n)):
            if not c.branch(lift(n) == 1):
                raise raises(ValueError('could not broadcast'))
            raise Limitation('assignment with broadcasting')
    old = a.get

    def get(i):
        conds, j = [], []
        for x, s in zip(i, sels):
            if isinstance(s, tuple):
                conds += [x >= s[0], x < s[0] + s[1]]
                j.append(core.simp(x - s[0]))
            else:
                conds.append(x == s)
        inside = core.simp(z3.And(conds)) if conds else z3.BoolVal(True)
        if ctx().branch(inside):
            x, m = v.get(tuple(j))
            x = cast(x, v.dtype, a.dtype)
            if a.masked:
                m = m if v.masked and m is not None else z3.BoolVal(False)
            else:
                m = None
            return x, m
        return old(i)
    a.get = get
    a.writes.append(full)
    if v.masked:
        a.nomask = False


def undefined(name, rank):
    """Uninitialised memory."""
    f = val_fn(name, rank)
    return lambda i: (f(*i) if rank else z3.Const(str(f.name()),
                                                  z3.RealSort()), None)


def empty(masked):
    def f(shape, dtype=float, fill_value=None, **k):
        if isinstance(shape, (VSeq,)):
            shape = tuple(loops_items(shape))
        if isinstance(shape, (int, SInt)):
            shape = (shape,)
        if plain_dtype(dtype) == object and not masked:
            return ObjArr(np.empty([
                core.concretise(n) if isinstance(n, SInt) else n
                for n in shape], dtype='O'))
        g = undefined('uninitialised', len(shape))
        get = g if not masked else (lambda i: (g(i)[0], z3.BoolVal(False)))
        a = Arr(shape, get, plain_dtype(dtype), masked=masked, nomask=masked)
        a.fill_with = fill_value
        return a
    return f


def filled_with(value=None, masked=False, like=False):
    """np.zeros, np.ones, np.full and the *_like functions."""
    new = empty(masked)

    def f(shape, *r, **k):
        r = list(r)
        v = value
        if v is None:
            v = r.pop(0) if r else k.pop('fill_value')
        dtype = r.pop(0) if r else k.pop('dtype', None)
        if r or set(k) - {'order'}:
            raise Limitation('options of a filled array')
        if not isinstance(v, (bool, int, float, np.number, np.bool_)):
            raise Limitation('filled with %r' % (v,))
        if like:
            if not isinstance(shape, Arr) or shape.masked:
                raise Limitation('like')
            dtype = shape.dtype if dtype is None else dtype
            shape = shape.shape
        elif not masked and repr(shape) in ('1', '(1,)'):
            # A sample, from which NumPy finds a dtype: a real array.
            return np.full(shape, v, dtype if dtype is not None or
                           value is None else float)
        if dtype is None:
            dtype = np.dtype(float) if value is not None else \
                np.array(v).dtype
        dt = plain_dtype(dtype)
        if dt.kind == 'O' or np.array(v, dtype=dt) != v:
            raise Limitation('value cast to %s' % dt)
        a = new(shape, dt)
        a.fill(v)
        del a.writes[:]
        return a
    return f


def ndenumerate(x):
    if not isinstance(x, ObjArr):
        raise Limitation('ndenumerate')
    return list(np.ndenumerate(x.a))


def as_strided(x, shape=None, strides=None, **k):
    c = ctx()
    shape = tuple(loops_items(shape))
    strides = tuple(loops_items(strides))
    if not isinstance(x, Arr) or len(shape) != len(strides):
        raise Limitation('as_strided')
    dims = {}
    for j, s in enumerate(strides):
        if isinstance(s, Stride):
            if s.arr is not x:
                raise Limitation('strides of another array')
            if s.dim in dims:
                raise Limitation('a stride used twice')
            dims[s.dim] = j
            c.prove('within the memory', lift(shape[j]) <= lift(
                x.shape[s.dim]))
        elif not (isinstance(s, int) and s == 0):
            raise Limitation('strides')
    some = z3.And([lift(n) > 0 for n in shape] or [z3.BoolVal(True)])
    for d in range(x.ndim):
        if d not in dims:
            c.prove('within the memory', z3.Implies(
                some, lift(x.shape[d]) >= 1))

    def get(i):
        return x.get(tuple(i[dims[d]] if d in dims else z3.IntVal(0)
                           for d in range(x.ndim)))
    return x.like(shape, get)


def broadcast_to(x, shape, **k):
    shape = tuple(loops_items(shape))
    off = len(shape) - x.ndim
    if off < 0:
        raise raises(ValueError('broadcast_to'))
    c = ctx()
    keep = []
    for d in range(x.ndim):
        same = c.branch(lift(shape[off + d]) == lift(x.shape[d]))
        if not same and not c.branch(lift(x.shape[d]) == 1):
            raise raises(ValueError('broadcast_to'))
        keep.append(same)
    return x.like(shape, lambda i: x.get(tuple(
        i[off + d] if keep[d] else z3.IntVal(0) for d in range(x.ndim))))


def masked_array(x, mask=np.ma.nomask, dtype=None, fill_value=None, **k):
    r = make_masked(x, mask, dtype, fill_value, **k)
    if fill_value is not None:
        r.fill_with = fill_value
    return r


def as_dtype(x, dtype):
    dtype = plain_dtype(dtype)
    return x if dtype == x.dtype else x.astype(dtype)


def make_masked(x, mask, dtype, fill_value, **k):
    if isinstance(x, np.ndarray) and to_arr(x) is not None:
        x = to_arr(x)
    if not isinstance(x, Arr) or k:
        raise Limitation('masked_array')
    if dtype is not None:
        x = as_dtype(x, dtype)
    if isinstance(mask, (bool, np.bool_)):
        if mask:
            r = x.like(masked=True, nomask=False, get=lambda i: (
                x.get(i)[0], z3.BoolVal(True)))
            return r
        if x.masked:
            return x.like()
        return x.like(masked=True, nomask=True,
                      get=lambda i: (x.get(i)[0], z3.BoolVal(False)))
    if not isinstance(mask, Arr):
        raise Limitation('mask')
    c = ctx()
    if len(mask.shape) != len(x.shape):
        raise raises(np.ma.MaskError('shapes of mask and data'))
    for m, n in zip(mask.shape, x.shape):
        if not c.branch(lift(m) == lift(n)):
            raise raises(np.ma.MaskError('shapes of mask and data'))

    def get(i):
        v, m = x.get(i)
        w = mask.get(i)[0]
        return v, w if not x.masked else z3.Or(m, w)
    return x.like(masked=True, nomask=False, get=get)


class MaskedArrayType(load.PType):
    def __instancecheck__(self, x):
        if isinstance(x, Arr):
            return x.masked
        return isinstance(x, np.ma.MaskedArray)


MASKED_ARRAY = MaskedArrayType(np.ma.MaskedArray, masked_array)


def masked_equal(x, value, **k):
    if not isinstance(x, Arr):
        raise Limitation('masked_equal')
    w = lift(value)
    w = z3.ToReal(w) if z3.is_int(w) else w

    def get(i):
        v, m = x.get(i)
        e = v == w
        return v, (e if m is None else z3.Or(m, e))
    return x.like(masked=True, nomask=False, get=get, owner=None)


def masked_values(x, value):
    # Near values too, where they are in floating point.
    if not isinstance(x, Arr):
        raise Limitation('masked_values')
    w = lift(value)
    w = z3.ToReal(w) if z3.is_int(w) else w
    inexact = z3.Bool(ctx().fresh_name('inexact'))
    tol = z3.Q(1, 10 ** 8) + z3.Q(1, 10 ** 5) * z3.If(w < 0, -w, w)

    def get(i):
        v, m = x.get(i)
        e = z3.Or(v == w, z3.And(inexact, v - w <= tol, w - v <= tol))
        return v, (e if m is None else z3.Or(m, e))
    return x.like(masked=True, nomask=False, get=get, owner=None)


def check_bounds_contract(keys, shape):
    """What keylib proves of _check_bounds."""
    full = expand(keys, len(shape))
    d = 0
    c = ctx()
    for k in full:
        k = vector(k)
        kind = kind_of_key(k)
        if kind == 'newaxis':
            continue
        size = shape[d]
        d += 1
        if kind == 'int' and not c.branch(within(k, size)):
            raise raises(IndexError('out of bounds'))
        if kind == 'tuple' and outside(c, VTuple(parts_of(k)), size):
            raise raises(IndexError('out of bounds'))


def sliced_shape_contract(shape, keys):
    """What keylib proves of _sliced_shape."""
    out = []
    d = 0
    for k in expand(keys, len(shape)):
        k = vector(k)
        kind = kind_of_key(k)
        if kind == 'newaxis':
            out.append(1)
            continue
        size = shape[d]
        d += 1
        if kind == 'slice':
            out.append(seqs.as_slice(k).resolve(size)[3])
        elif kind == 'tuple':
            out.append(vlen(k))
        elif kind == 'bool':
            out.append(k.count)
    return tuple(out)


def full_keys_contract(keys, ndim):
    if not isinstance(keys, (tuple, VTuple)):
        keys = (keys,)
    return tuple(expand(keys, ndim))


CALLEES = ['contracts of callees: _check_bounds, _sliced_shape, _full_keys '
           '(each has its own contract, C02/C07)']


def install(env, stubs=True):
    import sys
    vector_models(env)
    ctx().user['Array'] = env.g['Array']
    if ctx().user.get('ask'):
        # Its own contract: it asks for nbytes.
        env.g['size'] = lambda a: str(a.nbytes)
    if stubs:
        env.g['_check_bounds'] = check_bounds_contract
        env.g['_sliced_shape'] = sliced_shape_contract
        env.g['_full_keys'] = full_keys_contract
    m, a = env.np._models, env.np.ma._models
    tricks = type(sys)('numpy.lib.stride_tricks')
    tricks.as_strided = as_strided
    tricks.broadcast_to = broadcast_to
    env.loader.modules['numpy.lib.stride_tricks'] = tricks
    m['broadcast_to'] = broadcast_to
    m['empty'] = empty(False)
    a['empty'] = empty(True)
    for name, v in (('zeros', 0), ('ones', 1), ('full', None)):
        m[name] = filled_with(v)
        m[name + '_like'] = filled_with(v, like=True)
    a['zeros'], a['ones'] = filled_with(0, True), filled_with(1, True)
    m['ndenumerate'] = ndenumerate
    a['masked_array'] = a['array'] = masked_array
    a['masked_equal'] = masked_equal
    a['masked_values'] = masked_values
    a['MaskedArray'] = MASKED_ARRAY
    a['isMaskedArray'] = a['isMA'] = a['isarray'] = lambda x: \
        MASKED_ARRAY.__instancecheck__(x)
    m['take'] = take

    def array(x, *r, **k):
        if isinstance(x, Arr):
            if r or any(o != 'dtype' for o in k):
                raise Limitation('np.array options')
            if k.get('dtype') is not None:
                x = as_dtype(x, k['dtype'])
            return x.like(masked=False, nomask=False, owner=None)
        if not r and k.get('dtype', object) in (object, 'O', np.dtype('O')):
            obj = objects(x, **k)
            if obj is not None:
                return obj
        if isinstance(x, (tuple, list, VSeq)) and not r and not k and \
                ctx().user.get('int_vectors'):
            p = parts_of(x)
            if p and all(isinstance(q, Item) and type(q.v) in (int, SInt)
                         for q in p):
                return ArrVec(VTuple(p))
        return np_array(x, *r, **k)
    m['array'] = array

    def asarray(x, *r, **k):
        if isinstance(x, Arr) and not r and not (set(k) - {'dtype'}):
            if x.masked:
                x = x.like(masked=False, nomask=False)
            dt = k.get('dtype')
            if dt is not None and plain_dtype(dt) != x.dtype:
                x = x.astype(dt)
            return x.like() if x.scalar else x
        if isinstance(x, ObjArr):
            return x
        return array(x, *r, **k)
    m['asarray'] = m['require'] = asarray

    def ma_asarray(x, dtype=None, **k):
        x = to_arr(x)
        if x is None or k:
            raise Limitation('ma.asarray')
        if dtype is not None and plain_dtype(dtype) != x.dtype:
            x = x.astype(dtype)
        if x.masked and not x.scalar:
            return x
        g = x.get
        return x.like(masked=True, nomask=x.nomask, get=lambda i: (
            g(i)[0], z3.BoolVal(False) if g(i)[1] is None else g(i)[1]))
    a['asarray'] = a['asanyarray'] = ma_asarray

    def cumsum(x, *r, **k):
        p = parts_of(x)
        if r or k or p is None or any(not isinstance(q, Item) for q in p):
            raise Limitation('cumsum')
        if all(isinstance(q.v, (int, np.integer)) for q in p):
            return np.cumsum([q.v for q in p])
        out, total = [], 0
        for q in p:
            total = total + q.v
            out.append(Item(total))
        return ArrVec(VTuple(out))
    m['cumsum'] = cumsum

    def searchsorted(a, v, side='left', sorter=None):
        p = parts_of(a.rope if isinstance(a, ArrVec) else
                     list(a) if isinstance(a, np.ndarray) else a)
        if sorter is not None or any(not isinstance(q, Item) for q in p):
            raise Limitation('searchsorted')

        def one(v):
            n = z3.IntVal(0)
            for q in p:
                x, y = lift(q.v), lift(v)
                n = n + z3.If(x < y if side == 'left' else x <= y, 1, 0)
            return num(core.simp(n))
        if isinstance(v, (int, SInt, np.integer)):
            return one(v)
        vs = parts_of(v.rope if isinstance(v, ArrVec) else
                      list(v) if isinstance(v, np.ndarray) else v)
        if any(not isinstance(q, Item) for q in vs):
            raise Limitation('searchsorted of a vector')
        return ArrVec(VTuple([Item(one(q.v)) for q in vs]))
    m['searchsorted'] = searchsorted

    def atleast_1d(x):
        p = parts_of(x) if isinstance(x, (tuple, list, VSeq)) else None
        if p is not None and any(isinstance(q.v, SInt) if isinstance(
                q, Item) else True for q in p):
            return ArrVec(VTuple(p))
        return np.atleast_1d(npmodel.plain(x))
    m['atleast_1d'] = atleast_1d

    def ndindex(*shape):
        if len(shape) == 1 and not isinstance(shape[0], (int, SInt)):
            shape = loops_items(shape[0])
        return np.ndindex(*[int(x) if not isinstance(x, SInt) else
                            core.concretise(x) for x in shape])
    m['ndindex'] = ndindex


class ObjArr(object):
    """An ndarray of objects, of concrete shape."""
    is_model = True
    models_types = (np.ndarray,)
    dtype = np.dtype('O')

    def __init__(self, a):
        self.a = a

    shape = property(lambda self: self.a.shape)
    ndim = property(lambda self: self.a.ndim)
    size = property(lambda self: self.a.size)

    @property
    def flat(self):
        return list(self.a.flat)

    def vlen(self):
        return len(self.a)

    def __iter__(self):
        for x in self.a:
            yield ObjArr(x) if isinstance(x, np.ndarray) else x

    def _key(self, keys):
        if isinstance(keys, VTuple):
            keys = tuple(loops_items(keys))
        many = isinstance(keys, tuple)
        out = []
        for k in (keys if many else (keys,)):
            if isinstance(k, SInt):
                k = core.concretise(k)
            elif isinstance(k, (VSeq, ArrVec)):
                k = [core.concretise(x) if isinstance(x, SInt) else x
                     for x in loops_items(getattr(k, 'rope', k))]
            elif seqs.as_slice(k) is not None:
                k = npmodel.plain(k)
            elif isinstance(k, (BoolVec,)):
                raise Limitation('index of objects')
            out.append(k)
        return tuple(out) if many else out[0]

    def __getitem__(self, keys):
        try:
            r = self.a[self._key(keys)]
        except IndexError as err:
            raise raises(err)
        return ObjArr(r) if isinstance(r, np.ndarray) else r

    def __setitem__(self, keys, v):
        seqs_mutated(self)
        self.a[self._key(keys)] = v

    def copy(self):
        return ObjArr(self.a.copy())

    def __getattr__(self, name):
        if name.startswith('__') or name in ('_vc', 'vparts', 'parts'):
            raise AttributeError(name)
        raise Limitation('object array: .' + name)


def seqs_mutated(x):
    c = ctx()
    for y in c.user.get('frozen', ()):
        # np.shares_memory does not look at the objects.
        c.prove('an existing array is not modified',
                not np.may_share_memory(x.a, y))


def objects(x, dtype=None, ndmin=0, **k):
    """An ObjArr if x is one or a list of lazy arrays."""
    if k:
        return None
    if isinstance(x, ObjArr):
        return x.copy()
    p = parts_of(x)
    if isinstance(x, VSeq) and any(not isinstance(q, Item) for q in p):
        n = core.simp(lift(x.vlen()))
        if z3.is_int_value(n):
            p = [Item(x.at(z3.IntVal(i))) for i in range(n.as_long())]
    if not p or any(not isinstance(q, Item) for q in p):
        return None
    A = ctx().user.get('Array')
    if A is None or not any(isinstance(q.v, A) for q in p):
        return None
    r = np.empty(len(p), dtype='O')
    for i, q in enumerate(p):
        r[i] = q.v
    return ObjArr(r)


def lazy(env, name, rank, shape=None, dtype=None, maskable=None):
    """A lazy array of which the contract of Array is assumed: it converts to
    some fixed array, and indexing it gives a lazy array which converts to
    the orthogonally indexed array, or raises IndexError."""
    c = ctx()
    Array = env.g['Array']

    class Lazy(Array):
        is_model = True

        def __init__(self, model, maskable):
            self.model = model
            self.maskable = maskable
            self.converted = 0

        dtype = property(lambda self: self.model.dtype)
        shape = property(lambda self: self.model.shape)
        fill_value = property(lambda self: None)

        def ndarray(self):
            self.converted += 1
            c.user['reads'] = c.user.get('reads', 0) + 1
            return self.model.like(masked=False, nomask=False, owner=name)

        def masked_array(self):
            self.converted += 1
            c.user['reads'] = c.user.get('reads', 0) + 1
            nomask = not self.maskable
            if nomask:
                return self.model.like(
                    masked=True, nomask=True, owner=name, get=lambda i: (
                        self.model.get(i)[0], z3.BoolVal(False)))
            return self.model.like(masked=True, owner=name)

        def __getitem__(self, keys):
            full = [vector(k) for k in expand(keys, self.ndim)]
            shape, back = select(self.shape, full)
            get = self.model.get
            return Lazy(self.model.like(shape, lambda i: get(back(i))),
                        self.maskable)

        def __repr__(self):
            return 'Lazy'
    if shape is None:
        shape = tuple(c.int('%s.size%d' % (name, d), 0) for d in range(rank))
    rank = len(shape)
    if dtype is None:
        dtype = TYPES[0]
    f, g = val_fn(name, rank), mask_fn(name + '.mask', rank)
    if maskable is None:
        maskable = c.among([True, False])

    def get(i):
        i = tuple(core.simp(lift(x)) for x in i)
        if not rank:
            v = z3.Const(str(f.name()), z3.RealSort())
            m = z3.Const(str(g.name()), z3.BoolSort())
        else:
            v, m = f(*i), g(*i)
        return v, m if maskable else z3.BoolVal(False)
    r = Lazy(Arr(shape, get, dtype), maskable)
    return r


def spec_index(a, keys):
    """The specification: orthogonal indexing of a (model) array."""
    full = [vector(k) for k in expand(keys, a.ndim)]
    shape, back = select(a.shape, full)
    return a.like(shape, lambda i: a.get(back(i)))


def same_shape(c, got, want, name='shape'):
    if not c.prove(name + ': rank', len(got) == len(want)):
        return False
    ok = True
    for x, y in zip(got, want):
        ok = c.prove(name, lift(x) == lift(y)) and ok
    return ok


def same_array(c, got, want, masked, name='element', when=''):
    """got (made by the code) equals want (the specification)."""
    if not isinstance(got, Arr):
        raise Limitation('result %r' % (got,))
    c.prove(when + 'an array, not a scalar', not got.scalar)
    c.prove(when + 'kind of array', got.masked == masked)
    c.prove(when + 'dtype', got.dtype == want.dtype)
    if not same_shape(c, got.shape, want.shape, when + 'shape'):
        return
    name = when + name
    i = tuple(c.int('i%d' % d, 0) for d in range(len(want.shape)))
    for x, n in zip(i, want.shape):
        c.assume(x.z < lift(n))
    r, m_ = c.check()
    if r == z3.unsat:
        return
    i = tuple(x.z for x in i)
    v, m = got.get(i)
    w, n = want.get(i)
    if masked:
        m = z3.BoolVal(False) if m is None else m
        n = z3.BoolVal(False) if n is None else n
        c.prove(when + 'mask', m == n)
        c.prove(name, z3.Or(n, v == w))
    else:
        c.prove(name, v == w)


def convert(c, a, masked):
    """Convert by the code's method; the declared shape and dtype."""
    out = call(a.masked_array if masked else a.ndarray)
    if not c.prove('conversion does not raise', out.ok, repr(out.exc)):
        return None
    got = out.value
    if isinstance(got, Arr):
        same_shape(c, got.shape, a.shape, 'declared shape')
        c.prove('declared dtype', got.dtype == a.dtype)
        c.prove('declared ndim', lift(a.ndim) == len(got.shape))
    return got


def again(c, *pairs, **kw):
    """For C17: each array still converts to what it converted to before."""
    if not c.user.get('again'):
        return
    masked = kw['masked'] if kw else c.among([False, True])
    for a, spec in pairs:
        out = call(a.masked_array if masked else a.ndarray)
        if not c.prove('after: converts as before', out.ok):
            continue
        if isinstance(out.value, Arr):
            same_array(c, out.value, spec, masked, when='after: ')


def asked(c, *views):
    """For C16: nothing is read by asking for the attributes."""
    if not c.user.get('ask'):
        return
    for a in views:
        for what in ('repr', 'str', 'shape', 'dtype', 'ndim', 'nbytes',
                     'fill_value'):
            out = call({'repr': repr, 'str': str}.get(
                what, lambda a: getattr(a, what)), a)
            c.prove('attributes can be asked for', out.ok, repr(out.exc))
    c.prove('nothing is read by asking', not c.user.get('reads'))
    # What conversions read is of no interest here.
    raise EndPath()


def keys_for(c, rank, kinds, extra=True, fewer=True):
    """An arbitrary key expression for a rank: a tuple of at most rank + 1
    keys with at most one Ellipsis."""
    if c.user.get('again'):
        extra = fewer = False
    n = c.among(range(rank + 1)) if fewer else rank
    ks = [keys.key('key%d' % d, kinds) for d in range(n)]
    if extra and c.among([False, True]):
        at_ = c.among(range(len(ks) + 1))
        ks.insert(at_, Ellipsis)
    return tuple(ks)
