"""Contracts of the aggregation arrays and their axis arguments (any rank)."""
from contracts.common import *

DTYPES = [np.dtype(t) for t in ('?', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4',
                                'u8', 'f2', 'f4', 'f8', 'c8', 'c16')]
REAL = [t for t in DTYPES if t.kind != 'c']


class Opaque(object):
    """A value which is neither an integer nor iterable."""
    is_model = True


def abstract(env, shape=None, dtype=np.dtype('f8'), ndim=None, name='a'):
    """An arbitrary biggus Array known by its shape and dtype: any other use
    of it is recorded."""
    base = env.g['Array']

    class Abstract(base):
        is_model = True

        def __init__(self):
            self.log = []
            self.name = name

        @property
        def shape(self):
            if self.shape_ is None:
                raise Limitation('shape of an abstract array')
            return self.shape_

        @property
        def ndim(self):
            if ndim is not None:
                return ndim
            return vlen(self.shape)

        @property
        def dtype(self):
            return self.dtype_

        def _read(self, *a):
            self.log.append('read')
            raise raises(ReadError('conversion'))

        ndarray = masked_array = __array__ = _read

        def __getitem__(self, keys):
            r = abstract(env, None, self.dtype, name=name + '[]')
            r.origin = (self, keys)
            self.log.append(('index', keys))
            return r

        def veq(self, o):
            return self is o
    Abstract.shape_, Abstract.dtype_ = shape, dtype
    r = Abstract()
    ctx().user.setdefault('arrays', []).append(r)
    return r


def no_conversion(c):
    c.prove('nothing is converted', not any(
        'read' in a.log for a in c.user.get('arrays', ())))


# ------------------------------------------------------------------- axis
@contract('_normalise_axis', ['_normalise_axis'])
def normalise_axis(c, env):
    """None, or the tuple of the dimensions which the axes denote; ValueError
    iff one is outside of [-ndim, ndim); TypeError for anything else."""
    f = env.g['_normalise_axis']
    ndim = c.int('ndim', 0)
    a = abstract(env, ndim=ndim)
    kind = c.among(['int', 'none', 'tuple', 'other', 'mixed', 'text', 'map',
                    'float'])
    if kind == 'none':
        out = call(f, None, a)
        c.prove('None', out.ok and out.value is None)
        return
    if kind == 'int':
        axis = c.int('axis')
        out = call(f, axis, a)
        if out.ok:
            c.prove('in range', within(axis, ndim))
            c.prove('the dimension denoted', veq(
                out.value, (num(wrap(axis, ndim)),)))
        else:
            c.prove('ValueError', out.raised(ValueError))
            c.prove('out of range', z3.Not(within(axis, ndim)))
        return
    if kind == 'tuple':
        axis = keys.ints('axes')
        b = axis.parts[0].base
        out = call(f, axis, a)
        if out.ok:
            r = out.value
            n = lift(vlen(axis))
            c.prove('as many axes', lift(vlen(r)) == n)
            i = c.int('i', 0, vlen(axis))
            c.prove('in range', within(at(axis, i.z), ndim))
            c.prove('the dimension denoted', lift(at(r, i.z)) ==
                    wrap(at(axis, i.z), ndim))
        else:
            c.prove('ValueError', out.raised(ValueError))
            c.prove('out of range', z3.Or([
                z3.And(0 <= z, z < lift(vlen(axis)),
                       z3.Not(within(v, ndim)))
                for z, v in b.memo.values()]))
        return
    bad = {'other': Opaque(), 'mixed': (c.int('axis'), Opaque()),
           'text': 'ab', 'map': {0: 1}, 'float': 1.5}[kind]
    out = call(f, bad, a)
    c.prove('TypeError', out.raised(TypeError))


FUNCTIONS = {
    'count': ('_CountStreamsHandler', '_CountMaskedStreamsHandler'),
    'min': ('_MinStreamsHandler', '_MinMaskedStreamsHandler'),
    'max': ('_MaxStreamsHandler', '_MaxMaskedStreamsHandler'),
    'sum': ('_SumStreamsHandler', '_SumMaskedStreamsHandler'),
    'mean': ('_MeanStreamsHandler', '_MeanMaskedStreamsHandler'),
    'std': ('_StdStreamsHandler', '_StdMaskedStreamsHandler'),
    'var': ('_VarStreamsHandler', '_VarMaskedStreamsHandler')}


def aggregation_function(name):
    @contract('%s: axis and construction' % name, [name],
              trusted=['_normalise_axis (own contract)'])
    def con(c, env):
        """One axis gives an aggregation along the dimension it denotes;
        None or several are refused; nothing is read."""
        g = env.g
        ndim = c.int('ndim', 1)
        dtype = c.among(DTYPES if name in ('count', 'sum') else REAL)
        a = abstract(env, dtype=dtype, ndim=ndim)
        case = c.among(['one', 'none', 'several', 'error'])
        given = Opaque()
        n = c.int('n', 0)
        d = c.int('dim', 0, ndim)
        error = raises(ValueError('axis'))

        def normalise(axis, array):
            c.prove('the axis given', axis is given and array is a)
            if case == 'none':
                return None
            if case == 'one':
                return (d,)
            if case == 'error':
                raise error
            c.assume(n.z != 1)
            return keys.ints('axes', n, 0)
        g['_normalise_axis'] = normalise
        extra = {}
        args = (a, given)
        opt = Opaque()
        if name in ('std', 'var'):
            extra = {'ddof': opt}
        if name == 'mean':
            extra = {'mdtol': opt}
        use = bool(extra) and c.among([True, False])
        out = call(g[name], *args, **(extra if use else {}))
        if case == 'error':
            c.prove('the error of the axis', out.exc is error)
            return
        if case != 'one':
            c.prove('refused', not out.ok)
            return
        c.prove('accepted', out.ok)
        if not out.ok:
            return
        r = out.value
        c.prove('an aggregation', type(r) is g['_Aggregation'])
        c.prove('of the array', r._array is a)
        c.prove('along the dimension', veq(r._axis, d))
        h = FUNCTIONS[name]
        c.prove('handlers', r._streams_handler_class is g[h[0]] and
                r._masked_streams_handler_class is g[h[1]])
        want = {}
        if extra:
            k = list(extra)[0]
            want = {k: opt if use else {'ddof': 0, 'mdtol': 1}[k]}
        c.prove('parameters', dict(r._kwargs) == want)
        c.prove('dtype', r.dtype == agg_dtype(name, dtype))
        no_conversion(c)
    return con


def agg_dtype(name, dtype):
    """The declared dtype: as documented, that of NumPy's own function up to
    the size of integers."""
    if name == 'count':
        return np.dtype('i')
    if name in ('min', 'max', 'sum'):
        return dtype
    return (np.array([0], dtype=dtype) / 1.).dtype


@contract('_Aggregation.shape', ['_Aggregation.shape', 'Array.ndim'])
def agg_shape(c, env):
    """The source's shape without the axis."""
    n = c.int('rank', 1)
    axis = c.int('axis', 0, n)
    shape = keys.sizes('shape', n)
    r = aggregation(env, abstract(env, shape), axis)
    out = call(lambda: r.shape)
    c.prove('accepted', out.ok)
    if out.ok:
        c.prove('shape', without(c, out.value, shape, axis))
    out = call(lambda: r.ndim)
    c.prove('ndim', out.ok and veq(out.value, n - 1))
    no_conversion(c)


def without(c, got, seq, axis):
    """got is seq without the element at axis."""
    n = lift(vlen(seq))
    if not c.valid(lift(vlen(got)) == n - 1):
        return False
    i = c.int('i', 0)
    c.assume(i.z < n - 1)
    j = num(z3.If(i.z < lift(axis), i.z, i.z + 1))
    return veq(at(got, i.z), at(seq, j))


def aggregation(env, array, axis, dtype=np.dtype('f8'), kwargs=None):
    g = env.g
    return g['_Aggregation'](array, axis, Opaque, Opaque, dtype,
                             {} if kwargs is None else kwargs)


@contract('_Aggregation._getitem_full_keys',
          ['_Aggregation._getitem_full_keys'])
def agg_getitem(c, env):
    """The source is indexed by the keys with ':' at the axis; the axis moves
    by the number of dimensions removed before it."""
    n = c.int('rank', 1)
    axis = c.int('axis', 0, n)
    ks, b = keys.keyseq('keys', ('int', 'npint', 'slice', 'tuple',
                                      'bool'), n - 1)
    D = Fold('D', b, lambda k: 1 if kind_of_key(k) == 'int' else 0, 0, 1)
    b.add_fact(lambda z, v: D.unfold(z))
    c.user['folds'] = [D]
    a = abstract(env, keys.sizes('shape', n))
    kw = {}
    r = aggregation(env, a, axis, kwargs=kw)
    out = call(r._getitem_full_keys, ks)
    c.prove('accepted', out.ok)
    if not out.ok:
        return
    v = out.value
    c.prove('an aggregation', type(v) is env.g['_Aggregation'])
    c.prove('same computation', v._streams_handler_class is
            r._streams_handler_class and v._masked_streams_handler_class is
            r._masked_streams_handler_class and v._kwargs == kw and
            v.dtype == r.dtype)
    src = getattr(v._array, 'origin', None)
    c.prove('the array is indexed once', src is not None and src[0] is a)
    if src is None:
        return
    got = src[1]
    if c.prove('a key for each dimension', lift(vlen(got)) == n.z):
        i = c.int('i', 0, n)
        k = at(got, i.z)
        if c.branch(i.z == axis.z):
            c.prove('all of the axis', kind_of_key(k) == 'slice' and
                    seqs.as_slice(k).is_full())
        else:
            c.prove('the keys given', veq(k, b.get(
                z3.If(i.z < axis.z, i.z, i.z - 1))))
    # Dimension `axis` of the source is this dimension of the indexed one.
    c.prove('the same dimension', lift(v._axis) ==
            axis.z - D.at(axis.z))
    c.prove('unchanged', r._array is a and r._axis is axis)
    no_conversion(c)


@contract('_Aggregation.streams_handler', ['_Aggregation.streams_handler',
                                           '_Aggregation.sources'])
def agg_handler(c, env):
    """The handler for masked or unmasked evaluation gets the source, the axis
    and the parameters."""
    a = abstract(env, keys.sizes('shape', c.int('rank', 1)))
    axis = c.int('axis', 0)

    class H(object):
        def __init__(self, *a, **k):
            self.a, self.k = a, k

    class M(H):
        pass
    opt = Opaque()
    r = env.g['_Aggregation'](a, axis, H, M, np.dtype('f8'), {'p': opt})
    masked = c.among([True, False])
    out = call(r.streams_handler, masked)
    c.prove('handler', out.ok and type(out.value) is (M if masked else H))
    if out.ok:
        v = out.value
        c.prove('source and axis', len(v.a) == 2 and v.a[0] is a and
                v.a[1] is axis)
        c.prove('parameters', v.k == {'p': opt})
    out = call(lambda: r.sources)
    c.prove('sources', out.ok and len(out.value) == 1 and
            out.value[0] is a)
    no_conversion(c)


# ------------------------------------------- the aggregation stream handlers
def handler(env, axis):
    H = env.g['_AggregationStreamsHandler']

    class Handler(H):
        def bootstrap(self, shape):
            pass

        def process_data(self, data):
            pass

        def finalise(self):
            pass
    return Handler(None, axis)


@contract('_AggregationStreamsHandler.input_iteration_order',
          ['_AggregationStreamsHandler.input_iteration_order'])
def agg_order(c, env):
    """The order of the result's dimensions, in terms of the source's, then
    the axis: the axis varies fastest."""
    n = c.int('rank', 1)
    axis = c.int('axis', 0, n)
    order = keys.ints('order', n - 1, 0)
    out = call(handler(env, axis).input_iteration_order, order)
    c.prove('accepted', out.ok)
    if not out.ok:
        return
    r = out.value
    if c.prove('one for each dimension', lift(vlen(r)) == n.z):
        i = c.int('i', 0, n - 1)
        o = lift(at(order, i.z))
        c.prove('in order', lift(at(r, i.z)) ==
                z3.If(o < axis.z, o, o + 1))
        c.prove('axis last', lift(at(r, n.z - 1)) == axis.z)


@contract('_AggregationStreamsHandler.output_keys',
          ['_AggregationStreamsHandler.output_keys',
           '_AggregationStreamsHandler.output_shape'])
def agg_output(c, env):
    """The keys (and the shape) without the axis."""
    n = c.int('rank', 1)
    axis = c.int('axis', 0, n)
    ks, b = keys.keyseq('keys', ('slice',), n)
    h = handler(env, axis)
    out = call(h.output_keys, ks)
    c.prove('keys', out.ok and without(c, out.value, ks, axis))
    shape = keys.sizes('shape', n)
    out = call(h.output_shape, shape)
    c.prove('shape', out.ok and without(c, out.value, shape, axis))


AXIS = [normalise_axis] + [aggregation_function(n) for n in
                           sorted(FUNCTIONS)] + [agg_shape]
