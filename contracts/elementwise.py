"""C13, C06: elementwise operations.

The value of a NumPy function at an element is an uninterpreted function of
the values of the operands there, named by the function; its dtype is what
NumPy gives for operands of those dtypes."""
from contracts.broadcast import *

UNARY = ('negative absolute rint sign conj exp exp2 log log2 log10 expm1 sqrt '
         'square reciprocal sin cos tan arcsin arccos arctan sinh cosh tanh '
         'arcsinh arccosh arctanh deg2rad rad2deg invert logical_not isreal '
         'iscomplex isinf isnan signbit floor ceil trunc').split()
BINARY = ('add sub subtract multiply floor_divide true_divide divide power '
          'arctan2 hypot bitwise_and bitwise_or bitwise_xor left_shift '
          'right_shift greater greater_equal less less_equal not_equal equal '
          'logical_and logical_or logical_xor maximum minimum fmax fmin '
          'copysign nextafter ldexp fmod').split()
SPECIAL = {'sub': 'subtract'}


def function_of(name):
    """The NumPy function and the numpy.ma function of that name."""
    f = getattr(np, SPECIAL.get(name, name))
    return f, getattr(np.ma, f.__name__, None)


def to_convert(env):
    """The contract of the engine (C14): each array on its own."""
    g = env.g
    g['ndarrays'] = lambda xs: VList([Item(x.ndarray())
                                      for x in loops_items(xs)])
    g['masked_arrays'] = lambda xs: VList([Item(x.masked_array())
                                           for x in loops_items(xs)])


ENGINE = ['ndarrays, masked_arrays: each array converted on its own (C14)']


def spec_op(f, models, ma, dtype=None):
    r = pointwise(f.__name__, f, models, ma)
    if r is np.ma.masked:
        return None
    r = r.like(scalar=False, masked=ma)
    if dtype is not None and r.dtype != dtype:
        r = r.astype(dtype)
    return r


def as_model(a, ma):
    g = a.get
    return a.like(masked=ma, nomask=False, get=lambda i: (
        g(i)[0], (z3.BoolVal(False) if g(i)[1] is None else g(i)[1])
        if ma else None))


def check_expression(c, expr, f, fm, models, dtype=None, operands=()):
    c.prove('nothing is read', not c.user.get('reads'))
    asked(c, expr)
    masked = c.among([False, True])
    if masked and fm is None:
        out = call(expr.masked_array)
        c.prove('no masked operation: TypeError', out.raised(TypeError))
        return
    got = convert(c, expr, masked)
    if got is None:
        return
    ms = [as_model(m, masked) for m in models]
    want = spec_op(fm if masked else f, ms, masked, dtype)
    if want is None:
        # A masked scalar.
        c.prove('masked', isinstance(got, Arr) and got.masked and
                not got.shape)
        if isinstance(got, Arr) and got.masked:
            c.prove('dtype', got.dtype == expr.dtype)
            c.prove('the mask', got.get(())[1])
        return
    same_array(c, got, want, masked)
    again(c, (expr, want), masked=masked)
    again(c, *[(x, x.model) for x in operands])


FUNCS = ['_Elementwise.__init__', '_Elementwise.dtype', '_Elementwise.shape',
         '_Elementwise.sources', '_Elementwise.ndarray',
         '_Elementwise.masked_array', '_ufunc_wrapper',
         '_unary_fn_wrapper', '_dual_input_fn_wrapper', 'ensure_array']
KINDS = tuple(np.dtype(t) for t in ('f8', 'i4', 'u1', '?'))


def dtypes_for(f, n):
    """The dtypes which the NumPy function accepts."""
    out = []
    for t in itertools.product(KINDS, repeat=n):
        if n == 2 and t[0] != t[1] and '?' in (t[0].char, t[1].char):
            continue
        try:
            f(*[np.ones(1, x) for x in t])
        except TypeError:
            continue
        out.append(t)
    return out if n > 1 else [t[0] for t in out]


@contract('functions of one array', FUNCS, trusted=ENGINE,
          bound='rank at most 1; dtypes f8, i4, u1, bool')
def unary(c, env):
    install(env)
    to_convert(env)
    name = c.among(UNARY)
    f, fm = function_of(name)
    dt = c.among(dtypes_for(f, 1))
    a = lazy(env, 'a', c.among([0, 1]), dtype=dt, maskable=True)
    c.prove('defined', name in env.g)
    out = call(env.g[name], a)
    if c.prove('accepted', out.ok):
        check_expression(c, out.value, f, fm, [a.model], None, [a])


@contract('functions of two arrays', FUNCS, trusted=ENGINE,
          bound='rank at most 1; dtypes f8, i4, u1, bool')
def binary(c, env):
    install(env)
    to_convert(env)
    name = c.among(BINARY)
    f, fm = function_of(name)
    t1, t2 = c.among(dtypes_for(f, 2))
    rank = c.among([0, 1])
    shape = tuple(c.int('size%d' % d, 0) for d in range(rank))
    a = lazy(env, 'a', rank, shape, dtype=t1, maskable=True)
    b = lazy(env, 'b', rank, shape, dtype=t2, maskable=True)
    c.prove('defined', name in env.g)
    out = call(env.g[name], a, b)
    if c.prove('accepted', out.ok):
        check_expression(c, out.value, f, fm, [a.model, b.model], None,
                         [a, b])


OPERATORS = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply',
             'floordiv': 'floor_divide', 'truediv': 'true_divide',
             'div': 'divide', 'pow': 'power'}


@contract('operators', ['Array.__%s__' % o for o in OPERATORS] +
          ['Array.__r%s__' % o for o in OPERATORS] + FUNCS, trusted=ENGINE,
          bound='rank at most 1; dtypes f8, i4')
def operators(c, env):
    install(env)
    to_convert(env)
    op = c.among(sorted(OPERATORS))
    f, fm = function_of(OPERATORS[op])
    reflected = c.among([False, True])
    t1, t2 = c.among([(np.dtype('f8'), np.dtype('i4')),
                      (np.dtype('i4'), np.dtype('i4'))])
    size = c.int('size', 0)
    a = lazy(env, 'a', 1, (size,), dtype=t1, maskable=True)
    b = lazy(env, 'b', 1, (size,), dtype=t2, maskable=True)
    method = getattr(a, '__%s%s__' % ('r' if reflected else '', op))
    out = call(method, b)
    if not c.prove('accepted', out.ok and out.value is not NotImplemented):
        return
    order = [b, a] if reflected else [a, b]
    check_expression(c, out.value, f, fm, [x.model for x in order], None,
                     order)


@contract('operators with something else',
          ['Array.__%s__' % o for o in OPERATORS] +
          ['Array.__r%s__' % o for o in OPERATORS])
def operators_other(c, env):
    install(env)
    op = c.among(sorted(OPERATORS))
    a = lazy(env, 'a', 1)
    method = getattr(a, '__%s%s__' % (c.among(['', 'r']), op))
    out = call(method, c.among(['text', None, object(), ()]))
    c.prove('NotImplemented, or TypeError', out.raised(TypeError) or
            out.value is NotImplemented)


SCALARS = [2, 2.5, 0, 1, -1, 1.]


@contract('operators with a scalar', FUNCS + [
    'ConstantArray.__init__', 'ConstantArray.ndarray',
    'ConstantArray.masked_array', 'BroadcastArray.broadcast_arrays'],
    trusted=ENGINE, bound='rank at most 1; dtypes f8, f4, i4')
def scalars(c, env):
    install(env)
    to_convert(env)
    op = c.among(sorted(OPERATORS))
    f, fm = function_of(OPERATORS[op])
    reflected = c.among([False, True])
    dt = c.among([np.dtype(t) for t in ('f8', 'f4', 'i4')])
    a = lazy(env, 'a', c.among([0, 1]), dtype=dt, maskable=True)
    s = c.among([x for x in SCALARS if op != 'pow' or x >= 0])
    out = call(getattr(a, '__%s%s__' % ('r' if reflected else '', op)), s)
    if not c.prove('accepted', out.ok and out.value is not NotImplemented):
        return
    v = z3.RealVal(repr(float(s)))
    k = a.model.like(get=lambda i: (v, z3.BoolVal(False)),
                     dtype=np.array(s).dtype)
    order = [k, a.model] if reflected else [a.model, k]
    ones = np.ones(1, dt)
    c.prove('a dtype which NumPy could choose', out.value.dtype in [
        f(ones, s).dtype, f(ones, np.array([s])).dtype])
    check_expression(c, out.value, f, fm, order, out.value.dtype)


@contract('operands of different shapes', FUNCS + PAIR, trusted=ENGINE,
          bound='two operands of rank at most 2; one function')
def shapes(c, env):
    install(env)
    to_convert(env)
    r1, r2 = c.among([(0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2)])
    a = lazy(env, 'a', r1, maskable=True)
    b = lazy(env, 'b', r2, maskable=True)
    out = call(env.g['subtract'], a, b)
    want = numpy_shape(c, a.model.shape, b.model.shape)
    if want is None:
        c.prove('ValueError', out.raised(ValueError))
        return
    if not c.prove('accepted', out.ok):
        return
    check_expression(c, out.value, np.subtract, np.ma.subtract,
                     [broadcast_to(a.model, want),
                      broadcast_to(b.model, want)])


@contract('_Elementwise: indexing', ['_Elementwise._getitem_full_keys',
                                     'Array.__getitem__'] + FUNCS,
          trusted=ENGINE, bound='rank at most 2')
def elementwise_index(c, env):
    install(env)
    to_convert(env)
    rank = c.among([0, 1, 2])
    kinds = ('int', 'npint', 'slice', 'tuple', 'bool') if rank < 2 else (
        'int', 'slice', 'tuple')
    shape = tuple(c.int('size%d' % d, 0) for d in range(rank))
    a = lazy(env, 'a', rank, shape, maskable=True)
    two = c.among([False, True])
    if two:
        b = lazy(env, 'b', rank, shape, maskable=True)
        e = env.g['subtract'](a, b)
        models, f, fm = [a.model, b.model], np.subtract, np.ma.subtract
    else:
        e = env.g['exp'](a)
        models, f, fm = [a.model], np.exp, np.ma.exp
    ks = keys_for(c, rank, kinds, extra=rank < 2)
    out = call(lambda: e[ks])
    try:
        want = [spec_index(m, ks) for m in models]
    except IndexError:
        if out.ok:
            c.prove('an index out of range is rejected',
                    not call(out.value.ndarray).ok)
        return
    if not c.prove('a valid index is accepted', out.ok):
        return
    check_expression(c, out.value, f, fm, want, None,
                     [a, b] if two else [a])
    c.prove('the dtype of the whole', out.value.dtype == e.dtype)
    if c.user.get('again') and c.among([False, True]):
        check_expression(c, e, f, fm, models)


@contract('_Elementwise: indexing, a scalar operand', [
    '_Elementwise._getitem_full_keys', 'Array.__getitem__'] + FUNCS,
    trusted=ENGINE, bound='rank at most 1; dtypes f4, i4, i1')
def scalar_index(c, env):
    """The dtype of an operation on a Python scalar depends on its value: the
    parts have the dtype of the whole."""
    install(env)
    to_convert(env)
    rank = c.among([0, 1])
    op = c.among(['add', 'mul', 'truediv'])
    f, fm = function_of(OPERATORS[op])
    dt = c.among([np.dtype(t) for t in ('f4', 'i4', 'i1')])
    a = lazy(env, 'a', rank, dtype=dt, maskable=True)
    s = c.among([2, 2.5, 1000])
    out = call(getattr(a, '__%s__' % op), s)
    if not c.prove('accepted', out.ok and out.value is not NotImplemented):
        return
    e = out.value
    ks = keys_for(c, rank, ('int', 'slice', 'tuple'), extra=False)
    out = call(lambda: e[ks])
    try:
        want = spec_index(a.model, ks)
    except IndexError:
        return
    if not c.prove('a valid index is accepted', out.ok):
        return
    c.prove('the dtype of the whole', out.value.dtype == e.dtype)
    v = z3.RealVal(repr(float(s)))
    k = want.like(get=lambda i: (v, z3.BoolVal(False)),
                  dtype=np.array(s).dtype)
    check_expression(c, out.value, f, fm, [want, k], e.dtype)


CONTRACTS = [unary, binary, operators, operators_other, scalars, shapes]
INDEXING = [elementwise_index, scalar_index]
