"""C03: views commute with indexing (bounded in the rank)."""
from contracts.arrays import *
import itertools

INTSLICE = ('int', 'slice')
ALL = ('int', 'slice', 'tuple', 'bool')


def index_and_compare(c, view, spec, ks, accepts, check=None):
    """view[ks] converts to spec[ks]."""
    reads = c.user.get('reads', 0)
    out = call(lambda: view[ks])
    c.prove('nothing is read by indexing', c.user.get('reads', 0) == reads)
    try:
        want = spec_index(spec, ks)
    except IndexError:
        want = None
    if out.ok:
        asked(c, out.value)
    if want is None:
        # C07: rejected now or when it is converted.
        if out.ok:
            out2 = call(out.value.ndarray)
            c.prove('an index out of range is rejected', not out2.ok)
        return
    if not out.ok:
        c.prove('a valid index is accepted', not accepts and
                not isinstance(out.exc, (IndexError,)))
        return
    sub = out.value
    masked = c.among([False, True])
    got = convert(c, sub, masked)
    if got is not None:
        same_array(c, got, want, masked)
    again(c, (view, spec), (sub, want))


def rank_kinds(c, most=2):
    """Rank up to 3; vectors only up to rank 2."""
    if c.user.get('again'):
        most = 1
    rank = c.among([0, 1, 2, 3] if c.tier == 'thorough' else
                   list(range(most + 1)))
    return rank, ALL + ('npint',) * (rank <= 1) if rank <= 2 else INTSLICE


# -- TransposedArray

def transposed_spec(a, axes):
    n = a.ndim
    axes = [x % n for x in axes]

    def get(i):
        j = [None] * n
        for d, x in enumerate(axes):
            j[x] = i[d]
        return a.get(tuple(j))
    return a.like([a.shape[x] for x in axes], get)


def make_transposed(c, env, rank):
    src = lazy(env, 'a', rank)
    how = c.among(['none', 'given', 'negative'])
    T = env.g['TransposedArray']
    if how == 'none':
        return src, T(src), transposed_spec(src.model,
                                            list(range(rank))[::-1])
    axes = list(c.among(list(itertools.permutations(range(rank)))))
    if how == 'negative' and rank:
        axes = [x - rank if c.among([0, 1]) else x for x in axes]
    out = call(T, src, VList([Item(x) for x in axes]))
    c.prove('a permutation is accepted', out.ok)
    return src, out.value, transposed_spec(src.model, axes)


BOUND3 = 'rank at most 3 (vector keys: at most 2); sizes, indices and ' \
    'values unbounded'


@contract('TransposedArray: conversion',
          ['TransposedArray.__init__', 'TransposedArray.ndarray',
           'TransposedArray.masked_array', 'TransposedArray.shape',
           'TransposedArray._apply_axes_mapping'], bound='rank at most 3')
def transposed_convert(c, env):
    install(env)
    src, t, spec = make_transposed(c, env, c.among([0, 1, 2, 3]))
    c.prove('nothing is read', not c.user.get('reads'))
    asked(c, t)
    masked = c.among([False, True])
    got = convert(c, t, masked)
    if got is not None:
        same_array(c, got, spec, masked)
    again(c, (t, spec), (src, src.model))


@contract('TransposedArray: indexing',
          ['TransposedArray.__getitem__',
           'TransposedArray._getitem_full_keys', 'Array.__getitem__'],
          bound=BOUND3)
def transposed_index(c, env):
    install(env)
    rank, kinds = rank_kinds(c)
    src, t, spec = make_transposed(c, env, rank)
    ks = keys_for(c, rank, kinds)
    index_and_compare(c, t, spec, ks, True)


# -- AsDataTypeArray

@contract('AsDataTypeArray', ['AsDataTypeArray.__init__',
                              'AsDataTypeArray.__getitem__',
                              'AsDataTypeArray.ndarray',
                              'AsDataTypeArray.masked_array',
                              'AsDataTypeArray.astype', 'Array.astype'],
          bound='rank at most 2')
def as_datatype(c, env):
    install(env)
    rank = c.among([0, 1, 2])
    src = lazy(env, 'a', rank)
    dt = c.among(TYPES)
    twice = c.among([False, True])
    A = env.g['AsDataTypeArray']
    view = A(src, dt)
    spec = src.model.astype(dt)
    if twice:
        dt2 = c.among(TYPES)
        view = view.astype(dt2)
        spec = spec.astype(dt2)
    c.prove('nothing is read', not c.user.get('reads'))
    if c.among([False, True]):
        masked = c.among([False, True])
        asked(c, view)
        got = convert(c, view, masked)
        if got is not None:
            same_array(c, got, spec, masked)
        again(c, (view, spec), (src, src.model))
        return
    index_and_compare(c, view, spec, keys_for(c, rank, ('int', 'slice',
                                                        'tuple')), True)


# -- MaskValueArray

@contract('MaskValueArray', ['MaskValueArray.__init__', 'masked_equal',
                             'MaskValueArray.__getitem__',
                             'MaskValueArray.masked_array',
                             'ArrayContainer.ndarray'],
          bound='rank at most 2')
def mask_value(c, env):
    install(env)
    rank = c.among([0, 1, 2])
    src = lazy(env, 'a', rank)
    v = c.real('value')
    view = env.g['masked_equal'](src, v)
    c.prove('nothing is read', not c.user.get('reads'))
    masked = c.among([False, True])

    def get(i):
        x, m = src.model.get(i)
        return x, z3.Or(m, x == v.z)
    spec = src.model.like(get=get)
    if c.among([False, True]):
        asked(c, view)
        got = convert(c, view, masked)
        if got is not None:
            same_array(c, got, spec, masked)
        again(c, (view, spec), (src, src.model))
        return
    index_and_compare(c, view, spec, keys_for(c, rank, ('int', 'slice',
                                                        'tuple')), True)


# -- ConstantArray

@contract('ConstantArray', ['ConstantArray.__init__',
                            'ConstantArray.__getitem__',
                            'ConstantArray.ndarray',
                            'ConstantArray.masked_array', 'zeros', 'ones'],
          bound=BOUND3)
def constant(c, env):
    install(env)
    rank, kinds = rank_kinds(c, 3)
    shape = tuple(c.int('size%d' % d, 0) for d in range(rank))
    how = c.among(['zeros', 'ones', 'value'])
    if how == 'value':
        v, dt = c.among([(3.5, None), (-2, None), (7, np.dtype('f8'))])
        a = env.g['ConstantArray'](shape, v, dt)
        dt = dt or np.array([v]).dtype
    else:
        v = 0 if how == 'zeros' else 1
        dt = np.dtype(float)
        a = env.g[how](shape)
    x = z3.RealVal(repr(v))
    spec = Arr(shape, lambda i: (x, z3.BoolVal(False)), dt)
    masked = c.among([False, True])
    if c.among([False, True]):
        asked(c, a)
        got = convert(c, a, masked)
        if got is not None:
            same_array(c, got, spec, masked)
        again(c, (a, spec))
        return
    ks = keys_for(c, rank, kinds + (('newaxis',) if rank <= 2 else ()))
    index_and_compare(c, a, spec, ks, True)


# -- NewAxesArray

def newaxes_spec(a, counts):
    shape, where = [], []
    for d in range(a.ndim + 1):
        for _ in range(counts[d]):
            shape.append(1)
        if d < a.ndim:
            where.append(len(shape))
            shape.append(a.shape[d])
    return a.like(shape, lambda i: a.get(tuple(i[w] for w in where)))


def make_newaxes(c, env, rank, most):
    src = lazy(env, 'a', rank)
    counts = [c.among(range(most + 1)) for _ in range(rank + 1)]
    out = call(env.g['NewAxesArray'], src, VList([Item(x) for x in counts]))
    c.prove('accepted', out.ok)
    return src, out.value, newaxes_spec(src.model, counts)


@contract('NewAxesArray: conversion',
          ['NewAxesArray.__init__', 'NewAxesArray.shape',
           'NewAxesArray.ndim', 'NewAxesArray._newaxis_keys',
           'NewAxesArray.ndarray', 'NewAxesArray.masked_array'],
          bound='rank at most 3, at most 2 new axes per position')
def newaxes_convert(c, env):
    install(env)
    src, view, spec = make_newaxes(c, env, c.among([0, 1, 2, 3]), 2)
    c.prove('nothing is read', not c.user.get('reads'))
    asked(c, view)
    masked = c.among([False, True])
    got = convert(c, view, masked)
    if got is not None:
        same_array(c, got, spec, masked)
    again(c, (view, spec), (src, src.model))


@contract('NewAxesArray: indexing',
          ['NewAxesArray.__getitem__', 'NewAxesArray._is_newaxis',
           'BroadcastArray.__init__',
           'BroadcastArray._shape_from_broadcast_dict',
           'BroadcastArray._broadcast_numpy_array',
           'BroadcastArray.ndarray', 'BroadcastArray.masked_array'],
          bound='rank at most 2, at most 1 new axis per position; tuples and '
          'newaxis keys for at most 2 dimensions in total')
def newaxes_index(c, env):
    install(env)
    rank = c.among([0, 1, 2])
    src, view, spec = make_newaxes(c, env, rank, 1)
    n = spec.ndim
    # After the loop over a tuple of indices of a new axis: all are within.
    c.user['facts'] = [Fact('unit', lambda b: b.name.startswith('key'),
                            lambda b, z, v: within(v, 1),
                            lambda b, z, v: c.assume(within(v, 1)))]
    if n <= 2:
        ks = keys_for(c, n, ('int', 'slice', 'tuple', 'newaxis') +
                      ('npint',) * (n <= 1))
    elif n <= 3:
        ks = keys_for(c, n, ('int', 'slice'), extra=False, fewer=False)
    else:
        ks = keys_for(c, n, ('int', 'full'), extra=False, fewer=False)
    index_and_compare(c, view, spec, ks, True)


# -- BroadcastArray

def broadcast_spec(a, bdict, leading):
    n = len(leading)
    shape = list(leading) + [bdict.get(d, a.shape[d])
                             for d in range(a.ndim)]
    return a.like(shape, lambda i: a.get(tuple(
        z3.IntVal(0) if d in bdict else i[n + d] for d in range(a.ndim))))


def make_broadcast(c, env, rank, most_leading):
    dims = [c.among([False, True]) for _ in range(rank)]
    shape = tuple(1 if b else c.int('size%d' % d, 0)
                  for d, b in enumerate(dims))
    src = lazy(env, 'a', rank, shape)
    bdict = {d: c.int('length%d' % d, 0) for d, b in enumerate(dims) if b}
    leading = tuple(c.int('leading%d' % d, 0)
                    for d in range(c.among(range(most_leading + 1))))
    out = call(env.g['BroadcastArray'], src, dict(bdict), leading)
    c.prove('accepted', out.ok)
    return src, out.value, broadcast_spec(src.model, bdict, leading)


@contract('BroadcastArray: conversion',
          ['BroadcastArray.__init__', 'BroadcastArray.shape',
           'BroadcastArray._shape_from_broadcast_dict',
           'BroadcastArray._broadcast_numpy_array',
           'BroadcastArray.ndarray', 'BroadcastArray.masked_array'],
          bound='rank at most 3, at most 2 leading dimensions')
def broadcast_convert(c, env):
    install(env)
    src, view, spec = make_broadcast(c, env, c.among([0, 1, 2, 3]), 2)
    c.prove('nothing is read', not c.user.get('reads'))
    asked(c, view)
    masked = c.among([False, True])
    got = convert(c, view, masked)
    if got is not None:
        same_array(c, got, spec, masked)
    again(c, (view, spec), (src, src.model))


@contract('BroadcastArray: indexing',
          ['BroadcastArray.__getitem__', 'BroadcastArray._getitem_full_keys',
           'Array.__getitem__', 'BroadcastArray.__init__'],
          bound='rank at most 2, at most 1 leading dimension')
def broadcast_index(c, env):
    install(env)
    rank = c.among([0, 1, 2])
    src, view, spec = make_broadcast(c, env, rank, 1)
    kinds = ('int', 'slice') + (('tuple', 'npint') if rank < 2 else ())
    ks = keys_for(c, spec.ndim, kinds, extra=rank < 2)
    vectors = any(kind_of_key(k) in ('tuple', 'bool') for k in ks)
    index_and_compare(c, view, spec, ks, not vectors)


CONTRACTS = [transposed_convert, transposed_index, as_datatype, mask_value,
             constant, newaxes_convert, newaxes_index, broadcast_convert,
             broadcast_index]
