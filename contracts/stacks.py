"""C04, C05: stacks and mosaics (bounded in the rank and in the number of
items)."""
from contracts.views import *


def no_maskable(c):
    return None


# -- ArrayStack

MASKABLE = [(True, True), (False, True), (True, False), (False, False)]
SHAPES = [(1,), (2,), (3,), (2, 1), (1, 2), (2, 2)]


def make_stack(c, env, shapes, item_rank):
    shape = c.among(shapes)
    sizes = tuple(c.int('size%d' % d, 0) for d in range(item_rank))
    items = np.empty(shape, dtype='O')
    pattern = c.among(MASKABLE)
    for k, i in enumerate(np.ndindex(shape)):
        items[i] = lazy(env, 'item%d' % k, item_rank, sizes,
                        maskable=pattern[k % 2])
    out = call(env.g['ArrayStack'], ObjArr(items))
    c.prove('items of the same shape and dtype are accepted', out.ok)
    return items, out.value, stack_spec(items, sizes)


def stack_spec(items, sizes):
    n = items.ndim
    index = list(np.ndindex(items.shape))

    def get(i):
        head, tail = i[:n], tuple(i[n:])
        c = ctx()
        for j in index[:-1]:
            if c.branch(z3.And([lift(h) == k for h, k in zip(head, j)])):
                return items[j].model.get(tail)
        return items[index[-1]].model.get(tail)
    any_ = items.flat[0].model
    return any_.like(tuple(items.shape) + tuple(sizes), get)


@contract('ArrayStack: conversion',
          ['ArrayStack.__init__', 'ArrayStack.shape', 'ArrayStack.dtype',
           'ArrayStack.ndarray', 'ArrayStack.masked_array'],
          bound='stacks of at most 4 items in at most 2 dimensions; items of '
          'rank at most 2')
def stack_convert(c, env):
    install(env)
    items, s, spec = make_stack(c, env, SHAPES, c.among([0, 1, 2]))
    c.prove('nothing is read', not c.user.get('reads'))
    asked(c, s)
    masked = c.among([False, True])
    got = convert(c, s, masked)
    if got is not None:
        same_array(c, got, spec, masked)
    again(c, (s, spec), *[(x, x.model) for x in items.flat])


def stack_slices(n):
    """Slices with all the effects there are on a dimension of n items."""
    seen, out = set(), []
    r = [None] + list(range(-n - 1, n + 2))
    for step in (None, 1, -1, 2, -2):
        for a in r:
            for b in r:
                s = slice(a, b, step)
                e = tuple(range(n)[s])
                if e not in seen:
                    seen.add(e)
                    out.append(s)
    return out


def stack_key(c, n, few=False):
    kind = c.among(['int', 'npint', 'slice', 'tuple'])
    if kind == 'npint':
        return np.int64(n - 1)
    if kind == 'int':
        return c.among([-1, 0] if few else list(range(-n, n)))
    if kind == 'slice':
        ss = [slice(None), slice(None, None, -1), slice(1, None),
              slice(n, None)] if few else stack_slices(n)
        s = c.among(ss)
        return SSlice(s.start, s.stop, s.step)
    return c.among([(n - 1, 0)] if few else
                   [(n - 1, 0), (-1,), (0, -n, n - 1)])


def index_stack(c, env, shapes, item_rank, kinds, few):
    if c.user.get('again'):
        shapes, few = shapes[:1] if len(shapes[0]) > 1 else [(2,)], True
    items, s, spec = make_stack(c, env, shapes, item_rank)
    frozen = items.copy()
    c.user['frozen'] = [items]
    ks = [stack_key(c, n, few) for n in items.shape]
    if kinds:
        for d in range(item_rank):
            ks.append(keys.key('key%d' % d, kinds))
    index_and_compare(c, s, spec, tuple(ks), True)
    c.prove('the stack is not modified', all(
        a is b for a, b in zip(frozen.flat, items.flat)))


STACK_FUNCTIONS = ['ArrayStack._getitem_full_keys', 'ArrayStack.__init__',
                   'Array.__getitem__']


@contract('ArrayStack: indexing the items of a row', STACK_FUNCTIONS,
          bound='stacks of at most 3 items in 1 dimension; items of rank at '
          'most 1 (arbitrary sizes)')
def stack_index_row(c, env):
    install(env)
    index_stack(c, env, [(1,), (2,), (3,)], c.among([0, 1]), None, False)


@contract('ArrayStack: indexing within the items', STACK_FUNCTIONS,
          bound='stacks of 2 items; items of rank at most 2 (arbitrary '
          'sizes and item keys)')
def stack_index_items(c, env):
    install(env)
    r = c.among([1, 2])
    index_stack(c, env, [(2,)], r,
                ('int', 'slice', 'tuple', 'bool') if r == 1 and
                not c.user.get('again') else
                ('int', 'slice'), True)


@contract('ArrayStack: indexing a table of items', STACK_FUNCTIONS,
          bound='stacks of 2 x 2 and 1 x 2 items; items of rank at most 1')
def stack_index_table(c, env):
    install(env)
    r = c.among([0, 1])
    index_stack(c, env, [(2, 2), (1, 2)], r, ('int', 'slice') if r else None,
                True)


@contract('ArrayStack.multidim_array_stack',
          ['ArrayStack.multidim_array_stack', '_groups_of', '_pairwise'],
          bound='at most 8 items; items of rank 1')
def multidim(c, env):
    install(env)
    shape = c.among([(2,), (2, 3), (3, 2), (2, 1, 3), (1, 4), (4, 1),
                     (2, 2), (1, 1), (3, 1, 2), (2, 2, 2)])
    order = c.among(['C', 'F', 'c', 'f'])
    n = int(np.prod(shape))
    size = c.int('size', 0)
    flat = [lazy(env, 'item%d' % k, 1, (size,), maskable=True)
            for k in range(n)]
    f = env.g['ArrayStack'].multidim_array_stack
    out = call(f, VList([Item(x) for x in flat]), shape, order)
    c.prove('accepted', out.ok)
    if not out.ok:
        return
    items = np.empty(n, dtype='O')
    for k, x in enumerate(flat):
        items[k] = x
    items = items.reshape(shape, order=order.upper())
    got = convert(c, out.value, False)
    if got is not None:
        same_array(c, got, stack_spec(items, (size,)), False)


@contract('ArrayStack.multidim_array_stack: refusals',
          ['ArrayStack.multidim_array_stack'], bound='4 items')
def multidim_refused(c, env):
    install(env)
    flat = [lazy(env, 'item%d' % k, 1, (c.int('size', 0),))
            for k in range(4)]
    f = env.g['ArrayStack'].multidim_array_stack
    shape, order, err = c.among([((3,), 'C', ValueError),
                                 ((2, 3), 'C', ValueError),
                                 ((2, 2), 'x', TypeError)])
    out = call(f, VList([Item(x) for x in flat]), shape, order)
    c.prove('refused', out.raised(err))


# -- LinearMosaic

def make_mosaic(c, env, rank, tiles, axes=None, total=None):
    axis = c.among(list(range(rank)) if axes is None else axes)
    sizes = [c.int('size%d' % d, 0) for d in range(rank)]
    parts, ns = [], []
    pattern = c.among(MASKABLE if tiles > 1 else MASKABLE[:2])
    for t in range(tiles):
        if total is not None and t == tiles - 1:
            # The last tile has what the others leave of the total.
            n = total
            for x in ns:
                n = n - x
            c.assume(lift(n) >= 0)
        else:
            n = c.int('tile%d' % t, 0)
        ns.append(n)
        shape = list(sizes)
        shape[axis] = n
        parts.append(lazy(env, 't%d' % t, rank, tuple(shape),
                          maskable=pattern[t % 2]))
    out = call(env.g['LinearMosaic'], VList([Item(p) for p in parts]), axis)
    c.prove('compatible tiles are accepted', out.ok)
    return parts, axis, ns, out.value, mosaic_spec(parts, axis, ns, sizes)


def mosaic_spec(parts, axis, ns, sizes):
    total = z3.IntVal(0)
    for n in ns:
        total = total + lift(n)

    def get(i):
        c = ctx()
        z = lift(i[axis])
        lo = z3.IntVal(0)
        for p, n in zip(parts, ns):
            hi = core.simp(lo + lift(n))
            if p is parts[-1] or c.branch(z < hi):
                j = list(i)
                j[axis] = core.simp(z - lo)
                return p.model.get(tuple(j))
            lo = hi
    shape = list(sizes)
    shape[axis] = num(core.simp(total))
    return parts[0].model.like(shape, get)


@contract('LinearMosaic: conversion',
          ['LinearMosaic.__init__', 'LinearMosaic.shape',
           'LinearMosaic.ndarray', 'LinearMosaic.masked_array'],
          bound='at most 3 tiles of rank at most 3, of any lengths')
def mosaic_convert(c, env):
    install(env)
    rank, tiles = c.among([(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 2)])
    parts, axis, ns, m, spec = make_mosaic(c, env, rank, tiles)
    c.prove('nothing is read', not c.user.get('reads'))
    asked(c, m)
    masked = c.among([False, True])
    got = convert(c, m, masked)
    if got is not None:
        same_array(c, got, spec, masked)
    again(c, (m, spec), *[(x, x.model) for x in parts])


@contract('LinearMosaic: refusals', ['LinearMosaic.__init__'],
          bound='2 tiles of rank 2')
def mosaic_refused(c, env):
    install(env)
    axis = c.among([0, 1])
    a = [c.int('a%d' % d, 0) for d in range(2)]
    b = [c.int('b%d' % d, 0) for d in range(2)]
    x, y = lazy(env, 'x', 2, tuple(a)), lazy(env, 'y', 2, tuple(b))
    out = call(env.g['LinearMosaic'], VList([Item(x), Item(y)]), axis)
    o = 1 - axis
    c.prove('refused exactly if the other sizes differ',
            (a[o].z == b[o].z) == z3.BoolVal(out.ok))
    if not out.ok:
        c.prove('ValueError', out.raised(ValueError))


def mosaic_axis_key(c, most):
    kind = c.among(['int', 'npint', 'slice', 'tuple'])
    if kind in ('int', 'npint'):
        return keys.key('key', (kind,))
    n = c.among(range(most + 1))
    if kind == 'slice':
        return SSlice(generic=c.fresh_name('key.slice'), count=n)
    return tuple(c.int('key%d' % i) for i in range(n))


def index_mosaic(c, env, rank, tiles, most, others, axes=None):
    c.user['int_vectors'] = True
    total = None
    if c.user.get('again'):
        most = min(most, 1)
    full = c.among([False, True])
    if full and rank > 1:
        total = c.among(range(most + 1))
    parts, axis, ns, m, spec = make_mosaic(c, env, rank, tiles, axes, total)
    ks = []
    for d in range(rank):
        if d != axis:
            k = keys.key('other', others)
        elif full:
            k = SSlice(None, None, None)
        else:
            k = mosaic_axis_key(c, most)
        ks.append(k)
    index_and_compare(c, m, spec, tuple(ks), True)


MOSAIC_FUNCTIONS = ['LinearMosaic._getitem_full_keys',
                    'LinearMosaic.__init__', 'LinearMosaic.shape']


@contract('LinearMosaic: indexing two tiles', MOSAIC_FUNCTIONS,
          bound='at most 2 tiles (of any lengths) of rank 1; at most 3 '
          'positions selected, or all')
def mosaic_index_2(c, env):
    install(env)
    index_mosaic(c, env, 1, c.among([1, 2]), 3, None)


@contract('LinearMosaic: indexing three tiles', MOSAIC_FUNCTIONS,
          bound='3 tiles (of any lengths) of rank 1; at most 2 positions '
          'selected, or all')
def mosaic_index_3(c, env):
    install(env)
    index_mosaic(c, env, 1, 3, 2, None)


@contract('LinearMosaic: indexing across the tiles', MOSAIC_FUNCTIONS,
          bound='2 tiles (of any lengths) of rank 2; at most 2 positions '
          'selected on the tiled axis')
def mosaic_index_across(c, env):
    install(env)
    index_mosaic(c, env, 2, 2, 2, ('int', 'full'))


@contract('LinearMosaic: any key across the tiles', MOSAIC_FUNCTIONS,
          bound='2 tiles (of any lengths) of rank 2; at most 1 position '
          'selected on the tiled axis')
def mosaic_index_vectors(c, env):
    install(env)
    index_mosaic(c, env, 2, 2, 1, ('slice', 'tuple', 'bool'))


STACKS = [stack_convert, stack_index_row, stack_index_items,
          stack_index_table, multidim, multidim_refused]
MOSAICS = [mosaic_convert, mosaic_refused, mosaic_index_2, mosaic_index_3,
           mosaic_index_across, mosaic_index_vectors]
