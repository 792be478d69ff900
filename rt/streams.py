"""Which generated cases exercise which property."""
from __future__ import absolute_import, division, print_function
import itertools
from gen import *
from gen import G, MORE


def conv(e, **kw):
    if e is None:
        return None
    d = {'law': 'convert', 'expr': e}
    d.update(kw)
    return d


LIM = [1, 2, 3, 5, 8, None]
ADT = ['f8', 'i4', 'i8', 'f4', 'i2', 'u1', 'i1', 'u4']


def c01(g):
    return conv(with_keys(g, g.src(), 0, g.r.randint(0, 3)))


def c01_deep(g):
    return conv(with_keys(g, g.src(g.shape(1, 4, big=6)), 0,
                          g.r.randint(2, 4), kinds='sstbaI', ell=.05))


def c01_each(g):
    """Every combination of kinds of keys, in one step or (on fewer
    dimensions) in two."""
    r = g.r
    kind, pattern = g.deck('each', lambda: [
        (k, p) for k in ('np', 'np', 'ortho')
        for p in itertools.product('isStb', repeat=3)])
    full = {'s': [None, None, None]}
    shp = [r.choice([1, 2, 3, 4, 5]) if r.random() < .2 else n
           for n in r.choice([[2, 3, 4], [4, 2, 3], [3, 5, 2]])]

    def keys(pattern, shape):
        return [full if k == 'S' else
                g.key(n, 0, {'i': 'iI', 't': 'ta'}.get(k, k))
                for k, n in zip(pattern, shape)]
    src = [kind, {'shape': shp, 'dtype': r.choice(['f8', 'i4']),
                  'mask': r.choice([0, 0, 1]), 'seed': r.randint(0, 99)}]
    if r.random() < .6:
        return conv(['ix', src, keys(pattern, shp)])
    # The first key of the pattern is applied first.
    e = ['ix', src, [full] * r.randint(0, 1) +
         [g.key(2, 0, {'i': 'iI', 't': 'ta', 'S': 's'}.get(pattern[0],
                                                          pattern[0]))]]
    if 'b' in pattern[0] or shape_of(src)[len(e[2]) - 1] < 2:
        n = shp[len(e[2]) - 1]
        e[2][-1] = g.key(n, 0, {'i': 'iI', 't': 'ta', 'S': 's'}.get(
            pattern[0], pattern[0]))
    shp = shape_of(e)
    return conv(['ix', e, keys(pattern[1:], shp)])


def c02(g):
    s = g.shape(0, 4)
    return {'law': 'shape', 'shape': s,
            'keys': g.keys(s, newaxis=.3, ell=.3)}


def c02_lazy(g):
    e = anything(g, 2)
    return conv(with_keys(g, e, 0, 1, newaxis=.25, ell=.25),
                what=['shape'])


def c02_toomany(g):
    e = anything(g, 1)
    nd = len(shape_of(e))
    ks = [g.r.choice([{'i': 0}, {'s': [None, None, None]}, {'t': [0]}])
          for _ in range(nd + g.r.randint(1, 2))]
    # one Ellipsis is allowed on top, more real keys than that are not
    if g.r.random() < .5:
        ks.insert(g.r.randint(0, len(ks)), 'e')
    if g.r.random() < .3:
        ks.insert(g.r.randint(0, len(ks)), 'n')
    return {'law': 'toomany', 'expr': e, 'keys': ks}


def c03(g):
    v = view(g, view(g, g.src()) if g.r.random() < .5 else g.src())
    return conv(with_keys(g, v, 0, g.r.randint(0, 2)))


def c03_const(g):
    return conv(with_keys(g, const(g), 0, g.r.randint(0, 2)))


def c03_kind(kind):
    def f(g):
        return conv(with_keys(g, view(g, g.src(g.shape(1, 4)), [kind]), 0,
                              g.r.randint(0, 2)))
    return f


def c04(g):
    return conv(with_keys(g, stack(g), 0, g.r.randint(0, 2)))


def c04_multi(g):
    r = g.r
    st = g.shape(1, 3, zero=0, big=3)
    n = 1
    for x in st:
        n *= x
    shp = g.shape(0, 2)
    dt = r.choice(['f8', 'i4'] if r.random() < .85 else MORE)
    return conv(['mdstack', st, r.choice(['C', 'F', 'c', 'f']),
                 [like(g, shp, dt, .2) for _ in range(n)]])


def c04_mixed(g):
    """Items, some of them of another shape or dtype."""
    r = g.r
    shp = g.shape(0, 2)
    n = r.randint(2, 4)
    return {'law': 'mixed', 'kind': 'stack', 'axis': 0,
            'items': mixed(g, shp, n)}


def mixed(g, shp, n, ax=None):
    r = g.r
    items = []
    for _ in range(n):
        s, dt = list(shp), 'i4'
        if ax is not None:
            s[ax] = r.randint(1, 3)
        if r.random() < .4:
            dt = r.choice(['f8', 'i8', 'u1', 'i2', 'c8'])
        elif r.random() < .4:
            i = r.randint(0, len(s))
            if i == len(s) or r.random() < .3:
                s.insert(i, r.choice([1, 2]))
            else:
                s[i] = r.choice([1, s[i] + 1])
        items.append(g.src(s, dtype=dt, kind='rand'))
    return items


def c05_mixed(g):
    shp = g.shape(1, 3)
    ax = g.r.randrange(len(shp))
    return {'law': 'mixed', 'kind': 'mosaic', 'axis': ax,
            'items': mixed(g, shp, g.r.randint(2, 4), ax)}


def c05(g):
    return conv(with_keys(g, mosaic(g), 0, g.r.randint(0, 2)))


def c05_axis(g):
    """Keys concentrated on the tiled axis."""
    m = mosaic(g)
    shp = shape_of(m)
    ax = m[2]
    ks = [{'s': [None, None, None]}] * ax + [g.key(shp[ax])]
    return conv(['ix', m, ks])


def c06(g):
    return conv(with_keys(g, agg(g) or g.src(), 0, g.r.randint(1, 2)))


def c06e(g):
    return conv(with_keys(g, ew(g), 0, g.r.randint(1, 2)))


def c06m(g):
    """An aggregation of a computed array, indexed."""
    e = ew(g, g.src(g.shape(1, 3, zero=0), kind='rand', dtype='f8'))
    a = agg(g, e)
    return conv(with_keys(g, a, 0, 1)) if a else None


def some(g):
    return g.r.choice([
        lambda: g.src(), lambda: const(g), lambda: view(g, g.src()),
        lambda: stack(g), lambda: mosaic(g), lambda: agg(g) or g.src(),
        lambda: ew(g)])()


def c07(g):
    return conv(with_keys(g, some(g), .45, 1, newaxis=0))


def c07_twice(g):
    e = with_keys(g, some(g), 0, 1, newaxis=.1)
    return conv(with_keys(g, e, .5, 1, newaxis=0))


KINDS = ['np', 'ortho', 'const', 'T', 'newaxes', 'newaxes', 'bcast', 'bcast',
         'astype', 'maskeq', 'stack', 'mosaic', 'agg', 'ew']


def of_kind(g, kind):
    if kind in ('np', 'ortho'):
        e = g.src()
        e[0] = kind
        return e
    if kind in ('T', 'newaxes', 'bcast', 'astype', 'maskeq'):
        e = g.src(g.shape(0 if kind == 'newaxes' else 1, 3))
        if kind == 'bcast' and g.r.random() < .7:
            s = e[1]['shape']
            s[g.r.randrange(len(s))] = 1
        return view(g, e, [kind])
    return {'const': const, 'stack': stack, 'mosaic': mosaic,
            'agg': lambda g: agg(g) or g.src(), 'ew': ew}[kind](g)


def c07_each(g):
    """One bad index of every kind, to every kind of array."""
    r = g.r
    kind, k, high = g.deck('bad', lambda: itertools.product(
        KINDS, 'iIta', [0, 1]))
    e = of_kind(g, kind)
    if r.random() < .25:
        e = with_keys(g, e, 0, 1, newaxis=.1)
    shp = shape_of(e)
    if not shp:
        return None
    axis = r.randrange(len(shp))
    n = shp[axis]
    v = (n if high else -n - 1) + (0 if r.random() < .7 else
                                   r.choice([1, 4]) * (1 if high else -1))
    if k in 'ta':
        v = [r.randint(-n, n - 1) for _ in range(r.randint(0, 2) if n
                                                 else 0)] + [v]
        r.shuffle(v)
    ks = [{'s': [None, None, None]} if r.random() < .5 else g.key(m)
          for m in shp[:axis]] + [{k: v}]
    if r.random() < .5:
        ks += [g.key(m) for m in shp[axis + 1:]]
    e = ['ix', e, ks]
    if r.random() < .2:
        # What is asked for afterwards does not make it valid.
        ks = [{'s': [None, None, None]}] * sum('i' not in k and 'I' not in k
                                               for k in ks[:axis])
        e = ['ix', e, ks + [{'i': r.choice([0, -1])}]]
    return conv(e)


def c07_excess(g):
    """More indices than dimensions, of every kind of array."""
    r = g.r
    kind, none, k = g.deck('excess', lambda: itertools.product(
        KINDS, [0, 1], 'ist'))
    e = of_kind(g, kind)
    if none:
        # Index it until no dimension is left.
        shp = shape_of(e)
        if 0 in shp:
            return None
        e = ['ix', e, [{'i': r.randint(-n, n - 1)} for n in shp]]
    ks = [{'s': [None, None, None]} if r.random() < .3 or not n else
          {'i': r.randint(-n, n - 1)} for n in shape_of(e)]
    ks.insert(r.randint(0, len(ks)), {
        'i': {'i': r.choice([0, 0, -1])}, 's': {'s': [None, None, None]},
        't': {'t': [0]}}[k])
    if r.random() < .15:
        ks.insert(r.randint(0, len(ks)), 'e')
    return conv(['ix', e, ks])


def c08(g):
    r = g.r
    return {'law': 'bcast',
            's1': [r.choice([0, 1, 1, 2, 3]) for _ in range(r.randint(0, 4))],
            's2': [r.choice([0, 1, 1, 2, 3]) for _ in range(r.randint(0, 4))],
            'm1': r.choice([0, 1, 3]), 'm2': r.choice([0, 1])}


def c08_ok(g):
    """Mostly compatible shapes."""
    r = g.r
    full = [r.choice([0, 1, 2, 3, 4]) for _ in range(r.randint(0, 4))]

    def part():
        s = [1 if r.random() < .35 else n for n in full]
        return s[r.randint(0, len(s)):] if r.random() < .5 else s
    return {'law': 'bcast', 's1': part(), 's2': part(),
            'm1': r.choice([0, 1, 3]), 'm2': r.choice([0, 1])}


def c08_again(g):
    """The results of broadcasting, broadcast again."""
    r = g.r
    full = [r.choice([0, 1, 2, 3, 4]) for _ in range(r.randint(1, 4))]

    def part():
        s = [1 if r.random() < .45 else n for n in full]
        return s[r.randint(0, len(s)):] if r.random() < .5 else s
    return {'law': 'bcast', 's1': part(), 's2': part(), 's3': part(),
            's4': part(),
            'm1': r.choice([0, 1, 3]), 'm2': r.choice([0, 1])}


def c08_nested(g):
    """An operand that is itself broadcast or a result of broadcasting."""
    r = g.r
    full = [r.choice([1, 2, 3]) for _ in range(r.randint(1, 3))]

    def part():
        s = [1 if r.random() < .5 else n for n in full]
        return g.src(s[r.randint(0, len(s) - 1):], dtype='f8', kind='small')
    return conv(['ew', 'add', [['ew', 'subtract', [part(), part()]],
                               part()]])


def c09(g):
    r = g.r
    s = g.shape(0, 4, big=7)
    limit = r.randint(1, 40)
    if r.random() < .3:
        s = long_shape(g)
        limit = r.randint(1, 70)
    o = list(range(len(s)))
    r.shuffle(o)
    return {'law': 'chunks', 'shape': s, 'order': o, 'limit': limit}


def long_shape(g):
    r = g.r
    s = [r.randint(0, 4) for _ in range(r.choice([0, 0, 1, 1, 2]))]
    s.insert(r.randint(0, len(s)), r.randint(5, 70))
    return s


def c10(g):
    return {'law': 'save', 'expr': anything(g, 2),
            'masked': g.r.random() < .5,
            'limit': g.r.choice([1, 2, 3, 5, 8, 16, None])}


def c10_src(g):
    if g.r.random() < .2:
        return {'law': 'save', 'expr': g.src(long_shape(g)),
                'masked': g.r.random() < .5, 'limit': g.r.randint(1, 50)}
    return {'law': 'save', 'expr': g.src(g.shape(0, 3, big=6)),
            'masked': g.r.random() < .5,
            'limit': g.r.choice([1, 2, 3, 5, 8, 16, None])}


def c11(g):
    return conv(agg(g, g.src(g.shape(1, 3, zero=0, big=5), mask=0,
                             kind='rand',
                             dtype=g.r.choice(ADT))),
                limit=g.r.choice(LIM), what=['shape', 'dtype', 'nd'])


def c11_long(g):
    return conv(agg(g, g.src([g.r.randint(3, 9)] + g.shape(0, 1, zero=0),
                             mask=0, kind='rand', dtype='f8')),
                limit=g.r.choice(LIM), what=['shape', 'dtype', 'nd'])


def many(g, mask, what):
    """More elements than the smallest types can count or add up."""
    r = g.r
    s = [r.choice([140, 300, 700, 2100])]
    if r.random() < .3:
        s = [2] + s if r.random() < .5 else s + [2]
    f = r.choice(['mean', 'mean', 'std', 'var', 'count', 'min', 'sum'])
    e = g.src(s, mask=mask, kind='mid',
              dtype=r.choice(['f2', 'f2', 'u1', 'i1', 'i2', 'f4']))
    if f == 'sum' and e[1]['dtype'] in ('f2', 'f4'):
        f = 'mean'
    axis = s.index(max(s))
    return conv(['agg', f, e, axis, {}], limit=r.choice([None, None, 97]),
                what=what)


def c11_many(g):
    return many(g, 0, ['shape', 'dtype', 'nd'])


def c12_many(g):
    return many(g, g.r.choice([1, 1, 3]), ['dtype', 'ma'])


def narrow(g, mask, zero=1):
    """An operation on a small type and a number, whose value decides the type
    of the result, which can overflow."""
    r = g.r
    e = g.src(g.shape(1, 3, zero=zero), kind='mid', mask=mask,
              dtype=r.choice(['i1', 'u1', 'i2', 'f4']))
    for _ in range(r.choice([1, 1, 2])):
        e = ['op', r.choice(['add', 'sub', 'mul']),
             [e, ['py', r.choice([2, 100, 100, 1000, 2.5])]]]
    return e


def c06_narrow(g):
    e = narrow(g, None)
    return conv(with_keys(g, e, 0, 1))


def c11_narrow(g):
    return conv(agg(g, narrow(g, 0, 0)), limit=g.r.choice(LIM),
                what=['shape', 'dtype', 'nd'])


def c12_narrow(g):
    return conv(agg(g, narrow(g, None, 0)), limit=g.r.choice(LIM),
                what=['dtype', 'ma'])


def c11_nan(g):
    """Not-a-number among the elements."""
    s = g.shape(1, 3, zero=0, big=5)
    if g.r.random() < .5:
        s = [g.r.randint(2, 9)] + s[:1]
    return conv(agg(g, g.src(s, mask=0, kind='nan',
                             dtype=g.r.choice(['f8', 'f4'])),
                    ['count', 'min', 'max', 'max', 'min', 'sum', 'mean']),
                limit=g.r.choice(LIM), what=['shape', 'dtype', 'nd'])


def c12(g):
    e = None
    if g.r.random() < .3:
        e = g.src(g.shape(1, 3, zero=0, big=5), kind='rand',
                  dtype=g.r.choice(ADT))
    return conv(agg(g, e), limit=g.r.choice(LIM), what=['dtype', 'ma'])


def c12_long(g):
    return conv(agg(g, g.src([g.r.randint(3, 9)] + g.shape(0, 1, zero=0),
                             mask=g.r.choice([1, 1, 2]), kind='rand',
                             dtype=g.r.choice(['f8', 'i4']))),
                limit=g.r.choice(LIM), what=['dtype', 'ma'])


def c13(g):
    return conv(ew(g))


def c13_any(g):
    """Every exported function."""
    from streams_ops import UNARY, BINARY
    r = g.r
    f, dt = g.deck('any', lambda: itertools.product(
        UNARY + BINARY, ['f8', 'i4', 'i4', 'f4', 'i2', 'u1', '?']))
    if dt in ('u1', '?') and r.random() < .5:
        dt = 'i4'
    kind = r.choice(['small', 'small', 'rand'])
    if f in UNARY:
        return conv(['ew', f, [g.src(kind=kind, dtype=dt)]])
    shp = g.shape()
    dt2 = r.choice(['f8', 'i4', 'i2']) if r.random() < .2 else dt
    if f in ('left_shift', 'right_shift', 'ldexp', 'power'):
        kind = 'small'
    return conv(['ew', f, [g.src(shp, kind=kind, dtype=dt),
                           g.src(shp, kind=kind, dtype=dt2)]])


def c13_ops(g):
    """Every operator with every kind of operand, on either side."""
    r = g.r
    op, flip, k, dt = g.deck('ops', lambda: itertools.product(
        ['add', 'sub', 'mul', 'floordiv', 'truediv', 'pow'], [0, 1],
        ['int', 'float', 'neg', 'nps', 'nd', 'ma', 'lazy', 'bc'],
        ['f8', 'i4', 'f4']))
    shp = g.shape(1, 3)
    a = g.src(shp, kind='small', dtype=dt)
    s = shp[r.randint(0, len(shp) - 1):]
    b = {'int': lambda: ['py', r.choice([1, 2, 3, 7] + [0] * (
                'div' not in op))],
         'float': lambda: ['py', r.choice([1.5, .5, 1., 2.])],
         'neg': lambda: ['py', r.choice([-2, -1.5, -1])],
         'nps': lambda: ['nps', r.choice([2, 3]),
                         r.choice(['f4', 'i2', 'f8'])],
         'lazy': lambda: g.src(shp, kind='small',
                               dtype=r.choice(['f8', 'i4'])),
         'bc': lambda: g.src([1 if r.random() < .5 else n for n in s],
                             kind='small', dtype=dt),
         'nd': lambda: ['nd', {'shape': s, 'dtype': dt, 'mask': 0,
                               'seed': r.randint(0, 50), 'kind': 'small'}],
         'ma': lambda: ['nd', {'shape': s, 'dtype': dt, 'mask': 1,
                               'seed': r.randint(0, 50), 'kind': 'small'}]
         }[k]()
    flip = flip and k not in ('nps', 'nd', 'ma')   # (NumPy's own operator)
    return conv(['op', op, [b, a] if flip else [a, b]])


def c14(g):
    c = joint(g)
    c['sched'] = g.r.randint(0, 10 ** 6)
    return c


def c14_real(g):
    return joint(g)


def c15(g):
    c = fault(g)
    c['sched'] = g.r.randint(0, 10 ** 6)
    return c


def c15_real(g):
    return fault(g)


def c16(g):
    return {'law': 'lazy', 'expr': anything(g, 3)}


def retype(e, f):
    if isinstance(e, dict) and 'seed' in e:
        return dict(e, dtype=f())
    if isinstance(e, (list, tuple)):
        return [retype(x, f) for x in e]
    return e


def c16_types(g):
    """Sources of unusual types."""
    r = g.r
    e = anything(g, 2) if r.random() < .5 else ew(g)
    t = r.choice(['O', 'O', 'S3', '?', 'c8', 'f2', '>i4', 'u1'])
    if "'op'" in repr(e) and t in ('S3', '?'):
        # (What NumPy makes of an operation which biggus refuses.)
        t = 'O'
    if 'stack' not in repr(e) and 'mosaic' not in repr(e):
        e = retype(e, lambda: t if r.random() < .8 else 'f8')
    return {'law': 'lazy', 'expr': e}


def c18(g):
    return conv(anything(g, 3), what=['shape', 'dtype', 'nd', 'type'])


def c18_masked(g):
    return conv(with_keys(g, anything(g, 2)), what=['shape', 'dtype', 'nd',
                                                   'ma', 'type'])


def c18_agg(g):
    r = g.r
    e = g.src(g.shape(1, 4, zero=0, big=3), kind='rand')
    if r.random() < .4:
        e = ew(g, e)
    return conv(agg(g, e), what=['shape', 'dtype', 'nd', 'ma', 'type'])


def c20_dask(g):
    return joint(g, 'dask')


STREAMS = {
    'C01': [('adapter', c01, 2), ('adapter-deep', c01_deep, 1),
            ('each', c01_each, 3)],
    'C02': [('shape', c02, 3), ('lazy-shape', c02_lazy, 1),
            ('too-many', c02_toomany, 1)],
    'C03': [('views', c03, 2), ('const', c03_const, .5)] + [
        (k, c03_kind(k), .6) for k in ('T', 'newaxes', 'bcast', 'astype',
                                       'maskeq')],
    'C04': [('stack', c04, 3), ('multidim', c04_multi, 1),
            ('mixed', c04_mixed, .5)],
    'C05': [('mosaic', c05), ('mosaic-axis', c05_axis),
            ('mixed', c05_mixed, .3)],
    'C06': [('aggregation', c06, 2), ('elementwise', c06e, 1),
            ('narrow', c06_narrow, .5),
            ('nested', c06m, 1)],
    'C07': [('out-of-range', c07, 2), ('after-indexing', c07_twice, 1),
            ('each', c07_each, 3), ('excess', c07_excess, .7)],
    'C08': [('shapes', c08), ('compatible', c08_ok), ('nested', c08_nested),
            ('again', c08_again)],
    'C09': [('chunks', c09)],
    'C10': [('any', c10), ('source', c10_src)],
    'C11': [('agg', c11), ('long-axis', c11_long),
            ('many', c11_many, .15), ('nan', c11_nan, .5),
            ('narrow', c11_narrow, .3)],
    'C12': [('agg', c12), ('long-axis', c12_long),
            ('many', c12_many, .15), ('narrow', c12_narrow, .3)],
    'C13': [('operands', c13), ('functions', c13_any),
            ('operators', c13_ops)],
    'C14': [('scheduled', c14, 4), ('threads', c14_real, 1)],
    'C15': [('scheduled', c15, 4), ('threads', c15_real, 1),
            ('node', node, 3)],
    'C16': [('metadata', c16, 2), ('types', c16_types, 1)],
    'C17': [('history', pure)],
    'C18': [('declared', c18), ('aggregations', c18_agg), ('masked', c18_masked), ('meta', meta)],
    'C19': [('axis', axis_case)],
    'C20': [('grouping', group), ('dask', c20_dask)],
}
