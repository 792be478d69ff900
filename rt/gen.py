"""Seeded and enumerated cases for the bounded stand-ins and for the search
of failing inputs."""
from __future__ import absolute_import, division, print_function
import itertools
import random
import numpy as np
from model import Env, InvalidIndex, Skip, dec_keys

DT = ['f8', 'f8', 'f4', 'i4', 'i8', 'i2']
MORE = ['u1', 'u2', 'u4', 'u8', 'i1', '?', 'c8', 'c16', '>f8', '>i4', 'f2',
        'M8[s]']


class G(object):
    def __init__(self, seed, decks=None, stream=None):
        self.r = random.Random(seed)
        self.decks = {} if decks is None else decks
        self.stream = stream

    def deck(self, name, items):
        """Every item once, in a random order, before any comes again."""
        d = self.decks.get((self.stream, name))
        if not d:
            d = self.decks[self.stream, name] = list(items())
            self.r.shuffle(d)
        return d.pop()

    def shape(self, lo=0, hi=3, zero=0.08, big=4):
        n = self.r.randint(lo, hi)
        sizes = list(range(1, big + 1))
        if self.r.random() < .3:
            # Equal dimensions, next to each other or not.
            sizes = [self.r.randint(1, big) for _ in range(2)]
        return [0 if self.r.random() < zero else self.r.choice(sizes)
                for _ in range(n)]

    def src(self, shape=None, mask=None, dtype=None, **kw):
        r = self.r
        if shape is None:
            shape = self.shape()
        if not dtype:
            dtype = r.choice(MORE if r.random() < .12 and 'kind' not in kw
                             else DT)
        s = {'shape': list(shape), 'dtype': dtype,
             'mask': r.choice([0, 0, 1, 1, 2, 3]) if mask is None else mask,
             'seed': r.randint(0, 99)}
        s.update(kw)
        return [r.choice(['np', 'np', 'ortho']), s]

    def key(self, n, bad=0.0, kinds='isstbaI'):
        r = self.r
        k = r.choice(kinds)
        if r.random() < bad:
            off = r.choice([0, 0, 1, 5])
            v = n + off if r.random() < .5 else -n - 1 - off
            if k in 'iIsb' or n == 0:
                return {'i': v}
            lst = [r.randint(-n, n - 1) for _ in range(r.randint(0, 2))]
            lst.insert(r.randint(0, len(lst)), v)
            return {k: lst}
        if n == 0 and k in 'iI':
            k = 's'
        if k == 'i' or k == 'I':
            return {k: r.randint(-n, n - 1)}
        if k == 's':
            if r.random() < .25:
                return {'s': [None, None, None]}

            def b():
                return None if r.random() < .35 else r.randint(-n - 2, n + 2)
            st = r.choice([None, None, 1, 2, 3, -1, -1, -2, -3])
            return {'s': [b(), b(), st]}
        if k in 'ta':
            if n == 0:
                return {k: []}
            return {k: [r.randint(-n, n - 1)
                        for _ in range(r.randint(0 if r.random() < .15 else 1,
                                                 4))]}
        return {'b': [r.randint(0, 1) for _ in range(n)]}

    def keys(self, shape, bad=0.0, newaxis=.12, ell=.15, kinds='isstbaI',
             full=.4):
        r = self.r
        nd = len(shape)
        m = nd if r.random() < full else r.randint(0, nd)
        right = 0
        if m == nd and 0 < nd < 4 and not bad and kinds == 'isstbaI' and \
                r.random() < .6:
            # Every combination of kinds of keys.
            pattern = self.deck('keys%d' % nd, lambda: itertools.product(
                'iSstb', repeat=nd))
            return [{'s': [None, None, None]} if k == 'S' else
                    self.key(n, 0, {'i': 'iI', 't': 'ta'}.get(k, k))
                    for k, n in zip(pattern, shape)]
        use_ell = r.random() < ell
        if use_ell:
            right = r.randint(0, m)
        out = []
        for i in range(m - right):
            out.append(self.key(shape[i], bad, kinds))
        if use_ell:
            out.append('e')
        for i in range(nd - right, nd):
            out.append(self.key(shape[i], bad, kinds))
        while r.random() < newaxis:
            out.insert(r.randint(0, len(out)), 'n')
        if len(out) == 1 and r.random() < .5 and not (
                isinstance(out[0], dict) and 't' in out[0]):
            return {'bare': out[0]}
        return out


def shape_of(e, shared=()):
    return Env(shared).denote(e)[0].shape


def den(e, shared=()):
    return Env(shared).denote(e)


def split(r, n, lo=0):
    """Random composition of n into 1..4 parts of at least lo."""
    k = r.randint(1, 4)
    cuts = sorted(r.randint(0, n) for _ in range(k - 1))
    parts = [b - a for a, b in zip([0] + cuts, cuts + [n])]
    if lo:
        parts = [p for p in parts if p >= lo] or [n]
    return parts


def view(g, e, kinds=None):
    """A random view of expression e."""
    r = g.r
    shp = shape_of(e)
    nd = len(shp)
    k = r.choice(kinds or ['T', 'newaxes', 'bcast', 'astype', 'maskeq'])
    if k == 'T':
        axes = None
        if r.random() < .8:
            axes = list(range(nd))
            r.shuffle(axes)
        return ['T', e, axes]
    if k == 'newaxes':
        return ['newaxes', e, [r.choice([0, 0, 1, 2])
                               for _ in range(nd + 1)]]
    if k == 'bcast':
        d = {}
        nested = 'bcast' in repr(e)     # axes of a nested one: see DESIGN
        for i, n in enumerate(shp):
            if nested:
                break
            if n == 1 and r.random() < .7:
                d[str(i)] = r.choice([0, 1, 2, 3])
        lead = [r.randint(1, 3) for _ in range(r.choice([0, 0, 1, 2]))]
        return ['bcast', e, d, lead]
    if k == 'astype':
        return ['astype', e, r.choice(['f8', 'f4', 'i4', 'i8'])]
    if e[0] in ('np', 'ortho') and e[1].get('dtype') in ('f4', 'f8') and \
            r.random() < .5:
        e = [e[0], dict(e[1], kind='near')]
    v = den(e)[1]
    vals = (den(e)[0] if v is None else v.data).ravel()
    val = vals[r.randrange(vals.size)].item() if vals.size else 1
    if vals.dtype.kind in 'cM':
        val = 1
    return ['maskeq', e, val]


def const(g):
    r = g.r
    return ['const', g.shape(0, 3), r.choice([0, 1.5, -2, 7]),
            r.choice([None, 'f4', 'i4', 'f8'])]


def like(g, shape, dtype, p=.45):
    """An array of this shape and dtype: a source, or something else."""
    r = g.r
    shape = list(shape)
    if r.random() >= p:
        return g.src(shape, dtype=dtype)
    k = r.choice(['T', 'ix', 'bcast', 'const', 'astype', 'ew', 'maskeq',
                  'newaxes', 'mosaic', 'stack'])
    if k == 'T':
        axes = list(range(len(shape)))
        r.shuffle(axes)
        s = [0] * len(shape)
        for i, a in enumerate(axes):
            s[a] = shape[i]
        return ['T', like(g, s, dtype, p / 2), axes]
    if k == 'ix':
        s, ks = [], []
        for n in shape:
            m = r.randint(0, 2)
            s.append(m + n)
            ks.append({'s': [m, None, None]} if r.random() < .7 or not n
                      else {'t': [r.randint(0, m + n - 1)
                                  for _ in range(n)]})
        if r.random() < .4:
            i = r.randint(0, len(s))
            s.insert(i, 2)
            ks.insert(i, {'i': r.choice([0, 1, -1])})
        return ['ix', g.src(s, dtype=dtype), ks]
    if k == 'bcast':
        lead = r.randint(0, len(shape))
        s, d = shape[lead:], {}
        for i, n in enumerate(s):
            if r.random() < .4:
                d[str(i)] = n
                s[i] = 1
        return ['bcast', g.src(s, dtype=dtype), d, shape[:lead]]
    if k == 'const' and dtype in ('f8', 'f4', 'i4', 'i8'):
        return ['const', shape, r.choice([0, 3, -2]), dtype]
    if k == 'astype' and dtype in ('f8', 'i8'):
        return ['astype', like(g, shape, r.choice(['i2', 'i4']), p / 2),
                dtype]
    if k == 'ew' and dtype in ('f8', 'i4'):
        return ['ew', r.choice(['negative', 'absolute']),
                [g.src(shape, dtype=dtype, kind='small')]]
    if k == 'maskeq' and dtype[0] in 'fi':
        return ['maskeq', g.src(shape, dtype=dtype, kind='small'), 2]
    if k == 'newaxes' and 1 in shape:
        i = shape.index(1)
        new = [0] * len(shape)
        new[i] = 1
        return ['newaxes', g.src(shape[:i] + shape[i + 1:], dtype=dtype),
                new]
    if k == 'mosaic' and shape:
        ax = r.randrange(len(shape))
        a, b = list(shape), list(shape)
        a[ax] = r.randint(0, shape[ax])
        b[ax] = shape[ax] - a[ax]
        return ['mosaic', [g.src(a, dtype=dtype), g.src(b, dtype=dtype)],
                ax]
    if k == 'stack' and shape and 0 < shape[0] < 4:
        return ['stack', shape[:1], [g.src(shape[1:], dtype=dtype)
                                     for _ in range(shape[0])]]
    return g.src(shape, dtype=dtype)


def stack(g, item=None, nested=False):
    r = g.r
    st = g.shape(1, 2, zero=0, big=3)
    shp = g.shape(0, 2)
    dt = r.choice(['f8', 'i4'] if r.random() < .85 else MORE)
    n = int(np.prod(st))
    p = r.choice([0, .5])
    return ['stack', st, [like(g, shp, dt, p) for _ in range(n)]]


def mosaic(g):
    r = g.r
    shp = g.shape(1, 3, zero=.04)
    ax = r.randrange(len(shp))
    dt = r.choice(['f8', 'i4'] if r.random() < .85 else MORE)
    tiles = []
    p = r.choice([0, .5])
    for n in [r.choice([0] + [1, 1, 2, 3, 5] * 3)
              for _ in range(r.randint(1, 4))]:
        s = list(shp)
        s[ax] = n
        tiles.append(like(g, s, dt, p))
    return ['mosaic', tiles, ax]


AGG = ['count', 'min', 'max', 'sum', 'mean', 'std', 'var']


def agg(g, e=None, names=AGG):
    r = g.r
    if e is None:
        shp = g.shape(1, 3, zero=0, big=5)
        e = g.src(shp, kind='rand', dtype=r.choice(['f8', 'f4', 'i4', 'i8']))
    shp = shape_of(e)
    if not len(shp) or 0 in shp:
        return None
    name = r.choice(names)
    kw = {}
    if name == 'mean' and r.random() < .6:
        kw['mdtol'] = r.choice([0, .25, .5, 1 / 3., 2 / 3., .75, 1])
    ax = r.randint(-len(shp), len(shp) - 1)
    if name in ('std', 'var') and r.random() < .5:
        kw['ddof'] = r.choice([0, 1]) if shp[ax] > 1 else 0
    return ['agg', name, e, ax, kw]


EW2 = ['add', 'sub', 'subtract', 'multiply', 'maximum', 'minimum',
       'true_divide', 'arctan2', 'hypot', 'greater', 'less_equal',
       'logical_and', 'fmod', 'copysign']
EW1 = ['negative', 'absolute', 'square', 'exp', 'sign', 'cos', 'floor',
       'isnan', 'logical_not']


def operand(g, shape):
    r = g.r
    s = list(shape)[r.randint(0, len(shape)):] if r.random() < .3 else \
        list(shape)
    s = [1 if r.random() < .2 else n for n in s]
    k = r.random()
    if k < .15:
        return ['py', r.choice([2, 3, 1.5, -2])]
    if k < .25:
        return ['nps', r.choice([2, 3]), r.choice(['f4', 'i2', 'f8'])]
    if k < .4:
        return ['nd', {'shape': s, 'dtype': r.choice(DT), 'mask':
                       r.choice([0, 0, 1]), 'seed': r.randint(0, 50),
                       'kind': 'small'}]
    if r.random() < .25:
        return like(g, s, r.choice(['f8', 'i4']), 1)
    return g.src(s, kind=r.choice(['uniq', 'small']))


def ew(g, e=None):
    r = g.r
    if e is None:
        e = g.src(kind=r.choice(['uniq', 'small']))
    shp = shape_of(e)
    if 'M8' in repr(e):
        e = g.src(shp, kind='small')
    if r.random() < .35:
        return ['ew', r.choice(EW1), [e]]
    o = operand(g, shp)
    args = [e, o]
    if r.random() < .4 and (o[0] not in ('nd',)):
        args = [o, e]
    if r.random() < .5:
        nm = r.choice(['add', 'sub', 'mul', 'floordiv', 'truediv', 'pow'])
        if args[0][0] in ('nps', 'nd'):
            args = [args[1], args[0]]
        return ['op', nm, args]
    if args[0][0] in ('py', 'nps') and False:
        args = args[::-1]
    return ['ew', r.choice(EW2), args]


def anything(g, depth=2):
    r = g.r
    if depth == 0:
        return r.choice([lambda: g.src(), lambda: const(g),
                         lambda: g.src()])()
    k = r.random()
    try:
        if k < .3:
            return view(g, anything(g, depth - 1))
        if k < .4:
            return stack(g)
        if k < .5:
            return mosaic(g)
        if k < .65:
            return ew(g, anything(g, depth - 1))
        if k < .75:
            a = agg(g)
            return a
        if k < .9:
            e = anything(g, depth - 1)
            return ['ix', e, g.keys(shape_of(e))]
        return anything(g, depth - 1)
    except (InvalidIndex, Skip):
        return g.src()


def with_keys(g, e, bad=0.0, n=1, **kw):
    for _ in range(n):
        try:
            shp = shape_of(e)
        except (InvalidIndex, Skip):
            return e
        e = ['ix', e, g.keys(shp, bad, **kw)]
    return e


def sources_of(x):
    """The source specifications within an expression or case."""
    if isinstance(x, dict):
        if 'shape' in x and 'seed' in x:
            yield x
        else:
            for v in x.values():
                for s in sources_of(v):
                    yield s
    elif isinstance(x, (list, tuple)):
        for v in x:
            for s in sources_of(v):
                yield s


def joint(g, engine='threaded'):
    """Several expressions over shared sources, of several ranks."""
    r = g.r
    n = [r.randint(1, 4) for _ in range(3)]
    shp = [n[:r.randint(2, 3)]]
    nd = len(shp[0])
    shared = [g.src(shp[0], dtype='f8', kind='rand')]
    for _ in range(r.randint(0, 2)):
        k = r.random()
        i = r.randrange(len(shared))
        if k < .3:
            shared.append(['ew', r.choice(['negative', 'absolute']),
                           [['ref', i]]])
            shp.append(shp[i])
        elif k < .7 and len(shp[i]) > 1:
            ax = r.randrange(len(shp[i]))
            shared.append(['agg', r.choice(['sum', 'mean', 'max', 'min',
                                            'std']), ['ref', i], ax, {}])
            shp.append(shp[i][:ax] + shp[i][ax + 1:])
        else:
            s = shp[i][r.randint(0, 1):] or [2]
            shared.append(g.src(s, dtype='f8', kind='rand'))
            shp.append(s)
    exprs = []
    if r.random() < .2 and len(shp[0]) > 1:
        # Sources in chunks of their own, nested on either side.
        ax = r.randrange(len(shp[0]))
        u = ['agg', r.choice(['sum', 'max']), ['ref', 0], ax, {}]
        us = shp[0][:ax] + shp[0][ax + 1:]
        v = g.src(us, dtype='f8', kind='rand')
        for _ in range(r.randint(1, 3)):
            w = r.choice([u, v, ['agg', 'min', ['ref', 0], ax, {}]])
            args = [u, w]
            if r.random() < .5:
                args.reverse()
            u = ['ew', r.choice(['add', 'subtract', 'maximum']), args]
        exprs.append(u)
    for _ in range(r.randint(0 if exprs else 1, 3)):
        i = r.randrange(len(shared))
        b, bs = ['ref', i], shp[i]
        for _ in range(r.randint(0, 2)):
            k = r.random()
            if k < .4 and len(bs) > 0:
                ax = r.randrange(len(bs))
                b = ['agg', r.choice(['sum', 'mean', 'max', 'count', 'var']),
                     b, ax, {}]
                bs = bs[:ax] + bs[ax + 1:]
            elif k < .8:
                same = [j for j in range(len(shared)) if shp[j] == bs]
                if same and r.random() < .5:
                    o = ['ref', r.choice(same)]
                else:
                    o = g.src(bs, dtype='f8', kind='rand')
                args = [b, o]
                if r.random() < .5:
                    args.reverse()
                b = ['ew', r.choice(['add', 'subtract', 'maximum']), args]
            else:
                b = ['ew', 'negative', [b]]
        exprs.append(b)
    c = {'law': 'joint', 'shared': shared, 'exprs': exprs,
         'limit': r.choice([1, 2, 3, 5, 8, None])}
    if any(m.get('mask') for m in sources_of(c)):
        c['masked_only'] = True     # no statistics of fill values
    if engine != 'threaded':
        c['engine'] = engine
    return c


def fault(g):
    c = joint(g)
    c.pop('masked_only', None)
    c['law'] = 'fault'
    c['masked'] = g.r.random() < .5
    c['source'] = g.r.randint(0, 2)
    c['at'] = g.r.choice([0, 0, 1, 1, 2, 3, 5, 8])
    c['exc'] = g.r.randint(0, 12) if g.r.random() < .5 else 0
    return c


def node(g):
    r = g.r
    kind = r.choice(['streams', 'streams', 'producer', 'ndarray'])
    n = r.randint(1, 5)
    c = {'law': 'node', 'node': kind, 'n': n, 'outputs': r.randint(1, 3),
         'exc': r.randint(0, 14), 'masked': r.random() < .5}
    if kind == 'producer':
        if r.random() < .7:
            c['fail_at'] = r.randint(0, n - 1)
        return c
    k = 1 if kind == 'ndarray' else r.randint(1, 3)
    c['inputs'] = [None if r.random() < .7 else r.randint(0, n)
                   for _ in range(k)]
    if kind == 'streams':
        if r.random() < .3:
            c['fail_process'] = r.randint(0, n)
        c['fail_finalise'] = r.random() < .2
        c['no_final'] = r.random() < .4
        c['silent'] = [i for i in range(n) if r.random() < .3]
    return c


def pure(g):
    r = g.r
    shared = [anything(g, 1) for _ in range(r.randint(1, 2))]
    shared.append(g.src())
    steps = []
    for _ in range(r.randint(1, 3)):
        i = r.randrange(len(shared))
        b = ['ref', i]
        k = r.random()
        shp = shape_of(b, shared)
        if k < .35 and len(shp):
            ax = r.randrange(len(shp))
            if shp[ax]:
                name = r.choice(AGG)
                b = ['agg', name, b, ax, {'mdtol': .5}
                     if name == 'mean' and r.random() < .5 else {}]
        elif k < .7:
            b = ['ix', b, g.keys(shp)]
        elif k < .75:
            b = ['ew', r.choice(['add', 'multiply']), [b, b]]
        elif k < .8:
            b = ['op', r.choice(['add', 'sub', 'mul', 'truediv', 'pow']),
                 [b, operand(g, shp)]]
        elif k < .9:
            b = ['T', b, None]
        else:
            b = ['astype', b, 'f8']
        steps.append(b)
    return {'law': 'pure', 'shared': shared, 'steps': steps,
            'save': r.random() < .3, 'joint': r.random() < .4,
            'limit': r.choice([1, 2, 3, 5, None])}


def axis_case(g):
    r = g.r
    nd = r.randint(0, 4)
    shape = [r.randint(1, 4) for _ in range(nd)]
    fn = r.choice(AGG)
    k = r.random()
    c = {'law': 'axis', 'fn': fn, 'shape': shape}
    if k < .6:
        ax = r.randint(-nd - 2, nd + 1)
        c['axis'] = ax
        c['expect'] = 'ok' if -nd <= ax < nd else 'value'
        c['conv'] = r.choice([None, 'i8', 'i1', 'i4', 'u1' if ax >= 0 else 'i2'])
    elif k < .75:
        ax = r.randint(-nd - 2, nd + 1)
        c['axis'] = [ax]
        c['expect'] = 'ok' if -nd <= ax < nd else 'value'
        c['conv'] = r.choice(['tuple', 'nptuple'])
    elif k < .82:
        c['axis'] = r.choice([1.5, 'x', [0.5], {'a': 1}, [0, 'x'], [0, 1.5],
                              [None], [[0]], '', '0', {}, {0: 1}])
        c['conv'] = r.choice([None, 'tuple'])
        c['expect'] = 'type'
    elif k < .88:
        c['axis'] = None
        c['expect'] = 'refuse'
    else:
        # None or several, some of them the same dimension or out of range.
        axes = [r.randint(-nd, nd - 1) if nd and r.random() < .9 else
                r.randint(-nd - 2, nd + 1) for _ in range(
                    r.choice([0, 2, 2, 2, 3]))]
        if len(axes) > 1 and r.random() < .5:
            axes[1] = axes[0] - r.choice([-nd, 0, nd])
        c['axis'] = axes
        c['conv'] = r.choice([None, 'tuple', 'nptuple'])
        c['expect'] = 'refuse'
        if not all(-nd <= x < nd for x in axes):
            c['expect'] = 'either'
    return c


def tiling(g, n):
    """Slices which tile range(n), in order."""
    r = g.r
    cuts = sorted(set([0, n] + [r.randint(0, n)
                                for _ in range(r.randint(0, 3))]))
    out = []
    for a, b in zip(cuts[:-1], cuts[1:]):
        out.append([a or r.choice([0, None]),
                    b if b < n else r.choice([n, None]),
                    r.choice([None, None, 1])])
    return out


def group(g):
    import itertools
    r = g.r
    shape = [r.randint(1, 5) for _ in range(r.randint(1, 3))]
    inputs = []
    for _ in range(r.randint(1, 3)):
        per = [tiling(g, n) for n in shape]
        keys = [list(k) for k in itertools.product(*per)]
        if r.random() < .5:
            r.shuffle(keys)
        inputs.append(keys)
    c = {'law': 'group', 'shape': shape, 'inputs': inputs, 'n': 0}
    if r.random() < .2:
        # The same list for two inputs.
        inputs.append(inputs[0])
        c['shared'] = True
    if r.random() < .01:
        # Very many chunks along a dimension (cut into single elements).
        n = r.choice([3000, 9998, 9999, 10000, 10001, 12000])
        c.update(shape=[n], inputs=[[[[None, None, None]]]], singles=n)
        c.pop('shared', None)
    return c


def meta(g):
    r = g.r
    return {'law': 'meta', 'dtype': r.choice(['f8', 'i2', 'f4', 'i1']),
            'shape': [r.choice([0, 1, 3, 1 << 20, 1 << 31, 10 ** 12])
                      for _ in range(r.randint(0, 4))]}
