"""Contracts of the cutting of arrays into chunks (C09) and of save (C10)."""
from contracts.common import *          # noqa
from pyvc import load


def np_min(x, *a, **k):
    if a or k:
        raise Limitation('min with an axis')
    return load.v_min(x)


def np_max(x, *a, **k):
    if a or k:
        raise Limitation('max with an axis')
    return load.v_max(x)


def models(env):
    env.np._models.update(min=np_min, amin=np_min, max=np_max, amax=np_max,
                          ndindex=ndindex)


# --------------------------------------------------------- _all_slices_inner
class Piece(object):
    """Start and stop of an element of the cuts of a dimension of length n
    (an index i stands for i:i+1)."""

    def __init__(self, v, n):
        self.ok = True
        if isinstance(v, (int, SInt)):
            self.start, self.stop = lift(v), lift(v) + 1
            return
        s = seqs.as_slice(v)
        if s is None or s.generic is not None:
            self.ok = False
            return
        if s._parts[2] not in (None, 1):
            self.ok = False
            return
        a, b = s._parts[0], s._parts[1]
        self.start = z3.IntVal(0) if a is None else lift(a)
        self.stop = n if b is None else lift(b)


class Sizes(object):
    """An arbitrary shape and the products of its last lengths."""

    def __init__(self, c, limit):
        self.c = c
        self.limit = limit
        self.n = z3.Function('n', z3.IntSort(), z3.IntSort())
        self.p = z3.Function('p', z3.IntSort(), z3.IntSort())
        self.rank = c.int('rank', 0).z
        self.base = Base('shape', self.size, num(self.rank))
        self.shape = VTuple([Seg(self.base, 0, self.rank)])
        c.assume(self.p(z3.IntVal(0)) == 1)

    def size(self, z):
        self.c.assume(self.n(z) >= 0)
        return num(self.n(z))

    def product(self, k):
        """Product of the last k lengths."""
        k = core.simp(k)
        self.c.assume(z3.Implies(k >= 0, self.p(k) >= 0))
        return self.p(k)

    def unfold(self, k):
        n = lift(self.base.get(core.simp(self.rank - 1 - k)))
        self.c.assume(self.product(k + 1) == self.product(k) * n)


class ProductGhost(object):
    """1 * the last k lengths."""

    def __init__(self, sizes):
        self.s = sizes

    def accepts(self, loop, v0):
        return isinstance(v0, int) and not isinstance(v0, bool) and v0 == 1

    def at(self, loop, v0, k):
        if not loop.assuming:
            self.s.unfold(core.simp(k - 1))
        return num(self.s.product(k))


class Cuts(object):
    """The pieces into which a dimension of length n is cut, if an element of
    it has p elements: any that tile it and keep to the limit.  (This is the
    invariant: what is compared with it has to prove that it is so.)"""

    def __init__(self, sizes, z, slices_only):
        self.sizes, self.z, self.slices_only = sizes, z, slices_only

    def veq_first(self, o):
        if o is self:
            return True
        if isinstance(o, Cuts):
            return core.simp(self.z == o.z)
        p = parts_of(o)
        if p is None:
            return False
        if ctx().pick('the cuts of a dimension', 2):
            check_cuts(ctx(), VTuple(p), self.sizes, self.z,
                       self.slices_only)
            raise core.EndPath()
        return True


class CutsGhost(object):
    """The cuts of the last k dimensions."""

    def __init__(self, sizes, slices_only):
        self.s = sizes
        self.base = Base('cuts', lambda z: Cuts(sizes, z, slices_only),
                         num(sizes.rank))

    def accepts(self, loop, v0):
        return isinstance(v0, VList) and not v0.parts

    def at(self, loop, v0, k):
        return [Seg(self.base, self.s.rank - k, self.s.rank)]


def check_cuts(c, cut, s, z, slices_only):
    """The pieces of dimension z."""
    n = lift(s.base.get(core.simp(z)))
    m = lift(cut.vlen())
    c.prove('a dimension which is not empty has a piece',
            z3.Implies(n > 0, m > 0))
    p = tiled(c, cut, n)
    if p is None:
        return
    if slices_only:
        c.prove('only slices, if asked for',
                seqs.as_slice(cut.at(z3.IntVal(0))) is not None)
    # The number of elements of a chunk: with p the product of the lengths of
    # the dimensions after d and e the size of the part of a chunk in these:
    # (p <= limit and e = p) or (p > limit and e <= limit) is preserved.
    k = core.simp(s.rank - 1 - z)
    prod = s.product(k)
    s.unfold(k)
    e = c.int('elements of a chunk in the dimensions after', 0).z
    limit = s.limit
    c.assume(z3.Or(z3.And(prod <= limit, e <= prod),
                   z3.And(prod > limit, e <= limit)))
    e1 = (p.stop - p.start) * e
    prod1 = n * prod
    c.prove('a chunk is within the limit [step]',
            z3.Or(z3.And(prod1 <= limit, e1 <= prod1),
                  z3.And(prod1 > limit, e1 <= limit)))


def tiled(c, cut, n, name=''):
    """The cuts of a dimension tile it, in ascending order."""
    m = lift(cut.vlen())
    i = c.int('piece', 0)
    c.assume(i.z < m)
    p = Piece(cut.at(i.z), n)
    c.prove('every piece is an index or a slice with step 1', p.ok)
    if not p.ok:
        return None
    c.prove('pieces are within the dimension, and none is negative',
            z3.And(0 <= p.start, p.start <= p.stop, p.stop <= n))
    c.prove('no piece of a nonempty dimension is empty',
            z3.Implies(n > 0, p.start < p.stop))
    if c.branch(i.z == 0):
        c.prove('the first piece begins at the beginning', p.start == 0)
    else:
        q = Piece(cut.at(core.simp(i.z - 1)), n)
        c.prove('every piece begins where the one before ends',
                z3.And(z3.BoolVal(q.ok), q.stop == p.start))
    if c.branch(i.z == m - 1):
        c.prove('the last piece ends at the end', p.stop == n)
    return p


@contract('_all_slices_inner', ['_all_slices_inner', '_all_slices'],
          trusted=['numpy.min of a list: its least element'])
def all_slices(c, env):
    g = env.g
    models(env)
    M = c.int('limit', 1)
    g['MAX_CHUNK_SIZE'] = M
    s = Sizes(c, M.z)
    slices_only = c.pick('always_slices', 2) == 1
    c.user['ghosts'] = [ProductGhost(s), CutsGhost(s, slices_only)]
    if slices_only:
        out = call(g['_all_slices_inner'], s.shape, always_slices=True)
    elif c.pick('of an array', 2):
        arr = object.__new__(type('A', (), {'shape': s.shape}))
        out = call(g['_all_slices'], arr)
    else:
        out = call(g['_all_slices_inner'], s.shape)
    c.prove('any shape can be cut', out.ok)
    if not out.ok:
        return
    r = out.value
    c.prove('there is one list of pieces for each dimension',
            lift(vlen(r)) == s.rank)
    d = c.int('dimension', 0)
    c.assume(d.z < s.rank)
    cut = r[d]
    if isinstance(cut, Cuts):
        # Proved when it was made.
        c.prove('the cuts are in the order of the dimensions',
                cut.z == d.z)
    else:
        check_cuts(c, VTuple(parts_of(cut)), s, d.z, slices_only)


# ------------------------------------------------------------ chunk_index_gen
class KeyAt(object):
    """Piece number z of dimension d."""

    def __init__(self, d, z):
        self.d, self.z = d, z

    def veq(self, o):
        if not isinstance(o, KeyAt) or o.d != self.d:
            return False
        return core.simp(self.z == o.z)


class Grid(object):
    """The contract of _all_slices_inner: a list of pieces per dimension."""

    def __init__(self, c, rank, least=0, ints=()):
        self.rank = rank
        self.ints = ints        # dimensions cut into single indices
        self.counts = [c.int('pieces', least) for _ in range(rank)]
        self.shape = tuple(c.int('n', 0) for _ in range(rank))
        self.ropes = [(VList if d in ints else VTuple)([Seg(Base(
            'dim%d' % d, lambda z, d=d: self.key(d, z), n), 0, n.z)])
            for d, n in enumerate(self.counts)]

    def key(self, d, z):
        return num(z) if d in self.ints else KeyAt(d, z)

    def cuts(self, c, flag):
        def f(shape, always_slices=False):
            c.prove('the chunks are those of the array',
                    veq(VTuple(parts_of(shape)), self.shape))
            if flag:
                c.prove('chunk keys are slices', bool(always_slices))
            return VList([Item(r) for r in self.ropes])
        return f


class Indices(object):
    """The tuples of numpy.ndindex, in its order."""

    def __init__(self, counts):
        c = ctx()
        self.counts = [lift(x) for x in counts]
        self.digits = [z3.Function(c.fresh_name('digit'), z3.IntSort(),
                                   z3.IntSort()) for _ in counts]
        self.total = c.int('indices', 0)
        pos = z3.And(z3.BoolVal(True), *[x > 0 for x in self.counts])
        c.assume((self.total.z > 0) == pos)
        if not self.counts:
            c.assume(self.total.z == 1)
        c.user.setdefault('ndindex', []).append(self)
        self.base = Base('ndindex', self.get, self.total)

    def get(self, z):
        c = ctx()
        for f, n in zip(self.digits, self.counts):
            c.assume(z3.And(0 <= f(z), f(z) < n))
        return tuple(num(f(z)) for f in self.digits)


def ndindex(*counts):
    if len(counts) == 1 and parts_of(counts[0]) is not None:
        counts = [p.v for p in parts_of(counts[0])]
    for n in counts:
        if not isinstance(n, (int, SInt)):
            raise Limitation('ndindex of %r' % (n,))
    i = Indices(counts)
    return load.VIter([Seg(i.base, 0, i.total.z)])


DONE = object()


@contract('ProducerNode.chunk_index_gen', ['ProducerNode.chunk_index_gen'],
          bound='rank <= 4',
          trusted=['numpy.ndindex yields every index tuple once, the last '
                   'index varying fastest',
                   '_all_slices_inner: its contract'])
def chunk_index(c, env):
    g = env.g
    models(env)
    import itertools
    rank = c.among([0, 1, 2, 3, 4])
    order = list(c.among(list(itertools.permutations(range(rank)))))
    grid = Grid(c, rank)
    g['_all_slices_inner'] = grid.cuts(c, True)
    kind = c.among(['tuple', 'list'])
    out = call(g['ProducerNode'].chunk_index_gen, grid.shape,
               tuple(order) if kind == 'tuple' else VList(
                   [Item(i) for i in order]))
    c.prove('the chunks can be enumerated', out.ok)
    if not out.ok:
        return
    it = iter(out.value)
    got = call(next, it, DONE)
    used = c.user.get('ndindex', ())
    if len(used) != 1:
        raise Limitation('another enumeration of the chunks')
    idx = used[0]
    c.prove('the index along each dimension of the order runs through its '
            'pieces', z3.And(z3.BoolVal(len(idx.counts) == rank), *[
                a == grid.counts[d].z
                for a, d in zip(idx.counts, order)]))
    c.prove('the chunks can be enumerated', got.ok)
    if not got.ok or got.value is DONE:
        return
    # An arbitrary one of the indices.
    z, index = list(idx.base.memo.values())[0]
    key = got.value
    items = list(key)
    c.prove('a key has an entry for each dimension', len(items) == rank)
    for d, k in enumerate(items):
        j = order.index(d)
        c.prove('the key along a dimension is the piece which the index of '
                'that dimension stands for',
                isinstance(k, KeyAt) and veq(k, KeyAt(d, lift(index[j]))))
    got = call(next, it, DONE)
    c.prove('the chunks can be enumerated', got.ok)


# ------------------------------------------------------------------- save
class SaveArray(object):
    def __init__(self, c, grid):
        self.c, self.shape = c, grid.shape
        self.ndim = grid.rank

    def __getitem__(self, keys):
        return SavePart(self, keys)


class SavePart(object):
    def __init__(self, a, keys):
        self.a, self.keys = a, keys

    def ndarray(self):
        return SaveData(self.a, self.keys, False)

    def masked_array(self):
        return SaveData(self.a, self.keys, True)


class SaveData(object):
    def __init__(self, a, keys, masked):
        self.a, self.keys, self.masked = a, keys, masked

    def __getattr__(self, name):
        # (Of its elements nothing is known.)
        if name == 'size' or name == 'count' and self.masked:
            n = self.__dict__.setdefault('elements', ctx().int('size', 0))
            if name == 'size':
                return n
            m = self.__dict__.setdefault('unmasked', ctx().int('count', 0))
            ctx().assume(m.z <= n.z)
            return lambda: m
        raise AttributeError(name)


class Target(object):
    def __init__(self, c, grid, array, masked):
        self.c, self.grid, self.array, self.masked = c, grid, array, masked
        self.count = 0
        self.vc_name = 'target'
        self._serial = -1

    def __setitem__(self, keys, data):
        c = self.c
        idx = c.user['ndindex'][0]
        items = list(keys) if parts_of(keys) is not None else None
        c.prove('a chunk is stored with a key for each dimension',
                items is not None and len(items) == self.grid.rank)
        if items is None:
            return
        index = idx.base.get(lift(self.count))
        for d, k in enumerate(items):
            c.prove('the chunks are stored one after the other, each once',
                    isinstance(k, (int, SInt, KeyAt)) and
                    veq(k, self.grid.key(d, lift(index[d]))))
        ok = isinstance(data, SaveData)
        c.prove('what is stored is the converted part of the source at the '
                'same keys', ok and data.a is self.array and
                veq(VTuple(parts_of(data.keys)), VTuple(parts_of(keys))))
        c.prove('masked arrays are stored iff asked for',
                ok and data.masked == self.masked)
        self.count = self.count + 1


@contract('save', ['save', '_all_slices'], bound='rank <= 4',
          trusted=['numpy.ndindex yields every index tuple once',
                   '_all_slices_inner: its contract',
                   'target.__setitem__ stores the data at the keys'])
def save_contract(c, env):
    g = env.g
    models(env)
    rank = c.among([0, 1, 2, 3, 4])
    # The outer dimensions may be cut into single indices.
    grid = Grid(c, rank, ints=range(c.among(list(range(rank + 1)))))
    g['_all_slices_inner'] = grid.cuts(c, False)
    masked = c.pick('masked', 2) == 1
    a = SaveArray(c, grid)
    t = Target(c, grid, a, masked)
    c.user['attr_objs'] = [(t, 'count')]
    if masked:
        out = call(g['save'], VList([Item(a)]), VList([Item(t)]),
                   masked=True)
    else:
        out = call(g['save'], VList([Item(a)]), VList([Item(t)]))
    c.prove('saving does not raise', out.ok)
    used = c.user.get('ndindex', ())
    if len(used) != 1:
        raise Limitation('another enumeration of the chunks')
    idx = used[0]
    c.prove('the indices run through the pieces', z3.And(
        z3.BoolVal(len(idx.counts) == rank), *[
            x == n.z for x, n in zip(idx.counts, grid.counts)]))
    c.prove('every chunk is stored', lift(t.count) == idx.total.z)


C09 = [all_slices, chunk_index]
C10 = [all_slices, save_contract]
