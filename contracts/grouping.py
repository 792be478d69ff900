"""Contracts of key_grouper (C20)."""
from contracts.common import *          # noqa
from pyvc import load

from contracts.arrays import loops_items

FILE = 'biggus/experimental/key_grouper.py'


def module(env):
    return env.module(FILE, 'biggus.experimental.key_grouper')


@contract('normalize_slice', ['normalize_slice'])
def normalize(c, env):
    g = module(env)
    n = c.int('dim_length', 0)
    parts = []
    for name in ('start', 'stop'):
        if c.pick('no ' + name, 2):
            parts.append(None)
        else:
            v = c.int(name)
            c.assume(z3.And(-n.z <= v.z, v.z <= n.z))
            parts.append(v)
    step = c.among([None, 1])
    s = SSlice(parts[0], parts[1], step)
    a, b, _, m = s.resolve(n)
    if not c.branch(lift(m) > 0):
        # Chunk keys are not empty (but for an empty dimension).
        c.assume(n.z == 0)
    out = call(g['normalize_slice'], s, n)
    c.prove('any key can be normalised', out.ok)
    if not out.ok:
        return
    r = seqs.as_slice(out.value)
    c.prove('a slice', r is not None)
    if r is None:
        return
    a2, b2, st2, m2 = r.resolve(n)
    c.prove('the same elements', z3.And(lift(a) == lift(a2),
                                        lift(b) == lift(b2), lift(st2) == 1))
    # The form is canonical: keys of the same elements are equal.
    c.prove('no step is given', r._parts[2] is None)
    for i, v, edge in ((0, a, 0), (1, b, n)):
        if r._parts[i] is None:
            c.prove('None stands for an end of the dimension',
                    lift(v) == lift(edge))
        else:
            c.prove('an end of the dimension is None',
                    z3.And(lift(v) != lift(edge),
                           lift(r._parts[i]) == lift(v)))


# ------------------------------------------- dimension_group_to_lowest_common
class Tile(object):
    """Key number z of input j."""

    def __init__(self, t, z):
        self.t, self.z = t, z


class Tiling(object):
    """An arbitrary tiling of a dimension by n keys, given in any order."""

    def __init__(self, c, j, L):
        self.c, self.j, self.L = c, j, L.z
        self.n = c.int('keys', 1)
        self.seen = {}
        self.T = z3.Function('T%d' % j, z3.IntSort(), z3.IntSort())
        self.order = z3.Function('order%d' % j, z3.IntSort(), z3.IntSort())
        c.assume(self.T(z3.IntVal(0)) == 0)
        c.assume(self.T(self.n.z) == self.L)
        c.assume(z3.Implies(self.L == 0, self.n.z == 1))
        self.given = Base('given%d' % j, self.permuted, self.n)
        self.given.sorted_base = Base('tiles%d' % j, lambda z: Tile(self, z),
                                      self.n)
        self.keys = VList([Seg(self.given, 0, self.n.z)])

    def permuted(self, z):
        p = self.order(z)
        self.c.assume(z3.And(0 <= p, p < self.n.z))
        return Tile(self, p)

    def at(self, z):
        """Where key z begins."""
        z = core.simp(z)
        T, n = self.T, self.n.z
        if z.get_id() in self.seen:
            return T(z)
        self.seen[z.get_id()] = z
        for y in (z, core.simp(z + 1)):
            self.c.assume(z3.Implies(z3.And(0 <= y, y <= n), z3.And(
                0 <= T(y), T(y) <= self.L)))
            self.c.assume(z3.Implies(z3.And(0 <= y, y < n, self.L > 0),
                                     T(y) < self.L))
            self.c.assume(z3.Implies(z3.And(0 < y, y <= n, self.L > 0),
                                     0 < T(y)))
        self.c.assume(z3.Implies(z3.And(0 <= z, z < n, self.L > 0),
                                 T(z) < T(z + 1)))
        return T(z)

    def increasing(self, a, b):
        """(Follows from the order of successive keys by induction.)"""
        T, n = self.T, self.n.z
        self.c.assume(z3.Implies(z3.And(0 <= a, a < b, b <= n, self.L > 0),
                                 T(a) < T(b)))


class Groups(object):
    """The dictionary of groups, which cover 0:covered."""
    vc_name = 'groups'
    _serial = -1

    def __init__(self, c, tilings, L):
        self.c, self.tilings, self.L = c, tilings, L.z
        self.covered = 0

    def __setitem__(self, key, value):
        c = self.c
        if not isinstance(key, tuple) or len(key) != 3:
            raise Limitation('key of a group')
        a = z3.IntVal(0) if key[0] is None else lift(key[0])
        b = self.L if key[1] is None else lift(key[1])
        c.prove('the step of a group is 1', key[2] in (None, 1))
        c.prove('a group begins where the one before ends',
                a == lift(self.covered))
        items = parts_of(value)
        if items is None or any(not isinstance(p, Item) for p in items):
            raise Limitation('contents of a group')
        c.prove('a group has keys of every input',
                len(items) == len(self.tilings))
        for t, p in zip(self.tilings, items):
            q = parts_of(p.v)
            if q is None or len(q) != 1 or not isinstance(q[0], Seg):
                raise Limitation('keys of a group')
            s = q[0]
            src = getattr(s.base, 'fn', (None, s))[1]
            c.prove('the keys of an input are its own',
                    src.base is t.given.sorted_base)
            lo, hi = core.simp(s.lo + src.lo), core.simp(s.hi + src.lo)
            t.increasing(lo, hi)
            c.prove('the keys of an input tile the group', z3.And(
                0 <= lo, lo < hi, hi <= t.n.z, t.at(lo) == a,
                t.at(hi) == b))
        c.prove('a group is within the dimension, and not empty',
                z3.And(z3.Or(a < b, self.L == 0), b <= self.L))
        self.covered = num(b)


def grouping(c, env, inputs):
    g = module(env)
    L = c.int('dim_length', 0)
    tilings = [Tiling(c, j, L) for j in range(inputs)]

    def normalised(key, length):
        if not isinstance(key, Tile):
            raise Limitation('normalising %r' % (key,))
        c.prove('keys are normalised for the length of the dimension',
                lift(length) == L.z)
        t = key.t
        a, b = t.at(key.z), t.at(core.simp(key.z + 1))
        return SSlice(None if c.branch(a == 0) else num(a),
                      None if c.branch(b == L.z) else num(b), None)
    g['normalize_slice'] = normalised
    groups = Groups(c, tilings, L)
    made = []

    def new_dict():
        if made:
            return {}
        made.append(1)
        return groups
    c.user['new_dict'] = new_dict
    c.user['attr_objs'] = [(groups, 'covered')]

    def havoc(name, v0):
        if name == 'groups.covered':
            return c.int('covered')
        if name == 'i':
            return c.int('i')
        return VList([Item(c.int(name)) for _ in tilings])

    def terms(v):
        p = parts_of(v)
        if p is None or len(p) != inputs or any(
                not isinstance(x, Item) for x in p):
            raise Limitation('indices of the inputs')
        return [lift(x.v) for x in p]

    def facts(v):
        start, cur = terms(v['start_index']), terms(v['current_index'])
        covered = lift(v['groups.covered'])
        out = []
        for t, s, x in zip(tilings, start, cur):
            out.append(('the group of an input begins where the groups end',
                        z3.And(0 <= s, s <= x, t.at(s) == covered)))
        out.append(('the inputs end together', z3.Or(
            z3.And(*[x < t.n.z for t, x in zip(tilings, cur)]),
            z3.And(*[z3.And(x == t.n.z, s == x) for t, s, x in zip(
                tilings, start, cur)]))))
        for t, x in zip(tilings, cur):
            t.at(x)
        out.append(('every iteration uses up some key',
                    lift(v['i']) <= z3.Sum(cur)))
        return out
    c.user['relation'] = loops.Relation(
        ['start_index', 'current_index', 'i', 'groups.covered'], havoc,
        facts)
    out = call(g['dimension_group_to_lowest_common'], L,
               VList([Item(t.keys) for t in tilings]))
    c.prove('grouping does not raise', out.ok)
    if not out.ok:
        return
    if out.value is not groups:
        raise Limitation('another dictionary')
    c.prove('the groups cover the dimension', lift(groups.covered) == L.z)


def grouping_of(inputs):
    return contract(
        'dimension_group_to_lowest_common: %d input%s' % (
            inputs, 's' * (inputs > 1)), ['dimension_group_to_lowest_common'],
        bound='at most 3 inputs (with any number of keys each)',
        trusted=['normalize_slice: its contract', 'sorted: the ordered '
                 'permutation'])(lambda c, env: grouping(c, env, inputs))


# ---------------------------------------------------------------- group_keys
class Assoc(object):
    """A dictionary whose keys may be symbolic."""

    def __init__(self):
        self.pairs = []

    def find(self, key):
        for i, (k, v) in enumerate(self.pairs):
            if k is key or same_key(k, key):
                return i

    def __setitem__(self, key, value):
        i = self.find(key)
        if i is None:
            self.pairs.append((key, value))
        else:
            self.pairs[i] = (self.pairs[i][0], value)

    def __getitem__(self, key):
        i = self.find(key)
        if i is None:
            raise KeyError(key)
        return self.pairs[i][1]

    def __delitem__(self, key):
        self.pop(key)

    def __contains__(self, key):
        return self.find(key) is not None

    def __len__(self):
        return len(self.pairs)

    def __iter__(self):
        return iter(self.keys())

    def get(self, key, default=None):
        i = self.find(key)
        return default if i is None else self.pairs[i][1]

    def setdefault(self, key, default=None):
        if self.find(key) is None:
            self[key] = default
        return self[key]

    def pop(self, key, *default):
        i = self.find(key)
        if i is None:
            if default:
                return default[0]
            raise KeyError(key)
        return self.pairs.pop(i)[1]

    def update(self, other):
        for k, v in other.items():
            self[k] = v

    def items(self):
        return list(self.pairs)

    def keys(self):
        return [k for k, v in self.pairs]

    def values(self):
        return [v for k, v in self.pairs]

    def copy(self):
        d = Assoc()
        d.pairs = list(self.pairs)
        return d


def same_key(a, b):
    if isinstance(a, (tuple, VSeq)) and isinstance(b, (tuple, VSeq)):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(same_key(x, y)
                                        for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    if isinstance(a, (tuple, VSeq)) or isinstance(b, (tuple, VSeq)):
        return False
    return bool(a == b)


def group_keys(c, env, dims, inputs, most):
    g = module(env)
    c.user['new_dict'] = Assoc
    shape = [c.int('L%d' % d, 1) for d in range(dims)]
    order = c.among(['rows', 'reversed'])
    named = c.pick('None for the ends', 2)
    given, grids = [], []
    for j in range(inputs):
        cuts = []
        for d in range(dims):
            n = c.among(list(range(1, most[d] + 1)))
            T = [0] + [c.int('cut') for _ in range(n - 1)] + [shape[d]]
            for a, b in zip(T, T[1:]):
                c.assume(lift(a) < lift(b))
            cuts.append(T)

        def slice_of(d, i):
            T = cuts[d]
            return SSlice(
                None if named and i == 0 else T[i],
                None if named and i == len(T) - 2 else T[i + 1], None)
        keys = [(tuple(slice_of(d, i) for d, i in enumerate(index)), index)
                for index in np.ndindex(*[len(T) - 1 for T in cuts])]
        if order == 'reversed':
            keys.reverse()
        given.append(keys)
        grids.append(cuts)
    lists = [[k for k, _ in keys] for keys in given]
    out = call(g['group_keys'], tuple(shape), *lists)
    if not c.prove('the keys can be grouped', out.ok):
        return
    for keys, now in zip(given, lists):
        c.prove('the lists given are left as they were',
                len(now) == len(keys) and all(
                    a is b for a, (b, _) in zip(now, keys)))
    if not isinstance(out.value, Assoc):
        raise Limitation('another dictionary')
    count = [[0] * len(keys) for keys in given]
    for key, value in out.value.items():
        key = [loops_items(t) for t in loops_items(key)]
        if not c.prove('a group has a range of every dimension',
                       len(key) == dims and all(len(t) == 3 for t in key)):
            return
        box = [(0 if t[0] is None else t[0],
                shape[d] if t[1] is None else t[1])
               for d, t in enumerate(key)]
        c.prove('the step of a group is 1',
                all(t[2] in (None, 1) for t in key))
        value = loops_items(value)
        if not c.prove('a group has keys of every input',
                       len(value) == inputs):
            return
        for j, ks in enumerate(value):
            ks = loops_items(ks)
            indices = []
            for k in ks:
                i = [i for i, (own, _) in enumerate(given[j]) if own is k]
                if len(i) != 1:
                    # (Equal keys would do as well.)
                    raise Limitation('another key')
                count[j][i[0]] += 1
                indices.append(given[j][i[0]][1])
            if not c.prove('a group has keys of every input',
                           len(indices) > 0):
                return
            lo = [min(x) for x in zip(*indices)]
            hi = [max(x) for x in zip(*indices)]
            n = 1
            for a, b in zip(lo, hi):
                n *= b - a + 1
            c.prove('the keys of an input tile the group',
                    len(set(indices)) == len(indices) == n)
            for d in range(dims):
                c.prove('the keys of an input tile the group', z3.And(
                    lift(grids[j][d][lo[d]]) == lift(box[d][0]),
                    lift(grids[j][d][hi[d] + 1]) == lift(box[d][1])))
    c.prove('every key is in exactly one group',
            all(x == 1 for n in count for x in n))


def group_keys_of(inputs, *most):
    dims = len(most)
    return contract(
        'group_keys: %d dimension%s, %d input%s' % (
            dims, 's' * (dims > 1), inputs, 's' * (inputs > 1)),
        ['group_keys', 'dimension_group_to_lowest_common',
         'normalize_slice'],
        bound='at most %s keys of an input in a dimension; cuts anywhere'
        % ' x '.join(str(n) for n in most))(
            lambda c, env: group_keys(c, env, dims, inputs, most))


C20 = [group_keys_of(2, 2, 3), group_keys_of(1, 4), group_keys_of(2, 3),
       group_keys_of(1, 3, 3), group_keys_of(3, 2), normalize,
       grouping_of(3), grouping_of(1), grouping_of(2)]
