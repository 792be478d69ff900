"""C08: operands broadcast as NumPy broadcasts."""
from contracts.views import *


def padded(shape, n, i):
    """Size of dimension i of the shape padded with ones on the left to rank
    n (terms)."""
    k = core.simp(i - (n - lift(vlen(shape))))
    c = ctx()
    if not c.branch(k >= 0):
        return z3.IntVal(1)
    return lift(at(shape, k))


class SeqGhost(object):
    """The loop appends f(z) as element z of a list, or leaves it alone."""

    def __init__(self, name, get):
        self.name = name
        self.seq = Base(name, get)

    def accepts(self, loop, v0):
        return isinstance(v0, VList)

    def at(self, loop, v0, k):
        parts = list(loops.v0_parts(v0))
        n = z3.IntVal(0)
        for p in parts:
            n = n + (1 if isinstance(p, Item) else p.n())
        n = core.simp(n)
        return parts + [Seg(self.seq, n, core.simp(n + k))]


@contract('_compute_broadcast_shape',
          ['BroadcastArray._compute_broadcast_shape'])
def broadcast_shape(c, env):
    """Any two shapes: NumPy's broadcast shape, or ValueError exactly if some
    dimension has two different sizes other than 1."""
    f = env.g['BroadcastArray']._compute_broadcast_shape
    a, b = keys.sizes('a'), keys.sizes('b')
    na, nb = lift(vlen(a)), lift(vlen(b))
    n = c.int('n')
    c.assume(n.z == z3.If(na > nb, na, nb))
    i = c.int('i', 0)
    c.assume(i.z < n.z)

    def fits(z):
        x, y = padded(a, n.z, z), padded(b, n.z, z)
        return x, y, z3.Or(x == y, x == 1, y == 1)
    bases = {id(a.parts[0].base): na, id(b.parts[0].base): nb}

    def here(base, z, v):
        return fits(core.simp(z + n.z - bases[id(base)]))[2]
    c.user['facts'] = [Fact('fits', lambda base: id(base) in bases, here)]

    def value(z):
        x, y, ok = fits(z)
        return num(core.simp(z3.If(x == 1, y, x)))
    c.user['ghosts'] = [SeqGhost('shape', value)]
    out = call(f, a, b)
    if not out.ok:
        c.prove('ValueError', out.raised(ValueError))
        # the witness: the dimension at which the loop stopped
        c.prove('incompatible', z3.Or([z3.And(0 <= z, z < n.z,
                                              z3.Not(fits(z)[2]))
                                       for z in points(c, n.z, a, b)]))
        return
    r = out.value
    c.prove('a tuple', isinstance(r, (tuple, VTuple)))
    if not c.prove('rank', lift(vlen(r)) == n.z):
        return
    x, y, ok = fits(i.z)
    c.prove('compatible', ok)
    c.prove('size', lift(at(r, i.z)) == z3.If(x == 1, y, x))


def points(c, n, *shapes):
    """The positions of the dimensions which were looked at."""
    out = []
    for s in shapes:
        for p in parts_of(s):
            b = getattr(p, 'base', None)
            for z, v in (b.memo.values() if b is not None else ()):
                out.append(core.simp(z + n - lift(vlen(s))))
    return out or [z3.IntVal(-1)]


# -- pairs of operands (bounded in the rank)

def numpy_shape(c, s1, s2):
    """NumPy's broadcast shape of two (short) shapes, or None."""
    n = max(len(s1), len(s2))
    out = []
    for d in range(n):
        x = s1[d - n + len(s1)] if d >= n - len(s1) else 1
        y = s2[d - n + len(s2)] if d >= n - len(s2) else 1
        if c.branch(lift(x) == lift(y)):
            out.append(x)
        elif c.branch(lift(x) == 1):
            out.append(y)
        elif c.branch(lift(y) == 1):
            out.append(x)
        else:
            return None
    return tuple(out)


def operand(c, env, name, kind, rank):
    """An operand and the model of what it converts to."""
    if kind == 'lazy':
        a = lazy(env, name, rank)
        return a, a.model
    src, view, spec = make_broadcast(c, env, rank, 1)
    return view, spec


def check_pair(c, env, k1, r1, k2, r2):
    install(env)
    a, sa = operand(c, env, 'a', k1, r1)
    b, sb = operand(c, env, 'b', k2, r2)
    out = call(env.g['BroadcastArray'].broadcast_arrays, a, b)
    want = numpy_shape(c, sa.shape, sb.shape)
    if want is None:
        c.prove('ValueError', out.raised(ValueError))
        return
    if not c.prove('compatible operands are accepted', out.ok):
        return
    c.prove('nothing is read', not c.user.get('reads'))
    x, y = out.value
    asked(c, x, y)
    which = c.among([0, 1])
    masked = c.among([False, True])
    got = convert(c, (x, y)[which], masked)
    spec = broadcast_to((sa, sb)[which], want)
    if got is not None:
        same_array(c, got, spec, masked)
    again(c, (a, sa), (b, sb), ((x, y)[which], spec))


PAIR = ['BroadcastArray.broadcast_arrays', 'BroadcastArray._broadcast_array',
        'BroadcastArray._compute_broadcast_kwargs',
        'BroadcastArray._compute_broadcast_shape',
        'BroadcastArray._shape_from_broadcast_dict',
        'BroadcastArray.__init__', 'BroadcastArray._broadcast_numpy_array',
        'BroadcastArray.ndarray', 'BroadcastArray.masked_array']


@contract('broadcast_arrays', PAIR, bound='two operands of rank at most 2')
def broadcast_pairs(c, env):
    r1, r2 = c.among([(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2),
                      (0, 2), (2, 0)])
    check_pair(c, env, 'lazy', r1, 'lazy', r2)


@contract('broadcast_arrays: ranks 3', PAIR,
          bound='an operand of rank 3 and one of rank at most 2')
def broadcast_pairs3(c, env):
    r1, r2 = c.among([(3, 1), (1, 3), (3, 2), (2, 3)])
    check_pair(c, env, 'lazy', r1, 'lazy', r2)


@contract('broadcast_arrays: broadcast operands', PAIR,
          bound='a broadcast operand of rank at most 2 (at most 1 leading) '
          'and another of rank at most 2')
def broadcast_nested(c, env):
    r1, r2 = c.among([(0, 1), (1, 1), (1, 2), (0, 2)])
    k1, k2 = c.among([('broadcast', 'lazy'), ('lazy', 'broadcast')])
    if k1 == 'lazy':
        r1, r2 = r2, r1
    check_pair(c, env, k1, r1, k2, r2)


CONTRACTS = [broadcast_shape, broadcast_pairs, broadcast_pairs3,
             broadcast_nested]
