"""Contracts of the functions which deal with keys and shapes, for arrays of
any rank (loops over the dimensions are cut, not unrolled)."""
from contracts.common import *


# ---------------------------------------------------------- _check_bounds
def bounds_facts(c, b, shape):
    def inr(v, z):
        return within(v, shape.at(z))

    def goal(base, z, v):
        k = kind_of_key(v)
        if k == 'int':
            return inr(v, z)
        if k == 'tuple':
            j = c.int('j', 0, vlen(v))
            return inr(at(v, j.z), z)
        return z3.BoolVal(True)

    def use(base, z, v):
        k = kind_of_key(v)
        if k == 'int':
            c.assume(inr(v, z))
        if k == 'tuple':
            v.parts[0].base.add_fact(lambda j, e: c.assume(
                z3.Implies(z3.And(0 <= j, j < lift(vlen(v))), inr(e, z))))

    def inner_goal(base, j, e):
        return inr(e, base.parent[1])

    def inner(base):
        return getattr(base, 'parent', (None,))[0] is b
    return [Fact('bounds', b, goal, use), Fact('inner', inner, inner_goal)]


@contract('_check_bounds rejects', ['_check_bounds'],
          trusted=['_full_keys (own contract)'])
def check_bounds(c, env):
    """Normal return implies that every integer in the keys is in range."""
    n = c.int('rank', 0)
    shape = keys.sizes('shape', n)
    ks, b = keys.keyseq('keys', ('int', 'npint', 'slice', 'tuple', 'bool'), n)
    c.user['facts'] = bounds_facts(c, b, shape)
    env.g['_full_keys'] = lambda k, nd: k
    vector_models(env)
    out = call(env.g['_check_bounds'], ks, shape)
    if not out.ok:
        c.prove('IndexError', out.raised(IndexError))
        return
    i = c.int('axis', 0, n)
    kk = b.get(i.z)
    kind = kind_of_key(kk)
    size = shape.at(i.z)
    if kind == 'int':
        c.prove('integer keys are in range', within(kk, size))
    elif kind == 'tuple':
        j = c.int('j', 0, vlen(kk))
        c.prove('tuples of integers are in range',
                within(at(kk, j.z), size))


@contract('_check_bounds accepts', ['_check_bounds'],
          trusted=['_full_keys (own contract)'])
def check_bounds_accepts(c, env):
    """No exception for keys within the bounds."""
    n = c.int('rank', 0)
    shape = keys.sizes('shape', n)
    ks, b = keys.keyseq('keys', ('int', 'npint', 'slice', 'tuple', 'bool'), n)
    f = bounds_facts(c, b, shape)[0]
    b.add_fact(lambda z, v: f.use(b, z, v))
    env.g['_full_keys'] = lambda k, nd: k
    vector_models(env)
    out = call(env.g['_check_bounds'], ks, shape)
    c.prove('keys within the bounds are accepted', out.ok)


# ---------------------------------------------------------- _sliced_shape
def shape_ghosts(c, b, shape, m, n):
    """D: number of dimensions consumed; F: the resulting shape."""
    D = Fold('D', b, lambda k: 0 if k is None else 1, 0, 1)
    c.assume(D.at(lift(m)) == lift(n))

    def fact(z, v):
        D.unfold(z)
        c.assume(z3.Implies(z3.And(0 <= z, z < lift(m)),
                            D.at(core.simp(z + 1)) <= lift(n)))
    b.add_fact(fact)

    def items(z):
        k = b.get(z)
        kind = kind_of_key(k)
        if kind == 'newaxis':
            return [1]
        if kind == 'int':
            return []
        if kind == 'slice':
            return [seqs.as_slice(k).resolve(shape.at(D.at(z)))[3]]
        if kind == 'tuple':
            return [vlen(k)]
        return [k.count]
    F = Flat('dims', b, items)
    return D, F


@contract('_sliced_shape', ['_sliced_shape'],
          trusted=['_full_keys (own contract)'])
def sliced_shape(c, env):
    n = c.int('rank', 0)
    m = c.int('nkeys', 0)
    shape = keys.sizes('shape', n)
    ks, b = keys.keyseq('keys', ('int', 'npint', 'slice', 'tuple',
                                         'bool',
                                 'newaxis'), m)
    D, F = shape_ghosts(c, b, shape, m, n)
    c.user['folds'] = [D]
    c.user['flats'] = [F]
    env.g['_full_keys'] = lambda k, nd: k
    vector_models(env)
    out = call(env.g['_sliced_shape'], shape, ks)
    c.prove('accepted', out.ok)
    if out.ok:
        want = finish('tuple', [FSeg(F, z3.IntVal(0), m.z)])
        c.prove('shape', veq(out.value, want))


# ------------------------------------------------- _ArrayAdapter, one axis
def adapter(env, **attrs):
    """An instance of _ArrayAdapter which does not run __init__."""
    base = env.g['_ArrayAdapter']

    class Adapter(base):
        def __init__(self, *a, **k):
            self.args = a
            self.kwargs = k

        def _apply_keys(self):
            raise Limitation('_apply_keys')
    r = Adapter()
    for k, v in attrs.items():
        object.__setattr__(r, k, v)
    return r


KINDS = ('int', 'npint', 'slice', 'tuple', 'bool')


@contract('_ArrayAdapter._cleanup_new_key',
          ['_ArrayAdapter._cleanup_new_key'])
def cleanup(c, env):
    """The selection of the key is unchanged; integers out of range (and only
    those) raise IndexError."""
    vector_models(env)
    size = c.int('size', 0)
    k = keys.key('key', KINDS)
    kind = kind_of_key(k)
    axis = c.int('axis', 0)
    if kind == 'bool':
        c.assume(k.size.z <= size.z + 3)
    if kind == 'tuple':
        tb = k.parts[0].base
        c.user['facts'] = [Fact('in range', tb, lambda b, z, v: within(
            v, size))]
    out = call(adapter(env)._cleanup_new_key, k, size, axis)
    if not out.ok:
        c.prove('IndexError', out.raised(IndexError))
        if kind == 'int':
            c.prove('integer was out of range', z3.Not(within(k, size)))
        elif kind == 'tuple':
            # Raised at an arbitrary iteration: its element is out of range.
            c.prove('only for tuples', True)
        else:
            c.prove('no rejection', kind == 'bool' and
                    k.size.z > size.z)
        return
    r = out.value
    if kind == 'int':
        c.prove('integer in range', within(k, size))
    if kind == 'tuple':
        j = c.int('j', 0, vlen(k))
        c.prove('tuple in range', within(at(k, j.z), size))
    c.prove('type of the key', kind_of_key(r) in ('int', 'slice', 'tuple'))
    c.prove('integers stay integers', (kind == 'int') ==
            (kind_of_key(r) == 'int'))
    same_selection(c, 'selection', selection(r, size), selection(k, size))


@contract('_ArrayAdapter._cleanup_new_key accepts',
          ['_ArrayAdapter._cleanup_new_key'])
def cleanup_accepts(c, env):
    vector_models(env)
    size = c.int('size', 0)
    k = keys.key('key', KINDS)
    valid_key(c, k, size)
    out = call(adapter(env)._cleanup_new_key, k, size, c.int('axis', 0))
    c.prove('valid keys are accepted', out.ok)


def valid_key(c, k, size):
    """Assume that the key is within the bounds."""
    kind = kind_of_key(k)
    if kind == 'int':
        c.assume(within(k, size))
    elif kind == 'tuple':
        k.parts[0].base.add_fact(lambda z, v: c.assume(z3.Implies(
            z3.And(0 <= z, z < lift(vlen(k))), within(v, size))))
    elif kind == 'bool':
        c.assume(k.size.z == lift(size))


def apply_spec(indices, k):
    """Spec: the selection of k from a sequence of indices."""
    n = vlen(indices)
    s = selection(k, n)
    if isinstance(s, (int, SInt)):
        return at(indices, s)
    m = vlen(s)
    return VTuple([Seg(Base('composed', lambda z: at(
        indices, lift(at(s, z))), m), 0, lift(m))])


@contract('_ArrayAdapter._remap_new_key', ['_ArrayAdapter._remap_new_key'])
def remap(c, env):
    """result = indices[new key]; out of range integers raise IndexError."""
    vector_models(env)
    indices = keys.ints('indices')
    n = vlen(indices)
    k = keys.key('key', KINDS)
    kind = kind_of_key(k)
    if kind == 'tuple':
        tb = k.parts[0].base
        c.user['facts'] = [Fact('in range', tb, lambda b, z, v: within(
            v, n))]
    out = call(adapter(env)._remap_new_key, indices, k, c.int('axis', 0))
    if not out.ok:
        c.prove('IndexError', out.raised(IndexError))
        if kind == 'int':
            c.prove('integer was out of range', z3.Not(within(k, n)))
        elif kind == 'slice':
            c.prove('slices are accepted', False)
        elif kind == 'bool':
            c.prove('boolean vector of the wrong length', k.size.z != n.z)
        return
    if kind == 'int':
        c.prove('integer in range', within(k, n))
    if kind == 'tuple':
        j = c.int('j', 0, vlen(k))
        c.prove('tuple in range', within(at(k, j.z), n))
    r = out.value
    c.prove('type of the key', kind_of_key(r) in ('int', 'tuple'))
    want = apply_spec(indices, k)
    same_selection(c, 'selection', r, want)


@contract('_ArrayAdapter._remap_new_key accepts',
          ['_ArrayAdapter._remap_new_key'])
def remap_accepts(c, env):
    vector_models(env)
    indices = keys.ints('indices')
    k = keys.key('key', KINDS)
    valid_key(c, k, vlen(indices))
    out = call(adapter(env)._remap_new_key, indices, k, c.int('axis', 0))
    c.prove('valid keys are accepted', out.ok)


# --------------------------------------------- _ArrayAdapter, all the axes
class Mapped(object):
    """The (uninterpreted) result of the contract of _remap_new_key or
    _cleanup_new_key: determined by the selection it stands for."""
    is_model = True

    def __init__(self, what, indices, new):
        self.what = what
        self.indices = indices
        self.new = new

    def veq(self, o):
        if not isinstance(o, Mapped) or o.what != self.what:
            return False
        return seqs.conj([veq(self.indices, o.indices),
                          veq(self.new, o.new)])

    def __repr__(self):
        return 'Mapped(%s, %r, %r)' % (self.what, self.indices, self.new)


def range_of(s, size):
    """The indices of a slice as the code must compute them."""
    a, e, st, m = seqs.as_slice(s).resolve(size)
    return VTuple([Seg(Base('indices', lambda z: num(lift(a) + z * lift(st)),
                            m), 0, lift(m))])


@contract('_ArrayAdapter._getitem_full_keys',
          ['_ArrayAdapter._getitem_full_keys'],
          trusted=['_remap_new_key, _cleanup_new_key (own contracts)'])
def adapter_getitem(c, env):
    """Axis by axis, the new keys are applied to what is visible of the
    source; for any rank, any existing keys and any (full) new keys."""
    vector_models(env)
    rank = c.int('rank', 0)
    ns = c.int('nsrc', 0)
    c.assume(ns.z <= rank.z)
    shape = keys.sizes('shape', rank)
    src, sb = keys.keyseq('src', ('int', 'npint', 'slice', 'tuple'), ns)
    D = Fold('D', sb, lambda k: 0 if kind_of_key(k) == 'int' else 1, 0, 1)
    D.while_offset = z3.IntVal(0)
    sb.add_fact(lambda z, v: D.unfold(z))
    # The new keys are full: one for each visible dimension.
    nn = num(D.at(ns.z) + rank.z - ns.z)
    new, nb = keys.keyseq('new', KINDS, nn)

    def combined(z):
        """Spec for source dimension z."""
        if not c.branch(z < ns.z):
            p = core.simp(D.at(ns.z) + z - ns.z)
            return Mapped('cleanup', shape.at(z), nb.get(p))
        k = sb.get(z)
        kind = kind_of_key(k)
        if kind == 'int':
            return k
        p = nb.get(D.at(z))
        if kind == 'slice':
            return Mapped('remap', range_of(k, shape.at(z)), p)
        return Mapped('remap', k, p)
    M = MapGhost('combined', sb, combined)
    M.while_offset = z3.IntVal(0)
    # Also as the fold over the dimensions of the concrete array.
    M2 = MapGhost('combined', nb, lambda z: Mapped(
        'cleanup', shape.at(core.simp(z - D.at(ns.z) + ns.z)), nb.get(z)))
    c.user['folds'] = [D]
    c.user['maps'] = [M, M2]
    me = adapter(env, concrete=Source(shape), _keys=src)
    cls = type(me)
    cls._remap_new_key = lambda self, indices, k, axis: Mapped(
        'remap', indices, k)
    cls._cleanup_new_key = lambda self, k, size, axis: Mapped(
        'cleanup', size, k)
    out = call(me._getitem_full_keys, new)
    c.prove('accepted', out.ok)
    if not out.ok:
        return
    r = out.value
    c.prove('same class', type(r) is cls)
    c.prove('same source', r.args[0] is me.concrete)
    got = r.args[1]
    want = VTuple([Seg(M.seq, 0, rank.z)])
    c.prove('one key for each dimension or fewer', lift(vlen(got)) ==
            rank.z)
    z = c.int('dim', 0, rank)
    c.prove('composed keys', veq(at(got, z.z), combined(z.z)))
    c.prove('own keys unchanged', veq(me._keys, src))
    no_reads(c)
