"""C01: the adapters of concrete arrays.

The composition of keys is in keylib, for any rank; here: the construction
(any rank), and the application of the keys to the source and the conversions
(bounded in the rank) on the pointwise model, in which sources have NumPy's or
orthogonal indexing."""
from contracts.arrays import *
from contracts.keylib import Mapped, KINDS


class Concrete(object):
    """A concrete data source: indexing it gives a section (an array)."""
    is_model = True
    __array_priority__ = 0

    def __init__(self, arr, ortho):
        self.arr = arr
        self.ortho = ortho
        self.shape = arr.shape
        self.dtype = arr.dtype
        self.reads = 0
        if arr.masked:
            self.fill_value = arr.fill_value

    @property
    def ndim(self):
        return len(self.shape)

    def __getitem__(self, ks):
        self.reads += 1
        if not self.ortho:
            return self.arr[ks]
        r = spec_index(self.arr, ks)
        full = expand(ks, self.ndim)
        if r.ndim == 0 and all(kind_of_key(k) == 'int' for k in full):
            # As NumPy: a scalar.
            return self.arr[tuple(full)]
        return r


def concrete(c, env, rank, ortho=False, what=None, name='source'):
    """An arbitrary concrete array."""
    what = what or c.among(['plain', 'masked', 'nomask'])
    shape = tuple(c.int('%s.size%d' % (name, d), 0) for d in range(rank))
    f, g = val_fn(name, rank), mask_fn(name + '.mask', rank)

    def get(i):
        i = tuple(core.simp(lift(x)) for x in i)
        v = f(*i) if rank else z3.Const(str(f.name()), z3.RealSort())
        if what == 'plain':
            return v, None
        if what == 'nomask':
            return v, z3.BoolVal(False)
        return v, (g(*i) if rank else z3.Const(str(g.name()),
                                               z3.BoolSort()))
    a = Arr(shape, get, c.among(TYPES) if rank <= 1 else TYPES[0],
            masked=what != 'plain', nomask=what == 'nomask', owner=name)
    if what != 'plain' and c.among([False, True]):
        a.fill_with = c.real('fill')
    return Concrete(a, ortho)


def valid_keys(c, shape, kinds, n):
    """What __init__ establishes of _keys."""
    out = []
    for d in range(n):
        k = keys.key('src%d' % d, kinds)
        kind = kind_of_key(k)
        if kind == 'int':
            c.assume(within(k, shape[d]))
        elif kind == 'tuple':
            # Fixes that no element is outside.
            size = shape[d]
            k.parts[0].base.add_fact(lambda z, v, k=k, size=size: c.assume(
                z3.Implies(z3.And(0 <= z, z < lift(vlen(k))),
                           within(v, size))))
            if c.branch(lift(vlen(k)) > 0):
                c.assume(lift(size) > 0)
            no_outside(c, k, size)
        out.append(k)
    return tuple(out)


def no_outside(c, rope, size):
    """It is known that no element of the rope is outside."""
    p, = rope.parts
    key = ('outside', id(p.base), str(p.lo), str(p.hi), str(lift(size)))
    c.user.setdefault('outside', {})[key] = False
    c.user.setdefault('keep', []).append(p)


def bare(cls, source, ks):
    """An instance with the given state."""
    r = cls.__new__(cls)
    r.concrete = source
    r._keys = ks
    return r


def filled_spec(a, fill):
    w = fill_real(fill)

    def get(i):
        v, m = a.get(i)
        return (v if m is None else z3.If(m, w, v)), None
    return a.like(get=get, masked=False, nomask=False)


def default_fill(dt):
    return np.ma.empty(0, dtype=dt).fill_value


def fill_of(source):
    return source.arr.fill_value if source.arr.masked else \
        default_fill(source.dtype)


def check_section(c, a, section, fill):
    """Both conversions of `a` are those of the section."""
    masked = c.among([False, True])
    got = convert(c, a, masked)
    if got is None:
        return
    want = section.like(scalar=False)
    if masked:
        same_array(c, got, want, True)
        if isinstance(got, Arr):
            c.prove('fill value of the result', fill_real(got.fill_value) ==
                    fill_real(fill))
    else:
        same_array(c, got, filled_spec(want, fill), False)


def again_section(c, a, section, fill):
    want = section.like(scalar=False)
    masked = c.among([False, True])
    out = call(a.masked_array if masked else a.ndarray)
    if c.prove('after: converts as before', out.ok):
        same_array(c, out.value, want if masked else
                   filled_spec(want, fill), masked, when='after: ')


# ------------------------------------------------------------ construction
@contract('_ArrayAdapter.__init__', ['_ArrayAdapter.__init__'],
          trusted=['_cleanup_new_key (own contract)'])
def adapter_init(c, env):
    """Each key is cleaned up for the size of its dimension; any rank."""
    vector_models(env)
    rank = c.int('rank', 0)
    shape = keys.sizes('shape', rank)
    source = Source(shape)
    base = env.g['_ArrayAdapter']

    class Adapter(base):
        def _apply_keys(self):
            raise Limitation('_apply_keys')

        def _cleanup_new_key(self, k, size, axis):
            return Mapped('cleanup', size, k)
    if c.among([False, True]):
        # A single key which is no tuple.
        k = keys.key('key', ('int', 'slice', 'bool'))
        c.assume(rank.z >= 1)
        out = call(Adapter, source, k)
        want = VTuple([Item(Mapped('cleanup', shape.at(z3.IntVal(0)), k))])
    else:
        n = c.int('nkeys', 0)
        ks, b = keys.keyseq('keys', KINDS, n)
        c.assume(n.z <= rank.z)
        M = MapGhost('cleaned', b, lambda z: Mapped(
            'cleanup', shape.at(z), b.get(z)))
        c.user['maps'] = [M]
        out = call(Adapter, source, ks)
        want = VTuple([Seg(M.seq, 0, n.z)])
    if not c.prove('accepted', out.ok, repr(out.exc)):
        return
    c.prove('the source is kept', out.value.concrete is source)
    c.prove('keys', veq(out.value._keys, want))
    no_reads(c)


@contract('_ArrayAdapter: shape, dtype, fill value',
          ['_ArrayAdapter.shape', '_ArrayAdapter.dtype',
           '_ArrayAdapter.fill_value', 'Array.fill_value'],
          trusted=['_sliced_shape (own contract)'])
def adapter_properties(c, env):
    vector_models(env)
    rank = c.int('rank', 0)
    shape = keys.sizes('shape', rank)
    dt = c.among(TYPES)
    source = Source(shape, dt)
    ks, b = keys.keyseq('keys', ('int', 'npint', 'slice', 'tuple'))
    c.assume(b.n.z <= rank.z if hasattr(b, 'n') else True)
    fill = c.among(['none', 'absent', 'given'])
    if fill == 'given':
        source.fill_value = c.real('fill')
    elif fill == 'absent':
        del source.fill_value
    a = bare(env.g['OrthoArrayAdapter'], source, ks)
    asked = []

    def sliced(s, k):
        asked.append((s, k))
        return Mapped('shape', s, k)
    env.g['_sliced_shape'] = sliced
    what = c.among(['shape', 'dtype', 'fill_value'])
    out = call(lambda: getattr(a, what))
    if not c.prove('no exception', out.ok, repr(out.exc)):
        return
    if what == 'shape':
        c.prove('shape', isinstance(out.value, Mapped) and veq(
            out.value, Mapped('shape', shape, ks)))
    elif what == 'dtype':
        c.prove('dtype', out.value == dt)
    elif fill == 'given':
        c.prove('fill value', out.value is source.fill_value)
    else:
        c.prove('fill value', bool(out.value == default_fill(dt)))
    no_reads(c)


# --------------------------------------------------------- applying the keys
SRC = ('int', 'npint', 'slice', 'tuple')


def apply_case(c, env, ortho):
    install(env)
    rank = c.among([0, 1, 2, 3])
    source = concrete(c, env, rank, ortho, what=None if rank <= 1 else
                      c.among(['plain', 'masked']))
    kinds = SRC if rank <= 1 else ('int', 'slice', 'tuple')
    ks = valid_keys(c, source.shape, kinds, c.among(range(rank + 1)))
    cls = env.g['OrthoArrayAdapter' if ortho else 'NumpyArrayAdapter']
    a = bare(cls, source, ks)
    out = call(a._apply_keys)
    if not c.prove('no exception', out.ok, repr(out.exc)):
        return
    got = out.value
    want = spec_index(source.arr, ks)
    if got is np.ma.masked:
        c.prove('a masked scalar', source.arr.masked and not want.shape and
                want.get(())[1])
        return
    if not c.prove('an array', isinstance(got, Arr)):
        return
    if not got.masked and source.arr.masked:
        c.prove('only scalars lose the mask', got.scalar)
        want = want.like(get=lambda i: (want_get(i)[0], None), masked=False)
        want_get = spec_index(source.arr, ks).get
        c.prove('the scalar is not masked', z3.Not(want_get(())[1]))
    got = got.like(scalar=False)
    same_array(c, got, want, want.masked)


@contract('NumpyArrayAdapter._apply_keys', ['NumpyArrayAdapter._apply_keys'],
          bound='rank at most 3; sizes, keys and values unbounded')
def numpy_apply(c, env):
    """The section is selected orthogonally although the source combines
    vectors (NumPy's rules)."""
    apply_case(c, env, False)


@contract('OrthoArrayAdapter._apply_keys', ['OrthoArrayAdapter._apply_keys'],
          bound='rank at most 3; sizes, keys and values unbounded')
def ortho_apply(c, env):
    apply_case(c, env, True)


@contract('_ArrayAdapter: conversion of the section',
          ['_ArrayAdapter._concrete_section', '_ArrayAdapter.ndarray',
           '_ArrayAdapter.masked_array'],
          bound='rank at most 3',
          trusted=['_apply_keys (own contract)'])
def adapter_convert(c, env):
    """Scalars become 0-dimensional arrays; ma.masked keeps dtype and fill
    value; unmasked sections become masked arrays and the reverse."""
    install(env)
    rank = c.among([0, 1, 2, 3])
    source = concrete(c, env, rank)
    ks = tuple(c.int('i%d' % d, 0) for d in range(rank)) if rank and c.among(
        [False, True]) else ()
    for k, n in zip(ks, source.shape):
        c.assume(k.z < lift(n))
    want = spec_index(source.arr, ks)
    section = source.arr[ks] if ks or c.among([False, True]) else want
    cls = c.among(['NumpyArrayAdapter', 'OrthoArrayAdapter'])

    class Adapter(env.g[cls]):
        def _apply_keys(self):
            return section
    a = bare(Adapter, source, ks)
    check_section(c, a, want, fill_of(source))


# ------------------------------------------------------------ end to end
def end_to_end(c, env, ortho):
    """An adapter with arbitrary keys, indexed by any keys, converted."""
    install(env)
    rank = c.among([0, 1, 2] if c.tier == 'thorough' else [0, 1])
    source = concrete(c, env, rank, ortho,
                      what=None if rank == 0 else 'masked')
    src = valid_keys(c, source.shape, ('int', 'slice', 'tuple'),
                     c.among(range(rank + 1)))
    cls = env.g['OrthoArrayAdapter' if ortho else 'NumpyArrayAdapter']
    a = bare(cls, source, src)
    spec = spec_index(source.arr, src)
    if rank <= 1:
        ks = keys_for(c, spec.ndim, ('int', 'slice', 'tuple', 'bool',
                                     'newaxis'))
    else:
        ks = keys_for(c, spec.ndim, ('int', 'slice', 'tuple'), False, False)
    d = 0
    sizes = {}
    for k in expand(ks, spec.ndim):
        if kind_of_key(k) == 'tuple':
            sizes[k.parts[0].base] = spec.shape[d]
        d += kind_of_key(k) != 'newaxis'
    # After the checks of a tuple all its elements are within.
    c.user['facts'] = [Fact('in range', lambda b: b in sizes,
                            lambda b, z, v: within(v, sizes[b]),
                            lambda b, z, v: c.assume(within(v, sizes[b])))]
    out = call(lambda: a[ks])
    try:
        want = spec_index(spec, ks)
    except IndexError:
        want = None
    c.prove('nothing is read', source.reads == 0)
    c.prove('own keys unchanged', veq(a._keys, src))
    if want is None:
        c.prove('an index out of range is rejected', not out.ok)
        return
    if not c.prove('a valid index is accepted', out.ok, repr(out.exc)):
        return
    c.user['reads'] = source.reads
    asked(c, out.value)
    check_section(c, out.value, want, fill_of(source))
    if c.user.get('again'):
        if c.among([False, True]):
            again_section(c, a, spec, fill_of(source))
        else:
            again_section(c, out.value, want, fill_of(source))


@contract('NumpyArrayAdapter: indexing and conversion',
          ['Array.__getitem__', '_ArrayAdapter._getitem_full_keys',
           '_ArrayAdapter.__init__', '_ArrayAdapter._remap_new_key',
           '_ArrayAdapter._cleanup_new_key', 'NumpyArrayAdapter._apply_keys',
           '_ArrayAdapter.ndarray', '_ArrayAdapter.masked_array'],
          bound='rank at most 1 (thorough: 2)')
def numpy_end(c, env):
    end_to_end(c, env, False)


@contract('OrthoArrayAdapter: indexing and conversion',
          ['Array.__getitem__', '_ArrayAdapter._getitem_full_keys',
           '_ArrayAdapter.__init__', '_ArrayAdapter._remap_new_key',
           '_ArrayAdapter._cleanup_new_key', 'OrthoArrayAdapter._apply_keys',
           '_ArrayAdapter.ndarray', '_ArrayAdapter.masked_array'],
          bound='rank at most 1 (thorough: 2)')
def ortho_end(c, env):
    end_to_end(c, env, True)


CONTRACTS = [adapter_init, adapter_properties, numpy_apply, ortho_apply,
             adapter_convert, numpy_end, ortho_end]
