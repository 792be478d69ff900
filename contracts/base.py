"""What every Array declares of itself (any rank), and ensure_array."""
from contracts.arrays import *
from contracts.aggr import DTYPES, Opaque, abstract, no_conversion


class Products(object):
    """1, n0, n0 * n1, ...: the products of the first sizes."""

    def __init__(self, c, shape):
        self.c = c
        self.shape = shape
        self.f = z3.Function(c.fresh_name('product'), z3.IntSort(),
                             z3.IntSort())
        c.assume(self.f(z3.IntVal(0)) == 1)

    def at_(self, k):
        k = core.simp(k)
        self.c.assume(z3.Implies(k >= 0, self.f(k) >= 0))
        return self.f(k)

    def accepts(self, loop, v0):
        return isinstance(v0, (int, np.integer)) and \
            not isinstance(v0, bool)

    def at(self, loop, v0, k):
        if not loop.assuming:
            j = core.simp(k - 1)
            self.c.assume(self.at_(k) == self.at_(j) *
                          lift(self.shape.at(j)))
        return num(core.simp(int(v0) * self.at_(k)))


def declared(env, shape, dtype):
    """An array which only declares its shape and dtype."""
    Array = env.g['Array']

    class Declared(Array):
        is_model = True
        read = False

        def _no(self, *a):
            Declared.read = True
            raise raises(ReadError('conversion'))
        ndarray = masked_array = _getitem_full_keys = _no

        @property
        def shape(self):
            return shape

        @property
        def dtype(self):
            return dtype
    return Declared()


@contract('Array.nbytes', ['Array.nbytes'])
def nbytes(c, env):
    """The size of an item times the sizes of all the dimensions, for virtual
    arrays of any size."""
    install(env)
    n = c.int('rank', 0)
    shape = keys.sizes('shape', n)
    dt = c.among(DTYPES)
    P = Products(c, shape)
    c.user['ghosts'] = [P]
    a = declared(env, shape, dt)
    out = call(lambda: a.nbytes)
    if not c.prove('asking does not raise', out.ok, repr(out.exc)):
        return
    c.prove('the product of the sizes', isinstance(out.value, (int, SInt)) and
            lift(out.value) == dt.itemsize * P.at_(n.z))
    c.prove('nothing is read', not a.read)


@contract('Array.ndim', ['Array.ndim'])
def ndim(c, env):
    vector_models(env)
    n = c.int('rank', 0)
    a = declared(env, keys.sizes('shape', n), np.dtype('f8'))
    out = call(lambda: a.ndim)
    c.prove('the number of dimensions', out.ok and veq(out.value, n))
    c.prove('nothing is read', not a.read)


@contract('Array.fill_value', ['Array.fill_value'])
def fill_value(c, env):
    dt = c.among(DTYPES)
    a = declared(env, keys.sizes('shape', c.int('rank', 0)), dt)
    out = call(lambda: a.fill_value)
    c.prove('the fill value of the dtype', out.ok and bool(
        out.value == np.ma.empty(0, dt).fill_value))
    c.prove('nothing is read', not a.read)


@contract('repr and str of an Array', ['Array.__repr__', 'Array.__str__'],
          trusted=['size (own contract)'])
def texts(c, env):
    vector_models(env)
    a = declared(env, keys.sizes('shape', c.int('rank', 0)),
                 c.among(DTYPES))
    env.g['size'] = lambda x: 'the size' if x is a else None
    out = call(c.among([repr, str]), a)
    c.prove('asking does not raise', out.ok, repr(out.exc))
    c.prove('nothing is read', not a.read)


@contract('size', ['size'])
def size(c, env):
    """Any number of bytes: the unit is the largest of which there is one."""
    n = c.int('nbytes', 0)

    class Sized(object):
        nbytes = n
    out = call(env.g['size'], Sized())
    if not c.prove('asking does not raise', out.ok, repr(out.exc)):
        return
    t = str(out.value)
    units = ['B', 'KiB', 'MiB', 'GiB', 'TiB']
    unit = t.split()[-1]
    if not c.prove('a unit', unit in units):
        return
    i = units.index(unit)
    c.prove('the unit', z3.And(n.z >= (1024 ** i if i else 0),
                               z3.BoolVal(True) if i == 4 else
                               n.z < 1024 ** (i + 1)))


@contract('ensure_array', ['ensure_array', 'ConstantArray.__init__'])
def ensure(c, env):
    """Arrays stay, ndarrays are adapted, scalars become constants; anything
    else is a TypeError.  Nothing is read."""
    install(env)
    g = env.g
    kind = c.among(['array', 'ndarray', 'masked', 'scalar', 'other'])
    if kind == 'array':
        a = declared(env, keys.sizes('shape'), np.dtype('f8'))
        out = call(g['ensure_array'], a)
        c.prove('the array itself', out.ok and out.value is a)
        c.prove('nothing is read', not a.read)
    elif kind in ('ndarray', 'masked'):
        rank = c.among([0, 1, 2])
        reads = []

        def get(i):
            reads.append(i)
            return z3.RealVal(0), None
        a = Arr(tuple(c.int('size%d' % d, 0) for d in range(rank)), get,
                np.dtype('f8'), masked=kind == 'masked')
        out = call(g['ensure_array'], a)
        if c.prove('accepted', out.ok, repr(out.exc)):
            r = out.value
            c.prove('an adapter of the ndarray',
                    isinstance(r, g['NumpyArrayAdapter']) and
                    r.concrete is a and vlen(r._keys) == 0)
        c.prove('nothing is read', not reads)
    elif kind == 'scalar':
        s = c.among([0, -3, 2.5, True, np.float32(1), np.int64(4)])
        out = call(g['ensure_array'], s)
        if c.prove('accepted', out.ok, repr(out.exc)):
            r = out.value
            c.prove('a constant', isinstance(r, g['ConstantArray']) and
                    vlen(r.shape) == 0 and
                    r.dtype == np.array([s]).dtype)
            got = convert(c, r, False)
            c.prove('its value', got is not None and
                    core.simp(got.get(())[0] == z3.RealVal(repr(float(s)))))
    else:
        x = c.among(['other', None, (), object()])
        out = call(g['ensure_array'], x)
        if isinstance(x, str):
            return
        c.prove('TypeError', out.raised(TypeError))


DECLARED = [nbytes, ndim]
ASKED = [nbytes, ndim, fill_value, texts, size]
