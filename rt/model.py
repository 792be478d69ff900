"""Expressions over biggus arrays as JSON, with their NumPy denotation.

Runs under /opt/venv/bin/python (PyPy, numpy 1.19) with PYTHONPATH=/repo.
Nothing here looks at biggus internals other than the class names an
expression needs to be built; denotations use NumPy alone.

expr := ["np", {"shape":[..],"dtype":"f8","mask":0|1|2,"seed":k}]
      | ["ortho", {... same ...}]
      | ["const", shape, value, dtype]
      | ["T", e, axes|null] | ["newaxes", e, [..]] | ["bcast", e, {ax:n}, [..]]
      | ["astype", e, dt] | ["maskeq", e, v]
      | ["stack", shape, [e..]] | ["mdstack", shape, order, [e..]]
      | ["mosaic", [e..], axis] | ["agg", name, e, axis, {kw}]
      | ["ew", fname, [operand..]] | ["op", opname, [operand..]]
      | ["ix", e, keys] | ["ref", n]  (n-th shared sub-expression)
operand := e | ["py", number] | ["nps", number, dtype] | ["nd", {...}]
keys := [k..] | {"bare": k};  k := {"i":3}|{"I":3 numpy int}|{"s":[a,b,c]}|
        {"t":[..]}|{"b":[0/1..]}|{"a":[..] int ndarray}|"n"|"e"
"""
from __future__ import absolute_import, division, print_function
import warnings
import numpy as np
import numpy.ma as ma

import biggus
import biggus._init as bi

warnings.simplefilter('ignore')
np.seterr(all='ignore')

NAXES = {'keys': None}


DRAWN = {}


def drawn(seed, n, lo=None, hi=None):
    """n random numbers (making a RandomState is slow)."""
    key = seed, lo, hi
    if key not in DRAWN or len(DRAWN[key]) < n:
        rs = np.random.RandomState(seed)
        size = max(n, 256)
        DRAWN[key] = rs.rand(size) if lo is None else rs.randint(
            lo, hi, size=size)
    return DRAWN[key][:n].copy()


def make_data(spec):
    shape = tuple(spec['shape'])
    dt = np.dtype(spec.get('dtype', 'f8'))
    seed = spec.get('seed', 0)
    n = int(np.prod(shape)) if shape else 1
    kind = spec.get('kind', 'uniq')
    if 'values' in spec:
        vals = np.array(spec['values'])
    elif kind == 'uniq':
        base = 37 * seed
        vals = (np.arange(n) * 7 + base) % max(n * 5 + 1, 101)
        if dt.kind in 'iu' and dt.itemsize == 1:
            vals = vals % 100
        if dt.kind in 'f':
            vals = vals * 0.5 - 3
        elif dt.kind == 'i':
            vals = vals - 5
    elif kind == 'small':
        vals = drawn(seed + 1, n, 1, 5)
    elif kind == 'near':    # numbers which are close to small integers
        vals = drawn(seed + 1, n, 0, 3) + np.array([0, 1e-7, 1e-12, -1e-7])[
            drawn(seed + 2, n, 0, 4)]
    elif kind == 'mid':
        vals = drawn(seed + 1, n, 20, 120)
    else:
        vals = drawn(seed + 1, n, -50, 50)
        if dt.kind == 'u':
            vals = vals + 50
        if dt.kind == 'f':
            vals = vals / 4.
        if kind == 'nan' and n:
            vals = np.where(drawn(seed + 2, n) < .3, np.nan, vals)
    if dt.kind == 'c':
        vals = vals + 1j * (vals[::-1] % 7)
    data = np.array(vals).astype(dt).reshape(shape)
    m = spec.get('mask', 0)
    if m:
        if 'maskbits' in spec:
            mask = np.array(spec['maskbits'], dtype=bool).reshape(shape)
        elif m == 1:
            mask = (drawn(seed + 100, n).reshape(shape) < 0.35 if shape
                    else np.array(bool(seed % 2)))
        elif m == 2:
            mask = np.ones(shape, dtype=bool)
        elif m == 3:       # masked array without a mask
            return ma.masked_array(data)
        else:
            mask = np.zeros(shape, dtype=bool)
        data = ma.masked_array(data, mask=mask)
    return data


class Concrete(object):
    """A source which logs reads and never supports anything else."""

    def __init__(self, data, ortho=False, fail_at=None):
        self.data = data
        self.ortho = ortho
        self.reads = []
        self.shape = data.shape
        self.dtype = data.dtype
        self.ndim = data.ndim
        self.fail_at = fail_at
        self.error = InjectedError
        if ma.isMaskedArray(data):
            self.fill_value = data.fill_value

    def __getitem__(self, keys):
        self.reads.append(keys)
        if self.fail_at is not None and len(self.reads) > self.fail_at:
            raise self.error('injected read failure')
        if self.ortho:
            return oindex(self.data, keys)
        return self.data[keys]


class InjectedError(Exception):
    pass


class Skip(Exception):
    """The case lies outside the domain of the law."""


class InvalidIndex(Exception):
    """Raised by the oracle where NumPy refuses the index."""


# ---------------------------------------------------------------- oracle
def oexpand(keys, ndim):
    """Full tuple of keys with Ellipsis expanded; newaxis kept."""
    if not isinstance(keys, tuple):
        keys = (keys,)
    n_ell = sum(1 for k in keys if k is Ellipsis)
    n_real = sum(1 for k in keys if k is not Ellipsis and k is not None)
    if n_ell > 1:
        raise InvalidIndex('more than one ellipsis')
    if n_real > ndim:
        raise InvalidIndex('too many indices')
    out = []
    fill = [slice(None)] * (ndim - n_real)
    for k in keys:
        if k is Ellipsis:
            out.extend(fill)
            fill = []
        else:
            out.append(k)
    return tuple(out + fill)


def is_int(k):
    return isinstance(k, (int, np.integer)) and not isinstance(k, bool)


def axis_indices(k, n):
    """List of selected positions of an axis of length n, or an int."""
    if is_int(k):
        k = int(k)
        if not -n <= k < n:
            raise InvalidIndex('out of range')
        return k + n if k < 0 else k
    if isinstance(k, slice):
        return list(range(*k.indices(n)))
    if isinstance(k, np.ndarray) and k.dtype == bool:
        if k.shape != (n,):
            raise InvalidIndex('boolean length')
        return [i for i in range(n) if k[i]]
    if isinstance(k, (tuple, list, np.ndarray)):
        out = []
        for v in k:
            v = int(v)
            if not -n <= v < n:
                raise InvalidIndex('out of range')
            out.append(v + n if v < 0 else v)
        return out
    raise InvalidIndex('key type')


def oindex(arr, keys):
    """Orthogonal indexing by repeated take; ndarray or MaskedArray."""
    if arr is None:        # no masked equivalent
        return None
    keys = oexpand(keys, arr.ndim)
    sel = []
    ax = 0
    for k in keys:
        if k is None:
            sel.append(None)
        else:
            sel.append(axis_indices(k, arr.shape[ax]))
            ax += 1

    def app(a):
        # highest axis first, so that removed axes do not matter
        axes = [s for s in sel if s is not None or False]
        for axis in range(len(axes) - 1, -1, -1):
            s = axes[axis]
            if isinstance(s, list):
                a = np.take(a, np.array(s, dtype=int), axis=axis)
            else:
                a = np.take(a, s, axis=axis)
        a = np.asarray(a, dtype=arr.dtype)
        out = []
        it = iter(a.shape)
        for s in sel:
            if s is None:
                out.append(1)
            elif isinstance(s, list):
                out.append(next(it))
        return a.reshape(tuple(out))
    if ma.isMaskedArray(arr):
        return ma.masked_array(app(arr.data), mask=app(ma.getmaskarray(arr)),
                               fill_value=arr.fill_value)
    return app(np.asarray(arr))


def dec_key(k):
    if k == 'n':
        return None
    if k == 'e':
        return Ellipsis
    (t, v), = k.items()
    if t == 'i':
        return int(v)
    if t == 'I':
        return np.int64(v)
    if t == 's':
        return slice(*v)
    if t == 't':
        return tuple(v)
    if t == 'b':
        return np.array(v, dtype=bool)
    if t == 'a':
        return np.array(v, dtype=int)
    if t == 'l':
        return list(v)
    if t == 'str':
        return v
    if t == 'f':
        return float(v)
    raise ValueError(k)


def dec_keys(keys):
    if isinstance(keys, dict):
        return dec_key(keys['bare'])
    return tuple(dec_key(k) for k in keys)


# ---------------------------------------------------------- construction
class Env(object):
    """Builds an expression twice: as a biggus array, and as NumPy."""

    def __init__(self, shared=(), wrap=None):
        self.loose = False
        self.rounds = False         # scalars promoted by value
        self.skip_nd = False       # no exact answer for the plain data
        self.shared = list(shared)
        self.cache_b = {}
        self.cache_d = {}
        self.sources = []          # (concrete or ndarray, pristine copy)
        self.wrap = wrap           # f(data, ortho) -> concrete
        self.by_id = {}

    # -- biggus side
    def source(self, spec, ortho):
        data = make_data(spec)
        if self.wrap is not None:
            conc = self.wrap(data, ortho)
        elif ortho:
            conc = Concrete(data, ortho=True)
        else:
            conc = data
        self.sources.append((conc, data, data.copy()))
        return conc

    def build(self, e):
        op = e[0]
        if op == 'ref':
            if e[1] not in self.cache_b:
                self.cache_b[e[1]] = self.build(self.shared[e[1]])
            return self.cache_b[e[1]]
        if op == 'np':
            return biggus.NumpyArrayAdapter(self.source(e[1], False))
        if op == 'ortho':
            return biggus.OrthoArrayAdapter(self.source(e[1], True))
        if op == 'const':
            return biggus.ConstantArray(tuple(e[1]), e[2], e[3])
        if op == 'T':
            a = self.build(e[1])
            return a.transpose() if e[2] is None else a.transpose(e[2])
        if op == 'newaxes':
            return bi.NewAxesArray(self.build(e[1]), list(e[2]))
        if op == 'bcast':
            d = {int(k): v for k, v in dict(e[2]).items()}
            return biggus.BroadcastArray(self.build(e[1]), d, tuple(e[3]))
        if op == 'astype':
            return self.build(e[1]).astype(np.dtype(e[2]))
        if op == 'maskeq':
            return biggus.masked_equal(self.build(e[1]), e[2])
        if op == 'stack':
            items = [self.build(x) for x in e[2]]
            st = np.empty(len(items), dtype='O')
            for i, x in enumerate(items):
                st[i] = x
            if len(e[1]) == 1 and len(items) % 2:
                return biggus.ArrayStack(items)     # a list will do
            return biggus.ArrayStack(st.reshape(tuple(e[1])))
        if op == 'mdstack':
            items = [self.build(x) for x in e[3]]
            st = np.empty(len(items), dtype='O')
            for i, x in enumerate(items):
                st[i] = x
            return biggus.ArrayStack.multidim_array_stack(
                items if len(items) % 2 else st, tuple(e[1]), e[2])
        if op == 'mosaic':
            return biggus.LinearMosaic([self.build(x) for x in e[1]], e[2])
        if op == 'agg':
            return getattr(biggus, e[1])(self.build(e[2]), axis=e[3],
                                         **e[4])
        if op in ('ew', 'op'):
            args = [self.operand(x) for x in e[2]]
            return apply_op(op, e[1], args, biggus)
        if op == 'ix':
            return self.build(e[1])[dec_keys(e[2])]
        raise ValueError(op)

    def operand(self, x):
        if x[0] == 'py':
            return x[1]
        if x[0] == 'nps':
            return np.dtype(x[2]).type(x[1])
        if x[0] == 'nd':
            data = make_data(x[1])
            self.sources.append((data, data, data.copy()))
            return data
        return self.build(x)

    # -- NumPy side: (ndarray, masked array)
    def denote(self, e):
        op = e[0]
        if (op in ('ew', 'op') and e[1] in JUMPS or op == 'maskeq' or
                op == 'astype' and e[2][0] in 'iub') and has_agg(
                    [e, self.shared], ('mean', 'std', 'var', 'sum')):
            raise Skip('a discontinuous function of a rounded value')
        if (op == 'ew' and e[1] in JUMPS or op == 'maskeq' or
                op == 'astype' and e[2][0] in 'iub') and has_ew(
                    [e[1:], self.shared], FUZZY):
            raise Skip('a discontinuous function of a rounded value')
        if op == 'ref':
            if e[1] not in self.cache_d:
                self.cache_d[e[1]] = self.denote(self.shared[e[1]])
            return self.cache_d[e[1]]
        if op in ('np', 'ortho'):
            data = make_data(e[1])
            if ma.isMaskedArray(data):
                return np.array(data.filled()), data
            return data, ma.masked_array(data)
        if op == 'const':
            dt = np.array([e[2]], dtype=e[3]).dtype
            a = np.full(tuple(e[1]), e[2], dtype=dt)
            return a, ma.masked_array(a)
        if op == 'T':
            a, m = self.denote(e[1])
            return (a.transpose(e[2]),
                    None if m is None else m.transpose(e[2]))
        if op == 'newaxes':
            a, m = self.denote(e[1])
            shape = []
            for i in range(a.ndim + 1):
                shape += [1] * e[2][i]
                if i < a.ndim:
                    shape.append(a.shape[i])
            return a.reshape(shape), mreshape(m, shape)
        if op == 'bcast':
            a, m = self.denote(e[1])
            d = {int(k): v for k, v in dict(e[2]).items()}
            # axes are those of the array as given
            for k in d:
                if not 0 <= k < a.ndim or a.shape[k] != 1:
                    raise InvalidIndex('broadcast axis')
            shape = tuple(e[3]) + tuple(d.get(i, n)
                                        for i, n in enumerate(a.shape))
            return np.broadcast_to(a, shape), mbroadcast(m, shape)
        if op == 'astype':
            a, m = self.denote(e[1])
            if a.dtype.kind == 'M':
                raise Skip('times as numbers')
            return a.astype(e[2]), None if m is None else m.astype(e[2])
        if op == 'maskeq':
            a, m = self.denote(e[1])
            if self.loose:
                raise Skip('a discontinuous function of a rounded value')
            if a.dtype.kind == 'M':
                raise Skip('a time compared with a number')
            if m is None:
                return a, None
            return a, ma.masked_array(m.data, mask=ma.getmaskarray(m) |
                                      (m.data == e[2]))
        if op in ('stack', 'mdstack'):
            items = [self.denote(x) for x in (e[2] if op == 'stack'
                                              else e[3])]
            if any(m is None for a, m in items):
                raise Skip('no masked form')
            order = 'C' if op == 'stack' else e[2]
            shape = tuple(e[1])
            ish = items[0][0].shape
            nd = np.empty(shape + ish, dtype=items[0][0].dtype)
            md = np.empty(shape + ish, dtype=items[0][1].dtype)
            mm = np.zeros(shape + ish, dtype=bool)
            for i, (a, m) in enumerate(items):
                pos = np.unravel_index(i, shape, order=order.upper())
                nd[pos] = a
                md[pos] = m.data
                mm[pos] = ma.getmaskarray(m)
            return nd, ma.masked_array(md, mask=mm)
        if op == 'mosaic':
            items = [self.denote(x) for x in e[1]]
            if any(m is None for a, m in items):
                raise Skip('no masked form')
            ax = e[2]
            # (np.concatenate gives native byte-order.)
            nd = np.concatenate([a for a, m in items], axis=ax).astype(
                items[0][0].dtype)
            md = np.concatenate([m.data for a, m in items], axis=ax).astype(
                items[0][1].dtype)
            mm = np.concatenate([ma.getmaskarray(m) for a, m in items],
                                axis=ax)
            return nd, ma.masked_array(md, mask=mm)
        if op == 'agg':
            a, m = self.denote(e[2])
            if e[1] in ('std', 'var') and not np.isfinite(a).all():
                raise Skip('infinite')
            if e[1] in ('std', 'var') and a.size and \
                    a.dtype.kind == 'f' and np.abs(a).max() > (
                        1e16 if a.dtype.itemsize < 8 else 1e140):
                raise Skip('the squares overflow')
            if e[1] not in ('count', 'min', 'max') and a.size and \
                    a.dtype.kind == 'f' and np.nanmax(np.abs(a)) >= (
                        1e12 if e[1] in ('sum', 'mean') else 1e6):
                # Rounding (of the fill values, say) dominates.
                self.skip_nd = True
            if e[1] in ('mean', 'std', 'var') and a.size and \
                    a.dtype.kind in 'iu' and a.dtype.itemsize == 8:
                # (Not np.abs, which is negative for the lowest number.)
                if max(abs(int(a.min())), abs(int(a.max()))) > 1e7:
                    self.skip_nd = True
                d = a if m is None else m.compressed()
                if d.size and max(abs(int(d.min())), abs(int(d.max()))) > 1e7:
                    raise Skip('rounding of large integers')
            return agg_nd(e[1], a, e[3], e[4]), agg_ma(e[1], m, e[3], e[4])
        if op in ('ew', 'op'):
            nds, mas = [], []
            for x in e[2]:
                if x[0] == 'py':
                    nds.append(x[1])
                    mas.append(x[1])
                elif x[0] == 'nps':
                    v = np.dtype(x[2]).type(x[1])
                    nds.append(v)
                    mas.append(v)
                elif x[0] == 'nd':
                    d = make_data(x[1])
                    nds.append(np.array(d.filled()) if ma.isMaskedArray(d)
                               else d)
                    mas.append(d if ma.isMaskedArray(d)
                               else ma.masked_array(d))
                else:
                    a, m = self.denote(x)
                    nds.append(a)
                    mas.append(m)
            # A Python number on the right of an array is promoted by value.
            exact = len(nds) == 2 and np.ndim(nds[0]) and \
                e[2][0][0] not in ('py', 'nps') and \
                e[2][1][0] == 'py' and type(e[2][1][1]) in (int, float)
            self.rounds = self.rounds or exact
            if len(nds) > 1 and not exact and any(
                    np.ndim(x) == 0 for x in nds):
                # NumPy promotes scalars by value: only the declared dtype
                # is specified.
                self.loose = True
                if len(set(np.asarray(x).dtype for x in nds)) > 1 and \
                        any(x[0] not in ('py', 'nps') and np.ndim(v) == 0
                            for x, v in zip(e[2], nds)):
                    raise Skip('promotion by value')
            if e[1] in WILD and has_agg(
                    [e, self.shared], ('mean', 'std', 'var', 'sum')) and not \
                    all(np.all(np.abs(x) < 10) for x in nds):
                raise Skip('amplifies rounding')
            nd, m = denote_op(op, e[1], nds, mas)
            if self.loose and nd.dtype.kind in 'iu' and nd.size:
                big = np.asarray(denote_op(op, e[1], [
                    np.asarray(x, dtype='f8') for x in nds], nds)[0])
                info = np.iinfo(nd.dtype)
                if not np.all((big < info.max) & (big >= info.min)):
                    raise Skip('overflow')
            if self.loose and nd.dtype.kind in 'fc' and \
                    nd.dtype.itemsize < 8 and not np.isfinite(nd).all():
                raise Skip('overflow')
            return nd, m
        if op == 'ix':
            a, m = self.denote(e[1])
            k = dec_keys(e[2])
            return oindex(a, k), oindex(m, k)
        raise ValueError(op)


def mreshape(m, shape):
    if m is None:
        return None
    return ma.masked_array(m.data.reshape(shape),
                           mask=ma.getmaskarray(m).reshape(shape),
                           fill_value=m.fill_value)


def mbroadcast(m, shape):
    if m is None:
        return None
    return ma.masked_array(np.broadcast_to(m.data, shape),
                           mask=np.broadcast_to(ma.getmaskarray(m), shape),
                           fill_value=m.fill_value)


# ------------------------------------------------------------ aggregation
def agg_nd(name, a, axis, kw):
    if not -a.ndim <= axis < a.ndim:
        raise InvalidIndex('axis')
    if a.dtype.kind not in 'iuf' and name != 'count':
        raise Skip('statistics of numbers')
    if name == 'count':
        return np.full(np.delete(np.array(a.shape, dtype=int),
                                 axis % a.ndim).astype(int),
                       a.shape[axis], dtype='i')
    if name == 'sum':
        return np.asarray(np.sum(a, axis=axis, dtype=a.dtype))
    if name in ('min', 'max'):
        return np.asarray(getattr(np, name)(a, axis=axis))
    rdt = (np.zeros(1, a.dtype) / 1.).dtype
    kw = {k: v for k, v in kw.items() if k == 'ddof'}
    r = getattr(np, name)(a.astype('f8'), axis=axis, **kw)
    return np.asarray(r).astype(rdt)


def agg_ma(name, m, axis, kw):
    """Statistic of the unmasked elements, written out by counting."""
    if m is None:
        return None
    if not -m.ndim <= axis < m.ndim:
        raise InvalidIndex('axis')
    mask = ma.getmaskarray(m)
    n = m.shape[axis]
    cnt = (~mask).sum(axis=axis)
    none = cnt == 0
    d = m.data
    if name == 'count':
        return ma.masked_array(cnt.astype('i'))
    if name == 'sum':
        s = np.where(mask, np.zeros((), d.dtype), d).sum(axis=axis,
                                                         dtype=d.dtype)
        return ma.masked_array(s, mask=none)
    if name in ('min', 'max'):
        if d.dtype.kind == 'f':
            ext = np.inf if name == 'min' else -np.inf
        else:
            ii = np.iinfo(d.dtype)
            ext = ii.max if name == 'min' else ii.min
        s = getattr(np, name)(np.where(mask, np.array(ext, d.dtype), d),
                              axis=axis)
        return ma.masked_array(s, mask=none)
    rdt = (np.zeros(1, d.dtype) / 1.).dtype
    x = np.where(mask, 0., d.astype('f8'))
    mean = x.sum(axis=axis) / np.where(none, 1, cnt)
    if name == 'mean':
        mask_out = np.array(none)
        mdtol = kw.get('mdtol', 1)
        if mdtol < 1 and n:
            frac = (n - cnt) / float(n)
            mask_out = mask_out | (frac > mdtol)
        return ma.masked_array(np.asarray(mean).astype(rdt), mask=mask_out)
    ddof = kw.get('ddof', 0)
    dev = np.where(mask, 0., d.astype('f8') - np.expand_dims(mean, axis))
    den = np.asarray(cnt - ddof)
    v = (dev ** 2).sum(axis=axis) / np.where(den <= 0, 1, den)
    if name == 'std':
        v = np.sqrt(v)
    # No statistic is defined where ddof leaves no degrees of freedom.
    return ma.masked_array(np.asarray(v).astype(rdt),
                           mask=none | (den <= 0))


# -------------------------------------------------------------- operators
OPS = {
    'add': (lambda a, b: a + b, np.add),
    'sub': (lambda a, b: a - b, np.subtract),
    'mul': (lambda a, b: a * b, np.multiply),
    'floordiv': (lambda a, b: a // b, np.floor_divide),
    'truediv': (lambda a, b: a / b, np.true_divide),
    'pow': (lambda a, b: a ** b, np.power),
}
ALIAS = {'sub': 'subtract'}


def apply_op(op, name, args, lib):
    if op == 'op':
        return OPS[name][0](*args)
    return getattr(lib, name)(*args)


def denote_op(op, name, nds, mas):
    if op == 'op':
        f = OPS[name][1]
    else:
        f = getattr(np, ALIAS.get(name, name))
    if f is np.power:
        for x in (nds[1], mas[1]):
            x = ma.getdata(x) if x is not None else np.zeros(1)
            if x.dtype.kind in 'iu' and np.any(x < 0):
                raise Skip('integers to negative powers')
    try:
        nd = np.asarray(f(*nds))
    except (ValueError, TypeError, ZeroDivisionError) as err:
        raise Skip(str(err))
    mf = getattr(np.ma, f.__name__, None)
    m = None
    if mf is not None and not any(x is None for x in mas):
        try:
            m = mf(*mas)
        except (ValueError, TypeError, ZeroDivisionError) as err:
            raise Skip(str(err))
        if m is ma.masked:
            m = ma.masked_array(np.zeros((), nd.dtype), mask=True)
        m = ma.asarray(m)
    return nd, m


# ------------------------------------------------------------- comparison
def same(x, y, tol=0):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.size == 0:
        return True
    if x.dtype.kind in 'mM' and x.dtype == y.dtype:
        x, y = x.astype('i8'), y.astype('i8')
    if x.dtype.kind not in 'fc' or y.dtype.kind not in 'fc':
        return bool(np.all(x == y))
    both_nan = np.isnan(x) & np.isnan(y)
    if tol:
        wide = 'c16' if 'c' in x.dtype.kind + y.dtype.kind else 'f8'
        ok = np.isclose(x.astype(wide), y.astype(wide), rtol=tol,
                        atol=tol, equal_nan=True)
    else:
        ok = (x == y)
    return bool(np.all(ok | both_nan))


def same_ma(x, y, tol=0):
    if np.shape(x) != np.shape(y):
        return False
    mx, my = ma.getmaskarray(x), ma.getmaskarray(y)
    if not np.array_equal(mx, my):
        return False
    return same(np.where(mx, np.zeros((), x.dtype), x.data),
                np.where(my, np.zeros((), y.dtype), y.data), tol)


def has_op(e, names):
    if isinstance(e, list):
        if e and isinstance(e[0], str) and e[0] in names:
            return True
        return any(has_op(x, names) for x in e)
    return False


WILD = ('sin', 'cos', 'tan', 'exp', 'exp2', 'expm1', 'sinh', 'cosh',
        'power', 'pow')
JUMPS = ('floor', 'ceil', 'rint', 'trunc', 'sign', 'greater', 'less',
         'greater_equal', 'less_equal', 'equal', 'not_equal', 'fmod',
         'floor_divide', 'floordiv', 'logical_and', 'logical_or',
         'logical_xor', 'logical_not', 'arctan2', 'copysign', 'signbit',
         'true_divide', 'truediv', 'divide', 'reciprocal', 'nextafter',
         'pow', 'power', 'exp', 'sqrt')


# NumPy rounds these differently for arrays of other sizes and strides.
FUZZY = ('absolute', 'hypot', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10',
         'log1p', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh',
         'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'arctan2')


def has_ew(e, names):
    if isinstance(e, (list, tuple)):
        if len(e) > 1 and e[0] == 'ew' and e[1] in names:
            return True
        return any(has_ew(x, names) for x in e)
    return False


def has_agg(e, names):
    if isinstance(e, list):
        if len(e) > 1 and e[0] == 'agg' and e[1] in names:
            return True
        return any(has_agg(x, names) for x in e)
    return False


def tolerance(e, shared=()):
    """Mean, std and var of small integers have small floating types."""
    fuzzy = 1e-6 if has_ew([e, shared], FUZZY) else 0
    e = repr([e, list(shared)])
    if "'agg'" not in e or not any("'%s'" % x in e for x in (
            'mean', 'std', 'var', 'sum')):
        return fuzzy
    if any("'%s'" % x in e for x in ('i1', 'u1', 'f2')):
        return 1e-2
    only_sum = not any("'%s'" % x in e for x in ('mean', 'std', 'var'))
    if only_sum:
        return max(fuzzy, 1e-5 if "'f4'" in e else 1e-10)
    return max(fuzzy, 1e-4 if any("'%s'" % x in e for x in (
        'f4', 'i2', 'u2')) else 1e-8)
