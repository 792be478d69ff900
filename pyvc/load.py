"""Loading the instrumented source into a namespace with modelled built-ins."""
import abc
import builtins as B
import collections
import collections.abc
import functools
import itertools
import os
import queue
import threading
import types
import warnings
import numpy as np
import z3
from . import core, seqs, loops, instrument
from .core import (SInt, SBool, SNum, SReal, Limitation, EndPath, ctx, lift,
                   num, raises, boolz)
from .seqs import (Seg, Item, FSeg, SSlice, VSeq, VList, VTuple, VRange,
                   parts_of, finish, merge, as_slice)


class PType(object):
    """Stands for a built-in type: calls and isinstance are modelled."""

    def __init__(self, real, make, models=()):
        self.real = real
        self.make = make
        self.models = tuple(models)
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self.make(*a, **k)

    def __getattr__(self, name):
        return getattr(self.real, name)

    def __instancecheck__(self, x):
        if isinstance(x, core.SNpInt):
            return False
        return isinstance(x, (self.real,) + self.models)

    def __eq__(self, o):
        return o is self or o is self.real

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.real)

    def __repr__(self):
        return repr(self.real)


def v_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return num(lift(x))
    if isinstance(x, SReal):
        raise Limitation('int() of a real')
    return int(x, *a)


def v_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        r = x != 0
        return r
    return bool(x)


def sequence(x):
    """parts of an iterable (consuming it)."""
    p = parts_of(x)
    if p is None:
        p = [Item(v) for v in x]
    return p


def v_tuple(x=()):
    if isinstance(x, tuple):
        return x
    return finish('tuple', sequence(x))


def v_list(x=()):
    return VList(sequence(x))


def v_range(*a):
    if all(isinstance(x, (int, np.integer)) for x in a):
        return range(*[int(x) for x in a])
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop, = a
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    for x in (start, stop, step):
        if not isinstance(x, (int, SInt, np.integer)):
            raise Limitation('range of %r' % (x,))
    c = ctx()
    s, e, st = lift(start), lift(stop), lift(step)
    if not c.branch(st != 0):
        raise raises(ValueError('range() arg 3 must not be zero'))
    n = None
    if isinstance(step, int) and step == 1:
        n = core.simp(z3.If(e > s, e - s, z3.IntVal(0)))
    else:
        # A triple from slice.indices?
        for sl, parts in c.user.get('triples', ()):
            if parts[0].eq(s) and parts[1].eq(e) and parts[2].eq(st):
                n = parts[3]
        if n is None:
            n = c.int('range.n', 0).z
            c.assume(n == seqs.range_len(s, e, st))
            if not isinstance(step, int):
                # Linear consequences, for the solver.
                c.assume(z3.Implies(z3.And(st > 0, n > 0), z3.And(
                    s + (n - 1) * st < e, s + n * st >= e, s < e)))
                c.assume(z3.Implies(z3.And(st < 0, n > 0), z3.And(
                    s + (n - 1) * st > e, s + n * st <= e, s > e)))
    b = seqs.Base('range', lambda z: num(s + z * st), num(n))
    b.range = (s, e, st)
    if z3.is_int_value(core.simp(n)) and core.simp(n).as_long() <= 64:
        return VRange([Item(num(s + i * st))
                       for i in range(core.simp(n).as_long())])
    r = VRange([Seg(b, 0, n)])
    r.triple = (s, e, st)
    return r


def v_slice(*a):
    if len(a) == 1:
        return SSlice(None, a[0], None)
    return SSlice(*a)


def v_len(x):
    if isinstance(x, VSeq):
        return x.vlen()
    f = getattr(x, 'vlen', None)
    if f is not None:
        return f()
    return len(x)


def flat_types(t):
    if isinstance(t, tuple):
        for x in t:
            yield from flat_types(x)
    else:
        yield t


def v_isinstance(x, t):
    for ty in flat_types(t):
        if isinstance(ty, PType):
            if ty.__instancecheck__(x):
                return True
            continue
        m = getattr(x, 'models_types', None)
        if m is not None:
            if any(isinstance(a, type) and isinstance(ty, type) and
                   issubclass(a, ty) for a in m):
                return True
        if ty is collections.abc.Iterable and isinstance(x, (VSeq,)):
            return True
        if ty is type(Ellipsis):
            if x is Ellipsis:
                return True
            continue
        if isinstance(x, (SNum, SBool, SSlice)):
            if ty is object:
                return True
            if type(x) is SInt and isinstance(ty, type) and \
                    issubclass(int, ty):
                return True
            continue
        if isinstance(x, loops.Poison):
            raise Limitation('type of an unknown value')
        if isinstance(ty, type) and isinstance(x, ty):
            return True
    return False


def v_issubclass(a, t):
    def real(x):
        return x.real if isinstance(x, PType) else x
    return any(issubclass(real(a), real(x)) for x in flat_types(t))


def v_min(*a, **k):
    return extremum(a, k, min, lambda x, y: x < y)


def v_max(*a, **k):
    return extremum(a, k, max, lambda x, y: x > y)


def extremum(a, k, real, better):
    items = a if len(a) > 1 else a[0]
    p = sequence(items)
    if any(not isinstance(x, Item) for x in p):
        raise Limitation('%s of a symbolic sequence' % real.__name__)
    vals = [x.v for x in p]
    if not vals:
        if 'default' in k:
            return k['default']
        raise raises(ValueError('empty sequence'))
    key = k.get('key')
    if not any(isinstance(v, SNum) for v in vals) and key is None:
        return real(vals)
    best = vals[0]
    for v in vals[1:]:
        x, y = (key(v), key(best)) if key else (v, best)
        if key is None and isinstance(x, (SInt, int)) and \
                isinstance(y, (SInt, int)):
            a_, b_ = lift(x), lift(y)
            r = better(a_, b_)
            best = num(z3.If(r, a_, b_))
        elif better(x, y):
            best = v
    return best


def v_sum(x, start=0):
    if hasattr(x, 'vsum'):
        return x.vsum() + start
    p = sequence(x)
    total = start
    for q in p:
        if isinstance(q, Item):
            total = total + q.v
        else:
            f = getattr(getattr(q, 'base', None), 'vsum', None)
            if f is None:
                total = total + fold_sum(q)
            else:
                total = total + f(q)
    return total


def fold_sum(q):
    """Sum over a segment by a declared fold with the same steps."""
    c = ctx()
    if isinstance(q, Seg):
        if z3.is_true(core.simp(q.lo == q.hi)):
            return 0
        for b, lo in loops.pointwise(q):
            for g in c.user.get('folds', ()):
                if g.base is not b:
                    continue
                # For an arbitrary element, in a path of its own.
                k = c.choose([q.n() > 0, z3.BoolVal(True)])
                if k == 0:
                    i = c.int('i')
                    c.assume(z3.And(0 <= i.z, i.z < q.n()))
                    v = q.get(i.z)
                    w = g.step(b.get(core.simp(lo + i.z)))
                    same = seqs.veq(num(lift(v)), num(lift(w)))
                    if same is True or (same is not False and
                                        c.valid(same) is True):
                        raise EndPath()
                    raise Limitation('sum without a matching fold')
                lo = core.simp(lo)
                return num(g.at(core.simp(lo + q.n())) - g.at(lo))
    raise Limitation('sum of a symbolic sequence')


def v_any(x):
    return exists(x, True)


def v_all(x):
    return not exists(x, False)


def truth(v):
    return bool(v)


def exists(x, want):
    if hasattr(x, 'vany'):
        return x.vany() if want else not x.vall()
    if parts_of(x) is None:
        for v in x:
            if truth(v) == want:
                return True
        return False
    for p in parts_of(x):
        if isinstance(p, Item):
            if truth(p.v) == want:
                return True
            continue
        if seg_exists(p, want):
            return True
    return False


def seg_exists(p, want):
    c = ctx()
    if isinstance(p, FSeg):
        raise Limitation('any/all of a filtered sequence')
    k = c.choose([p.n() > 0, z3.BoolVal(True)])
    if k == 0:
        i = c.int('witness')
        c.assume(z3.And(0 <= i.z, i.z < p.n()))
        if truth(p.get(i.z)) == want:
            return True
        raise EndPath('not a witness')
    # None of them: a fact about the elements of the base.
    src = p
    fn = []
    while getattr(src.base, 'fn', None) is not None:
        fn.append(src.base.fn[0])
        lo, inner = src.lo, src.base.fn[1]
        src = Seg(inner.base, inner.lo + src.lo, inner.lo + src.hi)
    fn.reverse()

    def fact(z, v):
        c = ctx()
        if not c.branch(z3.And(src.lo <= z, z < src.hi)):
            return
        for f in fn:
            v = f(v)
        if truth(v) == want:
            raise EndPath('contradicts a fact')
    src.base.add_fact(fact)
    return False


def sorted_permutation(p, key, reverse):
    """Sorting f(x) for all x of an arbitrary permutation of a sequence which
    is known (sorted_base): f of that in order, if it has increasing keys."""
    if len(p) != 1 or not isinstance(p[0], Seg) or reverse:
        return None
    b = p[0].base
    fn, q = getattr(b, 'fn', (lambda v: v, p[0]))
    order = getattr(q.base, 'sorted_base', None)
    if order is None or q.n() is not p[0].n() and not z3.is_true(
            core.simp(q.n() == p[0].n())):
        return None
    if not z3.is_true(core.simp(z3.And(
            q.lo == 0, q.n() == lift(order.length)))):
        return None
    whole = Seg(order, z3.IntVal(0), q.n())
    seg = loops.map_seg(whole, fn, name='sorted')
    c = core.ctx()
    if c.pick('sorted', 2):
        i = c.int('i', 0)
        c.assume(i.z < q.n() - 1)
        f = key or (lambda v: v)
        if not f(seg.get(i.z)) < f(seg.get(core.simp(i.z + 1))):
            raise Limitation('sorting by an unknown order')
        raise core.EndPath()
    return VList([seg])


def v_sorted(x, key=None, reverse=False):
    p = sequence(x)
    r = sorted_permutation(p, key, reverse)
    if r is not None:
        return r
    if any(not isinstance(q, Item) for q in p):
        raise Limitation('sorting a symbolic sequence')
    return VList([Item(v) for v in seqs.vsorted([q.v for q in p], key,
                                                reverse)])


def concrete_parts(p):
    return all(isinstance(q, Item) for q in p)


def v_enumerate(x, start=0):
    p = sequence(x)
    if concrete_parts(p):
        return VIter([Item((start + i, q.v)) for i, q in enumerate(p)])
    out = []
    at = lift(start)
    for q in p:
        if isinstance(q, Item):
            out.append(Item((num(at), q.v)))
            at = at + 1
            continue
        if not isinstance(q, Seg):
            raise Limitation('enumerating a filtered sequence')
        b = seqs.Base('enumerate', lambda z, q=q, at=at: (
            num(at + z), q.get(core.simp(z))), num(q.n()))
        b.pointwise = [q]
        out.append(Seg(b, 0, q.n()))
        at = at + q.n()
    return VIter(out)


class VIter(VSeq):
    kind = 'iter'

    def __next__(self):
        if not self.parts:
            raise StopIteration
        if isinstance(self.parts[0], Item):
            v = self.parts[0].v
            self.parts = self.parts[1:]
            return v
        raise Limitation('next() of a symbolic sequence')


def v_zip(*xs):
    ps = [list(merge(sequence(x))) for x in xs]
    out = []
    c = ctx() if not all(concrete_parts(p) for p in ps) else None
    while all(ps):
        heads = [p[0] for p in ps]
        if all(isinstance(h, Item) for h in heads):
            out.append(Item(tuple(h.v for h in heads)))
            for p in ps:
                p.pop(0)
            continue
        if any(isinstance(h, FSeg) for h in heads):
            raise Limitation('zip of a filtered sequence')
        if any(isinstance(h, Item) for h in heads):
            # One step.
            vals = []
            for p in ps:
                h = p[0]
                if isinstance(h, Item):
                    vals.append(h.v)
                    p.pop(0)
                else:
                    if not c.branch(h.n() > 0):
                        p.pop(0)
                        vals = None
                        break
                    vals.append(h.get(z3.IntVal(0)))
                    p[0] = Seg(h.base, h.lo + 1, h.hi)
            if vals is None:
                # The sequences before were advanced: undo is needed unless
                # this one is at its end altogether.
                if not p:
                    break
                raise Limitation('zip alignment')
            out.append(Item(tuple(vals)))
            continue
        m = heads[0].n()
        for h in heads[1:]:
            m = m if c.branch(m <= h.n()) else h.n()
        hs = list(heads)
        b = seqs.Base('zip', lambda z, hs=hs: tuple(
            h.get(core.simp(z)) for h in hs), num(m))
        b.pointwise = hs
        out.append(Seg(b, 0, m))
        for p, h in zip(ps, hs):
            if c.valid(h.n() == m):
                p.pop(0)
            else:
                p[0] = Seg(h.base, core.simp(h.lo + m), h.hi)
                if len(p) == 1 and False:
                    p.pop(0)
        # Something is exhausted iff some part is used up and it was last.
        ps = [[q for q in p if not (isinstance(q, Seg) and
                                    c.valid(q.n() == 0) is True)]
              for p in ps]
    return VIter(out)


def v_reversed(x):
    if isinstance(x, VSeq):
        return VIter(x.reversed_parts())
    p = parts_of(x)
    if p is not None:
        return VIter(list(reversed(p)))
    return reversed(x)


def v_map(fn, *xs):
    if len(xs) > 1:
        z = v_zip(*xs)
        f = lambda t: fn(*t)
    else:
        z, f = xs[0], fn
    p = sequence(z)
    out = []
    for q in p:
        if isinstance(q, Item):
            out.append(Item(f(q.v)))
        else:
            out.append(loops.map_seg(q, f))
    return VIter(out)


def v_filter(fn, xs):
    p = sequence(xs)
    if fn is None:
        fn = bool
    out = []
    for q in p:
        if isinstance(q, Item):
            if fn(q.v):
                out.append(Item(q.v))
        else:
            out.append(loops.map_seg(q, lambda x: x, fn))
    return VIter(out)


def v_iter(x):
    if isinstance(x, VSeq):
        return VIter(x.parts)
    return iter(x)


def v_next(it, *default):
    try:
        return next(it)
    except StopIteration:
        if default:
            return default[0]
        raise


def v_divmod(a, b):
    if isinstance(a, SNum) or isinstance(b, SNum):
        return a // b, a % b
    return divmod(a, b)


def v_float(x=0.0):
    if isinstance(x, SNum):
        z = x.z
        return num(z3.ToReal(z) if z3.is_int(z) else z)
    return float(x)


def v_type(*a):
    if len(a) == 1:
        x = a[0]
        m = getattr(x, 'models_types', None)
        if m:
            return m[0]
        if isinstance(x, VTuple):
            return T_TUPLE
        if isinstance(x, VList):
            return T_LIST
        if isinstance(x, SInt):
            return T_INT
        return type(x)
    return type(*a)


def v_str(*a):
    return str(*a)


def v_hash(x):
    return hash(x)


def v_id(x):
    return id(x)


T_INT = PType(int, v_int, (SInt,))
T_FLOAT = PType(float, v_float, (SReal,))
T_BOOL = PType(bool, v_bool, (SBool,))
T_TUPLE = PType(tuple, v_tuple, (VTuple,))
T_LIST = PType(list, v_list, (VList,))
T_RANGE = PType(range, v_range, (VRange,))
T_SLICE = PType(slice, v_slice, (SSlice,))
T_TYPE = PType(type, v_type)


def v_getattr(o, n, *d):
    return getattr(o, n, *d)


BUILTINS = dict(
    isinstance=v_isinstance, issubclass=v_issubclass, len=v_len, min=v_min,
    max=v_max, sum=v_sum, any=v_any, all=v_all, sorted=v_sorted, zip=v_zip,
    enumerate=v_enumerate, reversed=v_reversed, map=v_map, filter=v_filter,
    iter=v_iter, next=v_next, divmod=v_divmod, int=T_INT,
    tuple=T_TUPLE, list=T_LIST, range=T_RANGE, slice=T_SLICE, type=T_TYPE)


class Namespace(types.ModuleType):
    def __init__(self, name, **k):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(k)


class Loader(object):
    """Instruments and executes /repo/biggus/_init.py."""

    def __init__(self, repo):
        self.repo = repo
        self.files = []
        self.code = {}
        self.modules = {}
        self.driver = loops.Driver(self)

    def fakes(self, numpy):
        import six
        bt = dict(vars(B))
        bt.update(BUILTINS)
        moves = Namespace(
            'six.moves', builtins=Namespace('builtins', **bt), queue=queue,
            **{k: bt[k] for k in ('map', 'filter', 'range', 'zip')},
            input=None)
        fsix = Namespace(
            'six', with_metaclass=six.with_metaclass,
            string_types=six.string_types, moves=moves,
            itervalues=lambda d: iter(d.values()),
            iteritems=lambda d: iter(d.items()),
            integer_types=(T_INT,), PY2=False, PY3=True,
            add_metaclass=six.add_metaclass, text_type=str)
        coll = Namespace('collections')
        coll.__dict__.update({k: getattr(collections, k)
                              for k in dir(collections)
                              if not k.startswith('__')})
        for k in ('Iterable', 'Mapping', 'Sequence', 'Hashable', 'Callable'):
            setattr(coll, k, getattr(collections.abc, k))
        biggus = Namespace('biggus')
        self.biggus = biggus
        self.modules.update({
            'six': fsix, 'six.moves': moves, 'collections': coll,
            'numpy': numpy, 'numpy.ma': numpy.ma, 'biggus': biggus})
        real_import = B.__import__

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if name in self.modules:
                if fromlist or '.' not in name:
                    return self.modules[name]
                return self.modules[name.split('.')[0]]
            return real_import(name, globals, locals, fromlist, level)
        bt['__import__'] = imp
        self.builtins = bt

    def load(self, rel, modname, numpy):
        if not self.modules:
            self.fakes(numpy)
        path = os.path.join(self.repo, rel)
        if rel not in self.code:
            with open(path) as f:
                src = f.read()
            self.code[rel] = instrument.instrument(src, path, modname)
        if path not in self.files:
            self.files.append(path)
        g = {'__builtins__': self.builtins, '__name__': modname,
             '__file__': path, 'vc__': self.driver}
        exec(self.code[rel], g)
        return g

    def core(self, numpy):
        g = self.load('biggus/_init.py', 'biggus._init', numpy)
        for n in g['__all__']:
            setattr(self.biggus, n, g[n])
        self.biggus._init = Namespace('biggus._init', **{})
        g.setdefault('MAX_CHUNK_SIZE', None)
        self.biggus.engine = None
        return g
