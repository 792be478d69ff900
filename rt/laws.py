"""Executable postconditions: each law takes a case (JSON) and returns None
when the real code satisfies it on that case, else a message."""
from __future__ import absolute_import, division, print_function
import threading
import itertools
import numpy as np
import numpy.ma as ma

import biggus
import biggus._init as bi
import sched
from model import (Env, InvalidIndex, Skip, InjectedError, Concrete, same, same_ma,
                   tolerance, dec_keys, oindex, make_data, oexpand,
                   axis_indices, has_op)


class Limit(object):
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = bi.MAX_CHUNK_SIZE
        if self.n is not None:
            bi.MAX_CHUNK_SIZE = self.n

    def __exit__(self, *a):
        bi.MAX_CHUNK_SIZE = self.old


class Hang(Exception):
    pass


def bounded(f, seconds=20):
    """Run f in a daemon thread; raise Hang if it does not return."""
    box = {}

    def go():
        try:
            box['r'] = f()
        except BaseException as err:
            box['e'] = err
    t = threading.Thread(target=go)
    t.daemon = True
    t.start()
    t.join(seconds)
    if t.is_alive():
        raise Hang('no answer within %ss' % seconds)
    if 'e' in box:
        raise box['e']
    return box['r']


def quiet_threads():
    # Node threads re-raise after signalling their consumers.
    threading.excepthook = lambda args: None


quiet_threads()


def bounded_or_scheduled(f, case, i=0, seconds=20):
    """f() with real threads, or with a seeded schedule."""
    if case.get('sched') is None:
        return bounded(f, seconds)
    styles = ['random', 'prio', 'lazy', 'eager', 'random', 'prio']
    seed = case['sched'] + i
    result, error, left = sched.run(f, seed, styles[seed % len(styles)])
    if isinstance(error, sched.Deadlock):
        raise Hang('the evaluation deadlocks (schedule %d)' % seed)
    if isinstance(error, sched.Stuck):
        raise Skip('blocked outside of the scheduler')
    if error is not None:
        raise error
    return result


def conv(array, masked, limit):
    with Limit(limit):
        f = array.masked_array if masked else array.ndarray
        if has_engine(array):
            return bounded(f)
        return f()


def has_engine(array):
    return True


NO_MASKED = object()


def law_convert(case):
    """shape/dtype/ndarray/masked_array of an expression are its NumPy
    denotation; invalid indices are refused."""
    e, limit = case['expr'], case.get('limit')
    shared = case.get('shared', ())
    env = Env(shared)
    try:
        nd, m = env.denote(e)
        valid = True
    except InvalidIndex as err:
        valid = False
    what = case.get('what', ('shape', 'dtype', 'nd', 'ma'))
    tol = tolerance(e, shared)
    try:
        a = env.build(e)
        got_shape = tuple(a.shape)
        got_nd = conv(a, False, limit) if 'nd' in what or not valid else None
    except Hang as err:
        return 'hang: %s' % err
    except NotImplementedError:
        return None
    except Exception as err:
        if valid:
            return 'refused a valid expression: %s: %s' % (
                type(err).__name__, err)
        return None
    if not valid:
        return ('index that NumPy refuses was answered with data of shape '
                '%r' % (np.shape(got_nd),))
    if 'shape' in what and got_shape != nd.shape:
        return 'declared shape %r, expected %r' % (got_shape, nd.shape)
    if 'nd' in what:
        # Python scalars: the dtype is that of NumPy's array promotion, which
        # the property leaves to the declaration.
        own = env.loose
        tol = max(tol, 1e-4) if own or env.rounds else tol
        if 'dtype' in what and not own and a.dtype != nd.dtype:
            return 'declared dtype %r, expected %r' % (a.dtype, nd.dtype)
        if 'type' in what and not isinstance(got_nd, np.ndarray):
            return 'ndarray() returned a %s' % type(got_nd).__name__
        if np.shape(got_nd) != nd.shape:
            return 'converted shape %r, expected %r' % (np.shape(got_nd),
                                                        nd.shape)
        if 'dtype' in what and got_nd.dtype != (a.dtype if own
                                                else nd.dtype):
            return 'converted dtype %r, declared %r, expected %r' % (
                got_nd.dtype, a.dtype, nd.dtype)
        if not env.skip_nd and not same(got_nd, nd, tol):
            return 'ndarray() is %s, expected %s' % (short(got_nd),
                                                     short(nd))
    if 'ma' in what:
        try:
            got_ma = conv(a, True, limit)
        except Hang as err:
            return 'hang: %s' % err
        except TypeError as err:
            if m is None:
                return None
            return 'masked_array() raised TypeError: %s' % err
        except Exception as err:
            if m is None:
                return None
            return 'masked_array() raised %s: %s' % (type(err).__name__, err)
        if m is None:
            return 'masked_array() of an operation without masked form'
        if np.shape(got_ma) != m.shape:
            return 'masked shape %r, expected %r' % (np.shape(got_ma),
                                                     m.shape)
        if 'type' in what and not isinstance(got_ma, ma.MaskedArray):
            return 'masked_array() returned a %s' % type(got_ma).__name__
        if 'dtype' in what and got_ma.dtype != a.dtype:
            return 'masked_array() has dtype %r, declared %r' % (
                got_ma.dtype, a.dtype)
        if not same_ma(ma.asarray(got_ma), m, tol):
            return 'masked_array() is %s, expected %s' % (short(got_ma),
                                                          short(m))
    return None


def short(x):
    s = repr(x).replace('\n', '')
    s = ' '.join(s.split())
    return s if len(s) < 300 else s[:300] + '...'


def law_shape(case):
    """Shape of array[keys] for given shape and keys (no data read)."""
    shape, keys = tuple(case['shape']), dec_keys(case['keys'])
    data = np.empty(shape, dtype='i1')
    try:
        exp = oindex(data, keys).shape
    except InvalidIndex:
        exp = None
    out = []
    for name, make in (('ConstantArray',
                        lambda: biggus.ConstantArray(shape)),
                       ('NumpyArrayAdapter',
                        lambda: biggus.NumpyArrayAdapter(Concrete(data))),
                       ('OrthoArrayAdapter',
                        lambda: biggus.OrthoArrayAdapter(
                            Concrete(data, ortho=True)))):
        a = make()
        try:
            got = tuple(a[keys].shape)
        except NotImplementedError:
            continue
        except Exception as err:
            if exp is None:
                if 'too many' in case.get('expect', '') and not isinstance(
                        err, IndexError):
                    return '%s: %s instead of IndexError' % (
                        name, type(err).__name__)
                continue
            return '%s refused valid keys: %s: %s' % (
                name, type(err).__name__, err)
        if exp is None:
            if case.get('expect') == 'any-refusal':
                continue
            return '%s accepted invalid keys with shape %r' % (name, got)
        if got != exp:
            return '%s declares shape %r, expected %r' % (name, got, exp)
    return None


def law_toomany(case):
    """More real keys than dimensions: IndexError at indexing."""
    env = Env()
    a = env.build(case['expr'])
    try:
        a[dec_keys(case['keys'])]
    except IndexError:
        return None
    except Exception as err:
        return '%s instead of IndexError' % type(err).__name__
    return 'over-specified key accepted'


def law_full_keys(case):
    """_full_keys-level law, observed through a recording array."""
    return law_shape(case)


def law_chunks(case):
    """Chunks: disjoint cover, limit, order."""
    shape, order, limit = tuple(case['shape']), case['order'], case['limit']
    with Limit(limit):
        keys = list(bi.ProducerNode.chunk_index_gen(shape, list(order)))
    count = np.zeros(shape, dtype=int)
    starts = []
    for key in keys:
        if len(key) != len(shape):
            return 'chunk key %r has wrong length' % (key,)
        for k in key:
            if not isinstance(k, slice):
                return 'chunk key %r is not made of slices' % (key,)
        part = count[key]
        if part.size > limit:
            return 'chunk %r holds %d elements, limit %d' % (key, part.size,
                                                             limit)
        count[key] += 1
        starts.append(tuple(k.indices(n)[0] for k, n in zip(key, shape)))
    if count.size and not (count == 1).all():
        return 'coverage counts %s' % short(count)
    if not keys:
        return 'no chunk emitted'
    seq = [tuple(s[i] for i in order) for s in starts]
    if seq != sorted(seq):
        return 'chunks not in the requested order: %r' % (starts,)
    return None


class Target(object):
    def __init__(self, shape, dtype, masked):
        self.shape = shape
        self.count = np.zeros(shape, dtype=int)
        self.data = np.zeros(shape, dtype=dtype)
        self.mask = np.zeros(shape, dtype=bool)
        self.max_size = 0
        self.kinds = set()
        self.bad = None

    def __setitem__(self, keys, value):
        self.kinds.add(ma.isMaskedArray(value))
        if np.shape(value) != self.data[keys].shape:
            self.bad = 'value of shape %r assigned to region %r' % (
                np.shape(value), keys)
            return
        self.max_size = max(self.max_size, int(np.size(value)))
        self.count[keys] += 1
        self.data[keys] = ma.getdata(value)
        self.mask[keys] = ma.getmaskarray(value)


def law_save(case):
    env = Env(case.get('shared', ()))
    e = case['expr']
    nd, m = env.denote(e)
    if m is None and case['masked']:
        return None
    a = env.build(e)
    t = Target(nd.shape, nd.dtype, case['masked'])
    try:
        with Limit(case.get('limit')):
            bounded(lambda: biggus.save([a], [t], masked=case['masked']))
    except Hang as err:
        return str(err)
    except NotImplementedError:     # an index that a part does not accept
        return None
    except Exception as err:
        return 'save raised %s: %s' % (type(err).__name__, err)
    if t.bad:
        return t.bad
    if t.count.size and not (t.count == 1).all():
        return 'assignment counts %s' % short(t.count)
    if case.get('limit') and t.max_size > case['limit']:
        return 'assignment of %d elements, limit %d' % (t.max_size,
                                                        case['limit'])
    tol = tolerance(e, case.get('shared', ()))
    if env.loose:
        tol = max(tol, 1e-4)
    if case['masked']:
        if t.kinds - {True}:
            return 'unmasked value assigned in masked mode'
        if not same_ma(ma.masked_array(t.data, mask=t.mask), m, tol):
            return 'saved %s expected %s' % (short(ma.masked_array(
                t.data, mask=t.mask)), short(m))
    else:
        if True in t.kinds:
            return 'masked value assigned in unmasked mode'
        if not env.skip_nd and not same(t.data, nd, tol):
            return 'saved %s expected %s' % (short(t.data), short(nd))
    return None


def law_joint(case):
    """Joint evaluation equals the denotation of each, in order."""
    shared = case.get('shared', ())
    env = Env(shared)
    den = [env.denote(e) for e in case['exprs']]
    arrays = [env.build(e) for e in case['exprs']]
    tol = tolerance(case['exprs'], shared)
    engine = case.get('engine', 'threaded')
    for masked in (False, True):
        if masked and any(d[1] is None for d in den):
            continue
        if not masked and case.get('masked_only'):
            continue
        try:
            with Limit(case.get('limit')):
                if engine == 'dask':
                    import dask
                    from biggus.experimental.dask_engine import DaskEngine
                    eng = DaskEngine(dask.get) if case.get(
                        'sync', True) else DaskEngine()
                    f = eng.masked_arrays if masked else eng.ndarrays
                    got = bounded(lambda: f(*arrays))
                else:
                    f = biggus.masked_arrays if masked else biggus.ndarrays
                    got = bounded_or_scheduled(lambda: f(arrays), case,
                                               int(masked))
        except Hang as err:
            return 'hang: %s' % err
        except Skip:
            raise
        except Exception as err:
            return 'raised %s: %s' % (type(err).__name__, err)
        if len(got) != len(den):
            return '%d results for %d arrays' % (len(got), len(den))
        for i, (g, d, a) in enumerate(zip(got, den, arrays)):
            d = d[1] if masked else d[0]
            if np.shape(g) != d.shape:
                return 'result %d has shape %r, expected %r' % (
                    i, np.shape(g), d.shape)
            ok = (same_ma(ma.asarray(g), d, tol) if masked
                  else env.skip_nd or same(g, d, tol))
            if not ok:
                return '%s result %d is %s, expected %s' % (
                    'masked' if masked else 'plain', i, short(g), short(d))
    return None


def law_fault(case):
    """A read that fails (the k-th of source s) makes evaluation raise."""
    shared = case.get('shared', ())
    made = []
    which, k = case['source'], case['at']

    def wrap(data, ortho):
        c = Concrete(data, ortho=ortho)
        made.append(c)
        return c
    env = Env(shared, wrap)
    arrays = [env.build(e) for e in case['exprs']]
    if which >= len(made):
        return None
    # How many reads would there be?
    with Limit(case.get('limit')):
        try:
            bounded_or_scheduled(lambda: run(arrays, case), case)
        except Hang as err:
            return 'hang without any fault: %s' % err
        except Skip:
            raise
        except Exception as err:
            return 'raised without any fault: %s: %s' % (
                type(err).__name__, err)
        n = len(made[which].reads)
        if k >= n:
            return None
        for c in made:
            c.reads = []
        made[which].fail_at = k
        made[which].error = EXCEPTIONS[case.get('exc', 0)]
        try:
            r = bounded_or_scheduled(lambda: run(arrays, case), case, 1,
                                     case.get('timeout', 10))
        except Hang as err:
            return 'evaluation hangs after a failing read'
        except Skip:
            raise
        except BaseException:
            return None
        return 'evaluation returned %s although read %d of source %d failed' \
            % (short(r), k, which)


EXCEPTIONS = [InjectedError, StopIteration, ValueError, IndexError, KeyError,
              TypeError, AttributeError, RuntimeError, MemoryError, OSError,
              AssertionError, NotImplementedError, GeneratorExit,
              KeyboardInterrupt, SystemExit, StopIteration]


class ScriptedHandler(object):
    def __init__(self, case):
        self.case = case
        self.round = 0
        self.expect = []

    def process_chunks(self, chunks):
        k = self.round
        self.round += 1
        if k == self.case.get('fail_process'):
            raise EXCEPTIONS[self.case.get('exc', 0)]('process')
        if len(chunks) != len(self.case['inputs']) or any(
                c.data != (i, k) for i, c in enumerate(chunks)):
            raise AssertionError('chunks %r of round %d' % (chunks, k))
        if k in self.case.get('silent', ()):
            return None
        r = bi.Chunk((slice(k, k + 1),), ('result', k))
        self.expect.append(r)
        return r

    def finalise(self):
        if self.case.get('fail_finalise'):
            raise EXCEPTIONS[self.case.get('exc', 0)]('finalise')
        if self.case.get('no_final'):
            return None
        r = bi.Chunk((slice(None),), 'final')
        self.expect.append(r)
        return r


def drain(q):
    out = []
    while True:
        try:
            out.append(q.get_nowait())
        except Exception:
            return out


def law_node(case):
    """The protocol of a node of the evaluation graph: its outputs are the
    results in order and then exactly one end marker, which is the failure
    marker iff an input, or the node itself, failed."""
    import queue
    kind = case['node']
    outs = [queue.Queue() for _ in range(case.get('outputs', 1))]
    exc = EXCEPTIONS[case.get('exc', 0)]
    if kind == 'producer':
        n = case['n']
        c = Concrete(np.arange(float(n)))
        c.error = exc
        c.fail_at = case.get('fail_at')
        node = bi.ProducerNode(biggus.NumpyArrayAdapter(c), [0],
                               case.get('masked', False))
        failed = c.fail_at is not None and c.fail_at < n
        expect = list(range(c.fail_at if failed else n))
    else:
        n = case['n']
        lengths = [x if x is not None else n for x in case['inputs']]
        r = min(lengths)
        handler = ScriptedHandler(case)
        fp = case.get('fail_process')
        if kind == 'streams':
            node = bi.StreamsHandlerNode(None, handler)
            failed = ((fp is not None and fp < r) or any(
                x is not None and x == r for x in case['inputs']) or
                bool(case.get('fail_finalise')))
        else:
            node = bi.NdarrayNode(biggus.zeros([n]), case.get('masked',
                                                              False))
            failed = case['inputs'][0] is not None
        qs = []
        for i, x in enumerate(case['inputs']):
            q = queue.Queue()
            for k in range(lengths[i]):
                if kind == 'streams':
                    q.put(bi.Chunk((slice(k, k + 1),), (i, k)))
                else:
                    q.put(bi.Chunk((slice(k, k + 1),), np.array([k + 1.])))
            q.put(bi.QUEUE_FINISHED if x is None else bi.QUEUE_ABORT)
            qs.append(q)
        node.input_queues = qs
    for q in outs:
        node.add_output_queue(q)

    def go():
        try:
            with Limit(1):
                node.run()
        except BaseException:
            pass
    try:
        bounded(go, 10)
    except Hang:
        return 'node does not finish'
    if kind == 'ndarray':
        if failed != (node.result is None):
            return 'result %r although %s' % (
                node.result, 'an input failed' if failed else 'none failed')
        if not failed and list(node.result) != [k + 1. for k in range(n)]:
            return 'result %r' % (node.result,)
        return None
    for q in outs:
        got = drain(q)
        ends = [x for x in got if x is bi.QUEUE_FINISHED or
                x is bi.QUEUE_ABORT]
        if len(ends) != 1 or not got or got[-1] is not ends[0]:
            return '%d end markers in %r' % (len(ends), got)
        if (ends[0] is bi.QUEUE_ABORT) != failed:
            return 'end marker %r although %s' % (
                ends[0], 'a failure occurred' if failed else 'none failed')
        if kind == 'producer':
            vals = [float(x.data[0]) for x in got[:-1]]
            if vals != [float(x) for x in expect]:
                return 'chunks %r expected %r' % (vals, expect)
        elif len(got) - 1 != len(handler.expect) or any(
                a is not b for a, b in zip(got, handler.expect)):
            return 'outputs %r expected %r' % (got[:-1], handler.expect)
    return None


def run(arrays, case):
    masked = case.get('masked', False)
    if case.get('single'):
        return (arrays[0].masked_array() if masked
                else arrays[0].ndarray())
    return (biggus.masked_arrays(arrays) if masked
            else biggus.ndarrays(arrays))


def law_lazy(case):
    """No source element is read by building and querying metadata."""
    shared = case.get('shared', ())
    made = []

    def wrap(data, ortho):
        c = Concrete(data, ortho=ortho)
        made.append(c)
        return c
    env = Env(shared, wrap)
    try:
        a = env.build(case['expr'])
        a.shape, a.dtype, a.ndim, a.nbytes, a.fill_value
        str(a), repr(a)
        biggus.size(a)
    except (NotImplementedError, TypeError, AttributeError):
        pass
    except Exception as err:
        # Raises Skip if NumPy refuses the expression, too.
        Env(shared).denote(case['expr'])
        return 'raised %s: %s' % (type(err).__name__, err)
    for i, c in enumerate(made):
        if c.reads:
            return 'source %d was read %d time(s), first with %r' % (
                i, len(c.reads), c.reads[0])
    return None


def snapshot(x):
    if ma.isMaskedArray(x):
        return ma.masked_array(x.data.copy(),
                               mask=ma.getmaskarray(x).copy())
    return np.array(x)


def law_pure(case):
    """After using several expressions over shared arrays, every source is
    unchanged and every array converts to what it did before."""
    shared = case.get('shared', ())
    env = Env(shared)
    try:
        [env.denote(['ref', i]) for i in range(len(shared))]
        parents = [env.build(['ref', i]) for i in range(len(shared))]
    except ValueError:      # e.g. integers to negative powers
        raise Skip()
    limit = case.get('limit')

    def values():
        out = []
        with Limit(limit):
            for p in parents:
                out.append((tuple(p.shape), p.dtype,
                            snapshot(bounded(p.ndarray))))
                try:
                    out.append(snapshot(bounded(p.masked_array)))
                except TypeError:
                    out.append(None)
        return out
    before = values()
    results = []

    def keep(r):
        results.append((r, snapshot(r)))
    built = []
    for step in list(case['steps']) + [None] * bool(case.get('joint')):
        try:
            with Limit(limit):
                if step is None:
                    for r in bounded(lambda: biggus.ndarrays(built)):
                        keep(r)
                    for r in bounded(lambda: biggus.ndarrays(built[::-1])):
                        keep(r)
            if step is None:
                continue
            a = env.build(step)
            built.append(a)
            with Limit(limit):
                keep(bounded(a.ndarray))
                keep(bounded(a.masked_array))
                if case.get('save'):
                    t = Target(tuple(a.shape), a.dtype, False)
                    biggus.save([a], [t])
        except Hang as err:
            return str(err)
        except Exception:
            pass
        for i, (conc, data, copy) in enumerate(env.sources):
            ok = (same_ma(data, copy) if ma.isMaskedArray(data)
                  else same(data, copy))
            if not ok or (ma.isMaskedArray(data) and not same(data.data,
                                                              copy.data)):
                return 'source %d changed to %s by %r' % (i, short(data),
                                                          step)
    after = values()
    for r, copy in results:
        if not (same_ma(r, copy) if ma.isMaskedArray(r) else same(r, copy)):
            return 'an earlier result changed to %s, before %s' % (
                short(r), short(copy))
    for b, c in zip(before, after):
        if b is None or c is None:
            if b is not c:
                return 'conversion changed'
            continue
        if isinstance(b, tuple):
            if b[:2] != c[:2] or not same(b[2], c[2], 1e-12):
                return 'an existing array now converts to %s, before %s' % (
                    short(c[2]), short(b[2]))
        elif not same_ma(b, c, 1e-12):
            return 'an existing array now converts (masked) to %s, before ' \
                '%s' % (short(c), short(b))
    return None


def law_meta(case):
    """ndim, nbytes of arrays of any virtual size."""
    shape = tuple(case['shape'])
    a = biggus.ConstantArray(shape, dtype=case['dtype'])
    n = np.dtype(case['dtype']).itemsize
    for s in shape:
        n *= s
    if a.nbytes != n:
        return 'nbytes is %r, expected %r' % (a.nbytes, n)
    if a.ndim != len(shape) or tuple(a.shape) != shape:
        return 'ndim/shape'
    exp = human(n)
    if biggus.size(a) != exp:
        return 'size is %r, expected %r' % (biggus.size(a), exp)
    return None


def human(n):
    for i, u in enumerate(['B', 'KiB', 'MiB', 'GiB', 'TiB']):
        if n < 1 << (10 * (i + 1)) or u == 'TiB':
            return ('%d B' % n if i == 0 else
                    '{:.02f} {}'.format(n / (1 << (10 * i)), u))


def law_axis(case):
    """Axis arguments of the aggregations."""
    fn, shape, axis = case['fn'], tuple(case['shape']), case['axis']
    a = biggus.ConstantArray(shape)
    if case.get('conv') == 'tuple':
        axis = tuple(axis) if isinstance(axis, list) else axis
    elif case.get('conv') not in (None, 'nptuple'):
        axis = np.dtype(case['conv']).type(axis)
    elif case.get('conv') == 'nptuple':
        axis = tuple(np.int64(x) for x in axis)
    kind = case['expect']
    try:
        r = getattr(biggus, fn)(a, axis=axis)
        got = tuple(r.shape)
    except Exception as err:
        if kind == 'ok':
            return 'refused: %s: %s' % (type(err).__name__, err)
        if kind == 'value' and not isinstance(err, ValueError):
            return '%s instead of ValueError' % type(err).__name__
        if kind == 'type' and not isinstance(err, TypeError):
            return '%s instead of TypeError' % type(err).__name__
        return None
    if kind != 'ok':
        return 'axis %r accepted on shape %r' % (axis, shape)
    ax = axis[0] if isinstance(axis, (tuple, list)) else axis
    ax = int(ax) % len(shape)
    exp = shape[:ax] + shape[ax + 1:]
    if got != exp:
        return 'shape %r, expected %r' % (got, exp)
    return None


def law_bcast(case):
    """a op b combines iff NumPy broadcasts the shapes."""
    s1, s2 = tuple(case['s1']), tuple(case['s2'])
    d1 = make_data({'shape': s1, 'seed': 1, 'mask': case.get('m1', 0)})
    d2 = make_data({'shape': s2, 'seed': 2, 'mask': case.get('m2', 0)})
    try:
        exp = np.broadcast(np.empty(s1), np.empty(s2)).shape
    except ValueError:
        exp = None
    a, b = biggus.NumpyArrayAdapter(d1), biggus.NumpyArrayAdapter(d2)
    try:
        x, y = biggus.BroadcastArray.broadcast_arrays(a, b)
        r = a + b
        got = tuple(r.shape)
    except ValueError as err:
        if exp is None:
            return None
        return 'refused broadcastable shapes %r %r: %s' % (s1, s2, err)
    except Exception as err:
        return '%s: %s' % (type(err).__name__, err)
    if exp is None:
        return 'combined shapes that NumPy refuses: %r %r' % (s1, s2)
    if got != exp or tuple(x.shape) != exp or tuple(y.shape) != exp:
        return 'shape %r, expected %r' % ((got, x.shape, y.shape), exp)
    for arr, d in ((x, d1), (y, d2)):
        e = np.broadcast_to(ma.filled(d), exp)
        if not same(arr.ndarray(), e):
            return 'operand %s expected %s' % (short(arr.ndarray()),
                                               short(e))
        e = ma.masked_array(np.broadcast_to(ma.getdata(d), exp),
                            mask=np.broadcast_to(ma.getmaskarray(d), exp))
        if not same_ma(arr.masked_array(), e):
            return 'masked operand %s expected %s' % (
                short(arr.masked_array()), short(e))
    if not same(r.ndarray(), ma.filled(d1) + ma.filled(d2)):
        return 'sum'
    if not same_ma(r.masked_array(), ma.asarray(d1) + ma.asarray(d2)):
        return 'masked sum'
    if 's3' in case:
        return bcast_again(case, [(x, d1), (y, d2)], exp)
    return None


def bcast_again(case, pairs, shape):
    """The broadcast operands are broadcast again, twice."""
    ops = [(arr, broadcast_ma(d, shape)) for arr, d in pairs]
    for seed, s in ((3, case['s3']), (4, case['s4'])):
        d3 = make_data({'shape': tuple(s), 'seed': seed, 'mask': 1})
        out = []
        for arr, d in ops:
            try:
                exp = np.broadcast(np.empty(d.shape), np.empty(d3.shape)
                                   ).shape
            except ValueError:
                exp = None
            try:
                x, y = biggus.BroadcastArray.broadcast_arrays(
                    arr, biggus.NumpyArrayAdapter(d3))
            except ValueError as err:
                if exp is None:
                    continue
                return 'refused broadcastable shapes %r %r: %s' % (
                    d.shape, d3.shape, err)
            except Exception as err:
                return '%s: %s' % (type(err).__name__, err)
            if exp is None:
                return 'combined shapes that NumPy refuses: %r %r' % (
                    d.shape, d3.shape)
            for got, e in ((x, d), (y, d3)):
                e = broadcast_ma(e, exp)
                if tuple(got.shape) != exp:
                    return 'shape %r, expected %r' % (got.shape, exp)
                if not same_ma(got.masked_array(), e):
                    return 'broadcast %s, expected %s' % (
                        short(got.masked_array()), short(e))
                if got is x:
                    out.append((x, e))
                if np.shape(got.ndarray()) != exp:
                    return 'converted shape %r, expected %r' % (
                        np.shape(got.ndarray()), exp)
        ops = out
    return None


def broadcast_ma(d, shape):
    return ma.masked_array(np.broadcast_to(ma.getdata(d), shape),
                           mask=np.broadcast_to(ma.getmaskarray(d), shape))


def law_mixed(case):
    """Items of several shapes and dtypes are refused, or laid out."""
    env = Env()
    dens = [env.denote(e) for e in case['items']]
    ax = case['axis']
    shapes = [list(nd.shape) for nd, m in dens]
    sizes = [1] * len(shapes)
    if case['kind'] == 'mosaic':
        if any(len(s) <= ax for s in shapes):
            fits = False
        else:
            sizes = [s.pop(ax) for s in shapes]
            fits = all(s == shapes[0] for s in shapes)
    else:
        fits = all(s == shapes[0] for s in shapes)
    plain = fits and len(set(nd.dtype for nd, m in dens)) == 1
    try:
        items = [env.build(e) for e in case['items']]
        if case['kind'] == 'stack':
            st = np.empty(len(items), dtype='O')
            for i, x in enumerate(items):
                st[i] = x
            a = biggus.ArrayStack(st)
        else:
            a = biggus.LinearMosaic(items, ax)
        shape = tuple(a.shape)
        nd = a.ndarray()
        m = a.masked_array()
    except Exception as err:
        if plain:
            return 'refused valid items: %s: %s' % (type(err).__name__, err)
        return None
    if not fits:
        return 'items of shapes %r give data of shape %r' % (
            [d.shape for d, m in dens], np.shape(nd))
    total = sum(sizes)
    exp = tuple(shapes[0][:ax]) + (total,) + tuple(shapes[0][ax:])
    if shape != exp or np.shape(nd) != exp or np.shape(m) != exp:
        return 'shape %r, converted %r and %r, expected %r' % (
            shape, np.shape(nd), np.shape(m), exp)
    start = 0
    for k, ((d, dm), n) in enumerate(zip(dens, sizes)):
        keys = (slice(None),) * ax + (
            (start,) if case['kind'] == 'stack' else
            (slice(start, start + n),))
        start += n
        if not np.array_equal(nd[keys], d):
            return 'item %d is %s, expected %s' % (k, short(nd[keys]),
                                                   short(d))
        got, mask = m[keys], ma.getmaskarray(dm)
        if not (np.array_equal(ma.getmaskarray(got), mask) and
                np.array_equal(ma.getdata(got)[~mask],
                               ma.getdata(dm)[~mask])):
            return 'masked item %d is %s, expected %s' % (k, short(got),
                                                          short(dm))
    return None


def law_group(case):
    """key_grouper.group_keys on tilings."""
    from biggus.experimental import key_grouper as kg
    n = case['n']
    inputs = [[tuple(slice(*s) for s in keys) for keys in inp]
              for inp in case['inputs']]
    shape = tuple(case['shape'])
    if case.get('singles'):
        inputs.append([(slice(i, i + 1),) for i in range(case['singles'])])
    args = [list(i) for i in inputs]
    if case.get('shared'):
        args[-1] = args[0]
    try:
        groups = kg.group_keys(shape, *args)
    except Exception as err:
        return 'raised %s: %s' % (type(err).__name__, err)
    if args != inputs:
        return 'the lists of keys were changed'
    if case.get('singles'):
        if list(groups) != [((None, None, None),)] or \
                [len(m) for m in list(groups.values())[0]] != [
                    1, case['singles']]:
            return 'wrong groups of very many keys'
        return None
    count = np.zeros(shape, dtype=int)
    seen = [0] * len(inputs)
    for g, members in groups.items():
        region = tuple(slice(*s) for s in g)
        count[region] += 1
        if len(members) != len(inputs):
            return 'group lacks an input'
        for i, keys in enumerate(members):
            cover = np.zeros(shape, dtype=int)
            for k in keys:
                cover[k] += 1
                if k not in inputs[i]:
                    return 'invented key'
            seen[i] += len(keys)
            exp = np.zeros(shape, dtype=int)
            exp[region] = 1
            if not (cover == exp).all():
                return 'keys of input %d do not tile group %r' % (i, g)
    if not (count == 1).all():
        return 'groups do not partition the shape'
    if seen != [len(i) for i in inputs]:
        return 'keys lost or repeated: %r' % seen
    return None


def law_deep(case):
    """multidim placement etc. are covered by law_convert."""
    return law_convert(case)


LAWS = {k[4:]: v for k, v in list(globals().items()) if k.startswith('law_')}


def check(case):
    try:
        return LAWS[case['law']](case)
    except (Skip, NotImplementedError):
        return None
