"""Contracts of the nodes of the threaded engine (C14, C15).

A queue is a sequence of chunks followed by one end marker.  What is proved of
each node's `run`, for any number of chunks and of output queues, with every
operation that a node performs allowed to fail at any point:
  * every output queue receives the node's chunks in order, then one end
    marker, then nothing;
  * the marker is the failure marker iff something failed here or upstream;
  * every input queue is read up to its end marker and never beyond (a read
    beyond it would wait forever).
"""
from contracts.common import *          # noqa
from contracts import common
from pyvc import keys as pkeys


def may_fail(what):
    """Any operation may raise."""
    c = ctx()
    if c.user.get('no_failures'):
        return
    if c.pick('fails', 2) == 1:
        c.user['failed'] = True
        raise core.AnyError(what)


class Token(object):
    """A chunk in a queue."""

    def __init__(self, queue, index):
        self.queue = queue
        self.index = index
        self.keys = VTuple([Seg(seqs.Base(
            'keys', lambda z: core_token(z)), 0, queue.rank)])
        self.data = TokenData(self)

    def veq(self, o):
        if not isinstance(o, Token) or o.queue is not self.queue:
            return False
        return self.index == o.index


def core_token(z):
    return SSlice(generic='key')


class TokenData(object):
    def __init__(self, token):
        self.token = token


class Cursor(object):
    """How much of an input queue has been read."""

    def __init__(self, queue, z):
        self.queue = queue
        self.z = core.simp(z)

    def veq(self, o):
        if not isinstance(o, Cursor):
            return False
        return core.simp(self.z == o.z)


class InQueue(object):
    """An input queue: n chunks and then the end marker."""

    def __init__(self, name, g, n, aborted, rank):
        self.vc_name = name
        self.n = n
        self.rank = rank
        self.marker = g['QUEUE_ABORT'] if aborted else g['QUEUE_FINISHED']
        self.cur = Cursor(self, z3.IntVal(0))
        self._serial = -1

    def item(self, z):
        c = ctx()
        z = core.simp(z)
        if c.branch(z < self.n):
            return Token(self, z)
        return self.marker

    def get(self, *a, **k):
        c = ctx()
        z = self.cur.z
        if a or k:
            raise Limitation('get with a timeout')
        if not c.prove('an ended input is never read again', z <= self.n):
            raise EndPath()
        c.assume(z <= self.n)
        self.cur = Cursor(self, z + 1)
        return self.item(z)

    def task_done(self):
        pass

    def qsize(self):
        return ctx().int('qsize', 0)

    def empty(self):
        return ctx().pick('empty', 2) == 1

    def full(self):
        return ctx().pick('full', 2) == 1

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Limitation("queue.%s" % name)


def entry(loop, cond, k):
    """A condition on the state after k iterations, as a part of a candidate:
    it holds at the entry of the loop, is assumed at its head and checked
    after an iteration."""
    c = ctx()
    if not loop.assuming:
        loop.checks.append(cond(k))
        return True
    if c.valid(cond(z3.IntVal(0))) is not True:
        return False
    c.assume(cond(k))
    return True


class CursorGhost(object):
    """cur = its value at the entry + the number of iterations, and the queue
    has not ended before."""

    def __init__(self, slack, named=False):
        """named: only if the queue is the value of a local variable."""
        self.slack = slack
        self.named = named

    def accepts(self, loop, v0):
        return isinstance(v0, Cursor)

    def at(self, loop, v0, k):
        if self.named and not any(v is v0.queue
                                  for v in loop.locals.values()):
            return v0
        if not entry(loop, lambda k: z3.And(
                v0.z + k >= 0, v0.z + k <= v0.queue.n + self.slack), k):
            return None
        return Cursor(v0.queue, v0.z + k)


class ItemGhost(object):
    """The last item read of a queue."""

    def accepts(self, loop, v0):
        return isinstance(v0, Token)

    def at(self, loop, v0, k):
        q = v0.queue
        if not entry(loop, lambda k: v0.index + k <= q.n, k):
            return None
        v = q.item(v0.index + k)
        return loops.NONE if v is None else v


OPEN = 'open'


class OutQueue(object):
    """An arbitrary one of the output queues."""

    def __init__(self, g):
        self.g = g
        self.vc_name = 'output'
        self.sent = 0           # chunks received (if counted)
        self.counting = False
        self.end = OPEN         # the end marker received
        self.expected = None    # the chunk which is due
        self._serial = -1

    def put(self, x, *a, **k):
        c = ctx()
        g = self.g
        if a or k:
            raise Limitation('put with a timeout')
        c.prove('nothing follows the end marker', self.end is OPEN)
        if x is g['QUEUE_FINISHED'] or x is g['QUEUE_ABORT']:
            self.end = x
            if x is g['QUEUE_FINISHED']:
                c.prove('the end comes after all the chunks',
                        self.expected is None)
            return
        want, self.expected = self.expected, None
        self.due(x, want)
        if self.counting:
            self.sent = self.sent + 1

    def due(self, x, want):
        ctx().prove('each result is passed on once, in order',
                    want is not None and x is want)


class Sink(object):
    """Another output queue."""

    def put(self, x):
        pass


def outputs(c, q):
    """Any number of output queues, q among them."""
    n, m = c.int('before', 0), c.int('after', 0)
    return VList([Seg(seqs.Base('outs', lambda z: Sink(), n), 0, n.z),
                  Item(q),
                  Seg(seqs.Base('outs', lambda z: Sink(), m), 0, m.z)])


def ends(c, g, q, failed, raised):
    c.prove('an end marker is always sent', q.end is not OPEN)
    if failed:
        c.prove('a failure is passed on as the failure marker',
                q.end is g['QUEUE_ABORT'])
    else:
        c.prove('without a failure the normal end is sent',
                q.end is g['QUEUE_FINISHED'])


# ------------------------------------------------------------- ProducerNode
class SourceArray(object):
    """A source: indexing and converting may fail at any time."""

    def __init__(self, rank):
        self.rank = rank

    @property
    def shape(self):
        return self.the_shape

    @property
    def ndim(self):
        return num(self.rank)

    def __getitem__(self, key):
        may_fail('indexing')
        return Part(self, key)


class Part(object):
    def __init__(self, array, key):
        self.array, self.key = array, key

    def ndarray(self):
        may_fail('reading')
        return Data(self, False)

    def masked_array(self):
        may_fail('reading')
        return Data(self, True)


class Data(object):
    def __init__(self, part, masked):
        self.part, self.masked = part, masked


class KeyOf(object):
    """Key number z of the chunk keys."""

    def __init__(self, z):
        self.z = z


@contract('ProducerNode.run', ['ProducerNode.run', 'ProducerNode.__init__',
                               'Node.output', 'Node.abort'],
          trusted=['ProducerNode.chunk_index_gen yields a finite sequence of '
                   'keys (its contract: C09)',
                   'queue.put and get do not fail'])
def producer_run(c, env):
    g = env.g
    n = c.int('chunks', 0)
    masked = c.pick('masked', 2) == 1
    keys = seqs.Base('keys', lambda z: KeyOf(z), n)
    order = object.__new__(type('Order', (), {
        'vlen': lambda self: num(rank.z)}))
    rank = c.int('rank', 0)
    arr = SourceArray(rank.z)
    arr.the_shape = object()
    where = {}

    class P(g['ProducerNode']):
        @staticmethod
        def chunk_index_gen(shape, iteration_order):
            c.prove('the chunks are those of the array',
                    shape is arr.the_shape)
            c.prove('the chunks are traversed in the requested order',
                    iteration_order is order)
            return VTuple([Seg(keys, 0, n.z)])
    node = P(arr, order, masked)
    q = OutQueue(g)

    def due(x, want):
        c.prove('what is sent is a chunk', isinstance(x, g['Chunk']))
        k = x.keys
        c.prove('the chunks are sent in order, each once',
                isinstance(k, KeyOf) and k.z == lift(q.sent))
        d = x.data
        ok = isinstance(d, Data) and d.part.array is arr and isinstance(
            d.part.key, KeyOf)
        c.prove("a chunk's data is the converted part of the array at its "
                'key', z3.And(z3.BoolVal(ok), d.part.key.z == k.z)
                if ok else False)
        c.prove('chunks are masked arrays iff masked ones are evaluated',
                isinstance(d, Data) and d.masked == masked)
    q.due = due
    q.counting = True
    node.output_queues = outputs(c, q)
    c.user['attr_objs'] = [(q, a) for a in ('sent', 'end', 'expected')]
    out = call(node.run)
    failed = bool(c.user.get('failed'))
    ends(c, g, q, failed, not out.ok)
    if not failed:
        c.prove('an evaluation without failures does not raise', out.ok)
        c.prove('every chunk is sent', lift(q.sent) == n.z)


# ------------------------------------------------------------- ConsumerNode
def inputs(c, g, m, rank, joint=True):
    """m inputs.  Those that do not fail have equally many chunks."""
    n = c.int('chunks', 0)
    qs = []
    for i in range(m):
        aborted = c.pick('input fails', 2) == 1
        if aborted:
            k = c.int('chunks before the failure', 0)
            c.assume(k.z <= n.z)
        else:
            k = n
        qs.append(InQueue('input%d' % i, g, k.z, aborted, rank))
    c.user['inputs'] = qs
    c.user['ghosts'] = [
        CursorGhost(0), CursorGhost(1), CursorGhost(0, True),
        CursorGhost(1, True), ItemGhost()]
    c.user['unroll'] = 2
    return n, qs


class Result(object):
    pass


class Work(object):
    """What process_chunks and finalise of a node do."""

    def __init__(self, c, qs, q):
        self.c, self.qs, self.q = c, qs, q
        self.calls = 0
        self.finalised = False
        self.vc_name = 'work'
        self._serial = -1

    def process(self, chunks):
        c = self.c
        if self.q is not None:
            c.prove('each result is passed on before the next input',
                    self.q.expected is None)
        c.prove('nothing is processed after the end', not self.finalised)
        items = list(chunks)
        ok = len(items) == len(self.qs)
        c.prove('one chunk of each input is processed', ok)
        for t, q in zip(items, self.qs):
            good = isinstance(t, Token) and t.queue is q
            c.prove('the inputs are processed in lock-step, in order',
                    z3.And(z3.BoolVal(good), t.index == lift(self.calls))
                    if good else False)
        may_fail('processing')
        self.calls = self.calls + 1
        return self.result()

    def finalise(self):
        c = self.c
        c.prove('the end is processed once', not self.finalised)
        if self.q is not None:
            c.prove('each result is passed on before the next input',
                    self.q.expected is None)
        may_fail('finalising')
        self.finalised = True
        return self.result()

    def result(self):
        if self.c.pick('result', 2) == 0:
            return None
        r = Result()
        self.q.expected = r
        return r


def consumer(m):
    def body(c, env):
        g = env.g
        n, qs = inputs(c, g, m, c.int('rank', 0).z)
        q = OutQueue(g)
        w = Work(c, qs, q)

        class N(g['ConsumerNode']):
            def process_chunks(self, chunks):
                return w.process(chunks)

            def finalise(self):
                return w.finalise()
        node = N()
        node.input_queues = VList([Item(x) for x in qs])
        node.output_queues = outputs(c, q)
        c.user['attr_objs'] = [(x, 'cur') for x in qs] + [
            (q, a) for a in ('sent', 'end', 'expected')] + [
            (w, a) for a in ('calls', 'finalised')]
        out = call(node.run)
        here = bool(c.user.get('failed'))
        failed = here or any(x.marker is g['QUEUE_ABORT'] for x in qs)
        ends(c, g, q, failed, not out.ok)
        for x in qs:
            c.prove('every input is read up to its end',
                    x.cur.z == x.n + 1)
        if not failed:
            c.prove('an evaluation without failures does not raise', out.ok)
            c.prove('every chunk is processed', lift(w.calls) == n.z)
            c.prove('the node is finalised', w.finalised)
        if not here:
            c.prove('only a failure here raises here', out.ok)
    return body


FUNCS = ['ConsumerNode.run', 'Node.output', 'Node.abort']
TRUST = ['the inputs of a node which do not fail have equally many chunks '
         '(proved of the chunk generation: C09; used as the contract of the '
         'input nodes)', 'queue.put and get do not fail']
consumer_1 = contract('ConsumerNode.run: one input', FUNCS,
                      trusted=TRUST)(consumer(1))
consumer_2 = contract('ConsumerNode.run: two inputs', FUNCS,
                      trusted=TRUST)(consumer(2))


# -------------------------------------------------------------- NdarrayNode
class ResultModel(object):
    """The array in which a result is collected."""

    def __init__(self, q, rank):
        self.q, self.rank = q, rank
        self.stored = 0
        self.vc_name = 'result'
        self._serial = -1

    def __setitem__(self, keys, data):
        c = ctx()
        ok = isinstance(data, TokenData)
        c.prove('every chunk is stored, once and in order', z3.And(
            z3.BoolVal(ok), data.token.index == lift(self.stored))
            if ok else False)
        if keys is Ellipsis:
            c.prove('a chunk is stored at its own position',
                    self.rank == 0)
        elif ok:
            c.prove('a chunk is stored at its own position',
                    veq(keys, data.token.keys))
        may_fail('storing')
        self.stored = self.stored + 1


class FakeArray(object):
    def __init__(self, name='', ndim=0):
        self.name = name
        self.shape = object()
        self.dtype = object()
        self.ndim = ndim


@contract('NdarrayNode.run', ['NdarrayNode.__init__', 'NdarrayNode.abort',
                              'NdarrayNode.finalise',
                              'NdarrayNode.process_chunks'] + FUNCS,
          trusted=TRUST + ['ndarray.__setitem__ stores the data at the keys'])
def ndarray_node(c, env):
    g = env.g
    rank = c.int('rank', 0).z
    n, qs = inputs(c, g, 1, rank)
    masked = c.pick('masked', 2) == 1
    arr = FakeArray()
    arr.shape = pkeys.sizes('shape', rank)
    arr.dtype = np.dtype('i2')
    res = ResultModel(qs[0], rank)
    made = []

    def empty(kind):
        def f(shape, dtype=float, **k):
            made.append(kind)
            c.prove('the result has the shape of the array',
                    veq(shape, arr.shape))
            c.prove('the result has the dtype of the array',
                    dtype is arr.dtype or dtype == arr.dtype)
            return res
        return f
    env.np._models['empty'] = empty(False)
    env.np.ma._models['empty'] = empty(True)
    node = g['NdarrayNode'](arr, masked)
    c.prove('the result is a masked array iff that is asked for',
            made == [masked])
    node.input_queues = VList([Item(x) for x in qs])
    c.user['attr_objs'] = [(x, 'cur') for x in qs] + [
        (res, 'stored'), (node, 'result')]
    node._serial = -1
    call(node.run)
    failed = bool(c.user.get('failed')) or qs[0].marker is g['QUEUE_ABORT']
    c.prove('every input is read up to its end',
            qs[0].cur.z == qs[0].n + 1)
    if failed:
        c.prove('after a failure there is no result', node.result is None)
    else:
        c.prove('the result is kept', node.result is res)
        c.prove('every chunk is stored', lift(res.stored) == n.z)


@contract('ConsumerNode.add_input_nodes', ['ConsumerNode.add_input_nodes',
                                           'Node.add_output_queue',
                                           'Node.__init__',
                                           'ConsumerNode.__init__'],
          bound='<= 3 inputs (biggus has no node with more than two)')
def add_input_nodes(c, env):
    g = env.g

    class N(g['ConsumerNode']):
        def process_chunks(self, chunks):
            raise Limitation('process_chunks')
        finalise = process_chunks

    class P(g['Node']):
        def run(self):
            raise Limitation('run')
    pool = [P(), P()]
    other = object()
    for p in pool:
        p.add_output_queue(other)
    m = c.among([1, 2, 3])
    nodes = [c.among(pool) for _ in range(m)]
    node = N()
    out = call(node.add_input_nodes, nodes)
    c.prove('inputs can be added', out.ok)
    qs = list(node.input_queues)
    c.prove('there is one queue for each input', len(qs) == m)
    c.prove('the queues are distinct',
            len(set(id(q) for q in qs)) == len(qs))
    for p in pool:
        want = [other] + [q for q, x in zip(qs, nodes) if x is p]
        have = list(p.output_queues)
        c.prove('each input node sends to its queues, and to those it had',
                len(have) == len(want) and
                all(any(h is w for h in have) for w in want))


@contract('StreamsHandlerNode', ['StreamsHandlerNode.finalise',
                                 'StreamsHandlerNode.process_chunks',
                                 'StreamsHandlerNode.input_iteration_order',
                                 'StreamsHandlerNode.__init__'])
def handler_node(c, env):
    g = env.g
    arg, ret = object(), object()
    calls = []

    class H(object):
        def finalise(self):
            calls.append(('finalise',))
            may_fail('finalising')
            return ret

        def process_chunks(self, chunks):
            calls.append(('process_chunks', chunks))
            may_fail('processing')
            return ret

        def input_iteration_order(self, order):
            calls.append(('input_iteration_order', order))
            return ret
    arr = FakeArray()
    node = g['StreamsHandlerNode'](arr, H())
    which = c.among(['finalise', 'process_chunks', 'input_iteration_order'])
    a = () if which == 'finalise' else (arg,)
    out = call(getattr(node, which), *a)
    c.prove('the handler is called once', calls == [(which,) + a])
    if c.user.get('failed'):
        c.prove('its failure is passed on', not out.ok)
    else:
        c.prove('its result is passed on', out.ok and out.value is ret)
    c.prove('the node is that of the array', node.array is arr)


# ------------------------------------------------------------- handlers
class Operand(object):
    def __init__(self, shape=()):
        self.shape = shape


@contract('_ElementwiseStreamsHandler.process_chunks',
          ['_ElementwiseStreamsHandler.%s' % x for x in (
              'process_chunks', 'finalise', 'input_iteration_order',
              'output_keys')] + ['_Elementwise.streams_handler',
                                 '_Elementwise.sources'],
          bound='one or two operands (all that _Elementwise admits)')
def elementwise_handler(c, env):
    g = env.g
    m = c.among([1, 2])
    masked = c.pick('masked', 2) == 1
    has_ma = c.pick('has a masked operation', 2) == 1
    calls = []

    class Done(object):
        is_model = True

        def __init__(self, dtype):
            self.dtype, self.of = np.dtype(dtype), None

        def astype(self, dtype):
            x = Done(dtype)
            x.of = self.of or self
            return x
    # NumPy can choose another dtype for the arrays than was declared.
    done = Done(c.among(['f8', 'i8']))

    def op(kind):
        def f(*a):
            calls.append((kind,) + a)
            may_fail('operating')
            return done
        return f
    ew = object.__new__(g['_Elementwise'])
    ew._array1 = FakeArray('a')
    ew._array2 = FakeArray('b') if m == 2 else None
    ew._numpy_op = op('np')
    ew._ma_op = op('ma') if has_ma else None
    ew._dtype = np.dtype(float)
    out = call(ew.streams_handler, masked)
    if masked and not has_ma:
        c.prove('without a masked operation there is a TypeError',
                out.raised(TypeError))
        return
    c.prove('a handler is made', out.ok)
    if not out.ok:
        return
    h = out.value
    keys = (SSlice(c.int('s', 0), c.int('e', 0), None),)
    data = [Operand() for _ in range(m)]
    chunks = VList([Item(g['Chunk'](keys, d)) for d in data])
    out = call(h.process_chunks, chunks)
    c.prove('the operation is applied once, to the operands in order',
            calls == [('ma' if masked else 'np',) + tuple(data)])
    if c.user.get('failed'):
        c.prove('its failure is passed on', not out.ok)
    else:
        c.prove('each chunk of operands gives a chunk of the result',
                out.ok and isinstance(out.value, g['Chunk']) and
                (out.value.data is done or out.value.data.of is done) and
                out.value.data.dtype == ew._dtype and
                veq(out.value.keys, keys))
    out = call(h.finalise)
    c.prove('there is nothing left at the end', out.ok and out.value is None)
    order = [0, 1]
    out = call(h.input_iteration_order, order)
    c.prove('the operands are traversed in the order of the result',
            out.ok and list(out.value) == order)
    out = call(h.output_keys, keys)
    c.prove('chunks of the result are where those of the operands are',
            out.ok and veq(out.value, keys))


@contract('_AggregationStreamsHandler.process_chunks',
          ['_AggregationStreamsHandler.process_chunks',
           '_AggregationStreamsHandler.output_keys',
           '_AggregationStreamsHandler.output_shape',
           '_AggregationStreamsHandler.__init__'],
          bound='rank <= 3',
          trusted=['bootstrap, process_data and finalise of the seven '
                   'statistics: their contracts (C11, C12)'])
def aggregation_chunks(c, env):
    g = env.g
    rank = c.among([1, 2, 3])
    axis = c.among(list(range(rank)))
    calls = []
    ret = object()

    class H(g['_AggregationStreamsHandler']):
        def bootstrap(self, shape):
            calls.append(('bootstrap', tuple(shape)))
            may_fail('bootstrap')

        def process_data(self, data):
            calls.append(('data', data))
            may_fail('data')

        def finalise(self):
            calls.append(('finalise', self.current_keys))
            may_fail('finalise')
            return ret
    h = H(FakeArray(), axis)
    old = c.pick('has begun', 2) == 1
    cur = None
    if old:
        cur = tuple(SSlice(c.int('cur.s', 0), c.int('cur.e', 0), None)
                    for _ in range(rank - 1))
        h.current_keys = cur
    keys = tuple(SSlice(c.int('key.s', 0), c.int('key.e', 0), None)
                 for _ in range(rank))
    shape = tuple(c.int('n', 0) for _ in range(rank))
    data = Operand(shape)
    out = call(h.process_chunks, VList([Item(g['Chunk'](keys, data))]))
    okeys = keys[:axis] + keys[axis + 1:]
    same = cur is not None and c.branch(z3.And(z3.BoolVal(True), *[
        z3.And(lift(x._parts[0]) == lift(y._parts[0]),
               lift(x._parts[1]) == lift(y._parts[1]))
        for x, y in zip(cur, okeys)]))
    names = [x[0] for x in calls]
    if c.user.get('failed'):
        c.prove('a failure is passed on', not out.ok)
        return
    c.prove('a chunk is accepted', out.ok)
    if not out.ok:
        return
    if same:
        c.prove('a chunk at the same position of the result is accumulated',
                names == ['data'])
        c.prove('nothing is emitted before the position is complete',
                out.value is None)
    else:
        c.prove('a chunk at another position of the result begins a new '
                'accumulation', names == ['finalise'] * old + [
                    'bootstrap', 'data'])
        if names[:1] == ['finalise']:
            c.prove('what is emitted is at the previous position',
                    veq(calls[0][1], cur))
        c.prove('the previous result is emitted',
                out.value is (ret if old else None))
        shapes = [x[1] for x in calls if x[0] == 'bootstrap']
        if len(shapes) == 1:
            c.prove('the accumulator has the shape of the part of the '
                    'result', veq(shapes[0], shape[:axis] +
                                  shape[axis + 1:]))
    c.prove('the data of the chunk is accumulated once',
            [x[1] for x in calls if x[0] == 'data'] == [data])
    c.prove('the position is remembered', veq(h.current_keys, okeys))


# ------------------------------------------------------------- evaluation
class FakeNode(object):
    def __init__(self, log, name):
        self.log, self.name = log, name

    def thread(self):
        self.log.append(('start', self))
        return Thread(self)


class Thread(object):
    def __init__(self, node):
        self.node = node

    def join(self, *a):
        if a:
            raise Limitation('join with a timeout')
        self.node.log.append(('join', self.node))

    def __getattr__(self, name):
        raise Limitation('thread.' + name)


@contract('AllThreadedEngine.Group.evaluate',
          ['AllThreadedEngine.Group.evaluate',
           'AllThreadedEngine.Group.__init__'],
          bound='<= 3 arrays',
          trusted=['_make_node and NdarrayNode: their contracts',
                   'a joined thread has finished'])
def evaluate(c, env):
    g = env.g
    log = []
    masked = c.pick('masked', 2) == 1
    m = c.among([1, 2, 3])
    arrays = [FakeArray(i, c.among([0, 1, 3]) if i == 0 else 2)
              for i in range(m)]
    if m > 1 and c.pick('twice', 2):
        arrays[1] = arrays[0]
    results = []

    class ResultNode(FakeNode):
        def __init__(self, array, masked_):
            FakeNode.__init__(self, log, 'result')
            self.array = array
            self.fails = c.pick('fails', 2) == 1
            c.prove('the results are masked arrays iff asked for',
                    masked_ == masked)
            results.append(self)
            log.append(('new', self))

        def add_input_nodes(self, nodes):
            nodes = list(nodes)
            c.prove('a result has one input', len(nodes) == 1)
            self.input = nodes[0]
            log.append(('connect', self))

        def _result(self):
            c.prove('a result is read after its thread has finished',
                    ('join', self) in log)
            return None if self.fails else (self,)
        result = property(_result)
    g['NdarrayNode'] = ResultNode

    class Group(g['AllThreadedEngine'].Group):
        def _make_node(self, array, iteration_order, masked_):
            c.prove('the nodes are masked ones iff masked arrays are '
                    'evaluated', masked_ == masked)
            c.prove('results are traversed in the order of their dimensions',
                    list(iteration_order) == list(range(array.ndim)))
            key = ('node', id(array))
            if key not in self._nodes:
                self._nodes[key] = FakeNode(log, array)
                self._nodes['input', id(array)] = FakeNode(log, None)
            log.append(('make', self._nodes[key]))
            return self._nodes[key]
    group = Group(arrays, list(range(m)))
    out = call(group.evaluate, masked)
    c.prove('there is one result for each array', [
        r.array for r in results] == arrays)
    nodes = list(group._nodes.values())
    for n in nodes + results:
        c.prove('every node is started exactly once',
                log.count(('start', n)) == 1)
    built = [i for i, (what, n) in enumerate(log)
             if what in ('connect', 'make')]
    c.prove('no input is started before all of its outputs are connected',
            all(i > built[-1] for i, (what, n) in enumerate(log)
                if what == 'start' and n in nodes))
    if any(r.fails for r in results):
        c.prove('a failure of any result is raised', not out.ok)
        return
    c.prove('an evaluation without failures does not raise', out.ok)
    if out.ok:
        got = list(out.value)
        c.prove('the results are in the order of the arrays',
                len(got) == m and all(
                    isinstance(x, tuple) and x[0] is r and
                    r.input.name is a
                    for x, r, a in zip(got, results, arrays)))


@contract('ndarrays and masked_arrays',
          ['AllThreadedEngine._evaluate', 'AllThreadedEngine._groups',
           'AllThreadedEngine.ndarrays', 'AllThreadedEngine.masked_arrays',
           'ndarrays', 'masked_arrays', '_Aggregation.ndarray',
           '_Aggregation.masked_array'],
          bound='<= 3 arrays, 4 with one repeated',
          trusted=['Group.evaluate: its contract'])
def requests(c, env):
    g = env.g
    E = g['AllThreadedEngine']
    fails = c.pick('fails', 2) == 1

    class Group(E.Group):
        def evaluate(self, masked):
            if fails:
                raise core.AnyError('evaluation')
            return VList([Item((a, masked)) for a in self.arrays])

    class Engine(E):
        pass
    Engine.Group = Group
    env.loader.biggus.engine = Engine()
    how = c.among(['function', 'method', 'aggregation'])
    masked = c.pick('masked', 2) == 1
    if how == 'aggregation':
        a = object.__new__(g['_Aggregation'])
        out = call(a.masked_array if masked else a.ndarray)
        arrays = [a]
        got = [out.value]
    else:
        # (An array may be given more than once.)
        which = c.among([(), (0,), (0, 1), (0, 0), (0, 1, 2), (0, 1, 0),
                         (0, 0, 1), (0, 1, 1), (0, 0, 0), (0, 1, 0, 1),
                         (0, 1, 2, 0)])
        arrays = [FakeArray(i) for i in range(3)]
        arrays = [arrays[i] for i in which]
        name = 'masked_arrays' if masked else 'ndarrays'
        if how == 'function':
            out = call(g[name], c.among([list, tuple])(arrays))
        else:
            out = call(getattr(Engine(), name), *arrays)
        got = list(out.value) if out.ok else None
    if fails:
        c.prove('a failure reaches the caller', not out.ok)
        return
    c.prove('a request is answered', out.ok)
    if out.ok:
        c.prove('one result for each array, in the order given',
                len(got) == len(arrays) and all(
                    isinstance(x, tuple) and len(x) == 2 and x[0] is a and
                    x[1] == masked for x, a in zip(got, arrays)))


# ------------------------------------------------------------- the graph
class CutSeq(object):
    """The slices into which a dimension is cut (contract of
    _all_slices_inner: a function of the shape; at least one of them)."""

    def __init__(self, shape, d, pool):
        c = ctx()
        self.pool = pool
        self.count = c.int('cuts', 1)

    def vlen(self):
        return self.count

    def __len__(self):
        return self.count.__index__()

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, CutSeq):
            return False
        key = frozenset((id(self), id(o)))
        if key not in self.pool:
            c = ctx()
            r = c.pick('equal cuts', 2) == 0
            if r:
                c.assume(self.count.z == o.count.z)
            self.pool[key] = r
        return self.pool[key]

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Leaf(object):
    def __init__(self, name, shape):
        self.name, self.shape = name, shape
        self.ndim = len(shape)

    def __repr__(self):
        return self.name


def graph_classes(g):
    class AggH(g['_AggregationStreamsHandler']):
        def bootstrap(self, shape):
            pass
        process_data = finalise = bootstrap

    class Agg(object):
        def __init__(self, source, axis):
            self.sources = (source,)
            self.axis = axis
            self.shape = source.shape[:axis] + source.shape[axis + 1:]
            self.ndim = len(self.shape)
            self.made = []

        def streams_handler(self, masked):
            h = AggH(self.sources[0], self.axis)
            h.made_for = (self, masked)
            return h

        def __repr__(self):
            return 'agg(%r, %d)' % (self.sources[0], self.axis)

        def in_order(self, order):
            r = [i if i < self.axis else i + 1 for i in order]
            return r + [self.axis]

        def cuts_from(self, cuts):
            return cuts[:self.axis] + cuts[self.axis + 1:]

    class Elem(object):
        def __init__(self, *sources):
            self.sources = sources
            self.shape = sources[0].shape
            self.ndim = len(self.shape)

        def streams_handler(self, masked):
            h = object.__new__(g['_ElementwiseStreamsHandler'])
            h.sources, h.operator = self.sources, max
            h.made_for = (self, masked)
            return h

        def __repr__(self):
            return 'elem%r' % (self.sources,)

        def in_order(self, order):
            return list(order)

        def cuts_from(self, cuts):
            return cuts
    return Agg, Elem


def graphs(Agg, Elem):
    """The families of expressions which are considered: arrays whose results
    (or whose parts) are asked for together."""
    n, m, k = [ctx().int(x, 1) for x in 'nmk']
    X, Y = Leaf('X', (n, m)), Leaf('Y', (n, m))
    Q = Leaf('Q', (n, n))
    V = Leaf('V', (n,))
    T = Leaf('T', (n, m, k))
    E = Elem(X, Y)
    U = Elem(X)
    yield lambda: [X, E, Elem(X, X)]
    yield lambda: [X, Agg(X, 0), Agg(X, 1), U]
    yield lambda: [Agg(E, 0), Agg(E, 1), E]
    yield lambda: [T, Agg(T, 0), Agg(T, 2)]
    yield lambda: [Agg(Agg(T, 2), 0), Agg(Agg(T, 0), 0), Agg(Agg(T, 1), 1)]
    yield lambda: [Elem(Agg(X, 1), V), Agg(X, 1), V]
    yield lambda: [Elem(Agg(Q, 0), Agg(Q, 1)), Agg(Q, 0), Q]
    yield lambda: [Elem(Elem(Agg(X, 1), V), V), Elem(Agg(X, 1))]
    yield lambda: [Elem(X, Agg(T, 2)), Agg(Elem(X, Agg(T, 2)), 0)]
    yield lambda: [Elem(Elem(Agg(X, 1), V), Agg(X, 1))]
    yield lambda: [Elem(Agg(X, 1), Elem(V, Agg(X, 1))),
                   Elem(Elem(V, Agg(X, 1)), V)]


def reachable(node, feeds):
    out = [node]
    for x in feeds(node):
        out += [y for y in reachable(x, feeds)
                if not any(y is z for z in out)]
    return out


def node_graph(family):
    def body(c, env):
        g = env.g
        import itertools
        Agg, Elem = graph_classes(g)
        pool, memo = {}, []

        def cuts_of(shape):
            for s, r in memo:
                if len(s) == len(shape) and all(
                        x is y for x, y in zip(s, shape)):
                    return list(r)
            r = [CutSeq(shape, d, pool) for d in range(len(shape))]
            memo.append((tuple(shape), r))
            return list(r)

        def slices(shape, always_slices=False):
            c.prove('chunk keys of nodes are slices',
                    bool(always_slices))
            return VList([Item(x) for x in cuts_of(shape)])
        g['_all_slices_inner'] = slices

        SNode = g['StreamsHandlerNode']
        arrays = [f for i, f in enumerate(graphs(Agg, Elem))
                  if i == family][0]()
        masked = c.pick('masked', 2) == 1
        group = g['AllThreadedEngine'].Group(arrays, list(range(
            len(arrays))))
        asked = []
        for _ in range(2):
            a = c.among(arrays)
            order = list(c.among(list(itertools.permutations(
                range(a.ndim)))))
            out = call(group._make_node, a, VList(
                [Item(i) for i in order]), masked)
            c.prove('a node is made', out.ok)
            if not out.ok:
                return
            asked.append((out.value, a, order))

        known = list(group._nodes.values())

        def feeds(node):
            """The nodes which fill the node's input queues."""
            pool = known + [y[0] for y in asked]
            out = []
            for q in getattr(node, 'input_queues', ()):
                out += [x for x in pool
                        if any(q is z for z in x.output_queues)][:1]
            return out

        def many(cut):
            return c.branch(lift(cut.count) > 1)

        def valid(node, a, order):
            """Whether the node's output is the array a in that order."""
            if isinstance(node, g['ProducerNode']):
                cuts = cuts_of(a.shape)
                c.prove('a producer is for the array', node.array is a)
                c.prove('a producer is masked iff asked for',
                        node.masked == masked)
                if node.array is not a:
                    return cuts
                have = [i for i in node.iteration_order if many(cuts[i])]
                c.prove('a producer traverses the chunks in the required '
                        'order', have == [i for i in order
                                          if many(cuts[i])])
                return cuts
            c.prove('a computation is for the array',
                    isinstance(node, SNode) and node.array is a)
            if not isinstance(node, SNode) or node.array is not a:
                return None
            h = node.streams_handler
            c.prove('the handler is the one of the array',
                    h.made_for == (a, masked))
            c.prove('a node has one input for each source',
                    len(feeds(node)) == len(a.sources))
            cuts = [valid(x, s, a.in_order(order))
                    for x, s in zip(feeds(node), a.sources)]
            if None in cuts:
                return None
            c.prove('the chunks of all the inputs are the same',
                    all(x == cuts[0] for x in cuts))
            return a.cuts_from(cuts[0])
        for node, a, order in asked:
            valid(node, a, order)
        every = []
        for node, a, order in asked:
            every += [x for x in reachable(node, feeds)
                      if not any(x is y for y in every)]
        c.prove('every node is known to the group, so that it is started',
                all(any(x is y for y in known) for x in every))
        c.prove('every node is started once', len(set(
            map(id, known))) == len(known))
        hs = [x.streams_handler for x in every if isinstance(x, SNode)]
        c.prove('no two nodes share a handler',
                len(set(map(id, hs))) == len(hs))
    return body


GRAPH = []
for _i in range(11):
    GRAPH.append(contract(
        'AllThreadedEngine.Group._make_node: graphs %d' % _i,
        ['AllThreadedEngine.Group.' + x for x in (
            '_make_node', '_make_producer_node', '_chunk_cuts',
            '_inputs_match')] + ['ProducerNode.__init__'],
        bound='expressions of the family (<= 3 operations, rank <= 3), any '
        'two requests, all traversal orders; shapes and numbers of chunks '
        'are arbitrary',
        trusted=['_all_slices_inner: a function of the shape (C09)'])(
            node_graph(_i)))

CONTRACTS = [producer_run, consumer_1, consumer_2, ndarray_node,
             add_input_nodes, handler_node, elementwise_handler,
             aggregation_chunks, evaluate, requests]
