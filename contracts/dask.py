"""Contracts of the experimental dask engine (C20)."""
from contracts.common import *          # noqa
from pyvc.load import Namespace

FILE = 'biggus/experimental/dask_engine.py'


def module(env):
    ld = env.loader
    init = Namespace('biggus._init', **{
        k: v for k, v in env.g.items() if not k.startswith('__')})
    ld.biggus._init = init
    ld.biggus.experimental = Namespace('biggus.experimental')
    ld.biggus.experimental.key_grouper = Namespace('key_grouper')
    ld.modules['biggus._init'] = init
    for k in ('biggus.experimental', 'biggus.experimental.key_grouper'):
        ld.modules[k] = ld.biggus.experimental
    return env.module(FILE, 'biggus.experimental.dask_engine'), init


class Opaque(object):
    is_model = True


def keys_from(name, n):
    """Slices a:b (0 <= a <= b), as the keys of chunks are."""
    c = ctx()

    A, E = [z3.Function(c.fresh_name('%s.%s' % (name, x)), z3.IntSort(),
                        z3.IntSort()) for x in ('start', 'stop')]

    def get(z):
        c.assume(z3.And(0 <= A(z), A(z) <= E(z)))
        return SSlice(num(A(z)), num(E(z)), None)
    b = Base(name, get, n)
    return VTuple([Seg(b, 0, n)])


@contract('DaskGroup.collect', ['DaskGroup.collect'],
          bound='one chunk (two if no group is given), of any rank')
def collect(c, env):
    """Chunks are put where they belong: at their keys, or at their keys
    relative to those of the group."""
    g, init = module(env)
    made = []

    class Node(object):
        def __init__(self, array, masked):
            self.args = (array, masked)
            self.got = []
            self.result = Opaque()
            made.append(self)

        def process_chunks(self, chunks):
            p = parts_of(chunks)
            if any(not isinstance(x, Item) for x in p):
                raise Limitation('chunks')
            self.got.append([x.v for x in p])
    init.NdarrayNode = Node
    rank = c.int('rank', 0)
    array = Opaque()
    masked = c.pick('masked', 2) == 1
    grouped = c.pick('of a group', 2) == 1
    group = keys_from('group', rank) if grouped else None
    given, chunks = [], []
    for j in range(1 if grouped else c.among([1, 2])):
        d = Opaque()
        d.shape = keys.sizes('size%d' % j, rank)
        ch = env.g['Chunk'](keys_from('keys%d' % j, rank), d)
        chunks.append(ch)
        given.append(ch if c.pick('alone', 2) else VList([Item(ch)]))
    f = g['DaskGroup'].collect
    made_f = call(f, array, masked, *([group] if grouped else []))
    c.prove('a function is made', made_f.ok)
    if not made_f.ok:
        return
    out = call(made_f.value, *given)
    c.prove('collecting does not raise', out.ok)
    if not out.ok:
        return
    if not c.prove('one result for the array, masked as asked for',
                   len(made) == 1 and made[0].args[0] is array and
                   bool(made[0].args[1]) == masked):
        return
    node = made[0]
    got = [x for y in node.got for x in y]
    if not c.prove('every chunk is stored once', len(got) == len(chunks)):
        return
    for x, y in zip(got, chunks):
        c.prove('the data of the chunk', x.data is y.data)
        if not grouped:
            c.prove('at the keys of the chunk', veq(x.keys, y.keys))
            continue
        if c.prove('a key for each dimension',
                   lift(vlen(x.keys)) == rank.z):
            i = c.int('i', 0, rank)
            k, k0, s = at(x.keys, i.z), at(y.keys, i.z), at(group, i.z)
            k = seqs.as_slice(k)
            if k is None:
                c.prove('keys are slices', False)
                continue
            c.prove('relative to the start of the group', z3.And(
                lift(k._parts[0]) == lift(k0._parts[0]) -
                lift(s._parts[0]),
                lift(k._parts[1]) == lift(k._parts[0]) +
                lift(at(y.data.shape, i.z))) if k._parts[0] is not None
                else False)
    if grouped:
        v = out.value
        c.prove('a chunk at the keys of the group', isinstance(
            v, env.g['Chunk']) and v.keys is group and
            v.data is node.result)
    else:
        c.prove('the result', out.value is node.result)


@contract('DaskGroup.lazy_chunk_creator', ['DaskGroup.lazy_chunk_creator',
                                           'DaskGroup.biggus_chunk'])
def lazy_chunk(c, env):
    """The task reads the part of the array once, masked or plain as asked
    for, and gives it with its keys."""
    g, init = module(env)
    reads = []

    class Part(object):
        def __init__(self):
            self.plain, self.masked = Opaque(), Opaque()

        def ndarray(self):
            reads.append('plain')
            return self.plain

        def masked_array(self):
            reads.append('masked')
            return self.masked
    G = g['DaskGroup']
    f = G.biggus_chunk if c.pick('static', 2) else call(
        G.lazy_chunk_creator, 'name').value
    c.prove('nothing is read when a task is made', not reads)
    part, keys_ = Part(), Opaque()
    masked = c.pick('masked', 2) == 1
    out = call(f, keys_, part, masked)
    c.prove('the chunk is read', out.ok and reads == [
        'masked' if masked else 'plain'])
    if out.ok:
        v = out.value
        c.prove('the chunk at its keys', isinstance(v, env.g['Chunk']) and
                v.keys is keys_ and v.data is (
                    part.masked if masked else part.plain))


@contract('DaskGroup.create_chunks_handler_fn',
          ['DaskGroup.create_chunks_handler_fn', '_groups_of_size'],
          bound='<= 3 sources with <= 3 chunks each')
def produce(c, env):
    """The handler gets one chunk of every source at a time, in order; its
    last answer is the result, or else what it gave for the last chunks."""
    g, init = module(env)
    n, m = c.among([1, 2, 3]), c.among([1, 2, 3])
    chunks = [[Opaque() for _ in range(n)] for _ in range(m)]
    seen, final = [], c.pick('finalise gives a result', 2) == 1
    gives = c.pick('processing gives results', 2) == 1
    answers = []

    class H(object):
        def process_chunks(self, x):
            seen.append([p.v for p in parts_of(x)])
            answers.append(Opaque() if gives else None)
            return answers[-1]

        def finalise(self):
            self.end = Opaque() if final else None
            seen.append('end')
            return self.end
    h = H()
    made = call(g['DaskGroup'].create_chunks_handler_fn, h, n, 'name')
    c.prove('a function is made', made.ok and not seen)
    if not made.ok:
        return
    out = call(made.value, Opaque(), *[x for y in chunks for x in y])
    c.prove('all chunks are processed in order, then the end',
            len(seen) == m + 1 and seen[-1] == 'end' and all(
                len(a) == n and all(x is y for x, y in zip(a, b))
                for a, b in zip(seen, chunks)))
    if final:
        c.prove('the final result', out.ok and out.value is h.end)
    elif gives:
        c.prove('the result of the last chunks',
                out.ok and out.value is answers[-1])
    else:
        c.prove('no result is an error', not out.ok)


class Key(object):
    """A key of a chunk, known by its name; `norm` is its normal form."""
    is_model = True

    def __init__(self, name, norm=None):
        self.name, self.norm = name, norm

    def __repr__(self):
        return self.name
    __str__ = __repr__


def group_of(g, init, *arrays):
    return g['DaskGroup'](arrays)


@contract('DaskGroup._make_nodes: arrays which are read',
          ['DaskGroup._make_nodes', '_array_id'],
          bound='<= 3 chunks; rank <= 2',
          trusted=['uuid.uuid4 gives a new value',
                   'ProducerNode.chunk_index_gen (own contract)'])
def leaf_nodes(c, env):
    """There is one task for each chunk of the array, which reads the array
    indexed by the keys of the chunk; an array has its tasks made once."""
    g, init = module(env)
    rank = c.among([0, 1, 2])
    n = c.among([0, 1, 3] if rank else [1])
    masked = c.pick('masked', 2) == 1
    all_keys = [tuple(slice(10 * i + j, 10 * i + j + 1) for j in range(rank))
                for i in range(n)]
    asked, parts = [], []

    class Part(object):
        shape = (1,) * rank

        def __init__(self, keys):
            self.keys = keys

        def ndarray(self):
            asked.append('data')
            return Opaque()
        masked_array = ndarray

    class Array(object):
        shape, ndim = (50,) * rank, rank

        def __getitem__(self, keys):
            parts.append(Part(keys))
            return parts[-1]

        def ndarray(self):
            asked.append('data')
            return Opaque()
        masked_array = ndarray
    order = tuple(c.among([[0, 1][:rank], [1, 0][2 - rank:] if rank > 1
                           else [0][:rank]]))
    calls = []

    class Producer(object):
        @staticmethod
        def chunk_index_gen(shape, iteration_order):
            calls.append((tuple(parts_items(shape)),
                          tuple(parts_items(iteration_order))))
            return iter(all_keys)
    init.ProducerNode = Producer
    made = []

    def creator(name):
        made.append(Opaque())
        return made[-1]
    array = Array()
    group = group_of(g, init, array)
    group.lazy_chunk_creator = creator
    old = Opaque()
    dsk = {'old': old}
    out = call(group._make_nodes, dsk, array, order, masked)
    c.prove('nodes are made', out.ok)
    if not out.ok:
        return
    nodes = out.value
    c.prove('nothing is read', not asked)
    c.prove('the chunks of the array, in the order of iteration',
            calls == [(array.shape, order[::-1])])
    c.prove('one node for each chunk', len(nodes) == n)
    c.prove('all nodes are tasks of the graph, which keeps its others',
            dsk.get('old') is old and len(dsk) == n + 1 and all(
                dsk.get(k) is v for k, v in nodes.items()))
    for keys_ in all_keys:
        tasks = [t for t in nodes.values() if tuple(t[1]) == keys_]
        if c.prove('one task for the chunk', len(tasks) == 1):
            t = tasks[0]
            c.prove('it reads the part of the array, masked as asked for',
                    len(t) == 4 and t[0] in made and t[2] in parts and
                    t[2].keys == keys_ and bool(t[3]) == masked)
    again = call(group._make_nodes, dsk, array, order, masked)
    c.prove('the tasks of an array are made once', again.ok and
            len(dsk) == n + 1 and set(again.value) == set(nodes))
    if c.prove('other tasks when read otherwise', call(
            group._make_nodes, dsk, array, order, not masked).ok):
        c.prove('the first ones stay', all(
            dsk.get(k) is v for k, v in nodes.items()) and
            len(dsk) == 2 * n + 1)


def parts_items(x):
    if isinstance(x, (tuple, list)):
        return list(x)
    return [p.v for p in parts_of(x)]


@contract('DaskGroup._make_stream_handler_nodes',
          ['DaskGroup._make_stream_handler_nodes', '_unique_everseen',
           '_filterfalse'],
          bound='<= 2 sources with <= 2 chunks each; <= 2 groups',
          trusted=['uuid.uuid4 gives a new value',
                   'key_grouper.group_keys (own contract)',
                   'normalize_slice (own contract)'])
def handler_nodes(c, env):
    """For each group of keys there is a task: the handler of the part of the
    array gets, for each source, the chunks of the group, collected into one
    unless each of them covers the group."""
    g, init = module(env)
    kg = env.loader.biggus.experimental.key_grouper
    n_src = c.among([1, 2])
    n_groups = c.among([1, 2])
    masked = c.pick('masked', 2) == 1
    reduced = n_src == 1 and c.pick('an aggregation', 2) == 1
    groups = [((5 * i, 5 * i + 5, 1),) for i in range(n_groups)]
    gkeys = [tuple(slice(*x) for x in y) for y in groups]
    # The chunks of each source: those of group i are exact (one with the
    # keys of the group, or two with equal keys), or two parts of it.
    forms = [[c.among(['exact', 'parts'] + ['twice'] * (n_src == 1))
              for _ in groups] for _ in range(n_src)]
    chunks, expect = [], []
    for s in range(n_src):
        nodes, exp = {}, []
        for i, form in enumerate(forms[s]):
            ids = []
            for j in range(1 if form == 'exact' else 2):
                k = Key('s%dg%d%s' % (s, i, 'p%d' % j * (form == 'parts')),
                        gkeys[i][0] if form != 'parts' else
                        slice(5 * i + 2 * j, 5 * i + 2 + 3 * j, 1))
                cid = 'chunk %d %d %d' % (s, i, j)
                keys_ = (Key('whole ' + k.name), k) if reduced else (k,)
                nodes[cid] = (Opaque(), keys_)
                ids.append(cid)
            exp.append(ids)
        chunks.append(nodes)
        expect.append(exp)
    c.user['forms'] = forms

    handlers, indexed, subs = [], [], []

    class Handler(object):
        nice_name = 'handler'

        def __init__(self, of, masked):
            self.of, self.masked = of, bool(masked)
            handlers.append(self)
            if reduced:
                self.output_keys = self.transform

        def transform(self, keys):
            return tuple(parts_items(keys))[1:]

        def input_iteration_order(self, order):
            return ('input order of', order)

    class Src(object):
        shape = (10,) * (2 if reduced else 1)

        def __init__(self, s):
            self.s = s

        def __getitem__(self, keys):
            p = Opaque()
            p.of, p.keys = self, keys
            return p

    class Sub(object):
        shape = (5,)

        def __init__(self, keys):
            self.keys = keys

        def streams_handler(self, masked):
            return Handler(self, masked)

    class Array(object):
        shape, ndim = (10,), 1
        sources = tuple(Src(s) for s in range(n_src))

        def __getitem__(self, keys):
            return Sub(tuple(parts_items(keys)))

        def streams_handler(self, masked):
            return Handler(self, masked)
    array = Array()
    asked = []

    def make_nodes(dsk, source, order, m, top=False):
        asked.append((source, order, bool(m)))
        nodes = chunks[source.s]
        dsk.update(nodes)
        return nodes

    seen_keys = []

    def group_keys(shape, *keys):
        seen_keys.append((tuple(parts_items(shape)), [
            [tuple(parts_items(k)) for k in parts_items(x)] for x in keys]))
        res = {}
        for i, grp in enumerate(groups):
            res[grp] = tuple(
                [k for k in xs if k[-1].name.startswith('s%dg%d' % (s, i))]
                for s, xs in enumerate(seen_keys[-1][1]))
        return res
    kg.group_keys = group_keys
    kg.normalize_slice = lambda key, size: key.norm
    made, collected = [], []

    def create(handler, n_sources, name):
        f = Opaque()
        f.made = (handler, n_sources)
        made.append(f)
        return f

    def collect_(array, m, chunk_keys=None, name=None):
        f = Opaque()
        f.made = (array, bool(m), chunk_keys)
        collected.append(f)
        return f
    group = group_of(g, init, array)
    group._make_nodes = make_nodes
    group.create_chunks_handler_fn = create
    group.collect = collect_
    dsk = {}
    order = Opaque()
    out = call(group._make_stream_handler_nodes, dsk, array, order, masked)
    c.prove('nodes are made', out.ok)
    if not out.ok:
        return
    nodes = out.value
    c.prove('every source has its nodes made, for the order which the '
            'handler asks for', len(asked) == n_src and all(
                a is s and m == masked and tuple(parts_items(o)) ==
                ('input order of', order)
                for (a, o, m), s in zip(asked, array.sources)))
    if not c.prove('the keys are grouped over the shape of the result',
                   len(seen_keys) == 1 and seen_keys[0][0] == array.shape):
        return
    c.prove('the keys of all chunks of every source', all(
        [x[-1].name for x in xs] == [t[1][-1].name for t in
                                     chunks[s].values()] and
        all(len(x) == 1 for x in xs)
        for s, xs in enumerate(seen_keys[0][1])))
    c.prove('one node for each group', len(nodes) == n_groups)
    c.prove('all nodes are tasks of the graph, which keeps those of the '
            'sources', all(dsk.get(k) is v for k, v in nodes.items()) and
            all(dsk.get(k) is v for x in chunks for k, v in x.items()))
    for i, gk in enumerate(gkeys):
        tasks = [t for t in nodes.values()
                 if tuple(parts_items(t[1])) == gk]
        if not c.prove('one task for the group', len(tasks) == 1):
            continue
        t = parts_items(tasks[0])
        if not c.prove('the task runs the chunks through a handler',
                       t[0] in made):
            continue
        h, ns = t[0].made
        c.prove('the handler of this part of the array', isinstance(
            h.of, Sub) and h.of.keys == gk and h.masked == masked)
        c.prove('a handler for the task alone', sum(
            f.made[0] is h for f in made) == 1)
        c.prove('the number of sources', ns == n_src)
        rest = t[2:]
        for s in range(n_src):
            ids = expect[s][i]
            if forms[s][i] != 'parts' and (rest[:len(ids)] == ids or
                                           not rest or rest[0] not in dsk):
                c.prove('the chunks of the source for the group',
                        rest[:len(ids)] == ids)
                rest = rest[len(ids):]
                continue
            if not c.prove('a chunk collected from the parts', len(rest) and
                           rest[0] in dsk):
                return
            ct = parts_items(dsk[rest[0]])
            rest = rest[1:]
            if not c.prove('collected', ct[0] in collected):
                return
            a, m, ck = ct[0].made
            c.prove('into the part of the source for the group',
                    a.of is array.sources[s] and
                    tuple(parts_items(a.keys)) == gk and m == masked and
                    ck is not None and tuple(parts_items(ck)) == gk)
            c.prove('from all of its parts', sorted(ct[1:]) ==
                    sorted(ids))
        c.prove('nothing else', not rest)


@contract('DaskGroup.dask, DaskEngine', [
    'DaskGroup.dask', 'DaskGroup.dask_task', 'DaskEngine.masked_arrays',
    'DaskEngine.ndarrays', 'DaskEngine._daskify', 'DaskEngine.graph'],
    bound='<= 3 arrays of <= 2 chunks each')
def whole_graph(c, env):
    """The graph has, for each array, one task which collects all of its
    chunks; the engine asks dask for these, in order."""
    g, init = module(env)
    n = c.among([1, 2, 3])
    masked = c.pick('masked', 2) == 1

    class Array(object):
        def __init__(self, i):
            self.shape, self.ndim = (4,) * (i % 2 + 1), i % 2 + 1
            self.names = ['array %d chunk %d' % (i, j)
                          for j in range(1 + i % 2)]
    arrays = [Array(i) for i in range(n)]
    if n > 1 and c.pick('the same array twice', 2):
        arrays[-1] = arrays[0]
    collected, graphs, asked = [], [], []
    G = g['DaskGroup']
    array_id = g['_array_id']

    def make_nodes(self, dsk, array, order, m, top=False):
        asked.append(tuple(parts_items(order) if not isinstance(order, range)
                           else order) == tuple(range(array.ndim)) and
                     bool(m) == masked)
        res = {name: (Opaque(),) for name in array.names}
        dsk.update(res)
        self._node_cache[array_id(array, order, m)] = res
        return res

    def collect_(array, m, chunk_keys=None, name=None):
        f = Opaque()
        f.made = (array, bool(m), chunk_keys)
        collected.append(f)
        return f
    G._make_nodes = make_nodes
    G.collect = staticmethod(collect_)
    answers = [Opaque() for _ in arrays]

    def getter(graph, ids):
        graphs.append((graph, parts_items(ids)))
        return answers
    engine = g['DaskEngine'](getter)
    f = engine.masked_arrays if masked else engine.ndarrays
    out = call(f, *arrays)
    c.prove('the answer of dask', out.ok and out.value is answers)
    if not out.ok or not c.prove('dask is asked once', len(graphs) == 1):
        return
    c.prove('nodes for the order of the dimensions, masked as asked for',
            asked and all(asked))
    dsk, ids = graphs[0]
    if not c.prove('an answer for each array', len(ids) == len(arrays)):
        return
    for a, i in zip(arrays, ids):
        if not c.prove('the answer is in the graph', i in dsk):
            continue
        t = parts_items(dsk[i])
        if c.prove('it is collected', t[0] in collected):
            c.prove('into the array, masked as asked for, from all of its '
                    'chunks', t[0].made == (a, masked, None) and
                    sorted(t[1:]) == sorted(a.names))


CONTRACTS = [collect, lazy_chunk, produce, leaf_nodes, handler_nodes,
             whole_graph]
