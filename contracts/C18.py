"""C18: conversions have the shape and dtype which is declared."""
from contracts import adapters, aggr, base, broadcast, elementwise, \
    engine, stacks, views
from pyvc.run import select


def declared(con):
    return select(con, 'declared .*', ': as declared')


CONTRACTS = base.DECLARED + [aggr.agg_shape] + [declared(c) for c in [
    adapters.adapter_convert, adapters.numpy_end, adapters.ortho_end] +
    views.CONTRACTS + stacks.STACKS[:4] + stacks.MOSAICS[:1] +
    stacks.MOSAICS[2:] + broadcast.CONTRACTS[1:] +
    elementwise.CONTRACTS[:3] + elementwise.CONTRACTS[4:] +
    elementwise.INDEXING] + [
    select(engine.ndarray_node, 'the result .*', ': as declared')]
