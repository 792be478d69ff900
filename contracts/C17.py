"""C17: sources and existing arrays stay as they are."""
from contracts import adapters, aggr, broadcast, elementwise, keylib, \
    stacks, stats, views
from pyvc.run import select

SAME = 'after: .*|.* is not written|.* is not modified|.*unchanged'


def same(con):
    return select(con, SAME, ': nothing is changed', again=True,
                  goes_on=('nothing is read',))


CONTRACTS = [same(c) for c in [
    keylib.adapter_getitem, adapters.numpy_end, adapters.ortho_end,
    adapters.adapter_convert, aggr.agg_getitem] + stats.UNMASKED[:-1] +
    stats.MASKED[:-1] + views.CONTRACTS + stacks.STACKS[:3] +
    stacks.MOSAICS[:1] + stacks.MOSAICS[2:3] + broadcast.CONTRACTS[1:2] +
    elementwise.CONTRACTS[:3] + elementwise.CONTRACTS[4:] +
    elementwise.INDEXING]
