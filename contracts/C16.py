"""C16: only conversions read."""
from contracts import adapters, aggr, base, broadcast, elementwise, stacks, \
    views
from contracts.common import no_reads
from pyvc.run import select

READS = 'nothing is read.*|nothing is converted|no element is read|' \
    'attributes can be asked for'


def reads(con):
    def fn(c, env):
        con.fn(c, env)
        if c.user.get('sources'):
            no_reads(c)
    r = select(con, READS, ': nothing is read', ask=True)
    r.fn = fn
    return r


CONTRACTS = [reads(c) for c in base.ASKED[:-1] + [base.ensure] +
             adapters.CONTRACTS[:2] + [adapters.numpy_end,
                                       adapters.ortho_end] +
             [aggr.agg_getitem, aggr.agg_shape, aggr.agg_handler] +
             [aggr.aggregation_function(n) for n in sorted(aggr.FUNCTIONS)] +
             views.CONTRACTS + stacks.STACKS[:4] + stacks.MOSAICS[:1] +
             stacks.MOSAICS[2:] + broadcast.CONTRACTS[1:] +
             elementwise.CONTRACTS[:3] + elementwise.CONTRACTS[4:] +
             elementwise.INDEXING]
