from contracts import aggr
CONTRACTS = aggr.AXIS
