from contracts import aggr, elementwise
CONTRACTS = [aggr.agg_getitem, aggr.agg_shape, aggr.agg_handler,
             aggr.agg_order, aggr.agg_output] + elementwise.INDEXING
