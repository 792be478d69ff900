from contracts import dask, grouping
CONTRACTS = grouping.C20 + dask.CONTRACTS
