from contracts import stats
CONTRACTS = stats.UNMASKED
