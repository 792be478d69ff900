from contracts import stats
CONTRACTS = stats.MASKED
