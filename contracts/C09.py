from contracts import chunks
CONTRACTS = chunks.C09
