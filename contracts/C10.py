from contracts import chunks
CONTRACTS = chunks.C10
