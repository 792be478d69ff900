from contracts import broadcast
CONTRACTS = broadcast.CONTRACTS
