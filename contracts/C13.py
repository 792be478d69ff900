from contracts import elementwise
CONTRACTS = elementwise.CONTRACTS
