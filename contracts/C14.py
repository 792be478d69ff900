from contracts import engine
CONTRACTS = engine.CONTRACTS + engine.GRAPH
