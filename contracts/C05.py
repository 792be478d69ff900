from contracts import stacks
CONTRACTS = stacks.MOSAICS
