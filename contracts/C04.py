from contracts import stacks
CONTRACTS = stacks.STACKS
