from contracts import keylib, fullkeys
CONTRACTS = [keylib.sliced_shape] + fullkeys.CONTRACTS
