from contracts import adapters, keylib
CONTRACTS = [keylib.cleanup, keylib.cleanup_accepts, keylib.remap,
             keylib.remap_accepts, keylib.adapter_getitem] + \
    adapters.CONTRACTS
