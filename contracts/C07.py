from contracts import keylib, fullkeys, views
CONTRACTS = [keylib.check_bounds, keylib.check_bounds_accepts,
             keylib.cleanup, keylib.cleanup_accepts, keylib.remap,
             keylib.remap_accepts] + fullkeys.CONTRACTS + \
    [views.broadcast_index, views.newaxes_index]
