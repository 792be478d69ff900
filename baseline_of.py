"""Obligations that are discharged for the unchanged tree
(contracts/discharged.json, written by tools/record.py)."""
import json
import os


def load(here, prop):
    try:
        return set(json.load(open(os.path.join(
            here, 'contracts', 'discharged.json'))).get(prop, ()))
    except (IOError, ValueError):
        return set()
