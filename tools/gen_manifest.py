"""Writes MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    path = os.path.join(HERE, 'contracts', pid + '.note')
    note = open(path).read().split('\n', 1) if os.path.exists(path) else [
        'exploration', 'bounded: seeded search on the real code against a '
        'NumPy oracle']
    level = note[0].strip()
    tech = ('contract-based deductive verification of the real code: '
            'weakest-precondition-style symbolic execution of the functions '
            'in /repo against contracts, obligations discharged by z3/cvc5; '
            'bounded run-time contract checks as labelled stand-ins')
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 check.py %s --tier quick' % pid,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
        'technique': tech, 'level': level,
        'level_note': ' '.join(note[1].split())})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py',
           'checks': checks, 'not_applicable': []},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
