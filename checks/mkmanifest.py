"""Regenerates /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
try:
    import sys
    sys.path.insert(0, HERE)
    from contracts.levels import LEVELS
except ImportError:
    LEVELS = {}
D = ('exploration', 'bounded run-time checking of the real code against an independent RP66 reader',
     'bounded: finite seeded sample of specifications')
checks = []
for p in props:
    level, tech, note = LEVELS.get(p['id'], D)
    checks.append({'property': p['id'], 'quick_cmd': f"/opt/venv/bin/python checks/run.py {p['id']}",
                   'thorough_cmd': f"/opt/venv/bin/python checks/run.py {p['id']}",
                   'technique': tech, 'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python checks/setup.py', 'checks': checks, 'not_applicable': [],
     'hooks': {'guard': 'none', 'enable': 'no hooks: the contracts are sidecars, /repo is read and imported as it is', 'source_commits': []},
     'notes': 'thorough_cmd is run with VERIF_TIER=thorough'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
