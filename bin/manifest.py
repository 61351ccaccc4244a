#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
import registry

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.MAIN:
        t, note = registry.NOTES[i]
        checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 bin/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': registry.NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specification in spec/, checked with TLC; conformance driver in driver/ is built from /repo by a go build overlay, no hooks in /repo. Replay a violation with bin/replay.py FILE.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
