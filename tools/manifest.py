#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and families.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from families import FAMILIES, PROPERTIES

props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
assert {p['id'] for p in props} == set(PROPERTIES), {p['id'] for p in props} ^ set(PROPERTIES)
checks = []
for p in props:
    fs = PROPERTIES[p['id']]['families']
    mods = sorted({FAMILIES[f][k] for f in fs for k in ('mc', 'gen', 'trace') if k in FAMILIES[f]})
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py ' + p['id'] + ' --thorough',
                   'technique': 'TLA+ specification (%s): exhaustive TLC model check, replay of generated behaviours on the real code, and TLC judging of every step recorded from it' % ', '.join(mods),
                   'level': 'model_checking',
                   'level_note': PROPERTIES[p['id']].get('note') or 'The specification is checked exhaustively on a small instance; the code is bound to it by judging every step of generated and seeded random executions of the real code, so the assurance about the code is that of the explored executions. Trusted: TLC, the Go toolchain, badger, the projection of the store in the harness.'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'verif', 'enable': 'no hooks are needed: the harness is compiled into the module by go build -overlay', 'source_commits': []},
     'checks': checks, 'not_applicable': [],
     'notes': 'Repairs of defects found are the fix: commits of /repo, listed in known_findings.txt.'}
na = os.path.join(here, 'tools', 'not_applicable.json')
if os.path.exists(na):
    m['not_applicable'] = json.load(open(na))
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
