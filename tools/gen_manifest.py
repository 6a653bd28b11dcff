"""writes /verif/MANIFEST.json from the checks that exist under sim/checks and the properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
NA = json.load(open(f'{V}/tools/not_applicable.json'))
NOTE = json.load(open(f'{V}/tools/level_notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/sim/checks/{i.lower()}.py'):
        checks.append({'property': i, 'quick_cmd': f'{PY} -m sim.runner check {i} --tier quick', 'thorough_cmd': f'{PY} -m sim.runner check {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': NOTE[i][0], 'level': 'exploration', 'level_note': NOTE[i][1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': f'{PY} -m compileall -q sim', 'checks': checks, 'not_applicable': na,
     'notes': 'The simulator needs no hooks in /repo: numga is compiled from its sources under sys.monitoring, and its locks, clocks, garbage '
              'collections and randomness are replaced at import time inside the simulated interpreter only. Replay a violation with '
              f'{PY} -m sim.runner replay <file>; check determinism of the simulator with {PY} -m sim.runner determinism <id>.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
