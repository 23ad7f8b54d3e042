"""Writes MANIFEST.json from the list of suites."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
from suites import SUITES
NOTES = {}
TECH = 'TLA+ specification checked with TLC; trace validation of recorded executions'
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
try:
    from suites import LEVEL_NOTES
except ImportError:
    LEVEL_NOTES = {}
NOTE = ('Every step of every executed program is compared with what the TLA+ specification allows; '
        'the specification itself is explored exhaustively within the constants of its configurations. '
        'Coverage of the code is that of the generated programs; trusts TLC, the projection in harness/ '
        'and exact integer encoding of times and samples.')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Findings and repairs are in findings.jsonl. No hooks in /repo: the public API exposes the abstract state.'}
for p in props:
    if p in SUITES:
        m['checks'].append({
            'property': p,
            'quick_cmd': 'VERIF_TIER=quick /opt/venv/bin/python harness/check.py ' + p,
            'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python harness/check.py ' + p,
            'technique': TECH, 'level': 'model_checking',
            'level_note': LEVEL_NOTES.get(p, NOTE)})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
