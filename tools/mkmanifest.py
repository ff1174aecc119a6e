"""Writes MANIFEST.json from harness/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
from plan import PLAN, NOTE, TECH
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PLAN:
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH(i), 'level': 'model_checking',
                       'level_note': NOTE(i)})
    else:
        na.append({'property': i, 'reason': 'its specification and replay driver are still being written'})
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'MESHLESS_TRACE', 'enable': 'no hooks were needed: the public API exposes the observed state; nothing in /repo reads the variable',
               'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ (TLC). The fix: commits in /repo are listed in known_findings.txt. check.sh ID FILE replays a recorded violation.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
