"""Write MANIFEST.json from properties.jsonl and the property modules."""
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(here, 'tools', 'level_notes.json')))
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(here, 'pbt/props/%s.py' % pid.lower())):
        checks.append({
            'property': pid,
            'quick_cmd': './check.sh %s quick' % pid,
            'thorough_cmd': './check.sh %s thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'property-based testing (Hypothesis): ' +
                         NOTES[pid][0],
            'level': 'exploration',
            'level_note': NOTES[pid][1]})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
       'not_applicable': na,
       'notes': 'No hooks in /repo are needed; commits there are fix: '
                'commits only (see known_findings.json).'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
