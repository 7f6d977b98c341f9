"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from properties import NA, P

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def prop(x):
    return dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']),
                why_tests_cant=x['cant'],
                anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']], hook_needed=None))


with open('properties.jsonl', 'w') as f:
    for x in P + NA:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(prop(x)) + '\n')
checks = []
for x in P:
    cmd = '/opt/venv/bin/python check.py %s' % x['id']
    checks.append(dict(property=x['id'], quick_cmd=cmd, thorough_cmd=cmd + ' --tier thorough', technique=x['technique'],
                       level='fault_enumeration' if x['id'] == 'C25' else 'exploration', level_note=x['note']))
m = dict(version=1, setup_cmd='/opt/venv/bin/python setup_verif.py', checks=checks,
         not_applicable=[dict(property=x['id'], reason=x['reason']) for x in NA],
         notes='No hooks in /repo: the monitors wrap public methods of the real classes from outside.')
with open('MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
