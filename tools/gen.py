"""Writes properties.jsonl and MANIFEST.json from the texts below (python3 tools/gen.py)."""
import json
import os
from texts import CLAIMED, NOT_APPLICABLE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ('Trusts the transfer functions for Python and numpy in ellstat/ and the abstract input boxes and shapes of the '
         'scenarios; array sizes are enumerated (dimensions 1-4), values are ranges. Unresolved obligations are listed in '
         'the evidence and never counted as held.')


def line(p):
    return dict(id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))


with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in sorted(CLAIMED + NOT_APPLICABLE, key=lambda p: p['id']):
        f.write(json.dumps(line(p)) + '\n')
man = dict(version=1,
           setup_cmd='python3 -m compileall -q ellstat',
           checks=[dict(property=p['id'],
                        quick_cmd='python3 -m ellstat.run --prop %s --tier quick' % p['id'],
                        thorough_cmd='python3 -m ellstat.run --prop %s --tier thorough' % p['id'],
                        technique=p['technique'], level='other', level_note=p.get('note', '') + ' ' + TRUST)
                   for p in CLAIMED],
           not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NOT_APPLICABLE],
           notes='All checks read /repo\'s current sources; nothing of /repo is imported or executed by them.')
for c in man['checks']:
    c['level_note'] = c['level_note'].strip()
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
