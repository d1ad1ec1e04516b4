#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/plist.py (run by hand after editing plist.py)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import plist
root = os.path.dirname(H)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in plist.PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['forall']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                              observe_at=p.get('observe', []), hook_needed=None))
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in plist.PROPS:
    if 'na' in p:
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    if not os.path.exists(os.path.join(root, 'lib/props', p['id'].lower() + '.py')):
        na.append(dict(property=p['id'], reason='check under construction'))
        continue
    checks.append(dict(property=p['id'], level='other', level_note=p['note'], technique=p['tech'],
                       quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id']))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'claimed', len(na), 'not applicable')
