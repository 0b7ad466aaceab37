#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the one list below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(ROOT + '/tools/props_data.py').read())
with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': "python3-vt -c 'import numpy' && /usr/bin/clang++-18 --version && /usr/bin/opt-18 --version",
     'checks': [], 'not_applicable': [], 'notes': NOTES}
for p in PROPS:
    if p.get('na'):
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']}); continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'],
                        'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
                        'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
