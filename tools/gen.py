#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py (kept in step)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}, ensure_ascii=False) + '\n')
        assert len(p['title']) <= 80, p['id']
checks, na = [], []
for p in PROPS:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na}, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
