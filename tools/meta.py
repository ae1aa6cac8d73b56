#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS
with open(here + '/../properties.jsonl', 'w') as o:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        o.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
checks, na = [], []
for p in PROPS:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({
            'property': p['id'],
            'quick_cmd': f"cd /verif && ./check.sh {p['id']} quick",
            'thorough_cmd': f"cd /verif && ./check.sh {p['id']} thorough",
            'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'cd /verif && ./setup.sh',
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use only public interfaces of the crates and the built tools', 'source_commits': []},
           'checks': checks, 'not_applicable': na},
          open(here + '/../MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
