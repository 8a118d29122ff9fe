#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        files = sorted({w.split(':')[0] for _, w in p['mech']})
        row = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
               'quantifier': {'over': p['over'], 'text': p['forall']},
               'why_tests_cant': p['tests'],
               'anchors': {'files': files,
                           'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                           'observe_at': p.get('observe', []), 'hook_needed': None}}
        assert len(row['title']) <= 80, row['title']
        for fn in files:
            assert os.path.exists('/repo/' + fn), fn
        f.write(json.dumps(row) + '\n')
man = {'version': 1, 'setup_cmd': './setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                   'thorough_cmd': './check %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['technique'], 'level': 'exploration',
                   'level_note': p['note']} for p in PROPS if p['id'] not in NOT_APPLICABLE],
       'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
       'notes': 'No hooks in /repo: every monitor observes public API boundaries. The checks build the '
                'native modules from /repo into a scratch folder under /tmp and remove it.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties')
