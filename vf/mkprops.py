#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (single source of truth)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vf'))
R = []


def P(id, title, statement, over, qtext, why, files, mech, level=None, note=None, technique=None, na=None):
    assert len(title) <= 80, title
    R.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  level=level, note=note, technique=technique, na=na))


exec(open(os.path.join(V, 'vf', 'proptable.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for r in R:
        f.write(json.dumps({
            'id': r['id'], 'title': r['title'], 'statement': r['statement'],
            'quantifier': {'over': r['over'], 'text': r['qtext']}, 'why_tests_cant': r['why'],
            'anchors': {'files': r['files'], 'mechanism': [{'name': n, 'where': w} for n, w in r['mech']]}}) + '\n')
checks = [{
    'property': r['id'],
    'quick_cmd': 'python3 vf/check.py ' + r['id'],
    'thorough_cmd': 'VERIF_TIER=thorough python3 vf/check.py ' + r['id'],
    'evidence_file': 'evidence/%s.json' % r['id'],
    'technique': r['technique'], 'level': r['level'], 'level_note': r['note']} for r in R if not r['na']]
man = {'version': 1, 'setup_cmd': 'python3 vf/setup.py', 'checks': checks,
       'not_applicable': [{'property': r['id'], 'reason': r['na']} for r in R if r['na']],
       'notes': 'No hooks in /repo: the contracts are attached to the real functions from /verif/units at goto-cc level. '
                'vf/proptable.py is the source of properties.jsonl and of this file (vf/mkprops.py writes both).'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
