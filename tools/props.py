#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(pid, title, statement, over, text, why, files, mech, state=None, observe=None, technique=None, note=None, level='other', na=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['observe_at'] = observe or []
    a['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': a}, technique, level, note, na))


exec(open(os.path.join(ROOT, 'tools', 'props_table.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p[0]) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for d, tech, level, note, na in P:
    if na:
        man['not_applicable'].append({'property': d['id'], 'reason': na})
    else:
        man['checks'].append({'property': d['id'], 'quick_cmd': 'python3 check.py %s' % d['id'],
                              'thorough_cmd': 'python3 check.py %s --tier=thorough' % d['id'],
                              'technique': tech, 'level': level, 'level_note': note})
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'claimed', len(man['not_applicable']), 'not applicable')
