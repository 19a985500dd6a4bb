#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the entries below (one place to keep ids, statements and anchors in step)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['observe_at'] = observe or []
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})
exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())
ids = [x['id'] for x in P]; assert len(ids) == len(set(ids))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
