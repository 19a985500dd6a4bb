#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property which has a harness."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{HERE}/properties.jsonl')]
notes = {}
exec(open(f'{HERE}/tools/manifest_notes.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{HERE}/harness/{i}.cpp'):
        t, n = notes.get(i, ('property-based testing against a reference model, coverage-guided, with shrinking', 'Search over generated cases, no proof.'))
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough', 'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': i, 'reason': na_reasons.get(i, 'harness not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'PBT_NO_HOOKS_NEEDED', 'enable': 'no hooks: the checks use the public API of the unmodified sources', 'source_commits': []}, 'checks': checks, 'not_applicable': na}
json.dump(m, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
