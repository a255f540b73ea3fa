#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of implemented checks in harness/src/main.rs."""
import json, re, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
props = [json.loads(l) for l in open('properties.jsonl')]
impl = set(re.findall(r'\("(C\d\d)"', open('harness/src/main.rs').read()))
tech = json.load(open('tools/techniques.json')) if os.path.exists('tools/techniques.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in impl:
        t = tech.get(i, {})
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
            technique=t.get('technique', 'bounded exhaustive model checking of the real code against a reference model'),
            level='model_checking',
            level_note=t.get('note', 'Exhaustive within the bounds listed in the evidence file; trusts the reference model in /verif/harness/src.')))
    else:
        na.append(dict(property=i, reason='No check built yet.'))
json.dump(dict(version=1, setup_cmd='./check.sh build', checks=checks, not_applicable=na,
    notes='No hooks in /repo: every check drives the public API. See DESIGN.md.'), open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
