#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TODO = set(os.environ.get('TODO', '').split())
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in TODO:
        na.append(dict(property=i, reason='check under construction'))
        continue
    checks.append(dict(
        property=i,
        quick_cmd='python3 bin/check.py %s quick' % i,
        thorough_cmd='python3 bin/check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='TLA+ specification model checked with TLC; recorded traces of the real library validated against it by TLC',
        level='model_checking',
        level_note='Bounded: design models are exhaustive within their constants; conformance is decided on '
                   'model-generated and seeded histories of the real code. Trusts TLC, the harness observers and the toolchain.'))
m = dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ specification in spec/, conformance harness in harness/; see DESIGN.md')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
