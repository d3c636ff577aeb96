#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the notes below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
PROOF = {'C05', 'C11', 'C16'}
NOTE = json.load(open(os.path.join(V, 'levels.json'))) if os.path.exists(os.path.join(V, 'levels.json')) else {}
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    n = NOTE.get(p, {})
    checks.append(dict(
        property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='python3-vt check.py %s --thorough' % p,
        technique='contract-based deductive verification of the real functions (own VC generator on the clang AST, z3/cvc5), '
                  'with a bounded exploration standing in where no contract reaches',
        level=n.get('level', 'proof' if p in PROOF else 'other'),
        level_note=n.get('note', 'see DESIGN.md')))
json.dump(dict(version=1, setup_cmd='python3-vt check.py --build', checks=checks, not_applicable=[]),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
