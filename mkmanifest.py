#!/usr/bin/env python3
"""writes MANIFEST.json from cases.py and properties.jsonl"""
import json, cases
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in cases.CASES:
        n = sum(c.tier == 'q' for c in cases.CASES[i])
        checks.append(dict(
            property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
            technique='symbolic execution of the compiled LLVM IR with SMT (z3/cvc5), counterexamples replayed natively',
            level='model_checking',
            level_note='%d bounded cases in the quick tier; %s Bounds per case are in the evidence; outside them nothing is claimed.' % (n, cases.LEVEL.get(i, ''))))
    else:
        na.append(dict(property=i, reason='no check built yet'))
json.dump(dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
