#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, harnesses.py and the notes below. (Editing aid.)"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from harnesses import HARNESSES, PROPS
NA = {}
exec(open(os.path.join(V, 'notes', 'na.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            technique='symbolic execution of the LLVM bitcode of the current sources (own engine, Z3); counterexamples replayed natively',
            level='model_checking',
            level_note='Bounded: %s. All values within the bounds are decided; %s Trusts the engine, clang -O1 as the meaning of the C code, Z3 and the small C library in rt/.' % (
                '; '.join('%s: %s' % (h, HARNESSES[h]['bounds']) for h in PROPS[i]), 'larger inputs are outside.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='engine/build.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo. Engine: engine/sx.cpp; harnesses: h/; driver: check.py.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
