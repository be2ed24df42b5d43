#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/bin')
import spec
NOTE = ('Bounded: the solver decides every assertion on every path of the compiled code (LLVM IR of /repo\'s current sources) for all inputs within the bounds stated in the evidence; nothing is claimed beyond them (%s). '
        'Trusted: clang 18\'s IR, the IR interpreter in engine/ (its paths are compared with g++ -O2 runs on solver models), Z3, and the reference definitions in harness/. Every reported violation has been reproduced in a native build.')
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in spec.PROPS:
        P = spec.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 bin/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the compiled sources (LLVM IR) with Z3', 'level': 'model_checking', 'level_note': NOTE % P.outside})
    else: na.append({'property': i, 'reason': 'no check yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 bin/check.py --setup', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks in /repo. bin/check.py PXX --replay FILE reruns a counterexample. DESIGN.md describes the method, the bounds and the findings.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
