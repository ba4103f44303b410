#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and lib/config.py."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from config import RUNS, NOTES
checks = []
for l in open(D + '/../properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    q = '; '.join('%s: %s' % (r['name'], r['what']) for r in RUNS[i] if r['tier'] != 'thorough')
    checks.append(dict(
        property=i, quick_cmd='python3 lib/check.py %s quick' % i, thorough_cmd='python3 lib/check.py %s thorough' % i,
        technique='symbolic execution of the LLVM bitcode of /repo/src with an SMT solver (gsx + z3), counterexamples replayed on the real code',
        level='model_checking',
        level_note=('Exhaustive for all values within these bounds: ' + q + '. ' + NOTES.get(i, '') +
                    ' Trusts the libc models of harness/libc.c and the executor; every run replays sampled paths on natively compiled code and on the real '
                    'gaia binary and fails if they differ. Outside the bounds nothing is claimed.').replace('  ', ' ')))
m = dict(version=1, setup_cmd='bash lib/setup.sh', checks=checks, not_applicable=[],
         notes='No hooks in /repo: the checks compile the unmodified sources. Genuine defects were repaired in "fix:" commits, see known_findings.json and DESIGN.md.')
json.dump(m, open(D + '/../MANIFEST.json', 'w'), indent=1)
