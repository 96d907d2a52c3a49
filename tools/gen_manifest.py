#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from jobs.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from jobs import JOBS, PROPS
checks = []
for p in sorted(JOBS):
    checks.append(dict(
        property=p,
        quick_cmd=f'python3 check.py {p} quick',
        thorough_cmd=f'python3 check.py {p} thorough',
        evidence_file=f'evidence/{p}.json',
        technique='symbolic execution of the compiled LLVM IR of /repo (own executor), assertions decided by Z3 / kissat with equivalence sweeping, counterexamples replayed natively',
        level='model_checking',
        level_note='Bounded: every path of the harness is explored and every assertion decided for all values of the symbolic bits. Bounds: ' + PROPS[p]['bounds']
                   + '. Outside: ' + '; '.join(PROPS[p]['outside']) + '. Trusted: the executor\'s IR semantics (checked on every run by replaying passing paths natively), Z3, kissat, and the reference semantics in harness/src/h.',
    ))
m = dict(version=1, setup_cmd='python3 check.py --build', checks=checks, not_applicable=[],
         notes='No hooks in /repo: the harness uses its public API only. Known findings and repaired defects: known_findings.txt. Costs per job: tools/costs.py after a run.')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
