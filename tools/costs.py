#!/usr/bin/env python3
"""Print what each job of the last runs cost, from the evidence files."""
import json, sys, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(glob.glob(here + '/evidence/C*.json')):
    d = json.load(open(f))
    if sys.argv[1:] and d['property'] not in sys.argv[1:]:
        continue
    c = d['coverage']
    print(d['property'], d['tier'], d['wall_s'], 's, violations', d['violations'], 'exhaustive', c['exhaustive'], 'build', c['build_seconds'])
    for j in sorted(c['jobs'], key=lambda j: -j.get('total_seconds', 0))[: int(os.environ.get('TOP', 6))]:
        print('   %7.1f s solver %7.1f  %s %s paths %d queries %d' % (j.get('total_seconds', 0), j.get('solver_seconds', 0), j['entry'], j['params'], j.get('paths', 0), j.get('queries', 0)))
