#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/plans.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'tools'))
from plans import PLANS, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in PLANS:
        P = PLANS[i]
        checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='VERIF_TIER=thorough ./check %s' % i, evidence_file='evidence/%s.json' % i,
            technique='deterministic simulation with fault injection: ' + P['technique'], level=P.get('level', 'exploration'), level_note=P['note']))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
M = dict(version=1, setup_cmd='bash build.sh', checks=checks, not_applicable=na,
    hooks=dict(guard='none: the seams are the MPI, OpenMP runtime, libc and allocator symbols, replaced at link time', enable='build.sh compiles /repo/src with its usual options plus -fsanitize=thread call-backs and links it against /verif/sim', source_commits=[]),
    notes='Every check builds /repo/src into /verif/build and runs it inside the simulator in /verif/sim. ./check replay FILE re-executes a replay file; ./check findings re-executes the known findings.')
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
