#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and harness/jobs.py
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/harness')
import jobs as J
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']; P = J.PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough VERIF_BUDGET=6000 python3 check.py %s' % i, 'evidence_file': 'evidence/%s.json' % i,
        'technique': 'bounded symbolic execution of the LLVM IR of the real headers (vfse), decided by Z3; counterexamples and sampled paths replayed natively',
        'level': 'model_checking',
        'level_note': 'Every value of the symbolic inputs within the bounds, on the code compiled from /repo at each run. ' + ' '.join(P.get('assume', [])) + ' ' + P['bounds']})
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': [], 'notes': 'No hooks: the checks build /repo as it is. See DESIGN.md for what each check encodes, KNOWN_FINDINGS for the defects repaired.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
