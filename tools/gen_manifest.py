#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per harness sym/h/<ID>.cpp, everything else not applicable."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
NA = {}
for l in open(os.path.join(ROOT, 'tools', 'not_applicable.txt')):
    if l.strip() and not l.startswith('#'):
        i, r = l.strip().split(' ', 1)
        NA[i] = r
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if not os.path.exists(os.path.join(ROOT, 'sym', 'h', i + '.cpp')):
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for this property yet')})
        continue
    s = check.read_spec(i)
    note = ('Every path of the real code over all values of the symbolic inputs, within bounds: ' + s.get('bounds', '') +
            '. Outside: ' + s.get('outside', 'larger inputs') + '. Assumes: ' + (s.get('assumptions') or 'none beyond the trusted parts') +
            '. Trusted: clang 19, the ionsym engine (counterexamples and sampled paths are replayed on the natively compiled code), z3, the environment models of sym/.')
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick',
                   'thorough_cmd': f'python3 check.py {i} --tier thorough', 'evidence_file': f'evidence/{i}.json',
                   'technique': 'symbolic execution of the LLVM IR of the real code, assertions decided by z3',
                   'level': 'model_checking', 'level_note': re.sub(r'\s+', ' ', note)})
json.dump({'version': 1, 'setup_cmd': 'make -C engine -j8', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks compile the unmodified sources of /repo. See DESIGN.md.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
