#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks  # noqa: E402
TECH = 'bounded symbolic execution of the real code (LLVM IR), every branch and assertion decided by SMT (Z3, cvc5); counterexamples replayed natively'
NOTE = 'Holds for every input, choice and schedule within these bounds: %s Outside: %s'
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for i in ids:
    p = checks.PROPS.get(i)
    if p is None:
        m['not_applicable'].append({'property': i, 'reason': checks.NOT_APPLICABLE.get(i, 'Not built yet.')})
        continue
    m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                        'evidence_file': 'evidence/%s.json' % i, 'technique': p['technique'] or TECH, 'level': 'model_checking',
                        'level_note': NOTE % (p['bounds'], p['outside'] or 'nothing further.') + (' ' + p['note'] if p['note'] else '')
                        + ' Trusted: the clang front end, the executor in engine/ (cross-checked by replaying sampled paths on the natively built code), the libc models in engine/runtime.cpp, and the solvers.'})
m['notes'] = 'No hooks are added to /repo: harnesses use its public headers only. Known and repaired defects are listed in KNOWN_FINDINGS.json.'
open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
