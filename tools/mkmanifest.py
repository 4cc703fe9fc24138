#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from lib/checks.py (run: python3 tools/mkmanifest.py).
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'lib'))
import checks as C
TECH = {
    'seq': 'runtime reference-model monitoring of random reentrant programs under ASan/UBSan/libstdc++ debug mode',
    'sched': 'recorded concurrent histories under a seeded deterministic scheduler, checked offline',
}
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in C.CHECKS:
        c = C.CHECKS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 run_check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 run_check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c.get('technique', 'runtime monitoring: ' + '; '.join(dict.fromkeys(C.TECHNIQUE[C.BUILDS[q['build']]['src']] for q in c['parts']))),
            'level': c['level'],
            'level_note': c.get('note', 'Held on the executions the seeded generators produced on this run (counts and samples in the evidence file). Assumes the installed Boost, libstdc++ and compilers, the shim for boost/core/invoke_swap.hpp, and the correctness of the reference model; says nothing about programs and schedules not generated.'),
        })
    else:
        na.append({'property': i, 'reason': C.NOT_APPLICABLE.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile run_check.py lib/checks.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all instrumentation enters through the library\'s own template parameters (mutex, combiner, group, slot function types), user callbacks, operator new and the sanitizers.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
