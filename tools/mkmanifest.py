#!/usr/bin/env python3
"""Write MANIFEST.json.  Levels follow what contracts/ holds: a property with a contracts module is claimed as proof of the
functions listed there (with the rest bounded), one without is claimed as bounded exploration."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'level_notes.json')))
base = {}
bf = os.path.join(HERE, 'contracts', 'baseline.json')
if os.path.exists(bf): base = json.load(open(bf))
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(l); p = d['id']
    if p in NA: continue
    proved = [k.split('/')[1] for k, v in sorted(base.items()) if k.startswith(p + '/') and v['status'] == 'proved']
    if proved:
        level = 'proof'
        tech = 'deductive contracts on the real functions (VC generation over the dumped AST, z3/cvc5), with bounded executable contracts for what is not yet under contract'
        note = '%d contracts proved for all inputs: %s. ' % (len(proved), ', '.join(proved))
    else:
        level = 'exploration'
        tech = 'executable contracts (pre/postconditions with reference oracles) run on the real code; bounded stand-in for deductive contracts'
        note = 'Bounded: no function of this property is proved. '
    note += NOTES.get(p, '') + ' Trusted: the verifier in pyvc/ and its model of the Python 2.7 runtime; see the evidence file for assumed contracts. The executable contracts are bounded and never counted as proved.'
    checks.append({'property': p, 'quick_cmd': 'python3-vt run.py %s --tier quick' % p, 'thorough_cmd': 'python3-vt run.py %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': level, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5; import sys; sys.path.insert(0, \'pyvc\'); import prove"',
           'checks': checks, 'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
           'notes': 'One command per property: run.py. It dumps the current source of /repo through Jython, discharges the contracts in contracts/<id>.py and runs the executable contracts in dyn/<id>.py. No hooks in /repo.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', sum(c['level'] == 'proof' for c in checks), 'proof')
