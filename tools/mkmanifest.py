"""writes MANIFEST.json from the registered contracts"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import contracts
cs = contracts.load_all()
NOTE = {}
p = os.path.join(HERE, 'tools', 'notes.json')
if os.path.exists(p): NOTE = json.load(open(p))
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if pid in cs:
        nb = [c.name for c in cs[pid].values() if c.sym != 'full']
        note = NOTE.get(pid) or ('All contracts of this property are discharged for all shapes and values by the verifier.' if not nb else
                'Discharged for all inputs except the contracts %s, which are bounded stand-ins (labelled in the evidence, not counted as proved).' % ', '.join(nb))
        checks.append({'property': pid, 'quick_cmd': 'python3-vt check.py %s' % pid, 'thorough_cmd': 'python3-vt check.py %s --thorough' % pid,
                       'technique': 'contract-based deductive verification (symbolic execution of the real source into verification conditions, discharged by a term normaliser and z3; failed obligations replayed on the real code)',
                       'level': 'other' if pid in contracts.BOUNDED else 'proof', 'level_note': note})
    else: na.append({'property': pid, 'reason': NOTE.get(pid, 'no contract has been written for this property yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && /opt/venv/bin/python -c "import numpy, scipy"', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
