"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, BOUNDS  # noqa: E402
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        hs = sorted(set(c['h'] for c in CHECKS[i]))
        note = ('Holds for every value of the symbolic inputs and every forked choice inside the bounds of its harnesses (' + ', '.join(hs) + '): '
                + '; '.join('%s: %s' % (h, BOUNDS.get(h, '')) for h in hs)
                + '. Trusts: the source rewriting and the engine (validated on every run by replaying sampled paths against the unmodified code compiled with real floats), Z3, '
                'exact arithmetic on the dyadic lattice standing for float arithmetic (checked per operation), and the stubs for random draws, logging and files. '
                'Inputs outside the bounds are not covered.')
        checks.append(dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='python3 run.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the real sources, assertions decided by Z3', level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'harness not built yet')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the sources are rewritten mechanically (float/double to a symbolic scalar type) from the working tree on every run. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
