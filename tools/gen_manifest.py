#!/usr/bin/env python3-vt
"""writes /verif/MANIFEST.json from cverif/props.py"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
from cverif.props import PROPS, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
def note(P):
    n = 'Proved for all inputs: ' + ', '.join(f if isinstance(f, str) else f[0] for f in P['fns']) + '. '
    if P['note']:
        n += P['note'] + ' '
    if P['bounded']:
        n += 'Bounded only (random and small exhaustive scenarios on the real code, exact oracle; not proved): ' + ', '.join(P['bounded']) + '. '
    return n + 'GMP, MPFR and libc are assumed through contracts.'


m = dict(version=1, setup_cmd='python3-vt -m compileall -q cverif replay >/dev/null',
         checks=[dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
                      technique='contract-based deductive verification of the C sources (weakest preconditions, z3/cvc5' + (', lemmas in Lean 4' if PROPS[i]['lean'] else '') + ')',
                      level='proof', level_note=note(PROPS[i])) for i in ids if i in PROPS],
         not_applicable=[dict(property=i, reason=NA.get(i, 'not built yet')) for i in ids if i not in PROPS])
for c, i in zip(m['checks'], [i for i in ids if i in PROPS]):
    if PROPS[i]['lean']:
        c['theorems'] = list(PROPS[i]['lean'])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(m['checks']), 'checks')
