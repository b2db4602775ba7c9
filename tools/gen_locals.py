"""records the local variables and the loop nests of the functions under contract (cverif/locals.json): the names and positions the
annotations use; run on the tree the annotations were written for"""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from cverif import contracts                # noqa
from cverif import verify, lib
from cverif.engine import Engine
from cverif.specs import SPECS
out = {}
L = lib.Library()
for f in sorted(SPECS):
    if SPECS[f].trusted:
        continue
    name = f.split('@')[0]
    try:
        eng = Engine(L, name, verify.case_str(SPECS[f].cases[0]))
        fn = eng.tu.funcs.get(name)
        eng.number_loops(fn)
    except Exception as ex:
        print(f, repr(ex)[:100])
        continue
    out[name] = verify.local_decls(fn)
    out[name + '()'] = eng.loop_shape
json.dump(out, open(os.path.join(os.path.dirname(verify.__file__), 'locals.json'), 'w'), indent=0, sort_keys=True)
print(len(out) // 2, 'functions')
