"""print one failing obligation: dbg.py fn[:case] <substring> [nth]"""
import sys; sys.path.insert(0,'/verif')
import z3
from cverif import verify, contracts
from cverif.specs import SPECS
fn, case = (sys.argv[1].split(':')+[None])[:2]
sp=SPECS[fn]
cs=[c for c in sp.cases if verify.case_str(c)==case][0]
eng=verify.symexec(fn,cs)
k=int(sys.argv[3]) if len(sys.argv)>3 else None
n=0
for o in eng.obls:
    if sys.argv[2] in o.desc+' '+str(o.kind):
        if k is None or n==k:
            print('--',n,o.kind,o.line,o.desc)
            if k is not None or '-v' in sys.argv:
                s=z3.Solver(); [s.add(h) for h in o.hyps]; s.add(z3.Not(o.goal))
                open('/tmp/w/o.smt2','w').write(s.to_smt2())
                for h in o.hyps[-int(sys.argv[4]) if len(sys.argv)>4 else -15:]: print('   ',str(h)[:600])
                print('GOAL',o.goal)
        n+=1
