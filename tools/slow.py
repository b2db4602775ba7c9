"""slowest obligations over all functions under contract: python3-vt tools/slow.py [seconds] [fn...]"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from cverif import verify, contracts, props
from cverif.specs import SPECS
lim = float(sys.argv[1]) if len(sys.argv) > 1 else 8
want = sys.argv[2:]
fns = []
for P in props.PROPS.values():
    for f in P['fns']:
        f = f[0] if isinstance(f, tuple) else f
        if f not in fns and (not want or f in want):
            fns.append(f)
for f in fns:
    t0 = time.time()
    rs = verify.verify_all([(f, c) for c in SPECS[f].cases])
    w = time.time() - t0
    print('%-40s %3d cases %6d obligations %6.1f s' % (f, len(rs), sum(len(r['obls']) for r in rs), w), flush=True)
    for r in rs:
        if r['error']:
            print('   ERROR', r['case'], r['error'])
        for o in sorted(r['obls'], key=lambda o: -o[5]):
            if o[5] > lim or o[3] != 'valid':
                print('   %6.1f %-8s %-20s %s %s %s %s' % (o[5], o[3], o[4], r['case'], o[0], o[2], o[1][:100]), flush=True)
