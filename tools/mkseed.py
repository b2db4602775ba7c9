#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a specification: edits, demo source, meta"""
import sys, os, json, subprocess, shutil, tempfile
H = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    w = tempfile.mkdtemp(prefix='seedw_')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '--detach', '-f', w, 'HEAD'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w])
    o = os.path.join(H, '..', 'seeded', b['id'])
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(o + '/meta.json', 'w'), indent=1)
    open(o + '/demo.c', 'w').write('#include "util.h"\n' + b['demo'].strip() + '\n')
    shutil.copy(H + '/seedsrc/util.h', o)
    shutil.copy(H + '/seedsrc/demo.sh', o)
    os.chmod(o + '/demo.sh', 0o755)
    print(b['id'])
