"""Replay framework: builds the library from the current tree with sanitizers, runs scenarios, judges with exact oracles."""
import os, subprocess, random, re, shutil, tempfile, time
from fractions import Fraction as Fr

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OK, OOM, SINGULAR, INCORRECT_INPUT, INCORRECT, PANIC = 0, -1, -2, -3, -4, -5
CSC, TRIP, DENSE = 0, 1, 2
MPZ, MPQ, MPFR, INT64, FP64 = range(5)


class Found(Exception):
    pass


def build(d, san=True):
    """library objects + drivers in directory d; returns dict name -> executable"""
    cf = ['-g', '-O1', '-Wno-error', '-w', '-fcommon', '-I%s/SLIP_LU/Include' % REPO, '-I%s/SLIP_LU/Source' % REPO, '-I%s/SuiteSparse_config' % REPO,
          '-I%s/AMD/Include' % REPO, '-I%s/COLAMD/Include' % REPO, '-I%s/AMD/Source' % REPO]
    if san:
        cf += ['-fsanitize=address,undefined', '-fno-sanitize=leak', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
    jobs = []
    for f in sorted(os.listdir(REPO + '/SLIP_LU/Source')):
        if f.endswith('.c'):
            jobs.append((f'{REPO}/SLIP_LU/Source/{f}', d + '/s_' + f[:-2] + '.o', []))
    jobs.append((f'{REPO}/SuiteSparse_config/SuiteSparse_config.c', d + '/ssc.o', []))
    for f in sorted(os.listdir(REPO + '/AMD/Source')):
        if f.endswith('.c'):
            jobs.append((f'{REPO}/AMD/Source/{f}', d + '/ai_' + f[:-2] + '.o', ['-DDINT']))
            jobs.append((f'{REPO}/AMD/Source/{f}', d + '/al_' + f[:-2] + '.o', ['-DDLONG']))
    jobs.append((f'{REPO}/COLAMD/Source/colamd.c', d + '/ci.o', []))
    jobs.append((f'{REPO}/COLAMD/Source/colamd.c', d + '/cl.o', ['-DDLONG']))
    run = []
    objs = []
    err = None
    jobs = list(jobs)
    objs = [o for _, o, _ in jobs]
    jobs.append((HERE + '/drv.c', d + '/drv.o', []))
    jobs.append((HERE + '/drv2.c', d + '/drv2.o', []))
    it = iter(jobs)
    bad = []
    live = []
    done = False
    while live or not done:
        while len(live) < 12 and not done:
            try:
                s, o, x = next(it)
            except StopIteration:
                done = True
                break
            live.append((subprocess.Popen(['gcc'] + cf + x + ['-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), s, o))
        p, s, o = live.pop(0)
        e = p.communicate()[1]
        if p.returncode:
            bad.append((s, e.decode()[-600:]))
    for s, e in bad:
        if s.endswith('/drv.c'):
            r = subprocess.run(['gcc'] + cf + ['-DNO_INTERNAL', '-include', HERE + '/nointernal.h', '-c', s, '-o', d + '/drv.o'], stderr=subprocess.PIPE)
            if r.returncode:
                raise RuntimeError('driver does not compile: ' + r.stderr.decode()[-500:])
        elif not s.endswith('/drv2.c'):
            raise RuntimeError('%s does not compile: %s' % (s, e))
    out = {}
    for n in ('drv', 'drv2'):
        if os.path.exists(d + '/%s.o' % n):
            lf = ['-fsanitize=address,undefined'] if san else []
            r = subprocess.run(['gcc'] + lf + [d + '/%s.o' % n] + objs + ['-lmpfr', '-lgmp', '-lm', '-o', d + '/' + n], stderr=subprocess.PIPE)
            if r.returncode == 0:
                out[n] = d + '/' + n
            elif n == 'drv':
                raise RuntimeError('driver does not link: ' + r.stderr.decode()[-500:])
    return out


def run_raw(exe, text, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        r = subprocess.run([exe], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as ex:
        return 'timeout', (ex.stdout or b'').decode(errors='replace'), (ex.stderr or b'').decode(errors='replace')


class Scen:
    """list of commands + oracle(outputs) -> None or error text"""

    def __init__(self, cmds, oracle, name=''):
        self.cmds, self.oracle, self.name = cmds, oracle, name


def split_out(txt):
    outs = {}
    for part in re.split(r'(?m)^#', txt)[1:]:
        m = re.match(r'(\d+) ?', part)
        outs[int(m.group(1))] = part[m.end():].rstrip('\n')
    # "#" markers may follow program output on the same line
    return outs


def run_batch(exe, scens, timeout=120):
    """runs the scenarios in one process; on a crash bisects to the culprit.  raises Found"""
    i = 0
    while i < len(scens):
        chunk = scens[i:]
        text = '\n'.join(c for s in chunk for c in s.cmds) + '\n'
        rc, out, err = run_raw(exe, text, timeout)
        outs = split_out(out)
        pos = 0
        crashed = rc != 0
        for k, s in enumerate(chunk):
            n = len(s.cmds)
            mine = [outs.get(pos + t) for t in range(n)]
            pos += n
            complete = all(m is not None for m in mine) and (not crashed or max(outs) >= pos or (pos - 1 in outs and k == len(chunk) - 1 and rc == 0))
            if not complete:
                # crashed inside this scenario: run it alone to be sure
                rc1, out1, err1 = run_raw(exe, '\n'.join(s.cmds) + '\n', min(timeout, 30))
                if rc1 != 0:
                    raise Found('%s\ncommands:\n%s\nthe program ended with %s\n%s\n%s' % (s.name, '\n'.join(s.cmds), rc1, out1[-1500:], err1[-2500:]))
                o1 = split_out(out1)
                mine = [o1.get(t) for t in range(n)]
                e = s.oracle(mine) if None not in mine else None
                if e:
                    raise Found('%s\ncommands:\n%s\noutputs:\n%s\n%s' % (s.name, '\n'.join(s.cmds), '\n'.join(map(str, mine)), e))
                if crashed and rc == 'timeout':
                    return
                if crashed:
                    raise Found('%s\nthe program ended with %s while running a batch ending with:\n%s\n%s' % (s.name, rc, '\n'.join(s.cmds), err[-2500:]))
                i += k + 1
                break
            try:
                e = s.oracle(mine)
            except Found:
                raise
            except Exception as ex:
                e = 'the output cannot be interpreted: %r' % (ex,)
            if e:
                raise Found('%s\ncommands:\n%s\noutputs:\n%s\n%s' % (s.name, '\n'.join(s.cmds), '\n'.join(map(str, mine)), e))
        else:
            return
    return


# --------------------------------------------------------------------------- matrices
class Mat:
    def __init__(self, kind, typ, m, n, p=(), i=(), j=(), x=(), scale=Fr(1), nz=None, nzmax=None, prec=128):
        self.kind, self.typ, self.m, self.n = kind, typ, m, n
        self.p, self.i, self.j, self.x = list(p), list(i), list(j), list(x)
        self.scale = Fr(scale)
        self.nz = len(self.x) if nz is None else nz
        self.nzmax = max(len(self.x), 1 if kind != DENSE else 0) if nzmax is None else nzmax
        self.prec = prec

    def tok(self, v):
        if self.typ in (MPZ, INT64):
            return str(int(v))
        if self.typ == FP64:
            return v.hex() if isinstance(v, float) else float(v).hex()
        if isinstance(v, str):
            return v
        if isinstance(v, float):
            return v.hex() if v == v and abs(v) != float('inf') else str(v)
        return '%d/%d' % (Fr(v).numerator, Fr(v).denominator)

    def cmd(self, k):
        s = self.scale
        return 'mat %d %d %d %d %d %d %d %d %d/%d %d %s %d %s %d %s %d %s' % (
            k, self.kind, self.typ, self.m, self.n, self.nzmax, self.nz, self.prec, s.numerator, s.denominator,
            len(self.p), ' '.join(map(str, self.p)), len(self.i), ' '.join(map(str, self.i)), len(self.j), ' '.join(map(str, self.j)),
            len(self.x), ' '.join(self.tok(v) for v in self.x))

    def dense(self):
        """dict (i,j) -> raw value (duplicates added)"""
        D = {}
        for i, j, v in self.triples():
            D[i, j] = D.get((i, j), 0) + v
        return D

    def triples(self):
        if self.kind == CSC:
            for j in range(self.n):
                for t in range(self.p[j], self.p[j + 1]):
                    yield self.i[t], j, self.x[t]
        elif self.kind == TRIP:
            for t in range(self.nz):
                yield self.i[t], self.j[t], self.x[t]
        else:
            for j in range(self.n):
                for i in range(self.m):
                    yield i, j, self.x[i + j * self.m]


def from_dense(D, m, n, kind, typ, rng=None, scale=Fr(1), prec=128, keepzero=0.0, extra=0):
    """D: list of rows"""
    if kind == DENSE:
        return Mat(kind, typ, m, n, x=[D[i][j] for j in range(n) for i in range(m)], scale=scale, prec=prec)
    ents = [[(i, D[i][j]) for i in range(m) if D[i][j] != 0 or (rng and rng.random() < keepzero)] for j in range(n)]
    if rng:
        for c in ents:
            rng.shuffle(c)
    if kind == CSC:
        p, ii, x = [0], [], []
        for c in ents:
            ii += [e[0] for e in c]
            x += [e[1] for e in c]
            p.append(len(ii))
        return Mat(kind, typ, m, n, p=p, i=ii, x=x, scale=scale, prec=prec, nzmax=max(1, len(x)) + extra)
    t = [(e[0], j, e[1]) for j, c in enumerate(ents) for e in c]
    if rng:
        rng.shuffle(t)
    return Mat(kind, typ, m, n, i=[e[0] for e in t], j=[e[1] for e in t], x=[e[2] for e in t], scale=scale, prec=prec, nzmax=max(1, len(t)) + extra)


def num(s):
    if '@' in s:
        s = s.split('@')[0]
    if s in ('nan', 'inf', '-inf', 'null', '-nan'):
        return s
    if 'p' in s or '0x' in s:
        return Fr(float.fromhex(s))
    return Fr(s)


def parse(line):
    """dump line -> Mat with raw values (numbers as Fraction or str)"""
    if line is None or line.startswith('NULL'):
        return None
    t = line.split()
    kind, typ, m, n, nzmax, nz = map(int, t[1:7])
    ix = {}
    for nm in ('scale', 'p', 'i', 'j', 'x'):
        ix[nm] = t.index(nm)
    M = Mat(kind, typ, m, n, nz=nz, nzmax=nzmax)
    M.shallow = t[8]
    M.scale = num(t[ix['scale'] + 1])
    seg = lambda a, b: t[ix[a] + 1: (ix[b] if b else len(t))]
    g = lambda s: None if s == ['NULL'] else s
    M.p = g(seg('p', 'i'))
    M.i = g(seg('i', 'j'))
    M.j = g(seg('j', 'x'))
    xs = g(seg('x', None))
    for nm in ('p', 'i', 'j'):
        v = getattr(M, nm)
        setattr(M, nm, None if v is None else [int(a) for a in v])
    M.xs = xs
    M.x = None if xs is None else [num(a) for a in xs]
    return M


def R(line):
    m = re.search(r'\bR (-?\d+)', line)
    return int(m.group(1))


def body(line):
    """result part of an output line (library printing may precede it)"""
    return line


def det(A):
    n = len(A)
    M = [[Fr(x) for x in r] for r in A]
    d = Fr(1)
    for k in range(n):
        p = next((i for i in range(k, n) if M[i][k] != 0), None)
        if p is None:
            return Fr(0)
        if p != k:
            M[p], M[k] = M[k], M[p]
            d = -d
        d *= M[k][k]
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            if f:
                for j in range(k, n):
                    M[i][j] -= f * M[k][j]
    return d


def matmul(A, X):
    return [[sum((a * X[k][c] for k, a in enumerate(r) if a), Fr(0)) for c in range(len(X[0]))] for r in A]
