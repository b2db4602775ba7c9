"""Replay search: after a proof failed, look for an input on which the real code (built from the current tree) breaks the property."""
import os, sys, random, time, shutil, tempfile, itertools, math
from fractions import Fraction as Fr
from rp import *

PIVOTS, ORDERS = range(6), range(3)


def rnd_val(r, mode):
    if mode == 0:
        return r.choice([-2, -1, 1, 2])
    if mode == 1:
        return r.choice([-1, 1]) * r.randint(1, 9)
    if mode == 2:
        return r.choice([-1, 1]) * r.randint(1, 10 ** r.randint(1, 30))
    return r.choice([-1, 1]) * (2 ** r.randint(0, 130) + r.randint(-1, 1) or 1)


def rnd_square(r, n=None, singular=None):
    n = n or r.choice([1, 1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8])
    mode = r.choice([0, 0, 0, 1, 1, 2, 3])
    dens = r.choice([0.2, 0.35, 0.5, 0.7, 1.0])
    D = [[rnd_val(r, mode) if r.random() < dens else 0 for _ in range(n)] for _ in range(n)]
    shape = r.randint(0, 6)
    if shape in (0, 1, 2, 3) or singular is False:
        perm = list(range(n))
        r.shuffle(perm)
        for i in range(n):
            if D[i][perm[i]] == 0:
                D[i][perm[i]] = rnd_val(r, mode)
    if shape == 4:                      # arrow
        D = [[D[i][j] if i == j or i == 0 or j == 0 else 0 for j in range(n)] for i in range(n)]
        for i in range(n):
            D[i][i] = D[i][i] or 1
    if shape == 5 and n > 1:            # rank deficient with full structure
        k = r.randrange(n)
        c = [r.randint(-2, 2) for _ in range(n)]
        D[k] = [sum(c[t] * D[t][j] for t in range(n) if t != k) for j in range(n)]
    if shape == 6 and n > 1:            # bidiagonal chain, permuted
        D = [[0] * n for _ in range(n)]
        a, b = list(range(n)), list(range(n))
        r.shuffle(a)
        for t in range(n):
            D[a[t]][b[t]] = rnd_val(r, mode)
            if t:
                D[a[t]][b[t - 1]] = rnd_val(r, mode)
                if r.random() < .4:
                    D[a[t]][b[r.randrange(t)]] = rnd_val(r, mode)
    if singular is False and det(D) == 0:
        return rnd_square(r, n, False)
    return D


def rnd_scale(r):
    return Fr(1) if r.random() < .4 else Fr(r.choice([-1, 1, 1, 1]) * r.randint(1, 50), r.randint(1, 50))


def opt_cmd(r, pivot=None, order=None, check=None, tol=None, prec=128, rnd=0, pr=0):
    pivot = r.choice(list(PIVOTS)) if pivot is None else pivot
    order = r.choice(list(ORDERS)) if order is None else order
    tol = r.choice([1.0, 1.0, 0.5, 0.1, 0.0, 2.0]) if tol is None else tol
    return 'opt %d %d %s %d %d %d %d' % (pivot, order, float(tol).hex(), pr, prec, rnd, r.randint(0, 1) if check is None else check), pivot, order, tol


# --------------------------------------------------------------------------- factor / solve pipeline
def check_lu(A, q, outs, pivot, tol):
    """C02 + C04 on parsed L, U, rhos, pinv"""
    n = len(A)
    L, U, rh, pinv = outs
    if sorted(pinv) != list(range(n)):
        return 'C02 pinv %s is not a permutation' % pinv
    rho = rh.x[:n]
    if any(isinstance(v, str) or v == 0 for v in rho):
        return 'C02 rhos %s has a zero' % rho
    for nm, M in (('L', L), ('U', U)):
        if M.m != n or M.n != n or M.kind != CSC or M.typ != MPZ or M.p[0] != 0 or any(M.p[j] > M.p[j + 1] for j in range(n)):
            return 'C02 %s is malformed' % nm
        for j in range(n):
            rows = M.i[M.p[j]:M.p[j + 1]]
            if len(set(rows)) != len(rows) or any(i < 0 or i >= n for i in rows):
                return 'C02 column %d of %s has bad row indices %s' % (j, nm, rows)
            if any((i < j) if nm == 'L' else (i > j) for i in rows):
                return 'C02 column %d of %s is not triangular: %s' % (j, nm, rows)
            if any(isinstance(v, str) for v in M.x[M.p[j]:M.p[j + 1]]):
                return 'C02 %s has unset numbers' % nm
    LD, UD = [[Fr(0)] * n for _ in range(n)], [[Fr(0)] * n for _ in range(n)]
    for i, j, v in L.triples():
        LD[i][j] = v
    for i, j, v in U.triples():
        UD[i][j] = v
    for k in range(n):
        if LD[k][k] != rho[k] or UD[k][k] != rho[k]:
            return 'C02 diagonal %d of L or U is not rhos[%d]' % (k, k)
    d = [rho[k] * (rho[k - 1] if k else 1) for k in range(n)]
    for i in range(n):
        for j in range(n):
            s = sum((LD[i][k] * UD[k][j] / d[k] for k in range(min(i, j) + 1)), Fr(0))
            r0 = pinv.index(i)
            if s != A[r0][q[j]]:
                return 'C02 (L D^-1 U)(%d,%d) = %s but (PAQ) = %s' % (i, j, s, A[r0][q[j]])
    # pivots
    V = [[Fr(A[i][q[j]]) for j in range(n)] for i in range(n)]
    piv = set()
    prev = Fr(1)
    for k in range(n):
        row = pinv.index(k)
        cand = {i: abs(V[i][k]) for i in range(n) if i not in piv and V[i][k] != 0}
        if row not in cand:
            return 'C04 pivot %d is zero or pivotal' % k
        lo, hi = min(cand.values()), max(cand.values())
        dg = q[k]
        v = cand[row]
        T = Fr(tol)
        e = None
        if pivot == 0 and v != lo:
            e = 'not the smallest'
        if pivot == 5 and v != hi:
            e = 'not the largest'
        if pivot == 1 and (row != dg if dg in cand else v != lo):
            e = 'not the diagonal / smallest'
        if pivot == 3:
            if dg in cand and lo / cand[dg] >= T:
                e = 'not the diagonal entry within tolerance' if row != dg else None
            elif v != lo:
                e = 'not the smallest'
        if pivot == 4:
            if dg in cand and cand[dg] / hi >= T:
                e = 'not the diagonal entry within tolerance' if row != dg else None
            elif v != hi:
                e = 'not the largest'
        if e:
            return 'C04 step %d: pivot row %d (|value| %s) is %s; candidates %s, diagonal row %d, option %d tol %s' % (k, row, v, e, cand, dg, pivot, tol)
        piv.add(row)
        p = V[row][k]
        for i in range(n):
            if i not in piv:
                f = V[i][k]
                for j in range(n):
                    V[i][j] = (p * V[i][j] - f * V[row][j]) / prev
        prev = p
    return None


def pipeline(r, want, oom=None):
    """init, A, b, analyze, factorize, solve, free.  `want`: set of property ids judged"""
    A = rnd_square(r)
    n = len(A)
    o, pivot, order, tol = opt_cmd(r)
    sa, sb = rnd_scale(r), rnd_scale(r)
    MA = from_dense(A, n, n, CSC, MPZ, r, scale=sa, keepzero=r.choice([0, 0, .3]), extra=r.randint(0, 3))
    nr = r.choice([1, 1, 2, 3])
    B = [[r.choice([0, rnd_val(r, 1), rnd_val(r, 2)]) for _ in range(nr)] for _ in range(n)]
    if r.random() < .1:
        B = [[0] * nr for _ in range(n)]
    MB = from_dense(B, n, nr, DENSE, MPZ, scale=sb)
    own = r.random() < .3
    c = ['init', o, MA.cmd(0), MB.cmd(1), 'dump 0', 'dump 1', 'optshow']
    if own:
        q = list(range(n))
        r.shuffle(q)
        c.append('mkS %d %d %d %s' % (n, n + r.randint(0, 2), n + r.randint(0, 2), ' '.join(map(str, q))))
    else:
        c.append('analyze 0')
    c += ['factorize 0', 'showpinv %d' % n, 'dumpL', 'dumpU', 'dumprhos', 'solve 2 1 0', 'dump 2', 'dumpL', 'dumpU', 'dumprhos', 'showpinv %d' % n, 'dump 0', 'dump 1', 'optshow', 'freelu', 'free 0', 'free 1', 'free 2', 'finalize', 'live']
    if not own:
        c.insert(c.index('factorize 0'), 'echo x')

    def oracle(o):
        d = dict()
        ctr = {}
        for cmd, out in zip(c, o):
            ctr[cmd] = ctr.get(cmd, 0) + 1
            d[cmd, ctr[cmd]] = out
        dt = det(A)
        e = []
        if own:
            qq = q
        else:
            an = d['analyze 0', 1]
            if R(an) != OK:
                return 'analyze fails with %d' % R(an)
            t = an.split()
            qq = [int(v) for v in t[t.index('q') + 1:]][:n]
            lnz, unz = int(t[t.index('lnz') + 1]), int(t[t.index('unz') + 1])
            if sorted(qq) != list(range(n)):
                e.append('C05 q = %s is not a permutation' % qq)
                qq = None
            elif order == 0 and qq != list(range(n)):
                e.append('C05 q = %s is not the identity' % qq)
            if lnz < n or unz < n:
                e.append('C05 estimates %d %d are too small' % (lnz, unz))
        f = d['factorize 0', 1]
        rf = R(f)
        if (rf == SINGULAR) != (dt == 0):
            e.append('C03 determinant is %s but factorize returns %d' % (dt, rf))
        if rf != OK and rf != SINGULAR:
            e.append('C02 factorize fails with %d' % rf)
        if rf != OK and ('L set' in f or 'U set' in f or 'rhos set' in f or 'pinv set' in f):
            e.append('C03 C09 a factor is returned with an error')
        if rf == OK and qq:
            LU = [parse(d[x, 1]) for x in ('dumpL', 'dumpU', 'dumprhos')] + [[int(v) for v in d['showpinv %d' % n, 1].split()[1:]]]
            m = check_lu(A, qq, LU, pivot, tol)
            if m:
                e.append(m)
            s = d['solve 2 1 0', 1]
            if R(s) != OK:
                e.append('C01 C16 solve returns %d' % R(s))
            else:
                X = parse(d['dump 2', 1])
                if X.kind != DENSE or X.typ != MPQ or X.m != n or X.n != nr or any(isinstance(v, str) for v in X.x):
                    e.append('C01 x is malformed')
                else:
                    xs = [[X.x[i + j * n] for j in range(nr)] for i in range(n)]
                    ax = matmul([[Fr(v) / sa for v in row] for row in A], xs)
                    if any(ax[i][j] != Fr(B[i][j]) / sb for i in range(n) for j in range(nr)):
                        e.append('C01 A*x != b: x = %s' % xs)
        if rf == OK:
            for nm in ('dumpL', 'dumpU', 'dumprhos', 'showpinv %d' % n):
                if d[nm, 1] != d[nm, 2]:
                    e.append('C13 %s changed in solve' % nm)
        for nm in ('dump 0', 'dump 1', 'optshow'):
            if d[nm, 1] != d[nm, 2]:
                e.append('C13 input changed: %s' % nm)
        if 'LIVE 0 bad 0' not in d['live', 1]:
            e.append('C09 blocks left: ' + d['live', 1])
        e = [x for x in e if want & set(x.split()) or want == {'*'}]
        return '; '.join(e) or None
    return Scen(c, oracle, 'factorize/solve pipeline')


def conv_vals(r, typ, rows, cols, zero=.3):
    def one():
        if r.random() < zero:
            return 0
        if typ == MPZ:
            return rnd_val(r, r.choice([0, 1, 2]))
        if typ == INT64:
            return r.choice([r.randint(-9, 9), r.randint(-10 ** 6, 10 ** 6), 2 ** 40 + r.randint(0, 99)])
        if typ == MPQ:
            return Fr(r.randint(-60, 60), r.choice([1, 2, 3, 4, 6, 10, 35]))
        if typ == FP64:
            return r.choice([float(r.randint(-9, 9)), r.randint(-99, 99) / 4.0, r.randint(-99, 99) / 8.0, 1.5, 1e6, 0.0625])
        return Fr(r.randint(-99, 99), r.choice([1, 2, 4, 16, 64]))
    return [[one() for _ in range(cols)] for _ in range(rows)]


def backslash(r, want):
    while True:
        n = r.choice([1, 2, 2, 3, 4, 5])
        ta, tb = r.choice(range(5)), r.choice(range(5))
        A = conv_vals(r, ta, n, n, r.choice([0, .3, .5]))
        if r.random() < .8 and det([[Fr(v) for v in row] for row in A]) == 0:
            continue
        break
    nr = r.choice([1, 2])
    B = conv_vals(r, tb, n, nr)
    sa = rnd_scale(r) if ta == MPZ else Fr(1)
    sb = rnd_scale(r) if tb == MPZ else Fr(1)
    MA = from_dense(A, n, n, CSC, ta, r, scale=sa, keepzero=r.choice([0, .3]))
    MB = from_dense(B, n, nr, DENSE, tb, scale=sb)
    ty = r.choice([MPQ, MPQ, MPQ, FP64, MPFR])
    o, *_ = opt_cmd(r, prec=200)
    # SLIP_backslash wants mpz: other types are converted with SLIP_matrix_copy first, as the user guide says
    c = ['init', o, MA.cmd(4), MB.cmd(5), 'copy 0 0 0 4', 'copy 1 2 0 5', 'dump 0', 'dump 1', 'optshow', 'backslash 2 %d 0 1' % ty, 'dump 2', 'dump 0', 'dump 1', 'optshow', 'free 0', 'free 1', 'free 2', 'free 4', 'free 5', 'finalize', 'live']

    def oracle(o):
        e = []
        AF = [[Fr(v) / sa for v in row] for row in A]
        BF = [[Fr(v) / sb for v in row] for row in B]
        dt = det(AF)
        if R(o[4]) or R(o[5]):
            return 'C06 C01 matrix copy fails: %s %s' % (o[4], o[5]) if want & {'C01', 'C06'} else None
        rc = R(o[9])
        if (rc == SINGULAR) != (dt == 0):
            e.append('C03 determinant %s, backslash returns %d' % (dt, rc))
        elif rc != OK and rc != SINGULAR:
            e.append('C01 backslash returns %d' % rc)
        if rc != OK and 'X set' in o[9]:
            e.append('C03 C09 solution returned with an error')
        if rc == OK and dt != 0:
            X = parse(o[10])
            if X is None or X.kind != DENSE or X.typ != ty or X.m != n or X.n != nr:
                e.append('C01 x has the wrong shape')
            else:
                # exact solution by Cramer's rule
                for j in range(nr):
                    for i in range(n):
                        num = det([[AF[a][b] if b != i else BF[a][j] for b in range(n)] for a in range(n)])
                        want_x = num / dt
                        got = X.x[i + j * n]
                        if ty == MPQ:
                            ok = got == want_x
                        elif ty == FP64:
                            ok = not isinstance(got, str) and abs(got - want_x) <= abs(want_x) * Fr(1, 2 ** 50)
                        else:
                            ok = not isinstance(got, str) and abs(got - want_x) <= abs(want_x) * Fr(1, 2 ** 198)
                        if not ok:
                            e.append('C01 x(%d,%d) = %s, exact solution %s' % (i, j, got, want_x))
        for a, b in ((6, 11), (7, 12), (8, 13)):
            if o[a] != o[b]:
                e.append('C13 input changed')
        if 'LIVE 0 bad 0' not in o[-1]:
            e.append('C09 blocks left: ' + o[-1])
        e = [x for x in e if want & set(x.split()) or want == {'*'}]
        return '; '.join(e[:4]) or None
    return Scen(c, oracle, 'backslash')


def pivot_unit(r, want):
    n = r.choice([1, 2, 3, 4, 5, 6])
    k = r.randrange(n)
    perm = list(range(n))
    r.shuffle(perm)
    piv = perm[:k]                 # pivotal rows
    rp = perm[:]
    pinv = [0] * n
    for t, i in enumerate(rp):
        pinv[i] = t
    pivs = [1 if i in piv else -1 for i in range(n)]
    mode = r.choice([0, 1, 2])
    x = [0 if r.random() < .3 else rnd_val(r, mode) for _ in range(n)]
    pat = [i for i in range(n) if x[i] != 0 or r.random() < .6]
    r.shuffle(pat)
    xi = [r.randrange(n) for _ in range(n - len(pat))] + pat
    top = n - len(pat)
    col = r.randrange(n)
    o, pivot, order, tol = opt_cmd(r)
    c = ['init', o, 'pivot %d %d %d %d %s %s %s %s %s' % (n, k, col, top, ' '.join(map(str, pivs)), ' '.join(map(str, xi)), ' '.join(map(str, x)), ' '.join(map(str, pinv)), ' '.join(map(str, rp))), 'finalize', 'live']

    def oracle(out):
        t = out[2].split()
        rc, pv = int(t[1]), int(t[2])
        cand = [i for i in pat if pivs[i] < 0 and x[i] != 0]
        e = []
        if (rc == SINGULAR) != (not cand):
            e.append('C03 C04 candidates %s, returns %d' % (cand, rc))
        elif rc == OK:
            lo, hi = min(abs(x[i]) for i in cand), max(abs(x[i]) for i in cand)
            T = Fr(tol)
            first = cand[0]
            m = None
            if pv not in cand:
                m = 'is not eligible'
            else:
                v = abs(x[pv])
                dg = col in cand
                if pivot == 0 and v != lo or pivot == 5 and v != hi or pivot == 2 and pv != first or pivot == 1 and (pv != col if dg else v != lo):
                    m = 'does not obey option %d' % pivot
                if pivot == 3 and (pv != col if dg and Fr(lo, abs(x[col])) >= T else v != lo) or pivot == 4 and (pv != col if dg and Fr(abs(x[col]), hi) >= T else v != hi):
                    m = 'does not obey option %d with tol %s' % (pivot, tol)
            if m:
                e.append('C04 pivot row %d %s' % (pv, m))
            else:
                g = lambda a, b: [int(v) for v in t[t.index(a) + 1: t.index(b)]]
                pi2, rp2 = g('pinv', 'rp'), g('rp', 'pivs')
                pv2 = [int(v) for v in t[t.index('pivs') + 1:]]
                if rp2[k] != pv or any(pi2[rp2[a]] != a for a in range(n)) or sorted(rp2) != list(range(n)) or any(rp2[a] != rp[a] for a in range(k)):
                    e.append('C02 C04 permutations are inconsistent')
                if [p > 0 for p in pv2] != [(p > 0 or i == pv) for i, p in enumerate(pivs)]:
                    e.append('C02 C04 pivs is wrong')
                if t[t.index('rho') + 1] != str(x[pv]):
                    e.append('C02 C04 rhos is wrong')
        if [int(v) for v in t[t.index('x') + 1: t.index('pinv')]] != x:
            e.append('C02 C04 x is modified')
        if 'LIVE 0 bad 0' not in out[-1]:
            e.append('C09 blocks left: ' + out[-1])
        e = [y for y in e if want & set(y.split()) or want == {'*'}]
        return '; '.join(e) or None
    return Scen(c, oracle, 'slip_get_pivot')


def badsquare(r, want):
    """analyze rejects what it must reject"""
    m, n = r.choice([(1, 2), (2, 1), (2, 3), (3, 2), (2, 2)])
    kind = r.choice([CSC, TRIP, DENSE])
    D = [[r.randint(-2, 2) for _ in range(n)] for _ in range(m)]
    M = from_dense(D, m, n, kind, r.choice([MPZ, INT64, FP64]), r)
    c = ['init', opt_cmd(r)[0], M.cmd(0), 'analyze 0', 'freelu', 'free 0', 'finalize', 'live']

    def oracle(o):
        bad = kind != CSC or m != n
        e = []
        if bad and (R(o[3]) != INCORRECT_INPUT):
            e.append('C05 analyze of a %dx%d matrix of kind %d returns %d' % (m, n, kind, R(o[3])))
        if not bad and R(o[3]) != OK:
            e.append('C05 analyze fails')
        if bad and R(o[3]) == OK or 'LIVE 0 bad 0' not in o[-1]:
            e.append('C05 C09 ' + o[-1])
        e = [y for y in e if want & set(y.split()) or want == {'*'}]
        return '; '.join(e) or None
    return Scen(c, oracle, 'analyze of unsuitable matrices')


def early(r, want):
    def oracle(o):
        t = o[0].split()
        e = []
        vals = [int(v) for v in t[1:t.index('untouched')]]
        exp = [-5] * len(vals)
        exp[2] = -1
        names = 'matrix_allocate matrix_free matrix_nnz matrix_copy matrix_check LU_analyze LU_analysis_free LU_factorize LU_solve backslash create_default_options malloc calloc realloc finalize'.split()
        for nm, v, x in zip(names, vals, exp):
            if v != x:
                e.append('C12 C11 SLIP_%s before SLIP_initialize returns %d' % (nm, v))
        if t[-1] != '1':
            e.append('C12 an output handle was touched before SLIP_initialize')
        # init, second init, memory functions, finalize
        k = 1
        exp = [('R 0',), ('MF 1 1 1 1 gmp 1 1 1',), ('R -5',), ('R -5',), ('MF 1 1 1 1 gmp 1 1 1',), ('R 0',), None, ('MF 0 0 0 0',), None]
        return e
    c = ['early']
    seqs = [['init', 'memfns', 'init', 'memfns', 'init0', 'memfns', 'finalize', 'early', 'finalize'],
            ['init0', 'memfns', 'init', 'memfns', 'finalize', 'early', 'init', 'memfns', 'finalize'],
            ['init', 'mat 0 2 0 2 2 4 0 128 1/1 0 0 0 4 1 2 3 4', 'free 0', 'gmp mpz_mul 0 1 2 0 0 0 0', 'live', 'finalize', 'live', 'early', 'init', 'finalize', 'live'],
            ['init', 'memfns', 'finalize', 'finalize', 'early', 'init0', 'memfns', 'finalize']]
    s = r.choice(seqs)
    c += s

    def full(o):
        e = list(oracle(o[:1]))
        state = 0
        for cmd, out in zip(c, o):
            w = cmd.split()[0]
            if w in ('init', 'init0', 'initnull'):
                bad = w == 'initnull' and int(cmd.split()[1]) != 0
                rc = R(out)
                exp = PANIC if state else (INCORRECT_INPUT if bad else OK)
                if rc != exp:
                    e.append('C12 %s in state %d returns %d instead of %d' % (cmd, state, rc, exp))
                if rc == OK and not state:
                    state = 1 if w == 'init' else 2
            elif w == 'finalize':
                exp = OK if state else PANIC
                if R(out) != exp:
                    e.append('C12 finalize returns %d' % R(out))
                state = 0
            elif w == 'early' and not state:
                e += oracle([out])
            elif w == 'memfns':
                t = out.split()
                mine = t[1:5] == ['1'] * 4
                if state == 1 and not mine:
                    e.append('C12 the user memory functions are not installed: ' + out)
                if state and t[6:9] != ['1'] * 3:
                    e.append('C12 GMP does not use the tracking functions: ' + out)
            elif w == 'live' and not state and 'LIVE 0 bad 0' not in out:
                e.append('C12 C09 blocks left after finalize: ' + out)
        e = [y for y in e if want & set(y.split()) or want == {'*'}]
        return '; '.join(e[:5]) or None
    # early inside an initialised state would use NULL matrices legally: drop it there
    st, cc = 0, []
    for cmd in c:
        w = cmd.split()[0]
        if w.startswith('init') and not st and not (w == 'initnull' and cmd.split()[1] != '0'):
            st = 1
        if w == 'finalize':
            st = 0
        if w == 'early' and st:
            continue
        cc.append(cmd)
    c[:] = cc
    return Scen(c, full, 'initialisation protocol')


U64 = 2 ** 64


def smem(r, want):
    c, ex = ['init'], [None]
    for _ in range(40):
        w = r.randrange(4)
        vals = [0, 1, 2, 3, 7, 8, 100, 2 ** 31, 2 ** 32, 2 ** 33 - 1, 2 ** 63, U64 - 1, U64 // 8, U64 // 8 + 1, U64 // 16 + 1, 2 ** 62]
        a, b = r.choice(vals), r.choice(vals)
        if r.random() < .4:
            a, b = r.randint(0, 50), r.randint(0, 50)
        if r.random() < .3 and b > 1:
            a = (U64 + r.randint(0, 64)) // b + r.randint(0, 1)
            a = min(a, U64 - 1)
        f = r.choice([-1, -1, -1, 0])
        c.append('smem %d %d %d %d' % (w, a, b, f))
        ex.append((w, a, b, f))
    c += ['finalize', 'live']

    def oracle(o):
        e = []
        for t, out in zip(ex, o):
            if t is None:
                continue
            w, a, b, f = t
            v = out.split()
            got, size, zero = int(v[1]), int(v[3]), int(v[5])
            need = a if w == 2 else a * b
            if w == 2:
                need1 = max(a, 1)
            else:
                need1 = max(a, 1) * max(b, 1)
            small = need1 <= 2 ** 26
            if got and size < need:
                e.append('C11 smem %s: block of %d bytes for %d' % (t, size, need))
            if got and f == 0:
                e.append('C11 smem %s: success although the allocator fails' % (t,))
            if not got and small and f < 0:
                e.append('C11 smem %s: fails' % (t,))
            if got and w in (1, 3) and zero != 1:
                e.append('C11 smem %s: not zeroed' % (t,))
        if 'LIVE 0 bad 0' not in o[-1]:
            e.append('C11 C09 ' + o[-1])
        e = [y for y in e if want & set(y.split()) or want == {'*'}]
        return '; '.join(e[:5]) or None
    return Scen(c, oracle, 'malloc/calloc')


def srealloc(r, want):
    c, ex = ['init'], [None]
    for _ in range(40):
        w = r.randrange(2)
        big = r.random() < .25
        nw = r.choice([0, 1, 2, 5, 10, 20, 40]) if not big else r.choice([2 ** 61, 2 ** 62, 2 ** 60 + 1, 2 ** 63 - 1])
        old = r.choice([0, 1, 2, 5, 10, 20, 40])
        sz = r.choice([1, 8, 3, 16]) if r.random() < .9 else 0
        isnull = r.random() < .2
        f = r.choice([-1, -1, 0])
        c.append('srealloc %d %d %d %d %d %d' % (w, nw, old, sz, isnull, f))
        ex.append((w, nw, old, sz, isnull, f))
    c += ['finalize', 'live']

    def oracle(o):
        e = []
        for t, out in zip(ex, o):
            if t is None:
                continue
            w, nw, old, sz, isnull, f = t
            v = out.split()
            got, same, ok, size, keep = int(v[1]), int(v[3]), int(v[5]), int(v[7]), int(v[9])
            n1, o1, s1 = max(nw, 1), max(old, 1), max(sz, 1)
            mem = n1 * s1
            if ok not in (0, 1):
                e.append('C11 %s: ok is %d' % (t, ok))
            if ok and (not got or size < nw * sz):
                e.append('C11 %s: ok with %d bytes' % (t, size))
            if not isnull:
                if not got:
                    e.append('C11 %s: the old block is lost' % (t,))
                elif keep < min(o1 * s1, mem, max(size, 0)) and keep < min(old * sz, nw * sz if ok else old * sz):
                    e.append('C11 %s: contents lost (%d bytes kept)' % (t, keep))
                if not ok and not same:
                    e.append('C11 %s: failed but moved' % (t,))
                if n1 <= o1 and not ok and nw < 2 ** 40:
                    e.append('C11 %s: shrinking fails' % (t,))
            elif not ok and got:
                e.append('C11 %s: failed but returns a block' % (t,))
            if f < 0 and mem < 2 ** 26 and not ok:
                e.append('C11 %s: fails' % (t,))
            if ok and f == 0 and n1 > o1:
                e.append('C11 %s: success although the allocator fails' % (t,))
        if 'LIVE 0 bad 0' not in o[-1]:
            e.append('C11 C09 ' + o[-1])
        e = [y for y in e if want & set(y.split()) or want == {'*'}]
        return '; '.join(e[:5]) or None
    return Scen(c, oracle, 'realloc')


# --------------------------------------------------------------------------- allocation failures
def fault_sweep(exe, r, t_end):
    """each scenario: count the allocations of the calls under test, then fail each of them in turn"""
    n = r.choice([1, 2, 3, 4])
    kind = r.randrange(6)
    o, pivot, order, tol = opt_cmd(r)
    A = rnd_square(r, n)
    ta = r.choice(range(5)) if kind in (0, 1) else MPZ
    if kind in (0, 1):
        A = conv_vals(r, ta, n, n, .2)
    MA = from_dense(A, n, n, CSC, ta, r, scale=rnd_scale(r) if ta == MPZ else 1)
    B = conv_vals(r, MPZ, n, 2)
    MB = from_dense(B, n, 2, DENSE, MPZ, scale=rnd_scale(r))
    pre = ['init', o, MA.cmd(0), MB.cmd(1), 'dump 0', 'dump 1']
    if kind == 0:
        calls = ['backslash 2 %d 0 1' % r.choice([MPQ, FP64, MPFR])]
    elif kind == 1:
        k1, t1 = r.randrange(3), r.randrange(5)
        k2, t2 = r.randrange(3), r.randrange(5)
        pre += ['copy 3 %d %d 0' % (k1, t1), 'dump 3']
        calls = ['copy 2 %d %d 3' % (k2, t2)]
    elif kind == 2:
        calls = ['analyze 0', 'factorize 0', 'solve 2 1 0']
    elif kind == 3:
        q = list(range(n))
        r.shuffle(q)
        pre += ['mkS %d %d %d %s' % (n, n, n, ' '.join(map(str, q)))]
        calls = ['factorize 0', 'solve 2 1 0']
    elif kind == 4:
        calls = ['alloc 2 %d %d %d %d %d %d %d' % (r.randrange(3), r.randrange(5), r.randint(0, 3), r.randint(0, 3), r.randint(0, 5), r.randint(0, 1), r.randint(0, 1))]
    else:
        k1, t1 = r.randrange(3), r.randrange(5)
        pre += ['copy 2 %d %d 0' % (k1, t1)]
        calls = ['check 2']
    post = ['dump 0', 'dump 1', 'freelu', 'free 0', 'free 1', 'free 2', 'free 3', 'finalize', 'live']
    if kind in (1,):
        post = ['dump 3'] + post
    return pre, calls, post, kind


def run_faults(exe, r, t_end, want):
    pre, calls, post, kind = fault_sweep(exe, r, t_end)
    outhandle = {'backslash': 'X', 'copy': 'C', 'analyze': 'S', 'factorize': 'L U rhos pinv', 'solve': 'X', 'alloc': 'M', 'check': ''}
    # dry run: number of allocations per call
    text = pre + [c for x in calls for c in ('fail 1000000000 1', x, 'nofail')] + post
    rc, out, err = run_raw(exe, '\n'.join(text) + '\n', 30)
    if rc != 0:
        raise Found('commands:\n%s\nended with %s\n%s' % ('\n'.join(text), rc, err[-2000:]))
    oo = split_out(out)
    idx = {i: c for i, c in enumerate(text)}
    counts = []
    rets = []
    for t in range(len(calls)):
        counts.append(int(oo[len(pre) + 3 * t + 2].split()[1]))
        rets.append(R(oo[len(pre) + 3 * t + 1]))
    if 'LIVE 0 bad 0' not in oo[len(text) - 1] and 'C09' in want:
        raise Found('commands:\n%s\nblocks left without any failure: %s' % ('\n'.join(text), oo[len(text) - 1]))
    scens = []
    for t, call in enumerate(calls):
        if rets[t] not in (OK, SINGULAR):
            break
        for k in range(counts[t]):
            if counts[t] > 300 and r.random() > 300 / counts[t]:
                continue
            for st in (1, 0):
                c = pre + [x for y in calls[:t] for x in (y,)] + ['fail %d %d' % (k, st), call, 'nofail'] + post
                at = len(pre) + t + 1

                def oracle(o, c=c, at=at, call=call, st=st, k=k):
                    e = []
                    rv = R(o[at])
                    w = call.split()[0]
                    if rv == OOM or (rv != OK and rv != SINGULAR):
                        for h in outhandle[w].split():
                            if h + ' set' in o[at]:
                                e.append('C09 %s is returned with error %d' % (h, rv))
                    if rv not in (OK, SINGULAR, OOM):
                        e.append('C09 C05 allocation %d fails and %s returns %d' % (k, w, rv))
                    d = {}
                    for cmd, out in zip(c, o):
                        if cmd.startswith('dump '):
                            if d.setdefault(cmd, out) != out:
                                e.append('C13 C09 input changed: ' + cmd)
                    if 'LIVE 0 bad 0' not in o[-1]:
                        e.append('C09 blocks left: ' + o[-1])
                    if w == 'analyze' and rv == OK:
                        tt = o[at].split()
                        q = [int(v) for v in tt[tt.index('q') + 1:]][:-1]
                        if sorted(q) != list(range(len(q))):
                            e.append('C05 q is not a permutation: %s' % q)
                    e = [y for y in e if want & set(y.split()) or want == {'*'}]
                    return '; '.join(e) or None
                scens.append(Scen(c, oracle, 'allocation %d (%s) of %s fails' % (k, 'and all later' if st else 'only', call)))
    r.shuffle(scens)
    a = 0
    for a in range(0, len(scens), 60):
        if time.time() > t_end:
            return a
        run_batch(exe, scens[a:a + 60])
    return len(scens)


# --------------------------------------------------------------------------- internal kernels
def reach_unit(r, want):
    n = r.choice([1, 2, 3, 4, 5, 7, 10])
    k = r.randint(0, n)
    perm = list(range(n))
    r.shuffle(perm)                       # perm[s] = row of pivot s
    pinv = [0] * n
    for s, i in enumerate(perm):
        pinv[i] = s
    dens = r.choice([.1, .3, .5, .9])
    cols = []
    for s in range(n):
        rows = [perm[t] for t in range(s + 1, n) if r.random() < dens] if s < k else []
        if s < k:
            rows.append(perm[s])
        r.shuffle(rows)
        cols.append(rows)
    p, ii = [0], []
    for c in cols:
        ii += c
        p.append(len(ii))
    L = Mat(CSC, MPZ, n, n, p=p, i=ii, x=[1] * len(ii), nzmax=max(1, len(ii)))
    a = [i for i in range(n) if r.random() < r.choice([.2, .5])]
    r.shuffle(a)
    A = Mat(CSC, MPZ, n, 1, p=[0, len(a)], i=a, x=[1] * len(a), nzmax=max(1, len(a)))
    c = ['init', L.cmd(0), A.cmd(1), 'reach 0 1 0 ' + ' '.join(map(str, pinv)), 'free 0', 'free 1', 'finalize', 'live']

    def oracle(o):
        t = o[3].split()
        top = int(t[1])
        xi = [int(v) for v in t[t.index('xi') + 1:t.index('p')]]
        p2 = [int(v) for v in t[t.index('p') + 1:]]
        R_, st = set(), list(a)
        while st:
            v = st.pop()
            if v in R_:
                continue
            R_.add(v)
            st += cols[pinv[v]]
        e = []
        if p2 != p:
            e.append('C17 L->p is changed: %s -> %s' % (p, p2))
        if len(set(xi)) != len(xi) or set(xi) != R_:
            e.append('C17 pattern %s, reachable rows %s' % (xi, sorted(R_)))
        e = [y for y in e if want & set(y.split()) or want == {'*'}]
        return '; '.join(e) or None
    return Scen(c, oracle, 'slip_reach')


def cumsum_unit(r, want):
    n = r.choice([0, 1, 2, 5, 9])
    w = [r.choice([0, 0, 1, 3, 10 ** 12]) for _ in range(n)]
    c = ['init', 'cumsum %d %s' % (n, ' '.join(map(str, w))), 'finalize']

    def oracle(o):
        t = o[1].split()
        p = [int(v) for v in t[t.index('p') + 1:t.index('c')]]
        cc = [int(v) for v in t[t.index('c') + 1:]]
        pre = [sum(w[:k]) for k in range(n + 1)]
        if p != pre or cc != pre[:n]:
            return 'C17 cumulative sum of %s: %s %s' % (w, p, cc)
    return Scen(c, oracle, 'slip_cumsum')


def checksol_unit(r, want):
    n = r.choice([1, 2, 3, 4])
    nr = r.choice([1, 2, 3])
    A = rnd_square(r, n)
    sa, sb = rnd_scale(r), rnd_scale(r)
    X = [[Fr(r.randint(-9, 9), r.randint(1, 6)) for _ in range(nr)] for _ in range(n)]
    AX = matmul([[Fr(v) for v in row] for row in A], X)
    # b integer: b = A * x * M, x scaled by M (scale factors are applied after the check)
    M = 1
    for row in AX:
        for v in row:
            M = M * v.denominator // math.gcd(M, v.denominator)
    X = [[v * M for v in row] for row in X]
    B = [[int(v * M) for v in row] for row in AX]
    wrong = r.random() < .6
    if wrong:
        what = r.random()
        i, j = r.randrange(n), r.randrange(nr)
        if what < .5:
            B[i][j] += r.choice([-1, 1, 7])
        else:
            X[i][j] += Fr(r.choice([-1, 1]), r.choice([1, 10 ** 9]))
    good = matmul([[Fr(v) for v in row] for row in A], X) == [[Fr(v) for v in row] for row in B]
    MA = from_dense(A, n, n, CSC, MPZ, r, scale=sa, keepzero=.2)
    MX = from_dense(X, n, nr, DENSE, MPQ)
    MB = from_dense(B, n, nr, DENSE, MPZ, scale=sb)
    c = ['init', 'opt 0 0 0x1p0 0 128 0 1', MA.cmd(0), MX.cmd(1), MB.cmd(2), 'dump 0', 'dump 1', 'dump 2', 'checksol 0 1 2', 'dump 0', 'dump 1', 'dump 2', 'free 0', 'free 1', 'free 2', 'finalize', 'live']

    def oracle(o):
        rc = R(o[8])
        e = []
        if rc != (OK if good else INCORRECT):
            e.append('C16 A*x %s b but the check returns %d' % ('=' if good else '!=', rc))
        if o[5:8] != o[9:12]:
            e.append('C13 the check modifies its input')
        if 'LIVE 0 bad 0' not in o[-1]:
            e.append('C09 ' + o[-1])
        e = [y for y in e if want & set(y.split()) or want == {'*'}]
        return '; '.join(e) or None
    return Scen(c, oracle, 'slip_check_solution')


GENS = {
    'C01': [pipeline, pipeline, backslash], 'C02': [pipeline, pipeline, pivot_unit], 'C03': [pipeline, backslash, pivot_unit],
    'C04': [pivot_unit, pivot_unit, pipeline], 'C05': [pipeline, badsquare], 'C09': [pipeline, backslash],
    'C11': [smem, srealloc], 'C12': [early], 'C13': [pipeline, backslash, checksol_unit], 'C16': [checksol_unit, pipeline], 'C17': [reach_unit, cumsum_unit, pipeline],
}
from replay2 import GENS2, copy_unit, check_unit, gmp_unit
GENS.update(GENS2)
GENS['C09'] += [copy_unit, gmp_unit]
GENS['C13'] += [copy_unit, check_unit]
GENS['C05'].append(('drv2', GENS2['C15'][0][1]))
FAULTS = {'C05', 'C06', 'C09', 'C13'}
EXTRA = []


def rounds(pid, exe, seed, budget, maxrounds=None):
    want = {pid}
    if pid == 'C17':
        want = {'C17', 'C02'}
    t_end = time.time() + budget
    r = random.Random(seed)
    k = 0
    n = 0
    while time.time() < t_end and (maxrounds is None or k < maxrounds):
        if pid in FAULTS and k % 2 == 1:
            n += run_faults(exe['drv'], r, t_end, want) or 0
        elif pid in GENS:
            by = {}
            for _ in range(150):
                g = r.choice(GENS[pid])
                g = g if isinstance(g, tuple) else ('drv', g)
                if g[0] in exe:
                    by.setdefault(g[0], []).append(g[1](r, want))
            for e, sc in by.items():
                n += len(sc)
                run_batch(exe[e], sc)
        for f in EXTRA:
            f(pid, exe, r, t_end, want)
        k += 1
    return n


def _worker(pid, exe, seed, budget, maxrounds, q):
    try:
        q.put(('n', rounds(pid, exe, seed, budget, maxrounds)))
    except Found as f:
        q.put(('found', str(f)))
    except BaseException as e:
        q.put(('error', repr(e)))


def search(pid, fails, seed, tier, budget, maxrounds=None, stats=None, workers=None):
    """the budget is spent by several processes with seeds of their own; returns the first failing input or None"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    workers = workers or min(8, os.cpu_count() or 1)
    d = tempfile.mkdtemp(prefix='vreplay_')
    ps = []
    try:
        exe = build(d)
        q = ctx.Queue()
        for w in range(workers):
            p = ctx.Process(target=_worker, args=(pid, exe, seed * 1000 + w, budget, maxrounds, q))
            p.start()
            ps.append(p)
        n, err, found = 0, None, None
        t_end = time.time() + budget + 240
        for _ in range(workers):
            try:
                k, v = q.get(timeout=max(1, t_end - time.time()))
            except Exception:
                err = 'a worker did not finish'
                break
            if k == 'found':
                found = v
                break
            if k == 'error':
                err = v
            else:
                n += v
        if found is None and err is not None and n == 0:
            raise RuntimeError(err)
        if stats is not None:
            stats['scenarios'] = n
            stats['processes'] = workers
        return found
    finally:
        for p in ps:
            p.terminate()
            p.join()
        shutil.rmtree(d, ignore_errors=True)


def standin(pid, seed, budget):
    """the bounded stand-in: scenarios on the real code, judged by the exact oracles; returns (failing input or None, statistics)"""
    import importlib
    importlib.import_module('replay2')
    st = dict(scenarios=0)
    r = search(pid, [], seed, 'quick', budget, None, st)
    return r, st


if __name__ == '__main__':
    # replay.py <property> [seconds]: search on the current tree
    try:
        import importlib
        importlib.import_module('replay2')
    except ImportError:
        pass
    t = time.time()
    print(search(sys.argv[1], [], int(os.environ.get('VERIF_SEED', '1')), 'quick', float(sys.argv[2]) if len(sys.argv) > 2 else 20) or 'nothing found', '%.1fs' % (time.time() - t))
