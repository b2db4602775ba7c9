"""More replay oracles: matrix conversion (C06, C07), matrix_check (C08), GMP wrappers (C10), AMD (C14), COLAMD (C15)."""
import math
from fractions import Fraction as Fr
from rp import *

KN, TN = ('CSC', 'triplet', 'dense'), ('mpz', 'mpq', 'mpfr', 'int64', 'fp64')


def pick(e, want):
    e = [x for x in e if want & set(x.split()) or want == {'*'}]
    return '; '.join(e[:4]) or None


def round_int(v, rnd):
    """v rounded to an integer as MPFR does; rnd 0 nearest even, 1 zero, 2 up, 3 down, 4 away"""
    f = math.floor(v)
    if v == f:
        return f
    if rnd == 0:
        d = v - f
        return f if d < Fr(1, 2) or (d == Fr(1, 2) and f % 2 == 0) else f + 1
    if rnd == 1:
        return f if v > 0 else f + 1
    if rnd == 2:
        return f + 1
    if rnd == 3:
        return f
    return f + 1 if v > 0 else f


def round_prec(v, prec, rnd):
    v = Fr(v)
    if v == 0:
        return v
    e = 0
    a = abs(v)
    # 2^(prec-1) <= a*2^e < 2^prec
    e = prec - (a.numerator.bit_length() - a.denominator.bit_length())
    while a * Fr(2) ** e >= 2 ** prec:
        e -= 1
    while a * Fr(2) ** e < 2 ** (prec - 1):
        e += 1
    return Fr(round_int(v * Fr(2) ** e, rnd)) / Fr(2) ** e


def gen_val(r, typ, prec):
    if typ == MPZ:
        return r.choice([1, -1]) * r.choice([r.randint(1, 9), r.randint(1, 10 ** 9), 2 ** r.randint(0, 70), r.randint(1, 2 ** 53), 2 ** 130 + r.randint(0, 9)])
    if typ == MPQ:
        return Fr(r.randint(-10 ** r.randint(1, 22), 10 ** 5) or 1, r.choice([1, 2, 3, 4, 6, 10, 35, 2 ** 40, 10 ** 12 + 39]))
    if typ == INT64:
        return r.choice([r.randint(-9, 9), r.randint(-10 ** 12, 10 ** 12), 2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1, 2 ** 62 + 1]) or 3
    if typ == FP64:
        return r.choice([float(r.randint(1, 99)), r.randint(-99, 99) / 8.0 or 1.0, 0.1, 1 / 3., -1e-3, 1e6, -2.5, 123456.789, 1e19, -1e19, 2.0 ** 63, -2.0 ** 63, r.uniform(-5, 5), 3.5, 1e300, 7e-9])
    return Fr(r.randint(-9999, 9999) or 7, r.choice([1, 2, 4, 16, 1024, 2 ** 40]))


def copy_unit(r, want):
    m, n = r.choice([(1, 1), (2, 2), (3, 2), (2, 3), (1, 4), (4, 4), (0, 2), (2, 0), (3, 3)])
    k1, t1, k2, t2 = r.randrange(3), r.randrange(5), r.randrange(3), r.randrange(5)
    sprec = r.choice([24, 53, 128, 200])
    prec = r.choice([10, 53, 128, 256])
    rnd = r.choice([0, 0, 0, 1, 2, 3])
    z = r.choice([0, .4, .8, 1])
    D = [[0 if r.random() < z else gen_val(r, t1, sprec) for _ in range(n)] for _ in range(m)]
    if t1 == FP64 and t2 == MPZ:
        D = [[v if abs(v) < 1e30 else 2.5 for v in row] for row in D]
    sc = Fr(1)
    if t1 == MPZ:
        sc = r.choice([Fr(1), Fr(r.choice([-1, 1]) * r.randint(1, 30), r.randint(1, 30)), Fr(2 ** 100 + 1, 3)])
    A = from_dense(D, m, n, k1, t1, r, scale=sc, prec=sprec, keepzero=r.choice([0, .4]), extra=r.choice([0, 2]))
    if k1 == TRIP or k1 == CSC:
        A.nz = r.choice([A.nz, A.nz]) if k1 == TRIP else r.choice([0, 7])
    o = 'opt 3 1 0x1p0 0 %d %d 0' % (prec, rnd)
    c = ['init', o, A.cmd(0), 'dump 0', 'copy 1 %d %d 0' % (k2, t2), 'dump 1', 'dump 0', 'check 1', 'nnz 1', 'copy 2 %d %d 1' % (k2, t2), 'dump 2', 'free 0', 'dump 1', 'free 1', 'free 2', 'finalize', 'live']

    def oracle(o):
        src = parse(o[3])
        e = []
        P = 'C07 ' if t2 == MPZ and t1 in (MPQ, MPFR, FP64) else ''
        tag = 'C06 %scopy %s %s -> %s %s: ' % (P, KN[k1], TN[t1], KN[k2], TN[t2])
        if R(o[4]) != OK:
            return pick([tag + 'returns %d' % R(o[4])], want)
        C = parse(o[5])
        if C is None or C.kind != k2 or C.typ != t2 or C.m != m or C.n != n or C.shallow != '0000':
            return pick([tag + 'wrong header ' + o[5][:90]], want)
        if o[3] != o[6]:
            e.append('C13 ' + tag + 'the source is modified')
        if R(o[7]) != OK:
            e.append('C08 ' + tag + 'the copy is rejected by SLIP_matrix_check: %d' % R(o[7]))
        if o[12] != o[5]:
            e.append(tag + 'the copy shares data with its source')
        if C.x is not None and any(isinstance(v, str) for v in C.x):
            e.append(tag + 'not-a-number or unset entries')
            return pick(e, want)
        if isinstance(C.scale, str) or C.scale == 0 or (t2 != MPZ and C.scale != 1):
            e.append(tag + 'scale is %s' % C.scale)
            return pick(e, want)
        if k2 == CSC and (C.p[0] != 0 or any(C.p[a] > C.p[a + 1] for a in range(n))):
            e.append(tag + 'column pointers %s' % C.p)
            return pick(e, want)
        S = {}
        for i, j, v in src.triples():
            S[i, j] = v
        T = {}
        for i, j, v in C.triples():
            if (i, j) in T or not (0 <= i < m and 0 <= j < n):
                e.append(tag + 'bad or duplicate entry (%d,%d)' % (i, j))
            T[i, j] = v
        if k1 != DENSE and k2 != DENSE and set(S) != set(T):
            e.append(tag + 'pattern changed: %s -> %s' % (sorted(S), sorted(T)))
        for key in set(S) | set(T):
            if k1 == DENSE and k2 != DENSE and key not in T and abs(S[key] / sc) > 1e-3 and t2 != INT64:
                e.append(tag + 'entry %s is dropped' % (key,))
                continue
            v = Fr(S.get(key, 0)) / sc
            y = Fr(T.get(key, 0))
            bad = None
            if t2 == MPZ:
                if t1 in (MPZ, INT64):
                    if t1 == MPZ and C.scale != sc or t1 == INT64 and C.scale != 1:
                        bad = 'scale %s' % C.scale
                    if y != Fr(S.get(key, 0)):
                        bad = 'not the same integer'
                elif t1 == MPQ:
                    if y != v * C.scale:
                        bad = 'not exact (scale %s)' % C.scale
                else:
                    mult = 10 ** 17 if t1 == FP64 else 2 ** prec
                    wv = v * mult
                    p2 = prec
                    if t1 == FP64:
                        wv = round_prec(round_prec(v, prec, rnd) * mult, prec, rnd)
                    else:
                        wv = round_prec(wv, prec, rnd)
                    if y / C.scale != Fr(round_int(wv, rnd), mult):
                        bad = 'y/scale = %s/%s is not the entry read as documented' % (y, C.scale)
            elif t2 == MPQ:
                if y != v:
                    bad = 'not exact'
            elif t2 == MPFR:
                w = round_prec(v, prec, rnd)
                if y != w:
                    bad = 'not correctly rounded to %d bits, rounding %d' % (prec, rnd)
            elif t2 == FP64:
                if abs(v) < 2 ** 1000 and abs(y - v) > abs(v) * Fr(1, 2 ** 52):
                    bad = 'not within 1 ulp'
                if Fr(float(v)) == v and y != v if abs(v) < 2 ** 1000 else False:
                    bad = 'representable but changed'
            else:
                if t1 == MPZ and sc == 1 and abs(v) >= 2 ** 63:
                    continue
                if v.denominator == 1 and abs(v) <= 2 ** 53 or t1 == INT64:
                    if y != v:
                        bad = 'integer changed'
                elif abs(v) < 2 ** 53:
                    if abs(y - v) > 1:
                        bad = 'not rounded'
                elif v >= 2 ** 63:
                    if y != 2 ** 63 - 1:
                        bad = 'not saturated'
                elif v <= -2 ** 63:
                    if y != -2 ** 63:
                        bad = 'not saturated'
            if bad:
                e.append(tag + 'entry %s: %s becomes %s: %s' % (key, v, y, bad))
        if R(o[9]) != OK or parse(o[10]).xs != C.xs or parse(o[10]).scale != C.scale or (k2 != DENSE and parse(o[10]).i != C.i):
            e.append('C06 copying the copy changes it')
        if 'LIVE 0 bad 0' not in o[-1]:
            e.append('C09 blocks left: ' + o[-1])
        return pick(e, want)
    return Scen(c, oracle, 'SLIP_matrix_copy')


def copy_int(r, want):
    """conversions to integers only"""
    while True:
        s = copy_unit(r, want)
        t = s.cmds[4].split()
        if t[3] == '0':
            return s


# --------------------------------------------------------------------------- matrix_check
def check_unit(r, want):
    m, n = r.choice([(1, 1), (2, 2), (3, 2), (2, 3), (1, 4), (4, 4), (0, 2), (2, 0)])
    k, t = r.randrange(3), r.randrange(5)
    D = [[0 if r.random() < .4 else (r.randint(1, 9) if t != FP64 else float(r.randint(1, 9))) for _ in range(n)] for _ in range(m)]
    A = from_dense(D, m, n, k, t, r, keepzero=r.choice([0, .4]), extra=r.choice([0, 2]))
    pr = r.choice([0, 0, 0, 1, 2, 3])
    c = ['init', 'opt 3 1 0x1p0 %d 128 0 0' % pr, A.cmd(0)]
    ents = len(A.x)
    good = True
    undo = []
    what = r.random()
    special = None
    nzm = max(A.nzmax, 1) if k != DENSE else max(m * n, 1)

    def corrupt(f, x, v, old):
        c.append('set 0 %s %d %d' % (f, x, v))
        undo.append('set 0 %s %d %d' % (f, x, old))
    if what < .3:
        pass
    elif what < .4:
        f, v = r.choice([('m', -1), ('n', -1), ('nzmax', -1), ('kind', 7), ('kind', -1), ('type', 9), ('type', -1)])
        corrupt(f, 0, v, dict(m=m, n=n, nzmax=nzm, kind=k, type=t)[f])
        good = False
    elif what < .5:
        f = r.choice('pijx')
        if {'p': k == CSC, 'i': k != DENSE, 'j': k == TRIP, 'x': nzm > 0}[f]:
            special = f
            good = False
    elif k == CSC and n and what < .7:
        j = r.randrange(n + 1)
        p = list(A.p)
        p[j] += r.choice([-3, -1, 1, 2, 5])
        corrupt('p', j, p[j], A.p[j])
        good = p[0] == 0 and all(p[a] <= p[a + 1] for a in range(n)) and p[n] <= nzm
        if good:
            for a in range(n):
                rows = [(A.i + [0] * 9)[b] for b in range(p[a], p[a + 1])]
                if len(set(rows)) != len(rows) or any(x < 0 or x >= m for x in rows):
                    good = False
    elif k != DENSE and ents and what < .95:
        q = r.randrange(ents)
        f = 'i' if k == CSC else r.choice('ij')
        old = (A.i if f == 'i' else A.j)[q]
        v = r.choice([-1, m if f == 'i' else n, r.randrange(max(m if f == 'i' else n, 1)), 2 ** 40])
        corrupt(f, q, v, old)
        ii, jj = list(A.i), list(A.j)
        (ii if f == 'i' else jj)[q] = v
        if k == CSC:
            jj = [j for j in range(n) for _ in range(A.p[j], A.p[j + 1])]
        pos = list(zip(ii, jj))
        good = all(0 <= a < m and 0 <= b < n for a, b in pos) and len(set(pos)) == len(pos)
    elif k == TRIP:
        v = r.choice([-1, nzm + 1, nzm + 1000])
        corrupt('nz', 0, v, A.nz)
        good = False
    elif k == CSC:
        v = r.randint(0, max(0, ents - 1)) if ents else nzm
        corrupt('nzmax', 0, v, nzm)
        good = v >= ents
    c.append('dump 0' if good else 'echo x')
    c.append('hide 0 %s' % special if special else 'check 0')
    at = len(c) - 1
    c.append('nnz 0' if good else 'echo x')
    c.append('dump 0' if good else 'echo x')
    c += undo + ['checknull', 'free 0', 'finalize', 'live']

    def oracle(o):
        e = []
        rc = R(o[at])
        if rc != (OK if good else INCORRECT_INPUT):
            e.append('C08 a %s matrix gets %d' % ('well formed' if good else 'malformed', rc))
        txt = o[at]
        if pr == 0 and txt.strip() != 'R %d' % rc:
            e.append('C08 prints at print level 0: %r' % txt)
        if pr == 1 and good and txt.strip() != 'R %d' % rc:
            e.append('C08 prints for a good matrix at print level 1: %r' % txt)
        if good:
            if o[at - 1] != o[at + 2]:
                e.append('C08 C13 the matrix is modified')
            pn = n and k == CSC and any(x.startswith('set 0 p %d ' % n) for x in c)
            if not pn and R(o[at + 1]) != (m * n if k == DENSE else ents):
                e.append('C08 nnz is %d, not %d' % (R(o[at + 1]), ents))
        if 'R -3' not in o[c.index('checknull')]:
            e.append('C08 NULL is accepted')
        if 'LIVE 0 bad 0' not in o[-1]:
            e.append('C08 C09 blocks left: ' + o[-1])
        return pick(e, want)
    return Scen(c, oracle, 'SLIP_matrix_check')


# --------------------------------------------------------------------------- GMP wrappers
def sgn(v):
    return (v > 0) - (v < 0)


def gmp_unit(r, want):
    """registers Z0..5, Q0..5, F0..5 with known values; one operation each; then the registers are compared"""
    big = lambda: r.choice([0, 1, -1, r.randint(-99, 99), r.choice([-1, 1]) * r.randint(1, 2 ** 70), r.choice([-1, 1]) * r.randint(2 ** 200, 2 ** 300)])
    Z = [big() for _ in range(6)]
    Q = [Fr(big(), abs(big()) or 1) for _ in range(6)]
    prec = [r.choice([24, 53, 64, 128, 200]) for _ in range(6)]
    F = [round_prec(Fr(r.randint(-2 ** 70, 2 ** 70), r.choice([1, 2, 1024, 2 ** 60])), prec[i], 0) for i in range(6)]
    if r.random() < .2:
        F[r.randrange(6)] = Fr(0)
    c = ['init']
    for i in range(6):
        c += ['zset %d %d' % (i, Z[i]), 'qset %d %d/%d' % (i, Q[i].numerator, Q[i].denominator), 'fset %d %d %d/%d' % (i, prec[i], F[i].numerator, F[i].denominator)]
    ops = []
    oom = r.random() < .35

    def add(name, a, b=0, cc=0, n1=0, n2=0, d=0.0, rnd=0):
        ops.append((name, a, b, cc, n1, n2, d, rnd))
    names = ('mpz_set mpz_set_ui mpz_set_si mpz_get_d mpz_get_si mpz_set_q mpz_mul mpz_submul mpz_divexact mpz_gcd mpz_lcm mpz_abs mpz_cmp mpz_cmpabs mpz_cmp_ui mpz_sgn mpz_sizeinbase '
             'mpq_set mpq_set_z mpq_set_d mpq_set_ui mpq_set_si mpq_set_num mpq_set_den mpq_get_den mpq_get_d mpq_abs mpq_add mpq_mul mpq_div mpq_cmp mpq_cmp_ui mpq_sgn mpq_equal '
             'mpfr_set mpfr_set_d mpfr_set_si mpfr_set_q mpfr_set_z mpfr_get_z mpfr_get_q mpfr_get_d mpfr_get_si mpfr_mul mpfr_mul_d mpfr_div_d mpfr_ui_pow_ui mpfr_sgn mpz_init mpz_init2 mpq_init mpfr_init2').split()
    name = r.choice(names)
    a, b, cc = r.sample(range(6), 3) if r.random() < .6 else [r.randrange(6) for _ in range(3)]
    n1 = r.choice([0, 1, -1, 5, -7, 2 ** 40, -2 ** 63, 2 ** 63 - 1])
    n2 = r.choice([0, 1, 2, 3, 10, 2 ** 32, 2 ** 64 - 1])
    d = r.choice([0.0, 1.0, -2.5, 0.1, 1e20, -3e-5])
    rnd = r.choice([0, 0, 1, 2, 3])
    if name == 'mpz_divexact':
        Z[cc] = Z[cc] or 3
        q = big()
        if cc != b:
            Z[b] = q * Z[cc]
        c += ['zset %d %d' % (b, Z[b]), 'zset %d %d' % (cc, Z[cc])]
    if name == 'mpq_div' and Q[cc] == 0:
        Q[cc] = Fr(-7, 3)
        c += ['qset %d -7/3' % cc]
    if name == 'mpfr_div_d' and d == 0:
        d = 4.0
    if name == 'mpq_set_den':
        Z[b] = abs(Z[b]) or 5
        c += ['zset %d %d' % (b, Z[b])]
    if name in ('mpq_set_ui', 'mpq_cmp_ui'):
        n1 = abs(n1) if n1 != -2 ** 63 else 9
        n2 = n2 or 1
    if name == 'mpq_set_si':
        n2 = n2 or 1
    if name == 'mpfr_ui_pow_ui':
        n1, n2 = r.choice([0, 1, 2, 3, 10]), r.choice([0, 1, 5, 53, 100])
    if name == 'mpz_sizeinbase':
        n1 = r.choice([2, 10, 16])
    if name == 'mpz_init2':
        n2 = r.choice([1, 64, 65, 1000])
    if name == 'mpfr_init2':
        n2 = r.choice([2, 53, 128, 1000])
    if name == 'mpz_get_si' and abs(Z[a]) >= 2 ** 63:
        Z[a] = r.randint(-2 ** 63, 2 ** 63 - 1)
        c.append('zset %d %d' % (a, Z[a]))
    if name == 'mpfr_get_si' and abs(F[a]) >= 2 ** 62:
        F[a] = Fr(-12345, 4)
        c.append('fset %d %d -12345/4' % (a, prec[a]))
    if oom:
        c.append('fail %d %d' % (r.choice([0, 0, 1, 2]), r.randint(0, 1)))
    c.append('gmp %s %d %d %d %d %d %s %d' % (name, a, b, cc, n1, n2, float(d).hex(), rnd))
    at = len(c) - 1
    if oom:
        c.append('nofail')
    # the wrapper still works after a failure
    c += ['gmp mpz_mul 4 5 5 0 0 0 0', 'live', 'finalize', 'live']

    def oracle(o):
        e = []
        t = o[at].split()
        pf = ''
        if t[0] == 'prec':
            pf = t[1]
            t = t[2:]
        s, rr, ir, sr, dr = int(t[1]), t[3], int(t[5]), int(t[7]), t[9]
        iz, iq, if_ = t.index('Z'), t.index('Q'), t.index('F')
        z2, q2, f2 = t[iz + 1:iq], t[iq + 1:if_], t[if_ + 1:]
        tag = 'C10 %s(%d,%d,%d; %d %d %s rnd %d): ' % (name, a, b, cc, n1, n2, d, rnd)
        failed = False
        if oom:
            k = int(o[at + 1].split()[1])
            want_f = int(c[at - 1].split()[1])
            failed = k > want_f
        if s not in (OK, OOM) or (s == OOM) != failed:
            e.append(tag + 'returns %d, allocation failure %s' % (s, failed))
        ez, eq, ef = list(Z), list(Q), list(F)
        out = None
        val = {}
        op = name.split('_', 1)[1]
        if name.startswith('mpz'):
            A, B, C_ = Z[a], Z[b], Z[cc]
            f = dict(set=lambda: B, set_ui=lambda: n2, set_si=lambda: n1, set_q=lambda: int(abs(Q[b].numerator) // Q[b].denominator) * sgn(Q[b]), mul=lambda: B * C_, submul=lambda: A - B * C_, divexact=lambda: B // C_,
                     gcd=lambda: math.gcd(B, C_), lcm=lambda: abs(B * C_) // math.gcd(B, C_) if B and C_ else 0, abs=lambda: abs(B), init=lambda: 0, init2=lambda: 0)
            if op in f:
                out = ('z', a)
                ez[a] = f[op]()
            g = dict(cmp=lambda: sgn(A - B), cmpabs=lambda: sgn(abs(A) - abs(B)), cmp_ui=lambda: sgn(A - n2), sgn=lambda: sgn(A))
            if op in g:
                val['r'] = g[op]()
            if op == 'get_si':
                val['ir'] = A
            if op == 'get_d':
                val['d'] = float(Fr(A)) if A == 0 else float(round_prec(Fr(A), 53, 1))
            if op == 'sizeinbase':
                exact = 1
                while n1 ** exact <= abs(A):
                    exact += 1
                val['size'] = exact
        elif name.startswith('mpq'):
            A, B, C_ = Q[a], Q[b], Q[cc]
            f = dict(set=lambda: B, set_z=lambda: Fr(Z[b]), set_d=lambda: Fr(d), set_ui=lambda: (n1, n2), set_si=lambda: (n1, n2), set_num=lambda: (Z[b], A.denominator), set_den=lambda: (A.numerator, Z[b]),
                     abs=lambda: abs(B), add=lambda: B + C_, mul=lambda: B * C_, div=lambda: B / C_, init=lambda: Fr(0))
            if op in f:
                out = ('q', a)
                eq[a] = f[op]()
            if op == 'get_den':
                out = ('z', a)
                ez[a] = B.denominator
            if op == 'cmp':
                val['r'] = sgn(A - B)
            if op == 'cmp_ui':
                val['r'] = sgn(A - Fr(n1, n2))
            if op == 'sgn':
                val['r'] = sgn(A)
            if op == 'equal':
                val['nz'] = A == B
            if op == 'get_d':
                val['d'] = float(round_prec(A, 53, 1))
        else:
            A, B, C_ = F[a], F[b], F[cc]
            f = dict(set=lambda: B, set_d=lambda: Fr(d), set_si=lambda: Fr(n1), set_q=lambda: Q[b], set_z=lambda: Fr(Z[b]), mul=lambda: B * C_, mul_d=lambda: B * Fr(d), div_d=lambda: B / Fr(d),
                     ui_pow_ui=lambda: Fr(n1) ** n2, init2=lambda: Fr(0))
            if op in f:
                out = ('f', a)
                ef[a] = round_prec(f[op](), prec[a], rnd) if op != 'init2' else Fr(0)
            if op == 'get_z':
                out = ('z', a)
                ez[a] = round_int(F[b], rnd)
            if op == 'get_q':
                out = ('q', a)
                eq[a] = F[b]
            if op == 'get_d':
                val['d'] = float(round_prec(A, 53, rnd))
            if op == 'get_si':
                val['ir'] = round_int(A, rnd)
            if op == 'sgn':
                val['r'] = sgn(A)
            if op == 'init2' and s == OK and pf != str(n2):
                e.append(tag + 'precision %s' % pf)
        for nm, got, exp in (('z', z2, ez), ('q', q2, eq), ('f', f2, ef)):
            for i in range(6):
                if s == OOM and out == (nm, i):
                    continue
                g = got[i]
                x = exp[i]
                if nm == 'f':
                    g = g.split('@')[0]
                if isinstance(x, tuple) and (math.gcd(*x) != 1 or x[0] == 0 or x[1] < 0):
                    continue      # not canonical: how it prints is not specified
                if isinstance(x, tuple):
                    ok = g == '%d/%d' % x or (x[1] == 1 and g == str(x[0])) or (s == OK and '/' in g and Fr(g) == Fr(*x) and False)
                else:
                    try:
                        ok = Fr(g) == x
                    except (ValueError, ZeroDivisionError):
                        ok = False
                if not ok:
                    e.append(tag + '%s%d is %s, expected %s' % (nm, i, g, x))
        if s == OK:
            if 'r' in val and rr != str(val['r']):
                e.append(tag + 'result %s, expected %s' % (rr, val['r']))
            if 'nz' in val and (rr != '0') != val['nz']:
                e.append(tag + 'result %s, expected %s' % (rr, val['nz']))
            if 'ir' in val and ir != val['ir']:
                e.append(tag + 'result %s, expected %s' % (ir, val['ir']))
            if 'd' in val and float.fromhex(dr) != val['d']:
                e.append(tag + 'result %s, expected %s' % (float.fromhex(dr), val['d']))
            if 'size' in val and not (sr == val['size'] or n1 == 10 and sr == val['size'] + 1):
                e.append(tag + 'size %s, expected %s' % (sr, val['size']))
        # operation after the failure
        nx = o[-4].split()
        if int(nx[1]) != OK:
            e.append(tag + 'the next operation fails: ' + o[-4][:40])
        if 'bad 0' not in o[-1] or 'LIVE 0' not in o[-1]:
            e.append(tag + 'C09 blocks left: ' + o[-1])
        return pick(e, want)
    return Scen(c, oracle, 'GMP wrapper')


# --------------------------------------------------------------------------- AMD / COLAMD
def amd_unit(r, want):
    w = r.randrange(2)
    n = r.choice([0, 1, 2, 3, 4, 6, 9, 20])
    cols = [[i for i in range(n) if r.random() < r.choice([.1, .3, .8])] for _ in range(n)]
    mode = r.random()
    if mode < .35:
        for col in cols:
            if r.random() < .5:
                r.shuffle(col)
            if col and r.random() < .3:
                col.insert(r.randrange(len(col) + 1), r.choice(col))
    p = [0]
    ii = []
    for col in cols:
        ii += col
        p.append(len(ii))
    vo = r.randrange(2)
    nrow = n
    if vo and r.random() < .3:
        nrow = r.randint(0, n + 2)
    hp = hap = hai = 1
    if mode > .6:
        x = r.random()
        if x < .3 and ii:
            ii[r.randrange(len(ii))] = r.choice([-1, n, n + 5, -100])
        elif x < .7 and n:
            p[r.randrange(n + 1)] += r.choice([-2, -1, 1, 2, 4])
        elif x < .85:
            hp, hap, hai = r.choice([(0, 1, 1), (1, 0, 1), (1, 1, 0)])
        elif x < .9:
            nrow = -1
    nn = nrow if not vo else n
    fail, st = -1, 0
    if not vo and r.random() < .4:
        fail, st = r.randrange(6), r.randrange(2)
    c = ['amd %d %d %d %d %d %d %d %d %d %d %d %d %s %d %s' % (w, nrow, n, hp, hap, hai, vo, fail, st, r.randrange(3), r.randrange(2), len(p), ' '.join(map(str, p)), len(ii), ' '.join(map(str, ii)))]

    def oracle(o):
        t = o[0].split()
        rc, allocs, live, same = int(t[1]), int(t[3]), int(t[5]), int(t[7])
        P = [int(v) for v in t[t.index('P') + 1:]]
        N = nrow if vo else nrow
        e = []
        tag = 'C14 '
        if nrow < 0 or n < 0 or not hap or not hai or (not hp and not vo):
            st_ = -2
        elif not vo and nrow == 0:
            st_ = 0
        else:
            st_ = 0
            if p[0] != 0 or p[n] < 0 or any(p[j] > p[j + 1] for j in range(n)):
                st_ = -2
            else:
                for j in range(n):
                    col = ii[p[j]:p[j + 1]] if p[j + 1] <= len(ii) else None
                    if col is None:
                        return None
                    if any(i < 0 or i >= nrow for i in col):
                        st_ = -2
                        break
                    if any(col[a] >= col[a + 1] for a in range(len(col) - 1)):
                        st_ = 1
        if p[n] > len(ii):
            return None
        if not vo and nrow > 0 and st_ >= 0:
            oom = 0 <= fail < allocs
            if rc != (-1 if oom else st_):
                e.append(tag + 'order returns %d (classification %d, allocation failure %s)' % (rc, st_, oom))
            if not oom and sorted(P) != list(range(nrow)):
                e.append(tag + 'P = %s is not a permutation' % P)
        elif rc != st_:
            e.append(tag + '%s returns %d instead of %d' % ('valid' if vo else 'order', rc, st_))
        if rc == -2 and any(v != -5 for v in P):
            e.append(tag + 'P is written although the input is invalid')
        if live:
            e.append(tag + '%d blocks left' % live)
        if not same:
            e.append(tag + 'input modified')
        return pick(e, want)
    if vo is False or nn is None:
        pass
    # the arrays passed must be as large as the (claimed) p[n]
    if n >= 0 and p[n] > len(ii):
        ii += [0] * (p[n] - len(ii))
        c[0] = ' '.join(c[0].split(' ')[:12]) + ' %d %s %d %s' % (len(p), ' '.join(map(str, p)), len(ii), ' '.join(map(str, ii)))
    return Scen(c, oracle, 'AMD')


def colamd_unit(r, want):
    w = r.randrange(2)
    m, n = r.choice([0, 1, 2, 3, 5, 8, 15]), r.choice([0, 1, 2, 3, 5, 8, 15])
    cols = [[i for i in range(m) if r.random() < r.choice([.1, .3, .8])] for _ in range(n)]
    dup = r.random() < .3
    for col in cols:
        if dup and col:
            r.shuffle(col)
            col.insert(0, r.choice(col))
    p, ii = [0], []
    for col in cols:
        ii += col
        p.append(len(ii))
    kn = r.randrange(2)
    c = ['colamd %d %d %d 0 %d %s %d %s %d %s' % (w, m, n, kn, r.choice([10.0, 0.1, 1.0, -1.0]), len(p), ' '.join(map(str, p)), len(ii), ' '.join(map(str, ii)))]

    def oracle(o):
        t = o[0].split()
        rc, rec, stat = int(t[1]), int(t[3]), int(t[5])
        q = [int(v) for v in t[t.index('q') + 1:]]
        if rc != 1 or rec == 0:
            return pick(['C15 colamd with the recommended workspace %d returns %d, status %d' % (rec, rc, stat)], want)
        if sorted(q) != list(range(n)):
            return pick(['C15 C05 colamd returns %s, not a permutation' % q], want)
    return Scen(c, oracle, 'COLAMD')


def rec_unit(r, want):
    w = r.randrange(2)
    big = [0, 1, 2, 100, 10 ** 6, 2 ** 27, 2 ** 28, 2 ** 30, 2 ** 31 - 1, 2 ** 31 - 2]
    if w:
        big += [2 ** 40, 2 ** 58, 2 ** 59, 2 ** 60, 2 ** 61, 2 ** 62, 2 ** 63 - 1, (2 ** 64) // 72, 2 ** 64 // 48]
    a = [r.choice(big) - r.choice([0, 0, 1, 5]) for _ in range(3)]
    if r.random() < .2:
        a[r.randrange(3)] = -1
    if w == 0:
        a = [max(-2 ** 31, v) for v in a]
    c = ['rec %d %d %d %d' % (w, *a), 'defaults %d' % w]

    def oracle(o):
        e = []
        v = int(o[0].split()[1])
        nnz, m, n = a
        I = 8 if w else 4
        imax = 2 ** 63 - 1 if w else 2 ** 31 - 1
        colsz, rowsz = (48, 32) if w else (24, 16)
        need = 2 * nnz + (n + 1) * colsz // I + (m + 1) * rowsz // I + n
        full = need + nnz // 5
        if min(a) < 0:
            if v != 0:
                e.append('C15 recommended%s is %d for negative arguments' % (a, v))
        elif full < imax and (n + 1) * colsz < 2 ** 64 and (m + 1) * rowsz < 2 ** 64:
            if v < need or v == 0:
                e.append('C15 recommended%s is %d, needed %d' % (a, v, need))
        elif v != 0:
            e.append('C15 recommended%s is %d although the size overflows' % (a, v))
        d = [float(x) for x in o[1].split()[1:]]
        if d != [10.0, 10.0, 1.0] + [0.0] * 17 + [-7.25]:
            e.append('C15 defaults %s' % d)
        return pick(e, want)
    return Scen(c, oracle, 'colamd_recommended')


GENS2 = {'C06': [copy_unit], 'C07': [copy_int], 'C08': [check_unit], 'C10': [gmp_unit], 'C14': [('drv2', amd_unit)], 'C15': [('drv2', colamd_unit), ('drv2', rec_unit)]}
