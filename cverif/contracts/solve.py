"""slip_forward_sub, slip_back_sub, SLIP_LU_solve, SLIP_backslash

Right-hand sides are further columns of the elimination: column n+c of stage 0 is column c of b (lemma bareiss-augment).  Forward
substitution computes V(t,rp[t],n+c) for every row t; back substitution solves  sum_{j>=s} V(s,rp[s],j) z_j = det V(s,rp[s],n+c)  with integers
z_j (lemma cramer: they exist, z = det * A^-1 b by Cramer's rule), and lean/Bareiss.lean (back_solves) turns that into A z = det b.
"""
from .base import *
from .matrices import any_matrix, allinit, unit_scale
from .trisolve import VF, BAR, AI2, Elim, inverse
from .factorize import factor_L, factor_U, stage0, sel2, AI, matrix_A
from .checksol import csc_ok, partial_sums
from .convert import conversion
from .matrices import opt_prec, opt_round
from .factorize import DET0, FINITE


@contract('slip_forward_sub')
def forward_sub(c):
    internal(c)
    L = c.matrix('L', 'CSC', 'MPZ')
    X = c.matrix('x', 'DENSE', 'MPZ')
    rhos = c.matrix('rhos', 'DENSE', 'MPZ')
    n, bn = X.m, X.n
    v = c.ghost('v', lambda: fresh('v'))
    rp = c.ghost('rp', lambda: fresh('rp', AI))
    LW = c.ghost('LW', lambda: fresh('LW', AI2))
    rho, x = rhos.x, X.x
    E = Elim(v, rp, rho.comp('val'), n)
    V, R_ = E.V, E.r
    Lp, Li, Lx = L.p, L.i, L.x
    lw = lambda s, t: sel2(LW, s, t)
    rs = lambda t: z3.Select(rho.comp('val'), t)
    c.req('sizes', And(n >= 1, L.n == n, n <= rhos.nzmax, X.nzmax <= If(n * bn > 1, n * bn, 1)))
    c.req('x is initialised', allinit(c, X))
    c.req('the pivots are known', forall(lambda s: Implies(And(s >= 0, s < n), rho.init(s)), pats=lambda s: [rho.st(s)]))
    c.req('elimination', E.holds())
    for nm, f in factor_L(v, rp, L, Lp[n], LW, n, n):
        c.req(nm, f)
    c.req('x holds the right-hand sides', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < bn), X.d(r, t) == V(0, R_(r), n + t)), 2, pats=lambda r, t: [IX(r, t, n)]))
    c.mod(x)
    if c.defmode:
        c.eng.lemmas.update(('bareiss-pivot', 'bareiss-step', 'bareiss-gap'))

    def H(Lc):
        return Lc.mat('h', 'DENSE', 'INT64')

    def inits():
        yield 'x is initialised', allinit(c, X)

    def others(Lc, lo, hi):
        h = H(Lc)
        yield 'columns so far', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < lo), X.d(r, t) == V(r, R_(r), n + t)), 2, pats=lambda r, t: [IX(r, t, n)])
        yield 'columns to come', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= hi, t < bn), And(X.d(r, t) == V(0, R_(r), n + t), h.d(r, t) == -1)), 2, pats=lambda r, t: [IX(r, t, n)])

    def inv0(Lc):
        i = Lc['i']
        h = H(Lc)
        yield 'range', And(i >= 0, i <= X.nzmax)
        yield 'history so far', forall(lambda t: Implies(And(t >= 0, t < i), h.x[t] == -1), pats=lambda t: [h.x[t]])
    c.loop(0, inv0)

    def inv1(Lc):
        k = Lc['k']
        yield 'range', And(k >= 0, k <= bn)
        yield from inits()
        yield from others(Lc, k, k)
    c.loop(1, inv1)

    def inv2(Lc):
        i, k = Lc['i'], Lc['k']
        h = H(Lc)
        yield 'range', And(k >= 0, k < bn, i >= 0, i <= n)
        yield from inits()
        yield from others(Lc, k, k + 1)
        yield 'final entries', forall(lambda r: Implies(And(r >= 0, r < i), X.d(r, k) == V(r, R_(r), n + k)), pats=lambda r: [IX(r, k, n)])
        yield 'history', forall(lambda r: Implies(And(r >= i, r < n), And(h.d(r, k) >= -1, h.d(r, k) < i, X.d(r, k) == V(h.d(r, k) + 1, R_(r), n + k))), pats=lambda r: [IX(r, k, n)])
        yield 'later stages only scale', forall(lambda r, s: Implies(And(r >= i, r < n, s > h.d(r, k), s < i), E.nu(R_(r), s, n + k)), 2, pats=lambda r, s: [(IX(r, k, n), R_(s))])

    def head2(Lc):
        i, k = Lc['i'], Lc['k']
        h = H(Lc)
        j, col = R_(i), n + k
        g = i < n
        hi, xi = h.d(i, k), X.d(i, k)
        Lc.lemma(E.pivot(i))
        Lc.lemma(E.pivot(i - 1))
        Lc.lemma(E.pivot(hi))
        Lc.check('stages since the last update only scale', Implies(g, forall(lambda s: Implies(And(s > hi, s < i), E.nu(j, s, col)), pats=lambda s: [R_(s)])))
        Lc.lemma(E.gap(hi + 1, i, j, col))
        Lc.check('history update of the pivot entry, from the start', Implies(And(g, hi == -1, i >= 1), xi * rs(i - 1) == V(i, j, col)))
        Lc.check('history update of the pivot entry', Implies(And(g, hi >= 0), xi * rs(i - 1) == rs(hi) * V(i, j, col)))
        Lc.check('no history update', Implies(And(g, hi == i - 1), xi == V(i, j, col)))
        Lc.check('zero entries stay zero', Implies(And(g, xi == 0), V(i, j, col) == 0))
    c.loop(2, inv2, head=head2)

    def inv3(Lc):
        m, i, k = Lc['j'], Lc['i'], Lc['k']
        h = H(Lc)
        x0 = X.x.at(Lc.entry)
        h0 = h.x.at(Lc.entry)
        vis = lambda r: And(V(i, R_(r), i) != 0, lw(i, r) < m)
        ix = lambda r: IX(r, k, n)
        yield 'range', And(k >= 0, k < bn, i >= 0, i < n, m >= Lp[i], m <= Lp[i + 1])
        yield from inits()
        yield from others(Lc, k, k + 1)
        yield 'final entries', forall(lambda r: Implies(And(r >= 0, r <= i), X.d(r, k) == V(r, R_(r), n + k)), pats=lambda r: [IX(r, k, n)])
        yield 'updated entries', forall(lambda r: Implies(And(r > i, r < n), If(vis(r), And(X.d(r, k) == V(i + 1, R_(r), n + k), h.d(r, k) == i), And(X.d(r, k) == x0[ix(r)], h.d(r, k) == h0[ix(r)]))), pats=lambda r: [IX(r, k, n)])

    def head3(Lc):
        m, i, k = Lc['j'], Lc['i'], Lc['k']
        h = H(Lc)
        jn = Li[m]
        col = n + k
        row = R_(jn)
        g = And(m < Lp[i + 1], jn > i)
        hj, xj, xi = h.d(jn, k), X.d(jn, k), X.d(i, k)
        Lc.lemma(E.step(i, row, col))
        Lc.lemma(E.pivot(i))
        Lc.lemma(E.pivot(i - 1))
        Lc.lemma(E.pivot(hj))
        Lc.check('entry of L', Implies(g, And(jn >= 0, jn < n, Lx[m] == V(i, row, i), lw(i, jn) == m)))
        Lc.check('its history', Implies(g, And(IX(jn, k, n) >= 0, hj >= -1, hj < i, xj == V(hj + 1, row, col))))
        Lc.check('the stages since then only scale', Implies(g, forall(lambda s: Implies(And(s > hj, s < i), E.nu(row, s, col)), pats=lambda s: [R_(s)])))
        Lc.lemma(E.gap(hj + 1, i, row, col))
        Lc.check('history update of the other entry, from the start', Implies(And(g, hj == -1, i >= 1), xj * rs(i - 1) == V(i, row, col)))
        Lc.check('history update of the other entry', Implies(And(g, hj >= 0), xj * rs(i - 1) == rs(hj) * V(i, row, col)))
        Lc.check('no history update of the other entry', Implies(And(g, hj == i - 1), xj == V(i, row, col)))
        Lc.check('zero entry', Implies(And(g, xj == 0), V(i, row, col) == 0))
        st = rs(i) * V(i, row, col) - Lx[m] * xi
        Lc.check('elimination step', Implies(And(g, i >= 1), V(i + 1, row, col) * rs(i - 1) == st))
        Lc.check('first elimination step', Implies(And(g, i == 0), V(1, row, col) == st))

    def exit3(Lc):
        i, k = Lc['i'], Lc['k']
        h = H(Lc)
        x0, h0 = X.x.at(Lc.entry), h.x.at(Lc.entry)
        ix = lambda r: IX(r, k, n)
        Lc.check('the stage is done', forall(lambda r: Implies(And(r > i, r < n), If(V(i, R_(r), i) != 0, And(X.d(r, k) == V(i + 1, R_(r), n + k), h.d(r, k) == i), And(X.d(r, k) == x0[ix(r)], h.d(r, k) == h0[ix(r)]))), pats=lambda r: [IX(r, k, n)]))
    c.loop(3, inv3, head=head3, exit=exit3)

    def witness(Lc, b, a):
        if not Lc.has('k') or not Lc.has('i'):
            return []
        i, k = Lc['i'], Lc['k']
        h = H(Lc)
        w = V(i, R_(i), n + k)
        if not z3.is_select(b):
            return [w]
        t = b.arg(1)
        if t.eq(simp0(i - 1)):
            return [V(simp0(i + 1), R_(Lc['jnew']), n + k)]
        if t.eq(simp0(h.d(i, k))):
            return [w]
        return [V(i, R_(Lc['jnew']), n + k)]
    c.witness = witness

    def ok(rc):
        rc.ens('x is initialised', allinit(c, X))
        rc.ens('row t of x is the right-hand side at stage t', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < bn), X.d(r, t) == V(r, R_(r), n + t)), 2, pats=lambda r, t: [IX(r, t, n)]))

    def oom(rc):
        rc.oom()
        rc.ens('every number can be cleared', x.all(0, X.nzmax, x.clearable, pat=lambda k: [x.st(k)]))
        rc.ens('numbers beyond nzmax are not in use', x.all(X.nzmax, x.obj().size, lambda k: x.st(k) == x.old.st(k), pat=lambda k: [x.st(k)]))
    return [Outcome('ok', OK, None, ok), Outcome('oom', OOM, None, oom)]


# z names a solution: ZF(z,t,j), j < n, is the integer vector of the lemma for right-hand side t; WF(z,t,s,j) what is left of equation s
# once the unknowns j, j+1, ..., n-1 are in
ZF = z3.Function('Z', I, I, I, I)
WF = z3.Function('W', I, I, I, I, I)
CRAMER = z3.Function('integer_solution', I, arrsort(I), arrsort(I), I, I, B)


def equations(E, z, n, bn):
    V, R_ = E.V, E.r
    det = E.rho(n - 1)
    return [
        ('equations', forall(lambda s, t: Implies(And(s >= 0, s < n, t >= 0, t < bn), WF(z, t, s, n) == V(s, R_(s), n + t) * det), 2, pats=lambda s, t: [WF(z, t, s, n)])),
        ('unknowns one by one', forall(lambda s, t, j: Implies(And(s >= 0, s < n, t >= 0, t < bn, j >= 0, j < n), WF(z, t, s, j) == WF(z, t, s, j + 1) - V(s, R_(s), j) * ZF(z, t, j)), 3, pats=lambda s, t, j: [(WF(z, t, s, j), R_(s))])),
        ('the last unknown of an equation', forall(lambda s, t: Implies(And(s >= 0, s < n, t >= 0, t < bn), WF(z, t, s, s + 1) == V(s, R_(s), s) * ZF(z, t, s)), 2, pats=lambda s, t: [ZF(z, t, s)])),
    ]


def cramer(E, z, n, bn):
    return Implies(And(E.holds(), E.k == n, n >= 1), And(CRAMER(E.v, E.rp, E.rho_, n, z), *[f for nm, f in equations(E, z, n, bn)]))


@contract('slip_back_sub')
def back_sub(c):
    internal(c)
    U = c.matrix('U', 'CSC', 'MPZ')
    X = c.matrix('bx', 'DENSE', 'MPZ')
    n, bn = X.m, X.n
    v = c.ghost('v', lambda: fresh('v'))
    z = c.ghost('z', lambda: fresh('z'))
    rp = c.ghost('rp', lambda: fresh('rp', AI))
    rho = c.ghost('rho', lambda: fresh('rho', AI))
    UW = c.ghost('UW', lambda: fresh('UW', AI2))
    x = X.x
    E = Elim(v, rp, rho, n)
    V, R_ = E.V, E.r
    Up, Ui, Ux = U.p, U.i, U.x
    uw = lambda s, t: sel2(UW, s, t)
    c.req('sizes', And(n >= 1, U.n == n))
    c.req('x is initialised', allinit(c, X))
    c.req('elimination', E.holds())
    for nm, f in factor_U(v, rp, U, Up[n], UW, n, n):
        c.req(nm, f)
    for nm, f in equations(E, z, n, bn):
        c.req(nm, f)
    c.req('x holds the right-hand sides', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < bn), X.d(r, t) == WF(z, t, r, n)), 2, pats=lambda r, t: [IX(r, t, n)]))
    c.mod(x)
    if c.defmode:
        c.eng.lemmas.update(('bareiss-pivot',))

    def others(Lc, lo, hi):
        yield 'x is initialised', allinit(c, X)
        yield 'columns so far', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < lo), X.d(r, t) == ZF(z, t, r)), 2, pats=lambda r, t: [IX(r, t, n)])
        yield 'columns to come', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= hi, t < bn), X.d(r, t) == WF(z, t, r, n)), 2, pats=lambda r, t: [IX(r, t, n)])

    def inv0(Lc):
        k = Lc['k']
        yield 'range', And(k >= 0, k <= bn)
        yield from others(Lc, k, k)
    c.loop(0, inv0)

    def inv1(Lc):
        j, k = Lc['j'], Lc['k']
        yield 'range', And(k >= 0, k < bn, j >= -1, j < n)
        yield from others(Lc, k, k + 1)
        yield 'unknowns', forall(lambda r: Implies(And(r > j, r < n), X.d(r, k) == ZF(z, k, r)), pats=lambda r: [IX(r, k, n)])
        yield 'equations left', forall(lambda r: Implies(And(r >= 0, r <= j), X.d(r, k) == WF(z, k, r, j + 1)), pats=lambda r: [IX(r, k, n)])

    def head1(Lc):
        j, k = Lc['j'], Lc['k']
        g = j >= 0
        last = Up[j + 1] - 1
        Lc.lemma(E.pivot(j))
        Lc.check('the pivot of column j', Implies(g, And(Up[j] >= 0, last >= Up[j], last < Up[n], Ui[last] == j, Ux[last] == V(j, R_(j), j), uw(j, j) == last, Ux[last] != 0)))
        Lc.check('equation j', Implies(g, X.d(j, k) == V(j, R_(j), j) * ZF(z, k, j)))
        Lc.check('zero unknowns', Implies(And(g, X.d(j, k) == 0), And(ZF(z, k, j) == 0, forall(lambda r: Implies(And(r >= 0, r < n), WF(z, k, r, j) == WF(z, k, r, j + 1)), pats=lambda r: [R_(r)]))))
    c.loop(1, inv1, head=head1)

    def inv2(Lc):
        m, j, k = Lc['i'], Lc['j'], Lc['k']
        vis = lambda r: And(V(r, R_(r), j) != 0, uw(j, r) < m)
        yield 'range', And(k >= 0, k < bn, j >= 0, j < n, m >= Up[j], m <= Up[j + 1] - 1)
        yield from others(Lc, k, k + 1)
        yield 'unknowns', forall(lambda r: Implies(And(r >= j, r < n), X.d(r, k) == ZF(z, k, r)), pats=lambda r: [IX(r, k, n)])
        yield 'equations left', forall(lambda r: Implies(And(r >= 0, r < j), And(R_(r) == R_(r), X.d(r, k) == If(vis(r), WF(z, k, r, j), WF(z, k, r, j + 1)))), pats=lambda r: [IX(r, k, n)])

    def head2(Lc):
        m, j, k = Lc['i'], Lc['j'], Lc['k']
        g = m < Up[j + 1] - 1
        r = Ui[m]
        Lc.check('entry of U', Implies(g, And(Up[j] >= 0, r >= 0, r <= j, Ux[m] == V(r, R_(r), j), uw(j, r) == m)))
        Lc.check('it is above the diagonal', Implies(g, r < j))
        Lc.check('its equation', Implies(g, And(IX(r, k, n) >= 0, X.d(r, k) == WF(z, k, r, j + 1), WF(z, k, r, j) == WF(z, k, r, j + 1) - Ux[m] * ZF(z, k, j))))

    def exit2(Lc):
        j, k = Lc['j'], Lc['k']
        Lc.check('unknown j is in', forall(lambda r: Implies(And(r >= 0, r < j), X.d(r, k) == WF(z, k, r, j)), pats=lambda r: [IX(r, k, n)]))
    c.loop(2, inv2, head=head2, exit=exit2)

    def witness(Lc, b, a):
        return [ZF(z, Lc['k'], Lc['j'])]
    c.witness = witness

    def ok(rc):
        rc.ens('x is initialised', allinit(c, X))
        rc.ens('x is the solution', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < bn), X.d(r, t) == ZF(z, t, r)), 2, pats=lambda r, t: [IX(r, t, n)]))

    def oom(rc):
        rc.oom()
        rc.ens('every number can be cleared', x.all(0, X.nzmax, x.clearable, pat=lambda k: [x.st(k)]))
        rc.ens('numbers beyond nzmax are not in use', x.all(X.nzmax, x.obj().size, lambda k: x.st(k) == x.old.st(k), pat=lambda k: [x.st(k)]))
    return [Outcome('ok', OK, None, ok), Outcome('oom', OOM, None, oom)]


def permutation(q, qi, n):
    return forall(lambda k: Implies(And(k >= 0, k < n), And(q[k] >= 0, q[k] < n, qi(q[k]) == k)), pats=lambda k: [q[k]])


MATS = [('b', 'DENSE'), ('A', 'CSC'), ('L', 'CSC'), ('U', 'CSC'), ('rhos', 'DENSE')]


@contract('SLIP_LU_solve', cases=['main', 'args', 'empty'] + ['%s %s' % (w, m) for m, k in MATS for w in ('null', 'kind', 'type')])
def lu_solve(c):
    init = public(c)
    case = c.case
    full = case in ('main', 'empty')
    h = c.ptrcell('x_handle', nullable=not full)
    M = {}
    for nm, kind in MATS:
        if full:
            M[nm] = c.matrix(nm, kind, 'MPZ')
        else:
            M[nm] = any_matrix(c, nm, kind, None if case == 'type ' + nm else 'MPZ', nullable=case == 'null ' + nm)
    b, A, L, U, rhos = (M[nm] for nm, k in MATS)
    n, bn = A.n, b.n
    S_ = c.analysis('S', n, nullable=not full)
    pinv = c.arr('pinv', I64, n, nullable=not full, ro=True)
    opt = c.options()
    c.mod(h)
    panic = Outcome('panic', PANIC, Not(init), nomod=True)
    bad = Outcome('bad', INCORRECT, init, nomod=True)
    if ' ' in case:
        w, nm = case.split()
        X = M[nm]
        if w == 'null':
            c.req('a matrix is NULL', X.isnull)
        if w == 'kind' and c.defmode:
            k = fresh('kind')
            c.state.assume(And(k != KINDS[dict(MATS)[nm]], k >= -2 ** 31, k < 2 ** 31))
            c.state.wobj(X.ptr.obj).fields['kind'] = k
        if w == 'type':
            c.req('the type is not mpz', X.f('type') != TYPES['MPZ'])
        return [panic, bad]
    if case == 'args':
        c.req('an argument is missing or the dimensions do not match', Or(h.isnull, S_.isnull, pinv.isnull, L.m != A.m, L.n != U.m, U.n != A.n, A.n != A.m, A.m != b.m))
        return [panic, bad]
    c.req('dimensions', And(A.m == n, L.m == n, L.n == n, U.m == n, U.n == n, b.m == n, n < 2 ** 56))
    if case == 'empty':
        c.req('the system is empty', n == 0)

        def eok(rc):
            X = rc.out_matrix(('cell', h), 'DENSE', 'MPQ', m=0, n=bn, name='x')
            if X is not None:
                rc.ens('numbers are initialised', allinit(c, X))

        def eoom(rc):
            rc.out_null(('cell', h))
            rc.oom()
        return [panic, Outcome('ok', OK, init, eok), Outcome('oom', OOM, init, eoom)]
    q = View(c, S_.f('q'), None, 'S->q')
    mk = lambda nm, *so: (lambda: z3.Function(str(fresh(nm)), *so))
    AW = c.ghost('AW', mk('AW', I, I, I))
    QI = c.ghost('QI', mk('qi', I, I))
    v = c.ghost('v', lambda: fresh('v'))
    rp = c.ghost('rp', lambda: fresh('rp', AI))
    LW = c.ghost('LW', lambda: fresh('LW', AI2))
    UW = c.ghost('UW', lambda: fresh('UW', AI2))
    R_ = lambda t: z3.Select(rp, t)
    rho = rhos.x
    E = Elim(v, rp, rho.comp('val'), n)
    c.req('the system is not empty', And(n >= 1, n <= rhos.nzmax))
    perms = [('q lists the columns of A', permutation(q, QI, n)), ('pinv is a permutation, rp its inverse', inverse(pinv, R_, n))]
    hA = matrix_A(A, AW, n)
    h0 = stage0(v, A, AW, q, n)
    c.req('A is valid', csc_ok(A))
    for nm, f in perms + hA + h0:
        c.req(nm, f)
    c.req('b is initialised', allinit(c, b))
    c.req('scale factors are not zero', And(A.scale.init(), A.scale.canon(), A.scale.v != 0, b.scale.init(), b.scale.canon(), b.scale.v != 0))
    c.req('elimination', E.holds())
    c.req('the pivots are known', forall(lambda s: Implies(And(s >= 0, s < n), rho.init(s)), pats=lambda s: [rho.st(s)]))
    for nm, f in factor_L(v, rp, L, L.p[n], LW, n, n) + factor_U(v, rp, U, U.p[n], UW, n, n):
        c.req(nm, f)
    COL = S = None
    if c.defmode:
        c.eng.lemmas.update(('bareiss-pivot', 'bareiss-augment', 'bareiss-cramer', 'bareiss-solution'))
        v2, z = fresh('v'), fresh('z')
        E2 = Elim(v2, rp, rho.comp('val'), n)
        COL = z3.Function(str(fresh('col')), I, I)
        S = z3.Function(str(fresh('Ax')), I, I, I, R)
        rhs = forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < bn), VF(v2, 0, r, n + t) == b.d(r, t)), 2, pats=lambda r, t: [VF(v2, 0, r, n + t), IX(r, t, n)])
        # definitions: a further elimination, its solution, the columns of entries of A
        c.state.assume(Implies(E.holds(), And(E2.holds(), rhs, forall(lambda s, i, j: Implies(And(s >= 0, s <= n, j < n), VF(v2, s, i, j) == VF(v, s, i, j)), 3, pats=lambda s, i, j: [VF(v2, s, i, j)]))))
        c.state.assume(cramer(E2, z, n, bn))
        c.ghost_for['slip_permute_b'] = lambda Lc, cc: dict(inverse=lambda t: R_(t))
        c.ghost_for['slip_permute_x'] = lambda Lc, cc: dict(inverse=QI)
        c.ghost_for['slip_forward_sub'] = lambda Lc, cc: dict(v=v2, rp=rp, LW=LW)
        c.ghost_for['slip_back_sub'] = lambda Lc, cc: dict(v=v2, rp=rp, rho=rho.comp('val'), UW=UW, z=z)
        c.ghost_for['slip_check_solution'] = lambda Lc, cc: dict(COL=COL, S=S)

        def before_fsub(Lc, vals):
            B2 = Lc.mat('b2', 'DENSE', 'MPZ')
            Lc.check('the right-hand sides are permuted', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < bn), And(pinv[R_(r)] == r, IX(R_(r), t, n) >= 0, B2.d(r, t) == b.d(R_(r), t))), 2, pats=lambda r, t: [IX(r, t, n)]))
        c.hook('before', 'slip_forward_sub', before_fsub)

        def before_div(Lc, vals):
            Lc.lemma(E.pivot(n - 1))
        c.hook('before', 'slip_matrix_div', before_div)

        def after_div(Lc, vals, name, cc):
            if name == 'ok':
                X2, B2 = Lc.mat('x2', 'DENSE', 'MPQ'), Lc.mat('b2', 'DENSE', 'MPZ')
                det = z3.ToReal(E.rho(n - 1))
                Lc.check('the integer solution over the determinant', forall(lambda j, t: Implies(And(j >= 0, j < n, t >= 0, t < bn), And(B2.d(j, t) == ZF(z, t, j), X2.d(j, t) * det == z3.ToReal(ZF(z, t, j)))), 2, pats=lambda j, t: [IX(j, t, n)]))
        c.hook('after', 'slip_matrix_div', after_div)

        def after_cmp(Lc, vals, name, cc):
            if name == 'ok':
                sc = Lc.view('scale')
                Lc.check('the ratio of the scale factors', sc[0] * b.scale.v == A.scale.v)
                Lc.check('is it one', Implies(Lc['r'] == 0, A.scale.v == b.scale.v))
        c.hook('after', 'SLIP_mpq_cmp_ui', after_cmp)

        def after_px(Lc, vals, name, cc):
            if name != 'ok':
                return
            X = Lc.mat('x', 'DENSE', 'MPQ')
            Lc.st.ghost['X0'] = X.x.comp('val')
            y2 = Lc.mat('x2', 'DENSE', 'MPQ').x.comp('val')
            Y = lambda j, t: z3.Select(y2, IX(j, t, n))
            det = z3.ToReal(E.rho(n - 1))
            facts = perms + [('A is valid', csc_ok(A))] + hA + h0 + [
                ('right-hand sides', rhs), ('the integer solution', CRAMER(v2, rp, rho.comp('val'), n, z)),
                ('A in the elimination', forall(lambda i, j: Implies(j < n, VF(v2, 0, i, j) == VF(v, 0, i, j)), 2, pats=lambda i, j: [VF(v2, 0, i, j)])),
                ('the determinant', E.rho(n - 1) != 0),
                ('the integer solution over the determinant', forall(lambda j, t: Implies(And(j >= 0, j < n, t >= 0, t < bn), Y(j, t) * det == z3.ToReal(ZF(z, t, j))), 2, pats=lambda j, t: [ZF(z, t, j), IX(j, t, n)])),
                ('x is that solution in the order of the columns', forall(lambda j, t: Implies(And(j >= 0, j < n, t >= 0, t < bn), X.d(q[j], t) == Y(j, t)), 2, pats=lambda j, t: [IX(j, t, n), IX(q[j], t, n)]))]
            for nm, f in facts:
                Lc.check(nm, f)
            for nm, f in partial_sums(A, X.d, S, COL, n, bn):
                Lc.lemma(f)
            Lc.lemma(forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < bn), S(t, A.p[n], r) == z3.ToReal(b.d(r, t))), 2, pats=lambda r, t: [S(t, A.p[n], r)]))
        c.hook('after', 'slip_permute_x', after_px)

        def after_check(Lc, vals, name, cc):
            if name == 'ok':
                Lc.st.ghost['checked'] = TRUE
        c.hook('after', 'slip_check_solution', after_check)

    def inv0(Lc):
        i = Lc['i']
        X = Lc.mat('x', 'DENSE', 'MPQ')
        x0 = X.x.at(Lc.entry)
        yield 'range', And(i >= 0, i <= X.nzmax)
        yield 'x is initialised', allinit(c, X)
        yield 'scaled so far', forall(lambda k: Implies(And(k >= 0, k < i), X.x[k] * b.scale.v == x0[k] * A.scale.v), pats=lambda k: [X.x[k]])
        yield 'the others', forall(lambda k: Implies(And(k >= i, k < X.nzmax), X.x[k] == x0[k]), pats=lambda k: [X.x[k]])
    c.loop(0, inv0)

    def ok(rc):
        X = rc.out_matrix(('cell', h), 'DENSE', 'MPQ', m=n, n=bn, name='x')
        if X is None:
            return
        rc.ens('numbers are initialised', allinit(c, X))
        unit_scale(rc, X)
        if rc.mode == 'check':
            X0 = lambda j, t: z3.Select(rc.st.ghost['X0'], IX(j, t, n))
            col, s = COL, S
            rc.ens('the solution was checked when that was requested', Implies(And(Not(opt.isnull), opt.f('check')), rc.st.ghost.get('checked', FALSE)))
        else:
            X0 = z3.Function(str(fresh('x0')), I, I, R)
            col, s = z3.Function(str(fresh('col')), I, I), z3.Function(str(fresh('Ax')), I, I, I, R)
            rc.st.ghost['solution'] = dict(X0=X0, COL=col, S=s, X=X)
        for nm, f in partial_sums(A, X0, s, col, n, bn):
            rc.ens(nm, f)
        rc.ens('A*x0 = b for the integer matrices', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < bn), s(t, A.p[n], r) == z3.ToReal(b.d(r, t))), 2, pats=lambda r, t: [s(t, A.p[n], r)]))
        same = A.scale.v == b.scale.v
        if rc.mode == 'check':
            # x = x0 * scale of A / scale of b, by cases (the scale of b is not zero)
            rc.ens('x = x0 when the scale factors agree', Implies(same, forall(lambda j, t: Implies(And(j >= 0, j < n, t >= 0, t < bn), X.d(j, t) == X0(j, t)), 2, pats=lambda j, t: [IX(j, t, n)])))
            rc.ens('x = x0 * scale of A / scale of b', Implies(Not(same), forall(lambda j, t: Implies(And(j >= 0, j < n, t >= 0, t < bn), X.d(j, t) * b.scale.v == X0(j, t) * A.scale.v), 2, pats=lambda j, t: [IX(j, t, n)])))
        else:
            rc.ens('x = x0 * scale of A / scale of b', forall(lambda j, t: Implies(And(j >= 0, j < n, t >= 0, t < bn), X.d(j, t) * b.scale.v == X0(j, t) * A.scale.v), 2, pats=lambda j, t: [IX(j, t, n)]))

    def oom(rc):
        rc.out_null(('cell', h))
        rc.oom()
    return [panic, Outcome('ok', OK, init, ok), Outcome('oom', OOM, init, oom)]


def pick_solve(eng, st, vals):
    """the dimensions of b decide"""
    b, A = (st.heap[vals[k].obj].fields['m'] for k in (1, 2))
    return 'args' if eng.qprove(st, b != A) else 'main'


lu_solve.pick = pick_solve

SOLS = ['MPQ', 'FP64', 'MPFR']
ORDER = ['none', 'colamd', 'amd']


@contract('SLIP_backslash', cases=['%s %s' % (t, o) for t in SOLS for o in ORDER] + ['b-rows', 'A-square', 'X_handle', 'bad-type'] + ['%s %s' % (w, m) for m in 'Ab' for w in ('null', 'kind', 'type')])
def backslash(c):
    init = public(c)
    case = c.case
    kind = case.split()[0]
    full = kind in SOLS or case in ('b-rows', 'A-square')
    h = c.ptrcell('X_handle', nullable=case == 'X_handle')
    typ = kind if kind in SOLS else 'MPQ'
    if kind in SOLS:
        c.const('type', TYPES[typ])
    else:
        ty = c.val('type')
        if case == 'bad-type':
            c.req('the type of the result is none of the three', And(ty != TYPES['MPQ'], ty != TYPES['FP64'], ty != TYPES['MPFR']))
        elif case != 'X_handle' and ' ' in case:
            c.req('the type is in range', And(ty >= 0, ty <= 4))
        elif case != 'X_handle':
            c.req('the type of the result is valid', Or(*[ty == TYPES[t] for t in SOLS]))
    M = {}
    for nm, kd in (('A', 'CSC'), ('b', 'DENSE')):
        if full:
            M[nm] = c.matrix(nm, kd, 'MPZ')
        else:
            M[nm] = any_matrix(c, nm, kd, None if case in ('type ' + nm, 'X_handle', 'bad-type') else 'MPZ', nullable=case in ('null ' + nm, 'X_handle', 'bad-type'))
    A, b = M['A'], M['b']
    opt = c.options()
    c.mod(h)
    n, bn = A.n, b.n
    panic = Outcome('panic', PANIC, Not(init), nomod=True)

    def none(rc):
        rc.out_null(('cell', h))

    def oom(rc):
        none(rc)
        rc.oom()
    bad = Outcome('bad', INCORRECT, init, none)
    if case == 'X_handle':
        c.req('the handle is NULL', h.isnull)
        return [panic, Outcome('bad', INCORRECT, init, nomod=True)]
    if case == 'bad-type':
        return [panic, bad]
    if not full:
        w, nm = case.split()
        X = M[nm]
        if w == 'null':
            c.req('a matrix is NULL', X.isnull)
        if w == 'kind' and c.defmode:
            k = fresh('kind')
            c.state.assume(And(k != {'A': 0, 'b': 2}[nm], k >= -2 ** 31, k < 2 ** 31))
            c.state.wobj(X.ptr.obj).fields['kind'] = k
        if w == 'type':
            c.req('the type is not mpz', X.f('type') != TYPES['MPZ'])
        return [panic, bad]
    mk = lambda nm, *so: (lambda: z3.Function(str(fresh(nm)), *so))
    AW = c.ghost('AW', mk('AW', I, I, I))
    if case == 'A-square':
        c.req('A is not square', And(A.m != n, n >= 1, n < 2 ** 56))
    else:
        c.req('A is square and not empty', And(A.m == n, n >= 1, n < 2 ** 56))
    hA = matrix_A(A, AW, n)
    c.req('A is valid', And(csc_ok(A), A.nzmax <= 2 ** 56))
    for nm, f in hA:
        c.req(nm, f)
    c.req('b is initialised', allinit(c, b))
    c.req('scale factors are not zero', And(A.scale.init(), A.scale.canon(), A.scale.v != 0, b.scale.init(), b.scale.canon(), b.scale.v != 0))
    order = If(opt.isnull, IV(1), opt.f('order'))
    if kind in SOLS:
        o = case.split()[1]
        c.req('ordering', {'none': order == 0, 'amd': order == 2, 'colamd': And(order != 0, order != 2)}[o])
    else:
        c.req('ordering', And(order != 0, order != 2))
    c.req('the tolerance is finite', Or(opt.isnull, FINITE(opt.f('tol'))))
    if case == 'b-rows':
        c.req('b does not have the rows of A', b.m != n)
    elif case != 'A-square':
        c.req('b has the rows of A', b.m == n)
    if c.defmode:
        # the facts the callees' contracts need are those of A, whatever they are called with
        c.ghost_for['SLIP_LU_factorize'] = lambda Lc, cc: dict(AW=AW)
        QI = z3.Function(str(fresh('qi')), I, I)

        def after_analyze(Lc, vals, name, cc):
            if name == 'ok':
                S = View(c, Lc.st.heap[Lc['S'].obj].fields['q'], None, 'q').at(Lc.st)
                # definition: QI(j) is the place of column j in the order (there is one such place only)
                Lc.check('no column occurs twice in the order', forall(lambda s, t: Implies(And(s >= 0, s < t, t < n), S[s] != S[t]), 2, pats=lambda s, t: [(S[s], S[t])]))
                Lc.lemma(forall(lambda k: Implies(And(k >= 0, k < n), QI(S[k]) == k), pats=lambda k: [S[k]]))
        c.hook('after', 'SLIP_LU_analyze', after_analyze)

        def sol_ghosts(Lc, cc):
            lu = Lc.st.ghost['lu']
            return dict(AW=AW, QI=QI, v=lu['v'], rp=lu['rp'], LW=lu['LW'], UW=lu['UW'])
        c.ghost_for['SLIP_LU_solve'] = sol_ghosts

        def after_solve(Lc, vals, name, cc):
            if name == 'ok':
                s = Lc.st.ghost['solution']
                Lc.st.ghost['xq'] = s['X'].x.comp('val')
        c.hook('after', 'SLIP_LU_solve', after_solve)

    def ok(rc):
        X = rc.out_matrix(('cell', h), 'DENSE', typ, m=n, n=bn, name='x')
        if X is None:
            return
        if rc.mode == 'check':
            so = rc.st.ghost.get('solution')
            if so is None:
                rc.ens('A solution was computed', FALSE)
                return
            X0, col, s, xq = so['X0'], so['COL'], so['S'], rc.st.ghost['xq']
        else:
            X0, col, s = z3.Function(str(fresh('x0')), I, I, R), z3.Function(str(fresh('col')), I, I), z3.Function(str(fresh('Ax')), I, I, I, R)
            xq = fresh('xq', arrsort(R))
        XQ = lambda j, t: z3.Select(xq, IX(j, t, n))
        for nm, f in partial_sums(A, X0, s, col, n, bn):
            rc.ens(nm, f)
        rc.ens('A*x0 = b for the integer matrices', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < bn), s(t, A.p[n], r) == z3.ToReal(b.d(r, t))), 2, pats=lambda r, t: [s(t, A.p[n], r)]))
        rc.ens('the exact solution is x0 * scale of A / scale of b', forall(lambda j, t: Implies(And(j >= 0, j < n, t >= 0, t < bn), XQ(j, t) * b.scale.v == X0(j, t) * A.scale.v), 2, pats=lambda j, t: [IX(j, t, n)]))
        if typ == 'MPQ':
            rc.ens('the result is the exact solution', forall(lambda j, t: Implies(And(j >= 0, j < n, t >= 0, t < bn), X.d(j, t) == XQ(j, t)), 2, pats=lambda j, t: [IX(j, t, n)]))
            rc.ens('numbers are initialised', allinit(c, X))
        else:
            class Src:
                def __getitem__(self, k):
                    return z3.Select(xq, k)
            rc.ens('the result is the exact solution, rounded', forall(lambda k: Implies(And(k >= 0, k < n * bn), conversion(typ, 'MPQ', Src(), X.x, IV(1) if False else z3.RealVal(1), X.scale.v, opt_prec(opt), opt_round(opt), k)), pats=lambda k: [X.x[k]]))
            if typ == 'MPFR':
                rc.ens('numbers are initialised', allinit(c, X))
        s_ = X.scale
        rc.ens('scale is 1', And(s_.init(), s_.v == 1, s_.canon()))

    def singular(rc):
        none(rc)
        v = fresh('v')
        if rc.mode == 'check':
            v = rc.st.ghost['singular']['v']
            q = rc.st.ghost['singular']['q']
            for nm, f in stage0(v, A, AW, q, n):
                rc.ens(nm, f)
        rc.ens('the determinant is zero', DET0(v, n))
    if case in ('b-rows', 'A-square'):
        outs = [panic, bad]
        if case == 'b-rows':
            outs.append(Outcome('singular', SINGULAR, init, singular))
        return outs + [Outcome('oom', OOM, init, oom)]
    return [panic, Outcome('ok', OK, init, ok), Outcome('singular', SINGULAR, init, singular), Outcome('oom', OOM, init, oom)]


SOLVEFNS = ['slip_forward_sub', 'slip_back_sub', 'SLIP_LU_solve', 'SLIP_backslash']
