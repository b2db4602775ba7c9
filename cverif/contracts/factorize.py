"""SLIP_LU_factorize

OK: there is an elimination V (see trisolve.py) of A with its columns in the order q, through all n stages, with pivot rows rp[t] (the inverse
of pinv) and pivots rhos; column s of L holds V(s,rp[t],s) for t >= s, column s of U holds V(t,rp[t],s) for t <= s.  lean/Bareiss.lean (lu_exact)
turns that into  A(rp[t],q[j]) = sum_s L(t,s) U(s,j) / (rhos[s-1] rhos[s]).
SINGULAR: the matrix has determinant zero.
"""
from .base import *
from .matrices import any_matrix, unit_scale
from .analyze import float_facts, D2R
from .reach import WH
from .trisolve import VF, BAR, AI2, Elim, inverse, cols_of_L
from ..prims import FINITE

DET0 = z3.Function('determinant_is_zero', I, I, B)      # of V(v,0,i,j), 0 <= i,j < n
AI = arrsort(I)


def named(st, term, name='t'):
    c = fresh(name, term.sort())
    st.assume(c == term)
    return c


def sel2(W, s, i):
    return z3.Select(z3.Select(W, s), i)


def matrix_A(A, AW, n):
    """valid CSC: columns in order, rows in range, no row twice in a column"""
    Ap, Ai = A.p, A.i
    return [
        ('column pointers of A', And(Ap[0] == 0, forall(lambda c: Implies(And(c >= 0, c < n), And(Ap[c] >= 0, Ap[c] <= Ap[c + 1], Ap[c + 1] <= A.nzmax)), pats=lambda c: [Ap[c]]))),
        ('row indices of A', forall(lambda c, m: Implies(And(c >= 0, c < n, m >= Ap[c], m < Ap[c + 1]), And(Ai[m] >= 0, Ai[m] < n, AW(c, Ai[m]) == m)), 2, pats=lambda c, m: [(Ap[c], Ai[m])])),
        ('numbers of A', forall(lambda c, m: Implies(And(c >= 0, c < n, m >= Ap[c], m < Ap[c + 1]), A.x.init(m)), 2, pats=lambda c, m: [(Ap[c], A.x.st(m))])),
    ]


def stage0(v, A, AW, q, n):
    """V(v,0,i,j) is entry (i,q[j]) of A"""
    Ap, Ai, Ax = A.p, A.i, A.x
    return [
        ('stage 0 is A', forall(lambda j, m: Implies(And(j >= 0, j < n, m >= Ap[q[j]], m < Ap[q[j] + 1]), VF(v, 0, Ai[m], j) == Ax[m]), 2, pats=lambda j, m: [(q[j], Ai[m])])),
        ('stage 0 has the entries of A only', forall(lambda i, j: Implies(And(j >= 0, j < n, i >= 0, i < n, VF(v, 0, i, j) != 0), And(AW(q[j], i) >= Ap[q[j]], AW(q[j], i) < Ap[q[j] + 1], Ai[AW(q[j], i)] == i)), 2, pats=lambda i, j: [VF(v, 0, i, j)])),
    ]


def extend(E, v2, rp2, rho2):
    """a further stage exists (lemma bareiss-extend)"""
    k = E.k
    S = z3.Select
    return Implies(And(E.holds(), k >= 0, forall(lambda s: Implies(And(s >= 0, s < k), And(S(rp2, s) == E.r(s), S(rho2, s) == S(E.rho_, s))), pats=lambda s: [S(rp2, s)]),
                       S(rho2, k) == E.V(k, S(rp2, k), k), S(rho2, k) != 0),
                   And(forall(lambda s, i, j: Implies(And(s >= 0, s <= k), VF(v2, s, i, j) == E.V(s, i, j)), 3, pats=lambda s, i, j: [VF(v2, s, i, j)]),
                       BAR(v2, rp2, rho2, k + 1)))


def singular_lemma(E, pinv, n):
    k = E.k
    return Implies(And(E.holds(), k >= 0, k < n, inverse(pinv, lambda t: E.r(t), n),
                       forall(lambda i: Implies(And(i >= 0, i < n, pinv[i] >= k), E.V(k, i, k) == 0), pats=lambda i: [E.V(k, i, k)])), DET0(E.v, n))


def nonsingular_lemma(E, pinv, n):
    return Implies(And(E.holds(), E.k == n, n >= 1, inverse(pinv, lambda t: E.r(t), n)), Not(DET0(E.v, n)))


def factor_L(v, rp, Lm, lnz, LW, n, k):
    """columns 0..k-1 of L, rows in pivotal order"""
    Lp, Li, Lx = Lm.p, Lm.i, Lm.x
    R_ = lambda t: z3.Select(rp, t)
    return [
        ('column pointers of L', And(Lp[0] == 0, Lp[k] == lnz, lnz >= k, lnz <= Lm.nzmax, forall(lambda s: Implies(And(s >= 0, s < k), And(Lp[s] >= 0, Lp[s] <= Lp[s + 1], Lp[s + 1] <= lnz)), pats=lambda s: [Lp[s]]))),
        ('entries of L', forall(lambda s, m: Implies(And(s >= 0, s < k, m >= Lp[s], m < Lp[s + 1]), And(Li[m] >= s, Li[m] < n, Lx[m] == VF(v, s, R_(Li[m]), s), sel2(LW, s, Li[m]) == m)), 2, pats=lambda s, m: [(Lp[s], Li[m])])),
        ('no entry of L is missing', forall(lambda s, t: Implies(And(s >= 0, s < k, t >= s, t < n, VF(v, s, R_(t), s) != 0), And(sel2(LW, s, t) >= Lp[s], sel2(LW, s, t) < Lp[s + 1], Li[sel2(LW, s, t)] == t)), 2, pats=lambda s, t: [VF(v, s, R_(t), s)])),
        ('numbers of L', forall(lambda m: Implies(And(m >= 0, m < lnz), Lm.x.init(m)), pats=lambda m: [Lm.x.st(m)])),
    ]


def factor_U(v, rp, Um, unz, UW, n, k):
    Up, Ui, Ux = Um.p, Um.i, Um.x
    R_ = lambda t: z3.Select(rp, t)
    return [
        ('column pointers of U', And(Up[0] == 0, Up[k] == unz, unz >= k, unz <= Um.nzmax, forall(lambda s: Implies(And(s >= 0, s < k), And(Up[s] >= 0, Up[s] < Up[s + 1], Up[s + 1] <= unz)), pats=lambda s: [Up[s]]))),
        ('entries of U', forall(lambda s, m: Implies(And(s >= 0, s < k, m >= Up[s], m < Up[s + 1]), And(Ui[m] >= 0, Ui[m] <= s, Ux[m] == VF(v, Ui[m], R_(Ui[m]), s), sel2(UW, s, Ui[m]) == m)), 2, pats=lambda s, m: [(Up[s], Ui[m])])),
        ('no entry of U is missing', forall(lambda s, t: Implies(And(s >= 0, s < k, t >= 0, t <= s, VF(v, t, R_(t), s) != 0), And(sel2(UW, s, t) >= Up[s], sel2(UW, s, t) < Up[s + 1], Ui[sel2(UW, s, t)] == t)), 2, pats=lambda s, t: [VF(v, t, R_(t), s)])),
        ('the last entry of a column of U is the diagonal', forall(lambda s: Implies(And(s >= 0, s < k), And(Up[s] >= 0, Ui[Up[s + 1] - 1] == s)), pats=lambda s: [Up[s]])),
        ('numbers of U', forall(lambda m: Implies(And(m >= 0, m < unz), Um.x.init(m)), pats=lambda m: [Um.x.st(m)])),
    ]


class MV:
    """a matrix view with the column pointers given as an array term"""

    def __init__(self, M, p):
        self.M, self.p_ = M, p
        self.i, self.x, self.nzmax = M.i, M.x, M.nzmax

    @property
    def p(self):
        a = self.p_
        return type('P', (), {'__getitem__': lambda s, k: z3.Select(a, k)})()


@contract('SLIP_LU_factorize', cases=['main', 'args', 'kind', 'type', 'null'])
def factorize(c):
    init = public(c)
    case = c.case
    full = case == 'main'
    hL = c.ptrcell('L_handle', nullable=not full)
    hU = c.ptrcell('U_handle', nullable=not full)
    hr = c.ptrcell('rhos_handle', nullable=not full)
    hp = c.ptrcell('pinv_handle', nullable=not full)
    if full:
        A = c.matrix('A', 'CSC', 'MPZ')
    else:
        A = any_matrix(c, 'A', 'CSC', None if case == 'type' else 'MPZ', nullable=case == 'null')
    n = A.n
    S = c.analysis('S', n, nullable=not full)
    opt = c.options()
    for h in (hL, hU, hr, hp):
        c.mod(h)
    panic = Outcome('panic', PANIC, Not(init), nomod=True)
    if case in ('kind', 'type', 'null'):
        if c.defmode and case == 'kind':
            k = fresh('A.kind')
            c.state.assume(And(k != 0, k >= -2 ** 31, k < 2 ** 31))
            c.state.wobj(A.ptr.obj).fields['kind'] = k
        if case == 'type':
            c.req('the type is not mpz', A.f('type') != TYPES['MPZ'])
        if case == 'null':
            c.req('A is NULL', A.isnull)
        return [panic, Outcome('bad', INCORRECT, init, nomod=True)]
    if case == 'args':
        p = A.sub('p')
        c.req('p has n+1 entries', Implies(And(n >= 0, Not(A.f('p').null)), n < p.obj().size))
        c.req('a handle or the analysis is NULL, or A has no column pointers', Or(hL.isnull, hU.isnull, hr.isnull, hp.isnull, S.isnull, A.f('p').null, n < 0, p[n] < 0))
        return [panic, Outcome('bad', INCORRECT, init, nomod=True)]
    q = View(c, S.f('q'), None, 'S->q')
    AW = c.ghost('AW', lambda: z3.Function(str(fresh('AW')), I, I, I))
    c.req('A is square', And(A.m == n, n >= 1, n < 2 ** 56))
    for nm, f in matrix_A(A, AW, n):
        c.req(nm, f)
    c.req('q lists columns of A', forall(lambda k: Implies(And(k >= 0, k < n), And(q[k] >= 0, q[k] < n)), pats=lambda k: [q[k]]))
    c.req('the estimates suffice to start', And(S.f('lnz') >= n, S.f('unz') >= n))
    if not isinstance(opt.f('tol'), Undef):
        c.req('the tolerance is finite', Or(opt.isnull, FINITE(opt.f('tol'))))
    if c.defmode:
        float_facts(c)

        def log2(e, s, vals, ex):
            t = ffun('log2', 1)(vals[0])
            s.assume(Implies(And(D2R(vals[0]) >= 1, D2R(vals[0]) <= 2 ** 64), And(D2R(t) >= 0, D2R(t) <= 64)))
            return [(s, t)]
        c.eng.override['log2'] = log2
        c.eng.lemmas.update(('bareiss-extend', 'bareiss-empty', 'bareiss-singular', 'bareiss-nonsingular'))
        g = c.state.ghost
        g['$v'] = fresh('v')
        for nm, so in (('LW', AI2), ('UW', AI2), ('LWk', AI), ('UWk', AI)):
            g['$' + nm] = fresh(nm, so)
        # some elimination starts with A (definition of its stage 0)
        for nm, f in stage0(g['$v'], A, AW, q, n):
            c.state.assume(f)
    def mats(Lc):
        return Lc.mat('L', 'CSC', 'MPZ'), Lc.mat('U', 'CSC', 'MPZ')

    # ---- 0: workspace
    def inv0(Lc):
        i = Lc['i']
        h, pivs, pinv, rp = Lc.view('h'), Lc.view('pivs'), Lc.view('pinv'), Lc.view('row_perm')
        yield 'range', And(i >= 0, i <= n)
        yield 'no pivot yet', forall(lambda t: Implies(And(t >= 0, t < i), And(pivs[t] == -1, pinv[t] == t, rp[t] == t)), pats=lambda t: [pivs[t], pinv[t], rp[t]])
    c.loop(0, inv0)

    # ---- 1: x
    def inv1(Lc):
        i = Lc['i']
        x = Lc.mat('x', 'DENSE', 'MPZ').x
        yield 'range', And(i >= 0, i <= n)
        yield 'initialised so far', x.all(0, i, x.init, pat=lambda k: [x.st(k)])
        yield 'the others', forall(lambda k: Implies(And(k >= i, k < x.obj().size), x.st(k) == 0), pats=lambda k: [x.st(k)])
    c.loop(1, inv1)

    # ---- 2: the factorization
    def init2(Lc):
        v = Lc.st.ghost['$v']
        rp, rho = Lc.view('row_perm'), Lc.mat('rhos', 'DENSE', 'MPZ').x
        Lc.lemma(BAR(v, rp.comp('val'), rho.comp('val'), 0))

    def cols(E, M, Wt, other, p, nz, pinv, upper):
        """finished columns: (row names are original)"""
        Mp, Mi, Mx = MV(M, p).p, M.i, M.x
        k, V = E.k, E.V
        w = lambda s, i: sel2(Wt, s, i)
        if not upper:
            return cols_of_L(E, MV(M, p), pinv, Wt, n, nz)
        return [
            ('column pointers of U', And(forall(lambda s: Implies(And(s >= 0, s < k), And(Mp[s] >= 0, Mp[s] < Mp[s + 1], Mp[s + 1] <= nz)), pats=lambda s: [Mp[s]]), Mp[k] == nz)),
            ('row indices of U', forall(lambda m: Implies(And(m >= 0, m < nz), And(Mi[m] >= 0, Mi[m] < n)), pats=lambda m: [Mi[m]])),
            ('entries of U', forall(lambda s, m: Implies(And(s >= 0, s < k, m >= Mp[s], m < Mp[s + 1]), And(pinv[Mi[m]] <= s, Mx[m] == V(pinv[Mi[m]], Mi[m], s), w(s, Mi[m]) == m)), 2, pats=lambda s, m: [(Mp[s], Mi[m])])),
            ('no entry of U is missing', forall(lambda s, i: Implies(And(s >= 0, s < k, i >= 0, i < n, pinv[i] <= s, V(pinv[i], i, s) != 0), And(w(s, i) >= Mp[s], w(s, i) < Mp[s + 1], Mi[w(s, i)] == i)), 2, pats=lambda s, i: [V(pinv[i], i, s)])),
            ('last entries of the columns of U', forall(lambda s: Implies(And(s >= 0, s < k), And(Mp[s] >= 0, pinv[Mi[Mp[s + 1] - 1]] == s)), pats=lambda s: [Mp[s]])),
            ('numbers of U', forall(lambda m: Implies(And(m >= 0, m < nz), M.x.init(m)), pats=lambda m: [M.x.st(m)])),
        ]

    def shape(M, nm):
        yield nm + ': room', And(M.nzmax >= n, M.nzmax <= M.i.obj().size, M.nzmax <= M.x.obj().size)

    def unused(M, nm, nz):
        yield nm + ': unused numbers', forall(lambda m: Implies(And(m >= nz, m < M.nzmax), M.x.st(m) == 0), pats=lambda m: [M.x.st(m)])
        yield nm + ': numbers beyond nzmax are not in use', forall(lambda m: Implies(And(m >= M.nzmax, m < M.x.obj().size), M.x.st(m) != 1), pats=lambda m: [M.x.st(m)])

    def inv2(Lc):
        k, lnz, unz = Lc['k'], Lc['lnz'], Lc['unz']
        L, U = mats(Lc)
        st = Lc.st
        g = st.ghost
        v = g['$v']
        pivs, pinv, rp = Lc.view('pivs'), Lc.view('pinv'), Lc.view('row_perm')
        rho = Lc.mat('rhos', 'DENSE', 'MPZ').x
        x = Lc.mat('x', 'DENSE', 'MPZ').x
        E = Elim(v, rp.comp('val'), rho.comp('val'), k)
        yield 'range', And(k >= 0, k <= n)
        yield 'entries so far', And(lnz >= k, unz >= k, lnz <= L.nzmax, unz <= U.nzmax)
        yield from shape(L, 'L')
        yield from shape(U, 'U')
        yield 'x is initialised', x.all(0, n, x.init, pat=lambda i: [x.st(i)])
        yield 'pinv and row_perm are inverse permutations', inverse(pinv, rp, n)
        yield 'pivotal rows', forall(lambda i: Implies(And(i >= 0, i < n), (pivs[i] < 0) == (pinv[i] >= k)), pats=lambda i: [pivs[i]])
        yield 'pivots', forall(lambda s: Implies(And(s >= 0, s < k), rho.init(s)), pats=lambda s: [rho.st(s)])
        yield 'pivots to come', forall(lambda s: Implies(And(s >= k, s < rho.obj().size), rho.st(s) == 0), pats=lambda s: [rho.st(s)])
        for nm, f in stage0(v, A, AW, q, n):
            yield nm, f
        yield 'elimination', E.holds()
        LP = named(st, z3.Store(L.p.comp('val'), k, lnz), 'Lp')
        UP = named(st, z3.Store(U.p.comp('val'), k, unz), 'Up')
        yield 'first columns', And(z3.Select(LP, 0) == 0, z3.Select(UP, 0) == 0)
        yield from cols(E, L, g['$LW'], None, LP, lnz, pinv, False)
        yield from cols(E, U, g['$UW'], None, UP, unz, pinv, True)
        yield 'U: column pointers to come', forall(lambda s: Implies(And(s > k, s <= n), z3.Select(UP, s) == 0), pats=lambda s: [z3.Select(UP, s)])
        yield from unused(L, 'L', lnz)
        yield from unused(U, 'U', unz)

    def step2(Lc):
        g = Lc.st.ghost
        k = LoopK(Lc)
        U, pinv = mats(Lc)[1], Lc.view('pinv')
        up = named(Lc.st, U.p.comp('val'), 'Up')
        pinv0 = type('Arr', (), {'__getitem__': lambda s_, t, a=g['before']['pinv']: z3.Select(a, t)})()
        P_ = lambda s: z3.Select(up, s)
        last = lambda s: U.i[P_(s + 1) - 1]
        Lc.check('the columns of U keep their last entries', forall(lambda s: Implies(And(s >= 0, s < k), And(P_(s) >= 0, P_(s + 1) >= 1, P_(s + 1) <= P_(k), last(s) >= 0, last(s) < n, pinv0[last(s)] == s)), pats=lambda s: [P_(s)]))
        Lc.check('their rows keep their position', forall(lambda s: Implies(And(s >= 0, s < k), And(P_(s) >= 0, pinv[last(s)] == s)), pats=lambda s: [P_(s)]))
        g['$LW'] = z3.Store(g['$LW'], k, g['$LWk'])
        g['$UW'] = z3.Store(g['$UW'], k, g['$UWk'])

    def LoopK(Lc):
        H = Lc.at_head()
        r = H['k']
        c.state = Lc.st
        return r
    c.loop(2, inv2, init=init2, step=step2, ghosts=['$v', '$LW', '$UW', '$LWk', '$UWk'])
    c.ghost_for['slip_ref_triangular_solve'] = lambda Lc, cc: dict(v=Lc.st.ghost['$v'], LW=Lc.st.ghost['$LW'], AW=AW, lnz=Lc['lnz'])

    def pos_fn(Lc, cc):
        a, tp = Lc.view('xi').comp('val'), Lc['top']
        return {'pos': lambda i: WH(a, tp, n, i)}
    c.ghost_for['slip_get_pivot'] = pos_fn

    def before_pivot(Lc, vals):
        Lc.st.ghost['before'] = {'rp': Lc.view('row_perm').comp('val'), 'rho': Lc.mat('rhos', 'DENSE', 'MPZ').x.comp('val'), 'pinv': Lc.view('pinv').comp('val')}
    c.hook('before', 'slip_get_pivot', before_pivot)

    def in_pattern(Lc, i):
        a, tp = Lc.view('xi').comp('val'), Lc['top']
        w = WH(a, tp, n, i)
        return And(w >= tp, w < n, z3.Select(a, w) == i)

    def after_pivot(Lc, vals, name, cc):
        st = Lc.st
        k = Lc['k']
        T = st.ghost['before']
        E = Elim(st.ghost['$v'], T['rp'], T['rho'], k)
        if name == 'ok':
            pv = Lc['pivot']
            x = Lc.mat('x', 'DENSE', 'MPZ').x
            rp2 = Lc.view('row_perm').comp('val')
            rho2 = Lc.mat('rhos', 'DENSE', 'MPZ').x.comp('val')
            Lc.check('the pivot is in the pattern', in_pattern(Lc, pv))
            Lc.check('the pivot is an entry of stage k', x[pv] == E.V(k, pv, k))
            Lc.check('earlier pivot rows are kept', forall(lambda s: Implies(And(s >= 0, s < k), And(z3.Select(rp2, s) == z3.Select(T['rp'], s), z3.Select(rho2, s) == z3.Select(T['rho'], s))), pats=lambda s: [z3.Select(rp2, s)]))
            pinv2 = Lc.view('pinv')
            Lc.check('earlier pivots keep their position', forall(lambda i: Implies(And(i >= 0, i < n, z3.Select(T['pinv'], i) < k), pinv2[i] == z3.Select(T['pinv'], i)), pats=lambda i: [pinv2[i]]))
            v2 = fresh('v')
            Lc.lemma(extend(E, v2, rp2, rho2))
            st.ghost['$v'] = v2
        if name == 'singular':
            pinv = type('Arr', (), {'__getitem__': lambda s_, t, a=T['pinv']: z3.Select(a, t)})()
            Lc.check('column k of stage k is zero', forall(lambda i: Implies(And(i >= 0, i < n, pinv[i] >= k), E.V(k, i, k) == 0), pats=lambda i: [E.V(k, i, k)]))
            Lc.lemma(singular_lemma(E, pinv, n))
    c.hook('after', 'slip_get_pivot', after_pivot)

    # ---- 3: column k of L and U
    def inv3(Lc):
        j, lnz, unz, k, tp, pv = Lc['j'], Lc['lnz'], Lc['unz'], Lc['k'], Lc['top'], Lc['pivot']
        L, U = mats(Lc)
        st = Lc.st
        v, LWk, UWk = st.ghost['$v'], st.ghost['$LWk'], st.ghost['$UWk']
        xi = Lc.view('xi')
        pinv = Lc.view('pinv')
        rp = Lc.view('row_perm')
        L0 = LoopCtx0(Lc)
        lp, up = L.p[k], U.p[k]
        lw = lambda i: z3.Select(LWk, i)
        uw = lambda i: z3.Select(UWk, i)
        w = lambda i: WH(xi.comp('val'), tp, n, i)
        seen = lambda i: And(w(i) >= tp, w(i) < j, xi[w(i)] == i)
        Li, Ui, Lx, Ux = L.i, U.i, L.x, U.x
        yield 'range', And(j >= tp, j <= n)
        yield 'entries so far', And(lnz >= lp, lnz - lp <= j - tp, unz >= up, unz - up <= j - tp)
        for M, M0, nm, e in ((L, L0[0], 'L', lp), (U, L0[1], 'U', up)):
            yield nm + ': earlier columns are kept', forall(lambda m: Implies(And(m >= 0, m < e), And(M.i[m] == M0.i[m], M.x[m] == M0.x[m])), pats=lambda m: [M.i[m], M.x[m]])
        yield 'numbers of L', forall(lambda m: Implies(And(m >= 0, m < lnz), Lx.init(m)), pats=lambda m: [Lx.st(m)])
        yield 'numbers of U', forall(lambda m: Implies(And(m >= 0, m < unz), Ux.init(m)), pats=lambda m: [Ux.st(m)])
        yield from unused(L, 'L', lnz)
        yield from unused(U, 'U', unz)
        yield 'new entries of L', forall(lambda m: Implies(And(m >= lp, m < lnz), And(Li[m] >= 0, Li[m] < n, pinv[Li[m]] >= k, Lx[m] == VF(v, k, Li[m], k), lw(Li[m]) == m, seen(Li[m]))), pats=lambda m: [Li[m]])
        yield 'new entries of U', forall(lambda m: Implies(And(m >= up, m < unz), And(Ui[m] >= 0, Ui[m] < n, pinv[Ui[m]] <= k, Ux[m] == VF(v, pinv[Ui[m]], Ui[m], k), uw(Ui[m]) == m, seen(Ui[m]))), pats=lambda m: [Ui[m]])
        yield 'rows seen are in L', forall(lambda p: Implies(And(p >= tp, p < j, pinv[xi[p]] >= k), And(lw(xi[p]) >= lp, lw(xi[p]) < lnz, Li[lw(xi[p])] == xi[p])), pats=lambda p: [xi[p]])
        yield 'rows seen are in U', forall(lambda p: Implies(And(p >= tp, p < j, pinv[xi[p]] <= k), And(uw(xi[p]) >= up, uw(xi[p]) < unz, Ui[uw(xi[p])] == xi[p])), pats=lambda p: [xi[p]])
        yield 'the pivot comes last in U', Implies(w(pv) < j, And(unz >= up + 1, Ui[unz - 1] == pv))

    def LoopCtx0(Lc):
        cc = type('S', (), {})()
        from ..engine import LoopCtx
        E0 = LoopCtx(c.eng, Lc.entry, Lc.entry, Lc.idx)
        r = (E0.mat('L', 'CSC', 'MPZ'), E0.mat('U', 'CSC', 'MPZ'))
        c.state = Lc.st
        return r

    def step3(Lc):
        H = Lc.at_head()
        j, lnz, unz, k = H['j'], H['lnz'], H['unz'], H['k']
        c.state = Lc.st
        jn = Lc.view('xi')[j]
        loc = Lc.view('pinv')[jn]
        g = Lc.st.ghost
        g['$LWk'] = z3.Store(g['$LWk'], jn, If(loc >= k, lnz, z3.Select(g['$LWk'], jn)))
        g['$UWk'] = z3.Store(g['$UWk'], jn, If(loc <= k, unz, z3.Select(g['$UWk'], jn)))

    def init3(Lc):
        # the pattern after the exchange of two rows
        k, tp, pv = Lc['k'], Lc['top'], Lc['pivot']
        xi, pinv = Lc.view('xi'), Lc.view('pinv')
        x = Lc.mat('x', 'DENSE', 'MPZ').x
        v = Lc.st.ghost['$v']
        w = WH(xi.comp('val'), tp, n, pv)
        Lc.check('rows before the pivot row go to U or L, rows after it to L', forall(lambda p: Implies(And(p >= tp, p < n, p > w), pinv[xi[p]] > k), pats=lambda p: [xi[p]]))
        Lc.check('entries of U', forall(lambda p: Implies(And(p >= tp, p < n, pinv[xi[p]] <= k), x[xi[p]] == VF(v, pinv[xi[p]], xi[p], k)), pats=lambda p: [xi[p]]))
        Lc.check('entries of L', forall(lambda p: Implies(And(p >= tp, p < n, pinv[xi[p]] >= k), x[xi[p]] == VF(v, k, xi[p], k)), pats=lambda p: [xi[p]]))
    c.loop(3, inv3, init=init3, step=step3, ghosts=['$LWk', '$UWk'])

    # ---- 4, 5: rows in pivotal order
    def permuted(nm, var):
        def inv(Lc):
            i, nz = Lc['i'], Lc[var]
            M, M0 = Lc.mat(nm, 'CSC', 'MPZ'), LoopCtx0(Lc)[0 if nm == 'L' else 1]
            pinv = Lc.view('pinv')
            yield 'range', And(i >= 0, i <= nz)
            yield 'permuted so far', forall(lambda m: Implies(And(m >= 0, m < i), M.i[m] == pinv[M0.i[m]]), pats=lambda m: [M.i[m]])
            yield 'the rest', forall(lambda m: Implies(And(m >= i, m < nz), M.i[m] == M0.i[m]), pats=lambda m: [M.i[m]])
        return inv
    c.loop(4, permuted('L', 'lnz'))
    c.loop(5, permuted('U', 'unz'))

    def nothing(rc):
        for h in (hL, hU, hr, hp):
            rc.out_null(('cell', h))

    def gh(rc, name, sort):
        return rc.st.ghost['$' + name] if rc.mode == 'check' else fresh(name, sort)

    def ok(rc):
        L = rc.out_matrix(('cell', hL), 'CSC', 'MPZ', m=n, n=n, name='L')
        U = rc.out_matrix(('cell', hU), 'CSC', 'MPZ', m=n, n=n, name='U')
        rhos = rc.out_matrix(('cell', hr), 'DENSE', 'MPZ', m=n, n=IV(1), name='rhos')
        pinv = rc.out_arr(('cell', hp), I64, n, 'pinv')
        if L is None or U is None or rhos is None or pinv is None:
            return
        v, LW, UW = gh(rc, 'v', I), gh(rc, 'LW', AI2), gh(rc, 'UW', AI2)
        if rc.mode == 'check':
            # row_perm and the witnesses as they were at the end of the loop, by position of the row
            rp, LW, UW = rc.st.ghost['rp_end'], fresh('LW', AI2), fresh('UW', AI2)
            S_ = lambda t: z3.Select(rp, t)
            rc.lemma(forall(lambda s, t: z3.And(sel2(LW, s, t) == sel2(rc.st.ghost['$LW'], s, S_(t)), sel2(UW, s, t) == sel2(rc.st.ghost['$UW'], s, S_(t))), 2, pats=lambda s, t: [sel2(LW, s, t), sel2(UW, s, t)]))
        else:
            rp = fresh('rp', AI)
        rpv = type('Arr', (), {'__getitem__': lambda s_, t: z3.Select(rp, t)})()
        rho = rhos.x
        E = Elim(v, rp, rho.comp('val'), n)
        rc.ens('pinv is a permutation, rp its inverse', inverse(pinv, rpv, n))
        rc.ens('the pivots', rho.all(0, n, rho.init, pat=lambda s: [rho.st(s)]))
        for nm, f in stage0(v, A, AW, q, n):
            rc.ens(nm, f)
        rc.ens('integer-preserving elimination through all stages', E.holds())
        if rc.mode == 'check':
            rc.ens('last entries of the columns of U are entries', forall(lambda s: Implies(And(s >= 0, s < n), And(U.p[s] >= 0, U.p[s + 1] >= 1, U.p[s + 1] <= U.p[n])), pats=lambda s: [U.p[s]]))
            rc.lemma(forall(lambda s: Implies(And(s >= 0, s < n), And(U.p[s] >= 0, U.p[s + 1] >= 1, U.p[s + 1] <= U.p[n])), pats=lambda s: [U.p[s]]))
        for nm, f in factor_L(v, rp, L, L.p[n], LW, n, n) + factor_U(v, rp, U, U.p[n], UW, n, n):
            rc.ens(nm, f)
        for M, nm in ((L, 'L'), (U, 'U')):
            rc.ens(nm + ': numbers beyond the entries are not in use', forall(lambda m: Implies(And(m >= M.p[n], m < M.x.obj().size), M.x.st(m) != 1), pats=lambda m: [M.x.st(m)]))
            rc.ens(nm + ': every number can be cleared', M.x.all(0, M.nzmax, M.x.clearable, pat=lambda m: [M.x.st(m)]))
        rc.ens('rhos: numbers beyond the pivots are not in use', forall(lambda m: Implies(And(m >= n, m < rho.obj().size), rho.st(m) == 0), pats=lambda m: [rho.st(m)]))
        for M in (L, U, rhos):
            unit_scale(rc, M)
        if rc.mode == 'check':
            rc.lemma(nonsingular_lemma(E, pinv, n))
        rc.ens('the matrix is not singular', Not(DET0(v, n)))
        if rc.mode == 'assume':
            rc.st.ghost['lu'] = dict(v=v, rp=rp, LW=LW, UW=UW, rho=rho.comp('val'), L=L, U=U, rhos=rhos, pinv=pinv, n=n)

    def singular(rc):
        nothing(rc)
        v = gh(rc, 'v', I)
        for nm, f in stage0(v, A, AW, q, n):
            rc.ens(nm, f)
        rc.ens('the determinant is zero', DET0(v, n))
        if rc.mode == 'assume':
            rc.st.ghost['singular'] = dict(v=v, q=q.at(rc.st))

    def oom(rc):
        nothing(rc)
        rc.oom()

    def exit2(Lc):
        Lc.st.ghost['rp_end'] = Lc.view('row_perm').comp('val')
    c.loops[2].exit = exit2
    return [panic, Outcome('ok', OK, init, ok), Outcome('singular', SINGULAR, init, singular), Outcome('oom', OOM, init, oom)]


def pick_fact(eng, st, vals):
    return 'main'


factorize.pick = pick_fact
FACTFNS = ['SLIP_LU_factorize']
