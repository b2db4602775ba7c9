"""the sparse integer-preserving triangular solve

V(v,s,i,j) is entry (i,j) after s elimination steps ("stage" s) on the matrix whose columns are in pivotal order and whose rows keep their
original names; v names the elimination (which rows were pivots).  BAR(v,rp,rho,k): V follows the integer-preserving elimination for the
stages below k with pivot rows rp[0..k-1] and pivots rho[s] = V(s,rp[s],s) != 0, that is (rho[-1] = 1)
    V(s+1,i,j) * rho[s-1] == rho[s] * V(s,i,j) - V(s,i,s) * V(s,rp[s],j).
Lemmas about BAR are proved in lean/Bareiss.lean.
"""
from .base import *
from .reach import Graph, WH, choice

VF = z3.Function('V', I, I, I, I, I)
BAR = z3.Function('elimination', I, arrsort(I), arrsort(I), I, B)
AI2 = arrsort(arrsort(I))


class Elim:
    def __init__(self, v, rp, rho, k):
        self.v, self.rp, self.rho_, self.k = v, rp, rho, k

    def V(self, s, i, j):
        return VF(self.v, s, i, j)

    def rho(self, s):
        s = simp0(s)
        if z3.is_int_value(s):
            return IV(1) if s.as_long() < 0 else z3.Select(self.rho_, s)
        return If(s < 0, 1, z3.Select(self.rho_, s))

    def r(self, s):
        return z3.Select(self.rp, s)

    def holds(self):
        return BAR(self.v, self.rp, self.rho_, self.k)

    def nu(self, i, s, j):
        """stage s does not change entry (i,j) but for scaling"""
        return Or(self.V(s, i, s) == 0, self.V(s, self.r(s), j) == 0)

    # -- lemmas
    def pivot(self, s):
        return Implies(And(self.holds(), s >= 0, s < self.k), And(self.rho(s) == self.V(s, self.r(s), s), self.rho(s) != 0))

    def step(self, s, i, j):
        V = self.V
        return Implies(And(self.holds(), s >= 0, s < self.k),
                       V(s + 1, i, j) * self.rho(s - 1) == self.rho(s) * V(s, i, j) - V(s, i, s) * V(s, self.r(s), j))

    def gap(self, a, b, i, j):
        V = self.V
        return Implies(And(self.holds(), a >= 0, a <= b, b <= self.k, forall(lambda s: Implies(And(s >= a, s < b), self.nu(i, s, j)))),
                       V(b, i, j) * self.rho(a - 1) == V(a, i, j) * self.rho(b - 1))

    def outside(self, inp, j, n, pinv):
        """rows outside a set that holds the entries of column j and is closed under the columns of L"""
        V = self.V
        return Implies(And(self.holds(), self.k <= n, inverse(pinv, lambda t: self.r(t), n),
                           forall(lambda i: Implies(And(i >= 0, i < n, Not(inp(i))), V(0, i, j) == 0), pats=lambda i: [V(0, i, j)]),
                           forall(lambda s, i: Implies(And(s >= 0, s < self.k, i >= 0, i < n, pinv[i] >= s, inp(self.r(s)), Not(inp(i))), V(s, i, s) == 0), 2, pats=lambda s, i: [V(s, i, s)])),
                       forall(lambda s, i: Implies(And(s >= 0, s <= self.k, i >= 0, i < n, Not(inp(i))), V(s, i, j) == 0), 2, pats=lambda s, i: [V(s, i, j)]))

    def eliminated(self, s, t, j):
        """pivot rows of earlier stages are zero"""
        return Implies(And(self.holds(), t >= 0, t < s, s <= self.k), self.V(s, self.r(t), j) == 0)


def inverse(pinv, rp, n):
    if callable(rp):
        f = rp
        rp = type('Fn', (), {'__getitem__': lambda self, t: f(t)})()
    return And(forall(lambda i: Implies(And(i >= 0, i < n), And(pinv[i] >= 0, pinv[i] < n, rp[pinv[i]] == i)), pats=lambda i: [pinv[i]]),
               forall(lambda t: Implies(And(t >= 0, t < n), And(rp[t] >= 0, rp[t] < n, pinv[rp[t]] == t)), pats=lambda t: [rp[t]]))


def cols_of_L(E, L, pinv, LW, n, lnz):
    """columns 0..k-1 of L (row names are original): the entries of stage s, column s"""
    Lp, Li, Lx = L.p, L.i, L.x
    k, V = E.k, E.V
    lw = lambda s, i: z3.Select(z3.Select(LW, s), i)
    return [
        ('column pointers of L', And(forall(lambda s: Implies(And(s >= 0, s < k), And(Lp[s] >= 0, Lp[s] <= Lp[s + 1], Lp[s + 1] <= lnz)), pats=lambda s: [Lp[s]]), Lp[k] == lnz,
                                     forall(lambda s: Implies(And(s > k, s <= n), Lp[s] == 0), pats=lambda s: [Lp[s]]))),
        ('row indices of L', forall(lambda m: Implies(And(m >= 0, m < lnz), And(Li[m] >= 0, Li[m] < n)), pats=lambda m: [Li[m]])),
        ('entries of L', forall(lambda s, m: Implies(And(s >= 0, s < k, m >= Lp[s], m < Lp[s + 1]), And(pinv[Li[m]] >= s, Lx[m] == V(s, Li[m], s), lw(s, Li[m]) == m)), 2, pats=lambda s, m: [(Lp[s], Li[m])])),
        ('no entry of L is missing', forall(lambda s, i: Implies(And(s >= 0, s < k, i >= 0, i < n, pinv[i] >= s, V(s, i, s) != 0), And(lw(s, i) >= Lp[s], lw(s, i) < Lp[s + 1], Li[lw(s, i)] == i)), 2, pats=lambda s, i: [V(s, i, s)])),
        ('numbers of L', forall(lambda m: Implies(And(m >= 0, m < lnz), L.x.init(m)), pats=lambda m: [L.x.st(m)])),
    ]


def column_of_A(E, A, col, j, AW, n):
    Ap, Ai, Ax = A.p, A.i, A.x
    aw = lambda i: AW(col, i)
    return [
        ('column pointers of A', And(Ap[col] >= 0, Ap[col] <= Ap[col + 1], Ap[col + 1] <= A.nzmax)),
        ('row indices of A', forall(lambda m: Implies(And(m >= Ap[col], m < Ap[col + 1]), And(Ai[m] >= 0, Ai[m] < n, aw(Ai[m]) == m)), pats=lambda m: [Ai[m]])),
        ('numbers of A', forall(lambda m: Implies(And(m >= Ap[col], m < Ap[col + 1]), A.x.init(m)), pats=lambda m: [A.x.st(m)])),
        ('stage 0 is A', forall(lambda m: Implies(And(m >= Ap[col], m < Ap[col + 1]), E.V(0, Ai[m], j) == Ax[m]), pats=lambda m: [Ai[m]])),
        ('stage 0 has the entries of A only', forall(lambda i: Implies(And(i >= 0, i < n, E.V(0, i, j) != 0), And(aw(i) >= Ap[col], aw(i) < Ap[col + 1], Ai[aw(i)] == i)), pats=lambda i: [E.V(0, i, j)])),
    ]


@contract('compare', tu='SLIP_LU/Source/slip_ref_triangular_solve.c')
def compare(c):
    a = c.arr('a', I64, 1, ro=True)
    b = c.arr('b', I64, 1, ro=True)
    c.req('indices are not negative', And(a[0] >= 0, b[0] >= 0))

    def ens(rc):
        rc.ens('negative exactly when a comes first', (rc.result < 0) == (a[0] < b[0]))
        rc.ens('not zero', rc.result != 0)
    return [Outcome('any', 'int', None, ens, nomod=True)]


def h_qsort(e, s, vals, ex):
    """qsort of different indices with the verified comparison: they are permuted and sorted"""
    base, cnt, sz, fn = vals
    if not isinstance(fn, FnPtr) or fn.name != 'compare' or not z3.is_int_value(simp0(sz)) or simp0(sz).as_long() != 8:
        raise Unsupported('qsort with another comparison')
    e.oblige(s, Not(base.null), 'pre', 'qsort: there is an array')
    e.typed(s, base, I64)
    o = s.wobj(base.obj)
    lo, hi = base.off, simp0(base.off + cnt)
    e.oblige(s, And(cnt >= 0, lo >= 0, hi <= o.size), 'bounds', 'qsort: the indices are in the block')
    e.called.add('compare')
    old = o.comp['val']
    O = lambda k: z3.Select(old, k)
    e.oblige(s, forall(lambda k: Implies(And(k >= lo, k < hi), O(k) >= 0), pats=lambda k: [O(k)]), 'pre', 'qsort: the indices are not negative')
    e.oblige(s, forall(lambda k, m: Implies(And(k >= lo, k < m, m < hi), O(k) != O(m)), 2, pats=lambda k, m: [(O(k), O(m))]), 'pre', 'qsort: the indices are different')
    new = fresh('sorted', old.sort())
    S = lambda k: z3.Select(new, k)
    PI = z3.Function(str(fresh('pi')), I, I)
    PJ = z3.Function(str(fresh('pj')), I, I)
    s.assume(forall(lambda k: Implies(And(k >= lo, k < hi), And(PI(k) >= lo, PI(k) < hi, PJ(PI(k)) == k, S(k) == O(PI(k)))), pats=lambda k: [S(k)]))
    s.assume(forall(lambda k: Implies(And(k >= lo, k < hi), And(PJ(k) >= lo, PJ(k) < hi, PI(PJ(k)) == k, S(PJ(k)) == O(k))), pats=lambda k: [PJ(k)]))
    s.assume(forall(lambda k: Implies(Or(k < lo, k >= hi), S(k) == O(k)), pats=lambda k: [S(k)]))
    s.assume(forall(lambda a, b: Implies(And(a >= lo, a < b, b < hi), S(a) < S(b)), 2, pats=lambda a, b: [(S(a), S(b))]))
    o.comp['val'] = new
    s.ghost['sort'] = (PI, PJ)
    return [(s, Opaque('void'))]


@contract('slip_ref_triangular_solve')
def trisolve(c):
    internal(c)
    topo = c.arr('top_output', I64, 1)
    L = c.matrix('L', 'CSC', 'MPZ')
    A = c.matrix('A', 'CSC', 'MPZ')
    n = A.n
    k = c.val('k')
    xi = c.arr('xi', I64, simp0(2 * n))
    q = c.arr('q', I64, simp0(n + 1), ro=True)
    rhos = c.matrix('rhos', 'DENSE', 'MPZ')
    pinv = c.arr('pinv', I64, n, ro=True)
    rp = c.arr('row_perm', I64, n, ro=True)
    h = c.arr('h', I64, n)
    xm = c.matrix('x', 'DENSE', 'MPZ')
    v = c.ghost('v', lambda: fresh('v'))
    LW = c.ghost('LW', lambda: fresh('LW', AI2))
    AW = c.ghost('AW', lambda: z3.Function(str(fresh('AW')), I, I, I))
    lnz = c.ghost('lnz', lambda: fresh('lnz'))
    rho = rhos.x
    x = xm.x
    E = Elim(v, rp.comp('val'), rho.comp('val'), k)
    V = E.V
    col = q[k]
    Lp, Li, Lx = L.p, L.i, L.x
    lw = lambda s, i: z3.Select(z3.Select(LW, s), i)
    c.req('sizes', And(n >= 1, n < 2 ** 60, L.n == n, k >= 0, k < n))
    c.req('column k of the permuted matrix is a column of A', And(col >= 0, col < n))
    c.req('pinv and row_perm are inverse permutations', inverse(pinv, rp, n))
    c.req('entries of L', And(lnz >= 0, lnz <= L.nzmax))
    c.req('x and rhos have n numbers', And(n <= xm.nzmax, n <= rhos.nzmax))
    c.req('x is initialised', x.all(0, n, x.init, pat=lambda i: [x.st(i)]))
    c.req('k pivots are known', forall(lambda s: Implies(And(s >= 0, s < k), rho.init(s)), pats=lambda s: [rho.st(s)]))
    c.req('elimination so far', E.holds())
    for nm, f in cols_of_L(E, L, pinv, LW, n, lnz) + column_of_A(E, A, col, k, AW, n):
        c.req(nm, f)
    c.mod(topo); c.mod(xi); c.mod(h); c.mod(x)
    Lp0 = Lp.comp('val')
    if c.defmode:
        c.eng.override['qsort'] = h_qsort
        c.eng.lemmas.update(('bareiss-pivot', 'bareiss-step', 'bareiss-gap', 'bareiss-outside'))
    c.ghost_for['slip_reach'] = lambda Lc, cc: dict(lnz=lnz)

    def W(i):
        return None
    T = {}

    def top():
        return T['top']

    def inp(i):
        """row i is in the pattern"""
        w = WH(T['xi'], T['top'], n, i)
        return And(w >= T['top'], w < n, z3.Select(T['xi'], w) == i)
    X = lambda p: z3.Select(T['xi'], p)

    # ---- 0: names to positions
    def inv0(Lc):
        j, tp = Lc['j'], Lc['top']
        x0 = xi.at(Lc.entry)
        yield 'range', And(j >= tp, j <= n)
        yield 'positions so far', forall(lambda p: Implies(And(p >= tp, p < j), xi[p] == pinv[x0[p]]), pats=lambda p: [xi[p]])
        yield 'the rest', forall(lambda p: Implies(And(p >= j, p < n), xi[p] == x0[p]), pats=lambda p: [xi[p]])

    def init0(Lc):
        T['top'] = Lc['top']
        T['xi0'] = xi.comp('val')
    c.loop(0, inv0, init=init0)

    # ---- 1: positions to names
    def inv1(Lc):
        j, tp = Lc['j'], Lc['top']
        x0 = xi.at(Lc.entry)
        yield 'range', And(j >= tp, j <= n)
        yield 'names so far', forall(lambda p: Implies(And(p >= tp, p < j), xi[p] == rp[x0[p]]), pats=lambda p: [xi[p]])
        yield 'the rest', forall(lambda p: Implies(And(p >= j, p < n), xi[p] == x0[p]), pats=lambda p: [xi[p]])
    c.loop(1, inv1)

    # ---- 2: clear x
    def init2(Lc):
        tp = Lc['top']
        T['xi'] = xi.comp('val')
        T['sorted'] = True
        PI, PJ = Lc.st.ghost['sort']
        xi0 = T['xi0']
        Lc.lemma(choice(T['xi'], tp, n))
        Lc.check('the pattern is in range', forall(lambda p: Implies(And(p >= tp, p < n), And(X(p) >= 0, X(p) < n)), pats=lambda p: [X(p)]))
        Lc.check('the pattern is sorted', forall(lambda a, b: Implies(And(a >= tp, a < b, b < n), pinv[X(a)] < pinv[X(b)]), 2, pats=lambda a, b: [(X(a), X(b))]))
        w0 = lambda i: WH(xi0, tp, n, i)
        in0 = lambda i: And(w0(i) >= tp, w0(i) < n, z3.Select(xi0, w0(i)) == i)
        Lc.check('sorting keeps the rows', forall(lambda i: Implies(And(i >= 0, i < n, in0(i)), X(PJ(w0(i))) == i), pats=lambda i: [w0(i)]))
        Lc.check('sorting keeps the pattern', forall(lambda i: Implies(And(i >= 0, i < n, in0(i)), inp(i)), pats=lambda i: [w0(i)]))
        Lc.check('the pattern has no other rows', forall(lambda p: Implies(And(p >= tp, p < n), z3.Select(xi0, PI(p)) == X(p)), pats=lambda p: [X(p)]))
        og = lambda s: z3.Select(Lp0, s)
        Lc.check('every row of the column of A is in the pattern', forall(lambda m: Implies(And(m >= A.p[col], m < A.p[col + 1]), inp(A.i[m])), pats=lambda m: [A.i[m]]))
        Lc.check('neighbours of the pattern are in the pattern', forall(lambda p, m: Implies(And(p >= tp, p < n, m >= og(pinv[X(p)]), m < og(pinv[X(p)] + 1)), inp(Li[m])), 2, pats=lambda p, m: [(X(p), Li[m])]))
        Lc.check('rows outside the pattern are zero in A', forall(lambda i: Implies(And(i >= 0, i < n, Not(inp(i))), V(0, i, k) == 0), pats=lambda i: [V(0, i, k)]))
        Lc.check('rows outside the pattern are not reached from it', forall(lambda s, i: Implies(And(s >= 0, s < k, i >= 0, i < n, pinv[i] >= s, inp(E.r(s)), Not(inp(i))), V(s, i, s) == 0), 2, pats=lambda s, i: [V(s, i, s)]))
        Lc.lemma(E.outside(inp, k, n, pinv))

    def head2(Lc):
        pass

    def inv2(Lc):
        i, tp = Lc['i'], Lc['top']
        yield 'range', And(i >= tp, i <= n)
        yield 'cleared so far', forall(lambda p: Implies(And(p >= tp, p < i), x[X(p)] == 0), pats=lambda p: [X(p)])
        yield 'x is initialised', x.all(0, n, x.init, pat=lambda i: [x.st(i)])
    c.loop(2, inv2, init=init2)

    # ---- 3: history
    def inv3(Lc):
        i, tp = Lc['i'], Lc['top']
        yield 'range', And(i >= tp, i <= n)
        yield 'history so far', forall(lambda p: Implies(And(p >= tp, p < i), h[X(p)] == -1), pats=lambda p: [X(p)])
    c.loop(3, inv3)

    # ---- 4: x = A(:,col)
    def inv4(Lc):
        i = Lc['i']
        vis = lambda r: And(AW(col, r) >= A.p[col], AW(col, r) < i, A.i[AW(col, r)] == r)
        yield 'range', And(i >= A.p[col], i <= A.p[col + 1])
        yield 'x is initialised', x.all(0, n, x.init, pat=lambda i: [x.st(i)])
        yield 'entries so far', forall(lambda r: Implies(And(r >= 0, r < n, Or(inp(r), r == col)), x[r] == If(vis(r), V(0, r, k), 0)), pats=lambda r: [x[r]])
    c.loop(4, inv4)

    cap = lambda s: If(s < k, s, k)

    def bound(p):
        return If(p > top(), pinv[X(p - 1)] + 1, 0)

    # ---- 5: the elimination
    def inv5(Lc):
        p, tp = Lc['p'], Lc['top']
        yield 'range', And(p >= tp, p <= n)
        yield 'x is initialised', x.all(0, n, x.init, pat=lambda i: [x.st(i)])
        yield 'final entries', forall(lambda r: Implies(And(r >= tp, r < p), x[X(r)] == V(cap(pinv[X(r)]), X(r), k)), pats=lambda r: [X(r)])
        yield 'history', forall(lambda r: Implies(And(r >= p, r < n), And(h[X(r)] >= -1, h[X(r)] < k, h[X(r)] < bound(p))), pats=lambda r: [X(r)])
        yield 'entries are those of the stage in the history', forall(lambda r: Implies(And(r >= p, r < n), x[X(r)] == V(h[X(r)] + 1, X(r), k)), pats=lambda r: [X(r)])
        yield 'later stages only scale', forall(lambda r, s: Implies(And(r >= p, r < n, s > h[X(r)], s < k, s < bound(p)), E.nu(X(r), s, k)), 2, pats=lambda r, s: [(X(r), E.r(s))])
        yield 'diagonal entry outside the pattern', Implies(Not(inp(col)), x[col] == 0)

    def head5(Lc):
        p = Lc['p']
        j = X(p)
        s = pinv[j]
        b = cap(s)
        Lc.lemma(E.pivot(s))
        Lc.lemma(E.pivot(b - 1))
        Lc.lemma(E.pivot(h[j]))
        Lc.check('stages between the pattern positions have zero pivot rows', Implies(p < n, forall(lambda s: Implies(And(s >= bound(p), s < b), V(s, E.r(s), k) == 0), pats=lambda s: [E.r(s)])))
        Lc.check('stages since the last update only scale', Implies(p < n, forall(lambda r, s: Implies(And(r >= p, r < n, s > h[X(r)], s < b), E.nu(X(r), s, k)), 2, pats=lambda r, s: [(X(r), E.r(s))])))
        gap, piv = E.gap(h[j] + 1, b, j, k), [E.pivot(b - 1), E.pivot(h[j])]
        Lc.lemma(gap)
        facts = Implies(p < n, And(h[j] >= -1, h[j] + 1 <= b, b <= k, x[j] == V(h[j] + 1, j, k)))
        only = Implies(p < n, forall(lambda s: Implies(And(s > h[j], s < b), E.nu(j, s, k)), pats=lambda s: [E.r(s)]))
        Lc.check('the pivot entry and its history', facts)
        Lc.check('stages of the pivot entry since the last update only scale', only)
        stages = Implies(p < n, V(b, j, k) * E.rho(h[j]) == V(h[j] + 1, j, k) * E.rho(b - 1))
        Lc.derive('stages of the pivot entry', stages, [E.holds(), facts, only, gap])
        rs = lambda t: z3.Select(rho.comp('val'), t)
        for nm, g, e in (('U', s < k, s), ('L', s >= k, k)):
            g = And(p < n, g)
            for d, f in (('history update of the pivot entry, %s, from the start', Implies(And(g, h[j] == -1, e >= 1), x[j] * rs(e - 1) == V(e, j, k))),
                         ('history update of the pivot entry, %s', Implies(And(g, h[j] >= 0), x[j] * rs(e - 1) == rs(h[j]) * V(e, j, k))),
                         ('no history update, %s', Implies(And(g, h[j] == e - 1), x[j] == V(e, j, k))),
                         ('zero entries stay zero, %s', Implies(And(g, x[j] == 0), V(e, j, k) == 0))):
                Lc.derive(d % nm, f, [E.holds(), facts, stages] + piv)
    c.loop(5, inv5, head=head5)

    def inv6(Lc):
        m, j, jn = Lc['m'], Lc['j'], Lc['jnew']
        pp = Lc['p']
        x0, h0 = x.at(Lc.entry), h.at(Lc.entry)
        yield 'range', And(m >= Lp[jn], m <= Lp[jn + 1])
        yield 'x is initialised', x.all(0, n, x.init, pat=lambda i: [x.st(i)])
        yield 'final entries', forall(lambda r: Implies(And(r >= top(), r <= pp), x[X(r)] == x0[X(r)]), pats=lambda r: [X(r)])
        yield 'pivot entry', And(x[j] == V(jn, j, k), rp[jn] == j)
        yield 'updated entries', updated(Lc, m, x, h)
        yield 'diagonal entry outside the pattern', Implies(Not(inp(col)), x[col] == 0)

    def head6(Lc):
        m, jn, j = Lc['m'], Lc['jnew'], Lc['j']
        i = Li[m]
        g = And(m < Lp[jn + 1], pinv[i] > jn)
        Lc.lemma(E.step(jn, i, k))
        Lc.lemma(E.pivot(jn))
        Lc.lemma(E.pivot(jn - 1))
        Lc.lemma(E.pivot(h[i]))
        Lc.check('entry m of L', Implies(g, And(i >= 0, i < n, Lx[m] == V(jn, i, jn), lw(jn, i) == m)))
        Lc.check('row of entry m', Implies(g, And(inp(i), WH(T['xi'], top(), n, i) > Lc['p'])))
        facts = Implies(g, And(h[i] >= -1, h[i] < jn, jn < k, x[i] == V(h[i] + 1, i, k)))
        only = Implies(g, forall(lambda s: Implies(And(s > h[i], s < jn), E.nu(i, s, k)), pats=lambda s: [E.r(s)]))
        gap, piv = E.gap(h[i] + 1, jn, i, k), [E.pivot(jn - 1), E.pivot(h[i])]
        Lc.check('its history', facts)
        Lc.check('the stages since then only scale', only)
        Lc.lemma(gap)
        stages = Implies(g, V(jn, i, k) * E.rho(h[i]) == V(h[i] + 1, i, k) * E.rho(jn - 1))
        Lc.derive('stages', stages, [E.holds(), facts, only, gap])
        rs = lambda t: z3.Select(rho.comp('val'), t)
        for d, f in (('history update of the other entry, from the start', Implies(And(g, h[i] == -1, jn >= 1), x[i] * rs(jn - 1) == V(jn, i, k))),
                     ('history update of the other entry', Implies(And(g, h[i] >= 0), x[i] * rs(jn - 1) == rs(h[i]) * V(jn, i, k))),
                     ('no history update of the other entry', Implies(And(g, h[i] == jn - 1), x[i] == V(jn, i, k))),
                     ('zero entry', Implies(And(g, x[i] == 0), V(jn, i, k) == 0))):
            Lc.derive(d, f, [E.holds(), facts, stages] + piv)
        st = rs(jn) * V(jn, i, k) - Lx[m] * x[j]
        Lc.check('elimination step', Implies(And(g, jn >= 1), V(jn + 1, i, k) * rs(jn - 1) == st))
        Lc.check('first elimination step', Implies(And(g, jn == 0), V(1, i, k) == st))
    def exit6(Lc):
        j, jn, pp = Lc['j'], Lc['jnew'], Lc['p']
        x0, h0 = x.at(Lc.entry), h.at(Lc.entry)
        done = forall(lambda r: Implies(And(r > pp, r < n), If(V(jn, X(r), jn) != 0, And(x[X(r)] == V(jn + 1, X(r), k), h[X(r)] == jn), And(x[X(r)] == x0[X(r)], h[X(r)] == h0[X(r)]))), pats=lambda r: [X(r)])
        before = forall(lambda r: Implies(And(r > pp, r < n), x0[X(r)] == V(h0[X(r)] + 1, X(r), k)), pats=lambda r: [X(r)])
        Lc.check('the stage is done', done)
        Lc.derive('the later entries are those of the stage in the history', forall(lambda r: Implies(And(r > pp, r < n), x[X(r)] == V(h[X(r)] + 1, X(r), k)), pats=lambda r: [X(r)]), [done, before])

    def init6(Lc):
        pp = Lc['p']
        Lc.check('the later entries are those of the stage in the history', forall(lambda r: Implies(And(r > pp, r < n), x[X(r)] == V(h[X(r)] + 1, X(r), k)), pats=lambda r: [X(r)]))
        Lc.check('places of the entries of L', places(Lc))

    def places(Lc):
        pp, jn = Lc['p'], Lc['jnew']
        return forall(lambda r: Implies(And(r > pp, r < n, V(jn, X(r), jn) != 0), And(lw(jn, X(r)) >= Lp[jn], lw(jn, X(r)) < Lp[jn + 1], Li[lw(jn, X(r))] == X(r))), pats=lambda r: [X(r)])

    def updated(Lc, m, xx, hh):
        pp, jn = Lc['p'], Lc['jnew']
        x0, h0 = x.at(Lc.entry), h.at(Lc.entry)
        vis = lambda i: And(V(jn, i, jn) != 0, lw(jn, i) < m)
        return forall(lambda r: Implies(And(r > pp, r < n), If(vis(X(r)), And(xx[X(r)] == V(jn + 1, X(r), k), hh[X(r)] == jn), And(xx[X(r)] == x0[X(r)], hh[X(r)] == h0[X(r)]))), pats=lambda r: [X(r)])

    def step6(Lc):
        m, pp, jn = simp0(Lc['m'] - 1), Lc['p'], Lc['jnew']
        i = Li[m]
        xh, hh = x.at(Lc.head), h.at(Lc.head)
        effect = forall(lambda r: Implies(And(r > pp, r < n), If(And(X(r) == i, V(jn, i, jn) != 0), And(x[X(r)] == V(jn + 1, X(r), k), h[X(r)] == jn, lw(jn, i) == m), And(x[X(r)] == xh[X(r)], h[X(r)] == hh[X(r)]))), pats=lambda r: [X(r)])
        Lc.check('effect of entry m', effect)
        Lc.derive('updated entries', updated(Lc, m + 1, x, h), [updated(Lc, m, xh, hh), places(Lc), effect])
    c.loop(6, inv6, init=init6, head=head6, step=step6, exit=exit6)

    def witness(Lc, b, a):
        if not Lc.has('jnew'):
            return []
        jn, j = Lc['jnew'], Lc['j']
        w = [V(cap(jn), j, k)]
        if Lc.has('i'):
            i = Lc['i']
            # dividing by the previous pivot ends an elimination step; dividing by the pivot in the history updates an entry
            if z3.is_select(b):
                t = b.arg(1)
                if t.eq(simp0(jn - 1)):
                    return [V(simp0(jn + 1), i, k)]
                if t.eq(simp0(h[i])):
                    return [V(jn, i, k)]
                if t.eq(simp0(h[j])):
                    return w
            w += [V(jn, i, k), V(jn + 1, i, k)]
        return w
    c.witness = witness

    def ok(rc):
        tp = topo[0]
        Xp = lambda p: xi[p]
        w = lambda i: WH(xi.comp('val'), tp, n, i)
        inp_ = lambda i: And(w(i) >= tp, w(i) < n, xi[w(i)] == i)
        rc.ens('the pattern is in range', And(tp >= 0, tp <= n, forall(lambda p: Implies(And(p >= tp, p < n), And(xi[p] >= 0, xi[p] < n, w(xi[p]) == p)), pats=lambda p: [xi[p]])))
        rc.ens('the pattern is in pivotal order', forall(lambda a, b: Implies(And(a >= tp, a < b, b < n), pinv[xi[a]] < pinv[xi[b]]), 2, pats=lambda a, b: [(xi[a], xi[b])]))
        rc.ens('x is initialised', x.all(0, n, x.init, pat=lambda i: [x.st(i)]))
        rc.ens('entries of the pattern', forall(lambda p: Implies(And(p >= tp, p < n), x[xi[p]] == V(cap(pinv[xi[p]]), xi[p], k)), pats=lambda p: [xi[p]]))
        rc.ens('rows outside the pattern are zero', forall(lambda s, i: Implies(And(s >= 0, s <= k, i >= 0, i < n, Not(inp_(i))), V(s, i, k) == 0), 2, pats=lambda s, i: [V(s, i, k)]))
        rc.ens('the diagonal entry outside the pattern is zero', Implies(Not(inp_(col)), x[col] == 0))

    def oom(rc):
        rc.oom()
        rc.ens('x can be cleared', x.all(0, n, x.clearable, pat=lambda i: [x.st(i)]))
    return [Outcome('ok', OK, None, ok), Outcome('oom', OOM, None, oom)]


TRIFNS = ['compare', 'slip_ref_triangular_solve']
