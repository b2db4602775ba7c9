"""AMD: the input check, the preprocessing of jumbled input, the two traversals of A (lengths, adjacency lists of A+A'), amd_order.
AMD_2 (and what lies below it) is an assumed contract."""
from .base import *
from ..lib import SSC
from .kernels import PS

AMDDIR = 'AMD/Source/'
EMPTY = -1
AMD_OK, AMD_OOM, AMD_INVALID, AMD_JUMBLED = 0, -1, -2, 1
AMD_CONTROL, AMD_INFO = 5, 20
INFO_LNZ = 9


def sizes(c, n, Ap, Ai, guard):
    """Ap has n+1 entries, Ai has Ap[n] entries"""
    c.req('Ap has n+1 entries', Implies(And(guard, n >= 0, Not(Ap.isnull)), n < Ap.obj().size))
    c.req('Ai has Ap[n] entries', Implies(And(guard, n >= 0, Not(Ap.isnull), Not(Ai.isnull), Ap[n] >= 0), Ap[n] <= Ai.obj().size))


def free_size_arr(c, name, elem):
    """array argument of unknown size, may be NULL, read only"""
    if c.defmode:
        sz = fresh(name + '.size')
        c.state.assume(sz >= 0)
        p = c._next(c.mk_arr(name, elem, sz, nullable=True))
        return View(c, p, None, name)
    p = c._next(None)
    p = c.bind_arr(name, p, elem, IV(0), True)
    return View(c, p, None, name)


def valid0(n_row, n_col, Ap, Ai):
    return And(n_row >= 0, n_col >= 0, Not(Ap.isnull), Not(Ai.isnull))


def valid(n_row, n_col, Ap, Ai):
    """column pointers are monotone from 0, row indices in range"""
    nz = Ap[n_col]
    return And(Ap[0] == 0, nz >= 0,
               forall(lambda j: Implies(And(j >= 0, j < n_col), And(Ap[j] <= Ap[j + 1], Ap[j + 1] <= nz)), pats=lambda j: [Ap[j]]),
               forall(lambda p: Implies(And(p >= 0, p < nz), And(Ai[p] >= 0, Ai[p] < n_row)), pats=lambda p: [Ai[p]]))


def sorted_(n_col, Ap, Ai):
    """row indices of every column are strictly increasing"""
    return forall(lambda j, p: Implies(And(j >= 0, j < n_col, p >= Ap[j], p + 1 < Ap[j + 1]), Ai[p] < Ai[p + 1]), 2, pats=lambda j, p: [(Ap[j], Ai[p])])


def amd_valid(elem):
    def spec(c):
        n_row, n_col = c.val('n_row'), c.val('n_col')
        Ap = free_size_arr(c, 'Ap', elem)
        Ai = free_size_arr(c, 'Ai', elem)
        sizes(c, n_col, Ap, Ai, n_row >= 0)
        v0 = valid0(n_row, n_col, Ap, Ai)
        va = And(v0, valid(n_row, n_col, Ap, Ai))
        so = sorted_(n_col, Ap, Ai)

        def colsok(j):
            return forall(lambda t: Implies(And(t >= 0, t < j), And(Ap[t] <= Ap[t + 1], Ap[t + 1] <= Ap[n_col])), pats=lambda t: [Ap[t]])

        def sortedto(j, p):
            """columns before j, and column j before position p"""
            return forall(lambda t, r: Implies(And(t >= 0, t < n_col, r >= Ap[t], r + 1 < Ap[t + 1], Or(t < j, And(t == j, r + 1 < p))), Ai[r] < Ai[r + 1]), 2, pats=lambda t, r: [(Ap[t], Ai[r])])

        def inrange(p):
            return forall(lambda r: Implies(And(r >= 0, r < p), And(Ai[r] >= 0, Ai[r] < n_row)), pats=lambda r: [Ai[r]])

        def inv(L):
            j = L['j']
            yield 'range', And(j >= 0, j <= n_col, Ap[j] >= 0, Ap[j] <= Ap[n_col])
            yield 'columns so far are valid', colsok(j)
            yield 'indices so far are in range', inrange(Ap[j])
            yield 'result so far', And(Or(L['result'] == AMD_OK, L['result'] == AMD_JUMBLED), (L['result'] == AMD_OK) == sortedto(j, Ap[j]))

        def inv1(L):
            j, p = L['j'], L['p']
            yield 'range', And(p >= Ap[j], p <= Ap[j + 1], L['p1'] == Ap[j], L['p2'] == Ap[j + 1])
            yield 'last row index', If(p == Ap[j], L['ilast'] == EMPTY, L['ilast'] == Ai[p - 1])
            yield 'indices so far are in range', inrange(p)
            yield 'result so far', And(Or(L['result'] == AMD_OK, L['result'] == AMD_JUMBLED), (L['result'] == AMD_OK) == sortedto(j, p))
        c.loop(0, inv, dec=lambda L: n_col - L['j'])
        c.loop(1, inv1, dec=lambda L: L['p2'] - L['p'])

        return [Outcome('ok', AMD_OK, None, lambda rc: rc.ens('AMD_OK: the pattern is valid and sorted', And(va, so)), nomod=True),
                Outcome('jumbled', AMD_JUMBLED, None, lambda rc: rc.ens('AMD_OK_BUT_JUMBLED: the pattern is valid, not sorted', And(va, Not(so))), nomod=True),
                Outcome('invalid', AMD_INVALID, None, lambda rc: rc.ens('AMD_INVALID: the pattern is not valid', Not(va)), nomod=True)]
    return spec


def permutation(P, n):
    return And(forall(lambda k: Implies(And(k >= 0, k < n), And(P[k] >= 0, P[k] < n)), pats=lambda k: [P[k]]),
               forall(lambda a, b: Implies(And(a >= 0, a < b, b < n), P[a] != P[b]), 2, pats=lambda a, b: [(P[a], P[b])]))


TSORT = [arrsort(I), arrsort(I), I]
COLF = z3.Function('column_of', arrsort(I), I, I)                       # column of an entry
MATCHF = z3.Function('match_of', arrsort(I), arrsort(I), I, I)          # entry with row and column exchanged, if there is one
QF = z3.Function('adjacent', arrsort(I), arrsort(I), I, I, I)           # edges of row/column v of A+A' among the first t entries
DF = z3.Function('adjacent_done', arrsort(I), arrsort(I), arrsort(I), I, I, I, I)


class Traversal:
    """the order in which amd_aat and amd_1 take the entries of A: every entry counts as an edge of A+A' once, except the diagonal and the
    lower entries that have a matching upper one.  Q(t,v): edges of v among the entries before t; T[off+c]: how far column c is done;
    D(T,off,k,v) = sum of Q(T[off+c],v) - Q(Ap[c],v) over the columns c < k"""

    def __init__(self, c, n, Ap, Ai):
        self.c, self.n, self.Ap, self.Ai = c, n, Ap, Ai
        self.ap, self.ai = Ap.comp('val'), Ai.comp('val')
        self.nz = Ap[n]

    def Q(self, t, v):
        return QF(self.ap, self.ai, t, v)

    def D(self, T, off, k, v):
        return DF(self.ap, self.ai, T, off, k, v)

    def col(self, t):
        return COLF(self.ap, t)

    def matched(self, t):
        m = MATCHF(self.ap, self.ai, t)
        return And(m >= self.Ap[self.Ai[t]], m < self.Ap[self.Ai[t] + 1], self.Ai[m] == self.col(t))

    def edge(self, t):
        return Or(self.Ai[t] < self.col(t), And(self.Ai[t] > self.col(t), Not(self.matched(t))))

    def inc(self, t, v):
        return If(self.edge(t), If(self.Ai[t] == v, 1, 0) + If(self.col(t) == v, 1, 0), IV(0))

    def start(self, L):
        """definitions (column, match, counts) and Lean: prefix-mono, sorted-global, count-steps, sum-update"""
        n, Ap, Ai, nz = self.n, self.Ap, self.Ai, self.nz
        for x in ('prefix-mono', 'sorted-global', 'count-steps', 'sum-update'):
            self.c.eng.lemmas.add(x)
        L.lemma(forall(lambda j: Implies(And(j >= 0, j <= n), Ap[j] >= 0), pats=lambda j: [Ap[j]]))
        L.lemma(forall(lambda j, p: Implies(And(j >= 0, j < n, p >= Ap[j], p < Ap[j + 1]), self.col(p) == j), 2, pats=lambda j, p: [(Ap[j], self.col(p))]))
        L.lemma(forall(lambda p: Implies(And(p >= 0, p < nz), And(self.col(p) >= 0, self.col(p) < n, p >= Ap[self.col(p)], p < Ap[self.col(p) + 1])), pats=lambda p: [self.col(p)]))
        L.lemma(forall(lambda t, q: Implies(And(t >= 0, t < nz, q >= Ap[Ai[t]], q < Ap[Ai[t] + 1], Ai[q] == self.col(t)), self.matched(t)), 2, pats=lambda t, q: [(MATCHF(self.ap, self.ai, t), Ai[q])]))
        L.lemma(forall(lambda a, b: Implies(And(a >= 0, a < b, b < nz, self.col(a) == self.col(b)), Ai[a] < Ai[b]), 2, pats=lambda a, b: [(Ai[a], Ai[b])]))
        L.lemma(forall(lambda v: self.Q(IV(0), v) == 0, pats=lambda v: [self.Q(IV(0), v)]))
        L.lemma(forall(lambda t, v: Implies(And(t >= 0, t <= nz), And(self.Q(t, v) >= 0, self.Q(t, v) <= t, self.Q(t, v) <= self.Q(nz, v))), 2, pats=lambda t, v: [self.Q(t, v)]))
        A_ = z3.Const(str(fresh('w')), arrsort(I))
        a, k, x, off, v = z3.Ints('a!ps k!ps x!ps off!ps v!ps')
        L.lemma(z3.ForAll([A_, off, v], self.D(A_, off, 0, v) == 0, patterns=[self.D(A_, off, 0, v)]))
        L.lemma(z3.ForAll([A_, a, x, off, k, v], Implies(k >= 0, self.D(z3.Store(A_, a, x), off, k, v) == self.D(A_, off, k, v) + If(And(off <= a, a < off + k), self.Q(x, v) - self.Q(z3.Select(A_, a), v), 0)),
                          patterns=[self.D(z3.Store(A_, a, x), off, k, v)]))

    def mono(self, L, k):
        """the column pointers are monotone; Lean: prefix-mono"""
        n, Ap = self.n, self.Ap
        L.lemma(Implies(And(k >= 0, k <= n), forall(lambda a: Implies(And(a >= 0, a <= n), And(Implies(a <= k, Ap[a] <= Ap[k]), Implies(a >= k, Ap[k] <= Ap[a]))), pats=lambda a: [Ap[a]])))

    def before(self, L, k):
        self.mono(L, k)
        L.check('columns of the entries before column k', forall(lambda q: Implies(And(q >= 0, q < self.Ap[k]), self.col(q) < k), pats=lambda q: [self.col(q)]))

    def count(self, L, p):
        """definition of the counts at entry p"""
        L.lemma(Implies(And(p >= 0, p < self.nz), forall(lambda v: self.Q(p + 1, v) == self.Q(p, v) + self.inc(p, v), pats=lambda v: [self.Q(p + 1, v), self.Q(p, v)])))

    def plus(self, L, T, off, k):
        """definition of D"""
        L.lemma(Implies(k >= 0, forall(lambda v: self.D(T, off, k + 1, v) == self.D(T, off, k, v) + self.Q(z3.Select(T, simp0(off + k)), v) - self.Q(self.Ap[k], v), pats=lambda v: [self.D(T, off, k + 1, v), self.D(T, off, k, v)])))

    def columns(self, L, T, off, upto, a, b):
        """Lean: sum-columns"""
        self.c.eng.lemmas.add('sum-columns')
        Ap = self.Ap
        d = lambda v: self.D(T, off, b, v) - self.D(T, off, a, v)
        L.lemma(Implies(And(a >= 0, a <= b, b <= upto, upto <= self.n, forall(lambda k: Implies(And(k >= 0, k < upto), And(Ap[k] <= z3.Select(T, simp0(off + k)), z3.Select(T, simp0(off + k)) <= Ap[k + 1])), pats=lambda k: [Ap[k]])),
                        forall(lambda v: And(0 <= d(v), d(v) <= self.Q(Ap[b], v) - self.Q(Ap[a], v)), pats=lambda v: [self.D(T, off, b, v)])))

    def places(self, T, off, k, pj=None):
        """column t is done up to T[off+t]; what is left is below the diagonal"""
        Ap, Ai = self.Ap, self.Ai
        tp = lambda t: z3.Select(T, simp0(off + t))
        return forall(lambda t: Implies(And(t >= 0, t < k), And(Ap[t] <= tp(t), tp(t) <= Ap[t + 1], Implies(tp(t) < Ap[t + 1], Ai[tp(t)] > t))), pats=lambda t: [Ap[t]])

    def passed(self, T, off, p):
        """for every upper entry (j,c) before p: column j is done beyond row c"""
        Ap, Ai = self.Ap, self.Ai
        tp = lambda t: z3.Select(T, simp0(off + t))
        return forall(lambda q: Implies(And(q >= 0, q < p, Ai[q] < self.col(q)), Implies(tp(Ai[q]) < Ap[Ai[q] + 1], Ai[tp(Ai[q])] > self.col(q))), pats=lambda q: [self.col(q)])


def amd_2(elem):
    """assumed"""
    def spec(c):
        n = c.val('n')
        Pe = c.arr('Pe', elem, n)
        iw = c._next(None)
        Len = c.arr('Len', elem, n)
        iwlen = c.val('iwlen')
        Iw = View(c, c.bind_arr('Iw', iw, elem, iwlen, False), None, 'Iw')
        pfree = c.val('pfree')
        Nv, Next, Last, Head, Elen, Degree, W = (c.arr(x, elem, n) for x in ('Nv', 'Next', 'Last', 'Head', 'Elen', 'Degree', 'W'))
        Control = c.arr('Control', F64T, AMD_CONTROL, nullable=True)
        Info = c.arr('Info', F64T, AMD_INFO, nullable=True)
        ln = Len.comp('val')
        c.req('n > 0', n > 0)
        c.req('the columns of A+A\' are stored one after another', And(forall(lambda v: Implies(And(v >= 0, v < n), And(Pe[v] == PS(ln, v), Len[v] >= 0)), pats=lambda v: [Pe[v]]), pfree == PS(ln, n)))
        c.req('there is room for n more entries', iwlen >= pfree + n)
        c.req('all rows are in range', forall(lambda q: Implies(And(q >= 0, q < pfree), And(Iw[q] >= 0, Iw[q] < n)), pats=lambda q: [Iw[q]]))
        for v in (Pe, Iw, Len, Nv, Next, Last, Head, Elen, Degree, W, Info):
            c.mod(v)

        def ok(rc):
            rc.ens('Last is a permutation', permutation(Last, n))
            rc.ens('the estimate is a size', Implies(Not(Info.isnull), And(D2I(Info[INFO_LNZ]) >= 0, D2I(Info[INFO_LNZ]) < 2 ** 62)))
        return [Outcome('ok', None, None, ok)]
    return spec


def amd_1(elem):
    def spec(c):
        n = c.val('n')
        Ap = c.arr('Ap', elem, n + 1, ro=True)
        nz = Ap[n]
        Ai = c.arr('Ai', elem, nz, ro=True)
        P = c.arr('P', elem, n)
        Pinv = c.arr('Pinv', elem, n)
        Len = c.arr('Len', elem, n)
        slen = c.val('slen')
        S = c.arr('S', elem, slen)
        Control = c.arr('Control', F64T, AMD_CONTROL, nullable=True)
        Info = c.arr('Info', F64T, AMD_INFO, nullable=True)
        tr = Traversal(c, n, Ap, Ai)
        ln = Len.comp('val')
        c.req('n > 0', n > 0)
        c.req('the pattern is valid', valid(n, n, Ap, Ai))
        c.req('the pattern is sorted', sorted_(n, Ap, Ai))
        c.req('Len holds the lengths of the columns of A+A\'', forall(lambda v: Implies(And(v >= 0, v < n), Len[v] == tr.Q(nz, v)), pats=lambda v: [Len[v]]))
        c.req('S is large enough', And(PS(ln, n) >= 0, slen >= PS(ln, n) + 7 * n))
        for v in (P, Pinv, Len, S, Info):
            c.mod(v)
        PSn = PS(ln, n)
        s_ = lambda L: S.at(L.st).comp('val')
        at = lambda L, k: z3.Select(s_(L), k)
        sp = lambda v: simp0(n + v)
        TP = simp0(5 * n)

        def start(L):
            """PS is a sum of counts that are not negative; Lean: prefix-mono"""
            c.eng.lemmas.add('prefix-mono')
            tr.start(L)
            L.lemma(PS(ln, 0) == 0)
            L.lemma(forall(lambda k: Implies(And(k >= 0, k < n), And(PS(ln, k + 1) == PS(ln, k) + Len[k], PS(ln, k) >= 0, PS(ln, k + 1) <= PSn)), pats=lambda k: [PS(ln, k), z3.Select(ln, k)]))
            L.lemma(order)

        def ptrs(L):
            j = L['j']
            yield 'range', And(j >= 0, j <= n)
            yield 'pointers so far', And(L['pfree'] == PS(ln, j), L['pfree'] >= 0, L['pfree'] <= PSn)
            yield 'columns so far', forall(lambda k: Implies(And(k >= 0, k < j), And(at(L, k) == PS(ln, k), at(L, sp(k)) == PS(ln, k))), pats=lambda k: [PS(ln, k)])

        def fixed(L):
            yield 'columns start at their places', forall(lambda k: Implies(And(k >= 0, k < n), at(L, k) == PS(ln, k)), pats=lambda k: [at(L, k)])
            yield 'size', And(L['pfree'] == PSn, L['iwlen'] == slen - 6 * n)

        def filled(L, cnt):
            """column v holds cnt(v) entries"""
            yield 'entries put into every column', forall(lambda v: Implies(And(v >= 0, v < n), And(at(L, sp(v)) == PS(ln, v) + cnt(v), cnt(v) >= 0, cnt(v) <= Len[v])), pats=lambda v: [at(L, sp(v))])
            yield 'rows put into every column', rows(s_(L))

        def rows(S_):
            f = lambda k: z3.Select(S_, simp0(k))
            return forall(lambda v, q: Implies(And(v >= 0, v < n, q >= PS(ln, v), q < f(n + v)), And(f(6 * n + q) >= 0, f(6 * n + q) < n)), 2, pats=lambda v, q: [(PS(ln, v), f(6 * n + q))])

        def wrote(L, S1, S0, i, j):
            """one edge (i,j) was put in: nothing else changes"""
            f = lambda k: z3.Select(S0, simp0(k))
            room = And(i >= 0, i < n, j >= 0, j < n, i != j, f(n + i) < PS(ln, i) + Len[i], f(n + j) < PS(ln, j) + Len[j], f(n + i) >= PS(ln, i), f(n + j) >= PS(ln, j), PS(ln, i) >= 0, PS(ln, j) >= 0)
            inside = forall(lambda v: Implies(And(v >= 0, v < n), And(PS(ln, v) >= 0, PS(ln, v) <= f(n + v), f(n + v) <= PS(ln, v) + Len[v])), pats=lambda v: [PS(ln, v)])
            L.check('there was room for the edge', room)
            L.check('no column is overfull', inside)
            L.derive('rows put into every column', rows(S1), [room, inside, order, rows(S0)])
        order = forall(lambda a, b: Implies(And(a >= 0, a < b, b < n), PS(ln, a) + z3.Select(ln, a) <= PS(ln, b)), 2, pats=lambda a, b: [(PS(ln, a), PS(ln, b))])
        loops = traversal_loops(c, tr, n, Ap, Ai, s_, TP, lambda L: fixed(L), filled, wrote)
        c.loop(0, ptrs, dec=lambda L: n - L['j'], init=start)
        for i, kw in enumerate(loops):
            c.loop(1 + i, **kw)

        def before2(L, vals):
            T = s_(L)
            owner = z3.Function(str(fresh('owner')), I, I)
            # the column whose range holds place q; Lean: count (place lemma)
            L.check('all columns are full', forall(lambda v: Implies(And(v >= 0, v < n), at(L, sp(v)) == PS(ln, v) + Len[v]), pats=lambda v: [PS(ln, v)]))
            L.lemma(forall(lambda q: Implies(And(q >= 0, q < PSn), And(owner(q) >= 0, owner(q) < n, PS(ln, owner(q)) <= q, q < PS(ln, owner(q)) + Len[owner(q)])), pats=lambda q: [at(L, simp0(6 * n + q))]))
        c.hook('before', 'amd_l2' if elem is I64 else 'amd_2', before2)

        def ok(rc):
            rc.ens('P is a permutation', permutation(P, n))
            rc.ens('the estimate is a size', Implies(Not(Info.isnull), And(D2I(Info[INFO_LNZ]) >= 0, D2I(Info[INFO_LNZ]) < 2 ** 62)))
        return [Outcome('ok', None, None, ok)]
    return spec


def traversal_loops(c, tr, n, Ap, Ai, T_, off, common, counts, wrote=None):
    """invariants of the five nested and following loops over A: counts(L, cnt) says what has been done when every v has had cnt(v) edges"""
    nz = Ap[n]

    def cols(L):
        k, T = L['k'], T_(L)
        yield 'range', And(k >= 0, k <= n, Ap[k] >= 0, Ap[k] <= nz)
        yield 'places in the columns', tr.places(T, off, k)
        yield 'columns are passed', tr.passed(T, off, Ap[k])
        for f in (common(L), counts(L, lambda v: tr.D(T, off, k, v))):
            for x in f:
                yield x

    def upper(L):
        k, p, T = L['k'], L['p'], T_(L)
        yield 'range', And(k >= 0, k < n, p >= Ap[k], p <= Ap[k + 1], L['p2'] == Ap[k + 1], Ap[k] >= 0, Ap[k + 1] <= nz)
        yield 'upper entries so far', Implies(p > Ap[k], Ai[p - 1] < k)
        yield 'places in the columns', tr.places(T, off, k)
        yield 'columns are passed', tr.passed(T, off, p)
        for f in (common(L), counts(L, lambda v: tr.D(T, off, k, v) + tr.Q(p, v) - tr.Q(Ap[k], v))):
            for x in f:
                yield x

    def lower(L):
        k, p, j, pj = L['k'], L['p'], L['j'], L['pj']
        T = T_(L)
        tj = z3.Select(T, simp0(off + j))
        yield 'range', And(k >= 0, k < n, p > Ap[k], p <= Ap[k + 1], L['p2'] == Ap[k + 1], Ap[k] >= 0, Ap[k + 1] <= nz, j >= 0, j < k, Ai[p - 1] == j, pj >= tj, pj <= Ap[j + 1],
                           Ap[j] >= 0, tj >= Ap[j], Ap[j + 1] <= nz, pj >= 0, pj <= nz, Implies(pj < L['pj2'], pj < nz), L['pj2'] == Ap[j + 1], Implies(pj < Ap[j + 1], Ai[pj] > j))
        yield 'places in the columns', tr.places(T, off, k)
        yield 'columns are passed', tr.passed(T, off, p - 1)
        for f in (common(L), counts(L, lambda v: tr.D(T, off, k, v) + tr.Q(pj, v) - tr.Q(tj, v) + tr.Q(p, v) - tr.Q(Ap[k], v))):
            for x in f:
                yield x

    def rest(L):
        j, T = L['j'], T_(L)
        yield 'range', And(j >= 0, j <= n, Ap[j] >= 0, Ap[j] <= nz)
        yield 'places in the columns', tr.places(T, off, n)
        yield 'columns are passed', tr.passed(T, off, nz)
        for f in (common(L), counts(L, lambda v: tr.D(T, off, n, v) + tr.Q(Ap[j], v) - tr.D(T, off, j, v))):
            for x in f:
                yield x

    def rest1(L):
        j, pj, T = L['j'], L['pj'], T_(L)
        tj = z3.Select(T, simp0(off + j))
        yield 'range', And(j >= 0, j < n, Ap[j] >= 0, tj >= Ap[j], pj >= tj, pj <= Ap[j + 1], Ap[j + 1] <= nz, Implies(pj < Ap[j + 1], Ai[pj] > j))
        yield 'places in the columns', tr.places(T, off, n)
        yield 'columns are passed', tr.passed(T, off, nz)
        for f in (common(L), counts(L, lambda v: tr.D(T, off, n, v) + tr.Q(Ap[j], v) - tr.D(T, off, j, v) + tr.Q(pj, v) - tr.Q(tj, v))):
            for x in f:
                yield x

    def upper_head(L):
        k, p = L['k'], L['p']
        tr.columns(L, T_(L), off, k, IV(0), k)
        tr.count(L, p)
        L.check('column of the entry', Implies(p < L['p2'], tr.col(p) == k))
        for v in (Ai[p], k):
            L.check('edges left', Implies(And(p < L['p2'], Ai[p] < k), tr.D(T_(L), off, k, v) + tr.Q(p, v) - tr.Q(Ap[k], v) + 1 <= tr.Q(nz, v)))

    def cols_head(L):
        tr.before(L, L['k'])
        tr.plus(L, T_(L), off, L['k'])
        tr.columns(L, T_(L), off, L['k'], IV(0), L['k'])

    def cols_step(L):
        k, p = simp0(L['k'] - 1), L['p']
        L.check('the others are not upper entries', forall(lambda q: Implies(And(q >= p, q < Ap[k + 1]), And(tr.col(q) == k, Ai[q] >= k)), pats=lambda q: [tr.col(q)]))
        tr.plus(L, T_(L), off, simp0(L['k'] - 1))

    def lower_head(L):
        k, p, j, pj = L['k'], L['p'], L['j'], L['pj']
        T = T_(L)
        tr.count(L, pj)
        tj = z3.Select(T, simp0(off + j))
        c.eng.lemmas.add('sum-columns')
        c.eng.lemmas.add('sum-update')
        g = pj < L['pj2']
        pos = And(j >= 0, j < k, k <= n, tj <= pj, pj <= Ap[j + 1], Ap[j] <= tj, Implies(pj < Ap[j + 1], Ai[pj] > j))
        L.check('place in column j', pos)
        sums = []
        for d in (pj, pj + 1):
            U = z3.Store(T, simp0(off + j), d)
            dv = lambda v: tr.D(T, off, k, v) + tr.Q(d, v) - tr.Q(tj, v)
            inside = forall(lambda t: Implies(And(t >= 0, t < k), And(Ap[t] <= z3.Select(U, simp0(off + t)), z3.Select(U, simp0(off + t)) <= Ap[t + 1])), pats=lambda t: [Ap[t]])
            g0 = g if d is not pj else TRUE
            L.derive('places in the columns, at this entry', Implies(g0, inside), [pos, tr.places(T, off, k), Implies(g, pj < Ap[j + 1])])
            conc = forall(lambda v: And(0 <= dv(v), dv(v) <= tr.Q(Ap[k], v)), pats=lambda v: [tr.D(T, off, k, v)])
            lem = Implies(And(j >= 0, j < k, k <= n, inside), conc)
            L.lemma(lem)
            sums.append(Implies(g0, conc))
            L.derive('edges of the columns', sums[-1], [pos, Implies(g0, inside), lem])
        L.check('column of the lower entry', Implies(g, And(tr.col(pj) == j, tr.col(p - 1) == k)))
        L.check('an entry that meets its upper one', Implies(And(g, Ai[pj] == k), tr.matched(pj)))
        m = MATCHF(tr.ap, tr.ai, pj)
        tr.mono(L, k)
        L.check('column of a match', Implies(And(g, Ai[pj] < k, tr.matched(pj)), And(tr.col(m) == Ai[pj], m < Ap[k])))
        no_match(L, j, pj, And(g, Ai[pj] < k), p - 1)
        cnt = lambda v: tr.D(T, off, k, v) + tr.Q(pj, v) - tr.Q(tj, v) + tr.Q(p, v) - tr.Q(Ap[k], v)
        for v in (Ai[pj], j):
            g1 = And(g, Ai[pj] < k)
            one = Implies(g1, tr.Q(pj + 1, v) == tr.Q(pj, v) + 1)
            L.check('the entry counts', one)
            bound = Implies(g1, And(tr.D(T, off, k, v) + tr.Q(pj + 1, v) - tr.Q(tj, v) <= tr.Q(Ap[k], v), tr.Q(p, v) <= tr.Q(nz, v)))
            most = tr.Q(p, v) <= tr.Q(nz, v)
            L.check('edges of the entries', most)
            L.derive('edges of the columns before', bound, [most, sums[1]])
            L.derive('edges left', Implies(g1, cnt(v) + 1 <= tr.Q(nz, v)), [one, bound])

    def lower_exit(L):
        k, p, j, pj = L['k'], L['p'], L['j'], L['pj']
        T = T_(L)
        U = z3.Store(T, simp0(off + j), pj)
        tj = z3.Select(T, simp0(off + j))
        pos = And(j >= 0, j < k, k <= n, tj <= pj, pj <= Ap[j + 1], Ap[j] <= tj, Implies(pj < Ap[j + 1], Ai[pj] > j))
        L.check('place in column j', pos)
        L.derive('places in the columns after the column', tr.places(U, off, k), [pos, tr.places(T, off, k)])
        L.check('columns are passed after the column', tr.passed(U, off, p))
        so = forall(lambda v: tr.D(U, off, k, v) == tr.D(T, off, k, v) + tr.Q(pj, v) - tr.Q(tj, v), pats=lambda v: [tr.D(U, off, k, v)])
        L.check('edges so far', so)
        before = [f for _, f in counts(L, lambda v: tr.D(T, off, k, v) + tr.Q(pj, v) - tr.Q(tj, v) + tr.Q(p, v) - tr.Q(Ap[k], v))]
        for nm, f in counts(L, lambda v: tr.D(U, off, k, v) + tr.Q(p, v) - tr.Q(Ap[k], v)):
            L.derive(nm + ', after the column', f, [so] + before)

    def no_match(L, j, pj, g, p):
        T = T_(L)
        tj = z3.Select(T, simp0(off + j))
        m = MATCHF(tr.ap, tr.ai, pj)
        here = Implies(g, And(j >= 0, Ai[pj] > j, tj <= pj, pj < Ap[j + 1], tr.col(pj) == j, Or(tj == pj, Ai[tj] < Ai[pj])))
        match = Implies(And(g, tr.matched(pj)), And(tr.col(m) == Ai[pj], m >= 0, m < p, Ai[m] == j))
        done = tr.passed(T, off, p)
        L.check('the entry is among those that are left', here)
        L.check('its match is an upper entry before', match)
        L.derive('an entry that has no upper one', Implies(g, Not(tr.matched(pj))), [here, match, done])

    def rest_head(L):
        T = T_(L)
        tr.plus(L, T, off, L['j'])
        tr.columns(L, T, off, n, L['j'], n)
        tr.columns(L, T, off, n, simp0(L['j'] + 1), n)

    def rest1_head(L):
        j, pj = L['j'], L['pj']
        rest_head(L)
        tr.count(L, pj)
        g = pj < Ap[j + 1]
        tj = z3.Select(T_(L), simp0(off + j))
        m = MATCHF(tr.ap, tr.ai, pj)
        L.check('column of the lower entry', Implies(g, And(tr.col(pj) == j, tr.col(tj) == j)))
        L.check('column of a match', Implies(And(g, tr.matched(pj)), And(tr.col(m) == Ai[pj], m < nz, m >= 0)))
        no_match(L, j, pj, g, nz)
        T = T_(L)
        L.lemma(Implies(And(g, pj >= 0, Ap[j + 1] <= nz), forall(lambda v: tr.Q(pj + 1, v) <= tr.Q(Ap[j + 1], v), pats=lambda v: [tr.Q(pj, v), tr.Q(pj + 1, v)])))      # count-steps
        for v in (Ai[pj], j):
            one = Implies(g, tr.Q(pj + 1, v) == tr.Q(pj, v) + 1)
            L.check('the entry counts', one)
            bound = Implies(g, And(tr.D(T, off, n, v) - tr.D(T, off, j, v) <= tr.Q(nz, v) - tr.Q(Ap[j + 1], v) + tr.Q(tj, v) - tr.Q(Ap[j], v), tr.Q(pj + 1, v) <= tr.Q(Ap[j + 1], v)))
            L.check('edges of the columns behind', bound)
            L.derive('edges left', Implies(g, tr.D(T, off, n, v) + tr.Q(Ap[j], v) - tr.D(T, off, j, v) + tr.Q(pj, v) - tr.Q(tj, v) + 1 <= tr.Q(nz, v)), [one, bound])

    def keep_step(k):
        def step(L):
            Th = T_(L.at_head())
            c.state = L.st
            T = T_(L)
            if not T.eq(Th):
                same = forall(lambda t: Implies(And(t >= 0, t < n), z3.Select(T, simp0(off + t)) == z3.Select(Th, simp0(off + t))), pats=lambda t: [z3.Select(T, simp0(off + t)), Ap[t]])
                L.check('the places stay', same)
                L.derive('places in the columns', tr.places(T, off, k(L)), [same, k(L) <= n, tr.places(Th, off, k(L))])
                if wrote:
                    wrote(L, T, Th, Ai[simp0(L['pj'] - 1)], L['j'])
        return step
    return [dict(inv=cols, dec=lambda L: n - L['k'], head=cols_head, step=cols_step), dict(inv=upper, dec=lambda L: L['p2'] - L['p'], head=upper_head),
            dict(inv=lower, dec=lambda L: L['pj2'] - L['pj'], head=lower_head, exit=lower_exit, step=keep_step(lambda L: L['k'])), dict(inv=rest, dec=lambda L: n - L['j'], head=rest_head),
            dict(inv=rest1, dec=lambda L: Ap[L['j'] + 1] - L['pj'], head=rest1_head, step=keep_step(lambda L: n))]


def amd_aat(elem):
    """Len[v] is the number of edges of v in A+A' (Traversal)"""
    def spec(c):
        n = c.val('n')
        Ap = c.arr('Ap', elem, n + 1, ro=True)
        Ai = c.arr('Ai', elem, Ap[n], ro=True)
        Len = c.arr('Len', elem, n)
        Tp = c.arr('Tp', elem, n)
        Info = c.arr('Info', F64T, AMD_INFO, nullable=True)
        c.req('n >= 0', n >= 0)
        c.req('the pattern is valid', valid(n, n, Ap, Ai))
        c.req('the pattern is sorted', sorted_(n, Ap, Ai))
        for v in (Len, Tp, Info):
            c.mod(v)
        tr = Traversal(c, n, Ap, Ai)
        nz = Ap[n]
        tp_ = lambda L: L.view('Tp').comp('val')
        len_ = lambda L: L.view('Len').comp('val')

        def info(L):
            yield 'range', And(L['i'] >= 0, L['i'] <= AMD_INFO)

        def clear(L):
            k, ln = L['k'], L.view('Len')
            yield 'range', And(k >= 0, k <= n)
            yield 'cleared so far', forall(lambda i: Implies(And(i >= 0, i < k), ln[i] == 0), pats=lambda i: [ln[i]])

        def common(L):
            yield 'diagonal entries and pairs', And(L['nzdiag'] >= 0, L['nzdiag'] <= n, L['nzboth'] >= 0, L['nzboth'] <= nz)
            if L.has('k') and L.idx in (2, 3, 4):
                yield 'diagonal entries so far', L['nzdiag'] <= L['k']
                yield 'pairs so far', L['nzboth'] <= (Ap[L['k']] if L.idx == 2 else L['p'] if L.idx == 3 else L['p'] - 1)

        def counts(L, cnt):
            ln = L.view('Len')
            yield 'edges of every column so far', forall(lambda v: Implies(And(v >= 0, v < n), And(ln[v] == cnt(v), ln[v] >= 0, ln[v] <= tr.Q(nz, v))), pats=lambda v: [ln[v]])

        def total(L):
            yield 'range', And(L['k'] >= 0, L['k'] <= n)
            yield 'sum so far', And(L['nzaat'] == PS(len_(L), L['k']), L['nzaat'] >= 0, L['nzaat'] <= PS(len_(L), n))

        def total_init(L):
            w = len_(L)
            c.eng.lemmas.add('prefix-mono')
            c.eng.lemmas.add('sum-edges')
            counted = forall(lambda v: Implies(And(v >= 0, v < n), z3.Select(w, v) == tr.Q(nz, v)), pats=lambda v: [z3.Select(w, v)])
            L.check('Len holds the lengths', counted)
            L.lemma(PS(w, 0) == 0)
            L.lemma(forall(lambda k: Implies(And(k >= 0, k < n), PS(w, k + 1) == PS(w, k) + z3.Select(w, k)), pats=lambda k: [PS(w, k), z3.Select(w, k)]))
            L.lemma(Implies(forall(lambda k: Implies(And(k >= 0, k < n), z3.Select(w, k) >= 0), pats=lambda k: [z3.Select(w, k)]), forall(lambda k: Implies(And(k >= 0, k <= n), And(PS(w, k) >= 0, PS(w, k) <= PS(w, n))), pats=lambda k: [PS(w, k)])))
            L.lemma(Implies(And(n >= 0, nz >= 0, counted), PS(w, n) <= 2 * nz))
        loops = traversal_loops(c, tr, n, Ap, Ai, tp_, IV(0), common, counts)
        c.loop(0, info, dec=lambda L: AMD_INFO - L['i'])
        c.loop(1, clear, dec=lambda L: n - L['k'], init=tr.start)
        for i, kw in enumerate(loops):
            c.loop(2 + i, **kw)
        c.loop(7, total, dec=lambda L: n - L['k'], init=total_init)

        def ok(rc):
            ln = Len.comp('val')
            rc.ens('at most two entries per entry of A', And(rc.result >= 0, rc.result <= 2 * Ap[n]))
            rc.ens('Len holds the lengths of the columns of A+A\'', forall(lambda v: Implies(And(v >= 0, v < n), Len[v] == tr.Q(nz, v)), pats=lambda v: [Len[v]]))
            rc.ens('the result is their sum', rc.result == PS(ln, n))
        return [Outcome('ok', 'int', None, ok)]
    return spec


def amd_preprocess(elem):
    """R = pattern of A' without duplicates: counting sort.  Ghosts: COL(p) column of entry p; FL(p,i) column of the last entry of row i
    among the first p (-1: none); entry p is new when its row has not occurred in its column; CNT(p,i) new entries of row i among the
    first p, the others counted as row n; P(i) first place of row i; INV(q) entry that is put at place q"""
    def spec(c):
        n = c.val('n')
        Ap = c.arr('Ap', elem, n + 1, ro=True)
        Ai = c.arr('Ai', elem, Ap[n], ro=True)
        Rp = c.arr('Rp', elem, n + 1)
        Ri = c.arr('Ri', elem, Ap[n])
        W = c.arr('W', elem, n)
        Flag = c.arr('Flag', elem, n)
        c.req('n >= 0', n >= 0)
        c.req('the pattern is valid', valid(n, n, Ap, Ai))
        c.req('the number of entries is representable', Ap[n] <= elem.range()[1])
        for v in (Rp, Ri, W, Flag):
            c.mod(v)
        nz = Ap[n]
        u = str(fresh('pp'))
        COL, P, INV = (z3.Function(t + u, I, I) for t in ('col_', 'first_', 'entry_'))
        FL, CNT = (z3.Function(t + u, I, I, I) for t in ('flag_', 'cnt_'))

        def new(p):
            return FL(p, Ai[p]) != COL(p)

        def row(p):
            return If(new(p), Ai[p], n)

        def place(p):
            return P(Ai[p]) + CNT(p, Ai[p])

        def start(L):
            L.lemma(forall(lambda j, p: Implies(And(j >= 0, j < n, p >= Ap[j], p < Ap[j + 1]), COL(p) == j), 2, pats=lambda j, p: [(Ap[j], COL(p))]))
            L.lemma(forall(lambda i: And(FL(0, i) == EMPTY, CNT(0, i) == 0), pats=lambda i: [FL(0, i), CNT(0, i)]))

        def head(L):
            """definition of FL and CNT at the next entry"""
            p = L['p']
            L.lemma(forall(lambda i: And(FL(p + 1, i) == If(Ai[p] == i, COL(p), FL(p, i)), CNT(p + 1, i) == CNT(p, i) + If(row(p) == i, 1, 0)), pats=lambda i: [FL(p + 1, i), CNT(p + 1, i)]))
            L.lemma(Implies(And(p >= Ap[L['j']], p < Ap[L['j'] + 1], L['j'] >= 0, L['j'] < n), COL(p) == L['j']))

        def history(L, p, j, w0):
            f, w = L.view('Flag'), L.view('W')
            yield 'flags', forall(lambda i: Implies(And(i >= 0, i < n), And(f[i] == FL(p, i), f[i] >= EMPTY, f[i] <= j, w[i] == w0(i) + CNT(p, i), CNT(p, i) >= 0, CNT(p, i) <= p)), pats=lambda i: [f[i], w[i]])
            yield 'columns so far', forall(lambda t: Implies(And(t >= 0, t < p), And(COL(t) >= 0, COL(t) < n, COL(t) <= j)), pats=lambda t: [COL(t)])
            yield 'new entries so far', forall(lambda t: Implies(And(t >= 0, t < p, new(t)), And(f[Ai[t]] >= COL(t), CNT(p, Ai[t]) > CNT(t, Ai[t]), CNT(t, Ai[t]) >= 0)), pats=lambda t: [Ai[t]])
            yield 'order of the new entries of a row', forall(lambda s, t: Implies(And(s >= 0, s < t, t < p, Ai[s] == Ai[t], new(s), new(t)), And(COL(s) < COL(t), CNT(s, Ai[s]) < CNT(t, Ai[t]))), 2, pats=lambda s, t: [(Ai[s], Ai[t])])

        def clear(L):
            i = L['i']
            yield 'range', And(i >= 0, i <= n)
            yield 'cleared', forall(lambda k: Implies(And(k >= 0, k < i), And(L.view('W')[k] == 0, L.view('Flag')[k] == EMPTY)), pats=lambda k: [L.view('W')[k], L.view('Flag')[k]])

        def cols(second):
            def inv(L):
                j = L['j']
                yield 'range', And(j >= 0, j <= n, Ap[j] >= 0, Ap[j] <= nz)
                for x in history(L, Ap[j], j - 1, P if second else lambda i: IV(0)):
                    yield x
                if second:
                    yield 'placed so far', placed(L, Ap[j])
            return inv

        def ents(second):
            def inv(L):
                j, p = L['j'], L['p']
                yield 'range', And(j >= 0, j < n, p >= Ap[j], p <= Ap[j + 1], L['p2'] == Ap[j + 1], Ap[j + 1] <= nz, Ap[j] >= 0)
                for x in history(L, p, j, P if second else lambda i: IV(0)):
                    yield x
                if second:
                    yield 'placed so far', placed(L, p)
            return inv

        def placed(L, p):
            ri = L.view('Ri')
            return forall(lambda t: Implies(And(t >= 0, t < p, new(t)), And(place(t) >= 0, place(t) < nz, ri[place(t)] == COL(t))), pats=lambda t: [Ai[t]])

        def counted(L):
            """all entries are counted: P is the prefix sum of the counts; Lean: count_place with J = row, n+1 rows"""
            c.eng.lemmas.add('count')
            c.eng.lemmas.add('prefix-mono')
            L.lemma(And(P(0) == 0, forall(lambda i: Implies(And(i >= 0, i <= n), P(i + 1) == P(i) + CNT(nz, i)), pats=lambda i: [CNT(nz, i), P(i)])))
            L.lemma(And(P(n + 1) == nz, forall(lambda i: Implies(And(i >= 0, i <= n), CNT(nz, i) >= 0), pats=lambda i: [CNT(nz, i)])))
            L.lemma(forall(lambda i: Implies(And(i >= 0, i <= n + 1), And(P(i) >= 0, P(i) <= nz)), pats=lambda i: [P(i)]))
            L.lemma(forall(lambda k: Implies(And(k >= 0, k < nz), And(CNT(k, row(k)) >= 0, P(row(k)) + CNT(k, row(k)) < P(row(k) + 1))), pats=lambda k: [Ai[k]]))
            L.lemma(forall(lambda k, t: Implies(And(t >= 0, t < k, k < nz), P(row(k)) + CNT(k, row(k)) != P(row(t)) + CNT(t, row(t))), 2, pats=lambda k, t: [(Ai[k], Ai[t])]))
            L.lemma(forall(lambda q: Implies(And(q >= 0, q < nz), And(INV(q) >= 0, INV(q) < nz, P(row(INV(q))) + CNT(INV(q), row(INV(q))) == q, Ai[INV(q)] >= 0, Ai[INV(q)] < n)), pats=lambda q: [INV(q)]))
            L.lemma(forall(lambda a, b: Implies(And(a >= 0, a <= b, b <= n + 1), P(a) <= P(b)), 2, pats=lambda a, b: [(P(a), P(b))]))

        def ptrs(L):
            i, rp = L['i'], L.view('Rp')
            w = L.view('W')
            yield 'range', And(i >= 0, i <= n)
            yield 'pointers so far', forall(lambda k: Implies(And(k >= 0, k <= i), rp[k] == P(k)), pats=lambda k: [rp[k]])
            yield 'counts', forall(lambda k: Implies(And(k >= 0, k < n), w[k] == CNT(nz, k)), pats=lambda k: [w[k]])

        def reset(L):
            i, rp = L['i'], L.view('Rp')
            w, f = L.view('W'), L.view('Flag')
            yield 'range', And(i >= 0, i <= n)
            yield 'reset so far', forall(lambda k: Implies(And(k >= 0, k < i), And(w[k] == rp[k], f[k] == EMPTY)), pats=lambda k: [w[k], f[k]])

        def finish(L):
            rp, ri = L.view('Rp'), L.view('Ri')
            L.check('rows are filled', forall(lambda q: Implies(And(q >= 0, q < P(n)), And(new(INV(q)), Ai[INV(q)] >= 0, Ai[INV(q)] < n, place(INV(q)) == q, P(Ai[INV(q)]) <= q, q < P(Ai[INV(q)] + 1), COL(INV(q)) >= 0, COL(INV(q)) < n, ri[q] == COL(INV(q)))), pats=lambda q: [ri[q]]))
            L.check('rows of places', forall(lambda i, q: Implies(And(i >= 0, i < n, q >= P(i), q < P(i + 1)), Ai[INV(q)] == i), 2, pats=lambda i, q: [(rp[i], ri[q])]))
        c.loop(0, clear, dec=lambda L: n - L['i'], init=start)
        c.loop(1, cols(False), dec=lambda L: n - L['j'])
        c.loop(2, ents(False), dec=lambda L: L['p2'] - L['p'], head=head)
        def ptrs_head(L):
            i = L['i']
            L.check('next pointer', Implies(i < n, And(P(i + 1) == P(i) + CNT(nz, i), P(i + 1) >= 0, P(i + 1) <= nz, L.view('Rp')[i] == P(i), L.view('W')[i] == CNT(nz, i))))

        c.loop(3, ptrs, dec=lambda L: n - L['i'], init=counted, head=ptrs_head)
        c.loop(4, reset, dec=lambda L: n - L['i'])
        c.loop(5, cols(True), dec=lambda L: n - L['j'], exit=finish)
        def put_head(L):
            head(L)
            p = L['p']
            L.check('place of a new entry', Implies(And(p < L['p2'], new(p)), And(L.view('W')[Ai[p]] == place(p), place(p) >= 0, place(p) < nz)))

        c.loop(6, ents(True), dec=lambda L: L['p2'] - L['p'], head=put_head)

        def ok(rc):
            rc.ens('R is valid', And(valid(n, n, Rp, Ri)))
            rc.ens('R is sorted', sorted_(n, Rp, Ri))
            rc.ens('R has at most as many entries as A', Rp[n] <= Ap[n])
        return [Outcome('ok', None, None, ok)]
    return spec


def amd_order(elem, tag):
    imax = elem.range()[1]

    def spec(c):
        n = c.val('n')
        Ap = free_size_arr(c, 'Ap', elem)
        Ai = free_size_arr(c, 'Ai', elem)
        P = c.arr('P', elem, If(n > 0, n, IV(0)), nullable=True)
        Control = c.arr('Control', F64T, AMD_CONTROL, nullable=True)
        Info = c.arr('Info', F64T, AMD_INFO, nullable=True)
        sizes(c, n, Ap, Ai, TRUE)
        c.req('n+1 is representable', n < imax)
        c.mod(P); c.mod(Info)
        if c.defmode:
            c.state.ghost['init'] = TRUE
        va = And(valid0(n, n, Ap, Ai), Not(P.isnull), Or(n == 0, valid(n, n, Ap, Ai)))
        so = sorted_(n, Ap, Ai)
        def clear(L):
            yield 'range', And(L['i'] >= 0, L['i'] <= AMD_INFO)
            yield 'cleared so far', forall(lambda k: Implies(And(k >= 0, k < L['i']), Info[k] == I2D(IV(EMPTY))), pats=lambda k: [Info[k]])
        c.loop(0, clear, dec=lambda L: AMD_INFO - L['i'])

        def slen(L):
            i = L['i']
            yield 'range', And(i >= 0, i <= 7)
            yield 'space so far', (And(L['ok'] != 0, L['slen'] == L['nzaat'] + L['nzaat'] / 5 + i * n))
        c.loop(1, slen, dec=lambda L: 7 - L['i'])

        def done(rc):
            rc.ens('P is a permutation', Implies(n > 0, permutation(P, n)))
            rc.ens('the estimate is a size', Implies(And(n > 0, Not(Info.isnull)), And(D2I(Info[INFO_LNZ]) >= 0, D2I(Info[INFO_LNZ]) < 2 ** 62)))
            rc.ens('there is no estimate for n = 0', Implies(And(n == 0, Not(Info.isnull)), Info[INFO_LNZ] == I2D(IV(EMPTY))))
            stat(rc, AMD_OK if rc.name == 'ok' else AMD_JUMBLED)

        def stat(rc, s):
            rc.ens('Info holds the status', Implies(Not(Info.isnull), Info[0] == I2D(IV(s))))

        def keepP(rc):
            rc.ens('P is not modified', Implies(Not(P.isnull), forall(lambda k: Implies(And(k >= 0, k < P.obj().size), P[k] == P.old[k]), pats=lambda k: [P[k]])))

        def invalid(rc):
            stat(rc, AMD_INVALID)
            keepP(rc)

        def oom(rc):
            stat(rc, AMD_OOM)
            # (or too large for the integer type)
            rc.ens('AMD_OUT_OF_MEMORY only when an allocation failed or the problem is too large', Or(rc.st.ghost.get('oom', FALSE), 3 * Ap[n] + 7 * n >= min(imax, 2 ** 61) - 7)) if rc.mode == 'check' else None
            if rc.mode == 'assume':
                rc.st.ghost['oom'] = TRUE
        return [Outcome('ok', AMD_OK, And(va, Or(n == 0, so)), done), Outcome('jumbled', AMD_JUMBLED, And(va, n > 0, Not(so)), done),
                Outcome('invalid', AMD_INVALID, Not(va), invalid), Outcome('oom', AMD_OOM, And(va, n > 0), oom)]
    return spec


AMDFNS = []
for _l, _e, _d in (('', I32, ()), ('l_', I64, ('-DDLONG',))):
    contract('amd_%svalid' % _l, tu=AMDDIR + 'amd_valid.c', defs=_d)(amd_valid(_e))
    contract('amd_%spreprocess' % _l, tu=AMDDIR + 'amd_preprocess.c', defs=_d)(amd_preprocess(_e))
    contract('amd_%saat' % _l if _l else 'amd_aat', tu=AMDDIR + 'amd_aat.c', defs=_d)(amd_aat(_e))
    contract('amd_l2' if _l else 'amd_2', tu=AMDDIR + 'amd_2.c', defs=_d, trusted='assumed')(amd_2(_e))
    contract('amd_l1' if _l else 'amd_1', tu=AMDDIR + 'amd_1.c', defs=_d)(amd_1(_e))
    contract('amd_%sorder' % _l, tu=AMDDIR + 'amd_order.c', defs=_d)(amd_order(_e, _l))
    AMDFNS += ['amd_%svalid' % _l, 'amd_%spreprocess' % _l, 'amd_%saat' % _l, 'amd_l1' if _l else 'amd_1', 'amd_%sorder' % _l]
