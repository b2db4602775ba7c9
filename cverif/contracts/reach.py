"""symbolic part of the triangular solve: depth-first search, reach"""
from .base import *

POSF = z3.Function('where', arrsort(I), I, I, I)
WH = z3.Function('pos_in', arrsort(I), I, I, I, I)


def pigeon(a, n, trig=None):
    """an injection of [0,n) into [0,n) is onto (lemma `pigeon`, proved in Lean)"""
    return Implies(And(forall(lambda t: Implies(And(t >= 0, t < n), And(z3.Select(a, t) >= 0, z3.Select(a, t) < n)), pats=lambda t: [z3.Select(a, t)]),
                       forall(lambda t, u: Implies(And(t >= 0, t < u, u < n), z3.Select(a, t) != z3.Select(a, u)), 2, pats=lambda t, u: [(z3.Select(a, t), z3.Select(a, u))])),
                   forall(lambda i: Implies(And(i >= 0, i < n), And(POSF(a, n, i) >= 0, POSF(a, n, i) < n, z3.Select(a, POSF(a, n, i)) == i)), pats=trig or (lambda i: [POSF(a, n, i)])))


def choice(a, top, n):
    """pos_in(a,top,n,i) is a position of i in a[top..n-1] when there is one (choice function)"""
    v = lambda p: WH(a, top, n, z3.Select(a, p))
    return forall(lambda p: Implies(And(p >= top, p < n), And(v(p) >= top, v(p) < n, z3.Select(a, v(p)) == z3.Select(a, p))), pats=lambda p: [z3.Select(a, p)])


class Graph:
    """the graph of L: orig is L->p without marks"""

    def __init__(self, L, orig, lnz, pinv, n):
        self.L, self.orig, self.lnz, self.pinv, self.n = L, orig, lnz, pinv, n

    def og(self, s):
        return z3.Select(self.orig, s)

    def pre(self, c):
        og, n = self.og, self.n
        Li = self.L.i
        c.req('the matrix has at least one column', n >= 1)
        c.req('column pointers of L are in range', And(self.lnz >= 0, self.lnz <= self.L.nzmax,
              forall(lambda s: Implies(And(s >= 0, s <= n), And(og(s) >= 0, og(s) <= self.lnz)), pats=lambda s: [og(s)])))
        c.req('row indices of L are in range', forall(lambda m: Implies(And(m >= 0, m < self.lnz), And(Li[m] >= 0, Li[m] < n)), pats=lambda m: [Li[m]]))
        c.req('pinv is in range', forall(lambda i: Implies(And(i >= 0, i < n), And(self.pinv[i] >= 0, self.pinv[i] < n)), pats=lambda i: [self.pinv[i]]))

    def flips(self, Lp):
        og = self.og
        return And(forall(lambda s: Implies(And(s >= 0, s <= self.n), Or(Lp[s] == og(s), Lp[s] == -og(s) - 2)), pats=lambda s: [Lp[s]]),
                   Lp[self.n] == og(self.n))

    def inrange(self, xi, top):
        n = self.n
        return And(top >= 0, top <= n, forall(lambda p: Implies(And(p >= top, p < n), And(xi[p] >= 0, xi[p] < n)), pats=lambda p: [xi[p]]))

    def distinct(self, xi, top):
        n = self.n
        return forall(lambda p, q: Implies(And(p >= top, p < q, q < n), xi[p] != xi[q]), 2, pats=lambda p, q: [(xi[p], xi[q])])

    def marked_out(self, xi, top, Lp):
        return forall(lambda p: Implies(And(p >= top, p < self.n), Lp[xi[p]] < 0), pats=lambda p: [xi[p]])

    def only_out(self, xi, top, Lp):
        n = self.n
        w = lambda i: WH(xi.comp('val'), top, n, i)
        return forall(lambda i: Implies(And(i >= 0, i < n, Lp[i] < 0), And(w(i) >= top, w(i) < n, xi[w(i)] == i)), pats=lambda i: [Lp[i]])

    def closed(self, xi, top, Lp):
        og = self.og
        Li = self.L.i
        return forall(lambda p, m: Implies(And(p >= top, p < self.n, m >= og(self.pinv[xi[p]]), m < og(self.pinv[xi[p]] + 1)), Lp[Li[m]] < 0), 2,
                      pats=lambda p, m: [(xi[p], Li[m])])

    def rclosed(self, R_):
        og, Li = self.og, self.L.i
        return forall(lambda i, m: Implies(And(i >= 0, i < self.n, R_(i), m >= og(self.pinv[i]), m < og(self.pinv[i] + 1)), R_(Li[m])), 2, pats=lambda i, m: [(R_(i), Li[m])])

    def allin(self, R_, xi, lo, hi):
        return forall(lambda p: Implies(And(p >= lo, p < hi), R_(xi[p])), pats=lambda p: [xi[p]])

    def state(self, top, xi, Lp):
        yield 'L->p is intact up to marks', self.flips(Lp)
        yield 'pattern in range', self.inrange(xi, top)
        yield 'pattern has no duplicates', self.distinct(xi, top)
        yield 'pattern is marked', self.marked_out(xi, top, Lp)
        yield 'nothing else is marked', self.only_out(xi, top, Lp)
        yield 'neighbours of the pattern are marked', self.closed(xi, top, Lp)


@contract('slip_dfs')
def dfs(c):
    internal(c)
    top = c.arr('top', I64, 1)
    j = c.val('j')
    L = c.matrix('L', 'CSC', 'MPZ')
    n = L.n
    xi = c.arr('xi', I64, n)
    ps = c.arr('pstack', I64, n)
    pinv = c.arr('pinv', I64, n, ro=True)
    orig = c.ghost('orig', lambda: fresh('orig', arrsort(I)))
    lnz = c.ghost('lnz', lambda: fresh('lnz'))
    G = Graph(L, orig, lnz, pinv, n)
    G.pre(c)
    R_ = c.ghost('R', lambda: z3.Function(str(fresh('reachable')), I, B))
    c.req('R is closed under the edges of the graph', G.rclosed(R_))
    c.req('j is in R', R_(j))
    Lp = L.p
    Li = L.i
    c.req('j is a row', And(j >= 0, j < n))
    c.req('j is not marked', Lp[j] >= 0)
    t0 = top[0]
    for nm, f in G.state(t0, xi, Lp):
        c.req('so far: ' + nm, f)
    c.req('so far: every row is in R', G.allin(R_, xi, t0, n))
    c.mod(top); c.mod(xi); c.mod(ps); c.mod(Lp)
    xi0 = xi.comp('val')
    if c.defmode:
        c.eng.lemmas.add('pigeon')

    def gs(Lc):
        return Lc.st.ghost['$pos']

    def init(Lc):
        pos = fresh('pos', arrsort(I))
        Lc.st.ghost['$pos'] = pos
        # positions of the pattern so far; the stack holds j at 0
        Lc.lemma(forall(lambda i: z3.Select(pos, i) == If(i == j, 0, WH(xi0, t0, n, i)), pats=lambda i: [z3.Select(pos, i)]))
        Lc.lemma(choice(xi0, t0, n))
        Lc.lemma(pigeon(xi0, n, lambda i: [Lp[i]]))
        Lc.check('there is room for j', t0 >= 1)

    def step(Lc):
        tp, hd = top[0], Lc['head']
        h = Lc.at_head()
        c.state = h.st
        tp0 = top[0]
        jj = xi[h['head']]
        pos = h.st.ghost['$pos']
        c.state = Lc.st
        Lc.st.ghost['$pos'] = simp0(If(tp < tp0, z3.Store(pos, jj, tp), z3.Store(pos, xi[hd], hd)))

    def inv(Lc):
        head = Lc['head']
        tp = top[0]
        pos = gs(Lc)
        P = lambda i: z3.Select(pos, i)
        yield 'stack size', And(head >= -1, head + 1 <= tp, tp <= t0)
        for nm, f in G.state(tp, xi, Lp):
            if nm not in ('nothing else is marked', 'pattern has no duplicates'):
                yield nm, f
        yield 'every row is in R', And(G.allin(R_, xi, 0, head + 1), G.allin(R_, xi, tp, n))
        yield 'stack in range', forall(lambda t: Implies(And(t >= 0, t <= head), And(xi[t] >= 0, xi[t] < n)), pats=lambda t: [xi[t]])
        yield 'positions of the pattern', forall(lambda p: Implies(And(p >= tp, p < n), P(xi[p]) == p), pats=lambda p: [xi[p]])
        yield 'positions of the stack', forall(lambda t: Implies(And(t >= 0, t <= head), P(xi[t]) == t), pats=lambda t: [xi[t]])
        yield 'stack is marked, but for its top', forall(lambda t: Implies(And(t >= 0, t < head), Lp[xi[t]] < 0), pats=lambda t: [xi[t]])
        yield 'nothing else is marked', forall(lambda i: Implies(And(i >= 0, i < n, Lp[i] < 0), And(xi[P(i)] == i, Or(And(P(i) >= 0, P(i) <= head), And(P(i) >= tp, P(i) < n)))), pats=lambda i: [Lp[i]])
        yield 'search positions', forall(lambda t: Implies(And(t >= 0, t <= head, Lp[xi[t]] < 0), And(ps[t] >= G.og(pinv[xi[t]]))), pats=lambda t: [xi[t]])
        yield 'neighbours before the search positions are marked', forall(lambda t, m: Implies(And(t >= 0, t <= head, Lp[xi[t]] < 0, m >= G.og(pinv[xi[t]]), m < ps[t]), Lp[Li[m]] < 0), 2,
                                                                           pats=lambda t, m: [(xi[t], Li[m])])
        yield 'earlier pattern is kept', forall(lambda p: Implies(And(p >= t0, p < n), xi[p] == xi.old[p]), pats=lambda p: [xi[p]])
        yield 'marks are kept', forall(lambda i: Implies(And(i >= 0, i < n, Lp.old[i] < 0), Lp[i] < 0), pats=lambda i: [Lp[i]])
        yield 'j is in the stack or in the pattern', Or(And(head >= 0, xi[0] == j), Lp[j] < 0)

    def dec(Lc):
        return 2 * top[0] - Lc['head']
    c.loop(0, inv, dec=dec, init=init, step=step, head=lambda Lc: Lc.lemma(pigeon(xi.comp('val'), n, lambda i: [Lp[i]])), ghosts=['$pos'])

    def inv1(Lc):
        # examining the neighbours of the node on top of the stack
        p, head = Lc['p'], Lc['head']
        yield 'range', And(p >= G.og(pinv[xi[head]]))
        yield 'neighbours so far are marked', forall(lambda m: Implies(And(m >= G.og(pinv[xi[head]]), m < p), Lp[Li[m]] < 0), pats=lambda m: [Li[m]])
    c.loop(1, inv1)

    def ok(rc):
        if rc.mode == 'check':
            rc.lemma(choice(xi.comp('val'), top[0], n))
        for nm, f in G.state(top[0], xi, Lp):
            rc.ens(nm, f)
        rc.ens('every row is in R', G.allin(R_, xi, top[0], n))
        rc.ens('the pattern grew', And(top[0] <= t0))
        rc.ens('earlier pattern is kept', forall(lambda p: Implies(And(p >= t0, p < n), xi[p] == xi.old[p]), pats=lambda p: [xi[p]]))
        rc.ens('j is marked', Lp[j] < 0)
        rc.ens('marks are kept', forall(lambda i: Implies(And(i >= 0, i < n, Lp.old[i] < 0), Lp[i] < 0), pats=lambda i: [Lp[i]]))
    return [Outcome('ok', None, None, ok)]


@contract('slip_reach')
def reach(c):
    internal(c)
    top = c.arr('top', I64, 1)
    L = c.matrix('L', 'CSC', 'MPZ')
    n = L.n
    A = c.matrix('A', 'CSC', 'MPZ')
    k = c.val('k')
    xi = c.arr('xi', I64, simp0(2 * n))
    pinv = c.arr('pinv', I64, n, ro=True)
    lnz = c.ghost('lnz', lambda: fresh('lnz'))
    Lp, Li = L.p, L.i
    orig = Lp.comp('val')
    G = Graph(L, orig, lnz, pinv, n)
    G.pre(c)
    c.req('k is a column of A', And(k >= 0, k < A.n))
    c.req('the column pointers of A are in range', And(A.p[k] >= 0, A.p[k + 1] <= A.nzmax))
    c.req('row indices of A are in range', forall(lambda m: Implies(And(m >= A.p[k], m < A.p[k + 1]), And(A.i[m] >= 0, A.i[m] < n)), pats=lambda m: [A.i[m]]))
    c.mod(top); c.mod(xi)
    if c.defmode:
        c.mod(Lp)       # changed meanwhile, restored at the end
    # the pattern is the smallest set that holds the rows of the column and is closed under edges: it lies in any such set R
    R_ = z3.Function(str(fresh('reachable')), I, B)
    if c.defmode:
        c.state.assume(G.rclosed(R_))
        c.state.assume(forall(lambda m: Implies(And(m >= A.p[k], m < A.p[k + 1]), R_(A.i[m])), pats=lambda m: [A.i[m]]))
    c.ghost_for['slip_dfs'] = lambda Lc, cc: dict(orig=orig, lnz=lnz, R=R_)

    def inv0(Lc):
        p = Lc['p']
        yield 'range', p >= A.p[k]
        for nm, f in G.state(top[0], xi, Lp):
            yield nm, f
        yield 'every row is in R', G.allin(R_, xi, top[0], n)
        yield 'rows of the column so far are marked', forall(lambda m: Implies(And(m >= A.p[k], m < p), Lp[A.i[m]] < 0), pats=lambda m: [A.i[m]])
    c.loop(0, inv0)
    c.state = c.state

    def inv1(Lc):
        p = Lc['p']
        t = top[0]
        w = lambda i: WH(xi.comp('val'), t, n, i)
        yield 'range', And(p >= t, p <= n)
        yield 'marks so far are removed', And(forall(lambda i: Implies(And(i >= 0, i < n), Or(Lp[i] == orig_(i), And(Lp[i] == -orig_(i) - 2, w(i) >= p, w(i) < n, xi[w(i)] == i))), pats=lambda i: [Lp[i]]), Lp[n] == orig_(n))
        yield 'pattern not visited yet is marked', forall(lambda q: Implies(And(q >= p, q < n), Lp[xi[q]] < 0), pats=lambda q: [xi[q]])
    orig_ = G.og
    c.loop(1, inv1, init=lambda Lc: None)

    def ok(rc):
        t = top[0]
        w = lambda i: WH(xi.comp('val'), t, n, i)
        rc.ens('pattern in range', G.inrange(xi, t))
        rc.ens('pattern has no duplicates', G.distinct(xi, t))
        inp = lambda i: And(w(i) >= t, w(i) < n, xi[w(i)] == i)
        rc.ens('every row of column k of A is in the pattern', forall(lambda m: Implies(And(m >= A.p[k], m < A.p[k + 1]), inp(A.i[m])), pats=lambda m: [A.i[m]]))
        rc.ens('neighbours of the pattern are in the pattern', forall(lambda p, m: Implies(And(p >= t, p < n, m >= G.og(pinv[xi[p]]), m < G.og(pinv[xi[p]] + 1)), inp(Li[m])), 2,
                      pats=lambda p, m: [(xi[p], Li[m])]))
        if rc.mode == 'check':
            rc.ens('the pattern is the smallest such set', G.allin(R_, xi, t, n))
            rc.ens('L->p is restored', forall(lambda s: Implies(And(s >= 0, s <= n), Lp[s] == G.og(s)), pats=lambda s: [Lp[s]]))
    return [Outcome('ok', None, None, ok)]


REACHFNS = ['slip_dfs', 'slip_reach']
