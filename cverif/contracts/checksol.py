"""slip_check_solution: OK exactly when A*x = b"""
from .base import *
from .matrices import allinit

WRONG = -4


def csc_ok(A, rows=None):
    """valid compressed columns with initialised numbers"""
    p, i, x = A.p, A.i, A.x
    m, n = A.m, A.n
    return And(p[0] == 0, p[n] <= A.nzmax,
               forall(lambda k: Implies(And(k >= 0, k < n), And(p[k] >= 0, p[k] <= p[k + 1], p[k + 1] <= p[n])), pats=lambda k: [p[k]]),
               forall(lambda q: Implies(And(q >= 0, q < p[n]), And(i[q] >= 0, i[q] < m)), pats=lambda q: [i[q]]),
               forall(lambda q: Implies(And(q >= 0, q < p[n]), x.st(q) == 1), pats=lambda q: [x.st(q)]))


def partial_sums(A, xd, S, COL, n, bn):
    """COL(q): column of entry q of A; S(t,q,r): sum over the first q entries of A, in row r, of A(r,COL(q)) * x(COL(q),t)"""
    p, ai, ax = A.p, A.i, A.x
    nz = p[n]
    return [
        ('columns of the entries', forall(lambda k, q: Implies(And(k >= 0, k < n, q >= p[k], q < p[k + 1]), COL(q) == k), 2, pats=lambda k, q: [(p[k], COL(q))])),
        ('sums of no entries', forall(lambda t, r: S(t, 0, r) == 0, 2, pats=lambda t, r: [S(t, 0, r)])),
        ('partial sums', forall(lambda t, q, r: Implies(And(t >= 0, t < bn, q >= 0, q < nz, r >= 0, r < n), S(t, q + 1, r) == S(t, q, r) + If(ai[q] == r, z3.ToReal(ax[q]) * xd(COL(q), t), 0)), 3, pats=lambda t, q, r: [(S(t, q, r), ai[q])])),
    ]


@contract('slip_check_solution')
def check_solution(c):
    internal(c)
    A = c.matrix('A', 'CSC', 'MPZ')
    X = c.matrix('x', 'DENSE', 'MPQ')
    Bm = c.matrix('b', 'DENSE', 'MPZ')
    c.options()
    n, bn = A.n, Bm.n
    c.req('dimensions', And(A.m == n, X.m == n, Bm.m == n, X.n == bn))
    c.req('A is valid', csc_ok(A))
    c.req('numbers are initialised', And(allinit(c, X), allinit(c, Bm)))
    p, ai, ax = A.p, A.i, A.x
    nz = p[n]
    # specification: S(t, q, r) = sum over the first q entries of A, in row r, of A(r,COL(q)) * x(COL(q),t)
    COL = c.ghost('COL', lambda: z3.Function(str(fresh('col')), I, I))
    S = c.ghost('S', lambda: z3.Function(str(fresh('Ax')), I, I, I, R))
    for nm, f in partial_sums(A, X.d, S, COL, n, bn):
        c.req(nm, f)
    col = lambda k, q: Implies(And(k >= 0, k < n, q >= p[k], q < p[k + 1]), COL(q) == k)
    step = lambda t, q, r: Implies(And(t >= 0, t < bn, q >= 0, q < nz, r >= 0, r < n), S(t, q + 1, r) == S(t, q, r) + If(ai[q] == r, z3.ToReal(ax[q]) * X.d(COL(q), t), 0))
    EQ = fresh('Ax_is_b', B)
    wr, wc = fresh('wr'), fresh('wc')
    same = lambda r, t: S(t, nz, r) == z3.ToReal(Bm.d(r, t))
    inside = lambda r, t: And(r >= 0, r < n, t >= 0, t < bn)
    # definition
    c.state.assume(Implies(EQ, forall(lambda r, t: Implies(inside(r, t), same(r, t)), 2, pats=lambda r, t: [S(t, nz, r)])))
    c.state.assume(Implies(Not(EQ), And(inside(wr, wc), Not(same(wr, wc)))))

    def b2(L):
        return L.mat('b2', 'DENSE', 'MPQ')

    def parts(L, t0, q):
        """columns before t0 are complete, column t0 has the first q entries, the others are zero"""
        M = b2(L)
        yield 'no error so far', L['info'] == OK
        yield 'numbers are initialised', M.x.all(0, M.nzmax, lambda k: And(M.x.init(k), M.x.canon(k)), pat=lambda k: [M.x.st(k), M.x[k]])
        yield 'columns so far', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < t0), M.d(r, t) == S(t, nz, r)), 2, pats=lambda r, t: [IX(r, t, n)])
        if q is not None:
            yield 'this column', forall(lambda r: Implies(And(r >= 0, r < n), M.d(r, t0) == S(t0, q, r)), pats=lambda r: [IX(r, t0, n)])
            yield 'the other columns', forall(lambda r, t: Implies(And(r >= 0, r < n, t > t0, t < bn), M.d(r, t) == 0), 2, pats=lambda r, t: [IX(r, t, n)])
        else:
            yield 'the other columns', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= t0, t < bn), M.d(r, t) == 0), 2, pats=lambda r, t: [IX(r, t, n)])

    def inv0(L):
        yield 'range', And(L['j'] >= 0, L['j'] <= bn)
        yield from parts(L, L['j'], None)

    def inv1(L):
        j, i = L['j'], L['i']
        yield 'range', And(j >= 0, j < bn, i >= 0, i <= n)
        yield from parts(L, j, p[i])

    def inv2(L):
        j, i, q = L['j'], L['i'], L['p']
        yield 'range', And(j >= 0, j < bn, i >= 0, i < n, q >= p[i], q <= p[i + 1])
        yield from parts(L, j, q)

    def head2(L):
        j, i, q = L['j'], L['i'], L['p']
        L.check('column of the entry', col(i, q))
        L.check('partial sums', Implies(q < p[i + 1], forall(lambda r: step(j, q, r), pats=lambda r: [S(j, q + 1, r)])))

    def full(L):
        M = b2(L)
        yield 'numbers are initialised', M.x.all(0, M.nzmax, lambda k: And(M.x.init(k), M.x.canon(k)), pat=lambda k: [M.x.st(k), M.x[k]])
        yield 'A*x', forall(lambda r, t: Implies(inside(r, t), M.d(r, t) == S(t, nz, r)), 2, pats=lambda r, t: [IX(r, t, n), S(t, nz, r)])

    def inv3(L):
        j = L['j']
        yield from full(L)
        yield 'range', And(j >= 0, j <= bn + 1, Implies(L['info'] == OK, j <= bn))
        yield 'equal so far', Implies(L['info'] == OK, forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < j), same(r, t)), 2, pats=lambda r, t: [S(t, nz, r)]))
        yield 'result', Or(L['info'] == OK, And(L['info'] == WRONG, Not(EQ), j >= bn))

    def inv4(L):
        j, i = L['j'], L['i']
        yield from full(L)
        yield 'range', And(j >= 0, j < bn, i >= 0, i <= n, L['info'] == OK)
        yield 'equal so far', forall(lambda r, t: Implies(And(r >= 0, r < n, t >= 0, t < j), same(r, t)), 2, pats=lambda r, t: [S(t, nz, r)])
        yield 'equal so far in this column', forall(lambda r: Implies(And(r >= 0, r < i), same(r, j)), pats=lambda r: [S(j, nz, r)])
    c.loop(0, inv0, dec=lambda L: bn - L['j'])
    c.loop(1, inv1, dec=lambda L: n - L['i'])
    c.loop(2, inv2, dec=lambda L: p[L['i'] + 1] - L['p'], head=head2)
    c.loop(3, inv3, dec=lambda L: bn + 1 - L['j'])
    c.loop(4, inv4, dec=lambda L: n - L['i'])

    def oom(rc):
        rc.oom()
    return [Outcome('ok', OK, EQ, nomod=True), Outcome('wrong', WRONG, Not(EQ), nomod=True), Outcome('oom', OOM, None, oom, nomod=True)]


CHECKSOLFNS = ['slip_check_solution']
