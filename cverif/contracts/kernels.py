"""sparse kernels"""
from .base import *

PS = z3.Function('prefix', arrsort(I), I, I)      # prefix(c, k) = c[0] + ... + c[k-1]


def prefix_def(a, k):
    """definition unfolded once at k"""
    return PS(a, k + 1) == PS(a, k) + z3.Select(a, k)


@contract('slip_cumsum')
def cumsum(c):
    n = c.val
    N = fresh('n') if c.defmode else c.args[2]
    p = c.arr('p', I64, N + 1, nullable=True)
    w = c.arr('c', I64, N, nullable=True)
    if c.defmode:
        c.params.append(N)
        c.state.assume(And(N >= 0, N < 2 ** 60))
    c.req('n is not negative', N >= 0)
    w0 = w.comp('val')
    small = And(forall(lambda k: Implies(And(k >= 0, k < N), z3.Select(w0, k) >= 0)),
                PS(w0, 0) == 0, forall(lambda k: Implies(And(k >= 0, k < N), And(prefix_def(w0, k), PS(w0, k + 1) >= 0, PS(w0, k + 1) <= 2 ** 62)), pats=lambda k: [z3.Select(w0, k)]))
    c.req('counts are not negative and their sum does not overflow', Implies(Not(w.isnull), small))
    c.mod(p)
    c.mod(w)

    def inv(L):
        i, nz = L['i'], L['nz']
        yield 'range', And(i >= 0, i <= N)
        yield 'sum', nz == PS(w0, i)
        yield 'p', forall(lambda k: Implies(And(k >= 0, k < i), p[k] == PS(w0, k)))
        yield 'c', forall(lambda k: Implies(And(k >= 0, k < i), w[k] == PS(w0, k)))
        yield 'rest', forall(lambda k: Implies(And(k >= i, k < N), w[k] == z3.Select(w0, k)))
    c.loop(0, inv, dec=lambda L: N - L['i'])

    def ok(rc):
        rc.ens('p is the prefix sum', forall(lambda k: Implies(And(k >= 0, k <= N), p[k] == PS(w0, k))))
        rc.ens('c is the prefix sum', forall(lambda k: Implies(And(k >= 0, k < N), w[k] == PS(w0, k))))
    bad = Or(p.isnull, w.isnull)
    return [Outcome('ok', OK, Not(bad), ok), Outcome('bad', INCORRECT, bad, nomod=True)]


def grown(rc, A, oldx, oldi, nz0, n0):
    """entries 0..n0-1 are kept"""
    x = rc.moved_arr(('field', A, 'x'), oldx, MPZ, nz0, 'A->x')
    i = rc.moved_arr(('field', A, 'i'), oldi, I64, nz0, 'A->i')
    if x is None or i is None:
        return None
    ox, oi = oldx.old, oldi.old
    rc.ens('values are kept', forall(lambda k: Implies(And(k >= 0, k < n0), And(x[k] == ox[k], x.st(k) == ox.st(k))), pats=lambda k: [x[k], x.st(k)]))
    rc.ens('row indices are kept', forall(lambda k: Implies(And(k >= 0, k < n0), i[k] == oi[k]), pats=lambda k: [i[k]]))
    return x, i


@contract('slip_sparse_realloc')
def sparse_realloc(c):
    internal(c)
    A = c.matrix('A', 'CSC', 'MPZ')
    nz0 = A.nzmax if c.defmode else c.state.heap[A.ptr.obj].fields['nzmax']
    x0, i0 = A.x, A.i
    c.req('nzmax is positive', nz0 >= 1)
    c.req('numbers beyond nzmax are not in use', forall(lambda k: Implies(And(k >= nz0, k < x0.obj().size), x0.st(k) != 1), pats=lambda k: [x0.st(k)]))
    c.mod(A, 'x', 'i', 'nzmax')

    def inv(L):
        p = L['p']
        M = L.mat('A', 'CSC', 'MPZ')
        x = M.x
        # the blocks were replaced by larger ones before the loop
        L0 = x.at(L.entry)
        yield 'range', And(p >= nz0, p <= 2 * nz0)
        yield 'old numbers are kept', forall(lambda k: Implies(And(k >= 0, k < nz0), x.st(k) == L0.st(k)), pats=lambda k: [x.st(k)])
        yield 'new numbers are unused', forall(lambda k: Implies(And(k >= nz0, k < p), x.st(k) == 0), pats=lambda k: [x.st(k)])
        yield 'the rest is not in use', forall(lambda k: Implies(And(k >= p, k < x.obj().size), x.st(k) == 2), pats=lambda k: [x.st(k)])
    c.loop(0, inv, dec=lambda L: 2 * nz0 - L['p'])

    def ok(rc):
        r = grown(rc, A, x0, i0, 2 * nz0, nz0)
        if r is None:
            return
        x, i = r
        rc.ens('nzmax is doubled', A.f('nzmax') == 2 * nz0)
        rc.ens('new numbers are unused', forall(lambda k: Implies(And(k >= nz0, k < 2 * nz0), x.st(k) == 0), pats=lambda k: [x.st(k)]))
        rc.ens('numbers beyond nzmax are not in use', forall(lambda k: Implies(And(k >= 2 * nz0, k < x.obj().size), x.st(k) != 1), pats=lambda k: [x.st(k)]))

    def oom(rc):
        r = grown(rc, A, x0, i0, nz0, nz0)
        if r is None:
            return
        x, i = r
        rc.ens('nzmax is not changed', A.f('nzmax') == nz0)
        rc.ens('numbers beyond nzmax are not in use', forall(lambda k: Implies(And(k >= nz0, k < x.obj().size), x.st(k) != 1), pats=lambda k: [x.st(k)]))
        rc.oom()
    return [Outcome('ok', OK, None, ok), Outcome('oom', OOM, None, oom)]


@contract('slip_sparse_collapse')
def sparse_collapse(c):
    internal(c)
    A = c.matrix('A', 'CSC', 'MPZ')
    nz0 = A.nzmax if c.defmode else c.state.heap[A.ptr.obj].fields['nzmax']
    x0, i0 = A.x, A.i
    anz = A.p[A.n]
    c.req('1 <= nnz <= nzmax', And(anz >= 1, anz <= nz0))
    c.req('numbers beyond nnz are not in use', forall(lambda k: Implies(And(k >= anz, k < x0.obj().size), x0.st(k) != 1), pats=lambda k: [x0.st(k)]))
    c.mod(A, 'x', 'i', 'nzmax')

    def ok(rc):
        r = grown(rc, A, x0, i0, anz, anz)
        if r is None:
            return
        x, i = r
        rc.ens('nzmax is nnz', A.f('nzmax') == anz)
        rc.ens('numbers beyond nzmax are not in use', forall(lambda k: Implies(And(k >= anz, k < x.obj().size), x.st(k) != 1), pats=lambda k: [x.st(k)]))
    return [Outcome('ok', OK, None, ok)]
