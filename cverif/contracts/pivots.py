"""pivot selection"""
from .base import *

SMALLEST, DIAGONAL, FIRST_NONZERO, TOL_SMALLEST, TOL_LARGEST, LARGEST = range(6)


def zabs(v):
    return If(v >= 0, v, -v)


class Pat:
    """pattern xi[top..n-1] of distinct rows; POS gives the position of a row"""

    def __init__(self, xi, top, n, pos):
        self.xi, self.top, self.n, self.pos = xi, top, n, pos

    def has(self, i):
        q = self.pos(i)
        return And(i >= 0, i < self.n, q >= self.top, q < self.n, self.xi[q] == i)

    def ok(self):
        xi, top, n = self.xi, self.top, self.n
        return And(top >= 0, top <= n, forall(lambda p: Implies(And(p >= top, p < n), And(xi[p] >= 0, xi[p] < n, self.pos(xi[p]) == p)), pats=lambda p: [xi[p]]))


def pivot_params(c):
    pivot = c.arr('pivot', I64, 1)
    x = c.matrix('x', 'DENSE', 'MPZ')
    pivs_n = fresh('n') if c.defmode else c.args[3]
    if c.defmode:
        c.state.assume(And(pivs_n >= 0, pivs_n < 2 ** 60))
    pivs = c.arr('pivs', I64, pivs_n, ro=True)
    n = pivs_n
    if c.defmode:
        c.params.append(n)
    else:
        c.idx += 1
    top = c.val('top')
    xi = c.arr('xi', I64, n, ro=True)
    pos = c.ghost('pos', lambda: z3.Function(str(fresh('pos')), I, I))
    P = Pat(xi, top, n, pos)
    X = x.x
    c.req('n is not negative', n >= 0)
    c.req('the pattern lists distinct rows', P.ok())
    c.req('x has n numbers', n <= x.nzmax)
    c.req('x is initialised', X.all(0, n, X.init, pat=lambda k: [X.st(k)]))
    return pivot, x, pivs, n, top, xi, P


def elig(x, pivs, i):
    return And(pivs[i] < 0, x[i] != 0)


def selection(kind):
    def spec(c):
        internal(c)
        pivot, xm, pivs, n, top, xi, P = pivot_params(c)
        x = xm.x
        c.mod(pivot)
        el = lambda p: elig(x, pivs, xi[p])
        piv = lambda: pivot[0]

        def none_in(lo, hi):
            return forall(lambda p: Implies(And(p >= lo, p < hi), Not(el(p))), pats=lambda p: [xi[p]])

        def chosen():
            return And(P.has(piv()), elig(x, pivs, piv()))

        if kind == 'smallest':
            def inv0(L):
                flag, j, s = L['flag'], L['j'], L.view('small')
                yield 'the temporary number is initialised', s.init()
                yield 'position', Or(flag == -4, And(flag >= top, flag <= n))
                yield 'nothing found yet', Implies(flag >= 0, And(piv() == -1, j == n, s.v == 0, none_in(top, flag)))
                yield 'first candidate found', Implies(flag < 0, And(j >= top, j < n, piv() == xi[j], el(j), P.has(piv()), s.v == x[piv()], none_in(top, j)))
            c.loop(0, inv0, dec=lambda L: If(L['flag'] < 0, IV(0), n - L['flag'] + 1))

            def inv1(L):
                i, j, s = L['i'], L['j'], L.view('small')
                yield 'the temporary number is initialised', s.init()
                yield 'position', And(i >= j, i <= n, j >= top, none_in(top, j))
                yield 'nothing found', Implies(piv() == -1, j == n)
                yield 'smallest so far', Implies(piv() != -1, And(chosen(), s.v == x[piv()],
                      forall(lambda p: Implies(And(p >= j, p < i, el(p)), zabs(x[piv()]) <= zabs(x[xi[p]])), pats=lambda p: [xi[p]])))
            c.loop(1, inv1, dec=lambda L: n - L['i'])
        elif kind == 'largest':
            def inv(L):
                i, s = L['i'], L.view('big')
                yield 'the temporary number is initialised', s.init()
                yield 'position', And(i >= top, i <= n)
                yield 'nothing found', Implies(piv() == -1, And(s.v == 0, none_in(top, i)))
                yield 'largest so far', Implies(piv() != -1, And(chosen(), s.v == x[piv()],
                      forall(lambda p: Implies(And(p >= top, p < i, el(p)), zabs(x[piv()]) >= zabs(x[xi[p]])), pats=lambda p: [xi[p]])))
            c.loop(0, inv, dec=lambda L: n - L['i'])
        else:
            def inv(L):
                i = L['i']
                yield 'position', And(i >= top, i <= n)
                yield 'nothing found', And(piv() == -1, none_in(top, i))
            c.loop(0, inv, dec=lambda L: n - L['i'])

        def ok(rc):
            rc.ens('the pivot is a nonzero entry of the pattern in a row that is not pivotal', chosen())
            if kind == 'smallest':
                rc.ens('no eligible entry is smaller', forall(lambda p: Implies(And(p >= top, p < n, el(p)), zabs(x[piv()]) <= zabs(x[xi[p]])), pats=lambda p: [xi[p]]))
            elif kind == 'largest':
                rc.ens('no eligible entry is larger', forall(lambda p: Implies(And(p >= top, p < n, el(p)), zabs(x[piv()]) >= zabs(x[xi[p]])), pats=lambda p: [xi[p]]))
            else:
                rc.ens('no eligible entry comes first', none_in(top, P.pos(piv())))

        def singular(rc):
            rc.ens('no entry is eligible', none_in(top, n))

        def oom(rc):
            rc.oom()
        return [Outcome('ok', OK, None, ok), Outcome('singular', SINGULAR, None, singular)] + \
            [Outcome('oom', OOM, None, oom)]
    return spec


contract('slip_get_smallest_pivot')(selection('smallest'))
contract('slip_get_largest_pivot')(selection('largest'))
contract('slip_get_nonzero_pivot')(selection('nonzero'))

from ..prims import D2R, FINITE


@contract('slip_get_pivot')
def get_pivot(c):
    internal(c)
    pivot, xm, pivs, n, top, xi, P = pivot_params(c)
    for v, ro in list(c.views):
        if v is pivs:
            c.views.remove((v, ro))
            c.views.append((v, False))
    x = xm.x
    col, k = c.val('col'), c.val('k')
    rhos = c.matrix('rhos', 'DENSE', 'MPZ')
    pinv = c.arr('pinv', I64, n)
    rp = c.arr('row_perm', I64, n)
    opt = c.options()
    c.req('col and k are in range', And(col >= 0, col < n, k >= 0, k < n))
    c.req('rhos has room', n <= rhos.nzmax)
    c.req('the k-th pivot is not in use', rhos.x.isnullnum(k))
    inv_ = lambda pinv, rp: And(forall(lambda i: Implies(And(i >= 0, i < n), And(pinv[i] >= 0, pinv[i] < n, rp[pinv[i]] == i)), pats=lambda i: [pinv[i]]),
                                forall(lambda t: Implies(And(t >= 0, t < n), And(rp[t] >= 0, rp[t] < n, pinv[rp[t]] == t)), pats=lambda t: [rp[t]]))
    c.req('pinv and row_perm are inverse permutations', inv_(pinv, rp))
    if not isinstance(opt.f('tol'), Undef):
        c.req('the tolerance is finite', Or(opt.isnull, FINITE(opt.f('tol'))))
    for f in ('smallest', 'largest', 'nonzero'):
        c.ghost_for['slip_get_%s_pivot' % f] = lambda L, cc: {'pos': P.pos}
    order = If(opt.isnull, IV(TOL_SMALLEST), opt.f('pivot'))
    tolv = If(opt.isnull, z3.RealVal(1), D2R(opt.f('tol')))
    c.mod(pivot); c.mod(pivs); c.mod(pinv); c.mod(rp)
    c.mod(View(c, rhos.x.ptr, None, 'rhos', rhos.nzmax))
    el0 = lambda i: And(pivs.old[i] < 0, x[i] != 0)
    elp = lambda p: el0(xi[p])

    def ok(rc):
        pv = pivot[0]
        rc.ens('the pivot is in range', And(pv >= 0, pv < n))
        rc.ens('the pivot row is not yet pivotal and its entry is not zero', el0(pv))
        rc.ens('the pivot is in the pattern or on the diagonal', Or(P.has(pv), pv == col))
        small = lambda i: forall(lambda p: Implies(And(p >= top, p < n, elp(p)), zabs(x[i]) <= zabs(x[xi[p]])), pats=lambda p: [xi[p]])
        large = lambda i: forall(lambda p: Implies(And(p >= top, p < n, elp(p)), zabs(x[i]) >= zabs(x[xi[p]])), pats=lambda p: [xi[p]])
        dg = el0(col)
        R_ = z3.ToReal
        rc.ens('SLIP_SMALLEST: the smallest entry', Implies(order == SMALLEST, small(pv)))
        rc.ens('SLIP_LARGEST: the largest entry', Implies(order == LARGEST, large(pv)))
        rc.ens('SLIP_FIRST_NONZERO: the first entry', Implies(order == FIRST_NONZERO, forall(lambda p: Implies(And(p >= top, p < P.pos(pv)), Not(elp(p))), pats=lambda p: [xi[p]])))
        rc.ens('SLIP_DIAGONAL: the diagonal entry when it is eligible, else the smallest', Implies(order == DIAGONAL, If(dg, pv == col, small(pv))))
        # tolerance options: the reference entry is the smallest (largest) one
        rc.ens('SLIP_TOL_SMALLEST: the diagonal entry only within the tolerance, else the smallest',
               Implies(order == TOL_SMALLEST, And(Or(small(pv), And(pv == col, dg)),
                       forall(lambda p: Implies(And(p >= top, p < n, elp(p), small(xi[p]), dg, R_(zabs(x[xi[p]])) >= tolv * R_(zabs(x[col]))), pv == col), pats=lambda p: [xi[p]]),
                       forall(lambda p: Implies(And(p >= top, p < n, elp(p), small(xi[p]), dg, R_(zabs(x[xi[p]])) < tolv * R_(zabs(x[col]))), small(pv)), pats=lambda p: [xi[p]]))))
        rc.ens('SLIP_TOL_LARGEST: the diagonal entry only within the tolerance, else the largest',
               Implies(order == TOL_LARGEST, And(Or(large(pv), And(pv == col, dg)),
                       forall(lambda p: Implies(And(p >= top, p < n, elp(p), large(xi[p]), dg, R_(zabs(x[col])) >= tolv * R_(zabs(x[xi[p]]))), pv == col), pats=lambda p: [xi[p]]),
                       forall(lambda p: Implies(And(p >= top, p < n, elp(p), large(xi[p]), dg, R_(zabs(x[col])) < tolv * R_(zabs(x[xi[p]]))), large(pv)), pats=lambda p: [xi[p]]))))
        rc.ens('the pivot row is pivotal now', And(pivs[pv] == 1, forall(lambda i: Implies(And(i >= 0, i < n, i != pv), pivs[i] == pivs.old[i]), pats=lambda i: [pivs[i]])))
        rc.ens('rhos[k] is the pivot', And(rhos.x.init(k), rhos.x[k] == x[pv]))
        rc.ens('the other pivots are kept', forall(lambda t: Implies(And(t >= 0, t < rhos.x.obj().size, t != k), And(rhos.x[t] == rhos.old.x[t], rhos.x.st(t) == rhos.old.x.st(t))), pats=lambda t: [rhos.x[t], rhos.x.st(t)]))
        o = rp.old[k]
        rc.ens('pinv: rows are swapped', And(pinv[pv] == k, Implies(o != pv, pinv[o] == pinv.old[pv]),
               forall(lambda i: Implies(And(i >= 0, i < n, i != pv, i != o), pinv[i] == pinv.old[i]), pats=lambda i: [pinv[i]])))
        rc.ens('row_perm: rows are swapped', And(rp[k] == pv, Implies(o != pv, rp[pinv.old[pv]] == o),
               forall(lambda t: Implies(And(t >= 0, t < n, t != k, t != pinv.old[pv]), rp[t] == rp.old[t]), pats=lambda t: [rp[t]])))
        rc.ens('pinv and row_perm are inverse permutations', inv_(pinv, rp))

    def singular(rc):
        rc.ens('no entry of the pattern is eligible', forall(lambda p: Implies(And(p >= top, p < n), Not(elp(p))), pats=lambda p: [xi[p]]))
        rc.ens('nothing else changes', And(*[forall(lambda t: Implies(And(t >= 0, t < n), v[t] == v.old[t]), pats=lambda t: [v[t]]) for v in (pivs, pinv, rp)]))
        rc.ens('rhos is kept', forall(lambda t: Implies(And(t >= 0, t < rhos.x.obj().size), And(rhos.x.st(t) == rhos.old.x.st(t))), pats=lambda t: [rhos.x.st(t)]))

    def oom(rc):
        rc.oom()
        rx = rhos.x
        rc.ens('the k-th pivot can be cleared, the others are kept', And(rx.clearable(k), forall(lambda t: Implies(And(t >= 0, t < rx.obj().size, t != k), rx.st(t) == rhos.old.x.st(t)), pats=lambda t: [rx.st(t)])))
    return [Outcome('ok', OK, None, ok), Outcome('singular', SINGULAR, None, singular), Outcome('oom', OOM, None, oom)]
