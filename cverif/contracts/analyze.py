"""SLIP_LU_analyze, SLIP_LU_analysis_free"""
from .base import *
from .matrices import any_matrix
from .amd import permutation, valid, AMD_CONTROL, AMD_INFO
from .alloc import D2R, B_
from .. import lib as _lib

BIG = 2 ** 56           # entries and columns an address space can hold
COLAMD_STATS = 20


@contract('SLIP_LU_analysis_free')
def analysis_free(c):
    init = public(c)
    h = c.ptrcell('S', nullable=True)
    c.options()
    if c.defmode:
        st = c.state
        o = Obj('struct', rec='SLIP_LU_analysis', cls='heap', name='S', size=IV(1))
        oid = st.new(o, 'S')
        for f in ('lnz', 'unz'):
            o.fields[f] = fresh('S.' + f)
        sz = fresh('S.q.size')
        st.assume(sz >= 0)
        o.fields['q'] = c.mk_arr('S.q', I64, sz, nullable=True)
        p = Ptr(oid, IV(0), fresh('S.null', B))
        st.wobj(h.ptr.obj).fields['*'] = p
    else:
        p = c.state.heap[h.ptr.obj].fields['*']
        if isinstance(p, Undef):
            c.oblige(FALSE, 'the handle is set')
            p = NULL
    live = And(init, Not(h.isnull), Not(p.null))
    q = None
    if p.obj is not None:
        o = c.state.heap[p.obj]
        c.req('the analysis is allocated', Implies(live, o.alive))
        q = o.fields['q']
        if isinstance(q, Undef):
            c.req('q is set', Not(live))
            q = None
        elif q.obj is None:
            q = None
        else:
            c.req('q is an allocated block', Implies(And(live, Not(q.null)), And(c.state.heap[q.obj].alive, q.off == 0)))
    c.mod(h)

    def done(rc):
        if p.obj is None:
            return
        rc.freed(View(c, p, None, 'S'), live)
        if q is not None:
            rc.freed(View(c, q, None, 'S->q'), And(live, Not(q.null)))
        cell = rc.st.heap[h.ptr.obj].fields['*']
        if rc.mode == 'check':
            rc.ens('the handle is NULL afterwards', Implies(live, cell.null))
        else:
            rc.st.wobj(h.ptr.obj).fields['*'] = NULL if c.eng.qprove(rc.st, Not(h.isnull)) else Ptr(p.obj, p.off, Or(p.null, live))
    return [Outcome('panic', PANIC, Not(init), nomod=True), Outcome('ok', OK, init, done)]


# ---------------------------------------------------------------- COLAMD, seen from SLIP_LU_analyze (assumed)
def colamd(elem):
    def spec(c):
        n_row, n_col = c.val('n_row'), c.val('n_col')
        Alen = c.val('Alen')
        A = c.arr('A', elem, Alen)
        p = c.arr('p', elem, n_col + 1)
        c._next(None)       # knobs
        stats = c.arr('stats', elem, COLAMD_STATS)
        c.mod(A); c.mod(p); c.mod(stats)
        c.req('dimensions are not negative', And(n_row >= 0, n_col >= 0))
        nnz = p[n_col]
        c.req('A has the recommended size', Implies(nnz >= 0, Alen >= need(nnz, n_row, n_col)))
        c.req('the column pointers are in range', Implies(nnz >= 0, nnz <= Alen))
        v = c.pre_valid = valid(n_row, n_col, p, A)

        def ok(rc):
            rc.ens('p is a permutation', permutation(p, n_col))
        return [Outcome('ok', 1, v, ok), Outcome('error', 0, Not(v))]
    return spec


def need(nnz, n_row, n_col):
    """entries colamd needs: 2 nnz + elbow room + n_col+1 column and n_row+1 row structures of 6 and 4 integers"""
    return 2 * nnz + n_col + 6 * (n_col + 1) + 4 * (n_row + 1)


contract('colamd_l', tu='COLAMD/Source/colamd.c', defs=('-DDLONG',), trusted='assumed')(colamd(I64))


def silent(c, *names):
    for n in names:
        c.eng.override[n] = lambda e, s, vals, ex: [(s, Opaque('void'))]


def float_facts(c):
    """the doubles used for the size estimates: sign and order only"""
    eng = c.eng
    u = z3.Q(1, 2 ** 53)

    def i2d(st, v):
        t = I2D(v)
        rv = z3.ToReal(v)
        st.assume(And(Implies(v >= 0, And(D2R(t) >= rv - u * rv, D2R(t) <= rv + u * rv)), Implies(And(v >= -2 ** 53, v <= 2 ** 53), D2R(t) == rv)))
        return t

    def lit(st, x):
        d = str(x)
        if d.startswith('dlit_'):
            st.assume(D2R(x) == z3.RealVal(d[5:]))

    def farith(st, op, a, b):
        t = ffun({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], 2)(a, b)
        lit(st, a); lit(st, b)
        x, y, p = D2R(a), D2R(b), D2R(t)
        if op == '*':
            q = fresh('exactprod', R)
            st.assume(And(Implies(And(x >= 0, y >= 0), q >= 0), q == x * y, Implies(q >= 0, And(p >= q - u * q, p <= q + u * q))))
        return t

    def d2i(st, v, ct):
        lo, hi = ct.range()
        r = D2I(v)
        eng.oblige(st, And(D2R(v) > z3.RealVal(lo) - 1, D2R(v) < z3.RealVal(hi) + 1), 'overflow', 'double fits the integer type')
        st.assume(And(eng.inrange(r, ct), Implies(D2R(v) >= 0, And(z3.ToReal(r) <= D2R(v), D2R(v) < z3.ToReal(r) + 1))))
        return r

    def ceil(e, s, vals, ex):
        t = ffun('ceil', 1)(vals[0])
        s.assume(And(D2R(t) >= D2R(vals[0]), D2R(t) < D2R(vals[0]) + 1))
        return [(s, t)]
    eng.i2d, eng.farith, eng.d2i = i2d, farith, d2i
    eng.override['ceil'] = ceil
    _x, _y = z3.Consts('fx fy', F)
    c.state.assume(z3.ForAll([_x, _y], fpred('lt')(_x, _y) == (D2R(_x) < D2R(_y)), patterns=[fpred('lt')(_x, _y)]))


ORDERS = {'none': 0, 'colamd': 1, 'amd': 2}


@contract('SLIP_LU_analyze', cases=['none', 'colamd', 'amd', 'kind', 'null'])
def analyze(c):
    init = public(c)
    h = c.ptrcell('S_handle', nullable=True)
    case = c.case
    A = any_matrix(c, 'A', {'kind': 'DENSE'}.get(case, 'CSC'), nullable=case == 'null')
    opt = c.options()
    c.mod(h)
    if case == 'null':
        c.req('A is NULL', A.isnull)
        return [Outcome('panic', PANIC, Not(init), nomod=True), Outcome('bad', INCORRECT, init, nomod=True)]
    if case == 'kind':
        # (any kind but CSC)
        if c.defmode:
            k = fresh('A.kind')
            c.state.assume(And(k != 0, k >= -2 ** 31, k < 2 ** 31))
            c.state.wobj(A.ptr.obj).fields['kind'] = k
        return [Outcome('panic', PANIC, Not(init), nomod=True), Outcome('bad', INCORRECT, init, nomod=True)]
    n, m = A.n, A.m
    order = If(opt.isnull, IV(1), opt.f('order'))
    if case == 'none':
        c.req('no ordering', order == 0)
    elif case == 'amd':
        c.req('AMD ordering', order == 2)
    else:
        c.req('COLAMD ordering', And(order != 0, order != 2))
    live = And(init, Not(h.isnull), m == n)
    p, i = A.sub('p'), A.sub('i')
    c.req('A is allocated as its dimensions say', Implies(live, And(n >= 0, n <= BIG, Not(A.f('p').null), Not(A.f('i').null), n < p.obj().size,
                                                                  p[n] >= 0, p[n] <= BIG, p[n] <= i.obj().size)))
    anz = p[n]
    if c.defmode:
        float_facts(c)
        silent(c, 'amd_l_defaults', 'amd_l_control', 'amd_l_info', 'colamd_l_report')
        _lib_amd_range(c)

    def seq(name):
        """loops that fill q or A2: which one is recognised by the bound"""
        def inv(L):
            k = L['i']
            S = L['S']
            q = View(c, c.state.heap[S.obj].fields['q'])
            yield 'range', And(k >= 0, k <= n + 1)
            yield 'q so far', forall(lambda t: Implies(And(t >= 0, t < k), q[t] == (t if name == 'none' else p[t])), pats=lambda t: [q[t]])
        return inv

    def inv2(L):
        k = L['i']
        A2 = L.view('A2')
        yield 'range', And(k >= 0, k <= anz)
        yield 'copied so far', forall(lambda t: Implies(And(t >= 0, t < k), A2[t] == i[t]), pats=lambda t: [A2[t]])
    if c.defmode:
        if case == 'none':
            c.loop(0, seq('none'), dec=lambda L: n + 1 - L['i'])
        if case == 'colamd':
            c.loop(1, seq('colamd'), dec=lambda L: n + 1 - L['i'])
            c.loop(2, inv2, dec=lambda L: anz - L['i'])
    va = valid(n, n, p, i)

    def ok(rc):
        S = rc.out_struct(('cell', h), 'SLIP_LU_analysis', 'S')
        if S is None:
            return
        if rc.mode == 'assume':
            q = rc.out_arr(('field', S, 'q'), I64, n + 1, 'S.q')
        else:
            q = rc.out_arr(('field', S, 'q'), I64, n + 1)
        if q is None:
            return
        rc.ens('q is a permutation of the columns', permutation(q, n))
        if case == 'none':
            rc.ens('q is the identity', forall(lambda k: Implies(And(k >= 0, k < n), q[k] == k), pats=lambda k: [q[k]]))
        rc.ens('the estimates suffice to start the factorization', Implies(n > 0, And(S.f('lnz') >= n, S.f('unz') >= n)))

    def none(rc):
        cell = rc.st.heap[h.ptr.obj].fields['*']
        if rc.mode == 'check':
            rc.ens('the handle is NULL, or not touched when the dimensions are wrong', Or(h.isnull, m != n, cell.null if isinstance(cell, Ptr) else FALSE))
        else:
            rc.st.wobj(h.ptr.obj).fields['*'] = NULL

    def oom(rc):
        none(rc)
        if case == 'amd' and rc.mode == 'check':
            pass
        rc.oom()
    bad = Or(h.isnull, m != n)
    outs = [Outcome('panic', PANIC, Not(init), nomod=True), Outcome('ok', OK, And(init, Not(bad), TRUE if case == 'none' else Or(n == 0, va)), ok),
            Outcome('oom', OOM, And(init, Not(bad)), oom)]
    outs.append(Outcome('bad', INCORRECT, And(init, bad if case == 'none' else Or(bad, Not(va))), none))
    return outs


def _lib_amd_range(c):
    """what the assumed estimate of AMD means as a real number"""
    x = z3.Const('fz', F)
    c.state.assume(D2R(I2D(IV(-1))) == -1)
    c.state.assume(z3.ForAll([x], Implies(And(D2I(x) >= 0, D2I(x) < 2 ** 62), And(D2R(x) > -1, D2R(x) < 2 ** 62 + 1)), patterns=[D2I(x)]))


def pick_order(eng, st, vals):
    o = vals[2]
    if o.obj is None or eng.qprove(st, o.null):
        return 'colamd'
    order = st.heap[o.obj].fields.get('order')
    if order is not None and not isinstance(order, Undef):
        order = If(o.null, IV(1), order)
        for k, f in (('none', order == 0), ('amd', order == 2), ('colamd', And(order != 0, order != 2))):
            if eng.qprove(st, f):
                return k
    raise Unsupported('ordering method not known')


analyze.pick = pick_order
ANALYZEFNS = ['SLIP_LU_analyze', 'SLIP_LU_analysis_free']
