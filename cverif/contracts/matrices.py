"""SLIP_matrix objects: allocate, free, nnz; arrays of numbers"""
from .base import *

MATPARTS = ('p', 'i', 'j', 'x')


def pick_type(pos):
    """case = element type of the matrix behind argument pos (a handle)"""
    def pick(eng, st, vals):
        h = vals[pos]
        if h.obj is None:
            return 'MPZ'
        m = st.heap[h.obj].fields.get('*')
        if isinstance(m, Undef) or m.obj is None:
            return 'MPZ'
        o = st.heap[m.obj]
        if o.kind != 'struct' or not z3.is_expr(o.fields.get('type')):
            raise Unsupported('matrix without a type')
        t = z3.simplify(o.fields['type'])
        if not z3.is_int_value(t):
            raise Unsupported('matrix of unknown type')
        return [k for k, v in TYPES.items() if v == t.as_long()][0]
    return pick


@contract('SLIP_matrix_free', cases=list(TYPES))
def matrix_free(c):
    init = public(c)
    h = c.ptrcell('A_handle', nullable=True)
    c.options()
    typ = c.case
    if c.defmode:
        st = c.state
        o = Obj('struct', rec='SLIP_matrix', cls='heap', name='A', size=IV(1))
        oid = st.new(o, 'A')
        for f in ('m', 'n', 'nzmax', 'nz', 'kind'):
            v = fresh('A.' + f)
            st.assume(And(v >= -2 ** 63, v < 2 ** 63))
            o.fields[f] = v
        o.fields['type'] = IV(TYPES[typ])
        st.assume(And(o.fields['kind'] >= 0, o.fields['kind'] <= 2))
        for s in MATPARTS:
            o.fields[s + '_shallow'] = fresh('A.%s_shallow' % s, B)
            sz = fresh('A.%s.size' % s)
            st.assume(sz >= 0)
            o.fields[s] = c.mk_arr('A.' + s, TYPECT[typ] if s == 'x' else I64, sz, nullable=True)
        o.fields['scale'] = c.mk_arr('A.scale', MPQ, IV(1), parent=oid)
        p = Ptr(oid, IV(0), fresh('A.null', B))
        st.wobj(h.ptr.obj).fields['*'] = p
    else:
        p = c.state.heap[h.ptr.obj].fields['*']
        if isinstance(p, Undef):
            c.oblige(FALSE, 'the handle is set')
            p = NULL
    live = And(init, Not(h.isnull), Not(p.null))
    if p.obj is not None:
        freeable(c, p, live, typ)
    pre = {}
    if p.obj is not None:
        o = c.state.heap[p.obj]
        for s in MATPARTS:
            b = o.fields[s]
            if isinstance(b, Ptr) and b.obj is not None:
                pre[s] = (b, And(Not(o.fields[s + '_shallow']), Not(b.null)))
        pre['scale'] = (o.fields['scale'], TRUE)

    c.mod(h)

    def inv(L):
        i = L['i']
        x = View(c, pre['x'][0])
        yield 'range', And(i >= 0, Or(i <= o.fields['nzmax'], i == 0))
        yield 'cleared so far', forall(lambda k: Implies(And(k >= 0, k < i), x.st(k) == 0), pats=lambda k: [x.st(k)])
        yield 'the others', forall(lambda k: Implies(And(k >= i, k < x.obj().size), And(x.st(k) == x.old.st(k), *([x.sel('sd', k) == x.old.sel('sd', k)] if typ == 'MPQ' else []))), pats=lambda k: [x.st(k)])
        if typ == 'MPQ':
            yield 'cleared denominators', forall(lambda k: Implies(And(k >= 0, k < i), x.sel('sd', k) == 0), pats=lambda k: [x.sel('sd', k)])
    if typ in ('MPZ', 'MPQ', 'MPFR') and c.defmode:
        n = {'MPZ': 0, 'MPQ': 1, 'MPFR': 2}[typ]
        c.loop(n, inv)

    def done(rc):
        if p.obj is not None:
            v = View(c, p, None, 'A')
            rc.freed(v, live)
            for s, (b, g) in pre.items():
                rc.freed(View(c, b, None, 'A->' + s), And(live, g))
            cell = rc.st.heap[h.ptr.obj].fields['*']
            if rc.mode == 'check':
                rc.ens('the handle is NULL afterwards', Implies(live, cell.null))
            elif is_true(simp0(Implies(Not(h.isnull), Not(p.null)))) or True:
                # NULL on return whether or not there was a matrix
                rc.st.wobj(h.ptr.obj).fields['*'] = NULL if rc.c.eng.qprove(rc.st, Not(h.isnull)) else Ptr(p.obj, p.off, Or(p.null, live))
    return [Outcome('panic', PANIC, Not(init), nomod=True), Outcome('ok', OK, init, done)]


matrix_free.pick = pick_type(0)


def freeable(c, p, live, typ, sub=''):
    o = c.state.heap[p.obj]
    c.req('the matrix is allocated', Implies(live, o.alive))
    nz = o.fields['nzmax']
    seen = []
    for s in MATPARTS:
        b = o.fields[s]
        if isinstance(b, Undef):
            c.req('%s is set' % s, FALSE)
            continue
        if b.obj is None:
            continue
        if s == 'x':
            c.eng.typed(c.state, b, TYPECT[typ])
        else:
            c.eng.typed(c.state, b, I64)
        x = c.state.heap[b.obj]
        g = And(live, Not(o.fields[s + '_shallow']), Not(b.null))
        c.req('%s is an allocated block' % s, Implies(g, And(x.alive, b.off == 0)))
        if s == 'x' and x.kind == 'mp':
            v = View(c, b)
            c.req('x has room for nzmax numbers', Implies(g, nz <= x.size))
            c.req('numbers in x can be cleared', Implies(g, v.allclear(0, nz)))
            c.req('numbers beyond nzmax are not in use', Implies(g, v.all(nz, x.size, lambda k: And(v.st(k) != 1, *([v.sel('sd', k) != 1] if typ == 'MPQ' else [])))))
        elif s == 'x':
            pass
    sc = View(c, o.fields['scale'])
    c.req('scale can be cleared', Implies(live, sc.clearable()))


def opt_prec(opt):
    return If(opt.isnull, IV(128), opt.f('prec'))


def opt_round(opt):
    return If(opt.isnull, IV(0), opt.f('round'))


def create_array(elem):
    def spec(c):
        internal(c)
        n = c.val('n')
        prec = None
        if elem.name == 'f':
            prec = opt_prec(c.options())

        def started(x, k):
            return And(x.init(k), *([x.sel('prec', k) == prec] if elem.name == 'f' else [x[k] == 0] if elem.name == 'z' else [x[k] == 0, x.canon(k)] if elem.name == 'q' else []))

        def inv(L):
            i = L['i']
            x = L.view('x')
            yield 'range', And(i >= 0, i <= n)
            yield 'initialised so far', forall(lambda k: Implies(And(k >= 0, k < i), started(x, k)), pats=lambda k: [x.st(k)])
            yield 'the others', forall(lambda k: Implies(And(k >= i, k < n), x.isnullnum(k)), pats=lambda k: [x.st(k)])
        c.loop(0, inv, dec=lambda L: n - L['i'])

        def inv1(L):
            j = L['j']
            x = L.view('x')
            yield 'range', And(j >= 0, j <= n)
            yield 'cleared so far', forall(lambda k: Implies(And(k >= 0, k < j), x.isnullnum(k)), pats=lambda k: [x.st(k)])
            if elem.name == 'q':
                yield 'cleared so far (2)', forall(lambda k: Implies(And(k >= 0, k < j), x.isnullnum(k)), pats=lambda k: [x.sel('sd', k)])
            yield 'the others', forall(lambda k: Implies(And(k >= j, k < n), x.clearable(k)), pats=lambda k: [x.st(k)])
        c.loop(1, inv1, dec=lambda L: n - L['j'])

        def ok(rc):
            x = rc.out_arr(('result',), elem, n, name='numbers')
            if x is None:
                return
            rc.ens('n initialised numbers with value zero', forall(lambda k: Implies(And(k >= 0, k < n), started(x, k)), pats=lambda k: [x.st(k)]))
            rc.ens('the block is not larger', x.obj().size == n)

        def none(rc):
            rc.ens('OUT_OF_MEMORY only when an allocation failed', Implies(n > 0, rc.st.ghost.get('oom', FALSE)) if rc.mode != 'assume' else TRUE)
            if rc.mode == 'assume':
                rc.st.ghost['oom'] = simp0(Or(rc.st.ghost.get('oom', FALSE), n > 0))
        return [Outcome('ok', 'ptr', n > 0, ok), Outcome('none', NULL, None, none)]
    return spec


for _n, _e in (('mpz', MPZ), ('mpq', MPQ), ('mpfr', MPFR)):
    contract('slip_create_%s_array' % _n)(create_array(_e))


@contract('SLIP_matrix_nnz', cases=list(KINDS) + ['bad'])
def matrix_nnz(c):
    init = public(c)
    A = any_matrix(c, 'A', 'CSC' if c.case == 'bad' else c.case, nullable=True)
    c.options()
    m, n = A.m, A.n
    if c.case == 'bad':
        if c.defmode:
            k = fresh('A.kind')
            c.state.assume(And(k >= 0, k < 2 ** 32))
            c.state.wobj(A.ptr.obj).fields['kind'] = k
        c.req('the kind is none of the three', Implies(Not(A.isnull), And(A.f('kind') != 0, A.f('kind') != 1, A.f('kind') != 2)))
        return [Outcome('ok', 'int', None, lambda rc: rc.ens('-1', rc.result == -1), nomod=True)]
    live = And(init, Not(A.isnull))
    pnull = A.f('p').null if isinstance(A.f('p'), Ptr) else TRUE
    bad = Or(Not(init), A.isnull, And(n < 0, c.case != 'TRIPLET'), *([m < 0] if c.case == 'DENSE' else [pnull] if c.case == 'CSC' else []))
    if c.case == 'CSC' and A.f('p').obj is not None:
        c.req('p has n+1 entries', Implies(And(live, n >= 0, Not(A.f('p').null)), n < A.p.obj().size))
        r = A.p[n]
    elif c.case == 'DENSE':
        r = m * n
        c.req('m*n does not overflow', Implies(And(live, m >= 0, n >= 0), m * n < 2 ** 63))
    elif c.case == 'TRIPLET':
        r = A.nz
    else:
        r = IV(-1)

    return [Outcome('ok', 'int', None, lambda rc: rc.ens('number of entries, or -1', rc.result == If(bad, IV(-1), r)), nomod=True)]


def pick_kind(pos, handle=False):
    def pick(eng, st, vals):
        h = vals[pos]
        if h.obj is None:
            return 'CSC'
        o = st.heap[h.obj]
        t = z3.simplify(o.fields['kind'])
        if not z3.is_int_value(t):
            for k, v in KINDS.items():
                if eng.qprove(st, Or(h.null, t == v)):
                    return k
            if eng.qprove(st, Or(h.null, And(t != 0, t != 1, t != 2))):
                return 'bad'
            raise Unsupported('matrix of unknown kind')
        return [k for k, v in KINDS.items() if v == t.as_long()][0]
    return pick


matrix_nnz.pick = pick_kind(0)


def any_matrix(c, name, kind, typ=None, nullable=False):
    """a SLIP_matrix as a caller outside the library may pass it: fields are read but nothing is known about them"""
    if not c.defmode:
        ptr = c._next(None)
        if ptr.obj is None:
            d = Ctx(c.eng, c.state, 'def', None, c.case, c.spec)
            p = d.mk_matrix(name + '_null', kind or 'CSC', typ or 'INT64')
            c.state.heap[p.obj].cls = 'dummy'
            if not nullable:
                c.oblige(FALSE, name + ' is not NULL')
            return MatView(c, Ptr(p.obj, IV(0), TRUE), None, name, kind, typ)
        c.oblige(Implies(Not(ptr.null), c.state.heap[ptr.obj].alive), name + ' is allocated')
        if not nullable:
            c.oblige(Not(ptr.null), name + ' is not NULL')
        return MatView(c, ptr, None, name, kind, typ)
    st = c.state
    o = Obj('struct', rec='SLIP_matrix', cls='heap', name=name, size=IV(1))
    oid = st.new(o, name)
    for f in ('m', 'n', 'nzmax', 'nz'):
        v = fresh(name + '.' + f)
        st.assume(And(v >= -2 ** 63, v < 2 ** 63))
        o.fields[f] = v
    typ_ = typ or 'INT64'
    o.fields['kind'] = IV(KINDS[kind])
    if typ is None:
        t = fresh(name + '.type')
        st.assume(And(t >= -2 ** 31, t < 2 ** 31))
        o.fields['type'] = t
    else:
        o.fields['type'] = IV(TYPES[typ])
    for s in MATPARTS:
        o.fields[s + '_shallow'] = fresh('%s.%s_shallow' % (name, s), B)
        sz = fresh('%s.%s.size' % (name, s))
        st.assume(sz >= 0)
        o.fields[s] = c.mk_arr(name + '.' + s, TYPECT[typ_] if s == 'x' else I64, sz, nullable=True)
    o.fields['scale'] = c.mk_arr(name + '.scale', MPQ, IV(1), parent=oid)
    ptr = c._next(Ptr(oid, IV(0), c._nullflag(name, nullable)))
    return MatView(c, ptr, None, name, kind, typ)


ALLOC_CASES = [(k, t, 'own', i) for k in KINDS for t in TYPES for i in (('init', 'noinit') if t in ('MPZ', 'MPQ', 'MPFR') else ('init',))] + \
    [(k, t, 'shallow', 'init') for k in KINDS for t in ('MPZ', 'MPQ', 'MPFR', 'INT64', 'FP64')] + ['bad']


def zero_matrix(rc, M, typ, initd=True, prec=None):
    """numbers are zero (or unused when not initialised), scale is 1"""
    x = M.x
    nz = M.nzmax
    if typ in ('MPZ', 'MPQ', 'MPFR'):
        if initd:
            rc.ens('every number is initialised', x.all(0, nz, x.init, pat=lambda k: [x.st(k)]))
            if typ != 'MPFR':
                rc.ens('every number is zero', x.all(0, nz, lambda k: x[k] == 0, pat=lambda k: [x[k]]))
            if typ == 'MPFR' and prec is not None:
                rc.ens('every number has the precision of the options', x.all(0, nz, lambda k: x.sel('prec', k) == prec, pat=lambda k: [x.sel('prec', k), x.st(k)]))
            if typ == 'MPQ':
                rc.ens('every rational is in canonical form', x.all(0, nz, x.canon, pat=lambda k: [x[k]]))
        else:
            rc.ens('no number is initialised', x.all(0, nz, x.isnullnum, pat=lambda k: [x.st(k)]))
    elif typ == 'INT64':
        rc.ens('every entry is zero', x.all(0, nz, lambda k: x[k] == 0, pat=lambda k: [x[k]]))
    elif typ == 'FP64':
        rc.ens('every entry is zero', x.all(0, nz, lambda k: x[k] == fconst(0), pat=lambda k: [x[k]]))
    rc.ens('x has exactly nzmax entries', x.obj().size == nz)
    for s in ('p', 'i', 'j'):
        if M.f(s).obj is not None:
            b = M.sub(s)
            rc.ens('%s is zero' % s, b.all(0, M.n + 1 if s == 'p' else nz, lambda k: b[k] == 0, pat=lambda k: [b[k]]))
    unit_scale(rc, M)


def unit_scale(rc, M):
    s = M.scale
    rc.ens('scale is 1', And(s.init(), s.v == 1, s.canon()))


@contract('SLIP_matrix_allocate', cases=ALLOC_CASES)
def matrix_allocate(c):
    init = public(c)
    h = c.ptrcell('A_handle', nullable=True)
    if c.case == 'bad':
        kind, typ = c.val('kind'), c.val('type')
        m, n, nzmax = c.val('m'), c.val('n'), c.val('nzmax')
        c.val('shallow'), c.val('init')
        c.options()
        c.mod(h)
        bad = Or(kind > 2, typ > 4, m < 0, n < 0)
        c.req('an argument is out of range', bad)

        def wrong(rc):
            # the handle is set to NULL (unless there is none)
            hd = rc.st.heap[h.ptr.obj].fields['*']
            if rc.mode == 'check':
                rc.ens('the handle is NULL', Or(h.isnull, Not(init), hd.null if isinstance(hd, Ptr) else FALSE))
            elif not is_true(h.isnull):
                rc.out_null(('cell', h))
        return [Outcome('panic', PANIC, Not(init), nomod=True), Outcome('bad', INCORRECT, init, wrong)]
    kind, typ, own, ini = c.case
    c.const('kind', KINDS[kind])
    c.const('type', TYPES[typ])
    m, n, nzmax = c.val('m'), c.val('n'), c.val('nzmax')
    c.const('shallow', z3.BoolVal(own == 'shallow'))
    c.val('init') if own == 'shallow' else c.const('init', z3.BoolVal(ini == 'init'))
    opt = c.options()
    c.mod(h)
    bad = Or(m < 0, n < 0, h.isnull)
    want = m * n if kind == 'DENSE' else nzmax
    nz = If(want > 1, want, IV(1))
    if kind == 'DENSE' and not c.defmode:
        # callers see nzmax >= m*n and nzmax >= 1
        nz = None
    toobig = Or(And(n > 0, m > DIVLIM(n)) if kind == 'DENSE' else FALSE, n == MAXB if kind == 'CSC' else FALSE)
    if kind == 'DENSE' and c.defmode:
        c.state.assume(Implies(And(n > 0, m >= 0), (m > DIVLIM(n)) == (m * n > MAXB)))

    def handle_null(rc):
        if rc.mode == 'check':
            hd = rc.st.heap[h.ptr.obj].fields['*']
            rc.ens('the handle is NULL', Or(h.isnull, hd.null if isinstance(hd, Ptr) else FALSE))
        elif not is_true(h.isnull):
            rc.out_null(('cell', h))

    def ok(rc):
        if own == 'own':
            M = rc.out_matrix(('cell', h), kind, typ, m=m, n=n, nzmax=nz, name='M')
            if M is None:
                return
            if rc.mode == 'check':
                if kind == 'DENSE':
                    rc.st.assume(m * n <= MAXB)
            rc.ens('nzmax is max(entries, 1)', M.nzmax == If(want > 1, want, IV(1)))
            zero_matrix(rc, M, typ, ini == 'init', opt_prec(opt))
        else:
            M = rc.out_shallow(('cell', h), kind, typ)
            if M is None:
                return
            rc.ens('dimensions', And(M.m == m, M.n == n, M.nzmax == If(want > 1, want, IV(1))))
            unit_scale(rc, M)
        rc.ens('nz is 0', M.nz == 0)
        if kind == 'DENSE':
            rc.ens('m*n fits', m * n <= MAXB) if rc.mode == 'assume' else None

    def oom(rc):
        handle_null(rc)
        if rc.mode == 'assume':
            rc.st.ghost['oom'] = TRUE
        else:
            rc.ens('OUT_OF_MEMORY only when an allocation failed or the size does not fit', Or(rc.st.ghost['oom'], toobig))
    return [Outcome('panic', PANIC, Not(init), nomod=True),
            Outcome('bad', INCORRECT, And(init, bad), handle_null),
            Outcome('oom', OOM, And(init, Not(bad)), oom),
            Outcome('ok', OK, And(init, Not(bad)), ok)]


DIVLIM = z3.Function('int64max_div', I, I)


def pick_alloc(eng, st, vals):
    def cv(v):
        v = z3.simplify(v) if z3.is_expr(v) else v
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        return None
    k, t, sh, ini = cv(vals[1]), cv(vals[2]), cv(vals[6]), cv(vals[7])
    kn = {v: n for n, v in KINDS.items()}.get(k)
    tn = {v: n for n, v in TYPES.items()}.get(t)
    if kn is None or tn is None or sh is None or (ini is None and not sh):
        raise Unsupported('SLIP_matrix_allocate with a kind, type or flag that is not a constant')
    return (kn, tn, 'shallow', 'init') if sh else (kn, tn, 'own', 'init' if ini or t > 2 else 'noinit')


matrix_allocate.pick = pick_alloc


def allinit(c, M, desc=''):
    """every number of the matrix is initialised (and canonical, for rationals)"""
    x = M.x
    if M.typ in ('MPZ', 'MPQ', 'MPFR'):
        return x.all(0, M.nzmax, lambda k: And(x.init(k), *([x.canon(k)] if M.typ == 'MPQ' else [])), pat=lambda k: [x.st(k), x[k]])
    return TRUE


def perm_contract(name, elem, typ, perm):
    """dst(perm[i], j) = src(i, j)"""
    def spec(c):
        internal(c)
        h = c.ptrcell('handle', nullable=True)
        src = c.matrix('src', 'DENSE', typ)
        if perm == 'pinv':
            pv = c.arr('pinv', I64, src.m, nullable=True, ro=True)
            isnull = pv.isnull
        else:
            S = c.analysis('S', src.m)
            pv = S.sub('q')
            isnull = FALSE
        c.options()
        INV = c.ghost('inverse', lambda: z3.Function(str(fresh('inv')), I, I))
        m, n = src.m, src.n
        sx = src.x
        c.req('numbers are initialised', allinit(c, src))
        c.req('the permutation is one', Or(isnull, forall(lambda k: Implies(And(k >= 0, k < m), And(pv[k] >= 0, pv[k] < m, INV(pv[k]) == k)), pats=lambda k: [pv[k]])))
        c.mod(h)

        def moved(x, lo_i, extra=None):
            return forall(lambda r, j: Implies(And(r >= 0, r < lo_i, j >= 0, j < n), x[IX(pv[r], j, m)] == sx[IX(r, j, m)]), 2,
                          pats=lambda r, j: [IX(pv[r], j, m), IX(r, j, m)])

        def good(L, M):
            x = M.x
            return x.all(0, M.nzmax, lambda k: And(x.init(k), *([x.canon(k)] if typ == 'MPQ' else [])), pat=lambda k: [x.st(k), x[k]])

        def inv0(L):
            i = L['i']
            M = L.mat('b' if perm == 'pinv' else 'x', 'DENSE', typ)
            yield 'range', And(i >= 0, i <= m)
            yield 'rows so far', moved(M.x, i)
            yield 'numbers are initialised', good(L, M)

        def inv1(L):
            i, j = L['i'], L['j']
            M = L.mat('b' if perm == 'pinv' else 'x', 'DENSE', typ)
            yield 'range', And(i >= 0, i < m, j >= 0, j <= n)
            yield 'rows so far', moved(M.x, i)
            yield 'this row so far', forall(lambda t: Implies(And(t >= 0, t < j), M.x[IX(pv[i], t, m)] == sx[IX(i, t, m)]), pats=lambda t: [IX(pv[i], t, m), IX(i, t, m)])
            yield 'numbers are initialised', good(L, M)
        c.loop(0, inv0, dec=lambda L: m - L['i'])
        c.loop(1, inv1, dec=lambda L: n - L['j'])

        def ok(rc):
            M = rc.out_matrix(('cell', h), 'DENSE', typ, m=m, n=n, name='out')
            if M is None:
                return
            rc.ens('rows are permuted', moved(M.x, m))
            rc.ens('numbers are initialised', allinit(c, M))
            rc.ens('x has exactly nzmax entries', M.x.obj().size == M.nzmax)
            rc.ens('nzmax is max(entries, 1)', M.nzmax == If(m * n > 1, m * n, 1))
            unit_scale(rc, M)

        def oom(rc):
            rc.out_null(('cell', h))
            rc.oom()
        bad = Or(h.isnull, isnull)
        return [Outcome('bad', INCORRECT, bad, nomod=True), Outcome('oom', OOM, Not(bad), oom), Outcome('ok', OK, Not(bad), ok)]
    contract(name)(spec)


perm_contract('slip_permute_b', MPZ, 'MPZ', 'pinv')
perm_contract('slip_permute_x', MPQ, 'MPQ', 'q')


@contract('slip_matrix_mul', cases=('DENSE',))
def matrix_mul(c):
    internal(c)
    X = c.matrix('x', 'DENSE', 'MPZ')
    s = c.mp('scalar', MPZ, ro=True)
    x = X.x
    c.req('numbers are initialised', And(allinit(c, X), s.init()))
    c.mod(x)
    m, n = X.m, X.n
    nz = m * n

    def inv(L):
        i = L['i']
        yield 'range', And(i >= 0, Or(i <= nz, i == 0))
        yield 'multiplied so far', forall(lambda k: Implies(And(k >= 0, k < i), x[k] == x.old[k] * s.v), pats=lambda k: [x[k]])
        yield 'the others', forall(lambda k: Implies(And(k >= i, k < x.obj().size), x[k] == x.old[k]), pats=lambda k: [x[k]])
        yield 'initialised', x.all(0, X.nzmax, x.init, pat=lambda k: [x.st(k)])
        yield 'beyond nzmax', x.all(X.nzmax, x.obj().size, lambda k: x.st(k) == x.old.st(k), pat=lambda k: [x.st(k)])
    c.loop(0, inv, dec=lambda L: nz - L['i'])

    def ok(rc):
        rc.ens('every entry is multiplied', forall(lambda k: Implies(And(k >= 0, k < nz), x[k] == x.old[k] * s.v), pats=lambda k: [x[k]]))
        rc.ens('initialised', x.all(0, X.nzmax, x.init, pat=lambda k: [x.st(k)]))

    def oom(rc):
        rc.oom()
        rc.ens('every number can be cleared', x.all(0, X.nzmax, x.clearable, pat=lambda k: [x.st(k)]))
        rc.ens('numbers beyond nzmax are not in use', x.all(X.nzmax, x.obj().size, lambda k: x.st(k) == x.old.st(k), pat=lambda k: [x.st(k)]))
    return [Outcome('ok', OK, None, ok), Outcome('oom', OOM, None, oom)]


@contract('slip_matrix_div')
def matrix_div(c):
    internal(c)
    h = c.ptrcell('x2_handle')
    X = c.matrix('x', 'DENSE', 'MPZ')
    s = c.mp('scalar', MPZ, ro=True)
    c.options()
    x = X.x
    m, n = X.m, X.n
    nz = m * n
    c.req('numbers are initialised', And(allinit(c, X), s.init()))
    c.req('the divisor is not zero', s.v != 0)
    c.req('the divisor is positive or rationals are normalised', s.v > 0) if False else None
    c.mod(h)

    def inv(L):
        i = L['i']
        M = L.mat('x2', 'DENSE', 'MPQ')
        y = M.x
        yield 'range', And(i >= 0, Or(i <= nz, i == 0))
        yield 'divided so far', forall(lambda k: Implies(And(k >= 0, k < i), y[k] * z3.ToReal(s.v) == z3.ToReal(x[k])), pats=lambda k: [y[k]])
        yield 'canonical', y.all(0, M.nzmax, lambda k: And(y.init(k), y.canon(k)), pat=lambda k: [y.st(k), y[k]])
        yield 'the others are zero', forall(lambda k: Implies(And(k >= i, k < M.nzmax), y[k] == 0), pats=lambda k: [y[k]])
    c.loop(0, inv, dec=lambda L: nz - L['i'])

    def ok(rc):
        M = rc.out_matrix(('cell', h), 'DENSE', 'MPQ', m=m, n=n, name='x2')
        if M is None:
            return
        y = M.x
        rc.ens('every entry is the quotient', forall(lambda k: Implies(And(k >= 0, k < nz), y[k] * z3.ToReal(s.v) == z3.ToReal(x[k])), pats=lambda k: [y[k]]))
        rc.ens('numbers are initialised', allinit(c, M))
        rc.ens('x has exactly nzmax entries', y.obj().size == M.nzmax)
        unit_scale(rc, M)

    def oom(rc):
        rc.out_null(('cell', h))
        rc.oom()
    return [Outcome('ok', OK, None, ok), Outcome('oom', OOM, None, oom)]
