"""SLIP_matrix_check: OK exactly for the well formed matrices"""
from .base import *
from .matrices import any_matrix, pick_kind


def pairs_less(a0, a1, b0, b1):
    return Or(a0 < b0, And(a0 == b0, a1 < b1))


@contract('compar', tu='SLIP_LU/Source/SLIP_matrix_check.c')
def compar(c):
    x = c.arr('x', I64, 2, ro=True)
    y = c.arr('y', I64, 2, ro=True)

    def ens(rc):
        rc.ens('sign of the lexicographic comparison', And((rc.result < 0) == pairs_less(x[0], x[1], y[0], y[1]), (rc.result == 0) == And(x[0] == y[0], x[1] == y[1])))
    return [Outcome('any', 'int', None, ens, nomod=True)]


def h_qsort(e, s, vals, ex):
    """qsort of pairs with a verified comparison: the pairs are permuted and sorted"""
    base, cnt, sz, fn = vals
    if not isinstance(fn, FnPtr) or fn.name != 'compar' or not z3.is_int_value(simp0(sz)) or simp0(sz).as_long() != 16:
        raise Unsupported('qsort with another comparison')
    e.oblige(s, Not(base.null), 'pre', 'qsort: there is an array')
    e.typed(s, base, I64)
    o = s.wobj(base.obj)
    e.oblige(s, And(cnt >= 0, base.off == 0, 2 * cnt <= o.size), 'bounds', 'qsort: the pairs are in the block')
    e.called.add('compar')
    old = o.comp['val']
    new = fresh('sorted', old.sort())
    PI = z3.Function(str(fresh('pi')), I, I)
    PJ = z3.Function(str(fresh('pj')), I, I)
    s.assume(forall(lambda k: Implies(And(k >= 0, k < cnt), And(PI(k) >= 0, PI(k) < cnt, PJ(PI(k)) == k, z3.Select(new, 2 * k) == z3.Select(old, 2 * PI(k)), z3.Select(new, 2 * k + 1) == z3.Select(old, 2 * PI(k) + 1))),
                    pats=lambda k: [PI(k)]))
    s.assume(forall(lambda k: Implies(And(k >= 0, k < cnt), And(PJ(k) >= 0, PJ(k) < cnt, PI(PJ(k)) == k)), pats=lambda k: [PJ(k)]))
    s.assume(forall(lambda k: Implies(k >= 2 * cnt, z3.Select(new, k) == z3.Select(old, k)), pats=lambda k: [z3.Select(new, k)]))
    s.assume(forall(lambda a, b: Implies(And(a >= 0, a < b, b < cnt), Not(pairs_less(z3.Select(new, 2 * b), z3.Select(new, 2 * b + 1), z3.Select(new, 2 * a), z3.Select(new, 2 * a + 1)))), 2,
                    pats=lambda a, b: [(PI(a), PI(b))]))
    o.comp['val'] = new
    s.ghost['PI'], s.ghost['PJ'] = PI, PJ
    S = lambda k: z3.Select(new, k)
    O = lambda k: z3.Select(old, k)

    def at(k):
        "instance of the permutation facts"
        return Implies(And(k >= 0, k < cnt), And(PI(k) >= 0, PI(k) < cnt, PJ(PI(k)) == k, S(2 * k) == O(2 * PI(k)), S(2 * k + 1) == O(2 * PI(k) + 1)))

    def ordered(a, b):
        return Implies(And(a >= 0, a < b, b < cnt), Not(pairs_less(S(2 * b), S(2 * b + 1), S(2 * a), S(2 * a + 1))))
    # definition: position k is smaller than position k+1
    NB = z3.Function(str(fresh('nb')), I, B)
    s.assume(forall(lambda k: NB(k) == pairs_less(S(2 * k), S(2 * k + 1), S(2 * (k + 1)), S(2 * (k + 1) + 1)), pats=lambda k: [NB(k)]))
    s.ghost['NB'] = NB
    s.ghost['qsort'] = (at, ordered, O, S)
    return [(s, Opaque('void'))]


def strings(c):
    """SLIP_mpfr_asprintf gives a string, which is to be freed"""
    c.state.ghost['str'] = FALSE

    def asprintf(e, s, vals, ex):
        cell = vals[0]
        e.oblige(s, Not(s.ghost['str']), 'leak', 'the previous string was freed')
        a, b = s.copy(), s.copy()
        d = Obj('raw', cls='dummy', name='text', bytes=IV(1))
        d.size = IV(1)
        a.wobj(cell.obj).fields['*'] = Ptr(a.new(d, 'text'), IV(0))
        a.ghost['str'] = TRUE
        b.ghost['oom'] = TRUE
        for v in vals[2:]:
            if isinstance(v, Ptr) and v.obj is not None and s.heap[v.obj].kind == 'mp':
                w = View(c, v, s)
                e.check_bounds(s, v, 'printed number')
                e.oblige(s, w.init(), 'init', 'the printed number is initialised')
        return [(a, IV(0)), (b, IV(OOM))]

    def free_str(e, s, vals, ex):
        e.oblige(s, s.ghost['str'], 'free', 'the string is allocated')
        s.ghost['str'] = FALSE
        return [(s, Opaque('void'))]
    c.eng.override.update(SLIP_mpfr_asprintf=asprintf, SLIP_mpfr_free_str=free_str)


CASES = [(k, t) for k in KINDS for t in TYPES] + [('CSC', 'bad'), ('TRIPLET', 'bad'), ('DENSE', 'bad'), ('bad', 'MPZ')]


@contract('SLIP_matrix_check', cases=CASES)
def matrix_check(c):
    init = public(c)
    kind, typ = c.case
    A = any_matrix(c, 'A', 'CSC' if kind == 'bad' else kind, 'MPZ' if typ == 'bad' else typ, nullable=True)
    opt = c.options()
    if c.defmode:
        for f, w, n in (('type', typ, 5), ('kind', kind, 3)):
            if w == 'bad':
                t = fresh('A.' + f)
                c.state.assume(And(t >= 0, t < 2 ** 32, t >= n))
                c.state.wobj(A.ptr.obj).fields[f] = t
    level = If(opt.isnull, IV(0), opt.f('print_level'))
    m, n, nzmax = A.m, A.n, A.nzmax
    live = And(init, Not(A.isnull))

    def nul(f):
        return A.f(f).null if isinstance(A.f(f), Ptr) else TRUE
    p, i, j, x = (A.sub(f) for f in 'pijx')
    # ---- sizes of the arrays, as the fields say
    if kind == 'CSC':
        c.req('p has n+1 entries', Implies(And(live, n >= 0, Not(nul('p'))), n < p.obj().size))
        nz = p[n]
    elif kind == 'TRIPLET':
        nz = A.nz
    else:
        nz = m * n
        c.req('m*n does not overflow', Implies(And(live, m >= 0, n >= 0), m * n < 2 ** 63))
        if c.defmode:
            c.eng.product(c.state, m, n)
    for f in 'ijx':
        if isinstance(A.f(f), Ptr) and A.f(f).obj is not None:
            c.req('%s has nzmax entries' % f, Implies(And(live, Not(nul(f))), A.sub(f).obj().size >= nzmax))
    if typ in ('MPZ', 'MPQ', 'MPFR') and not is_true(nul('x')):
        c.req('numbers to be printed are initialised', Implies(And(live, Not(nul('x')), level >= 2), x.all(0, If(nz <= nzmax, nz, nzmax), x.init, pat=lambda k: [x.st(k)])))
    if typ != 'bad' and kind != 'bad':
        c.req('the scale to be printed is initialised', Implies(And(live, level >= 2), A.scale.init()))
    # ---- well formed
    wf = [m >= 0, n >= 0, nzmax >= 0, nz >= 0, nz <= nzmax]
    if kind == 'bad' or typ == 'bad':
        wf = [FALSE]
    elif kind == 'CSC':
        wf += [Not(nul('p')), p[0] == 0,
               forall(lambda k: Implies(And(k >= 0, k < n), And(p[k] <= p[k + 1], p[k + 1] <= nz)), pats=lambda k: [p[k]]),
               Or(nzmax == 0, And(Not(nul('i')), Not(nul('x')))),
               forall(lambda q: Implies(And(q >= 0, q < nz), And(i[q] >= 0, i[q] < m)), pats=lambda q: [i[q]]),
               forall(lambda k, q, r: Implies(And(k >= 0, k < n, q >= p[k], q < r, r < p[k + 1]), i[q] != i[r]), 3, pats=lambda k, q, r: [(p[k], i[q], i[r])])]
    elif kind == 'TRIPLET':
        wf += [Or(nzmax == 0, And(Not(nul('i')), Not(nul('j')), Not(nul('x')))),
               forall(lambda q: Implies(And(q >= 0, q < nz), And(i[q] >= 0, i[q] < m, j[q] >= 0, j[q] < n)), pats=lambda q: [i[q]]),
               forall(lambda q, r: Implies(And(q >= 0, q < r, r < nz), Or(i[q] != i[r], j[q] != j[r])), 2, pats=lambda q, r: [(i[q], i[r])])]
    else:
        wf += [Or(nzmax == 0, Not(nul('x')))]
    good = And(Not(A.isnull), *wf)

    if c.defmode:
        strings(c)
        c.eng.override['qsort'] = h_qsort

        def printf(e, s, vals, ex):
            e.oblige(s, level >= 1, 'post', 'nothing is printed when the print level is 0')
            r = fresh('printf')
            s.assume(And(r >= -2 ** 31, r < 2 ** 31))
            return [(s, r)]
        c.eng.override['printf'] = printf
    nostr = lambda L: Not(L.st.ghost['str'])
    prr = lambda L: And(L['pr'] <= level, L['pr'] >= If(level <= 1, level, IV(1)), L['lines'] >= 0)

    okst = lambda L: Or(L['status'] >= 0, L.st.ghost['oom'])

    def lines(L, b):
        """lines printed so far: no overflow"""
        return And(L['lines'] >= 0, L['lines'] <= b)

    if c.defmode and typ != 'bad' and kind == 'CSC':
        def inv0(L):
            k = L['j']
            yield 'range', And(k >= 0, k <= n)
            yield 'pointers so far', forall(lambda t: Implies(And(t >= 0, t < k), And(p[t] >= 0, p[t] <= p[t + 1], p[t + 1] <= nz)), pats=lambda t: [p[t]])
            yield 'last pointer', And(p[k] >= 0, p[k] <= nz)
        c.loop(0, inv0, dec=lambda L: n - L['j'])

        def seen(w, k, q):
            """work marks exactly the rows of column k before position q"""
            return And(forall(lambda r: Implies(And(r >= p[k], r < q), z3.Select(w, i[r]) == k + 1), pats=lambda r: [i[r]]),
                       forall(lambda r: Implies(And(r >= 0, r < m), z3.Select(w, r) <= k + 1), pats=lambda r: [z3.Select(w, r)]),
                       forall(lambda r: Implies(And(r >= 0, r < m, z3.Select(w, r) == k + 1), z3.Exists([_e], And(_e >= p[k], _e < q, i[_e] == r))), pats=lambda r: [z3.Select(w, r)]))
        _e = z3.Const('e!', I)

        def rows(L, k, q):
            yield 'row indices so far', forall(lambda r: Implies(And(r >= 0, r < q), And(i[r] >= 0, i[r] < m)), pats=lambda r: [i[r]])
            yield 'no duplicates so far', forall(lambda t, r, u: Implies(And(t >= 0, t < k, r >= p[t], r < u, u < p[t + 1]), i[r] != i[u]), 3, pats=lambda t, r, u: [(p[t], i[r], i[u])])
            yield 'no string', nostr(L)
            yield 'print level', prr(L)
            yield 'status', okst(L)

        def inv1(L):
            k = L['j']
            w = L.view('work')
            yield 'range', And(k >= 0, k <= n)
            yield 'work', forall(lambda r: Implies(And(r >= 0, r < m), w[r] <= k), pats=lambda r: [w[r]])
            yield from rows(L, k, p[k])
            yield 'lines', lines(L, k + p[k])

        def inv2(L):
            k, q = L['j'], L['p']
            w = L.view('work')
            yield 'range', And(k >= 0, k < n, q >= p[k], q <= p[k + 1], L['marked'] == k + 1)
            yield 'work', seen(w.comp('val'), k, q)
            yield 'no duplicates in this column', forall(lambda r, u: Implies(And(r >= p[k], r < u, u < q), i[r] != i[u]), 2, pats=lambda r, u: [(i[r], i[u])])
            yield from rows(L, k, q)
            yield 'lines', lines(L, k + 1 + q)
        c.loop(1, inv1, dec=lambda L: n - L['j'])
        c.loop(2, inv2, dec=lambda L: p[L['j'] + 1] - L['p'])
    if c.defmode and typ != 'bad' and kind == 'TRIPLET':
        def inv3(L):
            q = L['p']
            yield 'range', And(q >= 0, q <= nz)
            yield 'indices so far', forall(lambda r: Implies(And(r >= 0, r < q), And(i[r] >= 0, i[r] < m, j[r] >= 0, j[r] < n)), pats=lambda r: [i[r]])
            yield 'no string', nostr(L)
            yield 'print level', prr(L)
            yield 'lines', lines(L, q)
            yield 'status', okst(L)

        def inv4(L):
            q = L['p']
            w = L.view('work')
            yield 'range', And(q >= 0, q <= nz)
            yield 'copied so far', forall(lambda r: Implies(And(r >= 0, r < q), And(w[2 * r] == j[r], w[2 * r + 1] == i[r])), pats=lambda r: [i[r]])

        def inv5(L):
            q = L['p']
            w = L.view('work')
            PI = L.st.ghost.get('PI')
            yield 'range', And(q >= 1, Or(q <= nz, q == 1))
            if PI is None:
                yield 'sorted', FALSE
                return
            NB = L.st.ghost['NB']
            yield 'neighbours so far differ', forall(lambda r: Implies(And(r >= 0, r + 1 < q, r + 1 < nz), NB(r)), pats=lambda r: [NB(r)])
        c.loop(3, inv3, dec=lambda L: nz - L['p'])
        c.loop(4, inv4, dec=lambda L: nz - L['p'], exit=lambda L: out4(L))

        def inst5(L):
            q = L['p']
            at, ordered, O, S = L.st.ghost['qsort']
            PI = L.st.ghost['PI']
            for k in (q - 1, q):
                L.lemma(at(k))
                copied(L, O, PI(k))
            L.lemma(ordered(q - 1, q))

        def step5(L):
            q = L['p'] - 1
            w = L.view('work')
            L.check('this pair differs from the last one', Implies(q < nz, L.st.ghost['NB'](q - 1)))

        def copied(L, O, r):
            L.lemma(L.st.ghost['copied'](r))

        def out4(L):
            w = L.view('work').comp('val')
            L.st.ghost['copied'] = lambda r: Implies(And(r >= 0, r < nz), And(z3.Select(w, 2 * r) == j[r], z3.Select(w, 2 * r + 1) == i[r]))

        def out5(L):
            at, ordered, O, S = L.st.ghost['qsort']
            PI, PJ = L.st.ghost['PI'], L.st.ghost['PJ']
            less = lambda a, b: pairs_less(S(2 * a), S(2 * a + 1), S(2 * b), S(2 * b + 1))
            a, b = fresh('a'), fresh('b')
            L.check('neighbours differ', Implies(And(a >= 0, a + 1 < nz), L.st.ghost['NB'](a)))
            L.lemma(ordered(a + 1, b))
            L.check('sorted pairs differ', Implies(And(a >= 0, a < b, b < nz), less(a, b)))
            L.lemma(forall(lambda a, b: Implies(And(a >= 0, a < b, b < nz), less(a, b)), 2, pats=lambda a, b: [(PI(a), PI(b))]))
            q, r = fresh('q'), fresh('r')
            for e in (q, r):
                L.lemma(Implies(And(e >= 0, e < nz), And(PJ(e) >= 0, PJ(e) < nz, PI(PJ(e)) == e)))
                L.lemma(at(PJ(e)))
                copied(L, O, e)
            for e, f in ((q, r), (r, q)):
                L.check('sorted positions differ', Implies(And(PJ(e) >= 0, PJ(e) < PJ(f), PJ(f) < nz), less(PJ(e), PJ(f))))
            L.check('triplets differ', Implies(And(q >= 0, q < r, r < nz), Or(i[q] != i[r], j[q] != j[r])))
            L.lemma(forall(lambda q, r: Implies(And(q >= 0, q < r, r < nz), Or(i[q] != i[r], j[q] != j[r])), 2, pats=lambda q, r: [(i[q], i[r])]))
        c.loop(5, inv5, dec=lambda L: nz - L['p'], head=inst5, exit=out5, step=step5)
    if c.defmode and typ != 'bad' and kind == 'DENSE':
        def inv6(L):
            k = L['j']
            yield 'range', And(k >= 0, k <= n)
            yield 'no string', nostr(L)
            yield 'print level', prr(L)
            yield 'lines', L['lines'] <= k * (m + 1)
            yield 'status', okst(L)

        def inv7(L):
            k, r = L['j'], L['i']
            yield 'range', And(k >= 0, k < n, r >= 0, r <= m)
            yield 'no string', nostr(L)
            yield 'print level', prr(L)
            yield 'lines', L['lines'] <= k * (m + 1) + 1 + r
            yield 'status', okst(L)
        c.loop(6, inv6, dec=lambda L: n - L['j'])
        c.loop(7, inv7, dec=lambda L: m - L['i'])

    def done(rc):
        if rc.mode == 'check':
            rc.ens('the last string was freed', Not(rc.st.ghost['str']))

    def oom(rc):
        done(rc)
        rc.oom()
    return [Outcome('panic', PANIC, Not(init), nomod=True), Outcome('ok', OK, And(init, good), done, nomod=True),
            Outcome('bad', INCORRECT, And(init, Not(good)), done, nomod=True), Outcome('oom', OOM, init, oom, nomod=True)]


CHECKFNS = ['SLIP_matrix_check', 'compar']
