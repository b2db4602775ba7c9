"""SLIP_matrix_copy: the matrix is the same one, whatever the kinds and types"""
from .base import *
from .matrices import any_matrix, opt_prec, opt_round, unit_scale
from .convert import (conversion, conversion_scale, inputs_ok, qdiv_def, source, nnz_of, TNAMES, FR2Q, fr, QDIVS, GETSI, Q2D, Z2D, D2R, FGETD, FGETSI, sat)
from .kernels import PS, prefix_def

COUNT = z3.Function('count', I, I, I)       # set per contract below


def pattern_ok(c, A):
    m, n, nz = A.m, A.n, nnz_of(A)
    if A.kind == 'CSC':
        p, i = A.p, A.i
        c.req('column pointers are in order', And(p[0] == 0, forall(lambda k: Implies(And(k >= 0, k < n), And(p[k] >= 0, p[k] <= p[k + 1], p[k + 1] <= nz)), pats=lambda k: [p[k]])))
        c.req('row indices are in range', i.all(0, nz, lambda q: And(i[q] >= 0, i[q] < m), pat=lambda q: [i[q]]))
    elif A.kind == 'TRIPLET':
        i, j = A.i, A.j
        c.req('row indices are in range', i.all(0, nz, lambda q: And(i[q] >= 0, i[q] < m), pat=lambda q: [i[q]]))
        c.req('column indices are in range', j.all(0, nz, lambda q: And(j[q] >= 0, j[q] < n), pat=lambda q: [j[q]]))


def nonzero(t, v):
    if t == 'MPFR':
        return FR2Q(v) != 0
    if t == 'FP64':
        return Not(fpred('eq')(v, fconst(0)))
    return v != 0


def zero(t, prec, rnd):
    return {'MPZ': IV(0), 'MPQ': z3.RealVal(0), 'MPFR': fr('set_si', IV(0), prec, rnd), 'INT64': IV(0), 'FP64': fconst(0)}[t]


def round_twice(st, prec, rnd):
    """a number of precision prec does not change when it is rounded to that precision"""
    q, z, f, d = z3.Const('rq', R), z3.Const('rz', I), z3.Const('rf', FR), z3.Const('rd', F)
    pr, rn = fresh('prec'), fresh('rnd')
    st.assume(And(pr == prec, rn == rnd))
    prec, rnd = pr, rn
    st.assume(z3.ForAll([f], Implies(FR2Q(f) == 0, FR2Q(fr('round', f, prec, rnd)) == 0), patterns=[fr('round', f, prec, rnd)]))
    for nm, v in (('set_q', q), ('set_z', z), ('round', f), ('set_si', z), ('set_d', d)):
        t = fr(nm, v, prec, rnd)
        st.assume(z3.ForAll([v], fr('round', t, prec, rnd) == t, patterns=[fr('round', t, prec, rnd)]))


def value_term(yt, xt, v, xs, prec, rnd):
    """the converted value, for the target types other than MPZ"""
    class One:
        def __getitem__(self, k):
            return v
    class Out:
        pass
    w = z3.Const('w!', {'MPZ': I, 'MPQ': R, 'MPFR': FR, 'INT64': I, 'FP64': F}[yt])
    e = conversion(yt, xt, One(), None, xs, None, prec, rnd, IV(0), yv=w)
    return e.arg(1)


def dropped(yt, xt, x, xs, ys, prec, rnd, k):
    """the entry is zero when converted"""
    if yt == 'MPZ':
        return conversion(yt, xt, x, None, xs, ys, prec, rnd, k, yv=IV(0))
    return Not(nonzero(yt, value_term(yt, xt, x[k], xs, prec, rnd)))


COPY_CASES = [(ck, ak, yt, xt) for ck in KINDS for ak in KINDS for yt in TYPES for xt in TYPES] + [('bad', b) for b in ('kind', 'arg')]


def bad_args(c, init):
    what = c.case[1]
    h = c.ptrcell('C_handle', nullable=True)
    ck, ct = c.val('C_kind'), c.val('C_type')
    A = any_matrix(c, 'A', 'CSC', None, nullable=True)
    if what == 'kind' and c.defmode:
        k = fresh('A.kind')
        c.state.assume(And(k >= 0, k < 2 ** 32))
        c.state.wobj(A.ptr.obj).fields['kind'] = k
    c.options()
    n, t = A.n, A.f('type')
    if what == 'kind':
        c.req('the kind is none of the three', Implies(Not(A.isnull), And(A.f('kind') != 0, A.f('kind') != 1, A.f('kind') != 2)))
    else:
        pn = A.f('p')
        c.req('p has n+1 entries', Implies(And(init, Not(A.isnull), n >= 0, Not(pn.null)), n < A.p.obj().size))
        c.req('an argument is out of range', Or(h.isnull, A.isnull, n < 0, pn.null, A.p[n] < 0, t < 0, t > 4, ck < 0, ck > 2, ct < 0, ct > 4))
    c.mod(h)
    return [Outcome('panic', PANIC, Not(init), nomod=True), Outcome('bad', INCORRECT, init, nomod=True)]


@contract('SLIP_matrix_copy', cases=COPY_CASES)
def matrix_copy(c):
    init = public(c)
    if c.case[0] == 'bad':
        return bad_args(c, init)
    ck, ak, yt, xt = c.case
    h = c.ptrcell('C_handle', nullable=True)
    c.const('C_kind', KINDS[ck])
    c.const('C_type', TYPES[yt])
    A = c.matrix('A', ak, xt)
    opt = c.options()
    source(c, A, yt)
    if xt != 'MPZ':
        c.req('only integers have a scale', A.scale.v == 1)
    pattern_ok(c, A)
    prec, rnd = opt_prec(opt), opt_round(opt)
    m, n, nz = A.m, A.n, nnz_of(A)
    if c.defmode:
        # recursion: only from dense to triplets, and only to the other cases
        c.eng.allow_recursion = True
        rank = lambda k: 1 if k[:2] == ('TRIPLET', 'DENSE') else 0
        c.hook('before', 'SLIP_matrix_copy', lambda L, vals: L.check('the recursion ends', TRUE if rank(_pick_copy(c.eng, L.st, vals)) < rank(c.case) else FALSE))
        qdiv_def(c.state)
        if yt == 'MPFR':
            round_twice(c.state, prec, rnd)
    c.mod(h)
    uid = str(fresh('g'))
    CNT = z3.Function('count_' + uid, I, I, I)
    P = z3.Function('colptr_' + uid, I, I)
    N = z3.Function('nth_' + uid, I, I)
    INV = z3.Function('inv_' + uid, I, I)
    c.NI = (N, INV)
    W = None
    if ck == 'DENSE' and ak != 'DENSE':
        W = c.ghost('entry of', lambda: z3.Function('entry_' + uid, I, I))
        if ak == 'CSC':
            p, ai = A.p, A.i
            c.req('no position occurs twice', forall(lambda j, q: Implies(And(j >= 0, j < n, q >= p[j], q < p[j + 1]), W(IX(ai[q], j, m)) == q), 2, pats=lambda j, q: [IX(ai[q], j, m)]))
        else:
            ai, aj = A.i, A.j
            c.req('no position occurs twice', forall(lambda q: Implies(And(q >= 0, q < nz), W(IX(ai[q], aj[q], m)) == q), pats=lambda q: [(ai[q], aj[q])]))
    place = lambda k: simp0(P(A.j[k]) + CNT(k, A.j[k]))
    is_mp = yt in ('MPZ', 'MPQ', 'MPFR')

    def rel(x, ys, k, l):
        """entry k of A is entry l of the result"""
        return conversion(yt, xt, A.x, x, A.scale.v, ys, prec, rnd, k, l)

    def good(M):
        x = M.x
        if not is_mp:
            return TRUE
        return x.all(0, M.nzmax, lambda k: And(x.init(k), *([x.canon(k)] if yt == 'MPQ' else [x.sel('prec', k) == prec] if yt == 'MPFR' else [])), pat=lambda k: [x.st(k), x[k]] + ([x.sel('prec', k)] if yt == 'MPFR' else []))

    def scale_ok(M):
        s = M.scale
        return And(s.init(), s.canon(), conversion_scale(yt, xt, A.scale.v, s.v), *([s.v == 1] if yt != 'MPZ' else []))

    order = []

    def which(L):
        if L.idx not in order:
            order.append(L.idx)
        return order.index(L.idx)

    # what is known in every loop once C exists
    def common(L):
        C = L.mat('C', ck, yt)
        yield 'numbers are initialised', good(C)
        yield 'scale', scale_ok(C)
        return C

    # ------------------------------------------------------------ triplets to columns: counting sort
    def t2c_lemma(L, vals):
        w = View(c, vals[1]).at(L.st)
        w0 = w.comp('val')
        L.check('counts', forall(lambda j: Implies(And(j >= 0, j < n), w[j] == CNT(nz, j)), pats=lambda j: [w[j]]))
        L.lemma(And(PS(w0, IV(0)) == 0, forall(lambda j: Implies(And(j >= 0, j < n), prefix_def(w0, j)), pats=lambda j: [PS(w0, j + 1), z3.Select(w0, j)])))
        L.lemma(forall(lambda j: P(j) == PS(w0, j), pats=lambda j: [P(j), PS(w0, j)]))         # definition of P
        # Lean: count_place
        c.eng.lemmas.add('count')
        L.lemma(P(n) == nz)
        L.lemma(forall(lambda j: Implies(And(j >= 0, j < n), And(CNT(nz, j) >= 0, P(j + 1) == P(j) + CNT(nz, j))), pats=lambda j: [CNT(nz, j), P(j)]))
        L.lemma(forall(lambda j: Implies(And(j >= 0, j <= n), And(P(j) >= 0, P(j) <= nz)), pats=lambda j: [P(j)]))
        L.lemma(forall(lambda k: Implies(And(k >= 0, k < nz), And(CNT(k, A.j[k]) >= 0, place(k) < P(A.j[k] + 1))), pats=lambda k: [A.j[k]]))
        L.lemma(forall(lambda k, t: Implies(And(t >= 0, t < k, k < nz), place(k) != place(t)), 2, pats=lambda k, t: [(A.j[k], A.j[t])]))
        L.lemma(forall(lambda q: Implies(And(q >= 0, q < nz), And(INV(q) >= 0, INV(q) < nz, place(INV(q)) == q)), pats=lambda q: [INV(q)]))
        L.lemma(forall(lambda j: Implies(And(j >= 0, j < n), And(PS(w0, j + 1) == P(j + 1), P(j + 1) >= 0, P(j + 1) <= nz)), pats=lambda j: [z3.Select(w0, j)]))

    def t2c(L):
        k, w = L['k'], L.view('W')
        C = L.mat('C', ck, yt)
        if which(L) == 0:
            yield 'range', And(k >= 0, k <= nz)
            yield 'counts so far', forall(lambda j: Implies(And(j >= 0, j < n), And(w[j] == CNT(k, j), w[j] >= 0, w[j] <= k)), pats=lambda j: [w[j]])
            return
        x, ci, cp = C.x, C.i, C.p
        yield 'range', And(k >= 0, k <= nz)
        yield 'numbers are initialised', good(C)
        yield 'next places', forall(lambda j: Implies(And(j >= 0, j < n), w[j] == P(j) + CNT(k, j)), pats=lambda j: [w[j]])
        yield 'placed so far', forall(lambda t: Implies(And(t >= 0, t < k), And(ci[place(t)] == A.i[t], rel(x, C.scale.v, t, place(t)))), pats=lambda t: [A.j[t], A.i[t]])

    def t2c_head(L):
        k = L['k']
        L.lemma(forall(lambda j: CNT(k + 1, j) == CNT(k, j) + If(A.j[k] == j, 1, 0), pats=lambda j: [CNT(k + 1, j)]))

    def t2c_init(L):
        L.lemma(forall(lambda j: CNT(0, j) == 0, pats=lambda j: [CNT(0, j)]))

    # ------------------------------------------------------------ dense to columns
    def d2c_lemma(L, vals, oc, cc):
        if oc != 'ok':
            return
        Y = MatView(c, L.st.heap[vals[0].obj].fields['*'], None, 'Y', 'DENSE', yt)
        c.state = L.st
        L.st.ghost['Y0'] = (Y, L.st.copy())
        y = Y.x.at(L.st.copy())
        z = lambda k: nonzero(yt, y[k])
        c.eng.lemmas.add('nonzeros')
        mn = m * n
        L.lemma(N(0) == 0)
        L.lemma(forall(lambda k: Implies(And(k >= 0, k < mn), And(N(k + 1) == N(k) + If(z(k), 1, 0), Implies(z(k), And(N(k) >= 0, N(k) < N(mn))))), pats=lambda k: [y[k]]))
        L.lemma(forall(lambda k, t: Implies(And(t >= 0, t < k, k < mn, z(t)), N(t) < N(k)), 2, pats=lambda k, t: [(N(k), y[t])]))
        L.lemma(forall(lambda k: Implies(And(k >= 0, k <= mn), And(N(k) >= 0, N(k) <= k, N(k) <= N(mn), N(mn) <= mn)), pats=lambda k: [N(k)]))
        L.lemma(forall(lambda q: Implies(And(q >= 0, q < N(mn)), And(INV(q) >= 0, INV(q) < mn, z(INV(q)), N(INV(q)) == q)), pats=lambda q: [INV(q)]))
        L.lemma(forall(lambda r, t: Implies(And(r >= 0, r < m, t >= 0, t < n), And(CB(t) <= N(IX(r, t, m)), N(IX(r, t, m) + 1) <= CB(t + 1))), 2, pats=lambda r, t: [IX(r, t, m)]))
        L.lemma(forall(lambda t: Implies(And(t >= 0, t < n), And(CB(t) >= 0, CB(t) <= CB(t + 1), CB(t + 1) <= N(mn))), pats=lambda t: [CB(t)]))
        L.lemma(And(CB(0) == 0, CB(n) == N(mn)))

    CB = z3.Function('colbase_' + uid, I, I)    # CB(j) = N(j*m)

    def colbase(j):
        return CB(j)

    def d2c(L):
        Y = L.mat('Y', 'DENSE', yt)
        y = Y.x
        w = which(L)
        if w == 0:
            k = L['k']
            yield 'range', And(k >= 0, k <= nz)
            yield 'nonzeros so far', L['actual'] == N(k)
            return
        C = L.mat('C', ck, yt)
        x, ci, cp = C.x, C.i, C.p
        j = L['j']
        yield 'numbers are initialised', good(C)
        yield 'scale', scale_ok(C)
        if w == 1:
            yield 'range', And(j >= 0, j <= n)
            yield 'number of entries', L['nz'] == colbase(j)
            upto = lambda r, t: And(r >= 0, r < m, t >= 0, t < j)
        else:
            i = L['i']
            yield 'range', And(j >= 0, j < n, i >= 0, i <= m)
            yield 'number of entries', L['nz'] == N(simp0(i + j * m))
            yield 'this column', cp[j] == colbase(j)
            upto = lambda r, t: And(r >= 0, r < m, t >= 0, Or(t < j, And(t == j, r < i)))
        yield 'columns so far', forall(lambda t: Implies(And(t >= 0, t < j), cp[t] == CB(t)), pats=lambda t: [cp[t]])
        yield 'placed so far', forall(lambda r, t: Implies(And(upto(r, t), nonzero(yt, y[IX(r, t, m)])), And(N(IX(r, t, m)) < L['nz'], ci[N(IX(r, t, m))] == r, same_num(C, N(IX(r, t, m)), y[IX(r, t, m)]))), 2,
                                      pats=lambda r, t: [IX(r, t, m)])

    def same_num(C, l, v):
        return C.x[l] == (fr('round', v, prec, rnd) if yt == 'MPFR' else v)

    def d2c_head(L):
        w = which(L)
        if w == 1:
            j = L['j']
            L.lemma(And(CB(j) == N(simp0(j * m)), CB(j + 1) == N(simp0(m + j * m))))    # definition
        if w == 2:
            i, j = L['i'], L['j']
            L.lemma(And(CB(j) == N(simp0(j * m)), CB(j + 1) == N(simp0(m + j * m))))    # definition
            L.lemma(Implies(And(i >= 0, i < m, j >= 0, j < n), IX(i, j, m) == i + j * m))

    # ------------------------------------------------------------ columns to triplets
    def c2t(L):
        C = L.mat('C', ck, yt)
        cj, p = C.j, A.p
        j = L['j']
        yield from common(L)
        yield 'earlier columns', forall(lambda k: Implies(And(k >= 0, k < j), p[k + 1] <= p[j]), pats=lambda k: [p[k]])
        if which(L) == 0:
            yield 'range', And(j >= 0, j <= n)
        else:
            q = L['p']
            yield 'range', And(j >= 0, j < n, q >= p[j], q <= p[j + 1])
            yield 'this column', forall(lambda t: Implies(And(t >= p[j], t < q), cj[t] == j), pats=lambda t: [cj[t]])
        yield 'columns so far', forall(lambda k, t: Implies(And(k >= 0, k < j, t >= p[k], t < p[k + 1]), cj[t] == k), 2, pats=lambda k, t: [(p[k], cj[t])])

    # ------------------------------------------------------------ to dense
    def todense(L):
        C = L.mat('C', ck, yt)
        x = C.x
        w = which(L)
        if yt == 'MPFR':
            w -= 1
        if w < 0:
            k = L['k']
            yield 'range', And(k >= 0, k <= m * n)
            yield 'numbers are initialised', good(C)
            yield 'zeros so far', forall(lambda t: Implies(And(t >= 0, t < k), x[t] == zero(yt, prec, rnd)), pats=lambda t: [x[t]])
            return
        yield 'numbers are initialised', good(C)
        if ak == 'TRIPLET':
            k = L['k']
            ai, aj = A.i, A.j
            yield 'range', And(k >= 0, k <= nz)
            yield 'placed so far', forall(lambda t: Implies(And(t >= 0, t < k), rel(x, C.scale.v, t, IX(ai[t], aj[t], m))), pats=lambda t: [(ai[t], aj[t]), IX(ai[t], aj[t], m)])
            yield 'the others are zero', forall(lambda r, t: Implies(And(r >= 0, r < m, t >= 0, t < n), Or(x[IX(r, t, m)] == zero(yt, prec, rnd), is_entry(W(IX(r, t, m)), r, t, k))), 2, pats=lambda r, t: [IX(r, t, m)])
            return
        p, ai, j = A.p, A.i, L['j']
        q = L['p'] if w == 1 else None
        if w == 0:
            yield 'range', And(j >= 0, j <= n)
            lim = p[j]
        else:
            yield 'range', And(j >= 0, j < n, q >= p[j], q <= p[j + 1])
            lim = q
        yield 'earlier columns', forall(lambda k: Implies(And(k >= 0, k < j), p[k + 1] <= p[j]), pats=lambda k: [p[k]])
        yield 'placed so far', forall(lambda k, t: Implies(And(k >= 0, k <= j, k < n, t >= p[k], t < p[k + 1], t < lim), rel(x, C.scale.v, t, IX(ai[t], k, m))), 2, pats=lambda k, t: [IX(ai[t], k, m)])
        yield 'the others are zero', forall(lambda r, t: Implies(And(r >= 0, r < m, t >= 0, t < n), Or(x[IX(r, t, m)] == zero(yt, prec, rnd), is_entry(W(IX(r, t, m)), r, t, lim))), 2, pats=lambda r, t: [IX(r, t, m)])

    def is_entry(q, r, t, lim):
        if ak == 'TRIPLET':
            return And(q >= 0, q < lim, A.i[q] == r, A.j[q] == t)
        return And(q >= A.p[t], q < A.p[t + 1], q < lim, A.i[q] == r)

    def todense_head(L):
        if ak == 'CSC' and L.has('p') and L.has('j'):
            j, q = L['j'], L['p']
            i = A.i[q]
            L.lemma(Implies(And(j >= 0, j < n, i >= 0, i < m), IX(i, j, m) == i + j * m))
    if c.defmode:
        if (ck, ak) == ('CSC', 'TRIPLET'):
            c.state.assume(forall(lambda j: CNT(0, j) == 0, pats=lambda j: [CNT(0, j)]))
            c.loop('*', t2c, head=t2c_head)
            c.hook('before', 'slip_cumsum', t2c_lemma)
        elif (ck, ak) == ('CSC', 'DENSE'):
            c.loop('*', d2c, head=d2c_head)
            c.hook('after', 'slip_cast_matrix', d2c_lemma)
        elif (ck, ak) == ('TRIPLET', 'DENSE'):
            def same(L, vals, oc, cc):
                if oc == 'ok' and cc.case[:2] == ('CSC', 'DENSE'):
                    # the numbering is that of the first copy
                    for f, g in zip(c.NI, cc.NI):
                        L.lemma(forall(lambda k: f(k) == g(k), pats=lambda k: [f(k), g(k)]))
            c.hook('after', 'SLIP_matrix_copy', same)
        elif (ck, ak) == ('TRIPLET', 'CSC'):
            c.loop('*', c2t)
        elif ck == 'DENSE':
            c.loop('*', todense, head=todense_head)

    # ------------------------------------------------------------ result
    def ok(rc):
        M = rc.out_matrix(('cell', h), ck, yt, m=m, n=n, name='C')
        if M is None:
            return
        x, ys = M.x, M.scale.v
        rc.ens('numbers are initialised', good(M))
        rc.ens('x has exactly nzmax entries', x.obj().size == M.nzmax)
        rc.ens('scale of the result', scale_ok(M))
        if ck == 'CSC':
            cp, ci = M.p, M.i
            if ak == 'CSC':
                rc.ens('same column pointers', forall(lambda j: Implies(And(j >= 0, j <= n), cp[j] == A.p[j]), pats=lambda j: [cp[j]]))
                rc.ens('same entries', forall(lambda k: Implies(And(k >= 0, k < nz), And(ci[k] == A.i[k], rel(x, ys, k, k))), pats=lambda k: [ci[k], x[k]]))
            elif ak == 'TRIPLET':
                rc.ens('the number of entries is the same', And(cp[0] == 0, cp[n] == nz))
                rc.ens('every entry is in its row and column', forall(lambda k: Implies(And(k >= 0, k < nz), And(place(k) >= cp[A.j[k]], place(k) < cp[A.j[k] + 1], ci[place(k)] == A.i[k], rel(x, ys, k, place(k)))), pats=lambda k: [A.j[k], A.i[k]]))
                rc.ens('there are no other entries', forall(lambda q: Implies(And(q >= 0, q < nz), And(INV(q) >= 0, INV(q) < nz, place(INV(q)) == q)), pats=lambda q: [INV(q)]))
                rc.ens('column pointers are in order', forall(lambda j: Implies(And(j >= 0, j < n), And(cp[j] >= 0, cp[j] <= cp[j + 1], cp[j + 1] <= cp[n])), pats=lambda j: [cp[j]]))
            else:
                pos = lambda r, t: N(IX(r, t, m))
                kept = lambda r, t: N(IX(r, t, m) + 1) == pos(r, t) + 1
                rc.ens('column pointers are in order', And(cp[0] == 0, forall(lambda j: Implies(And(j >= 0, j < n), And(cp[j] >= 0, cp[j] <= cp[j + 1], cp[j + 1] <= cp[n])), pats=lambda j: [cp[j]])))
                rc.ens('number of entries', And(cp[n] == N(m * n), cp[n] <= M.nzmax))
                if rc.mode == 'check':
                    # count_nonzero and dense_index_inv for the entry that is in place q
                    rc.lemma(forall(lambda q: Implies(And(q >= 0, q < N(m * n)), And(INV(q) >= 0, INV(q) < m * n, N(INV(q)) == q, N(INV(q) + 1) == q + 1, IXI(INV(q), m) >= 0, IXI(INV(q), m) < m,
                                                  IXJ(INV(q), m) >= 0, IXJ(INV(q), m) < n, IX(IXI(INV(q), m), IXJ(INV(q), m), m) == INV(q))), pats=lambda q: [ci[q]]))
                rc.ens('row indices are in range', ci.all(0, cp[n], lambda q: And(ci[q] >= 0, ci[q] < m), pat=lambda q: [ci[q]]))
                rc.ens('every entry is kept or zero', forall(lambda r, t: Implies(And(r >= 0, r < m, t >= 0, t < n), Or(
                    And(kept(r, t), pos(r, t) >= cp[t], pos(r, t) < cp[t + 1], ci[pos(r, t)] == r, rel(x, ys, IX(r, t, m), pos(r, t))),
                    And(N(IX(r, t, m) + 1) == pos(r, t), dropped(yt, xt, A.x, A.scale.v, ys, prec, rnd, IX(r, t, m))))), 2, pats=lambda r, t: [IX(r, t, m)]))
                rc.ens('there are no other entries', forall(lambda q: Implies(And(q >= 0, q < cp[n]), And(INV(q) >= 0, INV(q) < m * n, N(INV(q)) == q, N(INV(q) + 1) == q + 1)), pats=lambda q: [INV(q)]))
        elif ck == 'TRIPLET':
            ci, cj = M.i, M.j
            if ak == 'DENSE':
                pos = lambda r, t: N(IX(r, t, m))
                kept = lambda r, t: N(IX(r, t, m) + 1) == pos(r, t) + 1
                rc.ens('number of entries', M.nz == N(m * n))
                rc.ens('every entry is kept or zero', forall(lambda r, t: Implies(And(r >= 0, r < m, t >= 0, t < n), Or(
                    And(kept(r, t), pos(r, t) >= 0, pos(r, t) < M.nz, ci[pos(r, t)] == r, cj[pos(r, t)] == t, rel(x, ys, IX(r, t, m), pos(r, t))),
                    And(N(IX(r, t, m) + 1) == pos(r, t), dropped(yt, xt, A.x, A.scale.v, ys, prec, rnd, IX(r, t, m))))), 2, pats=lambda r, t: [IX(r, t, m)]))
                rc.ens('there are no other entries', forall(lambda q: Implies(And(q >= 0, q < M.nz), And(INV(q) >= 0, INV(q) < m * n, N(INV(q)) == q, N(INV(q) + 1) == q + 1)), pats=lambda q: [INV(q)]))
            else:
                rc.ens('the number of entries is the same', M.nz == nz)
                rc.ens('same rows', forall(lambda k: Implies(And(k >= 0, k < nz), ci[k] == A.i[k]), pats=lambda k: [ci[k]]))
                if ak == 'TRIPLET':
                    rc.ens('same columns', forall(lambda k: Implies(And(k >= 0, k < nz), cj[k] == A.j[k]), pats=lambda k: [cj[k]]))
                else:
                    p = A.p
                    rc.ens('same columns', forall(lambda j, k: Implies(And(j >= 0, j < n, k >= p[j], k < p[j + 1]), cj[k] == j), 2, pats=lambda j, k: [(p[j], cj[k])]))
                rc.ens('same values', forall(lambda k: Implies(And(k >= 0, k < nz), rel(x, ys, k, k)), pats=lambda k: [x[k]]))
        else:
            rc.ens('nzmax', M.nzmax == If(m * n > 1, m * n, IV(1)))
            if ak == 'DENSE':
                rc.ens('same values', forall(lambda k: Implies(And(k >= 0, k < nz), rel(x, ys, k, k)), pats=lambda k: [x[k]]))
            else:
                if ak == 'CSC':
                    p, ai = A.p, A.i
                    rc.ens('every entry is in its row and column', forall(lambda k, t: Implies(And(k >= 0, k < n, t >= p[k], t < p[k + 1]), rel(x, ys, t, IX(ai[t], k, m))), 2, pats=lambda k, t: [IX(ai[t], k, m)]))
                else:
                    ai, aj = A.i, A.j
                    rc.ens('every entry is in its row and column', forall(lambda t: Implies(And(t >= 0, t < nz), rel(x, ys, t, IX(ai[t], aj[t], m))), pats=lambda t: [(ai[t], aj[t]), IX(ai[t], aj[t], m)]))
                rc.ens('the others are zero', forall(lambda r, t: Implies(And(r >= 0, r < m, t >= 0, t < n), Or(x[IX(r, t, m)] == zero(yt, prec, rnd), is_entry(W(IX(r, t, m)), r, t, nz))), 2, pats=lambda r, t: [IX(r, t, m)]))

    toobig = Or(n == MAXB, m * n > MAXB)

    def oom(rc):
        if rc.mode == 'check':
            hd = rc.st.heap[h.ptr.obj].fields['*']
            rc.ens('the handle is NULL', hd.null if isinstance(hd, Ptr) else FALSE)
            rc.ens('OUT_OF_MEMORY only when an allocation failed or the size does not fit', Or(rc.st.ghost.get('oom', FALSE), toobig))
        else:
            rc.out_null(('cell', h))
            rc.st.ghost['oom'] = TRUE
    bad = h.isnull
    return [Outcome('panic', PANIC, Not(init), nomod=True), Outcome('bad', INCORRECT, And(init, bad), nomod=True),
            Outcome('ok', OK, And(init, Not(bad)), ok), Outcome('oom', OOM, And(init, Not(bad)), oom)]


def _pick_copy(eng, st, vals):
    def cv(v):
        v = simp0(v)
        if not z3.is_int_value(v):
            raise Unsupported('SLIP_matrix_copy with a kind or type that is not a constant')
        return v.as_long()
    kn, tn = {v: k for k, v in KINDS.items()}, {v: k for k, v in TYPES.items()}
    if vals[3].obj is None:
        return ('bad', 'arg')
    o = st.heap[vals[3].obj]
    return (kn[cv(vals[1])], kn[cv(o.fields['kind'])], tn[cv(vals[2])], tn[cv(o.fields['type'])])


matrix_copy.pick = _pick_copy
COPYFNS = ['SLIP_matrix_copy']
