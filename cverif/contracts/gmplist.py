"""SLIP_gmp.c: the list of blocks allocated by the current GMP operation.

Pointers are addresses here (plain integers, 0 is NULL).  Ghost state:
  LIVE[a]  the block at address a is allocated          SIZE[a]  its size in bytes
  W[a][i]  the i-th pointer stored in the block at a
The archived number is an object whose limb pointers (dp; dd: denominator) are addresses.
GI, the invariant of the list: slip_gmp_list is NULL and the list is empty, or it is a live block of slip_gmp_nlist pointers whose first
slip_gmp_nmalloc are nonzero, live, pairwise different and different from the list itself.
"""
from .base import *
from .alloc import B_, mx

TU = 'SLIP_LU/Source/SLIP_gmp.c'
G = dict(L='slip_gmp_list', nm='slip_gmp_nmalloc', nl='slip_gmp_nlist', nt='slip_gmp_ntrials')
ARCH = ('slip_gmpz_archive', 'slip_gmpq_archive', 'slip_gmpfr_archive')
AW = arrsort(arrsort(I))
MAXSZ = 2 ** 63 - 1


def addr(v):
    return v if z3.is_expr(v) else IV(0)


class St:
    """list state read from an engine state"""

    def __init__(self, s):
        self.L, self.nm, self.nl = addr(s.globals[G['L']]), s.globals[G['nm']], s.globals[G['nl']]
        self.live, self.size, self.W = s.ghost['LIVE'], s.ghost['SIZE'], s.ghost['W']
        self.s = s

    def e(self, i):
        return z3.Select(z3.Select(self.W, self.L), i)

    def lv(self, a):
        return z3.Select(self.live, a)


def GI(x):
    return [And(x.nm >= 0, Implies(x.L == 0, x.nm == 0)),
            Implies(x.L != 0, And(x.L > 0, x.nl >= 1, x.nm <= x.nl, x.lv(x.L), z3.Select(x.size, x.L) >= 8 * x.nl, z3.Select(x.size, x.L) <= MAXSZ)),
            Implies(x.L != 0, forall(lambda i: Implies(And(i >= 0, i < x.nm), And(x.e(i) > 0, x.lv(x.e(i)), x.e(i) != x.L)), pats=lambda i: [x.e(i)])),
            Implies(x.L != 0, forall(lambda i, j: Implies(And(i >= 0, i < j, j < x.nm), x.e(i) != x.e(j)), 2, pats=lambda i, j: [(x.e(i), x.e(j))]))]


def samelive(a, b, *but):
    return forall(lambda k: Implies(And(*[k != t for t in but]), z3.Select(a, k) == z3.Select(b, k)), pats=lambda k: [z3.Select(b, k)])


class AddrMode:
    def __init__(self, eng):
        self.eng = eng

    def chk(self, st, a, i):
        x = St(st)
        self.eng.oblige(st, And(a != 0), 'null', 'the list is not NULL')
        self.eng.oblige(st, x.lv(a), 'uaf', 'the list is allocated')
        self.eng.oblige(st, And(i >= 0, 8 * i + 8 <= z3.Select(x.size, a)), 'bounds', 'index in the list')

    def load(self, st, a, i, ct):
        self.chk(st, a, i)
        return z3.Select(z3.Select(st.ghost['W'], a), i)

    def store(self, st, a, i, v, ct):
        self.chk(st, a, i)
        st.ghost['W'] = z3.Store(st.ghost['W'], a, z3.Store(z3.Select(st.ghost['W'], a), i, addr(v)))


def env(c, archive):
    eng, st = c.eng, c.state
    eng.addr_mode = AddrMode(eng)
    st.ghost['init'] = TRUE
    st.ghost['LIVE'] = fresh('live', z3.ArraySort(I, B))
    st.ghost['SIZE'] = fresh('size', arrsort(I))
    st.ghost['W'] = fresh('W', AW)
    st.ghost['jumped'] = FALSE
    st.globals[G['L']] = fresh('list')
    for g in ('nm', 'nl'):
        st.globals[G[g]] = fresh(g)
        st.assume(And(st.globals[G[g]] >= 0, st.globals[G[g]] <= 2 ** 62))
    st.globals[G['nt']] = fresh('ntrials')
    st.assume(And(st.globals[G['nt']] >= -2 ** 63, st.globals[G['nt']] < 2 ** 63, st.globals[G['L']] >= 0))
    eng.opaque_globals = {'slip_gmp_environment'}
    c.arch = None
    for a in ARCH:
        st.globals[a] = NULL
    if archive:
        k = {'z': 0, 'q': 1, 'f': 2}[archive]
        o = Obj('mp', elem=[MPZ, MPQ, MPFR][k], size=IV(1), name='archived', cls='ext')
        o.comp['dp'] = z3.K(I, fresh('limbs'))
        o.comp['dd'] = z3.K(I, fresh('limbs.den'))
        o.comp['st'] = z3.K(I, IV(1))
        c.arch = st.new(o, 'archived')
        st.globals[ARCH[k]] = Ptr(c.arch)
    c.akind = archive
    x = St(st)
    for f in GI(x):
        st.assume(f)
    st.assume(And(Not(x.lv(0))))

    def newblock(s, size, what):
        p = fresh(what)
        s.assume(And(p > 0, p < 2 ** 63, Not(z3.Select(s.ghost['LIVE'], p))))
        s.ghost['LIVE'] = z3.Store(s.ghost['LIVE'], p, TRUE)
        s.ghost['SIZE'] = z3.Store(s.ghost['SIZE'], p, size)
        return p

    def malloc(e, s, vals, ex):
        bad = s.copy()
        bad.ghost['oom'] = TRUE
        s.assume(vals[0] <= MAXSZ)
        p = newblock(s, mx(vals[0]), 'block')
        return [(s, p), (bad, IV(0))]

    def free(e, s, vals, ex):
        p = addr(vals[0])
        e.oblige(s, Or(p == 0, z3.Select(s.ghost['LIVE'], p)), 'free', 'SLIP_free: the block is allocated (no double free)')
        s.ghost['LIVE'] = If(simp0(p == 0), s.ghost['LIVE'], z3.Store(s.ghost['LIVE'], p, FALSE))
        return [(s, Opaque('void'))]

    def realloc(e, s, vals, ex):
        from ..prims import store_result
        nn, no, sz, p, okp = vals
        p = addr(p)
        e.oblige(s, And(p != 0, z3.Select(s.ghost['LIVE'], p)), 'free', 'SLIP_realloc: the block is allocated')
        e.oblige(s, simp0(sz == 8), 'pre', 'the list holds pointers')
        e.oblige(s, And(no >= 0, 8 * no <= z3.Select(s.ghost['SIZE'], p)), 'pre', 'SLIP_realloc: old item count is right')
        bad = s.copy()
        bad.assume(nn > no)
        bad.ghost['oom'] = TRUE
        store_result(e, bad, okp, FALSE)
        q = fresh('newlist')
        s.assume(And(q > 0, q < 2 ** 63, Or(q == p, Not(z3.Select(s.ghost['LIVE'], q))), 8 * nn <= MAXSZ))
        row = fresh('row', arrsort(I))
        old = z3.Select(s.ghost['W'], p)
        s.assume(forall(lambda i: Implies(And(i >= 0, i < no, i < nn), z3.Select(row, i) == z3.Select(old, i)), pats=lambda i: [z3.Select(row, i)]))
        s.ghost['LIVE'] = z3.Store(z3.Store(s.ghost['LIVE'], p, FALSE), q, TRUE)
        s.ghost['SIZE'] = z3.Store(s.ghost['SIZE'], q, 8 * nn)
        s.ghost['W'] = z3.Store(s.ghost['W'], q, row)
        store_result(e, s, okp, TRUE)
        return [(s, q), (bad, p)]

    eng.override.update(SLIP_malloc=malloc, SLIP_free=free, SLIP_realloc=realloc)
    c.longjmp = None

    def longjmp(e, s, vals, ex):
        if c.longjmp is None:
            e.fail(s, 'post', 'longjmp is not called here')
        else:
            c.longjmp(e, s, vals)
        return []
    eng.override['longjmp'] = longjmp
    eng.override['_longjmp'] = longjmp
    c.x0 = St(st.copy())
    return c.x0


def archptrs(c, s):
    """[limb pointers of the archived number]: (component, address of the block)"""
    if c.arch is None:
        return []
    o = s.heap[c.arch]
    r = [('dp', simp0(z3.Select(o.comp['dp'], 0)))]
    if c.akind == 'q':
        r.append(('dd', simp0(z3.Select(o.comp['dd'], 0))))
    return r


def block(c, a):
    """address of the block a limb pointer belongs to (MPFR keeps the size of the mantissa in front of it)"""
    return a - 8 if c.akind == 'f' else a


def archive_same(c, rc_or_eng, s, desc, ens):
    for (k, a), (_, b) in zip(archptrs(c, c.x0.s), archptrs(c, s)):
        ens('%s: limb pointer %s of the archived number is not changed' % (desc, k), a == b)
    for g in ARCH:
        v, w = c.x0.s.globals[g], s.globals[g]
        ens('%s: %s is not changed' % (desc, g), B_(isinstance(w, Ptr) and w.obj == v.obj))


CASES = [None, 'z', 'q', 'f']


@contract('slip_gmp_init', tu=TU)
def gmp_init(c):
    x = env(c, None)
    c.state.assume(x.L == 0)

    def ens(rc):
        y = St(c.state)
        r = rc.result
        r = r if r.sort() == B else r != 0
        rc.ens('the list is empty', y.nm == 0)
        rc.ens('the result tells whether the list exists', r == (y.L != 0))
        for f in GI(y):
            rc.ens('invariant of the list', f)
        rc.ens('no other block is allocated or released', samelive(x.live, y.live, y.L))
        rc.ens('false only when out of memory', Or(r, c.state.ghost['oom']))
    return [Outcome('any', None, ens=ens)]


@contract('slip_gmp_finalize', tu=TU)
def gmp_finalize(c):
    x = env(c, None)

    def ens(rc):
        y = St(c.state)
        for g in ARCH:
            w = c.state.globals[g]
            rc.ens('%s is NULL' % g, B_(isinstance(w, Ptr) and w.obj is None))
        rc.ens('the list is released', And(y.L == 0, y.nm == 0, y.nl == 0, Implies(x.L != 0, Not(y.lv(x.L)))))
        rc.ens('no other block is allocated or released', samelive(x.live, y.live, x.L))
    return [Outcome('any', None, ens=ens)]


def appended(x, y, p, size):
    yield 'the result is not NULL', p > 0
    yield 'the result is a new block', And(y.lv(p), Or(Not(x.lv(p)), And(p == x.L, y.L != x.L)))
    yield 'the block is large enough', z3.Select(y.size, p) >= mx(size)
    for f in GI(y):
        yield 'invariant of the list', f
    yield 'the list has one more entry, the new block', And(y.nm == x.nm + 1, y.e(x.nm) == p)
    yield 'the other entries are kept', forall(lambda i: Implies(And(i >= 0, i < x.nm), y.e(i) == x.e(i)), pats=lambda i: [y.e(i)])
    yield 'no other block is allocated or released', samelive(x.live, y.live, p, x.L, y.L)
    yield 'a list block that was replaced is released', Implies(And(x.L != 0, y.L != x.L, p != x.L), Not(y.lv(x.L)))
    yield 'the list is one block', And(y.L != p, Or(y.L == x.L, Not(x.lv(y.L))))
    yield 'sizes are kept', forall(lambda k: Implies(And(k != p, k != y.L), z3.Select(y.size, k) == z3.Select(x.size, k)), pats=lambda k: [z3.Select(y.size, k)])


@contract('slip_gmp_allocate', tu=TU, cases=['z'])
def gmp_allocate(c):
    x = env(c, c.case)
    size = c.val('size')
    nt = c.state.globals[G['nt']]
    c.eng.inline_from['slip_gmp_init'] = TU

    def jump(e, s, vals):
        y = St(s)
        def ens(d, f):
            e.oblige(s, f, 'post', '[longjmp] ' + d)
        ens('only when an allocation failed or the test limit is reached', Or(s.ghost['oom'], nt == 0))
        v = simp0(vals[1])
        ens('the status is not zero', v != 0)
        for f in GI(y):
            ens('invariant of the list', f)
        ens('the entries are kept', And(y.nm == x.nm, forall(lambda i: Implies(And(i >= 0, i < x.nm), y.e(i) == x.e(i)), pats=lambda i: [y.e(i)])))
        ens('no other block is allocated or released', samelive(x.live, y.live, x.L, y.L))
        ens('a list block that was replaced is released', Implies(And(x.L != 0, y.L != x.L), Not(y.lv(x.L))))
        archive_same(c, e, s, '', ens)
    c.longjmp = jump

    def ens(rc):
        y = St(c.state)
        for d, f in appended(x, y, addr(rc.result), size):
            rc.ens(d, f)
        archive_same(c, rc, c.state, '', rc.ens)
        n2 = c.state.globals[G['nt']]
        rc.ens('the test limit counts down', n2 == If(nt > 0, nt - 1, nt))
    return [Outcome('any', None, ens=ens)]


def removed(c, x, y, p, s0, s1):
    for f in GI(y):
        yield 'invariant of the list', f
    yield 'the list is the same block', And(y.L == x.L, y.nl == x.nl)
    yield 'p is not in the list', forall(lambda i: Implies(And(i >= 0, i < y.nm), y.e(i) != p), pats=lambda i: [y.e(i)])
    yield 'p is released, and nothing else', And(Implies(p != 0, Not(y.lv(p))), samelive(x.live, y.live, p))
    yield 'every entry other than p is kept', forall(lambda i: Implies(And(i >= 0, i < x.nm, x.e(i) != p),
                                                                         Or(And(i < y.nm, y.e(i) == x.e(i)), And(i == x.nm - 1, exists(lambda j: And(j >= 0, j < y.nm, y.e(j) == x.e(i)))))))
    yield 'no entry is new', forall(lambda i: Implies(And(i >= 0, i < y.nm), Or(y.e(i) == x.e(i), y.e(i) == x.e(x.nm - 1))), pats=lambda i: [y.e(i)])
    yield 'at most one entry disappears', And(y.nm <= x.nm, y.nm >= x.nm - 1)
    for (k, a), (_, b) in zip(archptrs(c, s0), archptrs(c, s1)):
        yield 'the limb pointer %s of the archived number is reset if its block is released, and only then' % k, \
            Implies(p != 0, b == If(block(c, a) == p, IV(0), a))
        yield 'releasing NULL changes no limb pointer that is set', Implies(And(p == 0, block(c, a) != 0), b == a)


@contract('slip_gmp_free', tu=TU, cases=CASES)
def gmp_free(c):
    x = env(c, c.case)
    p = c._next(fresh('p'))
    c.val('size')
    c.state.assume(And(p >= 0, Implies(p != 0, And(x.lv(p), p != x.L))))

    def inv(L):
        i = L['i']
        y = St(L.st)
        yield 'range', And(i >= 0, i <= x.nm)
        yield 'unchanged', And(y.L == x.L, y.nm == x.nm, y.nl == x.nl)
        yield 'p was not found', forall(lambda k: Implies(And(k >= 0, k < i), x.e(k) != p), pats=lambda k: [x.e(k)])
        yield 'list', z3.Select(y.W, x.L) == z3.Select(x.W, x.L)
    c.loop(0, inv, dec=lambda L: x.nm - L['i'])

    def ens(rc):
        y = St(c.state)
        for d, f in removed(c, x, y, p, x.s, c.state):
            rc.ens(d, f)
        for g in ARCH:
            v, w = x.s.globals[g], c.state.globals[g]
            rc.ens('%s is not changed' % g, B_(isinstance(w, Ptr) and w.obj == v.obj))
    c.no_frame = True
    return [Outcome('any', None, ens=ens)]


@contract('slip_gmp_reallocate', tu=TU, cases=CASES)
def gmp_reallocate(c):
    x = env(c, c.case)
    p = c._next(fresh('p_old'))
    osz, nsz = c.val('old_size'), c.val('new_size')
    c.state.assume(And(p >= 0, Implies(p != 0, And(x.lv(p), p != x.L, z3.Select(x.size, p) >= osz)), osz <= MAXSZ))
    c.state.ghost['trace'] = ()

    def allocate(e, s, vals, ex):
        """contract of slip_gmp_allocate; longjmp does not return"""
        a = St(s)
        s2 = s.copy()
        b = s2
        b.globals[G['L']], b.globals[G['nm']], b.globals[G['nl']] = fresh('list'), fresh('nm'), fresh('nl')
        b.ghost['LIVE'], b.ghost['SIZE'], b.ghost['W'] = fresh('live', z3.ArraySort(I, B)), fresh('size', arrsort(I)), fresh('W', AW)
        q = fresh('p_new')
        for d, f in appended(a, St(b), q, vals[0]):
            b.assume(f)
        b.ghost['trace'] += (('allocate', vals[0], q),)
        b.ghost['mid'] = True
        c.mid = None
        return [(b, q)]

    def memcpy(e, s, vals, ex):
        y = St(s)
        d, r, n = addr(vals[0]), addr(vals[1]), vals[2]
        for w, a in (('source', r), ('destination', d)):
            e.oblige(s, And(a != 0, y.lv(a)), 'uaf', 'memcpy: the %s is allocated' % w)
            e.oblige(s, n <= z3.Select(y.size, a), 'bounds', 'memcpy: the %s is large enough' % w)
        e.oblige(s, d != r, 'pre', 'memcpy: no overlap')
        s.ghost['trace'] += (('memcpy', d, r, n),)
        return [(s, d)]

    def gfree(e, s, vals, ex):
        q = addr(vals[0])
        a = St(s)
        e.oblige(s, Implies(q != 0, And(a.lv(q), q != a.L)), 'pre', 'slip_gmp_free: the block is allocated')
        b = s.copy()
        b.globals[G['nm']] = fresh('nm')
        b.ghost['LIVE'], b.ghost['W'] = fresh('live', z3.ArraySort(I, B)), fresh('W', AW)
        if c.arch is not None:
            o = b.wobj(c.arch)
            o.comp['dp'] = z3.K(I, fresh('limbs'))
            o.comp['dd'] = z3.K(I, fresh('limbs.den'))
        for d, f in removed(c, a, St(b), q, s, b):
            b.assume(f)
        b.ghost['trace'] += (('free', q, a, St(b)),)
        return [(b, Opaque('void'))]
    c.eng.override.update(slip_gmp_allocate=allocate, memcpy=memcpy, __builtin_memcpy=memcpy, __builtin___memcpy_chk=memcpy, slip_gmp_free=gfree)
    c.no_frame = True

    def ens(rc):
        y = St(c.state)
        tr = c.state.ghost['trace']
        r = addr(rc.result)
        kinds = [t[0] for t in tr]
        for f in GI(y):
            rc.ens('invariant of the list', f)
        if kinds == ['allocate']:
            rc.ens('realloc of NULL allocates', And(p == 0, tr[0][1] == nsz, r == tr[0][2]))
        elif kinds == ['free']:
            rc.ens('realloc to size 0 releases p and returns NULL', And(p != 0, nsz == 0, tr[0][1] == p, r == 0))
        elif kinds == ['allocate', 'memcpy', 'free']:
            q = tr[0][2]
            rc.ens('the new block has the new size', And(p != 0, tr[0][1] == nsz))
            rc.ens('the old content is copied to the new block', And(tr[1][1] == q, tr[1][2] == p, tr[1][3] == If(osz < nsz, osz, nsz)))
            rc.ens('the old block is released', And(tr[2][1] == p, Not(y.lv(p))))
            rc.ens('the new block is returned, and allocated', And(r == q, y.lv(q)))
        else:
            rc.ens('realloc is one of: allocate, free, allocate-copy-free (got %s)' % kinds, FALSE)
    return [Outcome('any', None, ens=ens)]


@contract('slip_gmp_failure', tu=TU, cases=CASES)
def gmp_failure(c):
    x = env(c, c.case)
    c.val('status')
    c.eng.inline_from['slip_gmp_finalize'] = TU
    c.no_frame = True
    mid = {}
    a0 = archptrs(c, c.state)
    for k, a in a0:
        # the archived number has no limbs, or its limbs are allocated, by this operation or before it
        c.state.assume(Or(a == 0, And(a > 8, x.lv(block(c, a)), block(c, a) != x.L)))

    def cache(e, s, vals, ex):
        """mpfr_free_cache: releases blocks of the MPFR caches through slip_gmp_free; none of them belongs to the archived number"""
        b = s
        b.globals[G['nm']] = fresh('nm')
        b.ghost['LIVE'], b.ghost['W'] = fresh('live', z3.ArraySort(I, B)), fresh('W', AW)
        y = St(b)
        for f in GI(y):
            b.assume(f)
        b.assume(y.nm <= x.nm)
        # a block that is still allocated was allocated before; an entry of the old list is still allocated only if it is still in the list
        b.assume(forall(lambda k: Implies(y.lv(k), x.lv(k)), pats=lambda k: [y.lv(k)]))
        pos = z3.Function('pos!%d' % next(_ctr), I, I)
        b.assume(forall(lambda i: Implies(And(i >= 0, i < x.nm, y.lv(x.e(i))), And(pos(i) >= 0, pos(i) < y.nm, y.e(pos(i)) == x.e(i))), pats=lambda i: [x.e(i)]))
        for k, a in archptrs(c, b):
            b.assume(Implies(a != 0, y.lv(block(c, a))))
        mid['y'] = St(b.copy())
        b.ghost['cached'] = b.ghost.get('cached', 0) + 1
        return [(b, Opaque('void'))]
    c.eng.override['mpfr_free_cache'] = cache
    from ..core import _ctr

    def inv(L):
        i = L['i']
        y = St(L.st)
        m = mid.get('y', x)
        yield 'range', And(i >= 0, i <= m.nm)
        yield 'unchanged', And(y.L == m.L, y.nm == m.nm, y.nl == m.nl)
        yield 'entries before i are released', forall(lambda k: Implies(And(k >= 0, k < i), Not(y.lv(m.e(k)))), pats=lambda k: [m.e(k)])
        yield 'the other entries are still there', forall(lambda k: Implies(And(k >= i, k < m.nm), And(y.e(k) == m.e(k), y.lv(m.e(k)))), pats=lambda k: [y.e(k), m.e(k)])
        yield 'the list is allocated', Implies(m.L != 0, y.lv(m.L))
        yield 'nothing else is released', forall(lambda k: Implies(And(m.lv(k), Not(y.lv(k))), exists(lambda j: And(j >= 0, j < i, m.e(j) == k))), pats=lambda k: [y.lv(k)])
        yield 'nothing is allocated', forall(lambda k: Implies(y.lv(k), m.lv(k)), pats=lambda k: [y.lv(k)])
        for (kk, a), (_, b) in zip(a0, archptrs(c, L.st)):
            yield 'limb pointer %s of the archived number' % kk, If(And(b == 0, a != 0), exists(lambda j: And(j >= 0, j < i, m.e(j) == block(c, a))),
                                                                     And(b == a, Implies(a != 0, y.lv(block(c, a)))))
    c.loop(0, inv, dec=lambda L: mid.get('y', x).nm - L['i'])

    def ens(rc):
        y = St(c.state)
        m = mid.get('y', x)
        rc.ens('the MPFR caches are released', B_(c.state.ghost.get('cached') == 1))
        rc.ens('the list is released', And(y.L == 0, y.nm == 0, y.nl == 0, Implies(x.L != 0, Not(y.lv(x.L)))))
        rc.ens('every block the operation allocated is released', forall(lambda i: Implies(And(x.L != 0, i >= 0, i < x.nm), Not(y.lv(x.e(i)))), pats=lambda i: [x.e(i)]))
        rc.ens('a block that is not in the list is not released', forall(lambda k: Implies(And(m.lv(k), k != x.L, Not(y.lv(k))),
                                                                                          exists(lambda j: And(j >= 0, j < m.nm, m.e(j) == k))), pats=lambda k: [y.lv(k)]))
        for (kk, a), (_, b) in zip(a0, archptrs(c, c.state)):
            rc.ens('the archived number can be cleared: its limb pointer %s is NULL, or unchanged and its block still allocated' % kk,
                   Or(b == 0, And(b == a, y.lv(block(c, a)))))
        for g in ARCH:
            w = c.state.globals[g]
            rc.ens('%s is NULL' % g, B_(isinstance(w, Ptr) and w.obj is None))
    return [Outcome('any', None, ens=ens)]


LISTFNS = ['slip_gmp_init', 'slip_gmp_finalize', 'slip_gmp_allocate', 'slip_gmp_free', 'slip_gmp_reallocate', 'slip_gmp_failure']
