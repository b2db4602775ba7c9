"""memory functions: SuiteSparse_malloc/calloc/realloc/free and SLIP_malloc/calloc/realloc/free.

The allocator is whatever SuiteSparse_config.*_func point to: an arbitrary allocator that returns a block of at least the requested size or NULL.
The bodies of the four SuiteSparse functions are inlined into the SLIP_* functions.  The test for overflow is done in double precision by the code;
here double has its IEEE meaning as far as the test needs it: conversion and product are correctly rounded (relative error 2^-53, exact below 2^53).
"""
from .base import *
from ..lib import SSC
from .. import engine as _e

D2R = z3.Function('d2r', F, R)
U64 = 2 ** 64
MAXNORM = z3.RealVal(2) ** 0


def rnd_axioms(c):
    """conversion of an integer and product of two doubles, rounded to nearest"""
    eng = c.eng
    u = z3.Q(1, 2 ** 53)

    def i2d(st, v):
        t = I2D(v)
        rv = z3.ToReal(v)
        st.assume(And(Implies(And(v >= 0), And(D2R(t) >= rv - u * rv, D2R(t) <= rv + u * rv)), Implies(And(v >= -2 ** 53, v <= 2 ** 53), D2R(t) == rv)))
        st.ghost['i2d'] = st.ghost.get('i2d', ()) + (v,)
        return t

    def farith(st, op, a, b):
        t = ffun({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], 2)(a, b)
        if op == '*':
            x, y, p = D2R(a), D2R(b), D2R(t)
            q = fresh('exactprod', R)
            va = [v for v in st.ghost.get('i2d', ()) if I2D(v).eq(a)]
            vb = [v for v in st.ghost.get('i2d', ()) if I2D(v).eq(b)]
            st.assume(And(q == x * y, Implies(q >= 0, And(p >= q - u * q, p <= q + u * q))))
            for v in va:
                for w in vb:
                    # both operands are exact: the product is the rounding of the integer v*w, i.e. its conversion
                    eng.mul_lemma(st, v, w)
                    st.assume(Implies(And(v >= 0, w >= 0, v <= 2 ** 53, w <= 2 ** 53), t == I2D(v * w)))
                    # relative error of the whole expression (two conversions and the product): (1-u)^3 >= 1-3u, (1+u)^3 <= 1+4u
                    vw = z3.ToReal(v * w)
                    st.assume(Implies(And(v >= 0, w >= 0), And(p >= vw - 3 * u * vw, p <= vw + 4 * u * vw)))
        return t
    eng.i2d, eng.farith = i2d, farith
    c.state.assume(z3.ForAll([_x, _y], fpred('eq')(_x, _y) == (D2R(_x) == D2R(_y)), patterns=[fpred('eq')(_x, _y)]))


_x, _y = z3.Consts('fx fy', F)


def mx(v):
    return If(v < 1, IV(1), v)


def allocator(c):
    """the user's allocator; every call is recorded"""
    eng, st = c.eng, c.state
    st.ghost['trace'] = ()
    st.ghost['init'] = fresh('slip_init', B)
    for f in ('malloc', 'calloc', 'realloc', 'free'):
        st.globals['SuiteSparse_config.%s_func' % f] = FnPtr('user_' + f, FALSE)

    def blk(s, size, zero):
        nul = fresh('nomem', B)
        o = Obj('raw', cls='heap', name='block', bytes=size, zero=zero)
        o.alive = Not(nul)
        return Ptr(s.new(o, 'blk'), IV(0), nul)

    def user_malloc(e, s, vals, ex):
        p = blk(s, vals[0], False)
        s.ghost['trace'] += (('malloc', vals[0], p),)
        return [(s, p)]

    def user_calloc(e, s, vals, ex):
        p = blk(s, vals[0] * vals[1], True)
        s.ghost['trace'] += (('calloc', vals[0], vals[1], p),)
        return [(s, p)]

    def user_realloc(e, s, vals, ex):
        q = vals[0]
        e.oblige(s, Not(q.null), 'pre', 'realloc gets a block')
        e.oblige(s, s.heap[q.obj].alive if q.obj is not None else FALSE, 'free', 'realloc: the block is allocated')
        p = blk(s, vals[1], False)
        o = s.wobj(q.obj)
        o.alive = simp0(And(o.alive, p.null))
        s.ghost['trace'] += (('realloc', q, vals[1], p),)
        return [(s, p)]

    def user_free(e, s, vals, ex):
        q = vals[0]
        e.oblige(s, Not(q.null) if isinstance(q, Ptr) else FALSE, 'pre', 'free gets a block')
        if q.obj is not None:
            e.oblige(s, s.heap[q.obj].alive, 'free', 'free: the block is allocated (no double free)')
            s.wobj(q.obj).alive = FALSE
        s.ghost['trace'] += (('free', q),)
        return [(s, Opaque('void'))]

    eng.override.update(user_malloc=user_malloc, user_calloc=user_calloc, user_realloc=user_realloc, user_free=user_free)

    def direct(n):
        def h(e, s, vals, ex):
            raise_direct(e, s, n)
            return [(s, NULL)]
        return h
    for f in ('malloc', 'calloc', 'realloc', 'free'):
        eng.override[f] = direct(f)
    for f in ('SuiteSparse_malloc', 'SuiteSparse_calloc', 'SuiteSparse_realloc', 'SuiteSparse_free'):
        if f != c.spec.name:
            eng.inline_from[f] = SSC


def raise_direct(e, s, n):
    e.fail(s, 'post', 'memory comes from the registered allocator, not from %s directly' % n)


def same_ptr(a, b):
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
        return FALSE
    if a.obj is None or b.obj is None:
        return And(a.null, b.null)
    if a.obj == b.obj:
        return Or(And(a.null, b.null), And(a.null == b.null, a.off == b.off))
    return And(a.null, b.null)


def B_(b):
    return TRUE if b else FALSE


def alloc_spec(kind, slip):
    def spec(c):
        allocator(c)
        rnd_axioms(c)
        init = c.state.ghost['init'] if slip else TRUE
        if kind == 'malloc' and slip:
            n, s = IV(1), c.val('size')
        else:
            n, s = c.val('nitems'), c.val('size_of_item')
        n1, s1 = mx(n), mx(s)
        c.eng.mul_lemma(c.state, n1, s1)

        def ens(rc):
            tr = [t for t in c.state.ghost['trace']]
            r = rc.result
            rc.ens('the allocator is called at most once', B_(len(tr) <= 1))
            if not tr:
                rc.ens('NULL is returned if nothing was allocated', r.null if isinstance(r, Ptr) else FALSE)
                rc.ens('no request below 2^53 items of less than 2^53 bytes is refused', Or(Not(init), n1 > 2 ** 53, s1 > 2 ** 53, n1 * s1 >= U64))
                return
            t = tr[0]
            rc.ens('nothing is allocated before SLIP_initialize', init)
            rc.ens('the block is allocated with the registered %s' % kind, B_(t[0] == kind))
            rc.ens('the result is the block', same_ptr(r, t[-1]))
            rc.ens('a request that overflows size_t is refused', n1 * s1 < U64)
            if t[0] == 'calloc':
                rc.ens('the size of the block', And(t[1] * t[2] == n1 * s1))
            elif t[0] == 'malloc':
                rc.ens('the size of the block', t[1] == n1 * s1)
            if isinstance(r, Ptr) and r.obj is not None:
                rc.owned.add(r.obj)
        return [Outcome('any', None, ens=ens)]
    return spec


def realloc_spec(slip):
    def spec(c):
        allocator(c)
        rnd_axioms(c)
        init = c.state.ghost['init'] if slip else TRUE
        nn, no, s = c.val('nitems_new'), c.val('nitems_old'), c.val('size_of_item')
        # p: NULL or a block of nitems_old items
        o = Obj('raw', cls='heap', name='p', zero=False, bytes=mx(no) * mx(s))
        nul = fresh('p.null', B)
        p = c._next(Ptr(c.state.new(o, 'p'), IV(0), nul))
        o.alive = TRUE
        ok = c.arr('ok', CT('int', name='bool', bits=8, signed=False) if False else c.ptype(4).to, 1)
        c.mod(ok)
        if slip:
            c.req('item counts are not negative', And(nn >= 0, no >= 0))
        n1, s1, no1 = mx(nn), mx(s), mx(no)
        c.eng.mul_lemma(c.state, n1, s1)
        isok = lambda: ok[0] if ok[0].sort() == B else ok[0] != 0

        def ens(rc):
            tr = list(c.state.ghost['trace'])
            r = rc.result
            good = isok()
            if ok[0].sort() != B:
                rc.ens('*ok is 0 or 1', Or(ok[0] == 0, ok[0] == 1))
            rc.ens('the allocator is called at most once', B_(len(tr) <= 1))
            alive = c.state.heap[p.obj].alive
            rc.freedset.add(p.obj)
            if not tr:
                rc.ens('p is returned', same_ptr(r, p))
                rc.ens('p is still allocated', alive)
                rc.ens('success only if the size does not change', Implies(good, And(init, Not(nul), n1 == no1)))
                rc.ens('failure without asking the allocator only before SLIP_initialize or if the size overflows',
                       Implies(Not(good), Or(Not(init), n1 > 2 ** 53, s1 > 2 ** 53, n1 * s1 >= U64)))
                return
            rc.ens('nothing is allocated before SLIP_initialize', init)
            rc.ens('a request that overflows size_t is refused', n1 * s1 < U64)
            t = tr[0]
            new = t[-1]
            if isinstance(new, Ptr):
                rc.owned.add(new.obj)
            if t[0] == 'malloc':
                rc.ens('a new block is allocated only if p is NULL', nul)
                rc.ens('the size of the new block', t[1] == n1 * s1)
                rc.ens('the new block is returned', same_ptr(r, new))
                rc.ens('success is reported exactly', good == Not(new.null))
            elif t[0] == 'realloc':
                rc.ens('the block that is reallocated is p', And(Not(nul), same_ptr(t[1], p)))
                rc.ens('the size of the new block', t[2] == n1 * s1)
                rc.ens('on success the new block is returned', Implies(Not(new.null), And(good, same_ptr(r, new))))
                rc.ens('if the allocator fails the old block is returned and still allocated', Implies(new.null, And(alive, same_ptr(r, p))))
                rc.ens('failure is reported unless the block shrinks', Implies(new.null, good == (n1 < no1)))
            else:
                rc.ens('the block is allocated with malloc or realloc', FALSE)
        return [Outcome('any', None, ens=ens)]
    return spec


def free_spec(slip):
    def spec(c):
        allocator(c)
        init = c.state.ghost['init'] if slip else TRUE
        o = Obj('raw', cls='heap', name='p', zero=False, bytes=fresh('bytes'))
        o.alive = TRUE
        nul = fresh('p.null', B)
        p = c._next(Ptr(c.state.new(o, 'p'), IV(0), nul))

        def ens(rc):
            tr = list(c.state.ghost['trace'])
            rc.freedset.add(p.obj)
            rc.ens('the allocator is called at most once', B_(len(tr) <= 1))
            if not slip:
                rc.ens('NULL is returned', rc.result.null if isinstance(rc.result, Ptr) else FALSE)
            if not tr:
                rc.ens('a block is released', Or(nul, Not(init)))
                return
            rc.ens('only p is released, with the registered free', And(B_(tr[0][0] == 'free'), same_ptr(tr[0][1], p)))
            rc.ens('nothing is released before SLIP_initialize', init)
        return [Outcome('any', None, ens=ens)]
    return spec


for _k in ('malloc', 'calloc'):
    contract('SuiteSparse_' + _k, tu=SSC)(alloc_spec(_k, False))
    contract('SLIP_' + _k)(alloc_spec(_k, True))
contract('SuiteSparse_realloc', tu=SSC)(realloc_spec(False))
contract('SLIP_realloc')(realloc_spec(True))
contract('SuiteSparse_free', tu=SSC)(free_spec(False))
contract('SLIP_free')(free_spec(True))
ALLOCFNS = ['SuiteSparse_malloc', 'SuiteSparse_calloc', 'SuiteSparse_realloc', 'SuiteSparse_free', 'SLIP_malloc', 'SLIP_calloc', 'SLIP_realloc', 'SLIP_free']
