"""conversion to integers: slip_expand_*_array"""
from .base import *
from .matrices import opt_prec, opt_round
from ..prims import FINITE, D2R, FR2Q, DIVS, Q2Z, GETSI, Q2D, Z2D, fr

P17 = 10 ** 17
FGETZ = z3.Function('fr_get_z', FR, I, I)


def expand_args(c, elem):
    internal(c)
    n = fresh('n') if c.defmode else c.args[3]
    y = c.arr('x_out', MPZ, n)
    x = c.arr('x', elem, n, ro=True)
    s = c.mp('scale', MPQ)
    c._next(n)
    if c.defmode:
        c.state.assume(And(n >= 0, n <= MAXB // 8))
    opt = c.options()
    c.req('n is not negative', n >= 0)
    c.req('numbers are initialised', And(y.all(0, n, y.init, pat=lambda k: [y.st(k)]), s.init()))
    if elem.k == 'mp':
        c.req('input numbers are initialised', x.all(0, n, x.init, pat=lambda k: [x.st(k)]))
    c.mod(y)
    c.mod(s)
    return n, y, x, s, opt


def usable(rc, y, s, n):
    rc.oom()
    rc.ens('every number can be cleared', And(y.all(0, n, y.clearable, pat=lambda k: [y.st(k)]), s.clearable()))
    rc.ens('numbers beyond n are not touched', y.all(n, y.obj().size, lambda k: And(y.st(k) == y.old.st(k), y[k] == y.old[k]), pat=lambda k: [y.st(k)]))


def others(y, n):
    return y.all(n, y.obj().size, lambda k: And(y.st(k) == y.old.st(k), y[k] == y.old[k]), pat=lambda k: [y.st(k)])


def scaled(name, elem, entry, unit):
    """x_out = scale * x for numbers that are first multiplied by a constant and rounded to integers
    entry(c, x, opt)(k): integer of entry k; unit(c, opt): the constant"""
    def spec(c):
        n, y, x, s, opt = expand_args(c, elem)
        prec, rnd = opt_prec(opt), opt_round(opt)
        Z = entry(x, prec, rnd)
        U = unit(prec, rnd)
        if c.defmode:
            if elem is F64T:
                def power(e, st, vals, ex):
                    if not (simp0(vals[0]).eq(fconst(10)) and simp0(vals[1]).eq(fconst(17))):
                        raise Unsupported('pow of other numbers')
                    r = TEN17
                    st.assume(And(FINITE(r), D2R(r) == z3.RealVal(P17)))
                    return [(st, r)]
                c.eng.override['pow'] = power
                c.eng.assume_note('pow(10,17) is exactly 10^17') if hasattr(c.eng, 'assume_note') else None
            c.state.assume(U > 0)
        # ---- loops
        ok1 = lambda: y.all(0, n, y.init, pat=lambda k: [y.st(k)])

        def x3ok(L):
            M = L.mat('x3', 'DENSE', 'MPFR')
            return M.x.all(0, M.nzmax, lambda k: And(M.x.init(k), M.x.sel('prec', k) == prec), pat=lambda k: [M.x.st(k), M.x.sel('prec', k)])

        def inv0(L):
            i = L['i']
            yield 'range', And(i >= 0, i <= n)
            yield 'initialised', ok1()
            yield 'numbers of x3', x3ok(L)
            yield 'scale', s.init() if elem is not F64T else And(s.init(), s.canon(), s.v == z3.ToReal(U))
            yield 'converted so far', forall(lambda k: Implies(And(k >= 0, k < i), y[k] == Z(k)), pats=lambda k: [y[k]])
            yield 'beyond n', others(y, n)

        def common(L):
            yield 'initialised', ok1()
            yield 'scale', And(s.init(), s.canon(), s.v == z3.ToReal(U))
            yield 'numbers of x3', x3ok(L)
            yield 'beyond n', others(y, n)

        def gcdv(L):
            g = L.view('gcd')
            return g

        def inv1(L):
            i = L['i']
            g = gcdv(L)
            nzf = L['nz_found']
            nzf = nzf if nzf.sort() == B else nzf != 0
            yield 'range', And(i >= 0, i <= n)
            yield from common(L)
            yield 'converted', forall(lambda k: Implies(And(k >= 0, k < n), y[k] == Z(k)), pats=lambda k: [y[k]])
            yield 'gcd is a number', g.init()
            yield 'one', L.view('one').v == 1
            yield 'one is a number', L.view('one').init()
            yield 'r2', L['r2'] != 0
            yield 'all zero so far', Implies(Not(nzf), forall(lambda k: Implies(And(k >= 0, k < i), y[k] == 0), pats=lambda k: [y[k]]))
            k0 = L['k'] if L.has('k') else None
            if k0 is not None:
                yield 'found', Implies(nzf, And(k0 >= 0, k0 < i, g.v != 0,
                                                forall(lambda k: Implies(And(k >= 0, k < k0), y[k] == 0), pats=lambda k: [y[k]]),
                                                forall(lambda k: Implies(And(k >= k0, k < i), Or(DIVS(g.v, y[k]), g.v == y[k])), pats=lambda k: [y[k]])))
            else:
                yield 'found', Not(nzf)

        def inv2(L):
            i = L['i']
            g = gcdv(L)
            k0 = L.at_entry('k')
            yield 'range', And(i >= 0, i >= k0, i <= n)
            yield from common(L)
            yield 'gcd is a number', And(g.init(), g.v != 0)
            yield 'zeros', forall(lambda k: Implies(And(k >= 0, k < k0), And(y[k] == 0, Z(k) == 0)), pats=lambda k: [y[k]])
            yield 'divided so far', forall(lambda k: Implies(And(k >= k0, k < i), y[k] * g.v == Z(k)), pats=lambda k: [y[k]])
            yield 'not yet', forall(lambda k: Implies(And(k >= i, k < n), And(y[k] == Z(k), Or(DIVS(g.v, y[k]), g.v == y[k]))), pats=lambda k: [y[k]])
        c.loop(0, inv0, dec=lambda L: n - L['i'])
        c.loop(1, inv1, dec=lambda L: n - L['i'])
        c.loop(2, inv2, dec=lambda L: n - L['i'])

        def ok(rc):
            rc.ens('numbers are initialised', And(ok1(), s.init(), s.canon()))
            rc.ens('scale is not zero', s.v != 0)
            rc.ens('every integer is the entry times the scale', forall(lambda k: Implies(And(k >= 0, k < n), z3.ToReal(y[k]) * z3.ToReal(U) == z3.ToReal(Z(k)) * s.v), pats=lambda k: [y[k]]))
            rc.ens('numbers beyond n are not touched', others(y, n))
        return [Outcome('ok', OK, None, ok), Outcome('oom', OOM, None, lambda rc: usable(rc, y, s, n))]
    contract(name)(spec)
    return spec


TEN17 = z3.Const('ten17', F)


def double_entry(x, prec, rnd):
    def Z(k):
        return FGETZ(fr('mul_d', fr('set_d', x[k], prec, rnd), TEN17, prec, rnd), rnd)
    return Z


def mpfr_entry(x, prec, rnd):
    def Z(k):
        return FGETZ(fr('mul', x[k], fr('ui_pow_ui', IV(2), prec, prec, rnd), prec, rnd), rnd)
    return Z


scaled('slip_expand_double_array', F64T, double_entry, lambda prec, rnd: IV(P17))
scaled('slip_expand_mpfr_array', MPFR, mpfr_entry, lambda prec, rnd: FGETZ(fr('ui_pow_ui', IV(2), prec, prec, rnd), rnd))


@contract('slip_expand_mpq_array')
def expand_mpq(c):
    n, y, x, s, opt = expand_args(c, MPQ)
    c.req('rationals are in canonical form', x.all(0, n, x.canon, pat=lambda k: [x[k]]))
    den = lambda k: x.sel('pd', k)

    def x3(L):
        M = L.mat('x3', 'DENSE', 'MPZ')
        return M.x.all(0, M.nzmax, M.x.init, pat=lambda k: [M.x.st(k)])

    def x4(L):
        M = L.mat('x4', 'DENSE', 'MPQ')
        return M.x.all(0, M.nzmax, lambda k: And(M.x.init(k), M.x.canon(k)), pat=lambda k: [M.x.st(k), M.x[k]])

    def common(L, i):
        yield 'range', And(i >= 0, i <= n)
        yield 'x3', x3(L)
        yield 'x4', x4(L)
        yield 'initialised', And(y.all(0, n, y.init, pat=lambda k: [y.st(k)]), s.init())

    def dens(L, hi):
        M = L.mat('x3', 'DENSE', 'MPZ')
        return forall(lambda k: Implies(And(k >= 0, k < hi), M.x[k] == den(k)), pats=lambda k: [M.x[k]])

    def inv0(L):
        yield from common(L, L['i'])
        yield 'denominators so far', dens(L, L['i'])

    def inv1(L):
        i = L['i']
        t = L.view('temp')
        yield from common(L, i)
        yield 'denominators', dens(L, n)
        yield 'lcm', And(t.init(), t.v > 0)
        yield 'lcm so far', forall(lambda k: Implies(And(k >= 0, k < i), Or(DIVS(den(k), t.v), den(k) == t.v)), pats=lambda k: [den(k)])

    def inv2(L):
        i = L['i']
        t = L.view('temp')
        yield from common(L, i)
        yield 'scale', And(s.v == z3.ToReal(t.v), t.v > 0, s.canon())
        yield 'common multiple', forall(lambda k: Implies(And(k >= 0, k < n), Or(DIVS(den(k), t.v), den(k) == t.v)), pats=lambda k: [den(k)])
        yield 'scaled so far', forall(lambda k: Implies(And(k >= 0, k < i), z3.ToReal(y[k]) == x[k] * s.v), pats=lambda k: [y[k]])
        yield 'beyond n', others(y, n)

    def head2(L):
        i = L['i']
        t = L.view('temp')
        q = fresh('q')
        L.lemma(Implies(DIVS(den(i), t.v), t.v == den(i) * q))      # definition of divides
        L.lemma(Implies(And(den(i) == t.v, Not(DIVS(den(i), t.v))), q == 1))
        num = x.sel('pn', i)
        L.check('canonical', Implies(i < n, And(den(i) > 0, num == QNUM(x[i]), den(i) == QDEN(x[i]), Or(DIVS(den(i), t.v), den(i) == t.v))))
        L.lemma(x[i] * z3.ToReal(QDEN(x[i])) == z3.ToReal(QNUM(x[i])))       # definition of numerator and denominator
        L.check('multiple', Implies(i < n, t.v == den(i) * q))
        w = fresh('w')
        v = simp0(x[i] * z3.ToReal(t.v))
        L.lemma(w == num * q)
        L.check('scale', s.v == z3.ToReal(t.v))
        L.check('x times the scale', Implies(i < n, x[i] * s.v == z3.ToReal(w)))
        L.lemma(Implies(x[i] * s.v == z3.ToReal(w), Q2Z(v) == w))      # what truncation does to an integer
    c.loop(0, inv0, dec=lambda L: n - L['i'])
    c.loop(1, inv1, dec=lambda L: n - L['i'])
    c.loop(2, inv2, dec=lambda L: n - L['i'], head=head2)

    def ok(rc):
        rc.ens('numbers are initialised', And(y.all(0, n, y.init, pat=lambda k: [y.st(k)]), s.init(), s.canon()))
        rc.ens('scale is positive', s.v > 0)
        rc.ens('every integer is the entry times the scale', forall(lambda k: Implies(And(k >= 0, k < n), z3.ToReal(y[k]) == x[k] * s.v), pats=lambda k: [y[k]]))
        rc.ens('numbers beyond n are not touched', others(y, n))
    return [Outcome('ok', OK, None, ok), Outcome('oom', OOM, None, lambda rc: usable(rc, y, s, n))]


# --------------------------------------------------------------------------- casts
ISNAN = z3.Function('d_isnan', F, B)
IMAX, IMIN = 2 ** 63 - 1, -2 ** 63


def trunc(r):
    return If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))


def sat(d):
    """double to int64: truncated, saturated, 0 for NaN (D2R orders the infinities beyond all numbers)"""
    return If(ISNAN(d), IV(0), If(D2R(d) >= z3.RealVal(2 ** 63), IV(IMAX), If(D2R(d) < z3.RealVal(-2 ** 63), IV(IMIN), trunc(D2R(d)))))


@contract('slip_cast_double_to_int64', tu='SLIP_LU/Source/slip_cast_array.c')
def cast_double(c):
    x = c.val('x')
    if c.defmode:
        def i2d(st, v):
            t = I2D(v)
            w = simp0(v)
            if z3.is_int_value(w):
                st.assume(D2R(t) == z3.RealVal(int(float(w.as_long()))))     # rounded to nearest
            return t

        def d2i(st, v, ct):
            lo, hi = ct.range()
            c.eng.oblige(st, And(Not(ISNAN(v)), D2R(v) > z3.RealVal(lo) - 1, D2R(v) < z3.RealVal(hi) + 1), 'overflow', 'double fits the integer type')
            return trunc(D2R(v))
        c.eng.i2d, c.eng.d2i = i2d, d2i
        a, b = z3.Consts('fx fy', F)
        c.state.assume(z3.ForAll([a, b], Implies(And(Not(ISNAN(a)), Not(ISNAN(b))), fpred('lt')(a, b) == (D2R(a) < D2R(b))), patterns=[fpred('lt')(a, b)]))
        c.state.assume(z3.ForAll([a, b], Implies(And(Not(ISNAN(a)), Not(ISNAN(b))), fpred('le')(a, b) == (D2R(a) <= D2R(b))), patterns=[fpred('le')(a, b)]))
        c.state.assume(z3.ForAll([_v], Not(ISNAN(I2D(_v))), patterns=[I2D(_v)]))
    return [Outcome('any', 'int', None, lambda rc: rc.ens('truncated or saturated', rc.result == sat(x)), nomod=True)]


_v = z3.Const('v!', I)
FGETD = z3.Function('fr_get_d', FR, I, F)
FGETSI = z3.Function('fr_get_si', FR, I, I)
QDIVS = z3.Function('q_div', R, R, R)
TNAMES = list(TYPES)


def conversion(yt, xt, x, y, xs, ys, prec, rnd, k, l=None, yv=None):
    """what entry l of y is, given entry k of x (xs, ys: scale factors); prec: precision of the target"""
    l = k if l is None else l
    v = x[k]
    w = y[l] if yv is None else yv
    p = y.sel('prec', l) if yt == 'MPFR' and prec is None else prec
    tr = z3.ToReal
    q = QDIVS(tr(v), xs) if xt == 'MPZ' else None       # v / scale
    if yt == 'MPZ':
        if xt in ('MPZ', 'INT64'):
            return w == v
        if xt == 'MPQ':
            return tr(w) == v * ys
        U = IV(P17) if xt == 'FP64' else FGETZ(fr('ui_pow_ui', IV(2), prec, prec, rnd), rnd)
        Z = double_entry(x, prec, rnd)(k) if xt == 'FP64' else mpfr_entry(x, prec, rnd)(k)
        return tr(w) * tr(U) == tr(Z) * ys
    if yt == 'MPQ':
        return w == {'MPZ': q, 'MPQ': v, 'MPFR': FR2Q(v) if xt == 'MPFR' else None, 'INT64': tr(v) if xt == 'INT64' else None, 'FP64': D2R(v) if xt == 'FP64' else None}[xt]
    if yt == 'MPFR':
        if xt == 'MPZ':
            return w == If(xs == 1, fr('set_z', v, p, rnd), fr('set_q', q, p, rnd))
        return w == fr({'MPQ': 'set_q', 'MPFR': 'round', 'INT64': 'set_si', 'FP64': 'set_d'}[xt], v, p, rnd)
    if yt == 'INT64':
        if xt == 'MPZ':
            return w == If(xs == 1, GETSI(v), sat(Q2D(q)))
        return w == {'MPQ': lambda: sat(Q2D(v)), 'MPFR': lambda: FGETSI(v, rnd), 'INT64': lambda: v, 'FP64': lambda: sat(v)}[xt]()
    if xt == 'MPZ':
        return w == If(xs == 1, Z2D(v), Q2D(q))
    return w == {'MPQ': lambda: Q2D(v), 'MPFR': lambda: FGETD(v, rnd), 'INT64': lambda: I2D(v), 'FP64': lambda: v}[xt]()


def conversion_scale(yt, xt, xs, ys):
    """scale of the result"""
    if yt != 'MPZ':
        return TRUE
    return ys == xs if xt == 'MPZ' else ys == 1 if xt == 'INT64' else ys > 0 if xt == 'MPQ' else ys != 0


def qdiv_def(st):
    """definition of the quotient"""
    a, b = z3.Consts('qa qb', R)
    st.assume(z3.ForAll([a, b], Implies(b != 0, QDIVS(a, b) * b == a), patterns=[QDIVS(a, b)]))


def inputs_ok(c, xt, x, n, xs, yt):
    if xt in ('MPZ', 'MPQ', 'MPFR'):
        c.req('input numbers are initialised', x.all(0, n, lambda k: And(x.init(k), *([x.canon(k)] if xt == 'MPQ' else [])), pat=lambda k: [x.st(k)] + ([x[k]] if xt == 'MPQ' else [])))
    if xt == 'FP64' and yt != 'FP64':
        c.req('input doubles are finite', x.all(0, n, lambda k: FINITE(x[k]), pat=lambda k: [x[k]]))
    c.req('the scale is a nonzero number', And(xs.init(), xs.canon(), xs.v != 0))


@contract('slip_cast_array', cases=[(a, b) for a in TYPES for b in TYPES])
def cast_array(c):
    internal(c)
    yt, xt = c.case
    n = fresh('n') if c.defmode else c.args[4]
    y = c.arr('Y', TYPECT[yt], n)
    c.const('ytype', TYPES[yt])
    x = c.arr('X', TYPECT[xt], n, ro=True)
    c.const('xtype', TYPES[xt])
    c._next(n)
    if c.defmode:
        c.state.assume(And(n >= 0, n <= MAXB // 8))
        qdiv_def(c.state)
    ys, xs = c.mp('y_scale', MPQ), c.mp('x_scale', MPQ, ro=True)
    opt = c.options()
    prec, rnd = opt_prec(opt), opt_round(opt)
    mp = yt in ('MPZ', 'MPQ', 'MPFR')
    if mp:
        c.req('output numbers are initialised', y.all(0, n, y.init, pat=lambda k: [y.st(k)]))
    c.req('the scale of the output is initialised', ys.init())
    inputs_ok(c, xt, x, n, xs, yt)
    c.mod(y)
    if yt == 'MPZ':
        c.mod(ys)
    rel = lambda k: conversion(yt, xt, x, y, xs.v, ys.v, prec if yt == 'MPZ' else None, rnd, k)

    def outok():
        if not mp:
            return TRUE
        return y.all(0, n, lambda k: And(y.init(k), *([y.canon(k)] if yt == 'MPQ' and False else [])), pat=lambda k: [y.st(k)])

    def rest():
        comps = list(y.obj().comp)
        return y.all(n, y.obj().size, lambda k: And(*[y.sel(cn, k) == y.old.sel(cn, k) for cn in comps]), pat=lambda k: [y.sel(comps[0], k)])

    def inv(L):
        k = L['k']
        yield 'range', And(k >= 0, k <= n)
        yield 'converted so far', forall(lambda t: Implies(And(t >= 0, t < k), rel(t)), pats=lambda t: [y[t]])
        if yt == 'MPQ':
            yield 'canonical so far', y.all(0, k, y.canon, pat=lambda t: [y[t]])
        yield 'initialised', outok()
        yield 'beyond n', rest()
        if (yt, xt) == ('MPZ', 'MPZ') or yt != 'MPZ':
            yield 'scale', And(ys.init(), ys.v == ys.old.v)
        if xt == 'MPZ' and yt in ('MPFR', 'INT64', 'FP64'):
            t = L.view('temp')
            yield 'temp', Or(xs.v == 1, t.init())
    c.loop('*', inv, dec=lambda L: n - L['k'])

    def ok(rc):
        if mp:
            rc.ens('numbers are initialised', y.all(0, n, y.init, pat=lambda k: [y.st(k)]))
        if yt == 'MPQ':
            rc.ens('rationals are in canonical form', y.all(0, n, y.canon, pat=lambda k: [y[k]]))
        rc.ens('scale of the result', And(ys.init(), conversion_scale(yt, xt, xs.v, ys.v)))
        if yt == 'MPZ':
            rc.ens('scale is in canonical form', ys.canon())
        rc.ens('every entry is converted', forall(lambda k: Implies(And(k >= 0, k < n), rel(k)), pats=lambda k: [y[k]]))
        rc.ens('nothing beyond n is changed', rest())

    def oom(rc):
        rc.oom()
        if mp:
            rc.ens('every number can be cleared', y.all(0, n, y.clearable, pat=lambda k: [y.st(k)]))
            rc.ens('numbers beyond n', y.all(n, y.obj().size, lambda k: y.st(k) == y.old.st(k), pat=lambda k: [y.st(k)]))
        rc.ens('the scale can be cleared', ys.clearable())
    return [Outcome('ok', OK, None, ok), Outcome('oom', OOM, None, oom)]


def _pick_cast(eng, st, vals):
    t = []
    for v in (vals[1], vals[3]):
        v = simp0(v)
        if not z3.is_int_value(v):
            raise Unsupported('slip_cast_array with a type that is not a constant')
        t.append(TNAMES[v.as_long()])
    return tuple(t)


cast_array.pick = _pick_cast
CASTFNS = ['slip_cast_double_to_int64', 'slip_cast_array']
EXPANDFNS = ['slip_expand_double_array', 'slip_expand_mpfr_array', 'slip_expand_mpq_array']


# --------------------------------------------------------------------------- slip_cast_matrix
def nnz_of(A):
    return A.p[A.n] if A.kind == 'CSC' else A.nz if A.kind == 'TRIPLET' else A.m * A.n


def source(c, A, yt):
    """matrix whose values can be converted"""
    nz = nnz_of(A)
    c.req('0 <= number of entries <= nzmax', And(nz >= 0, nz <= A.nzmax))
    inputs_ok(c, A.typ, A.x, nz, A.scale, yt)


@contract('slip_cast_matrix', cases=[(k, a, b) for k in KINDS for a in TYPES for b in TYPES])
def cast_matrix(c):
    internal(c)
    kind, yt, xt = c.case
    h = c.ptrcell('Y_handle')
    c.const('Y_type', TYPES[yt])
    A = c.matrix('A', kind, xt)
    opt = c.options()
    source(c, A, yt)
    if c.defmode:
        qdiv_def(c.state)
    prec, rnd = opt_prec(opt), opt_round(opt)
    nz = nnz_of(A)
    c.mod(h)

    def ok(rc):
        if yt == xt:
            Y = rc.out_shallow(('cell', h), 'DENSE', yt, name='Y', x=A.x)
            if Y is None:
                return
            rc.ens('scale is that of A', And(Y.scale.init(), Y.scale.v == A.scale.v, Y.scale.canon()))
            rc.ens('nzmax is max(entries, 1)', And(Y.nzmax == If(nz > 1, nz, IV(1))))
            return
        Y = rc.out_matrix(('cell', h), 'DENSE', yt, m=nz, n=IV(1), name='Y')
        if Y is None:
            return
        y, ys = Y.x, Y.scale
        rc.ens('nzmax is max(entries, 1)', And(Y.nzmax == If(nz > 1, nz, IV(1))))
        rc.ens('x has exactly nzmax entries', y.obj().size == Y.nzmax)
        if yt in ('MPZ', 'MPQ', 'MPFR'):
            rc.ens('numbers are initialised', y.all(0, Y.nzmax, lambda k: And(y.init(k), *([y.canon(k)] if yt == 'MPQ' else [y.sel('prec', k) == prec] if yt == 'MPFR' else [])),
                                                    pat=lambda k: [y.st(k), y[k]]))
        rc.ens('scale of the result', And(ys.init(), ys.canon(), conversion_scale(yt, xt, A.scale.v, ys.v)))
        if yt != 'MPZ':
            rc.ens('scale is 1', ys.v == 1)
        rc.ens('every entry is converted', forall(lambda k: Implies(And(k >= 0, k < nz), conversion(yt, xt, A.x, y, A.scale.v, ys.v, prec, rnd, k)), pats=lambda k: [y[k]]))

    def oom(rc):
        rc.oom()
        rc.ens('the handle is not written', rc.st.heap[h.ptr.obj].fields['*'] is UNDEF) if rc.mode == 'check' and False else None
    return [Outcome('ok', OK, None, ok), Outcome('oom', OOM, None, oom, nomod=True)]


def _pick_cm(eng, st, vals):
    v = simp0(vals[1])
    if not z3.is_int_value(v):
        raise Unsupported('slip_cast_matrix with a type that is not a constant')
    o = st.heap[vals[2].obj]
    k, t = simp0(o.fields['kind']), simp0(o.fields['type'])
    if not (z3.is_int_value(k) and z3.is_int_value(t)):
        raise Unsupported('slip_cast_matrix of a matrix of unknown kind or type')
    return ({b: a for a, b in KINDS.items()}[k.as_long()], TNAMES[v.as_long()], TNAMES[t.as_long()])


cast_matrix.pick = _pick_cm
CASTMATFNS = ['slip_cast_matrix']
