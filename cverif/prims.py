"""Contracts of the external functions (GMP, MPFR, libc).  These are the trusted
dependency contracts: GMP/MPFR are not part of the repository.

The SLIP_* wrappers of SLIP_gmp.c share this table: the wrapper's contract is
"the operation of the same name, or OUT_OF_MEMORY", and its body is verified
against it (contracts/gmp.py).
"""
import z3
from .core import *
from .cfront import *

D2R = z3.Function('d2real', F, R)        # exact rational value of a finite double
FINITE = z3.Function('d_finite', F, B)
Z2D = z3.Function('z2d', I, F)
Q2D = z3.Function('q2d', R, F)
FR2Q = z3.Function('fr2q', FR, R)
GETSI = z3.Function('z_get_si', I, I)
Q2Z = z3.Function('q2z', R, I)
GCD = z3.Function('gcd', I, I, I)
LCM = z3.Function('lcm', I, I, I)
DIVS = z3.Function('divides', I, I, B)   # a divides b (b is a multiple of a)


def rfun(name, n, *sorts):
    return z3.Function('fr_' + name, *sorts)


def toR(x):
    return z3.ToReal(x) if x.sort() == I else x


class MP:
    """a number operand"""

    def __init__(self, eng, st, p, want, what):
        self.eng, self.st, self.p, self.want, self.what = eng, st, p, want, what
        self.ok = True
        if not isinstance(p, Ptr):
            raise Unsupported('GMP operand %r' % (p,))
        if p.obj is not None:
            eng.typed(st, p, {'z': MPZ, 'q': MPQ, 'f': MPFR}[want])
        if not eng.check_bounds(st, p, what):
            self.ok = False
            return
        o = st.heap[p.obj]
        have = o.elem.name
        if p.sub:
            have = 'z'
        if o.kind != 'mp' or have != want:
            raise Unsupported('operand of %s is %s, not %s' % (what, have, want))
        self.part = o.elem.name == 'q' and want == 'z'

    def comp(self, c):
        return self.st.heap[self.p.obj].comp[c]

    def rd(self, c):
        a = self.comp(c)
        if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
            return a.arg(0)
        return simp1(z3.Select(a, self.p.off))

    def wr(self, c, v):
        o = self.st.heap[self.p.obj]
        if o.ro:
            self.eng.fail(self.st, 'frame', 'write to read-only number ' + str(o.name))
        o = self.st.wobj(self.p.obj)
        sz = simp1(o.size)
        if z3.is_int_value(sz) and sz.as_long() == 1:
            o.comp[c] = z3.K(I, v)
        else:
            o.comp[c] = z3.Store(o.comp[c], self.p.off, v)

    # status
    def live(self):
        if self.part:
            return self.rd('sd' if self.p.sub == 'den' else 'st') == 1
        if self.want == 'q':
            return And(self.rd('st') == 1, self.rd('sd') == 1)
        return self.rd('st') == 1

    def need_live(self):
        self.eng.oblige(self.st, simp1(self.live()), 'mpvalid', '%s: operand is initialised' % self.what)
        self.st.assume(simp1(self.live()))

    def need_dead(self):
        g = And(self.rd('st') != 1, self.rd('sd') != 1) if self.want == 'q' else self.rd('st') != 1
        self.eng.oblige(self.st, simp1(g), 'leak', '%s: operand is not already initialised' % self.what)

    def set_st(self, v):
        if self.part:
            self.wr('sd' if self.p.sub == 'den' else 'st', v)
            return
        self.wr('st', v)
        if self.want == 'q':
            self.wr('sd', v)

    # values
    @property
    def v(self):
        if self.part:
            return self.rd('pd' if self.p.sub == 'den' else 'pn')
        return self.rd('val')

    def set(self, v):
        if self.part:
            self.wr('pd' if self.p.sub == 'den' else 'pn', v)
            self.requot()
            return
        self.wr('val', v)

    def requot(self):
        r = fresh('quot', R)
        self.st.assume(Implies(self.rd('pd') != 0, r * toR(self.rd('pd')) == toR(self.rd('pn'))))
        d = simp1(self.rd('pd'))
        if z3.is_int_value(d) and d.as_long() == 1:
            r = toR(self.rd('pn'))
        self.wr('val', r)

    def setq(self, v):
        """canonical rational"""
        self.wr('val', v)
        if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
            self.st.assume(And(QNUM(v) == v.arg(0), QDEN(v) == 1))
        else:
            canon_fact(self.st, v)
        self.wr('pn', QNUM(v))
        self.wr('pd', QDEN(v))

    def posden(self):
        """den > 0: what the GMP rational functions require of their inputs"""
        self.eng.oblige(self.st, simp1(self.rd('pd') > 0), 'mpqcanon', '%s: denominator is positive' % self.what)
        self.st.assume(self.rd('pd') > 0)
        self.st.assume(self.v * toR(self.rd('pd')) == toR(self.rd('pn')))

    def canon(self):
        g = And(self.rd('pd') > 0, self.rd('pn') == QNUM(self.v), self.rd('pd') == QDEN(self.v))
        self.eng.oblige(self.st, g, 'mpqcanon', '%s: operand is in canonical form' % self.what)
        self.st.assume(g)

    def havoc(self):
        for c in self.st.heap[self.p.obj].comp:
            if c in ('st', 'sd', 'prec'):
                continue
            if self.part and c not in ('val', 'pd' if self.p.sub == 'den' else 'pn'):
                continue
            self.wr(c, fresh('hv', self.comp(c).sort().range()))

    @property
    def prec(self):
        return self.rd('prec')


def simp1(e):
    return z3.simplify(e) if z3.is_expr(e) else e


def canon_fact(st, v):
    st.assume(QDEN(v) > 0)
    st.assume(v * toR(QDEN(v)) == toR(QNUM(v)))


def sgn(x, zero=0):
    return If(x > 0, IV(1), If(x < 0, IV(-1), IV(0)))


def signed_result(st, name, x, y):
    r = fresh(name)
    st.assume(And((r < 0) == (x < y), (r > 0) == (x > y), r >= -2 ** 31, r < 2 ** 31))
    return r


# each op: (signature, effect(ctx, *operands) -> return value)
# signature letters: Z/Q/F written number, z/q/f read number, i integer, d double, N (fresh init)
OPS = {}


def op(name, sig):
    def deco(f):
        OPS[name] = (sig, f)
        return f
    return deco


class P:
    def __init__(self, eng, st):
        self.eng, self.st = eng, st

    def oblige(self, f, kind, d):
        self.eng.oblige(self.st, f, kind, d)
        self.st.assume(f)


@op('mpz_init', 'Y')
def _(c, x):
    x.set_st(IV(1)); x.set(IV(0))


@op('mpz_init2', 'Yi')
def _(c, x, n):
    x.set_st(IV(1)); x.set(IV(0))


@op('mpz_realloc2', 'Zi')
def _(c, x, n):
    v = x.v
    r = fresh('realloc2')
    c.st.assume(Implies(v == 0, r == 0))
    c.st.assume(Or(r == v, r == 0))
    x.set(r)


@op('mpz_clear', 'C')
def _(c, x):
    x.set_st(IV(2))


@op('mpfr_clear', 'D')
def _(c, x):
    x.set_st(IV(2))


@op('mpz_set', 'Zz')
def _(c, x, y):
    x.set(y.v)


@op('mpz_set_ui', 'Zi')
def _(c, x, y):
    x.set(y)


@op('mpz_set_si', 'Zi')
def _(c, x, y):
    x.set(y)


@op('mpz_get_d', 'z')
def _(c, y):
    return Z2D(y.v)


@op('mpz_get_si', 'z')
def _(c, y):
    r = GETSI(y.v)
    v = y.v
    c.st.assume(And(r >= -2 ** 63, r < 2 ** 63, Implies(And(v >= -2 ** 63, v < 2 ** 63), r == v)))
    return r


@op('mpz_set_q', 'Zq')
def _(c, x, y):
    c.oblige(y.rd('pd') != 0, 'mpqcanon', 'mpz_set_q: denominator is not zero')
    v = y.v
    r = Q2Z(v)
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        c.st.assume(r == v.arg(0))
    c.st.assume(Implies(z3.IsInt(v), toR(r) == v))
    x.set(r)


@op('mpz_mul', 'Zzz')
def _(c, a, b, d):
    a.set(b.v * d.v)


@op('mpz_add', 'Zzz')
def _(c, a, b, d):
    a.set(b.v + d.v)


@op('mpz_sub', 'Zzz')
def _(c, a, b, d):
    a.set(b.v - d.v)


@op('mpz_addmul', 'Zzz')
def _(c, a, b, d):
    a.set(a.v + b.v * d.v)


@op('mpz_submul', 'Zzz')
def _(c, a, b, d):
    a.set(a.v - b.v * d.v)


@op('mpz_neg', 'Zz')
def _(c, a, b):
    a.set(-b.v)


@op('mpz_divexact', 'Zzz')
def _(c, x, a, b):
    c.oblige(b.v != 0, 'div0', 'mpz_divexact: divisor is not zero')
    av, bv = a.v, b.v
    wit = c.eng.oblige_divides(c.st, bv, av)
    r = fresh('quo')
    c.st.assume(r * bv == av)
    if len(wit) == 1:
        c.st.assume(r == wit[0])
        wit = []
    for w in wit:
        # cancellation: the quotient is unique
        c.st.assume(Implies(And(bv != 0, av == bv * w), r == w))
    x.set(r)


@op('mpz_gcd', 'Zzz')
def _(c, x, a, b):
    av, bv = a.v, b.v
    g = GCD(av, bv)
    c.st.assume(And(g >= 0, Implies(Or(av != 0, bv != 0), g > 0), Implies(And(av == 0, bv == 0), g == 0),
                    DIVS(g, av), DIVS(g, bv)))
    # g divides everything that av divides / bv divides (transitivity through the operands)
    c.st.assume(forall(lambda w: Implies(Or(DIVS(av, w), DIVS(bv, w)), DIVS(g, w)), pats=lambda w: [DIVS(av, w), DIVS(bv, w), DIVS(g, w)]))
    x.set(g)


@op('mpz_lcm', 'Zzz')
def _(c, x, a, b):
    av, bv = a.v, b.v
    g = LCM(av, bv)
    c.st.assume(And(g >= 0, Implies(And(av != 0, bv != 0), g > 0), DIVS(av, g), DIVS(bv, g)))
    c.st.assume(forall(lambda w: Implies(Or(DIVS(w, av), DIVS(w, bv)), DIVS(w, g)), pats=lambda w: [DIVS(w, av), DIVS(w, bv), DIVS(w, g)]))
    x.set(g)


@op('mpz_abs', 'Zz')
def _(c, x, y):
    v = y.v
    x.set(If(v >= 0, v, -v))


@op('mpz_cmp', 'zz')
def _(c, x, y):
    return signed_result(c.st, 'cmp', x.v, y.v)


@op('mpz_cmpabs', 'zz')
def _(c, x, y):
    a, b = x.v, y.v
    return signed_result(c.st, 'cmpabs', If(a >= 0, a, -a), If(b >= 0, b, -b))


@op('mpz_cmp_ui', 'zi')
def _(c, x, y):
    return signed_result(c.st, 'cmp', x.v, y)


OPS['_mpz_cmp_ui'] = OPS['__gmpz_cmp_ui'] = OPS['mpz_cmp_ui']


@op('mpz_cmp_si', 'zi')
def _(c, x, y):
    return signed_result(c.st, 'cmp', x.v, y)


@op('mpz_sgn', 'z')
def _(c, x):
    return signed_result(c.st, 'sgn', x.v, IV(0))


@op('mpz_sizeinbase', 'zi')
def _(c, x, b):
    r = fresh('sizeinbase')
    c.st.assume(And(r >= 1, r < 2 ** 62))
    return r


@op('mpq_init', 'X')
def _(c, x):
    x.set_st(IV(1))
    x.setq(z3.ToReal(IV(0)))


@op('mpq_set', 'Qq')
def _(c, x, y):
    v, n, d = y.v, y.rd('pn'), y.rd('pd')
    x.wr('val', v); x.wr('pn', n); x.wr('pd', d)


@op('mpq_set_z', 'Qz')
def _(c, x, y):
    x.setq(z3.ToReal(y.v))


def float_literals(st, y):
    """integer literals (below 2^53) are finite doubles with that value"""
    todo = [y]
    while todo:
        e = todo.pop()
        if z3.is_app(e) and e.decl().name() == 'i2d' and z3.is_int_value(e.arg(0)):
            st.assume(And(FINITE(e), D2R(e) == z3.ToReal(e.arg(0))))
        elif z3.is_app(e) and z3.is_app_of(e, z3.Z3_OP_ITE):
            todo += [e.arg(1), e.arg(2)]


@op('mpq_set_d', 'Qd')
def _(c, x, y):
    float_literals(c.st, y)
    c.oblige(FINITE(y), 'domain', 'mpq_set_d: value is finite')
    x.setq(D2R(y))


def setfrac(c, x, n, d):
    dd = simp1(d)
    if z3.is_int_value(dd) and dd.as_long() == 1:
        x.setq(z3.ToReal(n))
        return
    x.wr('pn', n); x.wr('pd', d)
    x.requot()


@op('mpq_set_ui', 'Qii')
def _(c, x, n, d):
    setfrac(c, x, n, d)


@op('mpq_set_si', 'Qii')
def _(c, x, n, d):
    setfrac(c, x, n, d)


@op('mpq_set_num', 'Qz')
def _(c, x, y):
    x.wr('pn', y.v)
    x.requot()


@op('mpq_set_den', 'Qz')
def _(c, x, y):
    x.wr('pd', y.v)
    x.requot()


@op('mpq_get_den', 'Zq')
def _(c, x, y):
    d = y.rd('pd')
    x.set(d)


@op('mpq_get_num', 'Zq')
def _(c, x, y):
    x.set(y.rd('pn'))


@op('mpq_get_d', 'q')
def _(c, y):
    y.posden()
    return Q2D(y.v)


@op('mpq_abs', 'Qq')
def _(c, x, y):
    # |num| / den: the denominator is copied
    n, d, v = y.rd('pn'), y.rd('pd'), y.v
    nv = If(v >= 0, v, -v)
    x.wr('pn', If(n >= 0, n, -n)); x.wr('pd', d)
    if c.eng.qprove(c.st, d > 0):
        x.wr('val', nv)
        c.st.assume(And(QNUM(nv) == If(v >= 0, QNUM(v), -QNUM(v)), QDEN(nv) == QDEN(v)))
    else:
        r = fresh('absq', R)
        c.st.assume(Implies(d > 0, r == nv))
        c.st.assume(Implies(d < 0, r == -nv))
        x.wr('val', r)


def qbin(c, x, y, z, f):
    y.posden(); z.posden()
    x.setq(f(y.v, z.v))


@op('mpq_add', 'Qqq')
def _(c, x, y, z):
    qbin(c, x, y, z, lambda a, b: a + b)


@op('mpq_sub', 'Qqq')
def _(c, x, y, z):
    qbin(c, x, y, z, lambda a, b: a - b)


@op('mpq_mul', 'Qqq')
def _(c, x, y, z):
    qbin(c, x, y, z, lambda a, b: a * b)


@op('mpq_div', 'Qqq')
def _(c, x, y, z):
    # the divisor may have a negative denominator: GMP moves the sign to the numerator
    y.posden(); z.posden()
    c.oblige(z.v != 0, 'div0', 'mpq_div: divisor is not zero')
    r = fresh('qdiv', R)
    c.st.assume(r * z.v == y.v)
    x.setq(r)


@op('mpq_neg', 'Qq')
def _(c, x, y):
    v, n, d = y.v, y.rd('pn'), y.rd('pd')
    x.wr('val', -v); x.wr('pn', -n); x.wr('pd', d)


@op('mpq_inv', 'Qq')
def _(c, x, y):
    c.oblige(y.v != 0, 'div0', 'mpq_inv: value is not zero')
    y.posden()
    r = fresh('qinv', R)
    c.st.assume(r * y.v == 1)
    x.setq(r)


@op('mpq_cmp', 'qq')
def _(c, x, y):
    x.posden(); y.posden()
    return signed_result(c.st, 'qcmp', x.v, y.v)


@op('mpq_cmp_ui', 'qii')
def _(c, x, n, d):
    x.posden()
    c.oblige(d > 0, 'div0', 'mpq_cmp_ui: denominator is positive')
    dd = simp1(d)
    if z3.is_int_value(dd):
        return signed_result(c.st, 'qcmp', x.v * dd.as_long(), toR(n))
    return signed_result(c.st, 'qcmp', x.v * toR(d), toR(n))


OPS['_mpq_cmp_ui'] = OPS['mpq_cmp_ui']


@op('mpq_equal', 'qq')
def _(c, x, y):
    x.canon(); y.canon()
    r = fresh('qeq')
    c.st.assume(And((r != 0) == (x.v == y.v), r >= -2 ** 31, r < 2 ** 31))
    return r


@op('mpq_sgn', 'q')
def _(c, x):
    x.posden()
    return signed_result(c.st, 'qsgn', x.v, z3.RealVal(0))


@op('mpq_canonicalize', 'Q')
def _(c, x):
    c.oblige(x.rd('pd') != 0, 'div0', 'mpq_canonicalize: denominator is not zero')
    x.setq(x.v)


# ---- MPFR: rounding is left abstract, the same function of the same operands
def fr(name, *args):
    sorts = [a.sort() for a in args]
    return z3.Function('fr_' + name, *(sorts + [FR]))(*args)


@op('mpfr_init2', 'Wi')
def _(c, x, n):
    c.oblige(And(n >= 1, n <= 2 ** 63 - 1 - 256), 'domain', 'mpfr_init2: precision is in range')
    x.set_st(IV(1))
    x.wr('prec', n)
    x.wr('val', z3.Const('fr_nan', FR))


@op('mpfr_set', 'Ffi')
def _(c, x, y, r):
    x.set(fr('round', y.v, x.prec, r))


@op('mpfr_set_d', 'Fdi')
def _(c, x, y, r):
    x.set(fr('set_d', y, x.prec, r))


@op('mpfr_set_si', 'Fii')
def _(c, x, y, r):
    x.set(fr('set_si', y, x.prec, r))


@op('mpfr_set_ui', 'Fii')
def _(c, x, y, r):
    x.set(fr('set_si', y, x.prec, r))


@op('mpfr_set_q', 'Fqi')
def _(c, x, y, r):
    y.posden()
    x.set(fr('set_q', y.v, x.prec, r))


@op('mpfr_set_z', 'Fzi')
def _(c, x, y, r):
    x.set(fr('set_z', y.v, x.prec, r))


@op('mpfr_get_z', 'Zfi')
def _(c, x, y, r):
    x.set(z3.Function('fr_get_z', FR, I, I)(y.v, r))
    c.st.assume(Implies(z3.IsInt(FR2Q(y.v)), toR(z3.Function('fr_get_z', FR, I, I)(y.v, r)) == FR2Q(y.v)))
    return fresh('tern')


@op('mpfr_get_q', 'Qf')
def _(c, x, y):
    x.setq(FR2Q(y.v))


@op('mpfr_get_d', 'fi')
def _(c, y, r):
    return z3.Function('fr_get_d', FR, I, F)(y.v, r)


@op('mpfr_get_si', 'fi')
def _(c, y, r):
    v = z3.Function('fr_get_si', FR, I, I)(y.v, r)
    c.st.assume(And(v >= -2 ** 63, v < 2 ** 63))
    return v


@op('mpfr_mul', 'Fffi')
def _(c, x, y, z, r):
    x.set(fr('mul', y.v, z.v, x.prec, r))


@op('mpfr_mul_d', 'Ffdi')
def _(c, x, y, z, r):
    x.set(fr('mul_d', y.v, z, x.prec, r))


@op('mpfr_div_d', 'Ffdi')
def _(c, x, y, z, r):
    x.set(fr('div_d', y.v, z, x.prec, r))


@op('mpfr_ui_pow_ui', 'Fiii')
def _(c, x, y, z, r):
    x.set(fr('ui_pow_ui', y, z, x.prec, r))


@op('mpfr_log2', 'Ffi')
def _(c, x, y, r):
    x.set(fr('log2', y.v, x.prec, r))


@op('mpfr_sgn', 'f')
def _(c, x):
    s = FSGN(x.v)
    c.st.assume(And(s >= -2 ** 31, s < 2 ** 31, (s < 0) == (FR2Q(x.v) < 0), (s > 0) == (FR2Q(x.v) > 0)))
    return s


@op('mpfr_free_cache', '')
def _(c):
    pass


@op('mpfr_free_str', 's')
def _(c, s):
    pass


KIND = {'Z': 'z', 'z': 'z', 'Y': 'z', 'C': 'z', 'Q': 'q', 'q': 'q', 'X': 'q', 'F': 'f', 'f': 'f', 'W': 'f', 'D': 'f'}


def operands(eng, st, name, sig, vals):
    """bind and check operands; None if a fault was already reported"""
    ops = []
    for i, (ch, v) in enumerate(zip(sig, vals)):
        if ch in KIND:
            m = MP(eng, st, v, KIND[ch], name)
            if not m.ok:
                return None
            if ch in 'YXW':
                m.need_dead()
            else:
                m.need_live()
            ops.append(m)
        elif ch == 'i':
            if z3.is_expr(v) and v.sort() == B:
                v = If(v, IV(1), IV(0))
            if not z3.is_expr(v):
                raise Unsupported('%s: integer argument' % name)
            ops.append(v)
        else:
            ops.append(v)
    return ops


def apply_op(eng, st, name, vals):
    sig, f = OPS[name]
    ops = operands(eng, st, name, sig, vals)
    if ops is None:
        st.dead = True
        return []
    r = f(P(eng, st), *ops)
    eng.lib.op_used.add(name)
    return [(st, r if r is not None else Opaque('void'))]


# SLIP_* wrappers: name -> (operation, position of the result pointer or None)
WRAPPERS = {}
for _n in ('mpz_init mpz_init2 mpz_set mpz_set_ui mpz_set_si mpz_set_q mpz_mul mpz_addmul mpz_submul mpz_divexact mpz_gcd '
           'mpz_lcm mpz_abs mpq_init mpq_set mpq_set_z mpq_set_d mpq_set_ui mpq_set_si mpq_set_num mpq_set_den '
           'mpq_get_den mpq_abs mpq_add mpq_mul mpq_div mpfr_init2 mpfr_set mpfr_set_d mpfr_set_si mpfr_set_q '
           'mpfr_set_z mpfr_get_z mpfr_mul mpfr_mul_d mpfr_div_d mpfr_ui_pow_ui mpfr_log2 mpfr_free_cache mpfr_free_str '
           'mpz_add mpz_sub mpz_neg').split():
    WRAPPERS['SLIP_' + _n] = (_n, None)
for _n in ('mpz_get_d mpz_get_si mpz_cmp mpz_cmpabs mpz_cmp_ui mpz_sgn mpz_sizeinbase mpq_get_d mpq_cmp mpq_cmp_ui '
           'mpq_equal mpq_sgn mpfr_get_d mpfr_get_si mpfr_sgn').split():
    WRAPPERS['SLIP_' + _n] = (_n, 0)
WRAPPERS['SLIP_mpfr_get_q'] = ('mpfr_get_q', None)


def wrapper_call(eng, st, name, vals):
    """contract of SLIP_<op>: the operation and SLIP_OK, or SLIP_OUT_OF_MEMORY"""
    opn, rpos = WRAPPERS[name]
    sig, f = OPS[opn]
    args = list(vals)
    rptr = None
    if rpos is not None:
        rptr = args.pop(rpos)
    args = args[:len(sig)]
    ops = operands(eng, st, name, sig, args)
    if ops is None:
        st.dead = True
        return []
    eng.lib.op_used.add(name)
    bad = st.copy()
    # success
    r = f(P(eng, st), *ops)
    if rptr is not None:
        store_result(eng, st, rptr, r)
    out = [(st, IV(0))] if not st.dead else []
    # failure: the allocations of this call are undone; an output number is unusable or cleared
    for ch, v in zip(sig, args):
        if ch in 'ZQF':
            m = MP(eng, bad, v, KIND[ch], name)
            m.havoc()
            for c in (('st', 'sd') if m.want == 'q' else ('st',)):
                s = fresh('st')
                bad.assume(Or(s == 0, s == 1))
                m.wr(c, s)
    bad.ghost['oom'] = TRUE
    out.append((bad, IV(-1)))
    return out


def store_result(eng, st, ptr, r):
    o = st.heap[ptr.obj] if isinstance(ptr, Ptr) and ptr.obj is not None else None
    if o is None:
        eng.fail(st, 'null', 'result pointer is NULL')
        st.dead = True
        return
    ct = o.elem
    eng.store(st, ('elem', ptr), r, ct)
