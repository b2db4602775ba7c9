"""COLAMD: workspace size, default knobs.  The ordering itself overlays structures on the integer workspace: bounded only."""
from .base import *

CFILE = 'COLAMD/Source/colamd.c'
TOP = 2 ** 64
KNOBS = 20


def flag_ok(ok):
    return ok[0] != 0


def t_add(c):
    a, b = c.val('a'), c.val('b')
    ok = c.arr('ok', I32, 1)
    was = flag_ok(ok.old) if c.defmode else flag_ok(ok)
    fits = And(was, a + b < TOP)
    c.mod(ok)

    def ens(rc):
        rc.ens('ok tells whether the sum fits', Or(ok[0] == 0, ok[0] == 1))
        rc.ens('overflow is detected', flag_ok(ok) == fits)
        rc.ens('the sum, or 0', rc.result == If(fits, a + b, IV(0)))
    return [Outcome('any', 'int', None, ens)]


def t_mult(c):
    a, k = c.val('a'), c.val('k')
    ok = c.arr('ok', I32, 1)
    was = flag_ok(ok.old) if c.defmode else flag_ok(ok)
    c.req('k is small', And(k >= 1, k <= 1000))
    c.req('ok is 0 or 1', Or(ok[0] == 0, ok[0] == 1))
    c.mod(ok)
    prod = a * k

    def inv(L):
        i = L['i']
        c.eng.mul_lemma(c.state, a, i)
        yield 'range', And(i >= 0, i <= k)
        yield 'sum so far', And(Or(ok[0] == 0, ok[0] == 1), flag_ok(ok) == And(was, i * a < TOP), L['s'] == If(flag_ok(ok), i * a, IV(0)))
    c.loop(0, inv, dec=lambda L: k - L['i'])

    def ens(rc):
        rc.ens('ok tells whether the product fits', Or(ok[0] == 0, ok[0] == 1))
        rc.ens('overflow is detected', flag_ok(ok) == And(was, prod < TOP))
        rc.ens('the product, or 0', rc.result == If(flag_ok(ok), prod, IV(0)))
    return [Outcome('any', 'int', None, ens)]


def recommended(elem):
    b = elem.bits // 8
    imax = elem.range()[1]
    # Colamd_Col: start, length and four unions; Colamd_Row: start, length and two unions
    COL, ROW = 6, 4

    def spec(c):
        nnz, nr, nc = c.val('nnz'), c.val('n_row'), c.val('n_col')
        need = 2 * nnz + nc + COL * (nc + 1) + ROW * (nr + 1)
        rec = need + nnz / 5
        neg = Or(nnz < 0, nr < 0, nc < 0)

        def ens(rc):
            r = rc.result
            rc.ens('0 for negative arguments', Implies(neg, r == 0))
            rc.ens('0, or enough for colamd', Or(r == 0, r >= need))
            rc.ens('0, or representable', Or(r == 0, r < imax))
            big = Or(rec >= imax, COL * b * (nc + 1) >= TOP, ROW * b * (nr + 1) >= TOP, rec >= TOP)
            rc.ens('0 only when there is no such size', Implies(And(r == 0, Not(neg)), big))
            rc.ens('2*nnz + n_col + elbow room', Implies(r != 0, r == rec))
        return [Outcome('any', 'int', None, ens)]
    return spec


def set_defaults(c):
    k = c.arr('knobs', F64T, KNOBS, nullable=True)
    c.mod(k)

    def inv(L):
        i = L['i']
        yield 'range', And(i >= 0, i <= KNOBS)
        yield 'cleared so far', forall(lambda t: Implies(And(t >= 0, t < i), k[t] == I2D(IV(0))), pats=lambda t: [k[t]])
    c.loop(0, inv, dec=lambda L: KNOBS - L['i'])

    def ens(rc):
        g = Not(k.isnull)
        rc.ens('dense row control', Implies(g, k[0] == I2D(IV(10))))
        rc.ens('dense column control', Implies(g, k[1] == I2D(IV(10))))
        rc.ens('aggressive absorption', Implies(g, k[2] == I2D(IV(1))))
        rc.ens('the others are zero', Implies(g, forall(lambda t: Implies(And(t >= 3, t < KNOBS), k[t] == I2D(IV(0))), pats=lambda t: [k[t]])))
    return [Outcome('any', None, None, ens)]


contract('t_add', tu=CFILE)(t_add)
contract('t_add@l', tu=CFILE, defs=('-DDLONG',))(t_add)
contract('t_mult', tu=CFILE)(t_mult)
contract('t_mult@l', tu=CFILE, defs=('-DDLONG',))(t_mult)
contract('colamd_recommended', tu=CFILE)(recommended(I32))
contract('colamd_l_recommended', tu=CFILE, defs=('-DDLONG',))(recommended(I64))
contract('colamd_set_defaults', tu=CFILE)(set_defaults)
contract('colamd_l_set_defaults', tu=CFILE, defs=('-DDLONG',))(set_defaults)
COLAMDFNS = ['t_add', 't_add@l', 't_mult', 't_mult@l', 'colamd_recommended', 'colamd_l_recommended', 'colamd_set_defaults', 'colamd_l_set_defaults']
