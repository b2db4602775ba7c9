"""SLIP_gmp.c: the wrappers.

A wrapper is verified against: exactly the GMP/MPFR operation it is named after is executed, on its own arguments in order, after setjmp, with
nmalloc reset and with the archive pointing to the destination (so that slip_gmp_failure can detach the destination's block); its result is stored;
the archives are reset at the end.  The second return of setjmp (longjmp out of the operation) leads to slip_gmp_failure and SLIP_OUT_OF_MEMORY.
The callers use the contract of prims.wrapper_call: the operation and SLIP_OK, or the destination in a state that can be cleared and SLIP_OUT_OF_MEMORY.
"""
from .base import *
from .. import prims
from ..prims import OPS, WRAPPERS, KIND, MP

ARCH = {'z': 'slip_gmpz_archive', 'q': 'slip_gmpq_archive', 'f': 'slip_gmpfr_archive'}
GLOBS = list(ARCH.values())


def gmp_env(c):
    """globals of SLIP_gmp.c at the start of a wrapper; hooks for setjmp, the operations and slip_gmp_failure"""
    eng, st = c.eng, c.state
    for a in GLOBS:
        eng.globals_hook[a] = lambda e, s: NULL
    st.globals.update({a: NULL for a in GLOBS})
    st.globals['slip_gmp_nmalloc'] = IV(0)
    eng.opaque_globals = {'slip_gmp_environment'}
    st.ghost['trace'] = ()
    st.ghost['sj'] = 0                  # 1: setjmp returned 0; 2: longjmp arrived; 3: slip_gmp_failure done

    def setjmp(e, s, vals, ex):
        if s.ghost['sj'] != 0:
            e.fail(s, 'order', 'setjmp is called once per wrapper')
        b = s.copy()
        s.ghost['sj'] = 1
        b.ghost['sj'] = 2
        b.ghost['oom'] = TRUE
        r = fresh('jmpstatus')
        b.assume(And(r != 0, r >= 1, r < 2 ** 31))
        for m, k in c.outs:
            o = MP(e, b, m.ptr, k, 'longjmp')
            o.havoc()
            for comp in (('st', 'sd') if k == 'q' else ('st',)):
                f = fresh('st')
                b.assume(Or(f == 0, f == 1))
                o.wr(comp, f)
        return [(s, IV(0)), (b, r)]

    def failure(e, s, vals, ex):
        if s.ghost['sj'] != 2:
            e.fail(s, 'order', 'slip_gmp_failure is called only after longjmp, once')
        s.ghost['sj'] = 3
        for a in GLOBS:
            s.globals[a] = NULL
        s.globals['slip_gmp_nmalloc'] = IV(0)
        return [(s, Opaque('void'))]

    for n in ('setjmp', '_setjmp', '__sigsetjmp'):
        eng.override[n] = setjmp
    eng.override['slip_gmp_failure'] = failure
    # the arguments of a wrapper are no constants
    eng.override['__builtin_constant_p'] = lambda e, s, vals, ex: [(s, IV(0))]

    def op(e, s, n, vals):
        sig = OPS[n][0]
        if s.ghost['sj'] != 1:
            e.fail(s, 'order', '%s runs under the protection of setjmp' % n)
        e.oblige(s, simp0(s.globals['slip_gmp_nmalloc'] == 0) if not s.ghost['trace'] else TRUE, 'order', 'the list of blocks is empty before %s' % n)
        for ch, v in zip(sig, vals):
            if ch in 'ZQFYXW':
                k = KIND[ch]
                from .gmp import same_num
                a = s.globals[ARCH[k]]
                ok = isinstance(a, Ptr) and same_num(a, v)
                if k == 'z' and not ok and isinstance(v, Ptr) and v.sub:      # numerator or denominator of the archived rational
                    q = s.globals[ARCH['q']]
                    ok = isinstance(q, Ptr) and q.obj == v.obj and isinstance(a, Ptr) and a.obj is None
                e.oblige(s, TRUE if ok else FALSE, 'archive', 'the destination of %s is archived' % n)
                for kk in {'z': '', 'q': 'z', 'f': 'zq'}[k]:
                    w = s.globals[ARCH[kk]]
                    e.oblige(s, TRUE if isinstance(w, Ptr) and w.obj is None else FALSE, 'archive', 'no other archive hides the destination of %s' % n)
                o = MP(e, s, v, k, n)
                o.havoc()
                o.set_st(IV(1))
        if n in ('mpz_get_d', 'mpq_get_d', 'mpfr_get_d'):
            r = fresh('res', F)
        elif sig and sig[0] in 'ZQFYXW' or n in ('mpfr_free_cache', 'mpfr_free_str'):
            r = fresh('ternary')
            s.assume(And(r >= -2 ** 31, r < 2 ** 31))
        else:
            r = fresh('res')
            if n in ('mpz_get_si', 'mpfr_get_si'):
                s.assume(And(r >= -2 ** 63, r < 2 ** 63))
            elif n == 'mpz_sizeinbase':
                s.assume(And(r >= 1, r < 2 ** 62))
            else:
                s.assume(And(r >= -2 ** 31, r < 2 ** 31))
        s.ghost['trace'] += ((n, tuple(vals), r),)
        return [(s, r)]
    eng.op_hook = op


def same_num(a, v):
    return isinstance(v, Ptr) and a.obj is not None and a.obj == v.obj and a.sub == v.sub and (a.off is v.off or a.off.eq(v.off) or simp0(a.off == v.off).eq(TRUE))


def same_arg(a, b):
    if isinstance(a, Ptr):
        return same_num(a, b)
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b):
            return True
        if a.sort() == b.sort():
            return simp0(a == b)
    return a is b


def wrapper(name):
    opn, rpos = WRAPPERS[name]
    sig = OPS[opn][0]

    def spec(c):
        if not c.defmode:
            raise Unsupported('wrapper contract')
        fn = c.eng.lib.fn_decl(name)
        nparm = len([x for x in fn.get('inner', []) if x['kind'] == 'ParmVarDecl'])
        c.outs = []
        res = None
        args = []
        si = 0
        for i in range(nparm):
            pname = 'arg%d' % i
            if rpos is not None and i == rpos:
                ct = c.ptype(i)
                res = c.arr('result', ct.to, 1)
                c.mod(res)
                continue
            ch = sig[si] if si < len(sig) else '-'
            si += 1
            if ch in KIND:
                k = KIND[ch]
                v = c.mp(pname, {'z': MPZ, 'q': MPQ, 'f': MPFR}[k])
                if ch in 'YXW':
                    c.req('the number is not initialised yet', And(v.st() != 1, v.sel('sd', IV(0)) != 1) if k == 'q' else v.st() != 1)
                else:
                    c.req('operand is initialised', v.init())
                if ch in 'ZQFYXW':
                    c.outs.append((v, k))
                    c.mod(v)
                args.append(v.ptr)
            elif ch == 's':
                args.append(c._next(Ptr(c.state.new(Obj('raw', size=IV(1), name='str', cls='ext'), 'str'), IV(0), FALSE)))
            else:
                v = c.val(pname)
                if opn == 'mpfr_init2':
                    c.req('the precision is in range', And(v >= 1, v <= 2 ** 63 - 257))
                elif opn == 'mpz_sizeinbase':
                    c.req('the base is in range', And(v >= 2, v <= 62))
                elif opn == 'mpq_cmp_ui' and si == 3:
                    c.req('the denominator is not zero', v > 0)
                if ch != '-':
                    args.append(v)
        gmp_env(c)

        def ok(rc):
            s = c.state
            rc.ens('SLIP_OK is returned only when the operation was completed', B_(s.ghost['sj'] == 1))
            tr = list(s.ghost['trace'])
            allowed = [opn] + {'mpz_init': ['mpz_init2'], 'mpz_get_d': [], }.get(opn, [])
            # reserving limbs for the destination does not change its value
            extra = [t for t in tr[1:] if t[0] == 'mpz_realloc2' and c.outs and isinstance(t[1][0], Ptr) and t[1][0].obj == c.outs[0][0].ptr.obj and opn in ('mpz_init', 'mpq_init')]
            if tr and len(extra) == len(tr) - 1:
                rc.ens('the operation is ' + opn, B_(tr[0][0] in allowed))
                for k, (a, b) in enumerate(zip(args, tr[0][1])):
                    e = same_arg(a, b)
                    rc.ens('argument %d of %s is the argument of the wrapper' % (k, opn), e if z3.is_expr(e) else B_(e))
                if opn == tr[0][0]:
                    rc.ens('all arguments of %s are passed' % opn, B_(len(args) == len([ch for ch in sig])))
                if res is not None:
                    rc.ens('the result of %s is returned' % opn, res[0] == tr[0][2])
            elif not tr and opn in ('mpz_sgn', 'mpq_sgn', 'mpz_cmp_ui', 'mpq_cmp_ui'):
                v = z3.Select(c.pre.heap[args[0].obj].comp['pn' if opn.startswith('mpq') else 'val'], args[0].off)
                if opn == 'mpz_cmp_ui':
                    rc.ens('the comparison is returned', And((res[0] < 0) == (v < args[1]), (res[0] > 0) == (v > args[1])))
                elif opn == 'mpq_cmp_ui':
                    d = z3.Select(c.pre.heap[args[0].obj].comp['pd'], args[0].off)
                    rc.ens('the comparison is returned', And((res[0] < 0) == (v * args[2] < args[1] * d), (res[0] > 0) == (v * args[2] > args[1] * d)))
                elif opn.endswith('_sgn'):
                    rc.ens('the sign is returned', And((res[0] < 0) == (v < 0), (res[0] > 0) == (v > 0)))
                else:
                    rc.ens('the operation is executed', FALSE)
            else:
                rc.ens('exactly one operation, %s, is executed (and not %s)' % (opn, [t[0] for t in tr]), FALSE)
            finish(rc)

        def finish(rc):
            s = c.state
            for a in GLOBS:
                w = s.globals[a]
                rc.ens('%s is reset' % a, B_(isinstance(w, Ptr) and w.obj is None))
            rc.ens('the list of blocks is reset', s.globals['slip_gmp_nmalloc'] == 0)

        def oom(rc):
            s = c.state
            rc.ens('SLIP_OUT_OF_MEMORY is returned only after longjmp, and slip_gmp_failure cleaned up', B_(s.ghost['sj'] == 3))
            rc.ens('no operation runs after longjmp', B_(not s.ghost['trace']))
            finish(rc)
        return [Outcome('ok', OK, ens=ok), Outcome('out of memory', OOM, ens=oom)]
    return spec


def B_(b):
    return TRUE if b else FALSE


from ..lib import Library
_names = [n for n in WRAPPERS]
WRAPFNS = []
for _n in _names:
    if _n in ('SLIP_mpz_add', 'SLIP_mpz_sub', 'SLIP_mpz_neg', 'SLIP_mpz_addmul', 'SLIP_mpfr_log2'):
        continue
    contract(_n)(wrapper(_n))
    WRAPFNS.append(_n)
