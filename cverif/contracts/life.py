"""life cycle: initialisation state, SLIP_initialize / _expert / finalize, default options, and 'nothing runs before SLIP_initialize'"""
from .base import *
from .alloc import same_ptr, B_
from ..lib import SLIP_DIR

FLAG = 'slip_initialize_has_been_called'
INITC = SLIP_DIR + '/SLIP_initialize.c'


def flag_env(c):
    """the flag is a real global here: slip_initialized and slip_set_initialized are inlined"""
    c.eng.inline_from.update(slip_initialized=INITC, slip_set_initialized=INITC)
    f = fresh('flag', B)
    c.state.globals[FLAG] = f
    c.state.ghost['trace'] = ()
    c.state.ghost['init'] = f
    return f


def flag(s):
    f = s.globals[FLAG]
    return f if f.sort() == B else f != 0


def traced(c, *names):
    def mk(n):
        def h(e, s, vals, ex):
            s.ghost['trace'] += ((n, tuple(vals), flag(s)),)
            return [(s, Opaque('void') if n != 'SLIP_mpfr_free_cache' else IV(0))]
        return h
    for n in names:
        c.eng.override[n] = mk(n)


def config_unchanged(c, rc):
    for k, v in c.pre.globals.items():
        if k.startswith('SuiteSparse_config.'):
            w = c.state.globals.get(k)
            rc.ens('%s is not changed' % k, B_(w is v or isinstance(w, FnPtr) and w.name == v.name and w.null is v.null))


@contract('SLIP_initialize', tu=INITC)
def initialize(c):
    f = flag_env(c)
    traced(c, 'mp_set_memory_functions', '__gmp_set_memory_functions')

    def ok(rc):
        s = c.state
        tr = s.ghost['trace']
        rc.ens('the memory functions of GMP are set once', B_(len(tr) == 1))
        if len(tr) == 1:
            for got, want in zip(tr[0][1], ('slip_gmp_allocate', 'slip_gmp_reallocate', 'slip_gmp_free')):
                rc.ens('GMP uses ' + want, B_(isinstance(got, FnPtr) and got.name == want))
        rc.ens('SLIP_LU is initialised', flag(s))

    def panic(rc):
        rc.ens('nothing is changed', And(flag(c.state) == f, B_(not c.state.ghost['trace'])))
    return [Outcome('ok', OK, Not(f), ok), Outcome('panic', PANIC, f, panic)]


@contract('SLIP_initialize_expert')
def initialize_expert(c):
    f = flag_env(c)
    traced(c, 'mp_set_memory_functions', '__gmp_set_memory_functions')
    c.eng.inline_from['SLIP_initialize'] = INITC
    names = ('malloc', 'calloc', 'realloc', 'free')
    for n in names:
        c.state.globals['SuiteSparse_config.%s_func' % n] = FnPtr('old_' + n, FALSE)
        c._next(FnPtr('My' + n, FALSE))

    def ok(rc):
        s = c.state
        tr = s.ghost['trace']
        rc.ens('the memory functions of GMP are set once', B_(len(tr) == 1))
        if len(tr) == 1:
            for got, want in zip(tr[0][1], ('slip_gmp_allocate', 'slip_gmp_reallocate', 'slip_gmp_free')):
                rc.ens('GMP uses ' + want, B_(isinstance(got, FnPtr) and got.name == want))
        for n in names:
            w = s.globals['SuiteSparse_config.%s_func' % n]
            rc.ens('%s is the given function' % n, B_(isinstance(w, FnPtr) and w.name == 'My' + n))
        rc.ens('SLIP_LU is initialised', flag(s))

    def panic(rc):
        s = c.state
        for n in names:
            w = s.globals['SuiteSparse_config.%s_func' % n]
            rc.ens('%s is not changed' % n, B_(isinstance(w, FnPtr) and w.name == 'old_' + n))
        rc.ens('nothing is changed', And(flag(s) == f, B_(not s.ghost['trace'])))
    return [Outcome('ok', OK, Not(f), ok), Outcome('panic', PANIC, f, panic)]


@contract('SLIP_finalize')
def finalize(c):
    f = flag_env(c)
    traced(c, 'SLIP_mpfr_free_cache', 'slip_gmp_finalize')

    def ok(rc):
        s = c.state
        tr = s.ghost['trace']
        nm = [t[0] for t in tr]
        rc.ens('the MPFR cache is released, then the list of blocks', B_(nm == ['SLIP_mpfr_free_cache', 'slip_gmp_finalize']))
        for t in tr:
            # SLIP_free does nothing when SLIP_LU is not initialised: releasing after the flag is cleared would leak
            rc.ens('%s runs while SLIP_LU is still initialised' % t[0], t[2])
        rc.ens('SLIP_LU is not initialised any more', Not(flag(s)))

    def panic(rc):
        rc.ens('nothing is changed', And(flag(c.state) == f, B_(not c.state.ghost['trace'])))
    return [Outcome('ok', OK, f, ok), Outcome('panic', PANIC, Not(f), panic)]


@contract('slip_initialized', tu=INITC)
def slip_initialized(c):
    f = flag_env(c)
    del c.eng.inline_from['slip_initialized']

    def ens(rc):
        r = rc.result
        rc.ens('the state is returned', (r if r.sort() == B else r != 0) == f)
        rc.ens('the state is not changed', flag(c.state) == f)
    return [Outcome('any', None, ens=ens)]


@contract('slip_set_initialized', tu=INITC)
def slip_set_initialized(c):
    f = flag_env(c)
    del c.eng.inline_from['slip_set_initialized']
    v = c.val('s')

    def ens(rc):
        rc.ens('the state is set', flag(c.state) == (v if v.sort() == B else v != 0))
    return [Outcome('any', None, ens=ens)]


@contract('SLIP_create_default_options')
def default_options(c):
    init = public(c)

    def ok(rc):
        o = rc.out_struct(('result',), 'SLIP_options', 'option')
        if o is None:
            return
        for f, v in (('pivot', 3), ('order', 1), ('print_level', 0), ('prec', 128)):
            w = o.f(f)
            rc.ens('default of ' + f, w == v if z3.is_expr(w) else FALSE)
        t = o.f('tol')
        rc.ens('default of tol', t == I2D(IV(1)) if z3.is_expr(t) else FALSE)
        r = o.f('round')
        rc.ens('default of round', r == 0 if z3.is_expr(r) else FALSE)
        k = o.f('check')
        rc.ens('default of check', Not(k) if z3.is_expr(k) and k.sort() == B else FALSE)

    def null(rc):
        if rc.mode == 'check':
            rc.ens('NULL only before SLIP_initialize or when out of memory', Or(Not(init), c.state.ghost['oom']))
        else:
            rc.st.ghost['oom'] = simp0(Or(rc.st.ghost.get('oom', FALSE), init))
    return [Outcome('ok', 'ptr', init, ok), Outcome('null', NULL, None, null)]


# ---------------------------------------------------------------- before SLIP_initialize
def uninit(ret):
    def spec(c):
        fn = c.eng.lib.fn_decl(c.spec.name)
        ps = [x for x in fn.get('inner', []) if x['kind'] == 'ParmVarDecl']
        c.state.ghost['init'] = FALSE
        for x in ps:
            ct = c.eng.tu.ctype(x['type'])
            if ct.k == 'ptr':
                # a pointer about which nothing is known: it may be invalid
                o = Obj('raw', size=IV(1), cls='heap', name=x.get('name', 'arg'), bytes=IV(1))
                o.alive = FALSE
                c._next(Ptr(c.state.new(o, 'arg'), IV(0), fresh('null', B)))
            else:
                c.val(x.get('name', 'arg'))

        def call(eng, name, vals, st):
            if name == 'slip_initialized':
                return [(st, FALSE)]
            if name in ('__builtin_expect',):
                return [(st, vals[0])]
            eng.fail(st, 'post', '%s is not called before SLIP_initialize' % name)
            return []
        c.eng.call_hook = call

        def ens(rc):
            if ret == NULL:
                rc.ens('NULL is returned', rc.result.null if isinstance(rc.result, Ptr) else FALSE)
            elif ret is not None:
                rc.ens('the result before SLIP_initialize', rc.result == ret)
            rc.ens('no global is changed', B_(not c.state.globals))
        return [Outcome('not initialised', None, ens=ens, nomod=True)]
    return spec


UNINIT = {'SLIP_LU_analyze': PANIC, 'SLIP_LU_factorize': PANIC, 'SLIP_LU_solve': PANIC, 'SLIP_backslash': PANIC, 'SLIP_LU_analysis_free': PANIC,
          'SLIP_matrix_allocate': PANIC, 'SLIP_matrix_free': PANIC, 'SLIP_matrix_copy': PANIC, 'SLIP_matrix_check': PANIC, 'SLIP_matrix_nnz': -1,
          'SLIP_finalize': PANIC, 'SLIP_create_default_options': NULL, 'SLIP_malloc': NULL, 'SLIP_calloc': NULL, 'SLIP_free': None}
UNINITFNS = []
for _n, _r in UNINIT.items():
    contract(_n + '@uninit')(uninit(_r))
    UNINITFNS.append(_n + '@uninit')
LIFEFNS = ['SLIP_initialize', 'SLIP_initialize_expert', 'SLIP_finalize', 'slip_initialized', 'slip_set_initialized', 'SLIP_create_default_options']
