"""Library: which source file a function comes from, what a call means."""
import os, subprocess, z3
from .core import *
from .cfront import *
from . import specs, prims
from .specs import SPECS, call_spec, Ctx

SLIP_DIR = 'SLIP_LU/Source'
SSC = 'SuiteSparse_config/SuiteSparse_config.c'


def source_files():
    d = os.path.join(REPO, SLIP_DIR)
    return sorted(os.path.join(SLIP_DIR, f) for f in os.listdir(d) if f.endswith('.c'))


PRINTF = {'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'mpfr_printf', 'mpfr_fprintf', '__printf_chk'}


class Library:
    def __init__(self):
        self._index = None
        self.op_used = set()
        self.pure_calls = {'slip_initialized', '__builtin_constant_p', '__builtin_expect', '__gmpq_sgn', '__gmpz_sgn'}
        self.trusted_used = set()
        self.nooverride = set()
        self.spec_used = set()

    # ---- sources
    def index(self):
        """function name -> file, by a textual scan of the tree (definitions are then read from clang's AST)"""
        if self._index is None:
            import re
            self._index = {}
            for f in source_files():
                txt = open(os.path.join(REPO, f), errors='replace').read()
                for m in re.finditer(r'\b((?:SLIP|slip)_\w+)\s*(?://[^\n]*)?\s*\(', txt):
                    self._index.setdefault(m.group(1), []).append(f)
        return self._index

    def tu_of(self, fname):
        sp = SPECS.get(fname)
        if sp is not None and sp.tu:
            return get_tu(sp.tu, sp.defs)
        cand = []
        p = os.path.join(SLIP_DIR, fname + '.c')
        if os.path.exists(os.path.join(REPO, p)):
            cand.append(p)
        cand += [f for f in self.index().get(fname, []) if f not in cand]
        for f in cand:
            tu = get_tu(f)
            if fname in tu.funcs:
                return tu
        raise Unsupported('function %s not found in the source tree' % fname)

    def body_of(self, name):
        try:
            tu = self.tu_of(name)
        except Unsupported:
            return None
        return tu.funcs.get(name), tu

    def fn_decl(self, name):
        tu = self.tu_of(name)
        return tu.funcs[name]

    def ret_type(self, name):
        tu = self.tu_of(name)
        q = tu.funcs[name]['type']['qualType']
        return tu.ctype(q[:q.index('(')].strip())

    def real_name(self, st_real):
        return st_real

    # ---- calls
    def handler(self, eng, name):
        n = name
        if n.startswith('__gmpz_'):
            n = 'mpz_' + n[7:]
        elif n.startswith('__gmpq_'):
            n = 'mpq_' + n[7:]
        elif n.startswith('__gmp_'):
            n = 'mp_' + n[6:]
        if name in eng.override:
            return eng.override[name]
        if name in eng.inline_from:
            return None
        if eng.op_hook is not None and n in prims.OPS:
            return lambda e, st, vals, ex: eng.op_hook(e, st, n, vals)
        if n in prims.OPS and name not in SPECS:
            return lambda e, st, vals, ex: prims.apply_op(e, st, n, vals)
        if name in prims.WRAPPERS and name != eng.fname:
            return lambda e, st, vals, ex: wrapper_hooks(e, name, vals, prims.wrapper_call(e, st, name, vals))
        h = BUILTIN.get(n)
        if h is not None and name != eng.fname:
            return h
        sp = SPECS.get(name)
        if sp is not None and (name != eng.fname or eng.allow_recursion):
            def hh(e, st, vals, ex):
                self.spec_used.add(name)
                return call_spec(sp, e, st, vals, ex)
            return hh
        if name in PRINTF:
            return h_printf
        return None

    def indirect_call(self, eng, st, fv, vals, e):
        if isinstance(fv, FnPtr):
            if not is_false(fv.null):
                eng.oblige(st, Not(fv.null), 'null', 'function pointer is not NULL')
                st.assume(Not(fv.null))
            eng.called.add(fv.name)
            return eng.call(fv.name, vals, st, e)
        raise Unsupported('indirect call')

    GFN = {'SuiteSparse_config.printf_func': 'printf', 'SuiteSparse_config.malloc_func': 'malloc',
           'SuiteSparse_config.calloc_func': 'calloc', 'SuiteSparse_config.realloc_func': 'realloc',
           'SuiteSparse_config.free_func': 'free'}

    def global_init(self, eng, st, name, ct):
        if name in self.GFN:
            return FnPtr(self.GFN[name], fresh('noprintf', B) if name.endswith('printf_func') else FALSE)
        if name in eng.globals_hook:
            return eng.globals_hook[name](eng, st)
        if ct.k == 'int':
            v = fresh('glob_' + name, B if ct.name == 'bool' else I)
            if ct.name != 'bool':
                st.assume(eng.inrange(v, ct))
            return v
        raise Unsupported('global variable ' + name)

    def global_addr(self, eng, st, l):
        if l[1] in ('stderr', 'stdout') or l[1] in eng.opaque_globals:
            return Opaque(l[1])
        raise Unsupported('address of global ' + l[1])

    def sizeof_struct(self, tu, name):
        off = 0
        al = 1
        for f, t in tu.fields(name):
            if t.k == 'struct' and t.name == 'union':
                s = a = t.n or 8
            elif t.k == 'mp':
                s, a = elem_bytes(t), 8
            elif t.k == 'arr':
                s = elem_bytes(t.to) * t.n
                a = elem_bytes(t.to)
            elif t.k == 'struct':
                s = self.sizeof_struct(tu, t.name)
                a = 8
            else:
                s = a = elem_bytes(t)
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al

    def auto_facts(self, eng, st):
        pass

    def pick_case(self, eng, st, spec, vals):
        pk = getattr(spec.fn, 'pick', None)
        if pk is not None:
            return pk(eng, st, vals)
        return spec.cases[0] if spec.cases else None


# --------------------------------------------------------------------------- builtin handlers
BUILTIN = {}


def builtin(*names):
    def deco(f):
        for n in names:
            BUILTIN[n] = f
        return f
    return deco


def h_printf(eng, st, vals, e):
    r = fresh('printf')
    st.assume(And(r >= -2 ** 31, r < 2 ** 31))
    return [(st, r)]


@builtin('__builtin_constant_p')
def _(eng, st, vals, e):
    return [(st, fresh('bcp', B))]


@builtin('__builtin_expect')
def _(eng, st, vals, e):
    return [(st, vals[0])]


@builtin('slip_initialized')
def _(eng, st, vals, e):
    return [(st, init_flag(st))]


def init_flag(st):
    if 'init' not in st.ghost:
        raise Unsupported('contract does not say whether SLIP_LU is initialised')
    return st.ghost['init']


def wrapper_hooks(eng, name, vals, res):
    for h in (eng.contract.hooks.get(('after', name), []) if eng.contract is not None else []):
        from .engine import LoopCtx
        for s, v in res:
            h(LoopCtx(eng, s, s, -1), vals, 'ok' if z3.is_int_value(v) and v.as_long() == 0 else '', None)
    return res


def bump_oom(st, b):
    st.ghost['oom'] = simp2(Or(st.ghost.get('oom', FALSE), b))


def simp2(e):
    return z3.simplify(e) if z3.is_expr(e) else e


def max1(eng, st, n):
    n = simp2(n)
    if z3.is_int_value(n):
        return IV(max(1, n.as_long()))
    if eng.qprove(st, n >= 1):
        return n
    return If(n < 1, IV(1), n)


def new_block(eng, st, n, s, zero, must_init=True):
    """block of max(n,1)*max(s,1) bytes, or NULL"""
    n1 = max1(eng, st, n)
    s1 = max1(eng, st, s)
    b = fresh('nomem', B)
    o = Obj('raw', cls='heap', name='block', bytes=simp2(n1 * s1), zero=zero)
    o.fields['items'] = (n1, simp2(s1).as_long()) if z3.is_int_value(simp2(s1)) else None
    if o.fields['items'] is None:
        o.fields.pop('items')
    o.name = 'block@%s' % eng.line
    o.alive = Not(b)
    oid = st.new(o, 'blk')
    st.assume(Implies(Not(b), o.bytes <= 2 ** 63 - 1))
    if must_init and not is_true(init_flag(st)):
        st.assume(Implies(Not(b), init_flag(st)))
    bump_oom(st, b)
    return Ptr(oid, IV(0), b)


@builtin('SLIP_calloc')
def _(eng, st, vals, e):
    return [(st, new_block(eng, st, vals[0], vals[1], True))]


@builtin('SLIP_malloc')
def _(eng, st, vals, e):
    b = simp2(vals[0])
    p = new_block(eng, st, IV(1), b, False)
    st.heap[p.obj].fields.pop('items', None)
    # bytes = k * const: element count is recovered when the block is first used
    return [(st, p)]


def free_block(eng, st, p, name):
    """p is released; returns nothing"""
    if isinstance(p, Opaque):
        raise Unsupported('free of an unknown pointer')
    if p.obj is None:
        return
    o = st.heap[p.obj]
    if o.cls == 'dummy':
        return
    g = Not(p.null)
    if is_false(simp2(g)):
        return
    init = st.ghost.get('init', TRUE)
    if not is_true(init) and (eng.dry or eng.qprove(st, init)):
        init = TRUE
    gg = And(g, init)
    if o.cls == 'local':
        eng.oblige(st, Not(gg), 'free', '%s: block came from the allocator' % name)
    eng.oblige(st, simp2(Implies(gg, And(o.alive, p.off == 0))), 'free', '%s: block is allocated (no double free)' % name)
    check_no_live(eng, st, p.obj, gg)
    o = st.wobj(p.obj)
    o.alive = simp2(And(o.alive, Not(gg)))
    for v in o.fields.values():
        if isinstance(v, Ptr) and v.obj is not None and st.heap[v.obj].parent == p.obj:
            st.wobj(v.obj).alive = o.alive


def check_no_live(eng, st, oid, g):
    o = st.heap[oid]
    if o.kind == 'mp':
        for c in ('st', 'sd'):
            if c in o.comp:
                a = o.comp[c]
                if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
                    eng.oblige(st, simp2(Implies(g, a.arg(0) != 1)), 'leak', 'numbers of %s are cleared before the block is released' % o.name)
                else:
                    q = fresh('q')
                    eng.oblige(st, Implies(And(g, q >= 0, q < o.size), z3.Select(a, q) != 1), 'leak',
                               'numbers of %s are cleared before the block is released' % o.name)
    elif o.kind == 'struct':
        for v in o.fields.values():
            if isinstance(v, Ptr) and v.obj is not None and st.heap[v.obj].parent == oid:
                check_no_live(eng, st, v.obj, g)


@builtin('SLIP_free', 'free')
def _(eng, st, vals, e):
    free_block(eng, st, vals[0], 'free')
    return [(st, Opaque('void'))]


@builtin('SuiteSparse_free')
def _(eng, st, vals, e):
    free_block(eng, st, vals[0], 'SuiteSparse_free')
    return [(st, NULL)]


@builtin('SuiteSparse_malloc', 'SuiteSparse_calloc')
def _(eng, st, vals, e):
    zero = eng.callee_name(e) == 'SuiteSparse_calloc'
    return [(st, new_block(eng, st, vals[0], vals[1], zero, must_init=False))]


@builtin('malloc')
def _(eng, st, vals, e):
    p = new_block(eng, st, IV(1), vals[0], False, must_init=False)
    st.heap[p.obj].fields.pop('items', None)
    return [(st, p)]


@builtin('calloc')
def _(eng, st, vals, e):
    return [(st, new_block(eng, st, vals[0], vals[1], True, must_init=False))]


def realloc_block(eng, st, nn, no, s, p, okptr, okct):
    """SLIP_realloc: contract of the documentation block in SLIP_LU.h"""
    nn1, no1 = max1(eng, st, nn), max1(eng, st, no)
    s = simp2(s)
    if not z3.is_int_value(s):
        raise Unsupported('realloc with variable item size')
    sz = s.as_long()
    if p.obj is None or is_true(simp2(p.null)):
        q = new_block(eng, st, nn1, s, False)
        prims.store_result(eng, st, okptr, Not(q.null) if okct == 'bool' else If(q.null, IV(0), IV(1)))
        return [(st, q)]
    if not is_false(simp2(p.null)) and not eng.qprove(st, Not(p.null)):
        raise Unsupported('realloc of a pointer that may be NULL')
    o = st.heap[p.obj]
    if o.kind == 'raw':
        raise Unsupported('realloc of an untyped block')
    eng.oblige(st, And(o.alive, p.off == 0), 'free', 'realloc: block is allocated')
    if o.cls == 'local':
        eng.fail(st, 'free', 'realloc: block came from the allocator')
    eng.oblige(st, And(no1 <= o.size), 'pre', 'SLIP_realloc: old item count is right')
    es = elem_bytes(o.elem)
    if es != sz:
        raise Unsupported('realloc item size')
    if o.kind == 'mp':
        q = fresh('q')
        for c in ('st', 'sd'):
            if c in o.comp:
                eng.oblige(st, Implies(And(q >= nn1, q < o.size), z3.Select(o.comp[c], q) != 1), 'leak',
                           'realloc: numbers beyond the new size are cleared')
    # failure (only when growing)
    bad = st.copy()
    bad.assume(nn1 > no1)
    bump_oom(bad, TRUE)
    out = []
    # success
    n = o.copy()
    n.size = fresh('newsize')
    st.assume(And(n.size >= nn1, n.size <= (2 ** 63 - 1) // sz, Or(n.size == nn1, And(nn1 <= no1, n.size == o.size))))
    n.alive = TRUE
    n.parent = None
    k = fresh('q')
    for c in list(n.comp):
        old = n.comp[c]
        nv = fresh('%s.%s' % (o.name, c), old.sort())
        st.assume(forall(lambda q: Implies(And(q >= 0, q < o.size, q < n.size), z3.Select(nv, q) == z3.Select(old, q)),
                         pats=lambda q: [z3.Select(nv, q)]))
        n.comp[c] = nv
        if c in ('st', 'sd'):
            st.assume(forall(lambda q: Implies(And(q >= o.size, q < n.size), z3.Select(nv, q) == 2), pats=lambda q: [z3.Select(nv, q)]))
    d = st.wobj(p.obj)
    d.alive = FALSE
    oid = st.new(n, o.name)
    prims.store_result(eng, st, okptr, TRUE if okct == 'bool' else IV(1))
    out.append((st, Ptr(oid)))
    if eng.feasible(bad):
        prims.store_result(eng, bad, okptr, FALSE if okct == 'bool' else IV(0))
        out.append((bad, p))
    return out


@builtin('SLIP_realloc')
def _(eng, st, vals, e):
    return realloc_block(eng, st, vals[0], vals[1], vals[2], vals[3], vals[4], 'bool')


@builtin('mpfr_set_default_prec', 'va_start', 'va_end', '__builtin_va_start', '__builtin_va_end', 'srand')
def _(eng, st, vals, e):
    return [(st, Opaque('void'))]


def math1(name):
    def h(eng, st, vals, e):
        return [(st, ffun(name, 1)(vals[0]))]
    return h


for _n in ('sqrt', 'fabs', 'floor', 'ceil', 'log10', 'log', 'log2', 'trunc', 'exp'):
    BUILTIN[_n] = math1(_n)


@builtin('pow', 'fmax', 'fmin')
def _(eng, st, vals, e):
    return [(st, ffun(eng.callee_name(e), 2)(vals[0], vals[1]))]


@builtin('isnan', '__builtin_isnan', '__isnan')
def _(eng, st, vals, e):
    return [(st, If(z3.Function('d_isnan', F, B)(vals[0]), IV(1), IV(0)))]


@builtin('memcpy', '__builtin_memcpy', '__builtin___memcpy_chk')
def _(eng, st, vals, e):
    d, s, n = vals[0], vals[1], simp2(vals[2])
    if not isinstance(d, Ptr) or not isinstance(s, Ptr) or d.obj is None or s.obj is None:
        raise Unsupported('memcpy operands')
    if st.heap[d.obj].kind == 'raw':
        eng.typed(st, d, st.heap[s.obj].elem)
    od, os_ = st.heap[d.obj], st.heap[s.obj]
    if od.kind != 'arr' or os_.kind != 'arr' or repr(od.elem) != repr(os_.elem):
        raise Unsupported('memcpy element types')
    es = elem_bytes(od.elem)
    cnt = None
    if z3.is_int_value(n):
        if n.as_long() % es:
            raise Unsupported('memcpy of partial elements')
        cnt = IV(n.as_long() // es)
    else:
        cnt = divc(eng, st, n, es)
    eng.check_ptr(st, d, 'memcpy destination')
    eng.check_ptr(st, s, 'memcpy source')
    eng.oblige(st, And(d.off >= 0, d.off + cnt <= od.size), 'bounds', 'memcpy destination in bounds')
    eng.oblige(st, And(s.off >= 0, s.off + cnt <= os_.size), 'bounds', 'memcpy source in bounds')
    od = st.wobj(d.obj)
    old = od.comp['val']
    nv = fresh(str(od.name), old.sort())
    st.assume(forall(lambda q: z3.Select(nv, q) == If(And(q >= d.off, q < d.off + cnt), z3.Select(os_.comp['val'], q - d.off + s.off),
                                                      z3.Select(old, q)), pats=lambda q: [z3.Select(nv, q)]))
    od.comp['val'] = nv
    return [(st, d)]


def divc(eng, st, n, es):
    """n / es where n is a multiple of es"""
    c = fresh('cnt')
    st.assume(And(c * es <= n, n < c * es + es))
    if z3.is_app_of(n, z3.Z3_OP_MUL) and z3.is_int_value(n.arg(0)) and n.arg(0).as_long() == es and n.num_args() == 2:
        return n.arg(1)
    if z3.is_app_of(n, z3.Z3_OP_ADD):
        parts = []
        for a in n.children():
            if z3.is_int_value(a) and a.as_long() % es == 0:
                parts.append(IV(a.as_long() // es))
            elif z3.is_app_of(a, z3.Z3_OP_MUL) and a.num_args() == 2 and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() % es == 0:
                parts.append(simp2(IV(a.arg(0).as_long() // es) * a.arg(1)))
            else:
                return c
        return simp2(z3.Sum(parts))
    return c
