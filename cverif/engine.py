"""Forward symbolic execution of clang AST with contracts -> proof obligations."""
import z3
from .core import *
from .cfront import *

MAXPATHS = 6000


class LocalObj:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


def to_int(v):
    if z3.is_expr(v) and v.sort() == B:
        return If(v, IV(1), IV(0))
    return v


def to_bool(v):
    if isinstance(v, Ptr):
        return Not(v.null)
    if isinstance(v, MpD):
        return Not(v.null)
    if isinstance(v, FnPtr):
        return Not(v.null)
    if isinstance(v, Str):
        return TRUE
    if z3.is_expr(v):
        if v.sort() == B:
            return v
        if v.sort() == I:
            if z3.is_int_value(v):
                return z3.BoolVal(v.as_long() != 0)
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                a, b = v.arg(1), v.arg(2)
                if z3.is_int_value(a) and z3.is_int_value(b):
                    if a.as_long() == 1 and b.as_long() == 0:
                        return v.arg(0)
            return v != 0
        if v.sort() == F:
            return Not(fpred('eq')(v, I2D(IV(0))))
    raise Unsupported('to_bool of %r' % (v,))


def simp(e):
    return z3.simplify(e) if z3.is_expr(e) else e


class Sig:
    NEXT, BREAK, CONT, RET = 'next', 'break', 'continue', 'return'


class Engine:
    def __init__(self, lib, fname, case=None, contract=None):
        self.lib = lib              # Library: contracts, TUs
        self.fname = fname
        self.tu = lib.tu_of(fname)
        self.contract = contract
        self.case = case
        self.obls = []
        self.dry = 0
        self.loop_ids = {}
        self.modcache = {}
        self.assumptions = set()
        self.reach_probes = []
        self.called = set()
        self.inlined = set()
        self.npaths = 0
        self.frame_fn = []
        self.line = 0
        self.loop_count = 0
        self.cov_loops = set()
        self.qcache = {}
        self.inline_depth = 0
        self.override = {}
        self.call_hook = None
        self.addr_mode = None       # pointers are plain addresses (SLIP_gmp.c): an object with aload/astore
        self.inline_from = {}       # function -> file whose body is inlined instead of a contract
        self.globals_hook = {}
        self.op_hook = None
        self.opaque_globals = set()
        self.allow_recursion = False
        self.prods = []
        self.callpath = ()
        self.ixaxioms = set()
        self.baseline = None
        self.loop_shape, self.reshaped = '', False
        self.lemmas = set()

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, goal, kind, desc):
        if self.dry:
            return
        if is_true(goal):
            self.obls.append(Obl(self.fname, self.case_name(), kind, desc, self.line, (), TRUE))
            return
        self.obls.append(Obl(self.fname, self.case_name(), kind, desc, self.line, st.pc, goal))

    def derived(self, desc, goal, hyps):
        if self.dry:
            return
        self.obls.append(Obl(self.fname, self.case_name(), 'assert', desc, self.line, tuple(hyps), goal))

    def case_name(self):
        return self.case or ''

    def fail(self, st, kind, desc):
        self.oblige(st, FALSE, kind, desc)

    def qprove(self, st, f, timeout=200):
        f = simp(f)
        if is_true(f):
            return True
        if is_false(f) and self.dry:
            return False
        key = (tuple(h.get_id() for h in st.pc), f.get_id())
        if key in self.qcache:
            return self.qcache[key][0]
        s = self.qsolver(st.pc, timeout)
        s.push()
        s.add(z3.Not(f))
        r = s.check() == z3.unsat
        s.pop()
        self.qcache[key] = (r, f, st.pc)
        return r

    def qsolver(self, pc, timeout):
        """a solver holding the quantifier-free facts of pc; facts shared with the last question stay in place"""
        q = getattr(self, '_qs', None)
        if q is None:
            q = self._qs = (z3.SimpleSolver(), [])
        s, stack = q
        k = 0
        while stack and not (stack[-1][0] <= len(pc) and stack[-1][1] is pc[stack[-1][0] - 1] and self.same_prefix(stack[-1][2], pc, stack[-1][0])):
            stack.pop()
            s.pop()
        k = stack[-1][0] if stack else 0
        if k < len(pc):
            s.push()
            for h in pc[k:]:
                if not has_quant(h):
                    s.add(h)
            stack.append((len(pc), pc[-1], pc))
        s.set('timeout', timeout)
        return s

    @staticmethod
    def same_prefix(a, b, n):
        if a is b:
            return True
        for i in range(n - 1, -1, -1):
            if a[i] is not b[i]:
                return False
        return True

    def feasible(self, st):
        if self.dry:
            return not any(is_false(h) for h in st.pc[-3:])
        return not self.qprove(st, FALSE)

    # ------------------------------------------------------------------ arithmetic
    def inrange(self, t, ct):
        lo, hi = ct.range()
        return And(t >= lo, t <= hi)

    def wrap(self, st, t, ct):
        """value of integer t converted to ct (modular)"""
        t = simp(t)
        lo, hi = ct.range()
        if z3.is_int_value(t):
            v = t.as_long()
            m = v % (1 << ct.bits)
            if ct.signed and m > hi:
                m -= 1 << ct.bits
            return IV(m)
        if self.qprove(st, self.inrange(t, ct)):
            return t
        if ct.signed:
            h = 1 << (ct.bits - 1)
            return (t + h) % (1 << ct.bits) - h
        return t % (1 << ct.bits)

    def arith(self, st, op, a, b, ct):
        a, b = to_int(a), to_int(b)
        if ct.k == 'f64':
            return self.farith(st, op, a, b)
        if op == '+':
            t = a + b
        elif op == '-':
            t = a - b
        elif op == '*':
            self.mul_lemma(st, a, b)
            t = a * b
        elif op in '/%':
            self.oblige(st, b != 0, 'div0', 'division by zero')
            if ct.signed:
                q = If(And(a >= 0), If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))
                if self.qprove(st, And(a >= 0, b > 0)):
                    q = a / b
                    t = q if op == '/' else a % b
                else:
                    t = q if op == '/' else a - b * q
            else:
                t = a / b if op == '/' else a % b
        elif op == '<<':
            sb = simp(b)
            if not z3.is_int_value(sb):
                raise Unsupported('shift by variable')
            t = a * (1 << sb.as_long())
        elif op == '>>':
            sb = simp(b)
            if not z3.is_int_value(sb):
                raise Unsupported('shift by variable')
            t = a / (1 << sb.as_long())
        elif op in '&|^':
            sa, sb = simp(a), simp(b)
            if z3.is_int_value(sa) and z3.is_int_value(sb):
                x, y = sa.as_long(), sb.as_long()
                t = IV(x & y if op == '&' else x | y if op == '|' else x ^ y)
            else:
                if op == '&' and self.qprove(st, And(a >= 0, a <= 1, b >= 0, b <= 1)):
                    t = If(And(a == 1, b == 1), IV(1), IV(0))
                elif op == '|' and self.qprove(st, And(a >= 0, a <= 1, b >= 0, b <= 1)):
                    t = If(Or(a == 1, b == 1), IV(1), IV(0))
                else:
                    t = fresh('bitop')
                    st.assume(self.inrange(t, ct))
                    return t
        else:
            raise Unsupported('op ' + op)
        t = simp(t)
        if ct.signed:
            self.oblige(st, self.inrange(t, ct), 'overflow', 'signed %s in range of %r' % (op, ct))
            st.assume(self.inrange(t, ct)) if not z3.is_int_value(t) and not self.dry else None
            return t
        return self.wrap(st, t, ct)

    def farith(self, st, op, a, b):
        return ffun({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], 2)(a, b)

    def compare(self, st, op, a, b):
        if self.addr_mode is not None:
            if z3.is_expr(a) and isinstance(b, Ptr) and b.obj is None:
                b = IV(0)
            elif z3.is_expr(b) and isinstance(a, Ptr) and a.obj is None:
                a = IV(0)
        if isinstance(a, (Ptr, MpD, FnPtr, Str)) or isinstance(b, (Ptr, MpD, FnPtr, Str)):
            return self.ptrcmp(st, op, a, b)
        a, b = to_int(a), to_int(b)
        if not z3.is_expr(a) or not z3.is_expr(b):
            raise Unsupported('compare %r %r' % (a, b))
        if a.sort() == F or b.sort() == F:
            if op == '<':
                return fpred('lt')(a, b)
            if op == '>':
                return fpred('lt')(b, a)
            if op == '<=':
                return fpred('le')(a, b)
            if op == '>=':
                return fpred('le')(b, a)
            if op == '==':
                return fpred('eq')(a, b)
            return Not(fpred('eq')(a, b))
        r = {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        return simp(r)

    def ptrcmp(self, st, op, a, b):
        def isnull(x):
            return isinstance(x, Ptr) and x.obj is None
        if op in ('==', '!='):
            if isnull(a) and isnull(b):
                r = TRUE
            elif isnull(b):
                r = a.null if not isinstance(a, Str) else FALSE
            elif isnull(a):
                r = b.null if not isinstance(b, Str) else FALSE
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj and a.sub == b.sub:
                    r = Or(And(a.null, b.null), And(Not(a.null), Not(b.null), a.off == b.off))
                else:
                    r = And(a.null, b.null)
            else:
                raise Unsupported('pointer comparison')
            return r if op == '==' else Not(r)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return self.compare(st, op, a.off, b.off)
        raise Unsupported('pointer ordering')

    # ------------------------------------------------------------------ memory
    def check_ptr(self, st, p, what):
        """deref obligations"""
        if not isinstance(p, Ptr):
            raise Unsupported('deref of %r' % (p,))
        if p.obj is None:
            self.fail(st, 'null', 'NULL dereference: ' + what)
            st.dead = True
            return False
        if not is_false(p.null):
            self.oblige(st, Not(p.null), 'null', 'pointer may be NULL: ' + what)
            st.assume(Not(p.null))
        o = st.heap[p.obj]
        if not is_true(o.alive):
            self.oblige(st, o.alive, 'uaf', 'object may be freed: ' + what)
            if is_false(o.alive):
                st.dead = True
                return False
        return True

    def check_bounds(self, st, p, what):
        if not self.check_ptr(st, p, what):
            return False
        o = st.heap[p.obj]
        if o.size is not None:
            self.oblige(st, And(p.off >= 0, p.off < o.size), 'bounds', 'index in bounds: %s[%s]' % (o.name, what))
        return True

    def typed(self, st, p, ct):
        """resolve an untyped block on its first typed use"""
        if not isinstance(p, Ptr) or p.obj is None or ct is None:
            return
        o = st.heap[p.obj]
        if o.kind == 'raw' and o.bytes is not None:
            if ct.k == 'void' or ct.k == 'func':
                return
            self.type_raw(st, p.obj, ct)

    def type_raw(self, st, oid, ct):
        o = st.wobj(oid)
        nb = simp(o.bytes)
        if ct.k == 'struct':
            o.kind = 'struct'
            o.rec = ct.name
            sz = self.sizeof(ct)
            self.oblige(st, nb >= sz, 'bounds', 'block large enough for struct ' + ct.name)
            for f, t in self.tu.fields(ct.name):
                if t.k == 'mp':
                    sub = self.new_mp(st, t, IV(1), oid + '.' + f, 0 if o.zero else 2)
                    st.heap[sub].parent = oid
                    o.fields[f] = Ptr(sub)
                elif o.zero:
                    if t.k == 'int':
                        o.fields[f] = IV(0)
                    elif t.k == 'f64':
                        o.fields[f] = fconst(0)
                    else:
                        o.fields[f] = NULL
                else:
                    o.fields[f] = UNDEF
            return
        es = elem_bytes(ct)
        # number of elements
        cnt = None
        for e in (o.fields.get('items') or []):
            pass
        items = o.fields.pop('items', None)
        if items is not None and items[1] == es:
            cnt = items[0]
        if cnt is None:
            q = simp(nb / es)
            if z3.is_int_value(q):
                cnt = q
            else:
                from .lib import divc
                cnt = divc(self, st, nb, es)
                st.assume(cnt >= 0)
        o.size = simp(cnt)
        o.elem = ct
        if ct.k == 'mp':
            o.kind = 'mp'
            self.init_mp(o, ct, 0 if o.zero else 2)
        elif ct.k == 'ptr':
            o.kind = 'arr'
            o.comp['val'] = z3.K(I, IV(0)) if o.zero else fresh(o.name + '.val', arrsort(I))
        else:
            o.kind = 'arr'
            s = elem_sort(ct)
            if o.zero:
                o.comp['val'] = z3.K(I, IV(0) if s == I else fconst(0))
            else:
                o.comp['val'] = fresh(o.name + '.val', arrsort(s))

    def init_mp(self, o, ct, stt):
        n = o.name or 'mp'
        o.comp['st'] = z3.K(I, IV(stt))
        if ct.name == 'z':
            o.comp['val'] = fresh(n + '.z', arrsort(I))
        elif ct.name == 'q':
            o.comp['val'] = fresh(n + '.q', arrsort(R))
            o.comp['pn'] = fresh(n + '.pn', arrsort(I))
            o.comp['pd'] = fresh(n + '.pd', arrsort(I))
            o.comp['sd'] = z3.K(I, IV(stt))
        else:
            o.comp['val'] = fresh(n + '.f', arrsort(FR))
            o.comp['prec'] = fresh(n + '.prec', arrsort(I))

    def new_mp(self, st, ct, size, name, stt):
        o = Obj('mp', elem=ct, size=size, name=name, cls='local')
        self.init_mp(o, ct, stt)
        return st.new(o, name)

    def sizeof(self, ct):
        if ct.k == 'struct':
            return self.lib.sizeof_struct(self.tu, ct.name)
        if ct.k == 'arr':
            return self.sizeof(ct.to) * ct.n
        if ct.k == 'ptr':
            return 8
        return elem_bytes(ct)

    # ------------------------------------------------------------------ lvalues
    def lv(self, e, st):
        k = e['kind']
        if k in ('ParenExpr', 'ConstantExpr'):
            return self.lv(e['inner'][0], st)
        if k == 'DeclRefExpr':
            d = e['referencedDecl']
            for fi in range(len(st.frames) - 1, -1, -1):
                if d['id'] in st.frames[fi]:
                    v = st.frames[fi][d['id']]
                    if isinstance(v, LocalObj):
                        o = st.heap[v.oid]
                        if o.kind == 'mp':
                            return [(st, ('mp', Ptr(v.oid)))]
                        if o.kind == 'struct':
                            return [(st, ('struct', v.oid))]
                        return [(st, ('elem', Ptr(v.oid)))]
                    return [(st, ('loc', fi, d['id'], d['name']))]
            if d['kind'] == 'VarDecl':
                return [(st, self.global_lv(st, d['name'], e))]
            raise Unsupported('lvalue ' + d['name'])
        if k == 'ArraySubscriptExpr':
            out = []
            for s1, b in self.ev(e['inner'][0], st):
                for s2, i in self.ev(e['inner'][1], s1):
                    if not isinstance(b, Ptr) and (self.addr_mode is None or self.tu.ctype(e['inner'][0]['type']).k == 'int'):
                        b, i = i, b
                    out.append((s2, self.mk_elem(s2, b, to_int(i), self.tu.ctype(e['type']))))
            return out
        if k == 'UnaryOperator' and e['opcode'] == '*':
            out = []
            for s1, b in self.ev(e['inner'][0], st):
                ct = self.tu.ctype(e['type'])
                out.append((s1, self.mk_elem(s1, b, IV(0), ct)))
            return out
        if k == 'MemberExpr':
            return self.lv_member(e, st)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and e.get('castKind') in ('NoOp', 'LValueBitCast'):
            return self.lv(e['inner'][0], st)
        if k == 'StringLiteral':
            return [(st, ('str', e.get('value', '')))]
        raise Unsupported('lvalue kind ' + k)

    def mk_elem(self, st, b, i, ct):
        if isinstance(b, Str):
            return ('opaque', ct)
        if self.addr_mode is not None and (z3.is_expr(b) or isinstance(b, Ptr) and b.obj is None):
            return ('aelem', b if z3.is_expr(b) else IV(0), i, ct)
        if not isinstance(b, Ptr):
            raise Unsupported('subscript of %r' % (b,))
        p = Ptr(b.obj, self.to_ix(st, simp(b.off + i)), b.null, b.sub)
        if p.obj is not None:
            self.typed(st, p, ct)
            o = st.heap[p.obj]
            if o.kind == 'mp':
                return ('mp', p)
            if o.kind == 'struct':
                return ('struct', p.obj, p)
        return ('elem', p)

    # ---- two-dimensional indices i + j*m (SLIP_2D)
    def product(self, st, m, n):
        """register a dense m-by-n array: index lemmas for i + j*m"""
        from .specs import IX, IXI, IXJ
        m, n = simp(m), simp(n)
        if not any(a.eq(m) and b.eq(n) for a, b in self.prods):
            self.prods.append((m, n))
        key = ('ix', m.get_id(), n.get_id())
        if key in st.ghost:
            return
        st.ghost[key] = m
        st.assume(forall(lambda i, j: Implies(And(i >= 0, i < m), And(IXI(IX(i, j, m), m) == i, IXJ(IX(i, j, m), m) == j)),
                         2, pats=lambda i, j: [IX(i, j, m)]))
        mn = simp(m * n)
        st.assume(forall(lambda i, j: Implies(And(i >= 0, i < m, j >= 0, j < n), And(IX(i, j, m) >= 0, IX(i, j, m) < mn)),
                         2, pats=lambda i, j: [IX(i, j, m)]))
        st.assume(forall(lambda k: Implies(And(k >= 0, k < mn, m >= 0, n >= 0),
                                           And(IXI(k, m) >= 0, IXI(k, m) < m, IXJ(k, m) >= 0, IXJ(k, m) < n, IX(IXI(k, m), IXJ(k, m), m) == k)),
                         1, pats=lambda k: [IXI(k, m)]))
        self.lemmas.add('dense-index')

    def to_ix(self, st, t):
        from .specs import IX
        if not self.prods or not z3.is_expr(t):
            return t
        parts = t.children() if z3.is_app_of(t, z3.Z3_OP_ADD) else [t]
        nl = [p for p in parts if z3.is_app_of(p, z3.Z3_OP_MUL) and p.num_args() == 2 and not z3.is_int_value(p.arg(0))]
        if len(nl) != 1:
            return t
        rest = [p for p in parts if p is not nl[0]]
        a, b = nl[0].arg(0), nl[0].arg(1)
        ms = [m for m, n in self.prods]
        if any(b.eq(m) for m in ms):
            j, m = a, b
        elif any(a.eq(m) for m in ms):
            j, m = b, a
        else:
            return t
        i = simp(z3.Sum(rest)) if rest else IV(0)
        r = IX(i, j, m)
        st.assume(r == t)
        return r

    def mul_lemma(self, st, a, b):
        if not self.prods or self.dry:
            return
        t = a * b
        for m, n in self.prods:
            for x, y in ((a, b), (b, a)):
                if y.eq(m) and not x.eq(n):
                    st.assume(Implies(And(x >= 0, x < n, m >= 0), And(t >= 0, t <= m * n - m)))
                elif y.eq(m) and x.eq(n):
                    st.assume(Implies(And(n >= 0, m >= 0), t >= 0))

    def oblige_divides(self, st, b, a):
        from .prims import DIVS
        wit = []
        if self.contract is not None and getattr(self.contract, 'witness', None):
            wit = self.contract.witness(LoopCtx(self, st, st, -1), b, a) or []
        g = Or(DIVS(b, a), a == 0, a == b, *[a == b * w for w in wit])
        if len(wit) == 1:
            g = a == b * wit[0]
        self.oblige(st, g, 'divides', 'mpz_divexact: the division is exact')
        return wit

    def rename(self, name):
        """locals renamed since the contract was written: matched by position and type"""
        if self.baseline is None:
            return None
        return self.baseline.get(name)

    def lv_member(self, e, st):
        base = e['inner'][0]
        fld = e['name']
        out = []
        if e.get('isArrow'):
            for s1, b in self.ev(base, st):
                bt = self.tu.ctype(base['type'])
                out.append((s1, self.member_of_ptr(s1, b, fld, bt)))
        else:
            for s1, l in self.lv(base, st):
                if l[0] == 'struct':
                    if len(l) > 2:
                        self.check_ptr(s1, l[2], fld)
                    out.append((s1, self.field_lv(s1, l[1], fld)))
                elif l[0] == 'union':
                    out.append((s1, ('ufld', l[1], l[2], fld)))
                elif l[0] == 'mp':
                    out.append((s1, ('mpf', l[1], fld)))
                elif l[0] == 'mpf' and l[2] in ('_mp_num', '_mp_den'):
                    q = self.addr_of(s1, l)
                    out.append((s1, ('mpf', q, fld)))
                elif l[0] == 'gstruct':
                    out.append((s1, ('glob', l[1] + '.' + fld)))
                elif l[0] == 'structelem':
                    out.append((s1, self.selem(s1, l[1], fld)))
                elif l[0] == 'selem':
                    out.append((s1, ('selem', l[1], l[2] + '.' + fld)))
                else:
                    raise Unsupported('member of ' + l[0])
        return out

    def selem(self, st, p, fld):
        return ('selem', p, fld)

    def field_lv(self, st, oid, fld):
        o = st.heap[oid]
        v = o.fields.get(fld)
        t = dict(self.tu.fields(o.rec)).get(fld) if o.rec else None
        if t is not None and t.k == 'mp':
            return ('mp', v)
        if t is not None and t.k == 'struct' and t.name == 'union':
            return ('union', oid, fld)
        return ('fld', oid, fld)

    def member_of_ptr(self, st, b, fld, bt):
        if isinstance(b, Ptr) and b.obj is not None and bt.k == 'ptr':
            self.typed(st, b, bt.to)
        if not self.check_ptr(st, b, '->' + fld):
            return ('dead',)
        o = st.heap[b.obj]
        if o.kind == 'mp':
            return ('mpf', b, fld)
        if o.kind == 'struct':
            return self.field_lv(st, b.obj, fld)
        raise Unsupported('-> on ' + o.kind)

    def global_lv(self, st, name, e):
        g = st.globals
        ct = self.tu.ctype(e['type'])
        if ct.k == 'struct' and name not in g:
            return ('gstruct', name)
        return ('glob', name, ct)

    # ---- load
    def load(self, st, l, ct):
        k = l[0]
        if k == 'loc':
            v = st.frames[l[1]][l[2]]
            if isinstance(v, Undef):
                self.fail(st, 'uninit', 'read of uninitialised variable ' + l[3])
                st.dead = True
                return self.fresh_of(st, ct, l[3])
            return v
        if k == 'elem':
            p = l[1]
            if not self.check_bounds(st, p, 'read'):
                return self.fresh_of(st, ct, 'dead')
            o = st.heap[p.obj]
            if o.kind == 'cell':
                v = o.fields['*']
                if isinstance(v, Undef):
                    self.fail(st, 'uninit', 'read of uninitialised pointer ' + str(o.name))
                    st.dead = True
                    return NULL
                return v
            if o.kind != 'arr':
                raise Unsupported('read from %s object %s' % (o.kind, o.name))
            if ct.k != o.elem.k or (ct.k == 'int' and ct.bits != o.elem.bits):
                raise Unsupported('type-punned read %r of %r' % (ct, o.elem))
            if o.fields.get('undef'):
                self.fail(st, 'uninit', 'read of uninitialised ' + str(o.name))
                st.dead = True
            v = simp(z3.Select(o.comp['val'], p.off))
            if ct.k == 'int':
                lo, hi = o.elem.range()
                if not z3.is_int_value(v):
                    st.assume(And(v >= lo, v <= hi))
                if ct.signed != o.elem.signed:
                    v = self.wrap(st, v, ct)
            return v
        if k == 'fld':
            v = st.heap[l[1]].fields[l[2]]
            if isinstance(v, Undef):
                self.fail(st, 'uninit', 'read of uninitialised field ' + l[2])
                st.dead = True
                return self.fresh_of(st, ct, l[2])
            return v
        if k == 'ufld':
            v = st.heap[l[1]].fields[l[2]]
            if isinstance(v, Ptr) and v.obj is not None:
                self.check_union(st, v, l[3])
            if isinstance(v, Undef):
                self.fail(st, 'uninit', 'read of uninitialised field ' + l[2])
                st.dead = True
                return NULL
            return v
        if k == 'mpf':
            return self.load_mpf(st, l[1], l[2])
        if k == 'glob':
            if l[1] not in st.globals:
                st.globals[l[1]] = self.lib.global_init(self, st, l[1], ct)
            return st.globals[l[1]]
        if k == 'mp':
            return l[1]
        if k == 'opaque':
            return self.fresh_of(st, ct, 'op')
        if k == 'dead':
            st.dead = True
            return self.fresh_of(st, ct, 'dead')
        if k == 'selem':
            return self.load_selem(st, l, ct)
        if k == 'aelem':
            return self.addr_mode.load(st, l[1], l[2], ct)
        raise Unsupported('load ' + k)

    UN = {'mpz': 'z', 'mpq': 'q', 'mpfr': 'f', 'int64': 'i', 'fp64': 'd'}

    def check_union(self, st, v, member):
        o = st.heap[v.obj]
        if o.kind == 'raw':
            return
        want = self.UN.get(member)
        have = o.elem.name if o.kind == 'mp' else ('d' if o.elem.k == 'f64' else 'i')
        if want != have:
            # a NULL pointer may be read through any member
            self.oblige(st, v.null, 'type', 'x.%s used but the entries have another type' % member)

    def load_mpf(self, st, p, fld):
        if self.addr_mode is not None and fld in ('_mp_d', '_mpfr_d'):
            if not self.check_bounds(st, p, fld):
                return IV(0)
            return simp(z3.Select(st.heap[p.obj].comp['dd' if p.sub == 'den' else 'dp'], p.off))
        if not self.check_bounds(st, p, fld):
            return MpD(TRUE)
        o = st.heap[p.obj]
        c = 'sd' if p.sub == 'den' else 'st'
        s = z3.Select(o.comp[c], p.off)
        if fld in ('_mp_d', '_mpfr_d'):
            self.oblige(st, simp(s != 2), 'uninit', 'number is initialised or set to NULL before its limb pointer is read')
            return MpD(simp(s == 0))
        if fld == '_mp_size':
            self.oblige(st, simp(s == 1), 'mpvalid', 'number is initialised before its value is read')
            v = self.mp_int(st, p)
            r = fresh('siz')
            st.assume(And((r < 0) == (v < 0), (r > 0) == (v > 0), r > -2 ** 31, r < 2 ** 31))
            return r
        if fld in ('_mp_num', '_mp_den'):
            raise Unsupported('mp field load')
        if fld == '_mpfr_prec':
            return simp(z3.Select(o.comp['prec'], p.off))
        if fld in ('_mpfr_exp', '_mpfr_sign'):
            self.oblige(st, simp(s == 1), 'mpvalid', 'number is initialised before its value is read')
            r = fresh('mpfr' + fld)
            if fld == '_mpfr_exp':
                v = z3.Select(o.comp['val'], p.off)
                r = z3.Function('mpfr_exp', FR, I)(v)
            return r
        raise Unsupported('mp field ' + fld)

    def mp_int(self, st, p):
        o = st.heap[p.obj]
        if o.elem.name == 'q':
            return z3.Select(o.comp['pd' if p.sub == 'den' else 'pn'], p.off)
        return z3.Select(o.comp['val'], p.off)

    def fresh_of(self, st, ct, name):
        if ct.k == 'int':
            v = fresh(name)
            st.assume(self.inrange(v, ct))
            return v
        if ct.k == 'f64':
            return fresh(name, F)
        if ct.k == 'ptr':
            return NULL
        return Opaque(name)

    # ---- store
    def store(self, st, l, v, ct):
        k = l[0]
        if k == 'loc':
            st.frames[l[1]][l[2]] = v
            return
        if k == 'elem':
            p = l[1]
            if not self.check_bounds(st, p, 'write'):
                return
            o = st.heap[p.obj]
            if o.ro:
                self.fail(st, 'frame', 'write to read-only object ' + str(o.name))
            o = st.wobj(p.obj)
            if o.kind == 'cell':
                o.fields['*'] = v
                return
            if o.kind != 'arr':
                raise Unsupported('write to ' + o.kind)
            if ct.k != o.elem.k or (ct.k == 'int' and ct.bits != o.elem.bits):
                raise Unsupported('type-punned write %r of %r' % (ct, o.elem))
            if o.elem.k == 'ptr':
                v = self.ptr_addr(st, v)
            v = to_int(v)
            if o.elem.k == 'int' and ct.signed != o.elem.signed:
                v = self.wrap(st, v, o.elem)
            if z3.is_int_value(simp(o.size)) and simp(o.size).as_long() == 1 and z3.is_int_value(simp(p.off)):
                o.comp['val'] = z3.K(I, v)
            else:
                o.comp['val'] = z3.Store(o.comp['val'], p.off, v)
            o.fields.pop('undef', None)
            return
        if k == 'fld':
            st.wobj(l[1]).fields[l[2]] = v
            return
        if k == 'ufld':
            if isinstance(v, Ptr) and v.obj is not None:
                want = {'mpz': MPZ, 'mpq': MPQ, 'mpfr': MPFR, 'int64': I64, 'fp64': F64T}[l[3]]
                self.typed(st, v, want)
                self.check_union(st, v, l[3])
            st.wobj(l[1]).fields[l[2]] = v
            return
        if k == 'mpf':
            self.store_mpf(st, l[1], l[2], v)
            return
        if k == 'glob':
            st.globals[l[1]] = v
            return
        if k == 'dead':
            st.dead = True
            return
        if k == 'selem':
            return self.store_selem(st, l, v, ct)
        if k == 'aelem':
            return self.addr_mode.store(st, l[1], l[2], v, ct)
        raise Unsupported('store ' + k)

    def ptr_addr(self, st, v):
        raise Unsupported('pointer stored in array')

    def load_selem(self, st, l, ct):
        raise Unsupported('struct element')

    store_selem = load_selem

    def store_mpf(self, st, p, fld, v):
        if not self.check_bounds(st, p, fld):
            return
        o = st.wobj(p.obj)
        if self.addr_mode is not None and fld in ('_mp_d', '_mpfr_d'):
            c = 'dd' if p.sub == 'den' else 'dp'
            o.comp[c] = z3.K(I, v if z3.is_expr(v) else IV(0))
            return
        c = 'sd' if p.sub == 'den' else 'st'
        if fld in ('_mp_d', '_mpfr_d'):
            if not (isinstance(v, Ptr) and v.obj is None):
                raise Unsupported('limb pointer assigned')
            self.oblige(st, simp(z3.Select(o.comp[c], p.off) != 1), 'leak',
                        'limb pointer overwritten with NULL while the number is still allocated')
            o.comp[c] = z3.Store(o.comp[c], p.off, IV(0))
            if z3.is_int_value(simp(o.size)) and simp(o.size).as_long() == 1:
                o.comp[c] = z3.K(I, IV(0))
            return
        if fld == '_mp_size':
            s = simp(z3.Select(o.comp[c], p.off))
            if not self.qprove(st, s != 1):
                if is_true(simp(s == 1)) or self.qprove(st, s == 1):
                    self.fail(st, 'mpvalid', 'size field of a live number overwritten')
                self.havoc_mp(st, o, p)
            return
        if fld in ('_mp_alloc', '_mpfr_prec', '_mpfr_sign', '_mpfr_exp'):
            if fld == '_mpfr_prec':
                o.comp['prec'] = z3.Store(o.comp['prec'], p.off, to_int(v))
            return
        raise Unsupported('mp field store ' + fld)

    def havoc_mp(self, st, o, p):
        for c in o.comp:
            if c in ('st', 'sd', 'prec'):
                continue
            o.comp[c] = z3.Store(o.comp[c], p.off, fresh('hv', o.comp[c].sort().range()))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        """list of (state, value)"""
        ln = e.get('_line')
        if ln:
            self.line = ln
        k = e['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return [(s, v) for s, v in m(e, st) if not s.dead]

    def ev_ParenExpr(self, e, st):
        return self.ev(e['inner'][0], st)

    ev_ConstantExpr = ev_ParenExpr

    def ev_StmtExpr(self, e, st):
        raise Unsupported('statement expression')

    def ev_IntegerLiteral(self, e, st):
        return [(st, IV(int(e['value'])))]

    def ev_CharacterLiteral(self, e, st):
        return [(st, IV(int(e['value'])))]

    def ev_FloatingLiteral(self, e, st):
        return [(st, self.fconst(e['value']))]

    def fconst(self, v):
        return fconst(v)

    def ev_StringLiteral(self, e, st):
        return [(st, Str(e.get('value', '')))]

    def ev_DeclRefExpr(self, e, st):
        d = e['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return [(st, IV(self.tu.enums[d['name']]))]
        if d['kind'] == 'FunctionDecl':
            return [(st, FnPtr(d['name']))]
        # lvalue used as value (e.g. struct/array): return pointer to it
        return [(s, self.addr_of(s, l)) for s, l in self.lv(e, st)]

    def addr_of(self, st, l):
        if l[0] in ('elem', 'mp'):
            return l[1]
        if l[0] == 'aelem':
            return simp(l[1] + l[2] * elem_bytes(l[3]))
        if l[0] == 'struct':
            return l[2] if len(l) > 2 else Ptr(l[1])
        if l[0] == 'gstruct':
            return ('gstruct', l[1])
        if l[0] == 'glob':
            return self.lib.global_addr(self, st, l)
        if l[0] == 'str':
            return Str(l[1])
        if l[0] == 'mpf' and l[2] in ('_mp_num', '_mp_den'):
            p = l[1]
            return Ptr(p.obj, p.off, p.null, 'num' if l[2] == '_mp_num' else 'den')
        if l[0] == 'fld':
            return Ptr(self.field_cell(st, l[1], l[2]))
        if l[0] == 'ufld':
            raise Unsupported('address of union member')
        raise Unsupported('address of ' + l[0])

    def field_cell(self, st, oid, fld):
        raise Unsupported('address of field ' + fld)

    def ev_ImplicitCastExpr(self, e, st):
        ck = e['castKind']
        sub = e['inner'][0]
        ct = self.tu.ctype(e['type'])
        if ck == 'LValueToRValue':
            out = []
            for s, l in self.lv(sub, st):
                if s.dead:
                    continue
                v = self.load(s, l, ct)
                out.append((s, v))
            return out
        if ck == 'ArrayToPointerDecay':
            out = []
            for s, l in self.lv(sub, st):
                out.append((s, self.addr_of(s, l)))
            return out
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(sub, st)
        if ck == 'NullToPointer':
            return [(st, NULL)]
        if ck in ('NoOp', 'ToVoid'):
            if ck == 'ToVoid':
                return self.ev(sub, st)
            return self.ev(sub, st)
        out = []
        for s, v in self.ev(sub, st):
            out.append((s, self.cast(s, v, ck, ct, sub)))
        return out

    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def cast(self, st, v, ck, ct, sub):
        if ck == 'IntegralCast':
            v = to_int(v)
            if not z3.is_expr(v):
                return v
            return self.wrap(st, v, ct)
        if ck == 'IntegralToBoolean' or ck == 'PointerToBoolean' or ck == 'FloatingToBoolean':
            return to_bool(v)
        if ck == 'BitCast':
            if isinstance(v, Ptr) and ct.k == 'ptr':
                if ct.to.k not in ('void',):
                    self.typed(st, v, ct.to)
                    if v.obj is not None and st.heap[v.obj].kind == 'mp' and ct.to.k == 'mp' and \
                            st.heap[v.obj].elem.name != ct.to.name and v.sub == '':
                        raise Unsupported('mp pointer cast')
            return v
        if ck == 'NullToPointer':
            return NULL
        if ck == 'IntegralToFloating':
            return self.i2d(st, to_int(v))
        if ck == 'FloatingToIntegral':
            return self.d2i(st, v, ct)
        if ck in ('FloatingCast',):
            return v
        if ck == 'PointerToIntegral':
            r = fresh('p2i')
            st.assume(self.inrange(r, ct))
            return r
        raise Unsupported('cast ' + ck)

    def i2d(self, st, v):
        return I2D(v)

    def d2i(self, st, v, ct):
        self.assumptions.add('double-to-integer conversion in %s (line %s) assumed in range' % (self.fname, self.line))
        r = D2I(v)
        st.assume(self.inrange(r, ct))
        return r

    def ev_UnaryOperator(self, e, st):
        op = e['opcode']
        sub = e['inner'][0]
        if op == '&':
            return [(s, self.addr_of(s, l)) for s, l in self.lv(sub, st) if not s.dead]
        if op == '*':
            ct = self.tu.ctype(e['type'])
            if ct.k == 'func':
                return self.ev(sub, st)
            return [(s, self.load(s, l, ct)) for s, l in self.lv(e, st)]
        if op in ('++', '--'):
            out = []
            ct = self.tu.ctype(e['type'])
            for s, l in self.lv(sub, st):
                v = self.load(s, l, ct)
                if s.dead:
                    continue
                if isinstance(v, Ptr):
                    nv = Ptr(v.obj, simp(v.off + (1 if op == '++' else -1)), v.null, v.sub)
                else:
                    nv = self.arith(s, '+' if op == '++' else '-', v, IV(1) if ct.k == 'int' else I2D(IV(1)), ct)
                self.store(s, l, nv, ct)
                out.append((s, v if e.get('isPostfix') else nv))
            return out
        out = []
        ct = self.tu.ctype(e['type'])
        for s, v in self.ev(sub, st):
            if op == '!':
                out.append((s, Not(to_bool(v))))
            elif op == '-':
                v = to_int(v)
                if ct.k == 'f64':
                    out.append((s, self.fneg(v)))
                else:
                    out.append((s, self.arith(s, '-', IV(0), v, ct)))
            elif op == '+':
                out.append((s, v))
            elif op == '~':
                out.append((s, simp(-to_int(v) - 1) if ct.signed else self.wrap(s, -to_int(v) - 1, ct)))
            elif op == '__extension__':
                out.append((s, v))
            else:
                raise Unsupported('unary ' + op)
        return out

    def fneg(self, v):
        return ffun('neg', 1)(v)

    def pure(self, e):
        k = e.get('kind')
        if k == 'CallExpr':
            f = self.callee_name(e)
            return f in self.lib.pure_calls or f in ('ceil', 'floor', 'log2', 'sqrt', 'fabs') and all(self.pure(x) for x in e['inner'][1:])
        if k == 'CompoundAssignOperator':
            return False
        if k == 'BinaryOperator' and e['opcode'] in ('=', ','):
            return False
        if k == 'UnaryOperator' and e['opcode'] in ('++', '--'):
            return False
        if k == 'StmtExpr':
            return False
        if k == 'ConditionalOperator' and self.tu.ctype(e['type']).k == 'ptr':
            return False
        return all(self.pure(c) for c in e.get('inner', []))

    def guarded(self, e, st, g):
        """evaluate pure e in st under extra guard g; returns value; obligations carry g"""
        s = st.copy()
        s.assume(g)
        r = self.ev(e, s)
        if len(r) != 1:
            if not r:
                return None
            raise Unsupported('guarded expression forks')
        s2, v = r[0]
        # import facts learned, guarded
        base = len(st.pc) + (0 if is_true(g) else len(g.children()) if z3.is_and(g) else 1)
        for h in s2.pc[base:]:
            st.assume(Implies(g, h))
        # typed blocks
        for oid, o in s2.heap.items():
            if oid not in st.heap:
                st.heap[oid] = o
            elif st.heap[oid] is not o and st.heap[oid].kind == 'raw':
                st.heap[oid] = o
        for gk, gv in s2.globals.items():
            st.globals.setdefault(gk, gv)
        return v

    def ev_BinaryOperator(self, e, st):
        op = e['opcode']
        a, b = e['inner']
        if op == '=':
            out = []
            ct = self.tu.ctype(e['type'])
            for s1, v in self.ev(b, st):
                for s2, l in self.lv(a, s1):
                    if s2.dead:
                        continue
                    if ct.k == 'ptr':
                        if isinstance(v, Ptr):
                            self.typed(s2, v, ct.to)
                    elif ct.k == 'int':
                        if ct.name == 'bool':
                            v = to_bool(v)
                        else:
                            v = to_int(v)
                    elif ct.k == 'struct':
                        raise Unsupported('struct assignment')
                    self.store(s2, l, v, ct)
                    if not s2.dead:
                        out.append((s2, v))
            return out
        if op == ',':
            out = []
            for s1, _ in self.ev(a, st):
                out += self.ev(b, s1)
            return out
        if op in ('&&', '||'):
            out = []
            for s1, v in self.ev(a, st):
                c = to_bool(v)
                if op == '&&' and is_false(simp(c)):
                    out.append((s1, FALSE))
                    continue
                if op == '||' and is_true(simp(c)):
                    out.append((s1, TRUE))
                    continue
                g = c if op == '&&' else Not(c)
                if self.pure(b):
                    if not self.dry and self.qprove(s1, Not(g)):
                        out.append((s1, FALSE if op == '&&' else TRUE))
                        continue
                    try:
                        w = self.guarded(b, s1, g)
                    except Unsupported:
                        w = Opaque('x')
                    if w is not None and not isinstance(w, Opaque):
                        w = to_bool(w)
                        out.append((s1, simp(And(c, w) if op == '&&' else Or(c, w))))
                        continue
                    if w is None:
                        # RHS cannot complete under g
                        s1.assume(Not(g))
                        out.append((s1, FALSE if op == '&&' else TRUE))
                        continue
                s2 = s1.copy()
                s2.assume(g)
                if self.feasible(s2):
                    for s3, w in self.ev(b, s2):
                        out.append((s3, to_bool(w)))
                s1.assume(Not(g))
                if self.feasible(s1):
                    out.append((s1, FALSE if op == '&&' else TRUE))
            return out
        out = []
        ct = self.tu.ctype(e['type'])
        for s1, x in self.ev(a, st):
            for s2, y in self.ev(b, s1):
                if op in ('<', '>', '<=', '>=', '==', '!='):
                    out.append((s2, self.compare(s2, op, x, y)))
                elif isinstance(x, Ptr) or isinstance(y, Ptr):
                    out.append((s2, self.ptrarith(s2, op, x, y)))
                else:
                    if ct.k == 'f64':
                        out.append((s2, self.farith(s2, op, x, y)))
                    else:
                        out.append((s2, self.arith(s2, op, x, y, ct)))
        return out

    def ptrarith(self, st, op, x, y):
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if op == '-' and x.obj == y.obj:
                return simp(x.off - y.off)
            raise Unsupported('pointer difference')
        if not isinstance(x, Ptr):
            x, y = y, x
        y = to_int(y)
        return Ptr(x.obj, simp(x.off + y if op == '+' else x.off - y), x.null, x.sub)

    def ev_CompoundAssignOperator(self, e, st):
        op = e['opcode'][:-1]
        a, b = e['inner']
        ct = self.tu.ctype(e['type'])
        cct = self.tu.ctype(e['computeResultType']) if 'computeResultType' in e else ct
        out = []
        for s1, y in self.ev(b, st):
            for s2, l in self.lv(a, s1):
                x = self.load(s2, l, ct)
                if s2.dead:
                    continue
                if isinstance(x, Ptr):
                    v = self.ptrarith(s2, op, x, y)
                elif cct.k == 'f64':
                    if ct.k == 'int':
                        x = self.i2d(s2, to_int(x))
                    v = self.farith(s2, op, x, y)
                    if ct.k == 'int':
                        v = self.d2i(s2, v, ct)
                else:
                    v = self.arith(s2, op, x, y, cct)
                    if ct != cct:
                        v = self.wrap(s2, v, ct)
                self.store(s2, l, v, ct)
                if not s2.dead:
                    out.append((s2, v))
        return out

    def ev_ConditionalOperator(self, e, st):
        c, a, b = e['inner']
        out = []
        for s1, v in self.ev(c, st):
            cb = simp(to_bool(v))
            if is_true(cb):
                out += self.ev(a, s1)
                continue
            if is_false(cb):
                out += self.ev(b, s1)
                continue
            ct = self.tu.ctype(e['type'])
            if self.pure(a) and self.pure(b) and ct.k in ('int', 'f64'):
                if not self.dry and self.qprove(s1, cb):
                    out += self.ev(a, s1)
                    continue
                if not self.dry and self.qprove(s1, Not(cb)):
                    out += self.ev(b, s1)
                    continue
                x = self.guarded(a, s1, cb)
                y = self.guarded(b, s1, Not(cb))
                if x is None:
                    out.append((s1.assume(Not(cb)), y))
                    continue
                if y is None:
                    out.append((s1.assume(cb), x))
                    continue
                x, y = to_int(x), to_int(y)
                out.append((s1, If(cb, x, y)))
                continue
            s2 = s1.copy()
            s2.assume(cb)
            s1.assume(Not(cb))
            if self.feasible(s2):
                out += self.ev(a, s2)
            if self.feasible(s1):
                out += self.ev(b, s1)
        return out

    def ev_ArraySubscriptExpr(self, e, st):
        ct = self.tu.ctype(e['type'])
        return [(s, self.load(s, l, ct)) for s, l in self.lv(e, st)]

    def ev_MemberExpr(self, e, st):
        return [(s, self.addr_of(s, l)) for s, l in self.lv(e, st)]

    def ev_UnaryExprOrTypeTraitExpr(self, e, st):
        if e.get('name') != 'sizeof':
            raise Unsupported(str(e.get('name')))
        t = e.get('argType') or e['inner'][0]['type']
        return [(st, IV(self.sizeof(self.tu.ctype(t))))]

    # ------------------------------------------------------------------ calls
    def callee_name(self, e):
        f = e['inner'][0]
        while f['kind'] in ('ImplicitCastExpr', 'ParenExpr') or (f['kind'] == 'UnaryOperator' and f['opcode'] == '*'):
            f = f['inner'][0]
        if f['kind'] == 'DeclRefExpr' and f['referencedDecl']['kind'] == 'FunctionDecl':
            return f['referencedDecl']['name']
        return None

    def ev_CallExpr(self, e, st):
        name = self.callee_name(e)
        args = e['inner'][1:]
        ln = self.line
        if name is None:
            outs = [(st, None)]
            res = []
            for s, fv in self.ev(e['inner'][0], st):
                for s2, vals in self.evargs(args, s):
                    self.line = ln
                    res += self.lib.indirect_call(self, s2, fv, vals, e)
            return res
        res = []
        for s, vals in self.evargs(args, st, name):
            self.line = ln
            self.called.add(name)
            res += self.call(name, vals, s, e)
        return res

    def evargs(self, args, st, name=None):
        outs = [(st, [])]
        for a in args:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(a, s):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def call(self, name, vals, st, e):
        if self.call_hook is not None:
            r = self.call_hook(self, name, vals, st)
            if r is not None:
                return r
        h = self.lib.handler(self, name)
        if h is not None:
            return [(s, v) for s, v in h(self, st, vals, e) if not s.dead]
        r = self.find_body(name)
        if r is None:
            raise Unsupported('call to %s: no contract, no body' % name)
        tu0, cp0 = self.tu, self.callpath
        self.tu = r[1]
        self.callpath = cp0 + (e['id'],)
        try:
            return self.inline(name, r[0], vals, st)
        finally:
            self.tu, self.callpath = tu0, cp0

    def inline(self, name, fn, vals, st):
        if self.inline_depth > 8:
            raise Unsupported('recursion in ' + name)
        self.inlined.add(name)
        self.inline_depth += 1
        st.frames.append({})
        params = [c for c in fn.get('inner', []) if c['kind'] == 'ParmVarDecl']
        body = [c for c in fn['inner'] if c['kind'] == 'CompoundStmt'][0]
        if '_at' not in fn:
            fn['_at'] = addr_taken(body)
            annotate_lines(fn)
        st.frames[-1]['_at'] = fn['_at']
        for p, v in zip(params, vals):
            ct = self.tu.ctype(p['type'])
            self.declare(st, p, ct, v)
        out = []
        for sig, s, v in self.block(body, st):
            if sig == Sig.RET or sig == Sig.NEXT:
                self.scope_exit(s, s.frames[-1])
                s.frames.pop()
                out.append((s, v if v is not None else Opaque('void')))
            else:
                raise Unsupported('signal ' + sig)
        self.inline_depth -= 1
        return out

    # ------------------------------------------------------------------ statements
    def declare(self, st, d, ct, v):
        fr = st.frames[-1]
        at = fr.get('_at', ())
        if ct.k == 'mp':
            if isinstance(v, Ptr):
                fr[d['id']] = v
                return
            oid = self.new_mp(st, ct, IV(1), d['name'], 2)
            fr[d['id']] = LocalObj(oid)
        elif ct.k == 'arr':
            o = Obj('arr', elem=ct.to, size=IV(ct.n), cls='local', name=d['name'])
            if ct.to.k in ('int', 'f64'):
                o.comp['val'] = fresh(d['name'], arrsort(elem_sort(ct.to)))
            else:
                raise Unsupported('local array of ' + repr(ct.to))
            fr[d['id']] = LocalObj(st.new(o, d['name']))
        elif ct.k == 'struct':
            o = Obj('struct', rec=ct.name, cls='local', name=d['name'])
            if ct.name in ('va_list', 'jmp_buf'):
                fr[d['id']] = Opaque(ct.name)
                return
            oid = st.new(o, d['name'])
            for f, t in self.tu.fields(ct.name):
                if t.k == 'mp':
                    sub = self.new_mp(st, t, IV(1), oid + '.' + f, 2)
                    o.fields[f] = Ptr(sub)
                else:
                    o.fields[f] = UNDEF
            fr[d['id']] = LocalObj(oid)
        elif d['id'] in at:
            if ct.k == 'ptr':
                o = Obj('cell', elem=ct, size=IV(1), cls='local', name=d['name'])
                o.fields['*'] = UNDEF if v is None else v
            else:
                o = Obj('arr', elem=ct, size=IV(1), cls='local', name=d['name'])
                if v is None:
                    o.comp['val'] = fresh(d['name'], arrsort(elem_sort(ct)))
                    o.fields['undef'] = True
                else:
                    o.comp['val'] = z3.K(I, to_int(v))
            fr[d['id']] = LocalObj(st.new(o, d['name']))
        else:
            if v is None:
                v = UNDEF
            elif ct.k == 'int':
                if ct.name == 'bool':
                    v = to_bool(v)
                else:
                    v = to_int(v)
            fr[d['id']] = v
        fr.setdefault('_names', {})
        nm = dict(fr['_names'])
        nm[d['name']] = d['id']
        fr['_names'] = nm
        ty = dict(fr.get('_types', {}))
        ty[d['id']] = ct
        fr['_types'] = ty

    def scope_exit(self, st, frame):
        """locals die: allocated GMP numbers in them would leak"""
        for k, v in frame.items():
            if isinstance(v, LocalObj):
                o = st.heap.get(v.oid)
                if o is None:
                    continue
                if o.kind == 'mp' and o.cls == 'local':
                    for c in ('st', 'sd'):
                        if c in o.comp:
                            self.oblige(st, simp(z3.Select(o.comp[c], IV(0)) != 1), 'leak',
                                        'local number %s released before return' % o.name)
                o = st.wobj(v.oid)
                o.alive = FALSE

    def block(self, n, st):
        outs = [(Sig.NEXT, st, None)]
        for c in n.get('inner', []):
            nxt = []
            for sig, s, v in outs:
                if sig != Sig.NEXT:
                    nxt.append((sig, s, v))
                    continue
                nxt += self.stmt(c, s)
            outs = nxt
            if len(outs) > MAXPATHS:
                raise Unsupported('too many paths')
        return outs

    def stmt(self, n, st):
        k = n['kind']
        ln = n.get('_line')
        if ln:
            self.line = ln
        if k == 'CompoundStmt':
            return self.block(n, st)
        if k == 'NullStmt':
            return [(Sig.NEXT, st, None)]
        m = getattr(self, 'st_' + k, None)
        if m:
            return [r for r in m(n, st) if not r[1].dead]
        # expression statement
        return [(Sig.NEXT, s, None) for s, v in self.ev(n, st) if not s.dead]

    def st_DeclStmt(self, n, st):
        outs = [st]
        for d in n['inner']:
            if d['kind'] != 'VarDecl':
                continue
            ct = self.tu.ctype(d['type'])
            nxt = []
            for s in outs:
                if d.get('init') and d.get('inner'):
                    if ct.k in ('arr', 'struct'):
                        raise Unsupported('aggregate initialiser')
                    for s2, v in self.ev(d['inner'][0], s):
                        if ct.k == 'ptr' and isinstance(v, Ptr):
                            self.typed(s2, v, ct.to)
                        self.declare(s2, d, ct, v)
                        nxt.append(s2)
                else:
                    self.declare(s, d, ct, None)
                    nxt.append(s)
            outs = nxt
        return [(Sig.NEXT, s, None) for s in outs if not s.dead]

    def st_ReturnStmt(self, n, st):
        if not n.get('inner'):
            return [(Sig.RET, st, None)]
        return [(Sig.RET, s, v) for s, v in self.ev(n['inner'][0], st)]

    def st_BreakStmt(self, n, st):
        return [(Sig.BREAK, st, None)]

    def st_ContinueStmt(self, n, st):
        return [(Sig.CONT, st, None)]

    def st_IfStmt(self, n, st):
        inner = n['inner']
        c, a = inner[0], inner[1]
        b = inner[2] if len(inner) > 2 else None
        outs = []
        for s, v in self.ev(c, st):
            cb = simp(to_bool(v))
            if is_true(cb):
                outs += self.stmt(a, s)
                continue
            if is_false(cb):
                outs += self.stmt(b, s) if b else [(Sig.NEXT, s, None)]
                continue
            s2 = s.copy()
            base = s.pc
            baseheap = s.heap
            s.assume(cb)
            s2.assume(Not(cb))
            f1, f2 = self.feasible(s), self.feasible(s2)
            r1 = self.stmt(a, s) if f1 else []
            r2 = (self.stmt(b, s2) if b else [(Sig.NEXT, s2, None)]) if f2 else []
            mg = self.try_merge(base, cb, r1, r2)
            outs += mg if mg is not None else r1 + r2
        return outs

    def try_merge(self, base, cb, r1, r2):
        n1 = [r for r in r1 if r[0] == Sig.NEXT]
        n2 = [r for r in r2 if r[0] == Sig.NEXT]
        if len(n1) != 1 or len(n2) != 1:
            return None
        a, b = n1[0][1], n2[0][1]
        m = merge_states(base, cb, a, b)
        if m is None:
            return None
        rest = [r for r in r1 + r2 if r[0] != Sig.NEXT]
        return rest + [(Sig.NEXT, m, None)]

    def st_SwitchStmt(self, n, st):
        cond, body = n['inner'][0], n['inner'][-1]
        outs = []
        for s, v in self.ev(cond, st):
            v = to_int(v)
            # flatten: list of (labels|None, stmt)
            seq = []

            def flat(x):
                if x['kind'] == 'CaseStmt':
                    seq.append(('case', _cv(self, x['inner'][0])))
                    flat(x['inner'][-1])
                elif x['kind'] == 'DefaultStmt':
                    seq.append(('default', None))
                    flat(x['inner'][-1])
                else:
                    seq.append(('stmt', x))
            for x in body.get('inner', []):
                flat(x)
            vals = [c for t, c in seq if t == 'case']
            hasdef = any(t == 'default' for t, c in seq)
            entries = []
            for i, (t, c) in enumerate(seq):
                if t == 'case':
                    entries.append((i, v == c))
                elif t == 'default':
                    entries.append((i, And(*[v != c for c in vals])))
            if not hasdef:
                entries.append((len(seq), And(*[v != c for c in vals])))
            for i, g in entries:
                g = simp(g)
                if is_false(g):
                    continue
                s2 = s.copy()
                s2.assume(g)
                if not self.feasible(s2):
                    continue
                cur = [(Sig.NEXT, s2, None)]
                for t, c in seq[i:]:
                    if t != 'stmt':
                        continue
                    nxt = []
                    for sig, x, y in cur:
                        if sig != Sig.NEXT:
                            nxt.append((sig, x, y))
                        else:
                            nxt += self.stmt(c, x)
                    cur = nxt
                for sig, x, y in cur:
                    outs.append((Sig.NEXT if sig == Sig.BREAK else sig, x, y))
        return outs

    # ------------------------------------------------------------------ loops
    def st_ForStmt(self, n, st):
        init, _, cond, inc, body = n['inner']
        outs = []
        starts = [(Sig.NEXT, st, None)]
        if init and init.get('kind'):
            starts = self.stmt(init, st)
        for sig, s, v in starts:
            outs += self.loop(n, s, cond if cond and cond.get('kind') else None,
                              inc if inc and inc.get('kind') else None, body)
        return outs

    def st_WhileStmt(self, n, st):
        return self.loop(n, st, n['inner'][0], None, n['inner'][-1])

    def st_DoStmt(self, n, st):
        body, cond = n['inner'][0], n['inner'][1]
        cv = cond
        while cv['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            cv = cv['inner'][0]
        if cv['kind'] == 'IntegerLiteral' and int(cv['value']) == 0:
            outs = []
            for sig, s, v in self.stmt(body, st):
                outs.append((Sig.NEXT if sig in (Sig.BREAK, Sig.CONT) else sig, s, v))
            return outs
        # do B while(c)  ==  B; while(c) B   (with break/continue)
        return self.loop(n, st, cond, None, body, dowhile=True)

    def loop_index(self, n):
        key = (self.callpath, n['id'])
        if key not in self.loop_ids:
            # loops that the static numbering did not reach (called through a pointer, ...)
            self.loop_ids[key] = 1000 + len(self.loop_ids)
        return self.loop_ids[key]

    def number_loops(self, fn):
        """loops numbered in program order, functions without a contract expanded in place"""
        def walk(x, path, depth):
            k = x.get('kind')
            lit = None
            if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
                if k == 'DoStmt':
                    c = x['inner'][1]
                    while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                        c = c['inner'][0]
                    lit = c['kind'] == 'IntegerLiteral' and int(c['value']) == 0
                if not lit:
                    self.loop_ids[(path, x['id'])] = self.loop_count
                    self.loop_count += 1
                    self.loop_shape += self.loop_head(x, depth) + '('
            for c in x.get('inner', []):
                walk(c, path, depth)
            if k in ('ForStmt', 'WhileStmt', 'DoStmt') and not lit:
                self.loop_shape += ')'
            if k == 'CallExpr' and depth < 6:
                name = self.callee_name(x)
                if name and name != self.fname and self.lib.handler(self, name) is None:
                    body = self.find_body(name)
                    if body is not None:
                        walk(body[0], path + (x['id'],), depth + 1)
        walk(fn, (), 0)

    @staticmethod
    def loop_head(x, depth):
        """kind of loop and the variable it steps, for telling a rewritten loop nest from the recorded one"""
        at = '@' if depth else ''
        if x['kind'] != 'ForStmt':
            return at + x['kind'][0]
        inc = x['inner'][3]
        if inc.get('kind') in ('UnaryOperator', 'CompoundAssignOperator'):
            v = inc['inner'][0]
            if v.get('kind') == 'DeclRefExpr':
                return '%sF%s<%s>' % (at, (inc.get('opcode') or '?')[0], v['referencedDecl']['name'])
        return at + 'F'

    def find_body(self, name):
        if name in self.inline_from:
            tu = get_tu(self.inline_from[name])
            return (tu.funcs[name], tu) if name in tu.funcs else None
        fn = self.tu.funcs.get(name)
        if fn is not None:
            return fn, self.tu
        r = self.lib.body_of(name)
        if r is None or r[0] is None:
            return None
        return r

    def run_body(self, n, s, cond, inc, body, first_do=False):
        """one iteration from loop-head state s.
        returns (ends, exits): ends = states at the back edge, exits = (sig, state, val)"""
        ends, exits = [], []
        conds = []
        if cond is None or first_do:
            conds = [(s, TRUE)]
        else:
            conds = [(x, simp(to_bool(v))) for x, v in self.ev(cond, s)]
        for x, cb in conds:
            if not is_true(cb):
                y = x.copy()
                y.assume(Not(cb))
                if self.feasible(y):
                    exits.append((Sig.NEXT, y, None))
            if is_false(cb):
                continue
            x.assume(cb)
            if not self.feasible(x):
                continue
            for sig, y, v in self.stmt(body, x):
                if sig in (Sig.NEXT, Sig.CONT):
                    if inc is not None:
                        for z, _ in self.ev(inc, y):
                            ends.append(z)
                    else:
                        ends.append(y)
                elif sig == Sig.BREAK:
                    exits.append((Sig.NEXT, y, None))
                else:
                    exits.append((sig, y, v))
        ends = [x for x in ends if not x.dead]
        return ends, [x for x in exits if not x[1].dead]

    def havoc(self, st, mods, locs, idx):
        """fresh values for everything the loop may change"""
        for fi, did, nm in locs:
            fr = st.frames[fi]
            if did not in fr:
                continue
            v = fr[did]
            if isinstance(v, (LocalObj,)):
                continue
            ct = fr.get('_types', {}).get(did)
            if isinstance(v, Ptr) or (ct is not None and ct.k == 'ptr'):
                if z3.is_expr(v):
                    fr[did] = fresh(nm + '@%d' % idx)
                elif ('ptrloc', fi, did) in mods:
                    fr[did] = self.havoc_ptr(st, v, nm)
                continue
            if ct is None:
                continue
            if ct.k == 'int':
                if ct.name == 'bool':
                    fr[did] = fresh(nm + '@%d' % idx, B)
                else:
                    x = fresh(nm + '@%d' % idx)
                    st.assume(self.inrange(x, ct))
                    fr[did] = x
            elif ct.k == 'f64':
                fr[did] = fresh(nm + '@%d' % idx, F)
            else:
                fr[did] = UNDEF
        for m in sorted(mods, key=str):
            if m[0] == 'comp':
                _, oid, c = m
                if oid not in st.heap:
                    continue
                o = st.wobj(oid)
                o.comp[c] = fresh('%s.%s@%d' % (o.name, c, idx), o.comp[c].sort())
                o.fields.pop('undef', None)
            elif m[0] == 'field':
                _, oid, f = m
                if oid not in st.heap:
                    continue
                o = st.wobj(oid)
                v = o.fields[f]
                if isinstance(v, Ptr):
                    o.fields[f] = self.havoc_ptr(st, v, f)
                elif isinstance(v, Undef):
                    o.fields[f] = UNDEF
                elif z3.is_expr(v):
                    nv = fresh('%s.%s@%d' % (o.name, f, idx), v.sort())
                    if v.sort() == I and o.rec:
                        t = dict(self.tu.fields(o.rec)).get(f)
                        if t is not None and t.k == 'int':
                            st.assume(self.inrange(nv, t))
                    o.fields[f] = nv
            elif m[0] == 'glob':
                v = st.globals.get(m[1])
                if z3.is_expr(v):
                    nv = fresh('%s@%d' % (m[1], idx), v.sort())
                    if v.sort() == I:
                        st.assume(self.inrange(nv, I64))
                    st.globals[m[1]] = nv
            elif m[0] == 'ghost':
                v = st.ghost.get(m[1])
                if z3.is_expr(v):
                    st.ghost[m[1]] = fresh('%s@%d' % (m[1], idx), v.sort())
            elif m[0] == 'dead':
                pass

    def havoc_ptr(self, st, v, nm):
        """pointer rebound in a loop body"""
        if not isinstance(v, Ptr) or v.obj is None:
            return UNDEF
        o = st.heap[v.obj]
        if o.kind in ('struct', 'cell'):
            raise Unsupported('pointer %s to a structure is rebound in a loop' % nm)
        # stays in the same object: arbitrary offset; the object may have been replaced
        n = o.copy()
        for c in n.comp:
            n.comp[c] = fresh('%s.%s' % (o.name, c), n.comp[c].sort())
        if n.size is not None:
            n.size = fresh('%s.size' % o.name)
            st.assume(n.size >= 0)
            if n.elem is not None:
                st.assume(n.size <= (2 ** 63 - 1) // elem_bytes(n.elem))
        del_alive = st.wobj(v.obj)
        del_alive.alive = FALSE
        del_alive.exist = FALSE
        oid = st.new(n, o.name)
        return Ptr(oid, IV(0), v.null, v.sub)

    def discover(self, n, st, cond, inc, body, locs, dowhile, idx):
        key = (n['id'], self.callpath, self.fname)
        mods = set(self.modcache.get(key, ()))
        self.dry += 1
        try:
            for rnd in range(6):
                s = st.copy()
                self.havoc(s, mods, locs, idx)
                pre = s.copy()
                save = s.copy()
                ends, _ = self.run_body(n, s, cond, inc, body)
                if dowhile:
                    e2, _ = self.run_body(n, save, cond, inc, body, first_do=True)
                    ends = ends + e2
                new = set(mods)
                for e in ends:
                    new |= {m for m in diff_states(pre, e) if m[0] not in ('comp', 'field') or m[1] in st.heap}
                if new == mods:
                    # locals assigned only on the way out of the loop keep their value at the loop head
                    changed = set()
                    for fi, did, nm in locs:
                        v0 = pre.frames[fi].get(did)
                        if any(not same(v0, e.frames[fi].get(did)) for e in ends):
                            changed.add((fi, did))
                    self.loop_changed = changed
                    break
                mods = new
            else:
                raise Unsupported('modified set does not stabilise')
        finally:
            self.dry -= 1
        self.modcache[key] = frozenset(mods)
        return mods

    def loop(self, n, st, cond, inc, body, dowhile=False):
        idx = self.loop_index(n)
        self.cov_loops.add(idx)
        if not self.dry or n['id'] not in getattr(self, '_locs', {}):
            if not hasattr(self, '_locs'):
                self._locs = {}
        ids = self._locs.get(n['id'])
        if ids is None:
            ids = assigned_vars(n)
            self._locs[n['id']] = ids
        fi = len(st.frames) - 1
        locs = [(fi, d, nm) for d, nm in ids if d in st.frames[fi]]
        ln = self.line
        mods = self.discover(n, st, cond, inc, body, locs, dowhile, idx)
        locs = [l for l in locs if (l[0], l[1]) in self.loop_changed]
        if self.dry:
            s = st.copy()
            self.havoc(s, mods, locs, idx)
            _, exits = self.run_body(n, s, cond, inc, body)
            return exits
        spec = self.contract.loops.get(idx, self.contract.loops.get('*')) if self.contract else None
        entry = st.copy()
        soft = self.soft_invs(n, st, cond, inc, body, locs, mods)
        while True:
            mark = len(self.obls)
            r = self.loop_once(n, st.copy(), entry, cond, inc, body, dowhile, idx, mods, locs, spec, soft, ln)
            if isinstance(r, list):
                return r
            soft = r[1]
            del self.obls[mark:]

    def soft_invs(self, n, st, cond, inc, body, locs, mods):
        """automatic candidate invariants (each is still checked): monotone counters"""
        out = []
        txt = {}
        collect_updates(n, txt)
        for fi, did, nm in locs:
            v0 = st.frames[fi].get(did)
            if not (z3.is_expr(v0) and v0.sort() == I):
                continue
            ups = txt.get(did, [])
            if ups and all(u == '+' for u in ups):
                out.append(('%s>=entry' % nm, fi, did, lambda x, v0=v0: x >= v0))
                b = self.cond_bound(cond, did, ('<', '<='), st, locs, mods)
                if b is not None:
                    op, bv = b
                    lim = bv if op == '<' else bv + 1
                    out.append(('%s<=bound' % nm, fi, did, lambda x, v0=v0, lim=lim: Or(x <= lim, x == v0)))
            if ups and all(u == '-' for u in ups):
                out.append(('%s<=entry' % nm, fi, did, lambda x, v0=v0: x <= v0))
                b = self.cond_bound(cond, did, ('>', '>='), st, locs, mods)
                if b is not None:
                    op, bv = b
                    lim = bv if op == '>' else bv - 1
                    out.append(('%s>=bound' % nm, fi, did, lambda x, v0=v0, lim=lim: Or(x >= lim, x == v0)))
        return out

    def cond_bound(self, cond, did, ops, st, locs, mods):
        c = cond
        if c is None:
            return None
        while c['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            c = c['inner'][0]
        if c['kind'] != 'BinaryOperator':
            return None
        if c['opcode'] == '&&':
            for x in c['inner']:
                r = self.cond_bound(x, did, ops, st, locs, mods)
                if r is not None:
                    return r
            return None
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
        a, b = c['inner']
        op = c['opcode']
        for x, y, o in ((a, b, op), (b, a, flip.get(op))):
            xx = x
            while xx['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                xx = xx['inner'][0]
            if xx['kind'] == 'DeclRefExpr' and xx['referencedDecl']['id'] == did and o in ops:
                # y must be unmodified
                used = set()
                refs(y, used)
                if any(d in used for _, d, _ in locs) or not self.pure(y):
                    return None
                self.dry += 1
                try:
                    r = self.ev(y, st.copy())
                except Unsupported:
                    return None
                finally:
                    self.dry -= 1
                if len(r) == 1 and z3.is_expr(r[0][1]) and r[0][1].sort() == I:
                    s2 = st.copy()
                    self.dry += 1
                    try:
                        self.havoc(s2, mods, locs, 999)
                        r2 = self.ev(y, s2)
                    except Unsupported:
                        return None
                    finally:
                        self.dry -= 1
                    if len(r2) == 1 and z3.is_expr(r2[0][1]) and r2[0][1].eq(r[0][1]):
                        return o, r[0][1]
        return None

    def loop_once(self, n, st, entry, cond, inc, body, dowhile, idx, mods, locs, spec, soft, ln):
        tag = 'loop%d' % idx

        def invs(s):
            if spec is None or spec.inv is None:
                return []
            L = LoopCtx(self, s, entry, idx)
            return [(a, b) for a, b in spec.inv(L) if b is not None]

        if spec is not None and spec.ghost_init:
            spec.ghost_init(LoopCtx(self, st, entry, idx))
        exits0 = []
        starts = [st]
        if dowhile:
            starts, exits0 = self.run_body(n, st, cond, inc, body, first_do=True)
            if not starts:
                return exits0
            # merge of several entry states: treat each separately
        outs = list(exits0)
        for st in starts:
            self.line = ln
            for nm, f in invs(st):
                self.oblige(st, f, tag + '-init', nm)
            h = st.copy()
            self.havoc(h, mods, locs, idx)
            dyn = set()
            if spec is not None and spec.ghost_step:
                # ghost variables ('$name') the loop may change
                for g, v in st.ghost.items():
                    if isinstance(g, str) and g.startswith('$') and z3.is_expr(v) and (spec.ghosts is None or g in spec.ghosts):
                        dyn.add(g)
                        h.ghost[g] = fresh('%s@%d' % (g[1:], idx), v.sort())
            for nm, fi, did, f in soft:
                x = h.frames[fi][did]
                h.assume(f(x))
            for nm, f in invs(h):
                h.assume(f)
            if spec is not None and spec.head:
                spec.head(LoopCtx(self, h, entry, idx))
            self.lib.auto_facts(self, h)
            if not self.dry:
                self.reach_probes.append((tag, h.pc))
            head = h.copy()
            v0 = None
            if spec is not None and spec.dec:
                v0 = spec.dec(LoopCtx(self, head, entry, idx))
            ends, exits = self.run_body(n, h, cond, inc, body)
            bad = []
            for e in ends:
                self.line = ln
                for sv in soft:
                    nm, fi, did, f = sv
                    if not self.qprove(e, f(e.frames[fi][did])):
                        bad.append(sv)
            if bad:
                return ('redo', [s for s in soft if s not in bad])
            for e in ends:
                if spec is not None and spec.ghost_step:
                    spec.ghost_step(LoopCtx(self, e, entry, idx, head))
                for g, v in e.ghost.items():
                    if isinstance(g, str) and g.startswith('$') and g not in dyn and g in head.ghost and not same(v, head.ghost[g]):
                        raise Unsupported('ghost variable %s changes in a loop that does not declare it' % g)
                for nm, f in invs_with_head(self, spec, e, entry, idx, head):
                    self.oblige(e, f, tag + '-keep', nm)
                if v0 is not None:
                    v1 = spec.dec(LoopCtx(self, e, entry, idx))
                    self.oblige(e, And(v0 >= 0, v1 < v0), tag + '-term', 'variant decreases')
                new = [oid for oid in e.heap if oid not in head.heap]
                for oid in new:
                    o = e.heap[oid]
                    if o.cls == 'heap' and not is_false(o.alive) and o.parent is None:
                        if not self.reachable(e, oid):
                            self.oblige(e, Not(o.alive), 'leak', 'block %s allocated in a loop iteration is released' % o.name)
                self.rebound(head, e, mods, tag)
            if spec is not None and spec.exit:
                for sig, y, v in exits:
                    if sig == Sig.NEXT:
                        spec.exit(LoopCtx(self, y, entry, idx, head))
            outs += exits
        return outs

    def rebound(self, head, e, mods, tag):
        """blocks at the end of an iteration are those of its start: alive or released as before; a pointer that was rebound
        ends at a block of the same shape, and the block it left is released"""
        moved = set()
        for m in mods:
            if m[0] == 'field':
                h, f = head.heap.get(m[1]), m[2]
                vh = h.fields.get(f) if h is not None else None
                ve = e.heap[m[1]].fields.get(f) if m[1] in e.heap else None
            elif m[0] == 'ptrloc':
                vh, ve, f = head.frames[m[1]].get(m[2]), e.frames[m[1]].get(m[2]), 'pointer'
            else:
                continue
            if not isinstance(vh, Ptr) or vh.obj is None:
                continue
            if not isinstance(ve, Ptr) or ve.obj is None:
                raise Unsupported('pointer %s does not end at a block' % f)
            oh, oe = head.heap[vh.obj], e.heap[ve.obj]
            if oe.kind == 'raw' and oh.elem is not None:
                self.typed(e, ve, oh.elem)
                oe = e.heap[ve.obj]
            if oe.kind != oh.kind or repr(oe.elem) != repr(oh.elem) or oe.cls != oh.cls or ve.sub != vh.sub or set(oe.comp) != set(oh.comp):
                raise Unsupported('pointer %s ends at a block of another shape' % f)
            g = And(ve.off == vh.off, (ve.null == vh.null) if not same(ve.null, vh.null) else TRUE)
            if ve.obj != vh.obj:
                moved.add(vh.obj)
                g = And(g, oe.alive == oh.alive, oe.size >= 0, (oe.size <= (2 ** 63 - 1) // elem_bytes(oe.elem)) if oe.elem is not None else TRUE)
                if oh.cls == 'heap' and not self.reachable(e, vh.obj):
                    self.oblige(e, Not(e.heap[vh.obj].alive), 'leak', 'block %s that is replaced in a loop iteration is released' % oh.name)
            if not is_true(simp(g)):
                self.oblige(e, g, tag + '-keep', '%s ends at the start of a block that is as alive as before' % f)
        for oid, o in head.heap.items():
            p = e.heap.get(oid)
            if o.cls != 'heap' or p is None or oid in moved or same(o.alive, p.alive):
                continue
            self.oblige(e, o.alive == p.alive, tag + '-keep', 'block %s is as alive as before the iteration' % o.name)

    def reachable(self, st, oid):
        for o in st.heap.values():
            if is_false(o.alive):
                continue
            for v in o.fields.values():
                if isinstance(v, Ptr) and v.obj == oid:
                    return True
        for fr in st.frames:
            for v in fr.values():
                if isinstance(v, Ptr) and v.obj == oid:
                    return True
        return False


def invs_with_head(eng, spec, s, entry, idx, head):
    if spec is None or spec.inv is None:
        return []
    L = LoopCtx(eng, s, entry, idx, head)
    return [(a, b) for a, b in spec.inv(L) if b is not None]


class LoopCtx:
    """what an invariant may talk about"""

    def __init__(self, eng, st, entry, idx, head=None):
        self.eng, self.st, self.entry, self.idx = eng, st, entry, idx
        self.head = head
        if eng.contract is not None:
            eng.contract.ctx.state = st

    def __getitem__(self, name):
        return lookup(self.eng, self.st, name)

    def at_entry(self, name):
        return lookup(self.eng, self.entry, name)

    def has(self, name):
        try:
            v = lookup(self.eng, self.st, name)
            return not isinstance(v, Undef)
        except (KeyError, Unsupported):
            return False

    def ptr(self, name):
        return lookup(self.eng, self.st, name)

    def view(self, name):
        from .specs import View, _SC
        p = lookup(self.eng, self.st, name)
        return View(_SC2(self), p, None, name)

    def mat(self, name, kind=None, typ=None):
        from .specs import MatView
        p = lookup(self.eng, self.st, name)
        return MatView(_SC2(self), p, None, name, kind, typ)

    def at_head(self):
        """the state at the start of this iteration (moves the contract's state there)"""
        return LoopCtx(self.eng, self.head, self.entry, self.idx)

    def lemma(self, f):
        """instance of a lemma that is proved separately"""
        self.st.assume(f)

    def check(self, desc, f):
        """intermediate assertion: obligation, then available"""
        self.eng.oblige(self.st, f, 'assert', desc)
        self.st.assume(f)

    def derive(self, desc, f, using):
        """intermediate assertion that follows from the given facts alone (each one a hypothesis here, or an obligation of its own)"""
        known = set(h.get_id() for h in self.st.pc)
        for u in using:
            if u.get_id() not in known:
                self.check(desc + ' (premise)', u)
        self.eng.derived(desc, f, using)
        self.st.assume(f)

    @property
    def oom(self):
        return self.st.ghost.get('oom', FALSE)


class _SC2:
    def __init__(self, L):
        self.L = L
        self.eng = L.eng
        self.pre = L.entry

    @property
    def state(self):
        return self.L.st


def lookup(eng, st, name):
    for fi in range(len(st.frames) - 1, -1, -1):
        nm = st.frames[fi].get('_names', {})
        if name in nm:
            v = st.frames[fi][nm[name]]
            if isinstance(v, LocalObj):
                o = st.heap[v.oid]
                if o.kind == 'arr' and z3.is_int_value(o.size) and o.size.as_long() == 1:
                    return simp(z3.Select(o.comp['val'], IV(0)))
                if o.kind == 'cell':
                    return o.fields['*']
                return Ptr(v.oid)
            return v
    alt = eng.rename(name)
    if alt is not None:
        for fi in range(len(st.frames) - 1, -1, -1):
            if alt in st.frames[fi].get('_names', {}):
                return lookup(eng, st, alt)
    if name == '*inner*':
        return None
    raise Unsupported('the contract refers to the local variable %s, which is not there' % name)


# --------------------------------------------------------------------------- helpers
def _cv(eng, e):
    from .cfront import _constval
    x = e
    while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
        x = x['inner'][0]
    while x['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'):
        if x['kind'] == 'ConstantExpr' and 'value' in x:
            return int(x['value'])
        x = x['inner'][0]
    if x['kind'] == 'DeclRefExpr':
        return eng.tu.enums[x['referencedDecl']['name']]
    v = _constval(x)
    if v is None:
        raise Unsupported('case label')
    return v


def addr_taken(n, acc=None):
    """declaration ids whose address is taken"""
    if acc is None:
        acc = set()
    if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
        x = n['inner'][0]
        while x['kind'] in ('ParenExpr',):
            x = x['inner'][0]
        if x['kind'] == 'DeclRefExpr':
            acc.add(x['referencedDecl']['id'])
    for c in n.get('inner', []):
        addr_taken(c, acc)
    return acc


def assigned_vars(n):
    out = {}

    def base(x):
        while x['kind'] in ('ParenExpr',) or (x['kind'] == 'ImplicitCastExpr' and x['castKind'] == 'NoOp'):
            x = x['inner'][0]
        return x

    def walk(x):
        k = x.get('kind')
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (x['opcode'].endswith('=') and x['opcode'] not in ('==', '!=', '<=', '>=')):
            b = base(x['inner'][0])
            if b['kind'] == 'DeclRefExpr':
                out[b['referencedDecl']['id']] = b['referencedDecl']['name']
        if k == 'UnaryOperator' and x['opcode'] in ('++', '--'):
            b = base(x['inner'][0])
            if b['kind'] == 'DeclRefExpr':
                out[b['referencedDecl']['id']] = b['referencedDecl']['name']
        for c in x.get('inner', []):
            walk(c)
    if n['kind'] == 'ForStmt':
        for c in n['inner'][1:]:
            if c:
                walk(c)
    else:
        for c in n['inner']:
            walk(c)
    return list(out.items())


def collect_updates(n, out):
    def base(x):
        while x['kind'] in ('ParenExpr',):
            x = x['inner'][0]
        return x

    def walk(x):
        k = x.get('kind')
        if k == 'UnaryOperator' and x['opcode'] in ('++', '--'):
            b = base(x['inner'][0])
            if b['kind'] == 'DeclRefExpr':
                out.setdefault(b['referencedDecl']['id'], []).append(x['opcode'][0])
        elif k == 'CompoundAssignOperator' and x['opcode'] in ('+=', '-='):
            b = base(x['inner'][0])
            if b['kind'] == 'DeclRefExpr':
                r = x['inner'][1]
                while r['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                    r = r['inner'][0]
                ok = r['kind'] == 'IntegerLiteral'
                out.setdefault(b['referencedDecl']['id'], []).append(x['opcode'][0] if ok else '?')
        elif k in ('BinaryOperator', 'CompoundAssignOperator') and x['opcode'].endswith('=') and x['opcode'] not in ('==', '!=', '<=', '>='):
            b = base(x['inner'][0])
            if b['kind'] == 'DeclRefExpr':
                u = '?'
                r = x['inner'][1]
                while r['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                    r = r['inner'][0]
                if x['opcode'] == '=' and r['kind'] == 'BinaryOperator' and r['opcode'] in ('+', '-'):
                    p, q = r['inner']
                    while p['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                        p = p['inner'][0]
                    while q['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                        q = q['inner'][0]
                    if p['kind'] == 'DeclRefExpr' and p['referencedDecl']['id'] == b['referencedDecl']['id'] and q['kind'] == 'IntegerLiteral':
                        u = r['opcode']
                out.setdefault(b['referencedDecl']['id'], []).append(u)
        for c in x.get('inner', []):
            walk(c)
    if n['kind'] == 'ForStmt':
        for c in n['inner'][1:]:
            if c:
                walk(c)
    else:
        for c in n['inner']:
            walk(c)


def refs(e, acc):
    if e.get('kind') == 'DeclRefExpr':
        acc.add(e['referencedDecl']['id'])
    for c in e.get('inner', []):
        refs(c, acc)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and a.sub == b.sub and same(a.off, b.off) and same(a.null, b.null)
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, LocalObj) and isinstance(b, LocalObj):
        return a.oid == b.oid
    if isinstance(a, Undef) and isinstance(b, Undef):
        return True
    return a == b if not (z3.is_expr(a) or z3.is_expr(b)) else False


def diff_states(a, b):
    """locations that differ (b reached from a)"""
    out = set()
    for oid, o in a.heap.items():
        p = b.heap.get(oid)
        if p is o or p is None:
            continue
        if o.kind == 'raw' and p.kind != 'raw':
            continue
        for c in o.comp:
            if c in p.comp and not same(o.comp[c], p.comp[c]):
                out.add(('comp', oid, c))
        for f in o.fields:
            if f in ('undef', 'items'):
                continue
            if f in p.fields and not same(o.fields[f], p.fields[f]):
                out.add(('field', oid, f))
    for i, fr in enumerate(a.frames):
        for k, v in fr.items():
            if isinstance(v, Ptr) and i < len(b.frames) and k in b.frames[i] and not same(v, b.frames[i][k]):
                out.add(('ptrloc', i, k))
    for g, v in a.globals.items():
        if g in b.globals and not same(v, b.globals[g]):
            out.add(('glob', g))
    for g, v in a.ghost.items():
        if g in b.ghost and not same(v, b.ghost[g]):
            out.add(('ghost', g))
    return out


def merge_val(cb, x, y):
    if same(x, y):
        return x
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.obj is None and y.obj is None:
            return x
        if x.obj is None:
            return Ptr(y.obj, y.off, simp(Or(cb, y.null)), y.sub)
        if y.obj is None:
            return Ptr(x.obj, x.off, simp(Or(Not(cb), x.null)), x.sub)
        if x.obj == y.obj and x.sub == y.sub and same(x.off, y.off):
            return Ptr(x.obj, x.off, simp(If(cb, x.null, y.null)), x.sub)
        return None
    if z3.is_expr(x) and z3.is_expr(y):
        if x.sort() != y.sort():
            if x.sort() in (I, B) and y.sort() in (I, B):
                return If(cb, to_int(x), to_int(y))
            return None
        return If(cb, x, y)
    return None


def merge_states(base, cb, a, b):
    """merge two fall-through states when they differ only in scalars, nullness and liveness"""
    n = len(base)
    if len(a.pc) - n > 12 or len(b.pc) - n > 12:
        return None
    if len(a.frames) != len(b.frames):
        return None
    m = a.copy()
    for fa, fb, fm in zip(a.frames, b.frames, m.frames):
        keys = set(fa) | set(fb)
        for k in keys:
            if k in ('_at',):
                continue
            if k in ('_names', '_types'):
                continue
            if k not in fa or k not in fb:
                # declared in one branch only: out of scope after the join
                fm[k] = UNDEF if k not in fa or True else None
                continue
            if same(fa[k], fb[k]):
                continue
            v = merge_val(cb, fa[k], fb[k])
            if v is None:
                if isinstance(fa[k], Undef) or isinstance(fb[k], Undef):
                    return None
                return None
            fm[k] = v
    for oid in set(a.heap) | set(b.heap):
        oa, ob = a.heap.get(oid), b.heap.get(oid)
        if oa is ob:
            continue
        if oa is None or ob is None:
            o = oa or ob
            if o.cls == 'heap' and not is_false(o.alive):
                return None
            if o.cls == 'local' or is_false(o.alive):
                m.heap[oid] = o
                continue
            return None
        if oa.kind != ob.kind:
            return None
        om = oa.copy()
        for c in oa.comp:
            if c in ob.comp and not same(oa.comp[c], ob.comp[c]):
                return None
        for f in set(oa.fields) | set(ob.fields):
            x, y = oa.fields.get(f), ob.fields.get(f)
            if same(x, y):
                continue
            if x is None or y is None:
                return None
            v = merge_val(cb, x, y)
            if v is None:
                return None
            om.fields[f] = v
        if not same(oa.alive, ob.alive):
            om.alive = simp(If(cb, oa.alive, ob.alive))
        m.heap[oid] = om
    for g in set(a.globals) | set(b.globals):
        if g in a.globals and g in b.globals:
            if not same(a.globals[g], b.globals[g]):
                v = merge_val(cb, a.globals[g], b.globals[g])
                if v is None:
                    return None
                m.globals[g] = v
        else:
            m.globals[g] = a.globals.get(g, b.globals.get(g))
    for g in set(a.ghost) | set(b.ghost):
        if g in a.ghost and g in b.ghost and same(a.ghost[g], b.ghost[g]):
            continue
        if g in a.ghost and g in b.ghost and g == 'oom':
            m.ghost[g] = z3.simplify(If(cb, a.ghost[g], b.ghost[g]))
            continue
        return None
    pa, pb = And(*a.pc[n + 1:]) if len(a.pc) > n else TRUE, And(*b.pc[n + 1:]) if len(b.pc) > n else TRUE
    # conjunctive conditions may have been split: recompute safely
    pa, pb = And(*a.pc[n:]), And(*b.pc[n:])
    m.pc = base
    if not (is_true(pa) and is_true(pb)):
        m.assume(simp_or(cb, pa, pb))
    return m


def simp_or(cb, pa, pb):
    f = Or(pa, pb)
    try:
        if has_quant(f):
            return f
        f = z3.simplify(f)
    except z3.Z3Exception:
        pass
    return f
