"""Contracts: one specification function per C function.

`spec(c)` is executed in two modes:
  def  - verification of the function itself: parameters are created, the
         preconditions assumed; the returned outcomes are *checked* at every exit
  call - call site: actual arguments are bound, the preconditions become
         obligations; the outcomes are *assumed*.
The same text is used in both modes, so a caller never relies on anything but
what the callee is checked against.
"""
import z3
from .core import *
from .cfront import *

SPECS = {}          # name -> Spec


class Spec:
    def __init__(self, name, fn, cases, tu, defs, trusted=None, bounded=None, weight=1):
        self.name, self.fn, self.cases, self.tu, self.defs = name, fn, cases, tu, defs
        self.trusted = trusted
        self.weight = weight


def contract(name, tu=None, cases=(None,), defs=(), trusted=None, weight=1):
    def deco(fn):
        SPECS[name] = Spec(name.split('@')[0], fn, list(cases), tu, defs, trusted, weight=weight)
        return fn
    return deco


class LoopSpec:
    def __init__(self, inv=None, dec=None, init=None, step=None, head=None, exit=None, ghosts=None):
        self.ghosts = ghosts
        self.inv, self.dec = inv, dec
        self.ghost_init, self.ghost_step = init, step
        self.head = head
        self.exit = exit


class Outcome:
    def __init__(self, name, result=None, when=None, ens=None, nomod=False):
        self.name, self.result, self.when, self.ens, self.nomod = name, result, when, ens, nomod


MAXB = 2 ** 63 - 1
IX = z3.Function('ix', I, I, I, I)
IXI = z3.Function('ixi', I, I, I)
IXJ = z3.Function('ixj', I, I, I)


def ix(i, j, m):
    return IX(i, j, m)


# --------------------------------------------------------------------------- views
class View:
    """a pointer argument seen by a specification; reads the current (or pre) state"""

    def __init__(self, c, ptr, st=None, name='', size=None):
        self.c, self.ptr, self._st, self.name, self.size = c, ptr, st, name, size

    def state(self):
        return self._st if self._st is not None else self.c.state

    def obj(self):
        return self.state().heap[self.ptr.obj]

    @property
    def off(self):
        return self.ptr.off

    @property
    def isnull(self):
        return self.ptr.null

    @property
    def old(self):
        return View(self.c, self.ptr, self.c.pre, self.name, self.size)

    def at(self, st):
        return View(self.c, self.ptr, st, self.name, self.size)

    def comp(self, cname):
        return self.obj().comp[cname]

    def _k(self, k):
        k = IV(k) if isinstance(k, int) else k
        o = simp0(self.ptr.off)
        return k if z3.is_int_value(o) and o.as_long() == 0 else simp0(self.ptr.off + k)

    def sel(self, cname, k):
        a = self.comp(cname)
        k = self._k(k)
        if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
            return a.arg(0)
        return z3.Select(a, k)

    def __getitem__(self, k):
        return self.sel('val', k)

    def st(self, k=0):
        return self.sel('st', k)

    def init(self, k=0):
        """number k is initialised"""
        o = self.obj()
        if o.elem.name == 'q':
            return And(self.sel('st', k) == 1, self.sel('sd', k) == 1)
        return self.sel('st', k) == 1

    def clearable(self, k=0):
        o = self.obj()
        if o.elem.name == 'q':
            return And(self.sel('st', k) >= 0, self.sel('st', k) <= 1, self.sel('sd', k) >= 0, self.sel('sd', k) <= 1)
        return And(self.sel('st', k) >= 0, self.sel('st', k) <= 1)

    def isnullnum(self, k=0):
        o = self.obj()
        if o.elem.name == 'q':
            return And(self.sel('st', k) == 0, self.sel('sd', k) == 0)
        return self.sel('st', k) == 0

    @property
    def v(self):
        return self[0]

    def all(self, lo, hi, f, pat=True):
        if pat is True:
            return forall(lambda k: Implies(And(k >= lo, k < hi), f(k)), pats=None)
        return forall(lambda k: Implies(And(k >= lo, k < hi), f(k)), pats=pat)

    def allinit(self, lo, hi):
        return self.all(lo, hi, self.init)

    def allclear(self, lo, hi):
        return self.all(lo, hi, self.clearable)

    def canon(self, k=0):
        return And(self.sel('pd', k) > 0, self.sel('pn', k) == QNUM(self[k]), self.sel('pd', k) == QDEN(self[k]))


def simp0(e):
    return z3.simplify(e) if z3.is_expr(e) else e


KINDS = {'CSC': 0, 'TRIPLET': 1, 'DENSE': 2}
TYPES = {'MPZ': 0, 'MPQ': 1, 'MPFR': 2, 'INT64': 3, 'FP64': 4}
TYPECT = {'MPZ': MPZ, 'MPQ': MPQ, 'MPFR': MPFR, 'INT64': I64, 'FP64': F64T}


class MatView:
    def __init__(self, c, ptr, st=None, name='', kind=None, typ=None):
        self.c, self.ptr, self._st, self.name, self.kind, self.typ = c, ptr, st, name, kind, typ

    def state(self):
        return self._st if self._st is not None else self.c.state

    def obj(self):
        return self.state().heap[self.ptr.obj]

    @property
    def isnull(self):
        return self.ptr.null

    @property
    def old(self):
        return MatView(self.c, self.ptr, self.c.pre, self.name, self.kind, self.typ)

    def at_state(self, st):
        return MatView(self.c, self.ptr, st, self.name, self.kind, self.typ)

    def f(self, name):
        return self.obj().fields[name]

    m = property(lambda s: s.f('m'))
    n = property(lambda s: s.f('n'))
    nz = property(lambda s: s.f('nz'))
    nzmax = property(lambda s: s.f('nzmax'))

    def sub(self, name):
        return View(self.c, self.f(name), self._st, self.name + '.' + name)

    p = property(lambda s: s.sub('p'))
    i = property(lambda s: s.sub('i'))
    j = property(lambda s: s.sub('j'))
    x = property(lambda s: s.sub('x'))
    scale = property(lambda s: s.sub('scale'))

    def ix(self, i, j):
        i = IV(i) if isinstance(i, int) else i
        j = IV(j) if isinstance(j, int) else j
        return IX(i, j, self.m)

    def d(self, i, j):
        """dense entry"""
        return self.x[self.ix(i, j)]

    def nnz(self):
        if self.kind == 'CSC':
            return self.p[self.n]
        if self.kind == 'TRIPLET':
            return self.nz
        return self.m * self.n


class StructView:
    def __init__(self, c, ptr, st=None, name=''):
        self.c, self.ptr, self._st, self.name = c, ptr, st, name

    def state(self):
        return self._st if self._st is not None else self.c.state

    def obj(self):
        return self.state().heap[self.ptr.obj]

    @property
    def isnull(self):
        return self.ptr.null

    @property
    def old(self):
        return StructView(self.c, self.ptr, self.c.pre, self.name)

    def f(self, name):
        return self.obj().fields[name]

    def sub(self, name):
        return View(self.c, self.f(name), self._st, self.name + '.' + name)


class CellView(StructView):
    @property
    def v(self):
        return self.obj().fields['*']


class Need(Exception):
    pass


# --------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, eng, st, mode, args, case, spec):
        self.eng, self.state, self.mode, self.args, self.case, self.spec = eng, st, mode, args, case, spec
        self.pre = st
        self.loops = {}
        self.hooks = {}
        self.mods = []
        self.ctx = self
        self.idx = 0
        self.views = []
        self.params = []
        self.ghosts = {}
        self.ghost_for = {}
        self.expected = None
        self.frees = []
        self.dead_reason = None
        self.no_frame = False
        self.lemmas_used = set()

    @property
    def defmode(self):
        return self.mode == 'def'

    def _next(self, v):
        """param value: in def mode record the created one, in call mode return the actual"""
        if self.mode == 'def':
            self.params.append(v)
            return v
        a = self.args[self.idx]
        self.idx += 1
        return a

    def oblige(self, f, desc):
        self.eng.oblige(self.state, f, 'pre', '%s: %s' % (self.spec.name, desc))
        self.state.assume(f)

    # -- preconditions
    def req(self, desc, f):
        if f is None:
            return
        if self.mode == 'def':
            self.state.assume(f)
        else:
            self.oblige(f, desc)

    # -- parameters
    def val(self, name, ct=None):
        if self.mode == 'def':
            ct = ct or self.ptype(len(self.params))
            if ct.k == 'int' and ct.name == 'bool':
                v = fresh(name, B)
            elif ct.k == 'int':
                v = fresh(name)
                lo, hi = ct.range()
                self.state.assume(And(v >= lo, v <= hi))
            elif ct.k == 'f64':
                v = fresh(name, F)
            else:
                raise Unsupported('value parameter ' + repr(ct))
            return self._next(v)
        return self._next(None)

    def const(self, name, v):
        """parameter fixed to a constant in this case"""
        if self.mode == 'def':
            return self._next(IV(v) if isinstance(v, int) else v)
        a = self._next(None)
        return a

    def ptype(self, i):
        fn = self.eng.lib.fn_decl(self.spec.name)
        ps = [x for x in fn.get('inner', []) if x['kind'] == 'ParmVarDecl']
        return self.eng.tu.ctype(ps[i]['type'])

    def _nullflag(self, name, nullable):
        return fresh(name + '.null', B) if nullable else FALSE

    def arr(self, name, elem, size, nullable=False, ro=False, undef=False, cls='heap'):
        size = IV(size) if isinstance(size, int) else size
        if self.mode == 'def':
            ptr = self._next(self.mk_arr(name, elem, size, nullable))
            if not is_true(ptr.null):
                self.state.assume(Implies(Not(ptr.null), size >= 0)) if not z3.is_int_value(size) else None
        else:
            ptr = self._next(None)
            ptr = self.bind_arr(name, ptr, elem, size, nullable)
        v = View(self, ptr, None, name, size)
        self.views.append((v, ro))
        return v

    def mk_arr(self, name, elem, size, nullable=False, parent=None, st=1):
        if elem.k == 'mp':
            o = Obj('mp', elem=elem, size=size, name=name, cls='heap', parent=parent)
            o.comp['val'] = fresh(name + '.v', arrsort({'z': I, 'q': R, 'f': FR}[elem.name]))
            o.comp['st'] = fresh(name + '.st', arrsort(I))
            if elem.name == 'q':
                o.comp['pn'] = fresh(name + '.pn', arrsort(I))
                o.comp['pd'] = fresh(name + '.pd', arrsort(I))
                o.comp['sd'] = fresh(name + '.sd', arrsort(I))
            if elem.name == 'f':
                o.comp['prec'] = fresh(name + '.prec', arrsort(I))
        else:
            o = Obj('arr', elem=elem, size=size, name=name, cls='heap', parent=parent)
            o.comp['val'] = fresh(name, arrsort(elem_sort(elem)))
        oid = self.state.new(o, name)
        es = elem_bytes(elem)
        if not z3.is_int_value(size):
            self.state.assume(size <= MAXB // es)
        nf = self._nullflag(name, nullable)
        return Ptr(oid, IV(0), nf)

    def bind_arr(self, name, ptr, elem, size, nullable):
        if not isinstance(ptr, Ptr):
            raise Unsupported('argument %s of %s' % (name, self.spec.name))
        if ptr.obj is None:
            self.oblige(FALSE if not nullable else TRUE, '%s is not NULL' % name)
            # dummy object so that the views exist
            d = self.mk_arr(name + '_null', elem, size)
            self.state.heap[d.obj].cls = 'dummy'
            return Ptr(d.obj, IV(0), TRUE)
        if not nullable:
            self.oblige(Not(ptr.null), '%s is not NULL' % name)
        self.eng.typed(self.state, ptr, elem)
        o = self.state.heap[ptr.obj]
        if o.kind == 'raw' or o.elem is None or o.elem.k != elem.k or (elem.k == 'mp' and o.elem.name != elem.name and ptr.sub == ''):
            if o.kind != 'cell' or elem.k != 'ptr':
                raise Unsupported('argument %s of %s: object %s has another type' % (name, self.spec.name, o.name))
        if elem.k == 'int' and (o.elem.bits != elem.bits or o.elem.signed != elem.signed):
            raise Unsupported('argument %s of %s: integer width' % (name, self.spec.name))
        g = Not(ptr.null)
        self.oblige(Implies(g, o.alive), '%s is allocated' % name)
        self.oblige(Implies(g, And(ptr.off >= 0, ptr.off + size <= o.size)), '%s has the required size' % name)
        if o.fields.get('undef'):
            o = self.state.wobj(ptr.obj)
            o.fields.pop('undef')
        return ptr

    def mp(self, name, elem, nullable=False, ro=False):
        return self.arr(name, elem, IV(1), nullable, ro)

    def ptrcell(self, name, nullable=False, content=None):
        """T ** parameter (output handle, or holding an object)"""
        if self.mode == 'def':
            o = Obj('cell', elem=CT('ptr', to=VOID), size=IV(1), cls='heap', name=name)
            o.fields['*'] = UNDEF
            oid = self.state.new(o, name)
            ptr = self._next(Ptr(oid, IV(0), self._nullflag(name, nullable)))
        else:
            ptr = self._next(None)
            if ptr.obj is None:
                if not nullable:
                    self.oblige(FALSE, name + ' is not NULL')
                o = Obj('cell', elem=CT('ptr', to=VOID), size=IV(1), cls='dummy', name=name)
                o.fields['*'] = NULL
                ptr = Ptr(self.state.new(o, name), IV(0), TRUE)
            elif not nullable:
                self.oblige(Not(ptr.null), name + ' is not NULL')
            o = self.state.heap[ptr.obj]
            if o.kind != 'cell':
                raise Unsupported('argument %s: not a pointer variable' % name)
        return CellView(self, ptr, None, name)

    def struct(self, name, rec, nullable=False, fields=None, ro=True):
        if self.mode == 'def':
            o = Obj('struct', rec=rec, cls='heap', name=name, size=IV(1))
            oid = self.state.new(o, name)
            for f, t in self.eng.tu.fields(rec):
                if t.k == 'int':
                    if t.name == 'bool':
                        o.fields[f] = fresh(name + '.' + f, B)
                        continue
                    v = fresh(name + '.' + f)
                    lo, hi = t.range()
                    self.state.assume(And(v >= lo, v <= hi))
                    o.fields[f] = v
                elif t.k == 'f64':
                    o.fields[f] = fresh(name + '.' + f, F)
                elif t.k == 'mp':
                    p = self.mk_arr(name + '.' + f, t, IV(1), parent=oid)
                    o.fields[f] = p
                else:
                    o.fields[f] = UNDEF
            ptr = self._next(Ptr(oid, IV(0), self._nullflag(name, nullable)))
        else:
            ptr = self._next(None)
            ptr = self.bind_struct(name, ptr, rec, nullable)
        return StructView(self, ptr, None, name)

    def bind_struct(self, name, ptr, rec, nullable):
        if not isinstance(ptr, Ptr):
            raise Unsupported('argument %s of %s' % (name, self.spec.name))
        if ptr.obj is None:
            if not nullable:
                self.oblige(FALSE, '%s is not NULL' % name)
            d = Ctx(self.eng, self.state, 'def', None, self.case, self.spec)
            if rec == 'SLIP_matrix':
                raise Need('null struct')
            d.struct(name + '_null', rec)
            p = d.params[0]
            self.state.heap[p.obj].cls = 'dummy'
            return Ptr(p.obj, IV(0), TRUE)
        if not nullable:
            self.oblige(Not(ptr.null), '%s is not NULL' % name)
        self.eng.typed(self.state, ptr, CT('struct', name=rec))
        o = self.state.heap[ptr.obj]
        if o.kind != 'struct' or o.rec != rec:
            raise Unsupported('argument %s of %s is not a %s' % (name, self.spec.name, rec))
        self.oblige(Implies(Not(ptr.null), o.alive), '%s is allocated' % name)
        return ptr

    def options(self, name='option'):
        o = self.struct(name, 'SLIP_options', nullable=True)
        if self.mode == 'def' or o.ptr.obj is not None and self.state.heap[o.ptr.obj].cls != 'dummy':
            prec = o.f('prec')
            if isinstance(prec, Undef):
                self.req('option->prec is set', o.isnull)
            else:
                self.req('option->prec is a valid MPFR precision', Or(o.isnull, And(prec >= 1, prec <= 2 ** 62)))
        return o

    # -- matrices
    def matrix(self, name, kind, typ, nullable=False, ro=True):
        """SLIP_matrix* whose fields have the shape its kind and type say (see shape())"""
        if self.mode == 'def':
            ptr = self._next(self.mk_matrix(name, kind, typ, nullable))
        else:
            ptr = self._next(None)
            ptr = self.bind_matrix(name, ptr, kind, typ, nullable)
        return MatView(self, ptr, None, name, kind, typ)

    def mk_matrix(self, name, kind, typ, nullable=False, m=None, n=None, nzmax=None, cls='heap', shallow=False):
        st = self.state
        o = Obj('struct', rec='SLIP_matrix', cls=cls, name=name, size=IV(1))
        oid = st.new(o, name)
        fld = o.fields
        for f, given in (('m', m), ('n', n), ('nzmax', nzmax)):
            if given is not None:
                fld[f] = given
            else:
                v = fresh('%s.%s' % (name, f))
                st.assume(And(v >= 0, v <= MAXB))
                fld[f] = v
        v = fresh(name + '.nz')
        st.assume(And(v >= -MAXB - 1, v <= MAXB))
        fld['nz'] = v
        fld['kind'] = IV(KINDS[kind])
        fld['type'] = IV(TYPES[typ])
        for s in ('p_shallow', 'i_shallow', 'j_shallow', 'x_shallow'):
            fld[s] = fresh('%s.%s' % (name, s), B) if shallow else FALSE
        fld['p'] = self.mk_arr(name + '.p', I64, simp0(fld['n'] + 1)) if kind == 'CSC' else NULL
        fld['i'] = self.mk_arr(name + '.i', I64, fld['nzmax']) if kind != 'DENSE' else NULL
        fld['j'] = self.mk_arr(name + '.j', I64, fld['nzmax']) if kind == 'TRIPLET' else NULL
        fld['x'] = self.mk_arr(name + '.x', TYPECT[typ], fld['nzmax'])
        fld['scale'] = self.mk_arr(name + '.scale', MPQ, IV(1), parent=oid)
        if kind == 'DENSE':
            st.assume(fld['nzmax'] >= fld['m'] * fld['n'])
            self.eng.product(st, fld['m'], fld['n'])
        if kind == 'TRIPLET':
            st.assume(And(fld['nz'] >= 0, fld['nz'] <= fld['nzmax']))
        # entries of a block of p+1 pointers
        return Ptr(oid, IV(0), self._nullflag(name, nullable))

    def bind_matrix(self, name, ptr, kind, typ, nullable, check=None):
        ptr = self.bind_struct(name, ptr, 'SLIP_matrix', nullable)
        g = Not(ptr.null)
        o = self.state.heap[ptr.obj]
        chk = check or (lambda f, d: self.oblige(Implies(g, f), '%s: %s' % (name, d)))
        for f in ('m', 'n', 'nzmax', 'kind', 'type'):
            if isinstance(o.fields[f], Undef):
                chk(FALSE, 'field %s is set' % f)
                return ptr
        chk(o.fields['kind'] == KINDS[kind], 'is %s' % kind)
        chk(o.fields['type'] == TYPES[typ], 'has type %s' % typ)
        chk(And(o.fields['m'] >= 0, o.fields['n'] >= 0), 'dimensions are not negative')
        if kind == 'TRIPLET':
            chk(And(o.fields['nz'] >= 0, o.fields['nz'] <= o.fields['nzmax']), '0 <= nz <= nzmax')
        if kind == 'DENSE':
            chk(o.fields['nzmax'] >= o.fields['m'] * o.fields['n'], 'nzmax >= m*n')
            self.eng.product(self.state, o.fields['m'], o.fields['n'])

        def blk(f, elem, size):
            p = o.fields[f]
            if not isinstance(p, Ptr) or p.obj is None:
                chk(FALSE, '%s is allocated' % f)
                d = self.mk_arr(name + '.' + f, elem, size)
                self.state.heap[d.obj].cls = 'dummy'
                self.state.wobj(ptr.obj).fields[f] = d
                return
            self.eng.typed(self.state, p, elem)
            x = self.state.heap[p.obj]
            if x.kind == 'raw' or x.elem is None or x.elem.k != elem.k or (elem.k == 'mp' and x.elem.name != elem.name):
                raise Unsupported('%s.%s has another type' % (name, f))
            chk(And(Not(p.null), x.alive, p.off == 0, size <= x.size), '%s has the required size' % f)
        if kind == 'CSC':
            blk('p', I64, simp0(o.fields['n'] + 1))
        if kind != 'DENSE':
            blk('i', I64, o.fields['nzmax'])
        if kind == 'TRIPLET':
            blk('j', I64, o.fields['nzmax'])
        blk('x', TYPECT[typ], o.fields['nzmax'])
        return ptr

    def analysis(self, name, n, nullable=False):
        """SLIP_LU_analysis* whose q has n+1 entries"""
        S = self.struct(name, 'SLIP_LU_analysis', nullable=nullable)
        if self.mode == 'def':
            q = self.mk_arr(name + '.q', I64, simp0(n + 1))
            self.state.wobj(S.ptr.obj).fields['q'] = q
        else:
            q = S.f('q')
            if not isinstance(q, Ptr) or q.obj is None:
                self.oblige(Implies(Not(S.isnull), FALSE), 'q is set')
                if S.ptr.obj is not None and self.state.heap[S.ptr.obj].cls == 'dummy':
                    self.state.wobj(S.ptr.obj).fields['q'] = self.mk_arr(name + '.q', I64, simp0(n + 1))
            else:
                self.eng.typed(self.state, q, I64)
                o = self.state.heap[q.obj]
                self.oblige(Implies(Not(S.isnull), And(Not(q.null), o.alive, q.off == 0, o.size >= n + 1)), '%s->q has n+1 entries' % name)
        return S

    # -- ghosts
    def ghost(self, name, make):
        """specification-only parameter.  make() builds a fresh one in def mode"""
        if self.mode == 'def':
            g = make()
        else:
            prov = self.eng.contract.ghost_for.get(self.spec.name) if self.eng.contract else None
            if prov is None:
                g = make()          # arbitrary instance
            else:
                if '_inst' not in self.__dict__:
                    from .engine import LoopCtx
                    self._inst = prov(LoopCtx(self.eng, self.state, self.state, -1), self)
                g = self._inst.get(name)
                if g is None:
                    g = make()
        self.ghosts[name] = g
        return g

    # -- frame
    def mod(self, view, *comps):
        self.mods.append((view, comps))

    def loop(self, idx, inv=None, dec=None, init=None, step=None, head=None, exit=None, ghosts=None):
        self.loops[idx] = LoopSpec(inv, dec, init, step, head, exit, ghosts)

    def hook(self, when, callee, fn):
        self.hooks.setdefault((when, callee), []).append(fn)

    def distinct_views(self):
        if self.mode == 'def':
            return
        for a in range(len(self.views)):
            for b in range(a + 1, len(self.views)):
                va, ra = self.views[a]
                vb, rb = self.views[b]
                if va.ptr.obj != vb.ptr.obj or (ra and rb) or va.ptr.sub != vb.ptr.sub:
                    continue
                if is_true(va.ptr.null) or is_true(vb.ptr.null):
                    continue
                sa, sb = va.size, vb.size
                self.oblige(Or(va.ptr.off + sa <= vb.ptr.off, vb.ptr.off + sb <= va.ptr.off,
                               va.ptr.null, vb.ptr.null), '%s and %s do not overlap' % (va.name, vb.name))


class RC:
    """postcondition context"""

    def __init__(self, c, mode, st, result):
        self.c, self.mode, self.st, self.result = c, mode, st, result
        self.owned = set()
        self.freedset = set()
        self.name = ''

    def ens(self, desc, f):
        if f is None:
            return
        if self.mode == 'assume':
            self.st.assume(f)
        else:
            self.c.eng.oblige(self.st, f, 'post', '[%s] %s' % (self.name, desc))

    def lemma(self, f):
        """fact added before a check (a proved lemma instance)"""
        self.st.assume(f)

    def oom(self):
        if self.mode == 'assume':
            self.st.ghost['oom'] = TRUE
        else:
            self.ens('OUT_OF_MEMORY only when an allocation failed', self.st.ghost.get('oom', FALSE))

    # slots
    def _get(self, slot):
        if slot[0] == 'result':
            return self.result
        if slot[0] == 'cell':
            return self.st.heap[slot[1].ptr.obj].fields['*']
        return self.st.heap[slot[1].ptr.obj].fields[slot[2]]

    def _set(self, slot, v):
        if slot[0] == 'result':
            self.result = v
        elif slot[0] == 'cell':
            self.st.wobj(slot[1].ptr.obj).fields['*'] = v
        else:
            self.st.wobj(slot[1].ptr.obj).fields[slot[2]] = v

    def out_null(self, slot):
        if self.mode == 'assume':
            self._set(slot, NULL)
        else:
            p = self._get(slot)
            self.ens('%s is NULL' % slotname(slot), p.null if isinstance(p, Ptr) else FALSE)

    def out_arr(self, slot, elem, size, name='out', zero=False, parent=None):
        c = self.c
        size = IV(size) if isinstance(size, int) else size
        if self.mode == 'assume':
            sv = c.state
            c.state = self.st
            p = c.mk_arr(name, elem, size, parent=parent)
            c.state = sv
            self._set(slot, p)
            self.st.assume(size >= 0)
        else:
            p = self._get(slot)
            if not isinstance(p, Ptr) or p.obj is None:
                self.ens('%s is allocated' % slotname(slot), FALSE)
                return None
            c.eng.typed(self.st, p, elem)
            o = self.st.heap[p.obj]
            if o.elem is None or o.elem.k != elem.k or (elem.k == 'mp' and elem.name != o.elem.name):
                self.ens('%s has the right type' % slotname(slot), FALSE)
                return None
            self.ens('%s is a block of the right size' % slotname(slot),
                     And(Not(p.null), o.alive, p.off == 0, o.size >= size))
            self.owned.add(p.obj)
        return View(_SC(c, self.st), p, None, name, size)

    def out_matrix(self, slot, kind, typ, m=None, n=None, nzmax=None, name='M', shallow=False):
        c = self.c
        if self.mode == 'assume':
            sv = c.state
            c.state = self.st
            p = c.mk_matrix(name, kind, typ, m=m, n=n, nzmax=nzmax, shallow=shallow)
            c.state = sv
            self._set(slot, p)
        else:
            p = self._get(slot)
            if not isinstance(p, Ptr) or p.obj is None or self.st.heap[p.obj].kind != 'struct':
                self.ens('%s is a matrix' % slotname(slot), FALSE)
                return None
            self.ens('%s is allocated' % slotname(slot), And(Not(p.null), self.st.heap[p.obj].alive))
            sv = c.state
            c.state = self.st
            c.bind_matrix(slotname(slot), p, kind, typ, False, check=lambda f, d: self.ens('%s: %s' % (slotname(slot), d), f))
            c.state = sv
            o = self.st.heap[p.obj]
            for f, g in (('m', m), ('n', n), ('nzmax', nzmax)):
                if g is not None:
                    self.ens('%s->%s' % (slotname(slot), f), o.fields[f] == g)
            if not shallow:
                self.ens('%s owns its arrays' % slotname(slot), And(*[Not(o.fields[s]) for s in ('p_shallow', 'i_shallow', 'j_shallow', 'x_shallow')]))
            self.own_tree(p.obj)
        return MatView(_SC(c, self.st), p, None, name, kind, typ)

    def out_shallow(self, slot, kind, typ, name='M', x=None):
        """matrix header without arrays (all shallow); x: the block x refers to (default: NULL)"""
        c = self.c
        if self.mode == 'assume':
            sv = c.state
            c.state = self.st
            p = c.mk_matrix(name, kind, typ)
            c.state = sv
            o = self.st.wobj(p.obj)
            for s in 'pijx':
                q = o.fields[s]
                if q.obj is not None:
                    self.st.wobj(q.obj).cls = 'dummy'
                o.fields[s] = x.ptr if s == 'x' and x is not None else NULL
                o.fields[s + '_shallow'] = TRUE
            self._set(slot, p)
        else:
            p = self._get(slot)
            if not isinstance(p, Ptr) or p.obj is None or self.st.heap[p.obj].kind != 'struct':
                self.ens('%s is a matrix' % slotname(slot), FALSE)
                return None
            o = self.st.heap[p.obj]
            self.ens('%s is allocated' % slotname(slot), And(Not(p.null), o.alive))
            self.ens('kind and type', And(o.fields['kind'] == KINDS[kind], o.fields['type'] == TYPES[typ]))
            for s in 'pijx':
                f = o.fields[s]
                if s == 'x' and x is not None:
                    self.ens('x is the block of the other matrix, and shallow', And(Not(f.null), f.off == x.ptr.off, o.fields['x_shallow']) if isinstance(f, Ptr) and f.obj == x.ptr.obj else FALSE)
                    continue
                self.ens('%s is NULL and shallow' % s, And(f.null if isinstance(f, Ptr) else FALSE, o.fields[s + '_shallow']))
            self.owned.add(p.obj)
        return MatView(_SC(c, self.st), p, None, name, kind, typ)

    def own_tree(self, oid):
        self.owned.add(oid)
        o = self.st.heap[oid]
        for v in o.fields.values():
            if isinstance(v, Ptr) and v.obj is not None and v.obj not in self.owned:
                self.owned.add(v.obj)

    def out_struct(self, slot, rec, name='S'):
        c = self.c
        if self.mode == 'assume':
            sv = c.state
            c.state = self.st
            d = Ctx(c.eng, self.st, 'def', None, c.case, c.spec)
            d.struct(name, rec)
            c.state = sv
            p = d.params[0]
            self._set(slot, p)
        else:
            p = self._get(slot)
            if not isinstance(p, Ptr) or p.obj is None:
                self.ens('%s is allocated' % slotname(slot), FALSE)
                return None
            c.eng.typed(self.st, p, CT('struct', name=rec))
            if self.st.heap[p.obj].kind != 'struct':
                self.ens('%s is a %s' % (slotname(slot), rec), FALSE)
                return None
            self.ens('%s is allocated' % slotname(slot), And(Not(p.null), self.st.heap[p.obj].alive))
            self.own_tree(p.obj)
        return StructView(_SC(c, self.st), p, None, name)

    def freed(self, view, when=TRUE):
        """the object is released"""
        oid = view.ptr.obj
        if self.mode == 'assume':
            o = self.st.wobj(oid)
            o.alive = simp0(And(o.alive, Not(when)))
        else:
            self.ens('%s is released' % view.name, Implies(when, Not(self.st.heap[oid].alive)))
            self.freedset.add(oid)

    def moved_arr(self, slot, old, elem, size, name='moved'):
        """the block in slot was reallocated: same object, or a new one and the old one released"""
        if self.mode == 'assume':
            o = self.st.wobj(old.ptr.obj)
            o.alive = FALSE
        else:
            p = self._get(slot)
            if isinstance(p, Ptr) and p.obj != old.ptr.obj:
                self.ens('the old block of %s is released' % slotname(slot), Not(self.st.heap[old.ptr.obj].alive))
            self.freedset.add(old.ptr.obj)
        return self.out_arr(slot, elem, size, name)

    def free_tree(self, view, when=TRUE):
        self.freed(view, when)
        # children as they were before the call
        o = self.c.pre.heap[view.ptr.obj]
        for v in o.fields.values():
            if isinstance(v, Ptr) and v.obj is not None:
                w = View(self.c, v, None, view.name + '.*')
                self.freed(w, And(when, Not(v.null)) if True else when)


class _SC:
    """minimal ctx with a fixed state"""

    def __init__(self, c, st):
        self.state, self.pre, self.eng = st, c.pre, c.eng


def slotname(slot):
    return slot[0] if slot[0] == 'result' else slot[1].name if slot[0] == 'cell' else slot[1].name + '->' + slot[2]


# --------------------------------------------------------------------------- call / exit
def havoc_mods(c, st):
    for view, comps in c.mods:
        if isinstance(view, View):
            oid = view.ptr.obj
            if oid is None or is_true(view.ptr.null):
                continue
            o = st.wobj(oid)
            names = comps or [k for k in o.comp if k != 'prec']
            sz = simp0(view.size) if view.size is not None else None
            for k in names:
                if k not in o.comp:
                    continue
                old = o.comp[k]
                rng = old.sort().range()
                one = sz is not None and z3.is_int_value(sz) and sz.as_long() == 1
                osz = simp0(o.size)
                if one and not (z3.is_int_value(osz) and osz.as_long() == 1):
                    nv = z3.Store(old, view.ptr.off, fresh(str(o.name) + '.' + k, rng))
                elif one:
                    nv = z3.K(I, fresh(str(o.name) + '.' + k, rng))
                else:
                    nv = fresh(str(o.name) + '.' + k, old.sort())
                    off0 = z3.is_int_value(simp0(view.ptr.off)) and simp0(view.ptr.off).as_long() == 0
                    whole = off0 and sz is not None and sz.eq(osz)
                    if not whole and sz is not None:
                        lo, hi = view.ptr.off, view.ptr.off + sz
                        st.assume(forall(lambda q: Implies(Or(q < lo, q >= hi), z3.Select(nv, q) == z3.Select(old, q)),
                                         pats=lambda q: [z3.Select(nv, q)]))
                if not is_false(view.ptr.null) and not c.eng.qprove(st, Not(view.ptr.null)):
                    nv = If(view.ptr.null, old, nv)
                o.comp[k] = nv
        elif isinstance(view, CellView):
            pass        # written by out_*
        else:
            o = st.wobj(view.ptr.obj)
            for f in comps:
                v = o.fields[f]
                if z3.is_expr(v):
                    nv = fresh('%s.%s' % (o.name, f), v.sort())
                    if v.sort() == I:
                        t = dict(c.eng.tu.fields(o.rec)).get(f)
                        if t is not None and t.k == 'int':
                            lo, hi = t.range()
                            st.assume(And(nv >= lo, nv <= hi))
                    o.fields[f] = nv


def call_spec(spec, eng, st, vals, e):
    """handler used at call sites"""
    lib = eng.lib
    case = lib.pick_case(eng, st, spec, vals)
    if eng.contract is not None:
        for h in eng.contract.hooks.get(('before', spec.name), []):
            from .engine import LoopCtx
            h(LoopCtx(eng, st, st, -1), vals)
    c = Ctx(eng, st, 'call', list(vals), case, spec)
    outs = spec.fn(c)
    c.distinct_views()
    c.pre = st.copy()
    res = []
    if isinstance(outs, Outcome):
        outs = [outs]
    for oc in outs:
        s = st.copy()
        c.state = s
        if oc.when is not None:
            s.assume(oc.when() if callable(oc.when) else oc.when)
        if any(is_false(h) for h in s.pc[-2:]):
            continue
        if len(outs) > 1 and not eng.feasible(s):
            continue
        if not oc.nomod:
            havoc_mods(c, s)
        rc = RC(c, 'assume', s, None)
        rc.name = oc.name
        if isinstance(oc.result, int):
            rc.result = IV(oc.result)
        elif isinstance(oc.result, Ptr):
            rc.result = oc.result
        elif oc.result == 'int':
            v = fresh(spec.name + '.ret')
            ct = lib.ret_type(spec.name)
            lo, hi = ct.range()
            s.assume(And(v >= lo, v <= hi))
            rc.result = v
        elif oc.result == 'bool':
            rc.result = fresh(spec.name + '.ret', B)
        elif oc.result == 'f64':
            rc.result = fresh(spec.name + '.ret', F)
        if oc.ens is not None:
            oc.ens(rc)
        c.state = s
        if rc.result is None:
            rc.result = Opaque('void')
        eng.lib.auto_facts(eng, s)
        if eng.contract is not None:
            for h in eng.contract.hooks.get(('after', spec.name), []):
                from .engine import LoopCtx
                h(LoopCtx(eng, s, s, -1), vals, oc.name, c)
        res.append((s, rc.result))
    return res


def check_exit(c, outs, st, val):
    eng = c.eng
    if isinstance(outs, Outcome):
        outs = [outs]
    todo = []
    for oc in outs:
        if oc.result is None or isinstance(oc.result, str) and oc.result in ('int', 'bool', 'f64'):
            todo.append((oc, TRUE))
        elif isinstance(oc.result, int):
            v = val
            if z3.is_expr(v) and v.sort() == B:
                v = z3.If(v, IV(1), IV(0))
            if not z3.is_expr(v):
                raise Unsupported('return value %r' % (val,))
            todo.append((oc, simp0(v == oc.result)))
        elif isinstance(oc.result, Ptr):
            todo.append((oc, simp0(val.null) if isinstance(val, Ptr) else FALSE))
        elif oc.result == 'ptr':
            todo.append((oc, simp0(Not(val.null)) if isinstance(val, Ptr) else FALSE))
        else:
            raise Unsupported('outcome result')
    todo = [(o, g) for o, g in todo if not is_false(g)]
    cover = Or(*[g for o, g in todo]) if todo else FALSE
    if not is_true(simp0(cover)):
        eng.oblige(st, cover, 'post', 'the result is one of the specified outcomes')
    for oc, g in todo:
        s = st.copy()
        s.assume(g)
        if not is_true(g) and not eng.feasible(s):
            continue
        c.state = s
        rc = RC(c, 'check', s, val)
        rc.name = oc.name
        if oc.when is not None:
            w = oc.when() if callable(oc.when) else oc.when
            rc.ens('this outcome is the specified one', w)
        if oc.ens is not None:
            oc.ens(rc)
        frame_check(c, s, rc, oc)


def frame_check(c, st, rc, oc):
    eng = c.eng
    if c.no_frame:
        return
    mods = {} if oc.nomod else {}
    fm = {}
    cells = set()
    if not oc.nomod:
        for view, comps in c.mods:
            if isinstance(view, View):
                mods.setdefault(view.ptr.obj, []).append((view, comps))
            elif isinstance(view, CellView):
                cells.add(view.ptr.obj)
            else:
                fm.setdefault(view.ptr.obj, set()).update(comps)
    for oid, o in c.pre.heap.items():
        p = st.heap.get(oid)
        if p is None:
            continue
        if o.cls == 'heap' and oid not in rc.freedset and not same_b(o.alive, p.alive):
            eng.oblige(st, Implies(o.alive, p.alive), 'frame', '%s is not released' % o.name)
        if p is o or oid in rc.freedset:
            continue
        ms = mods.get(oid, [])
        for k in o.comp:
            if k not in p.comp:
                continue
            a, b = o.comp[k], p.comp[k]
            if a.eq(b):
                continue
            mine = [v for v, comps in ms if not comps or k in comps]
            sz = simp0(o.size) if o.size is not None else None
            whole = False
            rng = []
            for v in mine:
                vs = simp0(v.size) if v.size is not None else None
                if vs is None or (vs.eq(sz) and simp0(v.ptr.off).eq(IV(0))):
                    whole = True
                else:
                    rng.append((v.ptr.off, v.ptr.off + vs))
            if whole:
                continue
            q = fresh('q')
            g = And(q >= 0, q < o.size) if o.size is not None else TRUE
            goal = Implies(And(g, *[Or(q < lo, q >= hi) for lo, hi in rng]), z3.Select(a, q) == z3.Select(b, q))
            eng.oblige(st, goal, 'frame', '[%s] %s%s is not modified' % (oc.name, o.name, '' if k == 'val' else '.' + k))
        for f, v in o.fields.items():
            if f in ('undef', 'items'):
                continue
            w = p.fields.get(f)
            if o.kind == 'cell':
                if oid in cells:
                    continue
                if isinstance(v, Undef) and isinstance(w, Undef):
                    continue
            from .engine import same
            if w is None or same(v, w) or f in fm.get(oid, ()):
                continue
            if z3.is_expr(v) and z3.is_expr(w) and v.sort() == w.sort():
                eng.oblige(st, v == w, 'frame', '[%s] %s->%s is not modified' % (oc.name, o.name, f))
            elif isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj == w.obj:
                eng.oblige(st, And(v.null == w.null, v.off == w.off), 'frame', '[%s] %s->%s is not modified' % (oc.name, o.name, f))
            else:
                eng.oblige(st, FALSE, 'frame', '[%s] %s->%s is not modified' % (oc.name, o.name, f))
    # leaks
    for oid, o in st.heap.items():
        if oid in c.pre.heap or o.cls != 'heap' or oid in rc.owned or is_false(o.alive) or is_false(o.exist):
            continue
        if o.parent is not None:
            continue
        eng.oblige(st, Not(o.alive), 'leak', '[%s] block %s is released' % (oc.name, o.name))


def same_b(a, b):
    return a is b or (z3.is_expr(a) and z3.is_expr(b) and a.eq(b))
