"""Symbolic heap, verification-condition generator.

Memory is a heap of disjoint typed objects (the separation between distinct
objects is part of every contract's footprint and is checked at every call
site).  Integers are mathematical with an explicit no-overflow obligation for
every signed operation and exact mod-2^w semantics for unsigned ones.
"""
import z3
import itertools
from .cfront import *

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
F = z3.DeclareSort('F64')          # abstract doubles
FR = z3.DeclareSort('MPFRval')     # abstract mpfr values
IV = z3.IntVal
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

_ctr = itertools.count()


def fresh(name, sort=I):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)


def arrsort(s):
    return z3.ArraySort(I, s)


def is_true(x):
    return x is True or (z3.is_expr(x) and z3.is_true(x))


def is_false(x):
    return x is False or (z3.is_expr(x) and z3.is_false(x))


def And(*xs):
    xs = [x for x in xs if not is_true(x)]
    if any(is_false(x) for x in xs):
        return FALSE
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not is_false(x)]
    if any(is_true(x) for x in xs):
        return TRUE
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if is_true(x):
        return FALSE
    if is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return TRUE
    return z3.Implies(a, b)


def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    return z3.If(c, a, b)


_qc = itertools.count()


def forall(f, n=1, pats=None, names=None):
    """forall(lambda k: ..., pats=lambda k: [..])"""
    vs = [z3.Const('q%d' % next(_qc), I) for _ in range(n)]
    body = f(*vs)
    if is_true(body):
        return TRUE
    if pats is not None:
        ps = [p for p in pats(*vs) if goodpat(p, vs)]
        if not ps:
            return z3.ForAll(vs, body)
        ps = [z3.MultiPattern(*p) if isinstance(p, (tuple,)) else p for p in ps]
        try:
            return z3.ForAll(vs, body, patterns=ps)
        except z3.Z3Exception:
            return z3.ForAll(vs, body)
    return z3.ForAll(vs, body)


def goodpat(p, vs):
    es = p if isinstance(p, tuple) else (p,)
    want = {v.get_id() for v in vs}
    seen = set()
    stack = list(es)
    for e in es:
        if not z3.is_app(e) or e.num_args() == 0 or e.decl().kind() not in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
            return False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        want.discard(x.get_id())
        if z3.is_quantifier(x) or z3.is_app_of(x, z3.Z3_OP_ITE):
            return False
        if x.sort() == B and not any(x is e for e in es) and not x.get_id() in want:
            return False
        stack.extend(x.children())
    return not want


def exists(f, n=1):
    vs = [z3.Const('q%d' % next(_qc), I) for _ in range(n)]
    return z3.Exists(vs, f(*vs))


_hasq = {}


def has_quant(e):
    i = e.get_id()
    if i in _hasq:
        return _hasq[i][0]
    r = False
    if z3.is_quantifier(e):
        r = True
    else:
        for c in e.children():
            if has_quant(c):
                r = True
                break
    _hasq[i] = (r, e)
    return r


# --------------------------------------------------------------------------- values
class Ptr:
    """pointer: object id (None: NULL), element offset, null condition, sub ('', 'num', 'den')"""
    __slots__ = ('obj', 'off', 'null', 'sub', 'cast')

    def __init__(self, obj, off=None, null=FALSE, sub=''):
        self.obj = obj
        self.off = IV(0) if off is None else off
        self.null = TRUE if obj is None else null
        self.sub = sub

    def __repr__(self):
        return 'Ptr(%s,%s,null=%s%s)' % (self.obj, self.off, self.null, self.sub)


NULL = Ptr(None)


class FnPtr:
    def __init__(self, name, null=FALSE):
        self.name, self.null = name, null


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Str:
    def __init__(self, s):
        self.s = s


class MpD:
    """value of (x)->_mp_d"""

    def __init__(self, null):
        self.null = null


class Opaque:
    """value we know nothing about (and that is never inspected)"""

    def __init__(self, why=''):
        self.why = why


COMPS = {
    'i': ('val',), 'p': ('val',),
    'z': ('val', 'st'),
    'q': ('val', 'pn', 'pd', 'st', 'sd'),
    'f': ('val', 'st', 'prec'),
}


class Obj:
    """kind: 'arr' (elem CT int/f64), 'mp' (elem MPZ/MPQ/MPFR), 'struct', 'cell' (one pointer), 'raw' (untyped block)"""
    __slots__ = ('kind', 'elem', 'size', 'alive', 'cls', 'comp', 'name', 'fields', 'bytes', 'exist', 'rec', 'zero',
                 'parent', 'ro')

    def __init__(self, kind, **kw):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kind = kind
        self.alive = TRUE
        self.comp = {}
        self.fields = {}
        self.exist = TRUE
        for k, v in kw.items():
            setattr(self, k, v)

    def copy(self):
        o = Obj(self.kind)
        for s in self.__slots__:
            setattr(o, s, getattr(self, s))
        o.comp = dict(self.comp)
        o.fields = dict(self.fields)
        return o


def elem_sort(ct):
    if ct.k == 'f64':
        return F
    return I


def elem_bytes(ct):
    if ct.k == 'int':
        return ct.bits // 8
    if ct.k == 'f64':
        return 8
    if ct.k == 'ptr':
        return 8
    if ct.k == 'mp':
        return {'z': 16, 'q': 32, 'f': 32}[ct.name]
    raise Unsupported('sizeof ' + repr(ct))


class State:
    __slots__ = ('frames', 'heap', 'pc', 'globals', 'ghost', 'trace', 'dead')

    def __init__(self):
        self.frames = [{}]
        self.heap = {}
        self.pc = ()
        self.globals = {}
        self.ghost = {}
        self.trace = ()
        self.dead = False

    def copy(self):
        s = State()
        s.frames = [dict(f) for f in self.frames]
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.globals = dict(self.globals)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s

    def assume(self, f):
        if f is None or is_true(f):
            return self
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return self
        self.pc = self.pc + (f,)
        return self

    def wobj(self, oid):
        o = self.heap[oid].copy()
        self.heap[oid] = o
        return o

    def new(self, obj, name='o'):
        oid = '%s#%d' % (name, next(_ctr))
        obj.name = obj.name or name
        self.heap[oid] = obj
        return oid


# abstract double operations
def ffun(name, n):
    return z3.Function('d_' + name, *([F] * n + [F]))


def fpred(name):
    return z3.Function('d_' + name, F, F, B)


I2D = z3.Function('i2d', I, F)
D2I = z3.Function('d2i', F, I)
SIZ = z3.Function('mp_siz', I, I)
QNUM = z3.Function('q_num', R, I)
QDEN = z3.Function('q_den', R, I)
FSGN = z3.Function('fr_siz', FR, I)


def fconst(v):
    if float(v).is_integer() and abs(float(v)) < 2 ** 53:
        return I2D(IV(int(float(v))))
    return z3.Const('dlit_' + str(v), F)


class Obl:
    __slots__ = ('fn', 'case', 'desc', 'line', 'hyps', 'goal', 'kind', 'status', 'backend', 'time', 'info', 'hints', 'prop')

    def __init__(self, fn, case, kind, desc, line, hyps, goal):
        self.fn, self.case, self.kind, self.desc, self.line = fn, case, kind, desc, line
        self.hyps, self.goal = hyps, goal
        self.status, self.backend, self.time, self.info, self.hints = None, None, 0.0, '', None

    def name(self):
        return '%s%s:%s:%s@%s' % (self.fn, '[' + self.case + ']' if self.case else '', self.kind, self.desc, self.line)
