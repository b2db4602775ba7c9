"""C front end: clang's typed AST of the *current* source, extracted on every run.

Nothing of the code is hand-copied: each translation unit of /repo is given to
clang (-ast-dump=json, same include paths and defines as the Makefiles) and the
function bodies found there are what the verification-condition generator
executes.  What the extraction drops: comments, attributes, and everything the
preprocessor removes (`#if 0` blocks, MATLAB/DEBUG branches).
"""
import json, os, subprocess, hashlib, re

REPO = os.environ.get('VERIF_REPO', '/repo')
INC = ['SLIP_LU/Include', 'SLIP_LU/Source', 'SuiteSparse_config', 'AMD/Include', 'COLAMD/Include']


class Unsupported(Exception):
    pass


class CT:
    """C type: k in int,ptr,struct,void,f64,arr,func,mp"""
    __slots__ = ('k', 'bits', 'signed', 'to', 'name', 'n')

    def __init__(self, k, bits=0, signed=True, to=None, name=None, n=None):
        self.k, self.bits, self.signed, self.to, self.name, self.n = k, bits, signed, to, name, n

    def __repr__(self):
        if self.k == 'int':
            return ('i' if self.signed else 'u') + str(self.bits)
        if self.k == 'ptr':
            return repr(self.to) + '*'
        if self.k == 'arr':
            return '%r[%s]' % (self.to, self.n)
        return self.name or self.k

    def __eq__(self, o):
        return isinstance(o, CT) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    def range(self):
        if self.name == 'bool':
            return 0, 1
        if self.signed:
            return -(1 << (self.bits - 1)), (1 << (self.bits - 1)) - 1
        return 0, (1 << self.bits) - 1


I64 = CT('int', 64, True)
I32 = CT('int', 32, True)
U64 = CT('int', 64, False)
U32 = CT('int', 32, False)
BOOL = CT('int', 8, False, name='bool')
F64T = CT('f64', 64)
VOID = CT('void')
MPZ, MPQ, MPFR = CT('mp', name='z'), CT('mp', name='q'), CT('mp', name='f')
VOIDP = CT('ptr', to=VOID)

BASIC = {
    'long': I64, 'long long': I64, 'unsigned long': U64, 'unsigned long long': U64,
    'int': I32, 'unsigned int': U32, 'short': CT('int', 16, True), 'unsigned short': CT('int', 16, False),
    'char': CT('int', 8, True), 'signed char': CT('int', 8, True), 'unsigned char': CT('int', 8, False),
    '_Bool': BOOL, 'bool': BOOL, 'double': F64T, 'float': CT('f64', 32, name='float'), 'void': VOID,
    'size_t': U64, 'int64_t': I64, 'int32_t': I32, 'uint64_t': U64, 'uint32_t': U32,
    '__mpz_struct': MPZ, '__mpq_struct': MPQ, '__mpfr_struct': MPFR,
    'mpz_t': MPZ, 'mpq_t': MPQ, 'mpfr_t': MPFR,
    'mpz_ptr': CT('ptr', to=MPZ), 'mpz_srcptr': CT('ptr', to=MPZ),
    'mpq_ptr': CT('ptr', to=MPQ), 'mpq_srcptr': CT('ptr', to=MPQ),
    'mpfr_ptr': CT('ptr', to=MPFR), 'mpfr_srcptr': CT('ptr', to=MPFR),
    'mp_limb_t': U64, 'mp_ptr': CT('ptr', to=U64), 'mp_bitcnt_t': U64, 'mpfr_prec_t': I64,
    'mpfr_exp_t': I64, 'mpfr_sign_t': I32, 'mpfr_rnd_t': I32,
    'jmp_buf': CT('struct', name='jmp_buf'), 'FILE': CT('struct', name='FILE'),
    'va_list': CT('struct', name='va_list'), '__builtin_va_list': CT('struct', name='va_list'),
    'struct __jmp_buf_tag': CT('struct', name='jmp_buf'), '__jmp_buf_tag': CT('struct', name='jmp_buf'),
}


class TU:
    def __init__(self, path, defs=()):
        self.path = path
        self.defs = tuple(defs)
        cmd = ['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-D_GNU_SOURCE',
               '-DMPFR_USE_NO_MACRO']      # calls of the documented MPFR functions instead of mpfr.h's inline macros
        cmd += ['-I' + os.path.join(REPO, i) for i in INC]
        cmd += list(defs) + [os.path.join(REPO, path)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise Unsupported('clang failed on %s: %s' % (path, r.stderr.decode()[:500]))
        d = json.loads(r.stdout)
        self.typedefs, self.records, self.enums = {}, {}, {}
        self.funcs, self.globals = {}, {}
        self.enum_types = {}
        self.recby_id = {}
        self._tcache = {}
        self.fn_lines = {}
        self.protos = {}
        last_enum = None
        for x in d['inner']:
            k = x.get('kind')
            if k == 'TypedefDecl':
                self.typedefs[x['name']] = x
                t = x['type'].get('qualType', '')
                self._own(x)
            elif k == 'RecordDecl':
                self.recby_id[x['id']] = x
                if x.get('completeDefinition') or x.get('inner'):
                    if x.get('name'):
                        self.records[x['name']] = x
            elif k == 'EnumDecl':
                v = 0
                neg = False
                for e in x.get('inner', []):
                    if e.get('kind') != 'EnumConstantDecl':
                        continue
                    if e.get('inner'):
                        val = _constval(e['inner'][0])
                        if val is not None:
                            v = val
                    self.enums[e['name']] = v
                    neg = neg or v < 0
                    v += 1
                self.enum_types[x['id']] = I32 if neg else U32
                if x.get('name'):
                    self.enum_types[x['name']] = I32 if neg else U32
            elif k == 'FunctionDecl':
                body = [c for c in x.get('inner', []) if c.get('kind') == 'CompoundStmt']
                self.protos[x['name']] = x
                if body:
                    self.funcs[x['name']] = x
            elif k == 'VarDecl':
                if x['name'] not in self.globals or x.get('inner'):
                    self.globals[x['name']] = x

    def _own(self, x):
        # find owned tag decl of a typedef of an anonymous struct/enum
        for c in x.get('inner', []):
            o = c.get('ownedTagDecl') or (c.get('decl') if c.get('kind') in ('RecordType', 'EnumType') else None)
            if o:
                if o['kind'] == 'EnumDecl':
                    self.enum_types['td:' + x['name']] = self.enum_types.get(o['id'], U32)
                elif o['kind'] == 'RecordDecl' and o['id'] in self.recby_id:
                    self.records.setdefault(x['name'], self.recby_id[o['id']])
            for cc in c.get('inner', []):
                self._own({'name': x['name'], 'inner': [cc]})
                o = cc.get('decl')

    def ctype(self, t):
        """t: the AST 'type' dict or string"""
        if isinstance(t, dict):
            q = t.get('qualType')
            r = self._ct(q, quiet=True)
            if r is None and 'desugaredQualType' in t:
                r = self._ct(t['desugaredQualType'], quiet=True)
            if r is None:
                raise Unsupported('type ' + q)
            return r
        return self._ct(t)

    def _ct(self, s, quiet=False):
        if s in self._tcache:
            return self._tcache[s]
        r = self._ct0(s.strip())
        if r is None and not quiet:
            raise Unsupported('type ' + s)
        if r is not None:
            self._tcache[s] = r
        return r

    def _ct0(self, s):
        s = re.sub(r'\b(const|volatile|restrict|__restrict|register)\b', '', s).strip()
        s = re.sub(r'\s+', ' ', s)
        m = re.match(r'^(.*)\[(\d*)\]$', s)
        if m and '(' not in s:
            base = m.group(1).strip()
            e = self._ct0(base)
            if e is None:
                return None
            if e.k == 'mp' and base.startswith('__mp') and m.group(2) == '1':
                return e
            if e.k == 'struct' and e.name in ('jmp_buf', 'va_list'):
                return e
            return CT('arr', to=e, n=int(m.group(2)) if m.group(2) else None)
        if s.endswith('*'):
            e = self._ct0(s[:-1])
            return None if e is None else CT('ptr', to=e)
        if '(*)' in s or re.search(r'\(\*', s):
            return CT('ptr', to=CT('func'))
        if '(' in s and not s.startswith('struct (') and 'unnamed' not in s and 'anonymous' not in s:
            return CT('func')
        if s in BASIC:
            return BASIC[s]
        if s.startswith('enum '):
            return self.enum_types.get(s[5:], U32)
        if s.startswith('struct '):
            n = s[7:]
            return CT('struct', name=n)
        if s.startswith('union '):
            return CT('struct', name=s)
        if 'td:' + s in self.enum_types:
            return self.enum_types['td:' + s]
        if s in self.typedefs:
            q = self.typedefs[s]['type']
            qt = q.get('desugaredQualType') or q.get('qualType')
            if qt != s and not qt.startswith('struct (') and 'unnamed' not in qt and 'anonymous' not in qt:
                return self._ct0(qt)
            return CT('struct', name=s)
        if s in self.records:
            return CT('struct', name=s)
        return None

    def fields(self, name):
        """ordered (field, CT) of a struct; anonymous unions give ('x', dict)"""
        rec = self.records.get(name)
        if rec is None and name in self.typedefs:
            q = self.typedefs[name]['type'].get('qualType', '')
            m = re.match(r'struct (\w+)', q)
            if m:
                rec = self.records.get(m.group(1))
        if rec is None:
            raise Unsupported('struct ' + str(name))
        out = []
        usize = 8
        for f in rec.get('inner', []):
            if f.get('kind') == 'RecordDecl' and f.get('tagUsed') == 'union':
                usize = 0
                for g in f.get('inner', []):
                    if g.get('kind') == 'FieldDecl':
                        t = self._ct(g['type'].get('desugaredQualType') or g['type'].get('qualType'), quiet=True)
                        usize = max(usize, t.bits // 8 if t is not None and t.k in ('int', 'f64') else 8)
            if f.get('kind') == 'FieldDecl':
                q = f['type'].get('qualType', '')
                if 'union' in q:
                    out.append((f['name'], CT('struct', name='union', n=usize)))
                else:
                    out.append((f['name'], self.ctype(f['type'])))
        return out


def _constval(e):
    if e.get('kind') == 'ConstantExpr' and 'value' in e:
        try:
            return int(e['value'])
        except ValueError:
            return None
    if e.get('kind') == 'IntegerLiteral':
        return int(e['value'])
    for c in e.get('inner', []):
        v = _constval(c)
        if v is not None:
            if e.get('kind') == 'UnaryOperator' and e.get('opcode') == '-':
                return -v
            return v
    return None


_tus = {}


def get_tu(path, defs=()):
    key = (path, tuple(defs))
    if key not in _tus:
        _tus[key] = TU(path, defs)
    return _tus[key]


def line_of(n):
    r = n.get('range', {}).get('begin', {})
    for k in ('expansionLoc', 'spellingLoc'):
        if k in r and 'line' in r[k]:
            return r[k]['line']
    return r.get('line')


def annotate_lines(fn):
    """clang omits repeated line numbers; propagate in document order"""
    cur = [None]

    def loc(d):
        if not isinstance(d, dict):
            return
        if 'expansionLoc' in d:
            # spelling first in dump order, then expansion
            if 'line' in d.get('spellingLoc', {}):
                cur[0] = d['spellingLoc']['line']
            if 'line' in d['expansionLoc']:
                cur[0] = d['expansionLoc']['line']
            return cur[0]
        if 'line' in d:
            cur[0] = d['line']
        return cur[0]

    def walk(n):
        if not isinstance(n, dict):
            return
        if 'loc' in n:
            loc(n['loc'])
        if 'range' in n:
            b = loc(n['range'].get('begin', {}))
            n['_line'] = b
            loc(n['range'].get('end', {}))
        for c in n.get('inner', []):
            walk(c)
    walk(fn)
