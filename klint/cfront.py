"""C front end: clang's syntax tree of an extension module, its type layouts and tables, and a path-sensitive abstract interpreter for its functions.

The interpreter follows every path of a function (file-local functions are followed into), with symbolic values over the same terms as the Python engine.
API calls that can fail are followed both ways.  On the way it poses obligations: no NULL dereference, every access inside its allocation, no division by
zero, every reference and allocation released exactly once, errors reported.  Loops are summarised: quantities that change by a constant in every iteration
become exact functions of the iteration number, everything else that changes is unknown except for declared invariants that are preserved.
"""
import json
import os
import re
import shutil
import subprocess

from .engine import C, is_const, show
from .lin import Lin, Sys
from .model import AnalysisBroken

NULL = C(0)
STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cstub')
SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, '_Bool': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'unsigned': 4,
         'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8, 'long double': 16, 'void': 1}
UNSIGNED = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned': 32, 'unsigned long': 64, 'unsigned long long': 64}
SIGNED = {'signed char': 8, 'char': 8, 'short': 16, 'int': 32, 'long': 64, 'long long': 64}
FLOAT = {'double', 'float', 'long double'}


class Unsupported(Exception):
    pass


class TooMany(Exception):
    pass


def clang():
    return shutil.which('clang') or shutil.which('clang-18') or '/usr/bin/clang'


class Unit:
    """A parsed translation unit."""

    def __init__(self, root, path):
        self.path, self.rel = path, os.path.relpath(path, root)
        try:
            r = subprocess.run([clang(), '-fsyntax-only', '-w', '-Wno-everything', '-fparse-all-comments', '-Xclang', '-ast-dump=json', '-I' + STUB, path],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except (OSError, subprocess.SubprocessError) as e:
            raise AnalysisBroken('clang: %s' % e)
        self.errors = r.stderr.decode(errors='replace')
        if r.returncode or not r.stdout:
            raise Unsupported('the stub headers do not fit %s: %s' % (self.rel, self.errors[:300]))
        tree = json.loads(r.stdout)
        with open(path, 'rb') as f:
            self.text = f.read()
        self.funcs, self.vars, self.records, self.typedefs, self.enums, self.decls = {}, {}, {}, {}, {}, {}
        self.cur = ['', 0]
        self.stamp(tree)
        for n in tree['inner']:
            k = n.get('kind')
            if 'id' in n:
                self.decls[n['id']] = n
            if k == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                self.funcs[n['name']] = n
            elif k == 'VarDecl':
                if n['name'] not in self.vars or n.get('init'):
                    self.vars[n['name']] = n
            elif k == 'RecordDecl' and n.get('completeDefinition'):
                self.records[n['id']] = n
            elif k == 'TypedefDecl':
                self.typedefs[n['name']] = n
            elif k == 'EnumDecl':
                v = -1
                for c in n.get('inner', []):
                    if c.get('kind') == 'EnumConstantDecl':
                        x = const_value(c)
                        v = v + 1 if x is None else x
                        self.enums[c['id']] = (c['name'], v)
        self.named = {}
        for n in self.typedefs.values():
            for r in self.refs(n):
                if r in self.records:
                    self.named[n['name']] = self.records[r]
        for n in self.records.values():
            if n.get('name'):
                self.named['struct ' + n['name']] = n
        self.layouts = {}

    def refs(self, n):
        for c in n.get('inner', []):
            for k in ('ownedTagDecl', 'decl'):
                if k in c and 'id' in c[k]:
                    yield c[k]['id']
            yield from self.refs(c)

    def stamp(self, n):
        """clang leaves out repeated file and line: put the line of every position back."""
        if isinstance(n, list):
            for c in n:
                self.stamp(c)
            return
        if not isinstance(n, dict):
            return
        if 'offset' in n and 'col' in n:
            if 'file' in n:
                self.cur[0] = n['file']
            if 'line' in n:
                self.cur[1] = n['line']
            n['line'] = self.cur[1]
            return
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                self.stamp(v)

    def line(self, n):
        b = n.get('range', {}).get('begin', {})
        b = b.get('expansionLoc', b)
        return b.get('line', 0)

    def where(self, n):
        return '%s:%d' % (self.rel, self.line(n))

    def source(self, n):
        b, e = n.get('range', {}).get('begin', {}), n.get('range', {}).get('end', {})
        b, e = b.get('expansionLoc', b), e.get('expansionLoc', e)
        if 'offset' not in b or 'offset' not in e:
            return ''
        return self.text[b['offset']:e['offset'] + e.get('tokLen', 1)].decode(errors='replace')

    # ---------------------------------------------------------------- types
    def ctype(self, n):
        t = n.get('type', {})
        return self.strip(t.get('desugaredQualType', t.get('qualType', '')))

    def strip(self, q):
        q = ' '.join(w for w in q.replace('*', ' * ').split() if w not in ('const', 'volatile', 'restrict', '__restrict', 'static', 'register'))
        q = q.replace(' *', '*').replace('* ', '*')
        if q in self.typedefs and q not in self.named:
            t = self.typedefs[q].get('type', {})
            r = t.get('desugaredQualType', t.get('qualType', ''))
            if r != q and not r.startswith(('enum', '(unnamed')):
                return self.strip(r)
        return q

    def sizeof(self, q):
        q = self.strip(q)
        if q.endswith('*') or '(*' in q:
            return 8
        if q.endswith(']'):
            i = q.rindex('[')
            n = q[i + 1:-1]
            return self.sizeof(q[:i].strip()) * int(n) if n.isdigit() else 0
        if q in SIZES:
            return SIZES[q]
        if q.startswith('enum '):
            return 4
        if q in self.named:
            return self.layout(q)['#size']
        if q in self.typedefs:
            d = self.typedefs[q].get('type', {})
            x = d.get('desugaredQualType', d.get('qualType', ''))
            if self.strip(x) == q or x.startswith(('enum', '(unnamed enum')):
                return 4
            return self.sizeof(x)
        raise Unsupported('size of %s' % q)

    def align(self, q):
        q = self.strip(q)
        if q.endswith(']'):
            return self.align(q[:q.rindex('[')].strip())
        if q in self.named:
            return self.layout(q)['#align']
        return max(1, min(16, self.sizeof(q)))

    def layout(self, q):
        """Field name -> (offset, size, type), '#size', '#align'."""
        rec = self.named[self.strip(q)]
        if rec['id'] not in self.layouts:
            out, off, al = {}, 0, 1
            for c in rec.get('inner', []):
                if c.get('kind') == 'FieldDecl':
                    if c.get('isBitfield') or rec.get('tagUsed') == 'union':
                        raise Unsupported('layout of %s' % q)
                    t = self.ctype(c)
                    a, s = self.align(t), self.sizeof(t)
                    off = (off + a - 1) // a * a
                    out[c.get('name', '')] = (off, s, t)
                    off += s
                    al = max(al, a)
            out['#size'], out['#align'] = (off + al - 1) // al * al, al
            self.layouts[rec['id']] = out
        return self.layouts[rec['id']]

    def isstruct(self, q):
        return self.strip(q) in self.named

    # ---------------------------------------------------------------- tables
    def table(self, name):
        """Initial value of a global variable as nested lists / dicts of expressions."""
        n = self.vars.get(name)
        init = next((c for c in (n or {}).get('inner', []) if c.get('kind') not in ('FullComment',) and not c.get('kind', '').endswith('Attr')), None)
        return None if init is None else self.lit(init)

    def lit(self, n):
        n = peel(n)
        k = n['kind']
        if k == 'InitListExpr':
            t = self.ctype(n)
            items = [c for c in (n.get('inner') or n.get('array_filler', [])[1:])]
            if t in self.named:
                names = [c.get('name') for c in self.named[t].get('inner', []) if c.get('kind') == 'FieldDecl']
                return {a: self.lit(b) for a, b in zip(names, items)}
            return [self.lit(c) for c in items]
        if k == 'ImplicitValueInitExpr':
            return {} if self.ctype(n) in self.named else ('int', 0)
        if k == 'StringLiteral':
            return ('str', n.get('value', '""')[1:-1])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['id'] in self.enums:
                return ('int', self.enums[d['id']][1])
            return ('ref', d['name'])
        if k == 'UnaryOperator' and n['opcode'] == '&':
            return self.lit(n['inner'][0])
        if k == 'OffsetOfExpr':
            b = n.get('range', {}).get('begin', {})
            b = b.get('expansionLoc', b).get('offset', 0)
            t = re.match(rb'\w+\s*\(\s*([^,()]+?)\s*,\s*(\w+)\s*\)', self.text[b:b + 400])
            return ('offset', 'offsetof(%s, %s)' % (t.group(1).decode(), t.group(2).decode()) if t else '')
        if k == 'UnaryExprOrTypeTraitExpr' and n.get('name') == 'sizeof':
            try:
                return ('int', self.sizeof((n.get('argType') or n['inner'][0]['type']).get('qualType')))
            except Unsupported:
                return ('?', n)
        v = const_value(n)
        if v is not None:
            return ('int', v)
        return ('?', n)

    def types(self):
        """Type objects of the module: name of the variable -> slots."""
        return {v: self.table(v) for v, n in self.vars.items() if self.ctype(n) in ('PyTypeObject', 'struct _typeobject') and n.get('init')}

    def rows(self, ref):
        """Rows of a table another table refers to."""
        if not ref or ref[0] != 'ref':
            return []
        t = self.table(ref[1])
        return t if isinstance(t, list) else []


def peel(n):
    while n.get('kind') in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr', 'FullExpr') and n.get('inner'):
        n = n['inner'][-1]
    return n


def const_value(n):
    """Value of a constant expression."""
    k = n.get('kind')
    if k == 'IntegerLiteral':
        return int(n['value'])
    if k == 'CharacterLiteral':
        return int(n['value'])
    if k == 'FloatingLiteral':
        return float(n['value'])
    if k == 'ConstantExpr' and 'value' in n:
        try:
            return int(n['value'])
        except ValueError:
            return None
    if k == 'EnumConstantDecl':
        for c in n.get('inner', []):
            v = const_value(c)
            if v is not None:
                return v
        return None
    if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr'):
        return const_value(n['inner'][-1])
    if k == 'UnaryOperator' and n['opcode'] in '-+~!':
        v = const_value(n['inner'][0])
        if v is None:
            return None
        return {'-': lambda: -v, '+': lambda: v, '~': lambda: ~v, '!': lambda: int(not v)}[n['opcode']]()
    if k == 'BinaryOperator':
        a, b = const_value(n['inner'][0]), const_value(n['inner'][1])
        if a is None or b is None:
            return None
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '|': lambda: a | b, '&': lambda: a & b, '<<': lambda: a << b,
                    '>>': lambda: a >> b, '/': lambda: a // b if isinstance(a, int) and isinstance(b, int) else a / b}[n['opcode']]()
        except (KeyError, TypeError, ZeroDivisionError, ValueError):
            return None
    return None


# -------------------------------------------------------------------- interpreter
class St:
    __slots__ = ('mem', 'log', 'facts', 'dfacts', 'res', 'err', 'events', 'n', 'und', 'known', 'K')

    def __init__(self):
        self.mem, self.log, self.facts, self.dfacts, self.res = {}, [], {}, {}, {}
        self.err = 'clear'
        self.events, self.und, self.known = [], [], {}
        self.n = 0
        self.K = ()

    def copy(self):
        o = St()
        o.mem, o.log, o.facts, o.dfacts = dict(self.mem), list(self.log), dict(self.facts), dict(self.dfacts)
        o.res = {k: dict(v) for k, v in self.res.items()}
        o.err, o.events, o.und, o.known, o.n, o.K = self.err, list(self.events), list(self.und), dict(self.known), self.n, self.K
        return o


class CEv:
    def __init__(self, kind, node, where, **kw):
        self.kind, self.node, self.where = kind, node, where
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s@%s' % (self.kind, self.where)


class CPath:
    def __init__(self, st, value, kind):
        self.st, self.value, self.kind = st, value, kind        # kind: 'ret', 'exit'


class Obl:
    __slots__ = ('rule', 'verdict', 'text', 'where', 'func')

    def __init__(self, rule, verdict, text, where, func):
        self.rule, self.verdict, self.text, self.where, self.func = rule, verdict, text, where, func


NEWREF = {'PyArray_FROM_O', 'PyArray_FROM_OT', 'PyArray_FROM_OF', 'PyArray_FROM_OTF', 'PyArray_FROMANY', 'PyArray_ContiguousFromAny',
          'PyArray_ContiguousFromObject', 'PyArray_FromAny', 'PyArray_SimpleNew', 'PyArray_ZEROS', 'PyArray_EMPTY', 'PyArray_Zeros', 'PyArray_NewCopy',
          'PyArray_NewLikeArray', 'PyArray_GETCONTIGUOUS', 'PyArray_Cast', 'PyFloat_FromDouble', 'PyLong_FromLong', 'PyLong_FromLongLong',
          'PyLong_FromUnsignedLong', 'PyLong_FromSsize_t', 'PyLong_FromSize_t', 'PyLong_FromDouble', 'PyUnicode_FromString', 'PyUnicode_FromFormat',
          'Py_BuildValue', 'PyNumber_Float', 'PyNumber_Long', 'PyNumber_Index', 'PyModule_Create', 'PyObject_GetAttrString', 'PyObject_GetAttr',
          'PyObject_Call', 'PyObject_CallObject', 'PyTuple_New', 'PyType_GenericAlloc', 'PyType_GenericNew', 'PyArray_SimpleNewFromData'}
NOFAIL_NEW = {'PyBool_FromLong', 'klint_return_None', 'klint_return_True', 'klint_return_False'}
INTFAIL = {'PyModule_AddObject', 'PyModule_AddObjectRef', 'PyModule_AddType', 'PyModule_AddIntConstant', 'PyModule_AddStringConstant', 'PyType_Ready',
           '_import_array', 'PyArray_CopyInto', 'PyArray_SetBaseObject'}
NUMFAIL = {'PyLong_AsLong', 'PyLong_AsLongLong', 'PyLong_AsUnsignedLong', 'PyLong_AsSize_t', 'PyLong_AsSsize_t', 'PyFloat_AsDouble', 'PyLong_AsDouble',
           'PyNumber_AsSsize_t', 'PyTuple_Size'}
PURE = {'fmin', 'fmax', 'exp', 'log', 'pow', 'sqrt', 'fabs', 'floor', 'ceil', 'sin', 'cos', 'tan', 'log2', 'log10', 'log1p', 'expm1', 'fmod', 'abs', 'exp2',
        'tanh', 'cbrt', 'round', 'lround', 'isnan', 'isinf', 'isfinite', '__builtin_expect', 'strlen', 'fminf', 'fmaxf', 'expf', 'logf', 'fma', 'copysign'}
SILENT = {'perror', 'printf', 'fprintf', 'puts', 'putchar', 'fflush', 'fputs'}
CHECKS = {'PyFloat_Check', 'PyFloat_CheckExact', 'PyNumber_Check', 'PyLong_Check', 'PyLong_CheckExact', 'PyBool_Check', 'PyUnicode_Check', 'PyTuple_Check',
          'PyCallable_Check', 'PyArray_Check', 'PyArray_CheckExact', 'PyErr_ExceptionMatches'}
ARRAYFACT = {'PyArray_NDIM', 'PyArray_DIMS', 'PyArray_SHAPE', 'PyArray_DATA', 'PyArray_BYTES', 'PyArray_SIZE', 'PyArray_TYPE', 'PyArray_FLAGS',
             'PyArray_ITEMSIZE', 'PyArray_ISCONTIGUOUS', 'PyArray_IS_C_CONTIGUOUS', 'PyArray_STRIDES', 'PyArray_NBYTES', 'PyArray_DIM', 'PyArray_STRIDE'}
ALLOC = {'malloc': 'free', 'calloc': 'free', 'PyMem_Malloc': 'PyMem_Free', 'PyMem_Calloc': 'PyMem_Free', 'PyMem_RawMalloc': 'PyMem_RawFree',
         'PyMem_RawCalloc': 'PyMem_RawFree', 'PyObject_Malloc': 'PyObject_Free'}
FREE = {'free', 'PyMem_Free', 'PyMem_RawFree', 'PyObject_Free'}
FORMAT = {'i': (4, 'int'), 'I': (4, 'int'), 'p': (4, 'int'), 'd': (8, 'flt'), 'f': (4, 'flt'), 'n': (8, 'int'), 'l': (8, 'int'), 'k': (8, 'int'),
          'L': (8, 'int'), 'K': (8, 'int'), 'h': (2, 'int'), 'H': (2, 'int'), 'b': (1, 'int'), 'B': (1, 'int'), 'O': (8, 'obj'), 's': (8, 'ptr'),
          'z': (8, 'ptr'), 'U': (8, 'obj')}
MEMBER = {0: 2, 1: 4, 2: 8, 3: 4, 4: 8, 5: 8, 6: 8, 7: 1, 8: 1, 9: 1, 10: 2, 11: 4, 12: 8, 14: 1, 16: 8, 17: 8, 18: 8, 19: 8}


def canon(t):
    """Integer terms in a normal form: sums of products sorted."""
    l = Sys().lin(t)
    out = None
    for a, v in sorted(l.c.items(), key=lambda x: repr(x[0])):
        if getattr(v, 'denominator', 1) != 1:
            return t
        x = a if v == 1 else ('op', '*', (C(int(v)), a))
        out = x if out is None else ('op', '+', (out, x))
    k = int(l.k)
    if out is None:
        return C(k)
    return out if not k else ('op', '+', (out, C(k)))


def canon_lin(l):
    out = C(int(l.k))
    for a, v in l.c.items():
        out = ('op', '+', (out, a if v == 1 else ('op', '*', (C(int(v)), a))))
    return canon(out)


def plus(a, b):
    return canon(('op', '+', (a, b)))


def minus(a, b):
    return canon(('op', '-', (a, b)))


def times(a, b):
    return canon(('op', '*', (a, b)))


class CInterp:
    MAXPATHS = 3000

    def __init__(self, unit, opaque=(), invariants=None, typedealloc=None):
        self.u = unit
        self.opaque = set(opaque)
        self.obls = []
        self.quiet = 0
        self.invariants = invariants          # fn(interp, st, where) -> list of (key, rel, a, b); the object invariants at a state
        self.dealloc = typedealloc or {}      # name of the type -> dealloc function
        self.current = ''
        self.steps = 0
        self.assumed = {}                     # invariants given up at some loop
        self.visited = set()
        self.depth = 0
        self.kn = 0
        self.selftype = None
        self.arr = {}

    # ------------------------------------------------ obligations
    def pose(self, rule, verdict, text, node, st):
        if not self.quiet:
            self.obls.append(Obl(rule, verdict, text, self.u.where(node) if node else '', self.current))

    def sys(self, st):
        s = Sys()
        s.local = s.whole = True
        fs = {}
        for k, v in st.facts.items():
            if k[0] == 'eq' and not v and k[1] == NULL and (st.known.get(k[2], (None,))[0] or -1) >= 0:
                s.lt(0, k[2])
            else:
                fs[k] = v
        for t, (lo, hi) in st.known.items():
            if lo is not None:
                s.le(lo, t)
            if hi is not None:
                s.le(t, hi)
        s.facts(fs)
        return s

    def require(self, rule, st, rel, a, b, text, node):
        s = self.sys(st)
        if s.holds(rel, a, b):
            self.pose(rule, 'ok', text, node, st)
            return True
        self.pose(rule, 'bad' if s.exact(a, b) and not st.und else 'und', text, node, st)
        return False

    def fresh(self, st, name, lo=None, hi=None):
        st.n += 1
        self.kn += 1
        t = ('sym', '%s#%d' % (name, self.kn))
        if lo is not None or hi is not None:
            st.known[t] = (lo, hi)
        return t

    # ------------------------------------------------ running
    def run(self, name, args, st=None):
        f = self.u.funcs[name]
        st = (st or St()).copy()
        self.current = name
        self.steps = 0
        self.visited.add(name)
        out = []
        for s, o in self.call_local(f, args, st):
            if o[0] == 'ret':
                out.append(CPath(s, o[1], 'ret'))
            else:
                out.append(CPath(s, None, o[0]))
        return out

    def call_local(self, f, args, st):
        if self.depth > 12:
            raise Unsupported('recursion')
        self.depth += 1
        self.visited.add(f['name'])
        try:
            params = [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            for p, a in zip(params, args):
                st.mem[('lv', p['id'])] = a
                st.log = [x for x in st.log if x[0] != ('lv', p['id'])]
            body = next(c for c in f['inner'] if c.get('kind') == 'CompoundStmt')
            out = []
            for s, o in self.block([body], st, labels(body)):
                if o is None:
                    out.append((s, ('ret', ('undef', 'result'))))
                elif o[0] in ('ret', 'exit'):
                    out.append((s, o))
                else:
                    raise Unsupported('outcome %r' % (o,))
            return out
        finally:
            self.depth -= 1

    # ------------------------------------------------ statements: [(state, outcome)], outcome None | ('ret', v) | ('exit',) | ('brk',) | ('cont',) | ('goto', id)
    def block(self, stmts, st, lab):
        live, out = [(st, None)], []
        for i, s in enumerate(stmts):
            nxt = []
            for x, _ in live:
                for y, o in self.stmt(s, x, lab):
                    if o is None:
                        nxt.append((y, None))
                    elif o[0] == 'goto':
                        j = next((j for j, z in enumerate(stmts) if z.get('kind') == 'LabelStmt' and z.get('declId') == o[1]), None)
                        if j is not None and j > i:
                            rest = [stmts[j]['inner'][0]] + stmts[j + 1:]
                            out.extend(self.block(rest, y, lab))
                        else:
                            out.append((y, o))
                    else:
                        out.append((y, o))
            live = nxt
            if len(live) + len(out) > self.MAXPATHS:
                raise TooMany()
        return live + out

    def stmt(self, n, st, lab):
        self.steps += 1
        if self.steps > 200000:
            raise TooMany()
        k = n['kind']
        f = getattr(self, 's_' + k, None)
        if f:
            return f(n, st, lab)
        if k.endswith(('Expr', 'Operator', 'Literal')):
            return [(s, ('exit',) if v is EXIT else None) for s, v in self.ev(n, st)]
        raise Unsupported(k)

    def s_CompoundStmt(self, n, st, lab):
        return self.block(n.get('inner', []), st, lab)

    def s_NullStmt(self, n, st, lab):
        return [(st, None)]

    def s_LabelStmt(self, n, st, lab):
        return self.stmt(n['inner'][0], st, lab)

    def s_GotoStmt(self, n, st, lab):
        return [(st, ('goto', n.get('targetLabelDeclId')))]

    def s_AttributedStmt(self, n, st, lab):
        return self.stmt(n['inner'][-1], st, lab)

    def s_DeclStmt(self, n, st, lab):
        live, gone = [st], []
        for d in n.get('inner', []):
            if d['kind'] != 'VarDecl':
                continue
            lv = ('lv', d['id'])
            nxt = []
            for s in live:
                if d.get('storageClass') == 'static':
                    s.mem[lv] = ('sym', 'static ' + d['name'])
                    nxt.append(s)
                    continue
                t = self.u.ctype(d)
                init = next((c for c in d.get('inner', []) if not c.get('kind', '').endswith(('Attr', 'Comment'))), None) if d.get('init') else None
                for key in [k for k in s.mem if k == lv or k[0] == 'at' and k[1] == ('addr', lv) or k[0] == 'mem' and k[1] == ('addr', lv)]:
                    del s.mem[key]
                if t.endswith(']') or self.u.isstruct(t):
                    s.mem[lv] = ('region', d['id'])
                    if init is not None:
                        i = peel(init)
                        if i['kind'] == 'InitListExpr' and t.endswith(']'):
                            items = i.get('inner') or i.get('array_filler', [])[1:]
                            cur = [(s, [])]
                            for c in items:
                                cur = [(y, vs + [v]) for x, vs in cur for y, v in self.ev(c, x)]
                            for x, vs in cur:
                                for j, v in enumerate(vs):
                                    x.mem[('at', ('addr', lv), C(j))] = v
                                nxt.append(x)
                            continue
                        if i['kind'] == 'InitListExpr':
                            names = [c.get('name') for c in self.u.named[t].get('inner', []) if c.get('kind') == 'FieldDecl']
                            cur = [(s, [])]
                            for c in i.get('inner', []):
                                cur = [(y, vs + [v]) for x, vs in cur for y, v in self.ev(c, x)]
                            for x, vs in cur:
                                for nm, v in zip(names, vs):
                                    x.mem[('mem', ('addr', lv), nm)] = v
                                nxt.append(x)
                            continue
                        s.und.append('initialiser')
                    nxt.append(s)
                    continue
                if init is None:
                    s.mem[lv] = ('undef', d['name'])
                    nxt.append(s)
                else:
                    for x, v in self.ev(init, s):
                        if v is EXIT:
                            gone.append((x, ('exit',)))
                            continue
                        x.mem[lv] = v
                        nxt.append(x)
            live = nxt
        return [(s, None) for s in live] + gone

    def s_ReturnStmt(self, n, st, lab):
        if not n.get('inner'):
            return [(st, ('ret', None))]
        out = []
        for s, v in self.ev(n['inner'][0], st):
            if v is EXIT:
                out.append((s, ('exit',)))
            else:
                s.events.append(CEv('return', n, self.u.where(n), value=v))
                out.append((s, ('ret', v)))
        return out

    def s_BreakStmt(self, n, st, lab):
        return [(st, ('brk',))]

    def s_ContinueStmt(self, n, st, lab):
        return [(st, ('cont',))]

    def s_IfStmt(self, n, st, lab):
        inner = [c for c in n['inner'] if c]
        cond, then = inner[0], inner[1]
        other = inner[2] if len(inner) > 2 else None
        out = []
        for s, b in self.cond(cond, st):
            if b is EXIT:
                out.append((s, ('exit',)))
            elif b:
                out.extend(self.stmt(then, s, lab))
            elif other is not None:
                out.extend(self.stmt(other, s, lab))
            else:
                out.append((s, None))
        return out

    def s_SwitchStmt(self, n, st, lab):
        inner = [c for c in n['inner'] if c]
        cond, body = inner[0], inner[-1]
        flat, labels_ = [], []
        for c in body.get('inner', []) if body['kind'] == 'CompoundStmt' else [body]:
            while c['kind'] in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    v = self.constant(c['inner'][0])
                    if v is None or len([x for x in c['inner'] if x]) > 2:
                        raise Unsupported('case')
                    labels_.append((v, len(flat)))
                else:
                    labels_.append((None, len(flat)))
                c = c['inner'][-1]
            flat.append(c)
        out = []
        for s, v in self.ev(cond, st):
            cases = []
            rest = [s]
            for val, pos in labels_:
                if val is None:
                    continue
                nxt = []
                for x in rest:
                    for y, b in self.fork(x, ('eq', C(val), v)):
                        (cases if b else nxt).append((y, pos) if b else y)
                rest = nxt
            default = next((p for val, p in labels_ if val is None), None)
            for x in rest:
                cases.append((x, default))
            for x, pos in cases:
                if pos is None:
                    out.append((x, None))
                    continue
                for y, o in self.block(flat[pos:], x, lab):
                    out.append((y, None if o and o[0] == 'brk' else o))
        return out

    def constant(self, n):
        n = peel(n) if n.get('kind') != 'ConstantExpr' or 'value' not in n else n
        v = const_value(n)
        if v is None and n.get('kind') == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['id'] in self.u.enums:
                return self.u.enums[d['id']][1]
        return v

    # loops
    def s_ForStmt(self, n, st, lab):
        init, _, cond, inc, body = (n['inner'] + [None] * 5)[:5]
        live = [(st, None)]
        if init:
            live = self.stmt(init, st, lab)
        out = []
        for s, o in live:
            out.extend(self.loop(n, cond or None, inc or None, body, s, lab, False) if o is None else [(s, o)])
        return out

    def s_WhileStmt(self, n, st, lab):
        inner = [c for c in n['inner'] if c]
        return self.loop(n, inner[0], None, inner[-1], st, lab, False)

    def s_DoStmt(self, n, st, lab):
        inner = [c for c in n['inner'] if c]
        return self.loop(n, inner[1], None, inner[0], st, lab, True)

    def iterate(self, cond, inc, body, head, lab, do):
        """Iterations from a head state: (continuing, leaving by condition, other outcomes)."""
        go, leave, other = [], [], []

        def test(s, into):
            if cond is None:
                into.append(s)
                return
            for x, b in self.cond(cond, s):
                (into if b else leave).append(x)

        start = []
        if do:
            start.append(head.copy())
        else:
            test(head.copy(), start)
        ends = []
        for s in start:
            for x, o in self.stmt(body, s, lab):
                if o is None or o[0] == 'cont':
                    ends.append(x)
                elif o[0] == 'brk':
                    leave.append(x)
                else:
                    other.append((x, o))
        after = []
        for x in ends:
            if inc:
                after.extend(y for y, _ in self.ev(inc, x))
            else:
                after.append(x)
        if do:
            for x in after:
                test(x, go)
        else:
            go = after
        return go, leave, other

    def loop(self, n, cond, inc, body, st, lab, do):
        lid = self.u.line(n), len(st.K)
        self.kn += 1
        K = ('sym', 'K%d' % self.kn)
        changed, induct = set(), {}
        inv = self.invariants(self, st, n) if self.invariants else []
        s0 = self.sys(st)
        inv = [i for i in inv if i[0] not in self.assumed and s0.holds(i[1], i[2], i[3])]
        keep = {i[0] for i in inv}
        upper = set()
        for rnd in range(24):
            head = self.head(st, changed, induct, K, keep, lid, upper)
            self.quiet += 1
            try:
                mark = len(head.log)
                go, leave, other = self.iterate(cond, inc, body, head, lab, do)
            finally:
                self.quiet -= 1
            new = set()
            for s in go:
                for key in set(s.mem) | set(head.mem):
                    if s.mem.get(key) != head.mem.get(key) and key not in changed:
                        if key[0] == 'at' and key[1][0] != 'addr':
                            continue
                        if key not in head.mem and key[0] == 'lv':
                            continue                # declared in the body
                        if key not in head.mem and key[0] == 'mem' and s.mem[key] == self.initial(key):
                            continue
                        new.add(key)
                for key, _ in s.log[mark:]:
                    if key[0] == 'at' and ('region', key[1]) not in changed:
                        new.add(('region', key[1]))
            if new:
                changed |= new
                continue
            # induction: the same constant step on every path
            steps = {}
            for key in changed:
                if key in induct or key[0] == 'region':
                    continue
                v0 = head.mem.get(key)
                ds = set()
                for s in go:
                    d = self.step(v0, s.mem.get(key))
                    ds.add(d)
                if len(ds) == 1 and None not in ds:
                    steps[key] = ds.pop()
            steps = {k: d for k, d in steps.items() if self.isint(st.mem.get(k, self.initial(k)))}
            if steps:
                induct.update(steps)
                continue
            more = self.counted(st, go, K) - upper if not do else set()
            if more:
                upper |= more
                continue
            bad = set()
            for s in go:
                x = self.sys(s)
                for key, rel, a, b in (self.invariants(self, s, n) if self.invariants else []):
                    if key in keep and not x.holds(rel, a, b):
                        bad.add(key)
            if bad:
                keep -= bad
                continue
            break
        else:
            raise Unsupported('loop')
        head = self.head(st, changed, induct, K, keep, lid, upper)
        go, leave, other = self.iterate(cond, inc, body, head, lab, do)
        ev = CEv('loop', n, self.u.where(n), K=K, head=head, paths=go, changed=frozenset(changed), induct=dict(induct), before=st)
        for s in go:
            if {k: v.get('n') for k, v in s.res.items() if v.get('n')} != {k: v.get('n') for k, v in head.res.items() if v.get('n')}:
                self.pose('owned', 'und', 'ownership changes in a loop', n, s)
                head.und.append('ownership in loop')
        out = []
        for s in leave:
            s.events = st.events + [ev] + s.events[len(head.events):]
            out.append((s, None))
        for s, o in other:
            s.events = st.events + [ev] + s.events[len(head.events):]
            out.append((s, o))
        return out

    def isint(self, t):
        return t is not None and t[0] != 'undef' and not (is_const(t) and isinstance(t[2], float))

    def step(self, a, b):
        if a is None or b is None:
            return None
        if a[0] == 'padd' or b[0] == 'padd' or a[0] in ('addr',) or b[0] in ('addr',):
            (x, i), (y, j) = split(a), split(b)
            if x != y:
                return None
            a, b = i, j
        if a[0] in ('h', 'addr'):
            return None
        d = minus(b, a)
        return d[2] if is_const(d) and isinstance(d[2], int) and d[2] else None

    def counted(self, st, go, K):
        """Upper bounds of the iteration number: the loop goes on while K differs from a fixed N >= 0, so K <= N."""
        out, s = None, self.sys(st)
        for g in go:
            mine = set()
            for k, v in g.facts.items():
                if k[0] == 'eq' and not v and k not in st.facts:
                    d = s.lin(k[1]) - s.lin(k[2])
                    c = d.c.get(K)
                    if c in (1, -1) and not any(a != K and not self.fixed(a, st) for a in d.c):
                        n = canon_lin(Lin({a: -x / c for a, x in d.c.items() if a != K}, -d.k / c))
                        if s.holds('<=', 0, n):
                            mine.add(n)
            out = mine if out is None else out & mine
        return out or set()

    def fixed(self, a, st):
        return a[0] in ('sym', 'fld')

    def head(self, st, changed, induct, K, keep, lid, upper=()):
        h = st.copy()
        h.known[K] = (0, None)
        for n in upper:
            h.facts[('lt', n, K)] = False
        h.K = st.K + (K,)
        regions = {k[1] for k in changed if k[0] == 'region'}
        for k in list(h.mem):
            if k[0] == 'at' and k[1] in regions:
                del h.mem[k]
        if regions:
            h.log = h.log + [(('at', r, ('any',)), None) for r in sorted(regions, key=repr)]
        for key in changed:
            if key[0] == 'region':
                continue
            v = st.mem.get(key)
            if v is None:
                v = self.initial(key)
            if key in induct:
                d = times(C(induct[key]), K)
                if split(v)[0] is not None and v[0] in ('padd', 'addr', 'h', 'data'):
                    b, i = split(v)
                    h.mem[key] = padd(b, plus(i, d))
                elif v[0] in ('call', 'fld', 'sym') and self.ptr.get(key):
                    b, i = split(v)
                    h.mem[key] = padd(b, plus(i, d))
                else:
                    h.mem[key] = plus(v, d)
            else:
                h.mem[key] = ('phi', lid, key)
        if self.invariants:
            for key, rel, a, b in self.invariants(self, h, None):
                if key in keep:
                    self.assume(h, rel, a, b)
        return h

    ptr = {}

    def assume(self, st, rel, a, b):
        if rel == '<':
            st.facts[('lt', a, b)] = True
        elif rel == '<=':
            st.facts[('lt', b, a)] = False
        elif rel == '!=' and b == NULL and not is_const(a):
            st.known[a] = (1, None)
        elif rel == '!=':
            st.facts[('eq', a, b)] = False
        elif rel == '==':
            st.facts[('eq', a, b)] = True

    # ------------------------------------------------ conditions
    def cond(self, n, st):
        """[(state, bool)]"""
        m = n
        while m['kind'] in ('ParenExpr',):
            m = m['inner'][0]
        if m['kind'] == 'BinaryOperator' and m['opcode'] in ('&&', '||'):
            out = []
            for s, b in self.cond(m['inner'][0], st):
                if b is EXIT:
                    out.append((s, b))
                elif b == (m['opcode'] == '&&'):
                    out.extend(self.cond(m['inner'][1], s))
                else:
                    out.append((s, b))
            return out
        if m['kind'] == 'UnaryOperator' and m['opcode'] == '!':
            return [(s, b if b is EXIT else not b) for s, b in self.cond(m['inner'][0], st)]
        if m['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr') and m.get('castKind') in ('IntegralToBoolean', 'PointerToBoolean', 'NoOp', 'FloatingToBoolean',
                                                                                           'LValueToRValue', 'IntegralCast') and m.get('castKind') != 'LValueToRValue':
            i = m['inner'][-1]
            if m['castKind'] != 'IntegralCast' or peel_paren(i)['kind'] in ('BinaryOperator', 'UnaryOperator'):
                if m['castKind'] != 'FloatingToBoolean':
                    return self.cond(i, st)
        out = []
        for s, v in self.ev(m, st):
            if v is EXIT:
                out.append((s, v))
                continue
            out.extend(self.truth(s, v))
        return out

    def truth(self, st, v):
        if is_const(v):
            return [(st, bool(v[2]))]
        if v[0] == 'cmp':
            return self.compare(st, v[1], v[2], v[3], v[4])
        if v[0] == 'not':
            return [(s, not b) for s, b in self.truth(st, v[1])]
        if v[0] == 'undef':
            self.uninit(v, st)
            return [(st.copy(), True), (st, False)]
        if v[0] in ('h', 'addr', 'padd', 'func', 'str'):
            return [(st, True)]
        if v[0] == 'errind':
            if st.err == 'set':
                return [(st, True)]
            if st.err == 'clear':
                return [(st, False)]
            a = st.copy()
            a.err, st.err = 'set', 'clear'
            return [(a, True), (st, False)]
        return [(s, not b) for s, b in self.fork(st, ('eq', C(0), v))]

    def compare(self, st, op, a, b, flt):
        if op in ('>', '>='):
            op, a, b = {'>': '<', '>=': '<='}[op], b, a
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if is_const(y) and not y[2] and x[0] in ('h', 'addr', 'padd', 'func', 'str', 'errind') and not flt:
                    return [(s, r if op == '!=' else not r) for s, r in self.truth(st, x)]
            if a == b and not flt:
                return [(st, op == '==')]
            if not is_const(a) and is_const(b):
                a, b = b, a
            res = self.fork(st, ('eq', a, b), flt)
            return [(s, r if op == '==' else not r) for s, r in res]
        if op == '<':
            return self.fork(st, ('lt', a, b), flt)
        return [(s, not r) for s, r in self.fork(st, ('lt', b, a), flt)]

    def fork(self, st, atom, flt=False):
        a, b = atom[1], atom[2]
        for x in (a, b):
            if x[0] == 'undef':
                self.uninit(x, st)
        if is_const(a) and is_const(b):
            return [(st, a[2] == b[2] if atom[0] == 'eq' else a[2] < b[2])]
        facts = st.dfacts if flt else st.facts
        if atom in facts:
            return [(st, facts[atom])]
        if flt:
            d = self.flt_decide(st, atom)
            if d is not None:
                return [(st, d)]
            y, z = st.copy(), st
            y.dfacts[atom], z.dfacts[atom] = True, False
            return [(y, True), (z, False)]
        s = self.sys(st)
        la, lb = s.lin(a), s.lin(b)
        one = Lin({}, 1)
        if atom[0] == 'lt':
            yes, no = s.sat([la - lb + one]), s.sat([lb - la])
        else:
            yes, no = s.sat([la - lb, lb - la]), s.sat([la - lb + one]) or s.sat([lb - la + one])
        out = []
        if yes:
            y = st.copy() if no else st
            y.facts[atom] = True
            out.append((y, True))
        if no or not yes:
            st.facts[atom] = False
            out.append((st, False))
        return out

    def flt_decide(self, st, atom):
        """What known comparisons with constants say (no NaN)."""
        if atom[0] == 'lt' and atom[1] == atom[2]:
            return False
        if atom[0] == 'eq' and atom[1] == atom[2]:
            return True
        from .walk import Range
        for t, o, left in ((atom[1], atom[2], True), (atom[2], atom[1], False)):
            if is_const(o) and not is_const(t):
                r = Range(t, st.dfacts)
                c = o[2]
                if atom[0] == 'lt' and left:                 # t < c
                    if r.hi < c or r.hi == c and not r.hi_in:
                        return True
                    if r.lo >= c:
                        return False
                elif atom[0] == 'lt':                        # c < t
                    if r.lo > c or r.lo == c and not r.lo_in:
                        return True
                    if r.hi <= c:
                        return False
                else:
                    if not r.holds(c):
                        return False
        rev = ('lt', atom[2], atom[1])
        if atom[0] == 'lt' and st.dfacts.get(rev):
            return False
        return None

    def uninit(self, v, st, node=None):
        self.pose('init', 'und' if st.und else 'bad', '%s is used without a value' % (v[1],), node, st)

    # ------------------------------------------------ locations
    def lvalue(self, n, st):
        """[(state, location)]"""
        k = n['kind']
        if k == 'ParenExpr':
            return self.lvalue(n['inner'][0], st)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] in ('VarDecl', 'ParmVarDecl'):
                lv = ('lv', d['id'])
                if lv not in st.mem:
                    g = self.u.vars.get(d['name'])
                    if g is not None and g['id'] == d['id'] or g is not None:
                        return [(st, ('glob', d['name']))]
                    return [(st, ('glob', d['name']))]
                return [(st, lv)]
            if d['kind'] == 'FunctionDecl':
                return [(st, ('fn', d['name']))]
            raise Unsupported('lvalue %s' % d['kind'])
        if k == 'MemberExpr':
            base = n['inner'][0]
            out = []
            if n.get('isArrow'):
                for s, p in self.ev(base, st):
                    out.append((s, self.member(s, p, n)))
            else:
                for s, l in self.lvalue(base, st):
                    out.append((s, ('mem', self.address(l), n['name'])))
            return out
        if k == 'ArraySubscriptExpr':
            out = []
            for s, p in self.ev(n['inner'][0], st):
                for s2, i in self.ev(n['inner'][1], s):
                    q = n['inner'][0]
                    if not self.ispointer(q) and self.ispointer(n['inner'][1]):
                        p, i = i, p
                    b, o = split(p)
                    out.append((s2, ('at', b, plus(o, i))))
            return out
        if k == 'UnaryOperator' and n['opcode'] == '*':
            out = []
            for s, p in self.ev(n['inner'][0], st):
                out.append((s, self.deref(p)))
            return out
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp', 'LValueBitCast'):
            return self.lvalue(n['inner'][-1], st)
        if k == 'StringLiteral':
            return [(st, ('str', n.get('value', '')))]
        if k == 'CompoundLiteralExpr':
            raise Unsupported(k)
        raise Unsupported('lvalue %s' % k)

    def ispointer(self, n):
        return self.u.ctype(n).endswith(('*', ']'))

    def deref(self, p):
        if p[0] == 'addr':
            return p[1]
        b, o = split(p)
        return ('at', b, o)

    def address(self, l):
        if l[0] == 'at' and l[2] == C(0):
            return l[1]
        if l[0] == 'at':
            return padd(l[1], l[2])
        if l[0] == 'fn':
            return ('func', l[1])
        if l[0] == 'str':
            return l
        return ('addr', l)

    def member(self, st, p, n):
        if p[0] == 'undef':
            self.uninit(p, st, n)
        if is_const(p):
            self.pose('null', 'bad' if not st.und else 'und', 'a null pointer is followed (->%s)' % n['name'], n, st)
        elif p[0] not in ('addr', 'h') and not (p[0] == 'fld' and p[2] == 'ob_type'):
            x = self.sys(st)
            if not x.excludes(p, 0):
                known = p[0] in ('fld', 'sym', 'phi')
                self.pose('null', 'bad' if known and not st.und else 'und', '%s can be null when ->%s is taken' % (cshow(p), n['name']), n, st)
            else:
                self.pose('null', 'ok', '%s->%s' % (cshow(p), n['name']), n, st)
        self.alive(st, p, n)
        if p[0] == 'h' and p in st.res and st.res[p].get('bytes') is not None:
            q = self.u.ctype(n['inner'][0]).rstrip('*').strip()
            try:
                lay = self.u.layout(q)
                off, size, _ = lay[n['name']]
                self.require('bounds', st, '<=', C(off + size), st.res[p]['bytes'], '%s->%s lies inside its allocation' % (cshow(p), n['name']), n)
            except (Unsupported, KeyError):
                pass
        return ('mem', p, n['name'])

    def alive(self, st, p, n):
        for h in handles(p):
            r = st.res.get(h)
            if r and r.get('dead'):
                self.pose('alive', 'bad' if not st.und else 'und', '%s is used after its release' % cshow(p), n, st)
                return
            if r and r['kind'] == 'ref' and r['n'] <= 0 and not r.get('borrowed') and not r.get('kept'):
                self.pose('alive', 'bad' if not st.und else 'und', '%s is used after its release' % cshow(p), n, st)
                return

    def initial(self, loc):
        """Value a location has before anything is written."""
        if loc[0] == 'mem':
            return ('fld', loc[1], loc[2], 0)
        if loc[0] == 'at':
            return ('ld', loc[1], loc[2], 0)
        if loc[0] == 'glob':
            return ('sym', 'glob:' + loc[1])
        return ('sym', 'loc:%s' % (loc[1],))

    def read(self, st, loc, n):
        if loc[0] == 'lv':
            v = st.mem.get(loc, ('undef', loc[1]))
            if v[0] == 'undef':
                self.uninit(v, st, n)
            return v
        if loc[0] == 'glob':
            g = self.u.vars.get(loc[1])
            if loc in st.mem:
                return st.mem[loc]
            if g is not None and 'const' in g.get('type', {}).get('qualType', '').split('*')[-1]:
                init = next((c for c in g.get('inner', []) if not c.get('kind', '').endswith(('Attr', 'Comment'))), None)
                v = const_value(init) if init else None
                if v is not None:
                    if self.u.ctype(g) in FLOAT:
                        v = float(v)
                    return C(v)
            return ('sym', 'glob:' + loc[1])
        if loc[0] == 'fn':
            return ('func', loc[1])
        if loc[0] == 'str':
            return loc
        if loc[0] == 'mem':
            if loc in st.mem:
                return st.mem[loc]
            b = loc[1]
            if b[0] == 'h' and b in st.res and st.res[b].get('zero'):
                return C(0)
            if b[0] == 'h' and b in st.res and st.res[b]['kind'] == 'mem':
                return ('undef', '%s->%s' % (cshow(b), loc[2]))
            if b[0] == 'addr' and b[1][0] == 'lv':
                return ('undef', loc[2])
            v = self.initial(loc)
            t = self.u.ctype(n)
            st.mem[loc] = v
            if t in UNSIGNED:
                st.known.setdefault(v, (0, 2 ** UNSIGNED[t] - 1))
            return v
        if loc[0] == 'at':
            self.access(st, loc, n)
            if loc in st.mem and not self.shadow(st, loc):
                return st.mem[loc]
            b = loc[1]
            # the last write that may have hit
            for key, v in reversed(st.log):
                if key[0] == 'at' and key[1] == b:
                    if key[2] == ('any',):
                        return ('ld', b, loc[2], 'loop')
                    d = minus(key[2], loc[2])
                    if is_const(d):
                        if d[2] == 0:
                            return v
                        continue
                    s = self.sys(st)
                    if s.excludes(key[2], loc[2]):
                        continue
                    return ('ld', b, loc[2], ('after', len(st.log)))
            r = st.res.get(b)
            if b[0] == 'addr' and b[1][0] == 'lv':
                return ('undef', 'array element')
            if r and r.get('zero'):
                return C(0.0)
            if b[0] == 'addr' and b[1][0] == 'mem' and b[1][1][0] == 'h' and b[1][1] in st.res and st.res[b[1][1]].get('zero'):
                return C(0.0)
            v = ('ld', b, loc[2], 0)
            if b[0] == 'dims' and is_const(loc[2]):
                v = self.dim(st, b[1], loc[2][2])
            return v
        raise Unsupported('read %r' % (loc,))

    def shadow(self, st, loc):
        for key, _ in reversed(st.log):
            if key == loc:
                return False
            if key[0] == 'at' and key[1] == loc[1]:
                return True
        return False

    def dim(self, st, arr, i):
        t = ('fld', arr, 'dim%d' % i, 0)
        st.known.setdefault(t, (0, 2 ** 60))
        return t

    def ndim(self, st, arr):
        r = st.res.get(arr, {})
        if 'nd' in r:
            return r['nd']
        t = ('fld', arr, 'nd', 0)
        st.known.setdefault(t, (0, 64))
        return t

    def write(self, st, loc, v, n):
        if loc[0] == 'lv':
            st.mem[loc] = v
        elif loc[0] == 'mem':
            st.mem[loc] = v
        elif loc[0] == 'at':
            self.access(st, loc, n, store=True)
            for k in [k for k in st.mem if k[0] == 'at' and k[1] == loc[1] and k != loc]:
                d = minus(k[2], loc[2])
                if not (is_const(d) and d[2]):
                    del st.mem[k]
            st.mem[loc] = v
            st.log = st.log + [(loc, v)]
        elif loc[0] == 'glob':
            st.mem[loc] = v
        else:
            raise Unsupported('write %r' % (loc,))
        st.events.append(CEv('write', n, self.u.where(n), loc=loc, value=v, facts=dict(st.facts), dfacts=dict(st.dfacts)))

    def access(self, st, loc, n, store=False):
        """Obligation: the element lies inside what the pointer points to."""
        b, i = loc[1], loc[2]
        self.alive(st, b, n)
        t = self.u.ctype(n)
        try:
            size = self.u.sizeof(t)
        except Unsupported:
            size = None
        ext = self.extent(st, b)
        what = '%s[%s]' % (cshow(b), cshow(i))
        if is_const(b):
            self.pose('null', 'bad' if not st.und else 'und', 'a null pointer is followed', n, st)
            return
        if b[0] in ('fld', 'sym', 'phi') and not self.sys(st).excludes(b, 0):
            self.pose('null', 'und' if st.und or b[0] != 'fld' else 'bad', '%s can be null' % cshow(b), n, st)
        if b[0] == 'data':
            self.input(st, b[1], n, t)
        if ext is None or size is None:
            self.pose('bounds', 'und', '%s: extent not known' % what, n, st)
            return
        if b[0] == 'data':
            nd = self.ndim(st, b[1])
            s = self.sys(st)
            if not s.holds('==', nd, C(1)):
                self.pose('bounds', 'bad' if s.exact(nd) and not st.und else 'und', '%s: the array need not have one dimension' % what, n, st)
                return
        if not self.require('bounds', st, '<=', C(0), i, '%s: the index is not negative' % what, n):
            return
        self.require('bounds', st, '<=', times(C(size), plus(i, C(1))), ext, '%s lies inside its memory' % what, n)

    def extent(self, st, b):
        if b[0] == 'data':
            return times(C(8), self.dim(st, b[1], 0))
        if b[0] == 'dims':
            return times(C(8), self.ndim(st, b[1]))
        if b[0] == 'h' and b in st.res:
            return st.res[b].get('bytes')
        if b[0] == 'addr':
            l = b[1]
            if l[0] == 'lv':
                d = self.declof(l[1])
                return C(self.u.sizeof(self.u.ctype(d))) if d is not None else None
            if l[0] == 'mem':
                p, f = l[1], l[2]
                q = self.structof(p, f)
                if q is None:
                    return None
                off, size, t = self.u.layout(q)[f]
                if size:
                    return C(size)
                whole = self.extent(st, p) if p[0] == 'h' else self.fieldextent(st, p)
                return None if whole is None else minus(whole, C(off))
        if b[0] == 'fld':
            return self.fieldextent(st, b)
        return None

    def fieldextent(self, st, p):
        """Number of bytes behind a pointer stored in an object, as an invariant promises."""
        t = ('fld', p, '#bytes', 0)
        st.known.setdefault(t, (0, None))
        return t

    def declof(self, i):
        if not hasattr(self.u, 'locals'):
            self.u.locals = {}

            def walk(n):
                if isinstance(n, dict):
                    if n.get('kind') in ('VarDecl', 'ParmVarDecl') and 'id' in n:
                        self.u.locals[n['id']] = n
                    for c in n.get('inner', []):
                        walk(c)
            for f in self.u.funcs.values():
                walk(f)
        return self.u.locals.get(i)

    def structof(self, p, f):
        for name, rec in self.u.named.items():
            fields = [c.get('name') for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
            if f in fields and not name.startswith(('Py', 'struct _')):
                return name
        return None

    def input(self, st, arr, n, t):
        """Samples read through the data pointer of an array: it must be contiguous, aligned and of the type read."""
        r = st.res.get(arr)
        if r is None or r.get('borrowed'):
            checked = asked(st, arr)
            self.pose('input', 'und' if checked or st.und else 'bad', 'samples of %s are read without a conversion' % cshow(arr), n, st)
            return
        want = {'double': 12, 'float': 11, 'int': 5, 'long': 7}.get(t)
        if 'dtype' not in r:
            self.pose('input', 'und', 'element type', n, st)
            return
        if r['dtype'] is None:
            self.pose('input', 'und' if asked(st, arr) or st.und else 'bad',
                      'samples of %s are read as %s, without a conversion to it' % (cshow(arr), t), n, st)
        elif want is not None and is_const(r['dtype']) and r['dtype'][2] != want:
            self.pose('input', 'bad' if not st.und else 'und', 'an array of another type is read as %s' % t, n, st)
        elif not r.get('contig'):
            self.pose('input', 'und' if asked(st, arr) or st.und else 'bad',
                      'samples are read one after the other, but %s need not be contiguous' % cshow(arr), n, st)
        else:
            self.pose('input', 'ok', 'converted samples', n, st)

    # ------------------------------------------------ expressions: [(state, value)]
    def ev(self, n, st):
        self.steps += 1
        if self.steps > 200000:
            raise TooMany()
        f = getattr(self, 'e_' + n['kind'], None)
        if f is None:
            raise Unsupported(n['kind'])
        return f(n, st)

    def e_ParenExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def e_ConstantExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def e_IntegerLiteral(self, n, st):
        return [(st, C(int(n['value'])))]

    def e_CharacterLiteral(self, n, st):
        return [(st, C(int(n['value'])))]

    def e_FloatingLiteral(self, n, st):
        return [(st, C(float(n['value'])))]

    def e_StringLiteral(self, n, st):
        return [(st, ('str', n.get('value', '')[1:-1]))]

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get('name') != 'sizeof':
            raise Unsupported(n.get('name'))
        q = n['argType'] if 'argType' in n else n['inner'][0]['type']
        return [(st, C(self.u.sizeof(q.get('desugaredQualType', q['qualType']))))]

    def e_OffsetOfExpr(self, n, st):
        return [(st, ('sym', 'offsetof'))]

    def e_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return [(st, C(self.u.enums[d['id']][1] if d['id'] in self.u.enums else 0))]
        if d['kind'] == 'FunctionDecl':
            return [(st, ('func', d['name']))]
        return [(s, self.address(l)) for s, l in self.lvalue(n, st)]

    def e_MemberExpr(self, n, st):
        return [(s, self.address(l)) for s, l in self.lvalue(n, st)]

    e_ArraySubscriptExpr = e_MemberExpr

    def e_ImplicitCastExpr(self, n, st):
        ck, i = n.get('castKind'), n['inner'][-1]
        if ck == 'LValueToRValue':
            out = []
            for s, l in self.lvalue(i, st):
                v = self.read(s, l, i)
                out.append((s, v))
            return out
        if ck in ('ArrayToPointerDecay', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            if peel_paren(i)['kind'] == 'StringLiteral':
                return self.ev(i, st)
            return [(s, self.address(l)) for s, l in self.lvalue(i, st)]
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return [(s, NULL) for s, _ in self.ev(i, st)]
        if ck in ('BitCast', 'NoOp', 'IntegralToPointer', 'PointerToIntegral', 'LValueBitCast', 'AddressSpaceConversion'):
            return self.ev(i, st)
        if ck == 'ToVoid':
            return self.ev(i, st)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            out = []
            for s, v in self.ev(i, st):
                if v is EXIT:
                    out.append((s, v))
                elif v[0] in ('cmp', 'not'):
                    out.append((s, v))
                else:
                    out.extend((x, C(int(b))) for x, b in self.truth(s, v))
            return out
        if ck == 'IntegralToFloating':
            out = []
            for s, v in self.ev(i, st):
                out.append((s, C(float(v[2])) if is_const(v) else v))
            return out
        if ck == 'FloatingToIntegral':
            out = []
            for s, v in self.ev(i, st):
                if is_const(v):
                    out.append((s, C(int(v[2]))))
                else:
                    out.append((s, ('call', 'trunc', (v,), (), None)))
            return out
        if ck == 'FloatingCast':
            return self.ev(i, st)
        if ck == 'IntegralCast':
            out = []
            to = self.u.ctype(n)
            for s, v in self.ev(i, st):
                out.extend(self.convert(s, v, self.u.ctype(i), to))
            return out
        raise Unsupported('cast %s' % ck)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def convert(self, st, v, src, to):
        if v is EXIT:
            return [(st, v)]
        if to in ('_Bool', 'bool'):
            return [(x, C(int(b))) for x, b in self.truth(st, v)]
        w = UNSIGNED.get(to), SIGNED.get(to)
        if v[0] in ('cmp', 'not', 'h', 'addr', 'padd', 'undef', 'errind'):
            return [(st, v)]
        if w[0]:
            lo, hi = 0, 2 ** w[0] - 1
        elif w[1]:
            lo, hi = -2 ** (w[1] - 1), 2 ** (w[1] - 1) - 1
        else:
            return [(st, v)]
        if is_const(v):
            x = int(v[2])
            if not lo <= x <= hi:
                x = (x - lo) % (hi - lo + 1) + lo
            return [(st, C(x))]
        sw = UNSIGNED.get(src), SIGNED.get(src)
        # what the source type admits
        smin = 0 if sw[0] else -2 ** (sw[1] - 1) if sw[1] else 0
        smax = 2 ** sw[0] - 1 if sw[0] else 2 ** (sw[1] - 1) - 1 if sw[1] else 2 ** 31 - 1
        need = []
        if smin < lo:
            need.append(('<', v, C(lo)))
        if smax > hi:
            need.append(('>', v, C(hi)))
        if not need:
            return [(st, v)]
        out = []
        rest = st
        for op, a, b in need:
            if op == '<':
                res = self.fork(rest, ('lt', a, b))
            else:
                res = self.fork(rest, ('lt', b, a))
            nxt = None
            for s, bad in res:
                if bad:
                    if op == '<' and w[0]:
                        x = self.fresh(s, 'wrapped', 2 ** (w[0] - 1) if w[0] >= (sw[1] or 0) else 0, hi)
                    elif w[1] and sw[0] == w[1]:
                        x = self.fresh(s, 'wrapped', lo, -1)
                    else:
                        x = self.fresh(s, 'wrapped', lo, hi)
                    out.append((s, x))
                else:
                    nxt = s
            if nxt is None:
                return out
            rest = nxt
        out.append((rest, v))
        return out

    def e_UnaryOperator(self, n, st):
        op, i = n['opcode'], n['inner'][0]
        if op == '&':
            return [(s, self.address(l)) for s, l in self.lvalue(i, st)]
        if op == '*':
            return [(s, self.address(l)) for s, l in self.lvalue(n, st)]
        if op in ('++', '--'):
            out = []
            for s, l in self.lvalue(i, st):
                v = self.read(s, l, i)
                if v[0] == 'undef':
                    self.uninit(v, s, n)
                d = 1 if op == '++' else -1
                if self.ispointer(i):
                    b, o = split(v)
                    w = padd(b, plus(o, C(d)))
                    self.ptr[l] = True
                elif self.u.ctype(i) in FLOAT:
                    w = ('op', '+', (v, C(float(d))))
                else:
                    w = plus(v, C(d))
                self.write(s, l, w, n)
                out.append((s, v if n.get('isPostfix') else w))
            return out
        if op == '!':
            return [(s, C(int(not b)) if b is not EXIT else b) for s, b in self.cond(i, st)]
        out = []
        for s, v in self.ev(i, st):
            if v is EXIT:
                out.append((s, v))
            elif op == '-':
                out.append((s, C(-v[2]) if is_const(v) else (('op', 'u-', (v,)) if self.u.ctype(n) in FLOAT else minus(C(0), v))))
            elif op == '+' or op == '__extension__':
                out.append((s, v))
            else:
                out.append((s, ('op', op, (v,))))
        return out

    def e_BinaryOperator(self, n, st):
        op, (a, b) = n['opcode'], n['inner']
        if op in ('&&', '||'):
            return [(s, C(int(r)) if r is not EXIT else r) for s, r in self.cond(n, st)]
        if op == ',':
            return [y for s, _ in self.ev(a, st) for y in self.ev(b, s)]
        if op == '=':
            out = []
            for s, v in self.ev(b, st):
                if v is EXIT:
                    out.append((s, v))
                    continue
                if self.u.isstruct(self.u.ctype(n)):
                    raise Unsupported('structure assignment')
                for s2, l in self.lvalue(a, s):
                    if self.ispointer(a):
                        self.ptr[l] = True
                    for s3, w in (self.settle(s2, v) if v[0] in ('cmp', 'not') else [(s2, v)]):
                        self.write(s3, l, w, n)
                        out.append((s3, w))
            return out
        out = []
        for s, x in self.ev(a, st):
            if x is EXIT:
                out.append((s, x))
                continue
            for s2, y in self.ev(b, s):
                if y is EXIT:
                    out.append((s2, y))
                    continue
                out.extend(self.binops(s2, op, x, y, a, b, n))
        return out

    def binops(self, st, op, x, y, a, b, n):
        t = self.u.ctype(n)
        if op == '-' and t in UNSIGNED and not (self.ispointer(a) or self.ispointer(b)) and not (is_const(x) and is_const(y)):
            out = []
            for s, less in self.fork(st, ('lt', x, y)):
                out.append((s, self.fresh(s, 'wrapped', 2 ** (UNSIGNED[t] - 1), 2 ** UNSIGNED[t] - 1) if less else minus(x, y)))
            return out
        return [(st, self.binop(st, op, x, y, a, b, n))]

    def settle(self, st, v):
        return [(s, C(int(b))) for s, b in self.truth(st, v)]

    def binop(self, st, op, x, y, a, b, n):
        for v in (x, y):
            if v[0] == 'undef':
                self.uninit(v, st, n)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            flt = self.u.ctype(a) in FLOAT or self.u.ctype(b) in FLOAT
            if self.ispointer(a) and self.ispointer(b):
                (p, i), (q, j) = split(x), split(y)
                if p == q and not is_const(p):
                    return ('cmp', op, i, j, False)
            if is_const(x) and is_const(y):
                r = {'<': x[2] < y[2], '>': x[2] > y[2], '<=': x[2] <= y[2], '>=': x[2] >= y[2], '==': x[2] == y[2], '!=': x[2] != y[2]}[op]
                return C(int(r))
            return ('cmp', op, x, y, flt)
        if self.ispointer(a) and not self.ispointer(b) and op in '+-':
            p, i = split(x)
            return padd(p, plus(i, y) if op == '+' else minus(i, y))
        if self.ispointer(b) and op == '+':
            p, i = split(y)
            return padd(p, plus(i, x))
        if self.ispointer(a) and self.ispointer(b) and op == '-':
            (p, i), (q, j) = split(x), split(y)
            return minus(i, j) if p == q else ('sym', 'distance')
        flt = self.u.ctype(n) in FLOAT
        if op in ('/', '%') and not flt:
            s = self.sys(st)
            if s.excludes(y, 0):
                self.pose('zero', 'ok', '%s %s %s' % (cshow(x), op, cshow(y)), n, st)
            else:
                self.pose('zero', 'bad' if s.exact(y) and not st.und else 'und', 'division by %s, which can be zero' % cshow(y), n, st)
        if is_const(x) and is_const(y):
            u, v = x[2], y[2]
            try:
                if op == '/':
                    if flt:
                        return C(u / v)
                    return C(abs(u) // abs(v) * (1 if (u < 0) == (v < 0) else -1))
                r = {'+': lambda: u + v, '-': lambda: u - v, '*': lambda: u * v, '%': lambda: abs(u) % abs(v) * (-1 if u < 0 else 1), '&': lambda: u & v,
                     '|': lambda: u | v, '^': lambda: u ^ v, '<<': lambda: u << v, '>>': lambda: u >> v}[op]()
                return C(float(r) if flt else r)
            except (KeyError, ZeroDivisionError, TypeError, ValueError):
                pass
        if flt:
            return ('op', op, (x, y))
        if op == '+':
            r = plus(x, y)
        elif op == '-':
            r = minus(x, y)
        elif op == '*':
            r = times(x, y)
        elif op == '%':
            s = self.sys(st)
            if s.holds('<=', 0, x) and s.holds('<', x, y):
                return x
            r = ('op', '%', (x, y))
            if s.holds('<=', 0, x) and s.holds('<', 0, y):
                st.facts[('lt', r, y)] = True
                st.facts[('lt', r, C(0))] = False
            return r
        else:
            return ('op', op, (x, y))
        t = self.u.ctype(n)
        if t in UNSIGNED and op == '-':
            s = self.sys(st)
            if not s.holds('<=', 0, r):
                if not s.sat([s.lin(r).scale(-1)]):
                    return self.fresh(st, 'wrapped', 2 ** (UNSIGNED[t] - 1), 2 ** UNSIGNED[t] - 1)
                st.und.append('unsigned subtraction')
                return self.fresh(st, 'difference', 0, 2 ** UNSIGNED[t] - 1)
        return r

    def e_CompoundAssignOperator(self, n, st):
        op, (a, b) = n['opcode'][:-1], n['inner']
        out = []
        for s, y in self.ev(b, st):
            for s2, l in self.lvalue(a, s):
                x = self.read(s2, l, a)
                if self.ispointer(a):
                    self.ptr[l] = True
                for s3, v in self.binops(s2, op, x, y, a, b, n):
                    self.write(s3, l, v, n)
                    out.append((s3, v))
        return out

    def e_ConditionalOperator(self, n, st):
        out = []
        for s, r in self.cond(n['inner'][0], st):
            out.extend(self.ev(n['inner'][1 if r else 2], s))
        return out

    def e_InitListExpr(self, n, st):
        raise Unsupported('InitListExpr')

    def e_ImplicitValueInitExpr(self, n, st):
        return [(st, C(0))]

    def e_CallExpr(self, n, st):
        fn, args = n['inner'][0], n['inner'][1:]
        live = []
        for s, f in self.ev(fn, st):
            cur = [(s, [])]
            for a in args:
                nxt = []
                for x, vs in cur:
                    for y, v in self.ev(a, x):
                        if v[0] == 'undef':
                            self.uninit(v, y, a)
                        nxt.append((y, vs + [v]))
                cur = nxt
            for x, vs in cur:
                live.append((x, f, vs))
        out = []
        for s, f, vs in live:
            out.extend(self.call(n, f, vs, args, s))
        return out

    # ------------------------------------------------ calls
    def handle(self, st, name, **kw):
        self.kn += 1
        h = ('h', self.kn, name)
        r = {'kind': 'ref', 'n': 1}
        r.update(kw)
        st.res[h] = r
        return h

    def call(self, n, f, vs, args, st):
        name = f[1] if f[0] == 'func' else None
        if name is None and f[0] == 'fld':
            name = f[2]                                  # slot of a type object
        if name is None:
            raise Unsupported('call of %s' % cshow(f))
        if name in self.u.funcs and name not in self.opaque:
            out = []
            for s, o in self.call_local(self.u.funcs[name], vs, st):
                if o[0] == 'exit':
                    out.append((s, EXIT))
                else:
                    out.append((s, o[1]))
            return out
        for v in vs:
            if name not in ('klint_xdecref', 'klint_xincref', 'free'):
                self.alive(st, v, n)
        st.events.append(CEv('call', n, self.u.where(n), fn=name, args=tuple(vs)))
        if name in ('tp_alloc', 'PyType_GenericAlloc', 'PyType_GenericNew'):
            bad = st.copy()
            bad.err = 'set'
            size = None
            if self.selftype is not None:
                size = C(self.selftype)
            h = self.handle(st, 'self', zero=True, selfobj=True, bytes=size)
            return [(st, h), (bad, NULL)]
        if name in ('tp_free', 'PyObject_Del'):
            return self.release(n, vs[0], st, final=True)
        if name in ALLOC:
            size = vs[0] if 'alloc' in name.lower() and 'calloc' not in name.lower() else times(vs[0], vs[1])
            bad = st.copy()
            if 'calloc' not in name.lower():
                self.require('bounds', st, '<=', size, C(2 ** 64 - 1), 'the size given to %s can wrap around' % name, n)
            h = self.handle(st, name, kind='mem', bytes=size, family=ALLOC[name], zero='calloc' in name.lower())
            return [(st, h), (bad, NULL)]
        if name in FREE:
            return self.free(n, name, vs[0], st)
        if name in ('exit', 'abort', '_exit', 'Py_FatalError', '__assert_fail'):
            return [(st, EXIT)]
        if name in ('memset',):
            self.span(st, vs[0], vs[2], n)
            self.clobber(st, vs[0], C(0.0) if is_const(vs[1]) and not vs[1][2] else None)
            st.events.append(CEv('memset', n, self.u.where(n), dst=vs[0], byte=vs[1], size=vs[2]))
            return [(st, vs[0])]
        if name in ('memcpy', 'memmove'):
            self.span(st, vs[0], vs[2], n)
            self.span(st, vs[1], vs[2], n)
            self.clobber(st, vs[0], None)
            st.events.append(CEv('copy', n, self.u.where(n), dst=vs[0], src=vs[1], size=vs[2]))
            return [(st, vs[0])]
        if name in SILENT:
            return [(st, C(0))]
        if name in PURE:
            if name == '__builtin_expect':
                return [(st, vs[0])]
            return [(st, ('call', name, tuple(vs), (), None))]
        if name in ('klint_incref', 'klint_xincref', 'klint_newref'):
            h = vs[0]
            if is_const(h):
                if name != 'klint_xincref':
                    self.pose('null', 'bad' if not st.und else 'und', 'the reference count of a null pointer is changed', n, st)
            else:
                self.ref(st, h)['n'] += 1
            return [(st, h)]
        if name in ('klint_decref', 'klint_xdecref'):
            if is_const(vs[0]):
                if name == 'klint_decref':
                    self.pose('null', 'bad' if not st.und else 'und', 'the reference count of a null pointer is changed', n, st)
                return [(st, None)]
            if name == 'klint_xdecref':
                out = []
                for s, b in self.truth(st, vs[0]):
                    out.extend(self.release(n, vs[0], s) if b else [(s, None)])
                return out
            return self.release(n, vs[0], st)
        if name == 'klint_clear':
            loc = self.deref(vs[0])
            v = self.read(st, loc, n)
            out = []
            for s, b in self.truth(st, v):
                self.write(s, loc, NULL, n)
                out.extend(self.release(n, v, s) if b else [(s, None)])
            return out
        if name == 'klint_type':
            return [(st, ('fld', vs[0], 'ob_type', 0))]
        if name in ('PyErr_SetString', 'PyErr_Format', 'PyErr_NoMemory', 'PyErr_SetNone', 'PyErr_BadArgument'):
            st.err = 'set'
            st.events.append(CEv('error', n, self.u.where(n), exc=vs[0] if vs else None))
            return [(st, NULL if name in ('PyErr_Format', 'PyErr_NoMemory') else C(0))]
        if name in ('PyErr_Clear', 'PyErr_Print'):
            st.err = 'clear'
            return [(st, C(0))]
        if name == 'PyErr_Occurred':
            return [(st, ('errind',))]
        if name in ('PyArg_Parse', 'PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords', 'PyArg_UnpackTuple'):
            return self.parse(n, name, vs, args, st)
        if name in NEWREF:
            bad = st.copy()
            bad.err = 'set'
            kw = self.arrayinfo(name, vs, st)
            h = self.handle(st, name, **kw)
            if 'dims' in kw:
                d = kw['dims']
                v = self.read(st, ('at', split(d)[0], split(d)[1]), None_node(n)) if d[0] != 'const' else None
                if v is not None and v[0] not in ('undef',) and is_const(kw.get('nd', C(1))) and kw.get('nd', C(1)) == C(1):
                    t = self.dim(st, h, 0)
                    st.facts[('eq', v, t) if is_const(v) else ('eq', t, v)] = True
                    if not self.sys(st).sat():
                        return [(bad, NULL)]
                elif v is not None and v[0] != 'undef':
                    t = self.dim(st, h, 0)
                    st.facts[('eq', t, v)] = True
                if d[0] == 'dims':
                    st.res[h]['nd'] = kw['nd']
            return [(st, h), (bad, NULL)]
        if name in NOFAIL_NEW:
            h = self.handle(st, name)
            return [(st, h)]
        if name == 'PyArray_Return':
            return [(st, vs[0])]
        if name in INTFAIL:
            bad = st.copy()
            bad.err = 'set'
            if name in ('PyModule_AddObject',) and not is_const(vs[2]):
                self.ref(st, vs[2])['n'] -= 1
                self.ref(st, vs[2])['kept'] = True
            return [(st, C(0)), (bad, C(-1))]
        if name == 'PyObject_IsTrue':
            if is_const(vs[0]):
                self.pose('null', 'bad' if not st.und else 'und', '%s gets a null pointer' % name, n, st)
            bad = st.copy()
            bad.err = 'set'
            yes = st.copy()
            self.fact_call(st, name, vs, False)
            self.fact_call(yes, name, vs, True)
            return [(yes, C(1)), (st, C(0)), (bad, C(-1))]
        if name in NUMFAIL:
            bad = st.copy()
            bad.err = 'set'
            flt = name in ('PyFloat_AsDouble', 'PyLong_AsDouble')
            v = ('call', name, tuple(vs), (), None) if flt else self.fresh(st, name)
            if is_const(vs[0]):
                self.pose('null', 'bad' if not st.und else 'und', '%s gets a null pointer' % name, n, st)
            elif vs[0][0] == 'sym' and not self.sys(st).excludes(vs[0], 0):
                self.pose('null', 'bad' if not st.und else 'und', '%s can get a null pointer' % name, n, st)
            else:
                self.pose('null', 'ok', name, n, st)
            if not flt:
                lo, hi = {'PyLong_AsSize_t': (0, 2 ** 64 - 1), 'PyLong_AsUnsignedLong': (0, 2 ** 64 - 1), 'PyTuple_Size': (0, 2 ** 60)}.get(
                    name, (-2 ** 63, 2 ** 63 - 1))
                st.known[v] = (lo, hi)
            fail = C(-1.0) if flt else C(2 ** 64 - 1) if name in ('PyLong_AsSize_t', 'PyLong_AsUnsignedLong') else C(-1)
            st.events.append(CEv('number', n, self.u.where(n), arg=vs[0], value=v))
            return [(st, v), (bad, fail)]
        if name in ('PyFloat_AS_DOUBLE',):
            return [(st, ('call', name, tuple(vs), (), None))]
        if name in CHECKS or name in ('PyObject_TypeCheck',):
            return [(st, ('call', name, tuple(vs), (), None))]
        if name == 'PyTuple_GetItem':
            bad = st.copy()
            bad.err = 'set'
            h = self.handle(st, name, borrowed=True, n=0)
            return [(st, h), (bad, NULL)]
        if name in ARRAYFACT:
            a = vs[0]
            if is_const(a):
                self.pose('null', 'bad' if not st.und else 'und', '%s of a null pointer' % name, n, st)
                return [(st, NULL)]
            if name == 'PyArray_NDIM':
                return [(st, self.ndim(st, a))]
            if name in ('PyArray_DIMS', 'PyArray_SHAPE'):
                return [(st, ('dims', a))]
            if name in ('PyArray_DATA', 'PyArray_BYTES'):
                return [(st, ('data', a))]
            if name == 'PyArray_DIM' and is_const(vs[1]):
                s = self.sys(st)
                if not s.holds('<', vs[1], self.ndim(st, a)):
                    self.pose('bounds', 'bad' if not st.und else 'und', 'dimension %s need not exist' % cshow(vs[1]), n, st)
                return [(st, self.dim(st, a, vs[1][2]))]
            if name == 'PyArray_SIZE' and self.sys(st).holds('==', self.ndim(st, a), C(1)):
                return [(st, self.dim(st, a, 0))]
            t = ('fld', a, name, 0)
            return [(st, t)]
        if name == 'PyErr_WarnEx':
            bad = st.copy()
            bad.err = 'set'
            return [(st, C(0)), (bad, C(-1))]
        raise Unsupported('call of %s' % name)

    def fact_call(self, st, name, vs, val):
        st.dfacts[('eq', C(1), ('call', name, tuple(vs), (), None))] = val

    def arrayinfo(self, name, vs, st):
        r = {}
        if name.startswith('PyArray_'):
            r = {'contig': True, 'dtype': None}
            if name in ('PyArray_FROM_OTF', 'PyArray_FROMANY'):
                fl = vs[2] if name == 'PyArray_FROM_OTF' else vs[4]
                r['dtype'] = vs[1]
                r['contig'] = is_const(fl) and bool(fl[2] & 1) and bool(fl[2] & 0x100) or not is_const(fl)
            elif name == 'PyArray_FROM_OT':
                r['dtype'], r['contig'] = vs[1], False
            elif name == 'PyArray_FROM_OF':
                r['contig'] = is_const(vs[1]) and bool(vs[1][2] & 1)
            elif name == 'PyArray_FROM_O':
                r['contig'] = False
            elif name in ('PyArray_ContiguousFromAny', 'PyArray_ContiguousFromObject'):
                r['dtype'] = vs[1]
                if is_const(vs[2]) and vs[2] == vs[3] and vs[2][2] > 0:
                    r['nd'] = vs[2]
            elif name in ('PyArray_SimpleNew', 'PyArray_ZEROS', 'PyArray_EMPTY'):
                r['dtype'], r['nd'], r['dims'] = vs[2], vs[0], vs[1]
            elif name == 'PyArray_FromAny':
                r.pop('dtype')
                r['contig'] = is_const(vs[4]) and bool(vs[4][2] & 1)
                if is_const(vs[2]) and vs[2] == vs[3] and vs[2][2] > 0:
                    r['nd'] = vs[2]
            elif name in ('PyArray_NewLikeArray', 'PyArray_NewCopy'):
                src = st.res.get(vs[0], {})
                if 'nd' in src:
                    r['nd'] = src['nd']
                r.pop('dtype')
            else:
                r.pop('dtype')
        return r

    def ref(self, st, h):
        """Reference record of a pointer that is not owned so far."""
        if h not in st.res:
            st.res[h] = {'kind': 'ref', 'n': 0, 'borrowed': True}
        return st.res[h]

    def release(self, n, h, st, final=False):
        if h[0] == 'addr' and h[1][0] == 'glob' or h[0] not in ('h',):
            r = self.ref(st, h)
            r['n'] -= 1
            if final:
                r['freed'] = r.get('freed', 0) + 1
                r['dead'] = True
                if r['freed'] > 1:
                    self.pose('owned', 'bad' if not st.und else 'und', '%s is freed twice' % cshow(h), n, st)
            elif r['n'] < 0 and not r.get('kept'):
                self.pose('owned', 'bad' if not st.und else 'und', 'a reference to %s is released that is not owned' % cshow(h), n, st)
            return [(st, None)]
        r = self.ref(st, h)
        if final:
            if r.get('dead'):
                self.pose('owned', 'bad' if not st.und else 'und', '%s is freed twice' % cshow(h), n, st)
            r['dead'] = True
            r['n'] = 0
            return [(st, None)]
        if r['n'] <= 0:
            self.pose('owned', 'bad' if not st.und else 'und', '%s is released more often than it is owned' % cshow(h), n, st)
            r['n'] -= 1
            return [(st, None)]
        r['n'] -= 1
        if r['n'] == 0 and r.get('selfobj'):
            d = self.dealloc.get('#self')
            if d and d in self.u.funcs:
                r['n'] = 1          # alive while it is taken apart
                out = []
                for s, o in self.call_local(self.u.funcs[d], [h], st):
                    s.res[h]['n'] = 0
                    s.res[h]['dead'] = True
                    out.append((s, EXIT if o[0] == 'exit' else None))
                return out
        return [(st, None)]

    def free(self, n, name, p, st):
        if is_const(p):
            return [(st, None)]
        b, o = split(p)
        if o != C(0):
            self.pose('owned', 'bad' if not st.und else 'und', 'memory is freed through a pointer inside it', n, st)
        if b in st.res and st.res[b]['kind'] == 'mem':
            r = st.res[b]
            if r.get('dead'):
                self.pose('owned', 'bad' if not st.und else 'und', '%s is freed twice' % cshow(b), n, st)
            if r.get('family') != name:
                self.pose('owned', 'bad' if not st.und else 'und', 'memory is released with %s, but comes from another allocator' % name, n, st)
            r['dead'] = True
            r['n'] = 0
            return [(st, None)]
        if b[0] in ('h', 'addr', 'data', 'dims'):
            self.pose('owned', 'bad' if not st.und else 'und', '%s is freed, but was not allocated' % cshow(b), n, st)
            return [(st, None)]
        r = st.res.setdefault(b, {'kind': 'mem', 'n': 0, 'borrowed': True})
        if r.get('freed'):
            self.pose('owned', 'bad' if not st.und else 'und', '%s is freed twice' % cshow(b), n, st)
        r['freed'] = name
        r['dead'] = True
        st.events.append(CEv('free', n, self.u.where(n), what=b, fn=name))
        return [(st, None)]

    def span(self, st, p, size, n):
        b, o = split(p)
        self.alive(st, b, n)
        if is_const(b):
            self.pose('null', 'bad' if not st.und else 'und', 'a null pointer is written', n, st)
            return
        ext = self.extent(st, b)
        if ext is None:
            self.pose('bounds', 'und', 'extent of %s' % cshow(b), n, st)
            return
        self.require('bounds', st, '<=', plus(times(C(8), o), size), ext, 'the %s bytes at %s lie inside its memory' % (cshow(size), cshow(b)), n)

    def clobber(self, st, p, v):
        b, o = split(p)
        for k in [k for k in st.mem if k[0] == 'at' and k[1] == b]:
            del st.mem[k]
        st.log = st.log + [(('at', b, ('any',)), v)]
        if v is not None and b[0] == 'addr' and b[1][0] == 'mem' and b[1][1] in st.res:
            st.res[b[1][1]]['zerodata'] = True

    def parse(self, n, name, vs, args, st):
        kw = name.endswith('Keywords')
        base = 3 if kw else 2
        fmt = vs[base - 1]
        if name == 'PyArg_UnpackTuple' or fmt[0] != 'str':
            raise Unsupported(name)
        spec, func = fmt[1], None
        for c in ':;':
            if c in spec:
                spec = spec.split(c)[0]
        outs = vs[base + (1 if kw else 0):]
        outn = args[base + (1 if kw else 0):]
        units, optional = [], False
        i = 0
        while i < len(spec):
            ch = spec[i]
            if ch == '|':
                if optional:
                    self.pose('format', 'bad', 'the format "%s" has two "|"' % spec, n, st)
                optional = True
            elif ch == '$':
                pass
            elif ch == 'O' and i + 1 < len(spec) and spec[i + 1] == '!':
                units.append(('O!', optional))
                i += 1
            elif ch in FORMAT:
                units.append((ch, optional))
            else:
                raise Unsupported('format %r' % spec)
            i += 1
        need = sum(2 if u == 'O!' else 1 for u, _ in units)
        if need != len(outs):
            self.pose('format', 'bad', 'the format "%s" asks for %d variables and %d are given' % (spec, need, len(outs)), n, st)
            st.und.append('format')
            bad = st.copy()
            bad.err = 'set'
            return [(st, C(1)), (bad, C(0))]
        names = None
        if kw:
            names = self.kwlist(args[base])
            if names is not None:
                if names[-1] is not None:
                    self.pose('format', 'bad', 'the list of keywords has no end', n, st)
                elif len(names) - 1 != len(units):
                    self.pose('format', 'bad', 'the format "%s" has %d parameters, the list of keywords %d' % (spec, len(units), len(names) - 1), n, st)
                else:
                    self.pose('format', 'ok', spec, n, st)
        bad = st.copy()
        bad.err = 'set'
        j = 0
        for pos, (u, opt) in enumerate(units):
            if u == 'O!':
                j += 1
            p, node = outs[j], outn[j]
            j += 1
            size, kind = FORMAT[u[0]]
            target = self.pointee(node)
            if target is not None:
                try:
                    have = self.u.sizeof(target)
                    isf = target in FLOAT
                    if have != size or isf != (kind == 'flt'):
                        self.pose('format', 'bad', '"%s" stores %d bytes into a variable of type %s' % (u, size, target), n, st)
                    else:
                        self.pose('format', 'ok', '"%s" into %s' % (u, target), n, st)
                except Unsupported:
                    self.pose('format', 'und', target, n, st)
            for s, failed in ((st, False), (bad, True)):
                loc = self.deref(p)
                old = s.mem.get(loc)
                if kind == 'obj':
                    v = self.handle(s, 'argument %d' % pos, borrowed=True, n=0) if not failed else ('sym', 'argument %d' % pos)
                    if opt or failed:
                        v = ('opt', 'arg%d' % pos, old if old is not None else self.initial(loc)) if old is None or old[0] == 'undef' or failed else v
                else:
                    v = ('sym', 'arg%d:%s' % (pos, u))
                    lo, hi = {'i': (-2 ** 31, 2 ** 31 - 1), 'p': (0, 1), 'n': (-2 ** 63, 2 ** 63 - 1), 'l': (-2 ** 63, 2 ** 63 - 1), 'I': (0, 2 ** 32 - 1),
                              'k': (0, 2 ** 64 - 1), 'h': (-2 ** 15, 2 ** 15 - 1), 'b': (0, 255), 'B': (0, 255)}.get(u, (None, None))
                    if lo is not None:
                        s.known[v] = (lo, hi)
                    if failed or opt:
                        if old is not None and old[0] == 'undef':
                            v = ('undef', old[1])
                        else:
                            v = ('opt', 'arg%d:%s' % (pos, u), old if old is not None else self.initial(loc))
                            if lo is not None and old is not None and is_const(old) and lo <= old[2] <= hi:
                                s.known[v] = (lo, hi)
                s.mem[loc] = v
                s.events.append(CEv('parsed', n, self.u.where(n), loc=loc, unit=u, pos=pos, value=v, failed=failed,
                                     name=names[pos] if names and pos < len(names) else None))
        return [(st, C(1)), (bad, C(0))]

    def pointee(self, node):
        m = peel(node)
        t = self.u.ctype(m)
        return t[:-1].strip() if t.endswith('*') else None

    def kwlist(self, node):
        m = peel(node)
        if m['kind'] != 'DeclRefExpr':
            return None
        d = self.declof(m['referencedDecl']['id']) or self.u.vars.get(m['referencedDecl']['name'])
        if d is None:
            return None
        init = next((c for c in d.get('inner', []) if peel(c).get('kind') == 'InitListExpr'), None)
        if init is None:
            return None
        out = []
        init = peel(init)
        for c in init.get('inner') or init.get('array_filler', [])[1:]:
            c = peel(c)
            out.append(c.get('value', '""')[1:-1] if c['kind'] == 'StringLiteral' else None)
        return out


EXIT = ('EXIT',)


def asked(st, arr):
    """The path depends on a question about the kind of an array."""
    return any(isinstance(x, tuple) and len(x) > 2 and x[0] == 'fld' and x[1] == arr and str(x[2]).startswith('PyArray_') or
               isinstance(x, tuple) and len(x) > 2 and x[0] == 'call' and arr in x[2] for fs in (st.facts, st.dfacts) for k in fs for x in _terms(k))


def None_node(n):
    return {'kind': 'x', 'type': {'qualType': 'long'}, 'range': n.get('range', {})}


def peel_paren(n):
    while n.get('kind') == 'ParenExpr':
        n = n['inner'][0]
    return n


def labels(n):
    return {}


def split(p):
    """Base and element offset of a pointer."""
    if p[0] == 'padd':
        return p[1], p[2]
    return p, C(0)


def padd(b, i):
    b, j = split(b)
    i = plus(i, j)
    return b if i == C(0) else ('padd', b, i)


def handles(p):
    """Resources a pointer leads into: itself, the array its data pointer belongs to, the object it is a field of."""
    out = []
    while p is not None and isinstance(p, tuple) and p:
        if p[0] == 'padd':
            p = p[1]
        elif p[0] in ('data', 'dims'):
            p = p[1]
        elif p[0] == 'addr' and p[1][0] == 'mem':
            p = p[1][1]
        elif p[0] == 'addr' and p[1][0] == 'at':
            p = p[1][1]
        else:
            if p[0] in ('h', 'fld', 'sym'):
                out.append(p)
            break
    return out


def _terms(t):
    out = set()

    def walk(x):
        if isinstance(x, tuple):
            out.add(x)
            for y in x:
                walk(y)
    walk(t)
    return out


def cshow(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'h':
        return t[2]
    if k == 'sym':
        return t[1].split('#')[0]
    if k == 'fld':
        return '%s->%s' % (cshow(t[1]), t[2])
    if k == 'addr':
        return cshow(t[1])
    if k == 'mem':
        return '%s->%s' % (cshow(t[1]), t[2])
    if k == 'lv':
        return 'local'
    if k == 'data':
        return 'data of %s' % cshow(t[1])
    if k == 'dims':
        return 'dimensions of %s' % cshow(t[1])
    if k == 'padd':
        return '%s + %s' % (cshow(t[1]), cshow(t[2]))
    if k in ('ld', 'at'):
        return '%s[%s]' % (cshow(t[1]), cshow(t[2]))
    if k == 'const':
        return str(t[2])
    if k == 'op' and len(t[2]) == 2:
        return '(%s %s %s)' % (cshow(t[2][0]), t[1], cshow(t[2][1]))
    if k == 'op':
        return '%s%s' % (t[1], ', '.join(cshow(x) for x in t[2]))
    if k == 'call':
        return '%s(%s)' % (t[1], ', '.join(cshow(x) for x in t[2]))
    if k == 'phi':
        return 'value in the loop'
    if k == 'opt':
        return t[1]
    if k == 'undef':
        return str(t[1])
    if k == 'func':
        return t[1]
    return show(t) if k in ('str',) else k
