"""Extension modules: which functions the interpreter calls and how, object invariants, ownership at the end of every path."""
import glob
import os

from .cfront import C, EXIT, NULL, MEMBER, CInterp, St, TooMany, Unit, Unsupported, cshow, plus, times

SELF = ('sym', 'self')
ARG = {'args': ('sym', 'args'), 'kwargs': ('sym', 'kwargs'), 'value': ('sym', 'value'), 'closure': ('sym', 'closure'), 'type': ('sym', 'type')}


class Role:
    """A function the interpreter enters."""

    def __init__(self, kind, func, tname, label, nargs=None, bare=False):
        self.kind, self.func, self.tname, self.label, self.nargs, self.bare = kind, func, tname, label, nargs, bare

    def __repr__(self):
        return '%s %s' % (self.kind, self.func)


class Module:
    def __init__(self, root, path):
        self.unit = u = Unit(root, path)
        self.types = u.types()
        self.roles = []
        self.members = {}            # type -> [(name, row)]
        self.problems = []           # (rule, verdict, text, where)
        self.collect()

    def collect(self):
        u = self.unit
        for tn, slots in sorted(self.types.items()):
            if not isinstance(slots, dict):
                continue
            name = slots.get('tp_name', ('', tn))[1]
            name = name.rpartition('.')[2] if isinstance(name, str) else tn
            for slot, kind in (('tp_new', 'new'), ('tp_init', 'init'), ('tp_dealloc', 'dealloc')):
                r = slots.get(slot)
                if r and r[0] == 'ref' and r[1] in u.funcs:
                    self.roles.append(Role(kind, r[1], tn, name, 3 if kind != 'dealloc' else 1))
            for slot, kind, key in (('tp_methods', 'method', 'ml_meth'), ('tp_getset', 'getset', 'get'), ('tp_members', 'member', 'name')):
                ref = slots.get(slot)
                if not ref or ref[0] != 'ref':
                    continue
                rows = u.table(ref[1])
                if not isinstance(rows, list) or not rows:
                    continue
                last = rows[-1]
                head = last.get('ml_name', last.get('name')) if isinstance(last, dict) else None
                ok = isinstance(last, dict) and (head is None or head == ('int', 0))
                self.problems.append(('tables', 'ok' if ok else 'bad', 'the table %s ends with a sentinel' % ref[1] if ok else
                                      'the table %s has no sentinel at its end' % ref[1], u.where(u.vars[ref[1]])))
                for row in rows:
                    if not isinstance(row, dict):
                        continue
                    nm = row.get('ml_name', row.get('name'))
                    if not nm or nm[0] != 'str':
                        continue
                    if kind == 'method':
                        f = row.get('ml_meth')
                        fl = row.get('ml_flags', ('int', 0))
                        if f and f[0] == 'ref' and f[1] in u.funcs and fl[0] == 'int':
                            self.roles.append(Role('method', f[1], tn, '%s.%s' % (name, nm[1]), 3 if fl[1] & 2 else 2, fl[1] & 12 == 4))
                    elif kind == 'getset':
                        for k in ('get', 'set'):
                            f = row.get(k)
                            if f and f[0] == 'ref' and f[1] in u.funcs:
                                self.roles.append(Role(k, f[1], tn, '%s.%s' % (name, nm[1]), 2 if k == 'get' else 3))
                    else:
                        self.members.setdefault(tn, []).append((nm[1], row))
        for fn in sorted(u.funcs):
            if fn.startswith('PyInit_'):
                self.roles.append(Role('module', fn, None, fn, 0))
        for vn, n in u.vars.items():
            if u.ctype(n) in ('PyModuleDef',):
                t = u.table(vn)
                ref = t.get('m_methods') if isinstance(t, dict) else None
                for row in u.rows(ref):
                    f, nm, fl = row.get('ml_meth'), row.get('ml_name'), row.get('ml_flags', ('int', 0))
                    if f and f[0] == 'ref' and f[1] in u.funcs and nm and nm[0] == 'str' and fl[0] == 'int':
                        self.roles.append(Role('function', f[1], None, nm[1], 3 if fl[1] & 2 else 2, fl[1] & 12 == 4))

    def params(self, f):
        return [c for c in self.unit.funcs[f].get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def struct(self, tn):
        """Structure of the objects of a type: what its functions take as self."""
        for r in self.roles:
            if r.tname == tn and r.kind not in ('new', 'module'):
                ps = self.params(r.func)
                if ps:
                    q = self.unit.ctype(ps[0])
                    if q.endswith('*') and q[:-1].strip() in self.unit.named and q[:-1].strip() != 'PyObject':
                        return q[:-1].strip()
        return None

    def dealloc(self, tn):
        return next((r.func for r in self.roles if r.tname == tn and r.kind == 'dealloc'), None)

    # ------------------------------------------------ running a role
    def interp(self, tn, inv=None, opaque=()):
        I = CInterp(self.unit, opaque=opaque, invariants=inv, typedealloc={'#self': self.dealloc(tn)} if tn else {})
        try:
            I.selftype = self.unit.sizeof(self.struct(tn)) if tn and self.struct(tn) else None
        except Unsupported:
            pass
        return I

    def arguments(self, role):
        ps = len(self.params(role.func))
        if role.kind == 'new':
            a = [('sym', 'type'), ARG['args'], ARG['kwargs']]
        elif role.kind == 'init':
            a = [SELF, ARG['args'], ARG['kwargs']]
        elif role.kind == 'dealloc':
            a = [SELF]
        elif role.kind == 'get':
            a = [SELF, ARG['closure']]
        elif role.kind == 'set':
            a = [SELF, ARG['value'], ARG['closure']]
        elif role.kind in ('method', 'function'):
            a = [SELF, NULL if role.bare else ARG['args'], ARG['kwargs']]
        else:
            a = []
        return a[:ps]

    def start(self, role, known=()):
        st = St()
        for t in (SELF, ARG['args'], ('sym', 'type')):
            st.known[t] = (1, None)
        st.known[ARG['value']] = st.known[ARG['kwargs']] = (0, None)
        return st

    def paths(self, role, keep=(), opaque=()):
        """(interpreter, paths) of a role with object invariants assumed."""
        q = self.struct(role.tname) if role.tname else None
        pre = role.kind in ('init', 'get', 'set', 'method') and q is not None
        fn = (lambda i, st, node: [x for x in self.candidates(st, SELF, q) if x[0] in keep]) if pre else None
        I = self.interp(role.tname, fn, opaque)
        st = self.start(role)
        if pre:
            for x in fn(I, st, None):
                I.assume(st, x[1], x[2], x[3])
        if role.kind == 'dealloc':
            st.res[SELF] = {'kind': 'ref', 'n': 1, 'borrowed': True}
        return I, I.run(role.func, self.arguments(role), st)

    # ------------------------------------------------ invariants
    def peek(self, st, loc, q):
        if loc in st.mem:
            return st.mem[loc]
        b = loc[1]
        if b[0] == 'h' and b in st.res and st.res[b].get('zero'):
            return C(0)
        if b[0] == 'h':
            return None
        v = ('fld', b, loc[2], 0)
        t = self.unit.layout(q)[loc[2]][2]
        if t.startswith('unsigned'):
            st.known.setdefault(v, (0, 2 ** 64 - 1))
        return v

    def fields(self, q):
        return [(f, x[2]) for f, x in self.unit.layout(q).items() if not f.startswith('#') and f != 'ob_base']

    def candidates(self, st, p, q, prefix='', depth=0):
        """Template invariants of a structure at p: (key, rel, a, b), evaluated in a state."""
        out = []
        try:
            fs = self.fields(q)
        except Unsupported:
            return out
        ints = [f for f, t in fs if t.split()[-1] in ('int', 'long', 'short', 'char') or t in ('unsigned', 'unsigned long')]
        val = {f: self.peek(st, ('mem', p, f), q) for f in ints}
        ints = [f for f in ints if val[f] is not None and val[f][0] != 'undef']
        for f in ints:
            out.append((prefix + f + '>=1', '<=', C(1), val[f]))
            out.append((prefix + f + '>=0', '<=', C(0), val[f]))
            for g in ints:
                if f != g:
                    out.append((prefix + f + '<' + g, '<', val[f], val[g]))
                    out.append((prefix + f + '<=' + g, '<=', val[f], val[g]))
        for f, t in fs:
            if not t.endswith('*') or depth > 1:
                continue
            v = self.peek(st, ('mem', p, f), q)
            if v is None or v[0] == 'undef':
                continue
            if v[0] in ('h', 'addr', 'padd'):
                out.append((prefix + f + '!=0', '<', C(0), C(1)))
            else:
                out.append((prefix + f + '!=0', '!=', v, C(0)))
            if v == NULL:
                continue
            tgt = t[:-1].strip()
            size = st.res[v].get('bytes') if v[0] == 'h' and v in st.res else ('fld', v, '#bytes', 0)
            if size is None:
                continue
            if tgt in self.unit.named and not tgt.startswith('Py'):
                inner = self.fields(tgt)
                flex = [(g, x) for g, x in inner if self.unit.layout(tgt)[g][1] == 0]
                iv = [g for g, x in inner if x in ('unsigned long', 'long', 'int', 'unsigned int')]
                off = self.unit.layout(tgt)['#size']
                for g, x in flex:
                    es = self.unit.sizeof(x[:x.rindex('[')].strip())
                    o = self.unit.layout(tgt)[g][0]
                    for c in iv:
                        cv = self.peek(st, ('mem', v, c), tgt)
                        if cv is not None and cv[0] != 'undef':
                            out.append(('%s%s bytes>=%s' % (prefix, f, c), '<=', plus(C(o), times(C(es), cv)), size))
                out.append((prefix + f + ' bytes>=struct', '<=', C(off), size))
                out += self.candidates(st, v, tgt, prefix + f + '->', depth + 1)
            elif tgt in ('double', 'float', 'int'):
                es = self.unit.sizeof(tgt)
                for c in ints:
                    out.append(('%s%s bytes>=%s' % (prefix, f, c), '<=', times(C(es), val[c]), size))
        return out

    def infer(self, tn):
        """Invariants every constructor establishes and every operation keeps, and the ones dropped because of something not understood."""
        q = self.struct(tn)
        vague = []
        if q is None:
            return set(), ['no structure'], []
        keep = None
        for r in self.roles:
            if r.kind == 'new' and r.tname == tn:
                try:
                    I, ps = self.paths(r)
                except (Unsupported, TooMany) as e:
                    return set(), ['%s: %s' % (r.func, e)], []
                for p in ps:
                    if p.kind != 'ret' or p.value is None or p.value[0] != 'h':
                        continue
                    s = I.sys(p.st)
                    have = {k for k, rel, a, b in self.candidates(p.st, p.value, q) if rel != '!=' and s.holds(rel, a, b)}
                    keep = have if keep is None else keep & have
        keep = keep or set()
        for f, row in self.members.get(tn, []):
            fl = row.get('flags', ('int', 0))
            off = row.get('offset', ('', ''))[1]
            if fl == ('int', 0) and isinstance(off, str):
                fld = off.rpartition(',')[2].strip(' )')
                keep = {k for k in keep if fld not in k}
        # preserved by everything else
        broken = []
        for _ in range(40):
            drop = set()
            for r in self.roles:
                if r.tname != tn or r.kind not in ('init', 'get', 'set', 'method'):
                    continue
                try:
                    I, ps = self.paths(r, keep)
                except (Unsupported, TooMany) as e:
                    vague.append('%s: %s' % (r.func, e))
                    continue
                for p in ps:
                    s = I.sys(p.st)
                    for k, rel, a, b in self.candidates(p.st, SELF, q):
                        if k not in keep or k in drop:
                            continue
                        held = s.holds(rel, a, b) if rel != '!=' else s.excludes(a, b)
                        if not held:
                            drop.add(k)
                            broken.append((k, r.func))
                            if not s.exact(a, b) or p.st.und:
                                vague.append(k)
            if not drop:
                break
            keep = keep - drop
        return keep, vague, broken


def modules(root):
    out = []
    for p in sorted(glob.glob(os.path.join(root, 'klang', '**', '*.c'), recursive=True)):
        with open(p, encoding='utf-8', errors='replace') as f:
            if 'Python.h' in f.read():
                out.append(p)
    return out
