"""C18: blocks never modify buffers they do not own."""
import ast
import re

from .. import arrays as A
from ..core import V, clause, spread
from ..engine import TooManyPaths, is_const, show
from ..walk import flat
from . import c19, c29

EXPLAIN = ('Alias and effect analysis: every function and method is followed on all its paths. For every operation that changes an array in place '
           '(augmented assignment, assignment to an element or slice, fill/sort/put, numpy functions with an output array) the memory that is changed is traced back '
           'through slices, transposes, asarray, loop variables, attributes and helper functions to where it comes from: created or copied by the code itself '
           '(allowed), or the value of an input, a published output, an argument, a shared constant, a memoised array (violation). Buffers a class keeps and '
           'changes in place must not be published, and no view of them is used after they were changed.')
ASSUME = ['results of scipy.signal and of the C filters are new arrays', 'a slice looks at the memory of its array whatever the bounds']
MINIMUM = 3
TECHNIQUE = 'alias / ownership dataflow analysis of all in-place array operations'
CONN = 'klang.connections.'
BORROWED = {'kept': 'the array %s kept for later calls', 'input': 'the value of an input', 'published': 'an array that was already published as output', 'const': 'the shared constant %s',
            'memo': 'the memoised result of %s', 'arg': 'the array given as argument %s'}


def check(ctx):
    r = ctx.rep
    r.rule('owned', 'arrays are changed in place only where the code has created or copied them')
    r.rule('published', 'a buffer that is changed in place is not published')
    r.rule('stale', 'no view of a buffer is used after the buffer was changed')
    prog = ctx.prog
    fs = [f for key, f in sorted(prog.funcs.items()) if not f.mod.name.startswith('#') and not f.parent]
    reach = touching(prog)
    fs = [f for f in fs if f.key in reach]
    before = len(ctx.rep.notes)
    spread(ctx, fs, lambda ctx, f: clause(ctx, 'owned', function, f))
    notes = [x for x in ctx.rep.notes if isinstance(x, tuple)]
    ctx.rep.notes[:] = [x for x in ctx.rep.notes if not isinstance(x, tuple)]
    clause(ctx, 'owned', conclude, notes)


# -- which functions matter ----------------------------------------------------------

def sites(f):
    """Nodes of the function which may change something in place."""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.AugAssign):
            out.append(n)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            out.append(n)
        elif isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
            if name in A.METHOD_INPLACE or name in A.FUNC_INPLACE or name == 'at' or any(k.arg == 'out' for k in n.keywords):
                out.append(n)
    return out


def touching(prog):
    """Keys of functions that change something in place, or publish, or call something that does (by name)."""
    names = {}
    calls = {}
    hot = set()
    for f in prog.funcs.values():
        names.setdefault(f.name, []).append(f.key)
        used = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                used.add(n.attr)
            elif isinstance(n, ast.Name):
                used.add(n.id)
        calls[f.key] = used
        if sites(f):
            hot.add(f.key)
    work = True
    while work:
        work = False
        hotnames = {prog.funcs[k].name for k in hot} | {prog.funcs[k].cls.name for k in hot if prog.funcs[k].cls is not None and prog.funcs[k].name == '__init__'}
        for f in prog.funcs.values():
            if f.key not in hot and calls[f.key] & (hotnames - COMMON):
                hot.add(f.key)
                work = True
    return hot | {f.key for f in prog.funcs.values() if 'set_value' in calls[f.key]}


COMMON = {'__init__', 'append', 'update', 'connect', 'get', 'pop', 'remove', 'add', 'send', 'format', 'join', 'main', 'demo', 'helper'}


def memoised(g):
    return c19.memoised(g)


def function(ctx, f):
    prog = ctx.prog
    if f.name in ('main', 'demo') or f.mod.name.startswith('klang.plotting'):
        return
    selves = [None]
    if f.cls is not None and 'staticmethod' not in f.decos:
        selves = [('class', f.cls.key) if 'classmethod' in f.decos or f.name == '__new__' else ('obj', f.cls.key, 'self')]
    for me in selves:
        I = ctx.interp(opaque=lambda g: memoised(g) or g.name in ('update_internal_exec_order', 'connect', 'disconnect', 'print'))
        kw = {}
        if me is not None and me[0] == 'obj':
            kw['selfv'] = me
        elif me is not None:
            kw['selfv'] = me
        try:
            ps = ctx.run(I, f, **kw)
        except TooManyPaths:
            ps = None
        if ps is None:
            if sites(f):
                ctx.rep.notes.append(('und', f.key, 'too many paths'))
            continue
        for p in ps:
            Path(ctx, I, f, p, me).study()


class Path:
    """In-place changes and publications on one path of a root function."""

    def __init__(self, ctx, I, f, p, me):
        self.ctx, self.I, self.f, self.p, self.me = ctx, I, f, p, me
        self.loops = {}
        self.alias = {}
        self.shown = {}
        self.items = list(flat(p))
        self.collect(p.events)

    def collect(self, evs):
        for e in evs:
            if e.kind == 'iop':
                self.alias[('op', e.op, (e.base, e.value))] = e.base
            if e.kind == 'loop':
                self.loops.setdefault(e.loopid, e)
                for q in e.paths:
                    self.collect(q.events)

    # where does the memory come from

    def origin(self, t, seen=()):
        """Set of (kind, detail)."""
        if t in seen or len(seen) > 30:
            return set()
        seen = seen + (t,)
        if not isinstance(t, tuple) or not t:
            return {('unknown', '')}
        k = t[0]
        if k == 'const':
            return {('scalar', '')}
        if t in self.shown:
            return {('published', '')}
        if t in self.alias:
            return {('new', '')} | {x for x in self.origin(self.alias[t], seen) if x[0] not in ('scalar', 'unknown')}
        s = A.step(t)
        if s is not None and s[0] == 'new':
            return {('new', '')}
        if s is not None and s[0] == 'readonly':
            return {('unknown', '')}
        if s is not None and s[0] in ('view', 'maybe'):
            return self.origin(s[1], seen)
        if k in ('op', 'cmp'):
            return {('new', '')}
        if k == 'cont':
            return {('cont', t[1])}
        if k == 'idx':
            if A.advanced(t[2]):
                return {('new', '')}
            return self.part(t[1], t, seen)
        if k == 'elem':
            return self.part(t[1], t, seen)
        if k == 'sym':
            return {('arg', t[1])}
        if k == 'glob':
            return {('const', '%s.%s' % (t[1], t[2]))}
        if k == 'fld' or k == 'extm' and len(t) >= 3:
            if t[2] in A.ATTR_VIEWS:
                return self.origin(t[1], seen)
            return self.field(t[1], t[2], t)
        if k == 'phi':
            return self.phi(t, seen)
        if k == 'call':
            return self.call(t, seen)
        if k in ('tuple', 'obj'):
            return {(k, '')}
        return {('unknown', '')}

    def part(self, base, t, seen):
        """Element or slice of something: memory of the same owner."""
        if base[0] == 'cont':
            cs = self.I.contents(base, self.p.st)
            if cs and len(cs) < 20:
                out = set()
                for c in cs:
                    out |= self.origin(c, seen)
                return out
            return {('unknown', '')}
        if base[0] == 'call' and isinstance(base[1], str) and base[1] in ('builtins.zip', 'builtins.enumerate', 'builtins.list', 'builtins.tuple', 'builtins.reversed'):
            out = set()
            for x in base[2]:
                out |= self.part(x, t, seen) if x[0] != 'const' else set()
            return out or {('unknown', '')}
        return {(k, d) if k != 'own' else ('own', d) for k, d in self.origin(base, seen)}

    def field(self, base, attr, t):
        c = self.I.cls_of(base, self.p.st) if base[0] in ('obj', 'fld', 'elem', 'idx', 'sym', 'phi', 'call') else None
        key = c.key if c is not None else None
        if attr in ('_value', 'value') and (key is None or self.connection(c)):
            if key is None and attr == 'value' and base[0] == 'sym':
                return {('unknown', '')}
            if key is not None and any(x.name.startswith('Output') for x in self.ctx.prog.mro(c) if not isinstance(x, tuple)):
                return {('published', '')}
            return {('input', '')}
        if key is not None and base[0] == 'obj' and not isinstance(base[2], int):
            return {('own', (key, attr))}
        if key is not None:
            return {('own', (key, attr))}
        return {('unknown', '')}

    def connection(self, c):
        return any(not isinstance(x, tuple) and x.key.startswith(CONN) for x in self.ctx.prog.mro(c))

    def phi(self, t, seen):
        ev = self.loops.get(t[1])
        if ev is None:
            return {('unknown', '')}
        out = set()
        if isinstance(t[2], str):
            states = [ev.entry] + [q.st for q in ev.paths if q.st is not None]
            for m in ev.mod:
                if m[0] == 'env' and m[2] == t[2]:
                    for st in states:
                        v = st.envs.get(m[1], {}).get(t[2])
                        if v is not None:
                            out |= self.origin(v, seen)
        else:
            for st in [ev.entry] + [q.st for q in ev.paths if q.st is not None]:
                v = st.heap.get(t[2])
                if v is not None:
                    out |= self.origin(v, seen)
            if isinstance(t[2], tuple) and len(t[2]) == 2 and isinstance(t[2][1], str) and t[2] not in ev.entry.heap:
                out |= self.field(t[2][0], t[2][1], t)
        return out or {('unknown', '')}

    def call(self, t, seen):
        fn, args = t[1], t[2]
        if isinstance(fn, tuple) and fn and fn[0] == 'func':
            g = self.ctx.prog.funcs.get(fn[1])
            if g is not None and memoised(g):
                return {('memo', g.name)}
            return {('unknown', '')}
        if isinstance(fn, str):
            if fn.startswith('scipy.signal.') or fn in ('builtins.sum', 'copy.copy', 'copy.deepcopy'):
                return {('new', '')}
            if fn in ('builtins.len', 'builtins.int', 'builtins.float', 'builtins.abs', 'builtins.max', 'builtins.min', 'builtins.round', 'builtins.str') \
                    or fn.startswith('math.'):
                return {('scalar', '')}
            g = self.ctx.prog.funcs.get(fn)
            if g is not None and memoised(g):
                return {('memo', g.name)}
            return {('unknown', '')}
        m = A.method(fn)
        if m is None and isinstance(fn, tuple) and fn and fn[0] == 'fld':
            m = (fn[1], fn[2])
        if m is None:
            return {('unknown', '')}
        base, name = m
        if name in A.METHOD_VIEWS:
            return self.origin(base, seen)
        if name in A.METHOD_NEW or name in ('astype', 'sum', 'mean', 'max', 'min', 'prod', 'std', 'tolist', 'item'):
            return {('new', '')}
        if base[0] == 'obj':
            k = self.closures(base, name)
            if k:
                return k
        cands = self.methods(name)
        if cands:
            out = set()
            for g in cands:
                for kind, d in summary(self.ctx, g)[0]:
                    if kind == 'arg':
                        v = given(g, d, args, t[3])
                        out |= self.origin(v, seen) if v is not None else {('unknown', '')}
                    elif kind == 'own':
                        out.add(('own', d))
                    else:
                        out.add((kind, d))
            return out or {('unknown', '')}
        return {('unknown', '')}

    def methods(self, name):
        """Methods of the library an unknown object may be asked for by that name."""
        out = [g for g in self.ctx.prog.funcs.values() if g.name == name and g.cls is not None and not abstract(g)]
        return out if len(out) < 12 else []

    def closures(self, base, attr):
        """Origins of the results of functions an object keeps in an attribute."""
        c = self.ctx.prog.classes.get(base[1])
        sh = self.I.shape(c.key) if c is not None and self.ctx.prog.find_member(c, attr) is None else None
        out = set()
        for st in sh[0] if sh else ():
            v = st.heap.get((sh[1], attr))
            if v is None or v[0] != 'func':
                return None
            g = self.ctx.prog.funcs.get(v[1])
            if g is None:
                return None
            body = g.node.body
            rets = [body] if isinstance(g.node, ast.Lambda) else [n.value for n in ast.walk(g.node) if isinstance(n, ast.Return) and n.value is not None]
            for r in rets:
                params = {x.arg for x in g.node.args.args}
                stored = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                while isinstance(r, ast.Subscript) and isinstance(r.slice, ast.Slice):
                    r = r.value
                if isinstance(r, ast.Name) and r.id not in params | stored:
                    out.add(('kept', r.id))
                elif isinstance(r, (ast.BinOp, ast.UnaryOp)):
                    out.add(('new', ''))
                else:
                    out.add(('unknown', ''))
        return out or None

    def show_outputs(self, ev):
        """Values other blocks have published belong to all their readers."""
        mine = set()
        if self.me is not None and self.me[0] == 'obj':
            for name in ('outputs', '_outputs', 'output'):
                l = self.p.st.heap.get((self.me, name))
                if l is not None and l[0] == 'cont':
                    mine |= set(self.I.contents(l, self.p.st) or ())
                elif l is not None:
                    mine.add(l)
        v = ev.value
        c = self.I.cls_of(ev.base, self.p.st)
        if c is None or not self.connection(c) or ev.base in mine or is_const(v) or isinstance(ev.base[2] if len(ev.base) > 2 else None, int):
            return
        if A.arrayish(v) or v[0] in ('call', 'op', 'phi'):
            self.shown[v] = ev.base

    # what happens

    def study(self):
        notes = self.ctx.rep.notes
        changed = []            # (index, base)
        for i, it in enumerate(self.items):
            ev = it.ev
            for base, strong in targets(ev) + self.indirect(ev):
                if ev.func is None:
                    continue
                tags = self.origin(base)
                changed.append((i, base, it))
                for kind, d in tags:
                    if kind == 'arg':
                        if not self.judged(d, ev):
                            continue
                        if not arrayarg(self.f, d):
                            notes.append(('argsite', ev.func.key, ev.where, kind, d, strong, self.f.key))
                            continue
                    notes.append(('site', ev.func.key, ev.where, kind, d, strong, self.f.key))
                if not tags:
                    notes.append(('site', ev.func.key, ev.where, 'unknown', '', strong, self.f.key))
            if ev.kind == 'call' and ev.inlined and ev.fn[0] == 'func' and ev.args:
                self.passes(ev)
            if ev.kind == 'write' and ev.attr == '_value':
                self.show_outputs(ev)
            if ev.kind == 'write' and ev.attr == '_value' and ev.base[0] in ('obj', 'fld', 'elem', 'idx'):
                self.publish(ev, ev.value)
            elif ev.kind == 'call' and not ev.inlined and A.method(ev.fn) and A.method(ev.fn)[1] == 'set_value' and ev.args:
                self.publish(ev, ev.args[0])
            elif ev.kind == 'write' and ev.base[0] == 'obj' and isinstance(ev.attr, str) and ev.func is not None:
                for kind, d in self.origin(ev.value):
                    if kind == 'arg' and not self.judged(d, ev):
                        continue
                    notes.append(('store', ev.base[1], ev.attr, kind, d, ev.where))
        self.stale(changed)

    def indirect(self, ev):
        """Arguments which methods of unknown objects change."""
        if ev.kind != 'call' or ev.inlined:
            return []
        m = A.method(ev.fn) or (ev.fn[1:3] if isinstance(ev.fn, tuple) and ev.fn and ev.fn[0] == 'fld' else None)
        if not m or m[1] in A.METHOD_VIEWS | A.METHOD_NEW or not isinstance(m[1], str):
            return []
        out = []
        for g in self.methods(m[1]):
            for d in summary(self.ctx, g)[1]:
                v = given(g, d, ev.args, ev.kwargs)
                if v is not None:
                    out.append((v, True))
        return out

    def passes(self, ev):
        g = self.ctx.prog.funcs.get(ev.fn[1])
        if g is None:
            return
        names = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        for n, v in zip(names, ev.args):
            m = A.method(v[1]) if v[0] == 'call' else None
            if A.arrayish(v) or m and m[1] == 'copy' and m[0][0] == 'idx' and A.basic(m[0][2]) or any(k in ('input', 'published') for k, _ in self.origin(v)):
                self.ctx.rep.notes.append(('array', g.key, n))

    def publish(self, ev, value):
        for kind, d in self.origin(value):
            if kind == 'own':
                self.ctx.rep.notes.append(('publish', d, ev.where, self.f.key))

    def stale(self, changed):
        """Uses of a view after its buffer was changed."""
        if not changed:
            return
        made = {}
        for i, it in enumerate(self.items):
            ev = it.ev
            if ev.kind == 'getitem':
                made.setdefault(('idx', ev.base, ev.key, ev.ver), i)
        views = {}
        for t, i in made.items():
            if A.basic(t[2]):
                own = {d for k, d in self.origin(t) if k == 'own'}
                if own:
                    views[t] = (i, own, t[1])
        if not views:
            return
        for t, (i, own, base) in views.items():
            first = next((j for j, b, it in changed if j > i and b == base and same_loops(self.items[i], it)), None)
            if first is None:
                continue
            for it in self.items[first + 1:]:
                ev = it.ev
                if ev.kind == 'binop' and t in (self.root(ev.left), self.root(ev.right)) or ev.kind == 'write' and self.root(ev.value) == t:
                    if ev.func is not None:
                        self.ctx.rep.notes.append(('stale', ev.func.key, ev.where, self.f.key))
            if self.p.out[0] == 'ret' and self.root(self.p.out[1]) == t:
                self.ctx.rep.notes.append(('stale', self.f.key, self.items[first].ev.where, self.f.key))
        for t in views:
            self.ctx.rep.notes.append(('view', self.f.key))

    def root(self, t):
        for _ in range(10):
            if t in self.alias:
                t = self.alias[t]
                continue
            s = A.step(t) if isinstance(t, tuple) else None
            if s and s[0] in ('view', 'maybe'):
                t = s[1]
                continue
            if isinstance(t, tuple) and t and t[0] in ('fld', 'extm') and len(t) > 2 and t[2] in A.ATTR_VIEWS:
                t = t[1]
                continue
            m = A.method(t[1]) if isinstance(t, tuple) and t and t[0] == 'call' else None
            if m and m[1] in A.METHOD_VIEWS:
                t = m[0]
                continue
            return t
        return t

    def judged(self, name, ev):
        """Is a change of this argument of the root function a change of an array somebody else owns?"""
        f = self.f
        if f.name.startswith('_') and not f.name.endswith('__') or f.parent:
            return False
        if exported(f) or not called_inside(self.ctx.prog, f):
            return True
        return used_elsewhere(self.ctx.prog, f) and self.p.out[0] == 'ret' and not is_const(self.p.out[1])


def same_loops(a, b):
    return tuple(a.loops)[:len(b.loops)] == tuple(b.loops) or tuple(b.loops)[:len(a.loops)] == tuple(a.loops)


def abstract(g):
    body = [n for n in g.node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
    return all(isinstance(n, (ast.Raise, ast.Pass)) for n in body)


def given(g, name, args, kwargs):
    i = position(g, name)
    return args[i] if i is not None and i < len(args) else A.kwarg(kwargs, name)


def position(g, name):
    a = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
    if g.cls is not None and 'staticmethod' not in g.decos:
        a = a[1:]
    return a.index(name) if name in a else None


def summary(ctx, g):
    """(origins of the result of a method in terms of its arguments, arguments it changes in place)."""
    cache = ctx.__dict__.setdefault('c18_summaries', {})
    if g.key in cache:
        return cache[g.key]
    cache[g.key] = {('unknown', '')}, set()
    if not sites(g) and not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(g.node)):
        return cache[g.key]
    I = ctx.interp(opaque=memoised)
    out, mod = set(), set()
    kw = {'selfv': ('obj', g.cls.key, 'self')} if 'staticmethod' not in g.decos and 'classmethod' not in g.decos else {}
    notes = len(ctx.rep.notes)
    try:
        for p in ctx.run(I, g, **kw) or ():
            q = Path(ctx, I, g, p, kw.get('selfv'))
            if p.out[0] == 'ret' and not is_const(p.out[1]):
                out |= q.origin(p.out[1])
            for it in q.items:
                for base, strong in targets(it.ev):
                    mod |= {d for k, d in q.origin(base) if k == 'arg' and (strong or arrayarg(g, d))}
    except TooManyPaths:
        out = {('unknown', '')}
    del ctx.rep.notes[notes:]
    cache[g.key] = out or {('unknown', '')}, mod
    return cache[g.key]


def targets(ev):
    """[(term changed in place, certain that it is an array)]"""
    out = []
    if ev.kind == 'iop':
        out.append((ev.base, False))
    elif ev.kind == 'setitem':
        out.append((ev.base, A.basic(ev.key) or ev.key[0] == 'tuple'))
    elif ev.kind == 'mut' and ev.op in A.METHOD_INPLACE and ev.op not in ('sort', 'put'):
        out.append((ev.base, True))
    elif ev.kind == 'mut' and ev.op == 'sort':
        out.append((ev.base, False))
    elif ev.kind == 'call' and not ev.inlined:
        m = A.method(ev.fn)
        if m and m[1] in A.METHOD_INPLACE:
            out.append((m[0], m[1] in ('fill', 'itemset', 'partition')))
        n = A.numpy_name(ev.fn)
        if n is not None:
            tail = n.rsplit('.', 1)[-1]
            if tail in A.FUNC_INPLACE and ev.args:
                out.append((ev.args[0], True))
            if tail == 'at' and n.count('.') and ev.args:
                out.append((ev.args[0], True))
            k = 2 if tail in A.BINARY else 1 if tail in A.UNARY else None
            if k is not None and len(ev.args) > k and not is_const(ev.args[k]):
                out.append((ev.args[k], True))
        if n is not None or isinstance(ev.fn, tuple) and ev.fn[0] == 'ext' and ev.fn[1].startswith('scipy.') or m and m[1] in ('dot', 'sum', 'cumsum', 'clip', 'round', 'take', 'mean'):
            o = A.kwarg(ev.kwargs, 'out')
            if o is not None and not is_const(o):
                for x in o[1] if o[0] == 'tuple' else (o,):
                    out.append((x, True))
    return out


ARRAYDOC = re.compile(r'array|ndarray|samples|signal', re.I)


def arrayarg(f, name):
    """Evidence that an argument is an array: how it is used, its annotation or its documentation."""
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == name and x.annotation is not None and re.search(r'ndarray|array', ast.unparse(x.annotation)):
            return True
    doc = ast.get_docstring(f.node) or ''
    if re.search(r'^\s*%s \((np\.)?(nd)?array' % re.escape(name), doc, re.M):
        return True
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and n.attr in ('shape', 'ndim', 'T', 'dtype', 'size', 'astype', 'reshape'):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name and isinstance(n.slice, ast.Tuple):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy') \
                and any(isinstance(x, ast.Name) and x.id == name for x in n.args):
            return True
    return bool(re.match(r'(array|samples|signal|audio|data|buf|buffer|x|y|arr|wave|chunk)s?$', name))


def exported(f):
    for n in f.mod.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in n.targets):
            names = {x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant)}
            return f.name in names or f.cls is not None and f.cls.name in names
    return False


def used_elsewhere(prog, f):
    """A function of a module that other modules import."""
    if f.cls is not None:
        return False
    for m in prog.mods.values():
        if m is not f.mod and not m.name.startswith('#'):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom) and n.module and f.mod.name.endswith(n.module) and any(x.name == f.name for x in n.names):
                    return True
    return False


def called_inside(prog, f):
    cache = prog.__dict__.setdefault('c18_called', None)
    if cache is None:
        cache = {}
        for g in prog.funcs.values():
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call):
                    name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if name and name != g.name:
                        cache.setdefault(name, set()).add(g.key)
        prog.c18_called = cache
    return bool(cache.get(f.name))


def conclude(ctx, notes):
    prog = ctx.prog
    stores, sites_, pubs = {}, {}, []
    evidence = {(n[1], n[2]) for n in notes if n[0] == 'array'}
    for n in notes:
        if n[0] == 'store':
            stores.setdefault((n[1], n[2]), set()).add((n[3], n[4], n[5]))
        elif n[0] == 'argsite' and (n[6], n[4]) in evidence:
            sites_.setdefault((n[1], n[2]), []).append(n[3:])
        elif n[0] == 'site':
            sites_.setdefault((n[1], n[2]), []).append(n[3:])
        elif n[0] == 'publish':
            pubs.append(n[1:])
    const = {}

    def shared(name):
        if name not in const:
            const[name] = is_array(ctx, name)
        return const[name]

    def attribute(key, attr, depth=0):
        """Origins of what an attribute may hold, from everything that stores it."""
        out = set()
        for c in prog.mro(prog.classes[key]) + [x for x in prog.classes.values() if prog.classes[key] in prog.mro(x)] if key in prog.classes else ():
            if not isinstance(c, tuple):
                out |= {(k, d) for k, d, _ in stores.get((c.key, attr), ())}
        return out

    changed = {}
    byfunc = {}
    for (func, where), xs in sorted(sites_.items(), key=lambda x: (x[0][0], str(x[0][1]))):
        v = byfunc.get(func)
        if v is None:
            v = byfunc[func] = V(ctx, 'owned', func)
            v.n = 0
        v.n += 1
        kinds = {(k, d) for k, d, _, _ in xs}
        strong = any(s for _, _, s, _ in xs)
        for kind, d in sorted(kinds, key=str):
            if kind == 'own':
                changed.setdefault(d, set()).add((where, strong))
                for k2, d2 in sorted(attribute(*d), key=str):
                    if k2 in ('input', 'memo', 'published', 'kept') or k2 == 'const' and shared(d2) or k2 == 'arg':
                        v.bad('changes %s, kept as %s, in place' % (describe(k2, d2), d[1]), where)
            elif kind in ('input', 'published', 'memo', 'arg', 'kept'):
                v.bad('changes %s in place' % describe(kind, d), where)
            elif kind == 'const':
                if shared(d):
                    v.bad('changes %s in place' % describe(kind, d), where)
            elif kind == 'unknown' and strong and len(kinds) == 1:
                v.und('changes something of unknown origin')
    for n in notes:
        if n[0] == 'und':
            v = byfunc.setdefault(n[1], V(ctx, 'owned', n[1]))
            v.n = 0
            v.und(n[2])
    for func, v in sorted(byfunc.items()):
        v.done('%d places' % v.n)
    seen = {}
    for d, where, func in pubs:
        seen.setdefault(func, set()).add((d, where))
    for func, ds in sorted(seen.items()):
        v = V(ctx, 'published', func)
        for d, where in sorted(ds, key=str):
            if any(strong for _, strong in changed.get(d, ())) or d in changed and any(k == 'new' for k, _ in attribute(*d)):
                at = sorted(str(w) for w, _ in changed[d])[0]
                v.bad('publishes the buffer %s itself, which is changed in place at %s' % (d[1], at), where)
        v.done()
    views = {}
    for n in notes:
        if n[0] == 'view':
            views.setdefault(n[1], None)
    for n in notes:
        if n[0] == 'stale':
            views.setdefault(n[3], None)
            if views[n[3]] is None:
                views[n[3]] = n
    for func, n in sorted(views.items()):
        v = V(ctx, 'stale', func)
        if n is not None:
            v.bad('a view of a buffer is used after the buffer was changed', n[2])
        v.done()


def describe(kind, d):
    s = BORROWED[kind]
    return s % d if '%s' in s else s


def is_array(ctx, name):
    m, _, n = name.rpartition('.')
    if m not in ctx.prog.mods:
        return False
    try:
        vals, I, p = c29.module_values(ctx, m, [n])
    except Exception:
        vals = {}
    t = vals.get(n, (None,))[0] if vals else None
    if t is not None and A.arrayish(t):
        return True
    for node in ctx.prog.mods[m].tree.body:
        if isinstance(node, ast.Assign) and any(isinstance(x, ast.Name) and x.id == n for x in node.targets):
            if isinstance(node.value, ast.Call):
                fn = node.value.func
                called = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
                if called in A.NEW | {'get_silence', 'get_time'}:
                    return True
                g = ctx.prog.funcs.get('%s.%s' % (m, called))
                return g is not None and memoised(g)
    return False
