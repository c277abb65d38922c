"""Program model: modules, classes, functions and name resolution for a Python package given as source."""
import ast
import os


class AnalysisBroken(Exception):
    """A public anchor the rules rest on has vanished (error exit, never a silent pass)."""


class Func:
    """One function, method, lambda or comprehension scope of the repository."""
    __slots__ = ('key', 'name', 'node', 'mod', 'cls', 'parent', 'decos', 'isgen', 'locals', 'globals_', 'nonlocals')

    def __init__(self, key, name, node, mod, cls, parent):
        self.key, self.name, self.node, self.mod, self.cls, self.parent = key, name, node, mod, cls, parent
        self.decos = [deco_name(d) for d in getattr(node, 'decorator_list', [])]
        self.isgen = False
        self.globals_, self.nonlocals = set(), set()
        self.locals = set()
        args = node.args
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            self.locals.add(a.arg)
        for a in (args.vararg, args.kwarg):
            if a:
                self.locals.add(a.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for n in walk_scope(body):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.isgen = True
            elif isinstance(n, ast.Global):
                self.globals_.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        self.locals -= self.globals_ | self.nonlocals

    @property
    def qual(self):
        return self.key

    @property
    def where(self):
        return '%s:%d' % (self.mod.rel, getattr(self.node, 'lineno', 0))

    def __repr__(self):
        return '<Func %s>' % self.key


def walk_scope(stmts):
    """Walk statements without entering nested function or class scopes (their own node is still reported).
    Comprehensions are entered, except for their targets being treated as locals is harmless."""
    todo = list(stmts)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo[:0] = n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        todo[:0] = list(ast.iter_child_nodes(n))


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
    return '.'.join(reversed(parts))


class Cls:
    """One class of the repository."""
    __slots__ = ('key', 'name', 'node', 'mod', 'members', 'bases', '_mro', 'prog', 'ntfields', 'isenum')

    def __init__(self, prog, key, node, mod):
        self.prog, self.key, self.name, self.node, self.mod = prog, key, node.name, node, mod
        self.members = {}
        self.bases = None
        self._mro = None
        self.ntfields = None
        self.isenum = False

    def __repr__(self):
        return '<Cls %s>' % self.key


class Mod:
    __slots__ = ('name', 'path', 'rel', 'tree', 'src', 'binds', 'ispkg', 'mutglobals')

    def __init__(self, name, path, rel, src, ispkg):
        self.name, self.path, self.rel, self.src, self.ispkg = name, path, rel, src, ispkg
        self.tree = ast.parse(src, path)
        self.binds = {}
        self.mutglobals = set()


class Prog:
    """All modules of the package below `root`."""

    def __init__(self, root='/repo', pkg='klang'):
        self.root, self.pkg = root, pkg
        self.mods, self.classes, self.funcs = {}, {}, {}
        self.by_node = {}
        self.load()

    # -- loading ----------------------------------------------------------
    def load(self):
        base = os.path.join(self.root, self.pkg)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if not x.startswith(('__pycache__', '.')))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)
                name = rel[:-3].replace(os.sep, '.')
                ispkg = name.endswith('.__init__')
                if ispkg:
                    name = name[:-9]
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                self.add_module(name, path, rel, src, ispkg)
        if not self.mods:
            raise AnalysisBroken('no package %s below %s' % (self.pkg, self.root))

    def add_module(self, name, path, rel, src, ispkg=False):
        m = Mod(name, path, rel, src, ispkg)
        self.mods[name] = m
        self.scan(m, m.tree.body, None, None, name, m.binds, top=True)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.mutglobals.update(n.names)
        return m

    def scan(self, m, stmts, cls, parent, prefix, binds, top=False, ctx=()):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.add_func(m, s, cls, parent, prefix)
                binds.setdefault(s.name, []).append(('func', f, ctx))
            elif isinstance(s, ast.ClassDef):
                c = self.add_class(m, s, prefix)
                binds.setdefault(s.name, []).append(('class', c, ctx))
            elif isinstance(s, ast.Import):
                for al in s.names:
                    nm = (al.asname or al.name.split('.')[0])
                    binds.setdefault(nm, []).append(('import', al.name if al.asname else al.name.split('.')[0], ctx))
            elif isinstance(s, ast.ImportFrom):
                base = self.import_base(m, s)
                for al in s.names:
                    binds.setdefault(al.asname or al.name, []).append(('from', (base, al.name), ctx))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self.bind_target(t, s.value, binds, ctx)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    self.bind_target(s.target, s.value, binds, ctx)
            elif isinstance(s, ast.AugAssign):
                if isinstance(s.target, ast.Name):
                    binds.setdefault(s.target.id, []).append(('aug', s, ctx))
            elif isinstance(s, (ast.If, ast.While)):
                self.scan(m, s.body, cls, parent, prefix, binds, top, ctx + (('if', s, True),))
                self.scan(m, s.orelse, cls, parent, prefix, binds, top, ctx + (('if', s, False),))
            elif isinstance(s, (ast.For, ast.With)):
                self.scan(m, s.body, cls, parent, prefix, binds, top, ctx + (('loop', s, True),))
            elif isinstance(s, ast.Try):
                self.scan(m, s.body, cls, parent, prefix, binds, top, ctx + (('try', s, 'body'),))
                for h in s.handlers:
                    self.scan(m, h.body, cls, parent, prefix, binds, top, ctx + (('try', s, 'except'),))
                self.scan(m, s.orelse, cls, parent, prefix, binds, top, ctx)
                self.scan(m, s.finalbody, cls, parent, prefix, binds, top, ctx)
            self.scan_nested(m, s, cls, parent, prefix)

    def bind_target(self, t, value, binds, ctx):
        if isinstance(t, ast.Name):
            binds.setdefault(t.id, []).append(('assign', value, ctx))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    binds.setdefault(e.id, []).append(('unpack', (value, i, len(t.elts)), ctx))

    def scan_nested(self, m, s, cls, parent, prefix):
        """Lambdas at module / class level."""
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        for n in walk_scope([s]):
            if isinstance(n, ast.Lambda) and n not in self.by_node:
                self.add_lambda(m, n, cls, parent, prefix)

    def add_lambda(self, m, n, cls, parent, prefix):
        f = Func('%s.<lambda:%d:%d>' % (prefix, n.lineno, n.col_offset), '<lambda>', n, m, cls, parent)
        self.funcs[f.key] = f
        self.by_node[n] = f
        for x in walk_scope([n.body]):
            if isinstance(x, ast.Lambda) and x not in self.by_node:
                self.add_lambda(m, x, cls, f, f.key)
        return f

    def add_func(self, m, node, cls, parent, prefix):
        key = '%s.%s' % (prefix, node.name)
        k, i = key, 1
        while k in self.funcs:   # property setters and overloads
            i += 1
            k = '%s#%d' % (key, i)
        f = Func(k, node.name, node, m, cls, parent)
        self.funcs[k] = f
        self.by_node[node] = f
        for n in walk_scope(node.body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if n not in self.by_node:
                    self.add_func(m, n, None, f, k)
            elif isinstance(n, ast.ClassDef):
                self.add_class(m, n, k)
            elif isinstance(n, ast.Lambda) and n not in self.by_node:
                self.add_lambda(m, n, cls, f, k)
        return f

    def add_class(self, m, node, prefix):
        c = Cls(self, '%s.%s' % (prefix, node.name), node, m)
        self.classes[c.key] = c
        self.by_node[node] = c
        self.scan(m, node.body, c, None, c.key, c.members)
        return c

    def import_base(self, m, s):
        if not s.level:
            return s.module or ''
        parts = m.name.split('.')
        if not m.ispkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        if s.module:
            parts.append(s.module)
        return '.'.join(parts)

    # -- static name resolution ------------------------------------------
    def lookup(self, m, name, seen=()):
        """Resolve a module level name. Returns a list of candidate ('func', Func) / ('class', Cls) / ('mod', name) /
        ('ext', dotted) / ('expr', Mod, name, node) / None, best first."""
        if (m.name, name) in seen:
            return []
        out = []
        for kind, x, ctx in m.binds.get(name, []):
            if kind == 'func':
                out.append((('func', x), ctx))
            elif kind == 'class':
                out.append((('class', x), ctx))
            elif kind == 'import':
                out.append((('mod', x) if x in self.mods else ('ext', x), ctx))
            elif kind == 'from':
                base, nm = x
                if base in self.mods:
                    sub = self.lookup(self.mods[base], nm, seen + ((m.name, name),))
                    if sub:
                        out.append((sub[0], ctx))
                    elif base + '.' + nm in self.mods:
                        out.append((('mod', base + '.' + nm), ctx))
                    else:
                        out.append((('ext', base + '.' + nm), ctx))
                elif base + '.' + nm in self.mods:
                    out.append((('mod', base + '.' + nm), ctx))
                else:
                    out.append((('ext', base + '.' + nm), ctx))
            elif kind in ('assign', 'unpack', 'aug'):
                out.append((('expr', m, name, kind, x), ctx))
        # the fallback branch of "try: import C extension / except ImportError: import Python version"
        if len(out) > 1:
            tr = [o for o in out if any(c[0] == 'try' for c in o[1])]
            if len(tr) == len(out):
                py = [o for o in out if o[0][0] in ('class', 'func')]
                if py:
                    out = py + [o for o in out if o not in py]
            else:
                out = list(reversed(out))
        return [o for o, _ in out]

    def resolve_static(self, m, node):
        """Resolve a Name / Attribute chain at module level: ('class', Cls) | ('func', Func) | ('mod', n) | ('ext', d) | None."""
        if isinstance(node, ast.Name):
            c = self.lookup(m, node.id)
            if c:
                if c[0][0] == 'expr' and c[0][3] == 'assign' and isinstance(c[0][4], (ast.Name, ast.Attribute)):
                    return self.resolve_static(m, c[0][4])
                return c[0]
            import builtins
            return ('ext', 'builtins.' + node.id) if hasattr(builtins, node.id) else None
        if isinstance(node, ast.Attribute):
            b = self.resolve_static(m, node.value)
            if b is None:
                return None
            if b[0] == 'mod':
                c = self.lookup(self.mods[b[1]], node.attr)
                if c:
                    return c[0]
                if b[1] + '.' + node.attr in self.mods:
                    return ('mod', b[1] + '.' + node.attr)
                return None
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + node.attr)
            if b[0] == 'class':
                mem = b[1].members.get(node.attr)
                if mem and mem[-1][0] in ('func', 'class'):
                    return (mem[-1][0], mem[-1][1])
        return None

    # -- classes ----------------------------------------------------------
    def bases_of(self, c):
        if c.bases is None:
            c.bases = []
            for b in c.node.bases:
                if isinstance(b, ast.Call):
                    t = self.resolve_static(c.mod, b.func)
                    if t == ('ext', 'collections.namedtuple') or t == ('ext', 'typing.NamedTuple'):
                        c.ntfields = namedtuple_fields(b)
                        c.bases.append(('ext', 'builtins.tuple'))
                    else:
                        c.bases.append(('ext', '?'))
                    continue
                t = self.resolve_static(c.mod, b)
                if t is None:
                    c.bases.append(('ext', '?'))
                elif t[0] == 'expr':
                    v = t[4]
                    if t[3] == 'assign' and isinstance(v, ast.Call) and self.resolve_static(c.mod, v.func) == (
                            'ext', 'collections.namedtuple'):
                        c.ntfields = namedtuple_fields(v)
                        c.bases.append(('ext', 'builtins.tuple'))
                    else:
                        c.bases.append(('ext', '?'))
                else:
                    c.bases.append(t)
                    if t[0] == 'ext' and t[1] in ('enum.Enum', 'enum.IntEnum', 'enum.Flag'):
                        c.isenum = True
        return c.bases

    def mro(self, c):
        """C3 linearisation over repository classes; external bases are kept as ('ext', name)."""
        if c._mro is None:
            seqs = []
            bases = self.bases_of(c)
            for b in bases:
                seqs.append([('class', x) if not isinstance(x, tuple) else x for x in self.mro(b[1])] if b[0] == 'class' else [b])
            seqs.append(list(bases))
            res = [('class', c)]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                seqs = [[x for x in s if x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            c._mro = [x[1] if x[0] == 'class' else x for x in res]
            for b in c._mro[1:]:
                if isinstance(b, Cls):
                    if c.ntfields is None and b.ntfields is not None:
                        c.ntfields = b.ntfields
                    c.isenum = c.isenum or b.isenum
        return c._mro

    def find_member(self, c, name, after=None):
        """(defining Cls, binding) of a class member through the MRO, or None. Binding: (kind, payload, ctx)."""
        mro = self.mro(c)
        start = 0
        if after is not None:
            start = mro.index(after) + 1 if after in mro else len(mro)
        for k in mro[start:]:
            if isinstance(k, Cls) and name in k.members:
                return k, k.members[name]
        return None

    def ext_bases(self, c):
        return [b for b in self.mro(c) if isinstance(b, tuple)]

    def is_subclass(self, c, d):
        return d in self.mro(c)

    def cls(self, key):
        """Class by 'module.Class' (AnalysisBroken if gone) - re-exports are followed."""
        if key in self.classes:
            return self.classes[key]
        mod, _, name = key.rpartition('.')
        if mod in self.mods:
            c = self.lookup(self.mods[mod], name)
            if c and c[0][0] == 'class':
                return c[0][1]
        raise AnalysisBroken('class %s not found' % key)

    def func(self, key):
        """Function or method by 'module.func' / 'module.Class.method'."""
        mod, _, name = key.rpartition('.')
        if mod in self.mods:
            c = self.lookup(self.mods[mod], name)
            if c and c[0][0] == 'func':
                return c[0][1]
            if c and c[0][0] == 'expr':
                r = self.resolve_static(self.mods[mod], ast.parse(name, mode='eval').body)
                if r and r[0] == 'func':
                    return r[1]
        else:
            cm, _, cn = mod.rpartition('.')
            if cm in self.mods:
                c = self.cls(mod)
                r = self.find_member(c, name)
                if r:
                    b = r[1][-1]
                    if b[0] == 'func':
                        return b[1]
        raise AnalysisBroken('function %s not found' % key)

    def all_subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k)]


def namedtuple_fields(call):
    try:
        v = ast.literal_eval(call.args[1])
    except Exception:
        return []
    if isinstance(v, str):
        return v.replace(',', ' ').split()
    return [x if isinstance(x, str) else x[0] for x in v]
