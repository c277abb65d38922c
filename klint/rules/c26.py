"""C26: blocks never use members that do not exist."""
import ast
import re

from .. import stubs
from ..core import V, clause, spread
from ..engine import NONE, TooManyPaths, is_const, show

EXPLAIN = ('Every function and every method (for every class that has it) is followed on all its paths with arbitrary arguments, an object of exactly that '
           'class and the fields its constructors give it. Reported are: a member read from an object, class, module, container or text that does not '
           'have it, a call of library code with arguments it does not take, a name that is bound nowhere, an operator, comparison, index or call '
           'on an object whose class does not support it, texts formatted with the wrong number or kind of values. Names of the standard library and of '
           'numpy are looked up in the installed type stubs.')
ASSUME = ['members assigned in any method of a class family are taken to exist', 'values of unknown type (arguments) support what is asked of them',
          'the type stubs describe the installed libraries']
MINIMUM = 6
TECHNIQUE = 'abstract interpretation with exact receiver classes; member, signature, operator and format checks over all paths; stub lookup'


def check(ctx):
    r = ctx.rep
    r.rule('member', 'every member that is read exists')
    r.rule('call', 'every call of library code passes the arguments it takes')
    r.rule('name', 'every name is bound')
    r.rule('operator', 'operators are applied to values, not to connections and blocks')
    r.rule('format', 'text formats fit their values, whatever values connections carry')
    r.rule('library', 'members and keywords of external libraries exist')
    r.rule('export', 'everything imported or exported exists')
    fam = Family(ctx.prog)
    fs = [f for key, f in sorted(ctx.prog.funcs.items()) if not f.parent and not f.mod.name.startswith('#')]
    spread(ctx, fs, lambda ctx, f: clause(ctx, 'member', function, f, fam))
    for name, m in sorted(ctx.prog.mods.items()):
        if name.startswith('#'):
            continue
        clause(ctx, 'export', exports, m)
        clause(ctx, 'library', externals, m)


class Family:
    """Which attributes anything in the library assigns."""

    def __init__(self, prog):
        self.prog = prog
        self.subs, self.own, self.foreign, self.dynamic = {}, {}, set(), set()
        for c in prog.classes.values():
            for b in prog.mro(c):
                if b is not c and not isinstance(b, tuple):
                    self.subs.setdefault(b.key, []).append(c)
        for f in prog.funcs.values():
            cls = f.cls
            g = f
            while cls is None and g.parent is not None:
                g = prog.funcs.get(g.parent) if isinstance(g.parent, str) else g.parent
                if g is None:
                    break
                cls = g.cls
            first = None
            a = f.node.args.posonlyargs + f.node.args.args
            if f.cls is not None and a:
                first = a[0].arg
            body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
            for n in (x for b in body for x in ast.walk(b)):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if isinstance(n.value, ast.Name) and (n.value.id == first or n.value.id in ('self', 'cls')) and cls is not None:
                        self.own.setdefault(cls.key, set()).add(n.attr)
                    else:
                        self.foreign.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self.foreign.add(n.args[1].value)
                    elif cls is not None:
                        self.dynamic.add(cls.key)
                    else:
                        self.dynamic.add(None)
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__' and cls is not None:
                    self.dynamic.add(cls.key)
        for m in prog.mods.values():
            for n in m.tree.body:
                for x in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else ():
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        self.foreign.add(x.attr)

    def may_have(self, c, attr):
        """The attribute of a class is assigned somewhere the constructor does not show."""
        if attr in self.foreign or None in self.dynamic:
            return True
        for k in [x for x in self.prog.mro(c) if not isinstance(x, tuple)] + self.subs.get(c.key, []):
            if attr in self.own.get(k.key, ()) or k.key in self.dynamic or '__getattr__' in k.members or '__getattribute__' in k.members:
                return True
            if k is not c and attr in k.members:
                return True
            if k.node is not None and (k.node.keywords or k.node.decorator_list) and not all(known_deco(d) for d in k.node.decorator_list):
                return True
        return False


def known_deco(d):
    return ast.unparse(d).rpartition('.')[2] in ('total_ordering', 'unique', 'final')


def function(ctx, f, fam):
    """All the uses on the paths of one function, for every class that has it as a method."""
    prog = ctx.prog
    if f.cls is None or 'staticmethod' in f.decos:
        selves = [None]
    else:
        cs = [f.cls] + [c for c in fam.subs.get(f.cls.key, []) if owns(prog, c, f)]
        selves = [(c, ('class', c.key) if 'classmethod' in f.decos or f.name == '__new__' else ('obj', c.key, 'self')) for c in cs]
    for s in selves:
        name = f.key if s is None or s[0] is f.cls else '%s of a %s' % (f.key, s[0].name)
        vs = {r: V(ctx, r, name) for r in ('member', 'call', 'name', 'operator', 'format', 'library')}
        receiver(ctx, f, fam, s, vs)
        for v in vs.values():
            if v is vs['member'] or v.v != 'ok':
                v.done('all paths')


def receiver(ctx, f, fam, s, vs):
    I = ctx.interp()
    ps = ctx.run(I, f, **({'selfv': s[1]} if s else {}))
    if ps is None:
        vs['member'].und('too many paths')
        return
    seen = set()
    for p in ps:
        events(p.events, seen, lambda e: judge(ctx, vs, e, fam))
        for g in closures(p):
            n = len(ctx.prog.funcs[g[1]].node.args.args)
            try:
                for q in ctx.value(I, g, [('sym', 'arg%d' % i) for i in range(n)], [], p.st) or ():
                    events(q.events, seen, lambda e: judge(ctx, vs, e, fam))
            except TooManyPaths:
                vs['member'].und('too many paths in a nested function')


def owns(prog, c, f):
    r = prog.find_member(c, f.name)
    return bool(r) and r[1][-1][0] == 'func' and any(b[0] == 'func' and b[1] is f for b in r[1])


def closures(p):
    """Nested functions a path hands to code that is not followed, or returns."""
    out = []

    def dig(t):
        if isinstance(t, tuple) and t and t[0] == 'func' and len(t) == 3 and t[2] and t not in out:
            out.append(t)
        elif isinstance(t, tuple) and t and t[0] in ('tuple', 'partial'):
            for x in t[1:]:
                if isinstance(x, tuple):
                    for y in x if x and isinstance(x[0], tuple) else [x]:
                        dig(y)
    for e in p.events:
        if e.kind == 'call' and not e.inlined:
            for a in list(e.args) + [v for _, v in e.kwargs]:
                dig(a)
    if not p.raises and p.value is not None:
        dig(p.value)
    return out[:6]


def events(es, seen, fn):
    for e in es:
        if e.kind == 'loop':
            for q in e.paths:
                events(q.events, seen, fn)
        k = (e.kind, id(e.node), e.func.key if e.func else None, e.base if e.kind == 'noattr' else None)
        if k in seen and e.kind in ('noattr', 'badcall', 'undefname'):
            continue
        seen.add(k)
        fn(e)


def guarded(e, *names):
    """The construct stands in a try statement that expects the error, or behind a question whether the member exists."""
    f = e.func
    if f is None or e.node is None:
        return False
    node = f.node
    line = getattr(e.node, 'lineno', 0)
    for n in ast.walk(node):
        if isinstance(n, ast.Try) and any(b.lineno <= line <= (b.end_lineno or b.lineno) for b in n.body):
            for h in n.handlers:
                t = ast.unparse(h.type) if h.type else ''
                if not t or any(x in t for x in names + ('Exception', 'BaseException')):
                    return True
        elif isinstance(n, ast.With) and any('suppress' in ast.unparse(i.context_expr) for i in n.items):
            return True
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'callable', 'isinstance', 'getattr') and \
                n.func.id != 'isinstance':
            return True
    return False


def judge(ctx, vs, e, fam):
    if e.kind == 'noattr':
        absent(ctx, vs['member'], e, fam)
    elif e.kind == 'badcall':
        if not guarded(e, 'TypeError'):
            vs['call'].bad('%s: %s' % (e.fn, e.reason), e)
    elif e.kind == 'undefname':
        if not guarded(e, 'NameError'):
            vs['name'].bad('%s is not defined' % e.name, e)
    elif e.kind == 'binop':
        if e.op == '%' and text(e.left) is not None:
            formats(ctx, vs['format'], e, text(e.left))
        else:
            operands(ctx, vs['operator'], e, (e.left, e.right), e.op, fam)
    elif e.kind == 'order':
        operands(ctx, vs['operator'], e, (e.left, e.right), '<', fam)
    elif e.kind == 'getitem':
        unsupported(ctx, vs['operator'], e, e.base, '__getitem__', 'indexed', fam)
    elif e.kind == 'setitem':
        unsupported(ctx, vs['operator'], e, e.base, '__setitem__', 'indexed', fam)
    elif e.kind == 'call' and not e.inlined:
        t = e.fn
        if isinstance(t, tuple):
            unsupported(ctx, vs['operator'], e, t, '__call__', 'called', fam)
            if t[0] in ('cont', 'tuple') or is_const(t) and t != NONE:
                if not guarded(e, 'TypeError'):
                    vs['operator'].bad('%s is called' % show(t)[:60], e)
            elif t[0] == 'extm':
                methods(vs['library'], e, t[1], t[2])
            elif t[0] == 'ext' and t[1] == 'builtins.len' and e.args:
                unsupported(ctx, vs['operator'], e, e.args[0], '__len__', 'measured', fam)


def repo_class(ctx, t):
    return ctx.prog.classes.get(t[1]) if t[0] == 'obj' else None


def absent(ctx, v, e, fam):
    b, attr = e.base, e.attr
    if guarded(e, 'AttributeError'):
        return
    if b[0] == 'mod':
        m = ctx.prog.mods[b[1]]
        if '__getattr__' in m.binds or any(isinstance(n, ast.Name) and n.id in ('globals', 'vars') for n in ast.walk(m.tree)):
            return
        v.bad('the module %s has no %s' % (b[1], attr), e)
        return
    if b[0] in ('cont', 'const', 'tuple'):
        if attr not in fam.foreign or b[0] != 'cont':
            v.bad('a %s has no member %s' % (b[1] if b[0] != 'tuple' else 'tuple', attr), e)
        return
    c = ctx.prog.classes.get(b[1]) if b[0] in ('obj', 'class', 'enum') else None
    if c is None:
        return
    if fam.may_have(c, attr):
        return
    v.bad('%s has no member %s' % (c.name, attr), e)


DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '<<': 'lshift', '>>': 'rshift', '|': 'or',
          '&': 'and', '^': 'xor', '@': 'matmul'}


def operands(ctx, v, e, ts, op, fam):
    for i, t in enumerate(ts):
        c = repo_class(ctx, t)
        if c is None or ctx.prog.ext_bases(c):
            continue
        other = repo_class(ctx, ts[1 - i])
        if other is not None and ctx.prog.ext_bases(other) or other is None and not plain(ctx, ts[1 - i]):
            continue
        names = ['__%s__' % x for x in ('lt', 'le', 'gt', 'ge')] if op == '<' else ['__%s__' % DUNDER.get(op, '?'), '__r%s__' % DUNDER.get(op, '?')]
        if any(ctx.prog.find_member(k, n) for k in [c] + fam.subs.get(c.key, []) for n in names) or '?' in names[0]:
            continue
        if other is not None and any(ctx.prog.find_member(other, n) for n in names):
            continue
        if guarded(e, 'TypeError') or fam.may_have(c, '__dict__'):
            continue
        v.bad('%s is %s although %s does not support it' % ('the %s' % c.name, 'compared' if op == '<' else 'an operand of %s' % op, c.name), e)


def plain(ctx, t):
    """The term is certainly no object of the library."""
    if t[0] in ('const', 'cont', 'tuple', 'cmp', 'not'):
        return True
    if t[0] == 'op':
        return any(plain(ctx, x) for x in t[2] if isinstance(x, tuple))
    if t[0] == 'glob' and t[1] in ctx.prog.mods:
        b = ctx.prog.mods[t[1]].binds.get(t[2]) or ()
        return len(b) == 1 and any(isinstance(x, ast.AST) and number(x) for x in b[0])
    return t[0] == 'call' and isinstance(t[1], str) and t[1].partition('.')[0] in ('numpy', 'math', 'fractions')


def number(n):
    """Expression of a number."""
    if isinstance(n, ast.BinOp):
        return number(n.left) or number(n.right)
    return isinstance(n, ast.UnaryOp) or isinstance(n, ast.Constant)


def unsupported(ctx, v, e, t, dunder, what, fam):
    c = repo_class(ctx, t)
    if c is None or ctx.prog.ext_bases(c) or any(ctx.prog.find_member(k, dunder) for k in [c] + fam.subs.get(c.key, [])):
        return
    if guarded(e, 'TypeError', 'AttributeError'):
        return
    v.bad('the %s is %s although %s does not support it' % (c.name, what, c.name), e)


# --- texts -------------------------------------------------------------------
SPEC = re.compile(r'%(\((\w+)\))?[-#0 +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?([a-zA-Z%])')


def text(t):
    return t[2] if is_const(t) and isinstance(t[2], str) else None


def formats(ctx, v, e, fmt):
    specs = [m for m in SPEC.finditer(fmt) if m.group(6) != '%']
    stray = SPEC.sub('', fmt)
    if '%' in stray:
        v.und('format %r' % fmt)
        return
    if any(m.group(2) for m in specs) or any('*' in (m.group(3) or '', m.group(5) or '') for m in specs):
        return
    t = e.right
    if t[0] == 'tuple':
        vals = list(t[1])
    elif is_const(t) or t[0] in ('cont', 'op') and not (t[0] == 'op' and t[1] in ('+', '*')):
        vals = [t]
        if t[0] == 'cont' and t[1] in ('dict', 'defaultdict', 'Counter'):
            return
    else:
        n = fields(ctx, t)
        if n is not None and n != len(specs) and not guarded(e, 'TypeError'):
            v.bad('%r takes %d values, not %d' % (fmt, len(specs), n), e)
            return
        if n is None and len(specs) == 1:
            kind(ctx, v, e, specs[0].group(6), t, fmt)
        return
    if guarded(e, 'TypeError', 'ValueError'):
        return
    if len(vals) != len(specs):
        v.bad('%r takes %d values, not %d' % (fmt, len(specs), len(vals)), e)
        return
    for m, x in zip(specs, vals):
        kind(ctx, v, e, m.group(6), x, fmt)


def fields(ctx, t):
    """Number of fields of a named tuple."""
    c = repo_class(ctx, t)
    return len(c.ntfields) if c is not None and c.ntfields is not None else None


def kind(ctx, v, e, spec, t, fmt):
    if spec not in 'diouxXeEfFgGc':
        return
    if guarded(e, 'TypeError', 'ValueError'):
        return
    if is_const(t) and (isinstance(t[2], str) and spec != 'c' or t == NONE):
        v.bad('%s is formatted with %%%s' % (show(t), spec), e)
    elif t[0] == 'obj':
        c = repo_class(ctx, t)
        if c is not None and not ctx.prog.ext_bases(c) and not any(ctx.prog.find_member(c, n) for n in ('__float__', '__int__', '__index__')):
            v.bad('the %s is formatted with %%%s' % (c.name, spec), e)
    elif t[0] in ('cont', 'tuple'):
        v.bad('a %s is formatted with %%%s' % (t[1] if t[0] == 'cont' else 'tuple', spec), e)
    elif t[0] == 'fld' and t[2] == '_value' and not narrowed(e, t):
        v.bad('%s, the value of a connection, may be an array and is formatted with %%%s' % (show(t), spec), e)


def narrowed(e, t):
    return any(isinstance(x, tuple) and contains(x, t) for k in dict(e.facts) for x in k[1:])


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


# --- external libraries --------------------------------------------------------
def methods(v, e, recv, name):
    if recv[0] == 'call' and isinstance(recv[1], str) and '.' in recv[1]:
        r = stubs.lookup(recv[1])
        if r and r[0] == 'node' and isinstance(r[2][-1], ast.ClassDef):
            if stubs.member(r, name) is None and not guarded(e, 'AttributeError'):
                v.bad('%s has no method %s' % (recv[1], name), e)
                return
    if name in stubs.REMOVED and recv[0] not in ('obj', 'sym', 'elem') and not guarded(e, 'AttributeError'):
        v.bad('%s is no longer a method of %s' % (name, stubs.REMOVED[name]), e)


def externals(ctx, m):
    """Dotted names of external modules, by source: they exist and functions take the keywords."""
    v = V(ctx, 'library', m.name)
    if not stubs.roots()[0]:
        v.und('no type stubs installed')
        v.done('')
        return
    mods = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                mods[a.asname or a.name.partition('.')[0]] = a.name if a.asname else a.name.partition('.')[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.partition('.')[0] not in tops(ctx.prog):
            for a in n.names:
                if a.name == '*':
                    continue
                r = stubs.lookup('%s.%s' % (n.module, a.name))
                if r is None and not in_try(m.tree, n):
                    v.bad('%s has no %s' % (n.module, a.name), '%s:%d' % (m.rel, n.lineno))
                mods[a.asname or a.name] = '%s.%s' % (n.module, a.name)
    stored = {n.id for n in ast.walk(m.tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    stored |= {a.arg for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.Lambda)) for a in n.args.args + n.args.kwonlyargs}
    k = 0
    inner = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
            d = dotted(n.func, mods, stored)
            if d:
                r = stubs.lookup(d)
                if r and not any(isinstance(a, ast.Starred) for a in n.args) and all(x.arg for x in n.keywords):
                    why = stubs.accepts(r, len(n.args), [x.arg for x in n.keywords])
                    k += 1
                    if why and not in_try(m.tree, n):
                        v.bad('%s: %s' % (d, why), '%s:%d' % (m.rel, n.lineno))
        if isinstance(n, ast.Attribute) and id(n) not in inner:
            for x in ast.walk(n.value):
                inner.add(id(x))
            d = dotted(n, mods, stored)
            if d and isinstance(n.ctx, ast.Load):
                parts = d.split('.')
                k += 1
                for i in range(2, len(parts) + 1):
                    r = stubs.lookup('.'.join(parts[:i]))
                    if r is None and not in_try(m.tree, n):
                        v.bad('%s has no %s' % ('.'.join(parts[:i - 1]), parts[i - 1]), '%s:%d' % (m.rel, n.lineno))
                    if not r or r[0] == 'node' and not isinstance(r[2][-1], ast.ClassDef):
                        break
    v.done('%d uses of external names' % k)


def tops(prog):
    return {n.partition('.')[0] for n in prog.mods}


def dotted(n, mods, stored):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name) or n.id not in mods or n.id in stored:
        return None
    return '.'.join([mods[n.id]] + parts[::-1])


def in_try(tree, node):
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and n.handlers and any(b.lineno <= node.lineno <= (b.end_lineno or b.lineno) for b in n.body):
            return True
    return False


def exports(ctx, m):
    """Names imported from the library's modules and names a module promises exist."""
    v = V(ctx, 'export', m.name)
    k = 0
    prog = ctx.prog
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and not n.level and n.module in prog.mods:
            src = prog.mods[n.module]
            for a in n.names:
                if a.name == '*' or '%s.%s' % (n.module, a.name) in prog.mods:
                    continue
                k += 1
                if not has_name(prog, src, a.name) and not in_try(m.tree, n):
                    v.bad('%s has no %s' % (n.module, a.name), '%s:%d' % (m.rel, n.lineno))
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in n.targets) and isinstance(n.value, (ast.List, ast.Tuple)):
            for x in n.value.elts:
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    k += 1
                    if not has_name(prog, m, x.value):
                        v.bad('%s promises %s but does not have it' % (m.name, x.value), '%s:%d' % (m.rel, x.lineno))
    v.done('%d names' % k)


def has_name(prog, m, name):
    if name in m.binds or name in ('__name__', '__file__', '__doc__') or '__getattr__' in m.binds or '%s.%s' % (m.name, name) in prog.mods:
        return True
    return any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(m.tree)) or \
        any(isinstance(n, ast.Name) and n.id in ('globals', 'vars') for n in ast.walk(m.tree))
