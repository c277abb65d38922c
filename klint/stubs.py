"""What installed libraries offer, read from type stubs (never imported): members of modules and classes, keywords of functions."""
import ast
import functools
import glob
import os

VERSION = (3, 9)
STDLIB = ('/opt/veriftools/pyvenv/lib/python3*/site-packages/mypy/typeshed/stdlib', '/opt/veriftools/pyvenv/lib/python3*/site-packages/typeshed_client/typeshed')
SITE = ('/opt/pypyvenv/lib/pypy3*/site-packages', '/opt/pypyvenv/lib/python3*/site-packages')
# Methods earlier versions of the standard library had.
REMOVED = {'isAlive': 'threads', 'has_key': 'mappings', 'iteritems': 'mappings', 'itervalues': 'mappings', 'iterkeys': 'mappings', 'getchildren': 'elements',
           'setDaemonic': 'threads', 'readfp': 'parsers'}


@functools.lru_cache(None)
def roots():
    std = [p for g in STDLIB for p in sorted(glob.glob(g))][:1]
    site = [p for g in SITE for p in sorted(glob.glob(g))][:1]
    return tuple(std), tuple(site)


@functools.lru_cache(None)
def path_of(mod):
    std, site = roots()
    rel = mod.replace('.', '/')
    for base in std:
        for p in ('%s/%s.pyi' % (base, rel), '%s/%s/__init__.pyi' % (base, rel)):
            if os.path.exists(p):
                return p
    if mod == 'numpy':
        for base in site:
            p = '%s/%s/__init__.pyi' % (base, rel)
            if os.path.exists(p):
                return p
    return None


def test(node):
    """Value of a version or platform test of a stub, None if unknown."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        left = ast.unparse(node.left)
        if left == 'sys.version_info':
            try:
                v = ast.literal_eval(node.comparators[0])
            except ValueError:
                return None
            return {ast.GtE: VERSION >= v, ast.Lt: VERSION < v}.get(type(node.ops[0]))
        if left == 'sys.platform':
            v = getattr(node.comparators[0], 'value', None)
            return {ast.Eq: v == 'linux', ast.NotEq: v != 'linux'}.get(type(node.ops[0]))
    if isinstance(node, ast.BoolOp):
        vs = [test(v) for v in node.values]
        if isinstance(node.op, ast.And):
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    return None


def statements(body):
    for n in body:
        if isinstance(n, ast.If):
            t = test(n.test)
            if t is not False:
                yield from statements(n.body)
            if t is not True:
                yield from statements(n.orelse)
        elif isinstance(n, ast.Try):
            yield from statements(n.body)
        else:
            yield n


class Mod:
    def __init__(self, name, path):
        self.name, self.names, self.open = name, {}, False
        pkg = name if path.endswith('__init__.pyi') else name.rpartition('.')[0]
        for n in statements(ast.parse(open(path, encoding='utf-8').read()).body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.names.setdefault(n.name, []).append(n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names.setdefault(t.id, []).append(n)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.names.setdefault(n.target.id, []).append(n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names.setdefault(a.asname or a.name.partition('.')[0], []).append(('mod', a.name if a.asname else a.name.partition('.')[0]))
            elif isinstance(n, ast.ImportFrom):
                src = n.module or ''
                if n.level:
                    base = pkg.split('.')
                    base = base[:len(base) - (n.level - 1)]
                    src = '.'.join(base + ([src] if src else []))
                for a in n.names:
                    if a.name == '*':
                        m = module(src)
                        if m is None or m.open:
                            self.open = True
                        else:
                            for k, v in m.names.items():
                                if not k.startswith('_'):
                                    self.names.setdefault(k, []).extend(v)
                    else:
                        self.names.setdefault(a.asname or a.name, []).append(('from', src, a.name))
        self.open |= '__getattr__' in self.names


@functools.lru_cache(None)
def module(name):
    p = path_of(name)
    return Mod(name, p) if p else None


def lookup(dotted):
    """('mod', Mod) | ('node', Mod, [nodes]) | None (does not exist) | False (unknown)."""
    parts = dotted.split('.')
    m = module(parts[0])
    if m is None:
        return False
    cur = ('mod', m)
    for i, p in enumerate(parts[1:], 1):
        if cur[0] == 'mod':
            m = cur[1]
            if p in m.names:
                cur = resolve(m, m.names[p])
            elif module('.'.join(parts[:i + 1])) is not None:
                cur = ('mod', module('.'.join(parts[:i + 1])))
            elif m.open or p in ('__name__', '__file__', '__doc__', '__path__', '__version__', '__dict__', '__all__'):
                return False
            elif parts[0] == 'numpy' and (i > 1 or p in ('core', 'compat', 'distutils', 'lib', 'bool', 'int', 'float', 'complex', 'object', 'str', 'long', 'unicode')):
                return False
            else:
                return None
        else:
            r = member(cur, p)
            return r if not r or i == len(parts) - 1 else False
        if not cur:
            return False
    return cur


def resolve(m, nodes, depth=0):
    n = nodes[-1]
    if depth > 20:
        return False
    if isinstance(n, tuple) and n[0] == 'mod':
        x = module(n[1])
        return ('mod', x) if x else False
    if isinstance(n, tuple):
        x = module('%s.%s' % (n[1], n[2]))
        if x is not None:
            return ('mod', x)
        x = module(n[1])
        if x is None or n[2] not in x.names:
            return False
        return resolve(x, x.names[n[2]], depth + 1)
    return ('node', m, nodes)


def classes(cur):
    """Class definitions of a resolved class and its bases, None if one is unknown."""
    if not cur or cur[0] != 'node' or not isinstance(cur[2][-1], ast.ClassDef):
        return None
    out = [cur]
    for b in cur[2][-1].bases:
        while isinstance(b, ast.Subscript):
            b = b.value
        name = ast.unparse(b)
        if name in ('Generic', 'Protocol', 'object', 'NamedTuple', 'typing.Generic'):
            continue
        m = cur[1]
        head, _, rest = name.partition('.')
        if head in m.names:
            r = resolve(m, m.names[head])
            if rest:
                r = lookup('%s.%s' % (r[1].name, rest)) if r and r[0] == 'mod' else False
        else:
            b = module('builtins')
            r = resolve(b, b.names[name]) if b and name in b.names else False
        cs = classes(r) if r else None
        if cs is None:
            return None
        out += cs
    return out


def member(cur, name):
    """Member of a resolved class: ('node', ..) | None (does not exist) | False (unknown)."""
    cs = classes(cur)
    if cs is None:
        return False
    b = module('builtins')
    obj = resolve(b, b.names['object']) if b and 'object' in b.names else None
    for c in cs + ([obj] if obj else []):
        found = []
        for n in statements(c[2][-1].body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n.name == name:
                found.append(n)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                found.append(n)
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                found.append(n)
            elif isinstance(n, ast.FunctionDef) and n.name in ('__getattr__', '__getattribute__') and c is not obj:
                return False
        if found:
            return ('node', c[1], found)
    return None


def accepts(cur, nargs, keywords):
    """Reason why a resolved function or class does not accept a call, None if it may."""
    if not cur or cur[0] != 'node':
        return None
    skip = 0
    nodes = cur[2]
    if isinstance(nodes[-1], ast.ClassDef):
        new, init = member(cur, '__new__'), member(cur, '__init__')
        if new is False or init is False or not init:
            return None
        own_new, own_init = new and new[1].name != 'builtins', init[1].name != 'builtins'
        if own_new or not own_init:
            return None
        nodes, skip = init[2], 1
    if not all(isinstance(n, ast.FunctionDef) for n in nodes):
        return None
    why = None
    for n in nodes:
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        only = [x.arg for x in a.posonlyargs][skip:]
        why = None
        for k in keywords:
            if not a.kwarg and (k in only or k not in pos + [x.arg for x in a.kwonlyargs]):
                why = 'unexpected keyword %r' % k
        if nargs > len(pos) and not a.vararg:
            why = 'too many positional arguments'
        if why is None:
            return None
    return why
