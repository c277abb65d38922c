"""C19: memoised results are immutable."""
import ast

from .. import arrays as A
from ..core import V, clause
from ..engine import is_const, show
from ..walk import flat

EXPLAIN = ('Ownership of memoised values: every function behind functools.lru_cache / functools.cache is found by its decorators and interpreted abstractly; on every '
           'path that returns, the returned value has to be immutable: a number, text, None, a tuple of such values, or a numpy array that was made read-only '
           'after the last copy and before the return. Functions that keep their own results in a container of their module, class or '
           'default argument and hand them out again are treated the same way. Making '
           'one of several results read-only on some paths only leaves the others open.')
ASSUME = ['arguments of memoised functions are hashable and therefore not modified', 'nobody sets the write flag of an array again']
MINIMUM = 2
TECHNIQUE = 'ownership / typestate analysis of the values returned by memoised functions on every path'
MEMO = ('functools.lru_cache', 'functools.cache')


def check(ctx):
    r = ctx.rep
    r.rule('immutable', 'the result of a memoised function cannot be modified')
    r.rule('stored', 'results a function keeps for later calls cannot be modified')
    funcs = every(ctx)
    for f in funcs:
        if memoised(f):
            clause(ctx, 'immutable', results, f)
    for f in funcs:
        if keeps(ctx, f):
            clause(ctx, 'stored', own_cache, f)


def every(ctx):
    return sorted(ctx.prog.funcs.values(), key=lambda f: f.key)


def memoised(f):
    return any(d in MEMO or d.endswith(('.lru_cache', '.cache')) for d in f.decos)


def results(ctx, f):
    v = V(ctx, 'immutable', f.key)
    I = ctx.interp(opaque=lambda g: False)
    ps = ctx.run(I, f)
    n = 0
    if f.isgen:
        v.bad('hands out the same generator again, which earlier callers have used up', src(f))
    for p in ps or ():
        if p.out[0] != 'ret':
            continue
        n += 1
        judge(v, I, p, p.value, src(f))
    if not n:
        v.und('no path returns')
    v.done('%d paths' % n)


def src(f):
    return '%s:%d' % (f.mod.rel, f.node.lineno)


def judge(v, I, p, t, where):
    k = state(I, p, t)
    if k is None:
        v.und('value %s' % show(t)[:80])
    elif k:
        v.bad(k, where)


def state(I, p, t, depth=0):
    """'' immutable; text: how it can be modified; None: not known."""
    if depth > 12:
        return None
    if is_const(t) or t[0] in ('class', 'func', 'enum', 'mod', 'cmp', 'ext', 'bound'):
        return '' if not A.arrayish(t) else frozen(p, t)
    if t[0] == 'sym':
        return ''
    if t[0] == 'glob':
        return None
    if t[0] == 'tuple':
        out = ''
        for x in t[1]:
            k = state(I, p, x, depth + 1)
            if k:
                return k
            if k is None:
                out = None
        return out
    if t[0] == 'cont':
        if t[1] == 'frozenset':
            return ''
        return 'a %s is handed out to every caller' % t[1]
    if t[0] == 'gen':
        return 'hands out the same generator again, which earlier callers have used up'
    if t[0] == 'dictview':
        return None
    s = A.step(t)
    if s is not None:
        if s[0] in ('scalar', 'readonly'):
            return ''
        return frozen(p, t)
    if t[0] == 'op':
        ks = [state(I, p, x, depth + 1) for x in t[2]]
        return '' if all(k == '' for k in ks) else None
    if t[0] == 'idx':
        return '' if state(I, p, t[1], depth + 1) == '' else None
    if t[0] == 'call':
        n = t[1][1] if isinstance(t[1], tuple) and t[1][0] == 'ext' else t[1]
        if isinstance(n, str):
            if n.startswith('math.') or n in PURE:
                return ''
            if n in ('builtins.list', 'builtins.dict', 'builtins.set', 'builtins.sorted', 'collections.deque', 'builtins.bytearray', 'collections.OrderedDict',
                     'collections.defaultdict', 'collections.Counter'):
                return 'a %s is handed out to every caller' % n.split('.')[-1]
            if n in ('builtins.map', 'builtins.filter', 'builtins.zip', 'builtins.iter', 'builtins.reversed', 'builtins.enumerate'):
                return 'hands out the same iterator again, which earlier callers have used up'
            if n == 'builtins.tuple':
                return None if not t[2] or True else ''
            if A.numpy_name(n) in A.ELEMENTWISE:
                return '' if all(state(I, p, x, depth + 1) == '' for x in t[2]) else None
    return None


PURE = {'builtins.' + x for x in 'int float bool str abs round len ord chr hash pow divmod repr complex frozenset bytes range'.split()}


def frozen(p, t):
    """'' when the array was made read-only on this path, else text."""
    when = None
    evs = [it.ev for it in flat(p)]
    for ev in evs:
        if ev.kind == 'call':
            m = A.method(ev.fn)
            if m and m[1] == 'setflags' and m[0] == t:
                w = A.kwarg(ev.kwargs, 'write')
                if w is None and ev.args:
                    w = ev.args[0]
                if w is not None:
                    when = A.truth(w) if is_const(w) else 'either' if either(w, ev.facts) else 'unknown'
        elif ev.kind == 'write' and ev.attr == 'writeable' and flags_of(ev.base) == t:
            when = A.truth(ev.value) if is_const(ev.value) else 'unknown'
        elif ev.kind == 'setitem' and flags_of(ev.base) == t and is_const(ev.key) and str(ev.key[2]).upper() in ('W', 'WRITEABLE'):
            when = A.truth(ev.value) if is_const(ev.value) else 'unknown'
    if when is False:
        return ''
    if when == 'either':
        return 'the array handed out stays writable for some arguments'
    if when == 'unknown':
        return None
    s = A.step(t)
    if s and s[0] == 'view':
        return frozen(p, s[1])
    if s and s[0] == 'maybe':
        return None
    for ev in evs:                      # given to code that is not known and may freeze it
        if ev.kind == 'call' and not getattr(ev, 'inlined', False) and A.numpy_name(ev.fn) is None and t in tuple(ev.args or ()):
            return None
    return 'a writable array is handed out to every caller'


def either(w, facts):
    """A comparison of an argument with a number which nothing has decided."""
    if w[0] == 'op' and w[1] in ('not',):
        return either(w[2][0], facts)
    if w[0] != 'cmp' or w[1] not in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        return False
    a, b = w[2:4]
    if is_const(a):
        a, b = b, a
    return a[0] == 'sym' and is_const(b) and not any(a in k[1:3] for k in facts)


def flags_of(b):
    if isinstance(b, tuple) and b and b[0] in ('fld', 'extm') and b[2] == 'flags':
        return b[1]
    return None


# -- handmade caches --------------------------------------------------------------

def containers(f):
    """Names of containers that outlive a call of the function: module globals and default arguments."""
    names = set()
    for n in f.mod.tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and makes_container(n.value):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Name):
                    names.add(t.id)
    a = f.node.args if hasattr(f.node, 'args') else None
    if a is not None:
        ps = a.posonlyargs + a.args
        for x, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if makes_container(d):
                names.add(x.arg)
    return names


def makes_container(n):
    return isinstance(n, (ast.Dict, ast.List)) or isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and (
        n.func.id if isinstance(n.func, ast.Name) else n.func.attr) in ('dict', 'list', 'OrderedDict', 'defaultdict', 'WeakValueDictionary')


def keeps(ctx, f):
    """Does the function store something in such a container by key and return something?"""
    if not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return False
    names = containers(f)
    if not names or not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f.node)):
        return False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in names:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setdefault' and isinstance(n.func.value, ast.Name) \
                and n.func.value.id in names:
            return True
    return False


def own_cache(ctx, f):
    v = V(ctx, 'stored', f.key)
    I = ctx.interp(lookup_raises=True)
    names = containers(f)
    n = 0
    for p in ctx.run(I, f) or ():
        if p.out[0] != 'ret':
            continue
        n += 1
        for it in flat(p):
            ev = it.ev
            if ev.kind == 'setitem' and ev.value == p.value and names_container(ev, names):
                judge(v, I, p, p.value, ev)
            elif ev.kind in ('call', 'mut') and stored_by_default(ev, p.value, names):
                judge(v, I, p, p.value, ev)
    v.done('%d paths' % n)


def names_container(ev, names):
    return any(isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in names for n in ast.walk(ev.node)) if ev.node is not None else False


def stored_by_default(ev, value, names):
    n = ev.node
    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setdefault' and isinstance(n.func.value, ast.Name)
            and n.func.value.id in names):
        return False
    return len(ev.args) > 1 and ev.args[1] == value or ev.result == value and len(ev.args) > 1
