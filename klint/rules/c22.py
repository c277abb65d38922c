"""C22: copies of voices and sources keep every setting."""
import ast
import os

from ..core import V, clause
from ..engine import is_const, show
from ..walk import subterm

EXPLAIN = ('Shape comparison: for every class with its own copy protocol an object is built with a different symbol for each constructor parameter and '
           'copied; the two object graphs must be isomorphic with equal leaves and share no object or container. In a second run every place that holds a '
           'parameter is overwritten before the copy, which must have the new values. Duplicated voices are compared with each other and with their template.')
ASSUME = ['symbols given as parameters are immutable values', 'the C envelope keeps what is stored in its attributes (C17)']
MINIMUM = 4
TECHNIQUE = 'abstract interpretation of object graphs; isomorphism and alias check of the heap'
ROOTS = ('klang.audio.', 'klang.')
VALUE = '_value'


def check(ctx):
    r = ctx.rep
    r.rule('same', 'a copy has the class and every setting of the original')
    r.rule('current', 'settings are copied from where they are kept')
    r.rule('apart', 'a copy shares no mutable part with the original')
    r.rule('voices', 'all voices of a polyphonic synthesizer are copies of the template')
    for c in classes(ctx):
        clause(ctx, 'same', settings, c)
    clause(ctx, 'voices', duplicates)


def classes(ctx):
    """Classes that have a copy protocol, own or inherited."""
    out = []
    for c in ctx.prog.classes.values() if isinstance(ctx.prog.classes, dict) else ctx.prog.classes:
        if ctx.prog.find_member(c, '__deepcopy__') is not None and c.key.startswith(ROOTS):
            out.append(c)
    return sorted(out, key=lambda c: c.key)


def parameters(ctx, c, depth=0):
    """[(name, positional)] a constructor accepts, parameters passed on to the base included; None when not known."""
    m = ctx.method(c.key, '__init__')
    if m is None or depth > 5:
        return None
    f, owner = m
    a = f.node.args
    own = [x.arg for x in a.args[1:]]
    out = [(x, True) for x in own] + [(x.arg, False) for x in a.kwonlyargs]
    if a.kwarg is None:
        return out
    mro = ctx.prog.mro(owner)
    base = next((b for b in mro[1:] if ctx.prog.find_member(b, '__init__')), None)
    call = next((n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__'
                 and isinstance(n.func.value, ast.Call)), None)
    if base is None or call is None:
        return None
    more = parameters(ctx, base, depth + 1)
    if more is None:
        return None
    given = {k.arg for k in call.keywords if k.arg}
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    given |= {x for x, _ in [y for y in more if y[1]][:n]}
    return out + [(x, False) for x, _ in more if x not in given and x not in own]


def constructor(ctx, c):
    """(expression, parameter symbols, imports) building an object, or None."""
    ps = parameters(ctx, c)
    if ps is None:
        return None
    imports = ['from %s import %s' % (c.mod.name, c.name)]
    syms, args = [], []
    part = {'oscillator': ('klang.audio.oscillators', 'Oscillator'), 'envelope': ('klang.audio.envelopes', 'ADSR')}
    for x, pos in ps:
        if x in part and 'oice' in c.name:
            mod, name = part[x]
            k = ctx.prog.cls(mod + '.' + name)
            inner = constructor(ctx, k)
            if inner is None:
                return None
            expr, isyms, iimp = inner
            ren = {s: '%s_%s' % (x, s) for s in isyms}
            expr = '%s(%s)' % (name, ', '.join(('%s=%s' % (s, ren[s]) for s in isyms)))
            args.append('%s=%s' % (x, expr))
            syms += list(ren.values())
            imports += iimp
        else:
            args.append('%s=%s' % (x, x))
            syms.append(x)
    return '%s(%s)' % (c.name, ', '.join(args)), syms, imports


def opaque(g):
    return g.key.startswith('klang.execution.') or g.key.startswith('klang.graph.')


def fields(o, st):
    return {k[1]: v for k, v in st.heap.items() if k[0] == o and isinstance(k[1], str) and not k[1].startswith('#')}


def settings(ctx, c):
    con = c.name
    v, w, z = V(ctx, 'same', con), V(ctx, 'apart', con), V(ctx, 'current', con)
    k = constructor(ctx, c)
    if k is None:
        v.und('constructor')
        for x in (v, w, z):
            x.done()
        return
    expr, syms, imports = k
    src = 'import copy\n%s\n\n\ndef client(%s):\n    o = %s\n%s    c = copy.deepcopy(o)\n    return o, c\n'
    f = ctx.client(src % ('\n'.join(imports), ', '.join(syms), expr, ''))
    I = ctx.interp(opaque=opaque)
    ps = ctx.run(I, f)
    where = at(ctx, c)
    rets = [p for p in ps or () if p.out[0] == 'ret']
    places = {}
    for p in ps or ():
        if p.out[0] == 'raise':
            late = [e for e in p.events if e.kind == 'new']
            if late and any(e.kind in ('badcall', 'noattr') for e in p.events[-3:]):
                v.und('fails')
    if not rets:
        g = ctx.client('%s\n\n\ndef client(%s):\n    return %s\n' % ('\n'.join(imports), ', '.join(syms), expr))
        qs = [p for p in ctx.run(ctx.interp(opaque=opaque), g) or () if p.out[0] == 'ret']
        if qs and ps and all(p.out[0] == 'raise' and p.out[1][0] == 'exc' and p.out[1][1] in [('ext', 'builtins.' + x) for x in ('TypeError', 'AttributeError')]
                             for p in ps if not (p.out[0] == 'raise' and p.out[1][1] == ('ext', 'builtins.AssertionError'))) and any(
                p.out[1][1] == ('ext', 'builtins.TypeError') for p in ps):
            v.bad('copying fails', where)
        else:
            v.und('cannot be built')
        w.und('cannot be built')
        z.und('cannot be built')
    for p in rets:
        o, k = p.value[1]
        compare(v, w, I, p.st, o, k, where)
        for chain, sym in leaves(o, p.st, I):
            places.setdefault(sym, set()).add(chain)
    v.done('%d paths' % len(rets))
    w.done('%d paths' % len(rets))
    current(ctx, z, c, (expr, syms, imports), src, places, where)
    z.done('%d settings' % len(places))


def at(ctx, c):
    m = ctx.method(c.key, '__deepcopy__')
    return '%s:%d (%s)' % (m[0].mod.rel, m[0].node.lineno, m[0].key) if m else c.key


def ismutable(t, st):
    return t[0] == 'obj' and isinstance(t[2], int) or t[0] == 'cont' and t[1] in ('list', 'dict', 'set', 'deque', 'bytearray') and isinstance(t[2], int)


def compare(v, w, I, st, a, b, where, seen=None, path=''):
    """Isomorphism of two object graphs."""
    seen = {} if seen is None else seen
    name = path.lstrip('.') or 'object'
    if ismutable(a, st) or ismutable(b, st):
        if a == b:
            if path == '':
                w.bad('the copy is the original itself', where)
            else:
                w.bad('%s is shared by the copy and the original' % name, where)
            return
        if (a, b) in seen:
            return
        if a in {x for x, _ in seen} and a[0] == 'obj':
            if not any(x == a and y == b for x, y in seen):
                v.und('%s: structure' % name)
            return
        seen[(a, b)] = True
    if a[0] != b[0]:
        if is_const(a) and b[0] == 'sym' or a[0] == 'sym' and is_const(b):
            v.bad('%s of the copy is %s instead of %s' % (name, show(b), show(a)), where)
        elif a[0] == 'sym' and not subterm(b, a) and not holds(b, 'cont') and not holds(b, 'obj'):
            v.bad('%s of the copy is %s instead of %s' % (name, show(b)[:60], show(a)), where)
        else:
            v.und('%s is %s and %s' % (name, show(a)[:40], show(b)[:40]))
        return
    if a[0] == 'obj':
        if a[1] != b[1]:
            v.bad('%s is a %s, the copy a %s' % (name, a[1].rsplit('.', 1)[-1], b[1].rsplit('.', 1)[-1]), where)
            return
        if not isinstance(a[2], int) or not isinstance(b[2], int):
            if a != b:
                v.und('%s: object' % name)
            return
        fa, fb = fields(a, st), fields(b, st)
        for k in sorted(set(fa) | set(fb)):
            if k not in fa or k not in fb:
                v.und('%s.%s is only set on one of them' % (name, k))
                continue
            compare(v, w, I, st, fa[k], fb[k], where, seen, path + '.' + k)
        return
    if a[0] == 'cont':
        xa, xb = I.contents(a, st), I.contents(b, st)
        if xa is None or xb is None:
            if (xa is None) != (xb is None):
                v.und('%s: contents' % name)
            return
        if a[1] == 'dict':
            v.und('%s: mapping' % name) if len(xa) != len(xb) else None
            return
        if len(xa) != len(xb):
            v.bad('%s of the copy has %d elements instead of %d' % (name, len(xb), len(xa)), where)
            return
        if a[1] in ('set', 'frozenset'):
            return
        for i, (x, y) in enumerate(zip(xa, xb)):
            compare(v, w, I, st, x, y, where, seen, '%s[%d]' % (path, i))
        return
    if a == b:
        return
    if a[0] in ('sym', 'const'):
        v.bad('%s of the copy is %s instead of %s' % (name, show(b), show(a)), where)
        return
    if a[0] == 'enum':
        v.bad('%s of the copy is %s instead of %s' % (name, show(b), show(a)), where)
        return
    if a[0] in ('gen', 'func', 'bound'):
        return
    if a[0] == 'tuple' and len(a[1]) == len(b[1]):
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            compare(v, w, I, st, x, y, where, seen, '%s[%d]' % (path, i))
        return
    if a[0] == 'op' and a[1] == b[1] and len(a[2]) == len(b[2]) or a[0] == 'call' and a[1] == b[1] and len(a[2]) == len(b[2]):
        for x, y in zip(a[2], b[2]):
            if isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str):
                compare(v, w, I, st, x, y, where, seen, path)
        return
    if a[0] == 'idx' and b[0] == 'idx' and a[2] == b[2]:
        compare(v, w, I, st, a[1], b[1], where, seen, path)
        return
    if a[0] == 'fld' and b[0] == 'fld' and a[2] == b[2]:
        compare(v, w, I, st, a[1], b[1], where, seen, path)
        return
    v.und('%s is %s and %s' % (name, show(a)[:40], show(b)[:40]))


def holds(t, kind):
    return isinstance(t, tuple) and (t[:1] == (kind,) or any(holds(x, kind) for x in t))


def deep(t, x, st, I, seen=None):
    """Whether a term depends on a symbol, contents and fields included."""
    seen = set() if seen is None else seen
    if t == x:
        return True
    if not isinstance(t, tuple) or t in seen:
        return False
    seen.add(t)
    if t[:1] == ('cont',):
        xs = I.contents(t, st)
        return xs is None or any(deep(y, x, st, I, seen) for y in xs)
    if t[:1] == ('obj',):
        return not isinstance(t[2], int) or any(deep(y, x, st, I, seen) for y in fields(t, st).values())
    if t[:1] in (('phi',), ('gen',)):
        return True
    return any(deep(y, x, st, I, seen) for y in t)


def leaves(o, st, I, path='', depth=0, seen=None):
    """(attribute chain, symbol) for every place of an object graph that holds a symbol."""
    seen = set() if seen is None else seen
    if o in seen or depth > 4:
        return
    seen.add(o)
    for k, x in sorted(fields(o, st).items()):
        if x[0] == 'sym':
            yield path + '.' + k, x[1]
        elif x[0] == 'obj' and isinstance(x[2], int) and k != 'owner':
            yield from leaves(x, st, I, path + '.' + k, depth + 1, seen)


def follow(o, st, chain):
    for k in chain.strip('.').split('.'):
        o = fields(o, st).get(k)
        if o is None:
            return None
    return o


def current(ctx, z, c, k, src, places, where):
    expr, syms, imports = k
    lines, new = [], {}
    for s in syms:
        for chain in sorted(places.get(s, ())):
            new[chain] = s + '_2'
            if chain.endswith('.' + VALUE):
                lines.append('    o%s.set_value(%s_2)\n' % (chain[:-len(VALUE) - 1], s))
            else:
                lines.append('    o%s = %s_2\n' % (chain, s))
    if not lines:
        z.und('no setting found')
        return
    f = ctx.client(src % ('\n'.join(imports), ', '.join(syms + ['%s_2' % s for s in syms]), expr, ''.join(lines)))
    I = ctx.interp(opaque=opaque)
    rets = [p for p in ctx.run(I, f) or () if p.out[0] == 'ret']
    if not rets:
        z.und('cannot be changed')
    for p in rets:
        o, b = p.value[1]
        for chain, s in sorted(new.items()):
            x, y = follow(o, p.st, chain), follow(b, p.st, chain)
            if x != ('sym', s):
                continue
            if y is None:
                z.und('%s of the copy' % chain)
            elif y != x:
                if y[0] in ('sym', 'const') or not deep(y, x, p.st, I):
                    z.bad('%s was changed to %s, the copy has %s' % (chain.lstrip('.'), show(x), show(y)), where)
                else:
                    z.und('%s of the copy is %s' % (chain, show(y)[:40]))


def duplicates(ctx):
    v, w = V(ctx, 'voices', 'duplicate_voice'), V(ctx, 'apart', 'duplicate_voice')
    c = ctx.prog.cls('klang.audio.voices.Voice')
    k = constructor(ctx, c)
    if k is None or ctx.optional('klang.audio.synthesizer.duplicate_voice') is None:
        v.und('constructor')
        v.done()
        return w.done()
    expr, syms, imports = k
    src = '%s\nfrom klang.audio.synthesizer import duplicate_voice\n\n\ndef client(%s):\n    o = %s\n    return o, duplicate_voice(o, 2)\n'
    f = ctx.client(src % ('\n'.join(imports), ', '.join(syms), expr))
    I = ctx.interp(opaque=opaque)
    rets = [p for p in ctx.run(I, f) or () if p.out[0] == 'ret']
    n = 0
    d = ctx.optional('klang.audio.synthesizer.duplicate_voice')
    where = '%s:%d (%s)' % (d.mod.rel, d.node.lineno, d.key)
    for p in rets:
        o, t = p.value[1]
        xs = I.contents(t, p.st)
        if xs is None:
            v.und('voices')
            continue
        if len(xs) != 2:
            v.bad('%d voices instead of 2' % len(xs), where)
            continue
        n += 1
        compare(v, w, I, p.st, o, xs[0], where)
        compare(v, w, I, p.st, o, xs[1], where)
        compare(v, w, I, p.st, xs[0], xs[1], where)
    if not n:
        v.und('voices')
    v.done('%d paths' % n)
    w.done('%d paths' % n)
