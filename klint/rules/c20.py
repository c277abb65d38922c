"""C20: a note value behaves like the seconds (or Hz) it stands for."""
import ast
import re

from .. import poly
from ..core import V, clause
from ..engine import C, is_const, show
from ..walk import flat, subterm

EXPLAIN = ('Relational dataflow analysis: every public parameter or input that accepts seconds (or Hz) or a note value is fed with one unknown value, once under the assumption that it is '
           'a note value (Fraction) and once that it is a number. Everything the value flows into (comparisons, numeric library calls, fields, '
           'items, messages) is collected in polynomial normal form on every path, and the two collections have to be the same once the '
           'number is replaced by the duration of the note (for times) or its reciprocal (for rates). A comparison or computation with the raw note, '
           'a conversion of the wrong kind, a double or a missing conversion each leave a term without partner. The '
           'conversion formulas themselves and the duration of a sequence are compared as polynomials.')
ASSUME = ['note values are instances of fractions.Fraction (subclasses included)', 'tempo and beat values are positive']
MINIMUM = 4
TECHNIQUE = 'relational dataflow (unit) analysis of note-value parameters over all paths, polynomial normal forms'

NOTE = 'klang.music.tempo.note_duration'
HEAD = 'import copy\nfrom fractions import Fraction\n'
# what the library accepts: class, parameter, 'time' or 'rate'
ACCEPT = [
    ('klang.audio.effects.Delay', 'time', 'time'),
    ('klang.audio.effects.StereoDelay', 'leftTime', 'time'),
    ('klang.audio.effects.StereoDelay', 'rightTime', 'time'),
    ('klang.arpeggiator.Arpeggiator', 'interval', 'time'),
    ('klang.audio.effects.Tremolo', 'rate', 'rate'),
    ('klang.audio.sync.Clock', 'frequency', 'rate'),
    ('klang.audio.oscillators.FmOscillator', 'modFrequency', 'rate'),
]
INPUTS = [('klang.audio.effects.Tremolo', 'rate'), ('klang.audio.sync.Clock', 'frequency')]
PHASOR = 'klang.audio.oscillators.Phasor'
QUIET = {'builtins.' + x for x in 'isinstance issubclass type hasattr getattr setattr str repr format print id hash callable len list tuple dict set super'.split()} | {
    'numpy.ndim', 'numpy.shape', 'numpy.size', 'numpy.isscalar', 'copy.copy', 'copy.deepcopy'}


def check(ctx):
    r = ctx.rep
    r.rule('parameter', 'a constructor argument given as a note value acts like the seconds or Hz it stands for')
    r.rule('input', 'a note value at an input acts like the Hz it stands for')
    r.rule('conversion', 'compute_duration, compute_rate and the tempo functions compute what they promise')
    r.rule('sequence', 'the duration of a sequence follows from its steps, grid, beat value and tempo')
    for cls, par, kind in accepted(ctx):
        clause(ctx, 'parameter', parameter, cls, par, kind)
    for cls, attr in inputs(ctx):
        clause(ctx, 'input', inlet, cls, attr)
    clause(ctx, 'conversion', conversion)
    clause(ctx, 'sequence', sequence)


def accepted(ctx):
    out = []
    for cls, par, kind in ACCEPT:
        if cls in ctx.prog.classes and par in params(ctx, cls):
            out.append((cls, par, kind))
    for c in oscillators(ctx):
        if 'frequency' in params(ctx, c) and (c, 'frequency', 'rate') not in out:
            out.append((c, 'frequency', 'rate'))
    have = {(c, p) for c, p, _ in out}
    for key in sorted(ctx.prog.classes):
        m = ctx.method(key, '__init__') if key.startswith('klang.') else None
        if not m or m[1].key != key:
            continue
        doc = (ast.get_docstring(m[0].node) or '')
        for a in m[0].node.args.args[1:] + m[0].node.args.kwonlyargs:
            ann = ast.unparse(a.annotation) if a.annotation else ''
            said = re.search(r'\b%s\b[^\n]*\b(or|/)\s*(a\s+)?[Nn]ote\b' % re.escape(a.arg), doc)
            if ('TimeOrNoteValue' in ann or said) and (key, a.arg) not in have:
                out.append((key, a.arg, None))
    return out


def oscillators(ctx):
    if PHASOR not in ctx.prog.classes:
        return []
    return sorted(k for k, c in ctx.prog.classes.items() if k.startswith('klang.') and any(getattr(b, 'key', None) == PHASOR for b in ctx.prog.mro(c)))


def inputs(ctx):
    out = [(c, a) for c, a in INPUTS if c in ctx.prog.classes]
    return out + [(c, 'frequency') for c in oscillators(ctx)]


def params(ctx, cls):
    m = ctx.method(cls, '__init__')
    if not m:
        return []
    a = m[0].node.args
    return [x.arg for x in (a.args + a.kwonlyargs)[1:]]


def needed(ctx, cls, par):
    """Arguments for the other parameters without default."""
    m = ctx.method(cls, '__init__')
    a = m[0].node.args
    xs = [x.arg for x in a.args[1:]]
    free = xs[:len(xs) - len(a.defaults)] + [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return ', '.join('%s=1.' % n for n in free if n != par)


def parameter(ctx, cls, par, kind):
    mod, _, name = cls.rpartition('.')
    extra = needed(ctx, cls, par)
    make = '%s(%s%s=x)' % (name, extra + ', ' if extra else '', par)
    bodies = ['o = ' + make, 'o = %s\n        o.update()' % make, 'o = %s\n        o = o.__str__()' % make]
    if ctx.method(cls, '__deepcopy__'):
        bodies.append('o = copy.deepcopy(%s)\n        o.update()' % make)
    compare(ctx, 'parameter', '%s(%s)' % (cls, par), HEAD + 'from %s import %s\n' % (mod, name), bodies, kind)


def inlet(ctx, cls, attr):
    mod, _, name = cls.rpartition('.')
    extra = needed(ctx, cls, None)
    head = HEAD + 'from %s import %s\nfrom klang.block import Block\n' % (mod, name)
    make = 'o = %s(%s)\n        ' % (name, extra)
    bodies = [make + 'o.%s.set_value(x)\n        o.update()' % attr,
              make + 'src = Block(nOutputs=1)\n        src.output.connect(o.%s)\n        src.output.set_value(x)\n        o.update()' % attr]
    compare(ctx, 'input', '%s.%s' % (cls, attr), head, bodies, 'rate')


def compare(ctx, rule, con, head, bodies, kind):
    v = V(ctx, rule, con)
    x = ('sym', 'x')
    n = 0
    for body in bodies:
        if 'update' in body and not runs(ctx, con):
            continue
        note = collect(ctx, head, body, x, True)
        num = collect(ctx, head, body, x, False)
        if note is None or num is None:
            v.und('too many paths')
            continue
        best = None
        for k in ([kind] if kind else ['time', 'rate']):
            d = differences(ctx, num, note, x, k)
            if best is None or len(d) < len(best):
                best = d
        n += len(num)
        if best:
            text, ev = best[0]
            v.bad(text, ev)
    v.done('%d uses agree' % n)


def runs(ctx, con):
    m = ctx.method(re.split(r'[(]', con)[0] if '(' in con else con.rpartition('.')[0], 'update')
    return bool(m)


def collect(ctx, head, body, x, note):
    """{canonical term: (term, event)} of all the value flows into, on all paths; plus how the paths end."""
    src = head + '\n\ndef client(x):\n    if isinstance(x, Fraction):\n        %s\n    else:\n        %s\n' % ((body, 'return None') if note else ('return None', body))
    I = ctx.interp(opaque=lambda f: f.key == NOTE)
    ps = ctx.run(I, ctx.client(src))
    if ps is None:
        return None
    out = {}
    for p in ps:
        if not mode(p, x, note):
            continue
        for it in flat(p):
            ev = it.ev
            for t in sinks(ev):
                for u in parts(t):
                    if mentions(u, x) and not text_only(u):
                        c = canon(ctx, u, x, I, p.st)
                        if u == x and (ev.kind == 'order' or ev.kind == 'call' and numeric(ev)):
                            c = ('bare',)
                        out.setdefault(c, (u, ev))
        if p.out[0] == 'raise':
            c = ('raises', exc_name(p.out[1]))
            out.setdefault(c, (p.out[1], None))
    return out


def exc_name(t):
    return t[1][1] if t[0] == 'exc' and t[1][0] in ('ext', 'class') else t[0]


def mode(p, x, note):
    seen = False
    for k, val in p.facts.items():
        if k[0] == 'isinst' and k[1] == x:
            if k[2][0] == 'tuple':
                ns = {y[1] for y in k[2][1] if len(y) > 1}
                if (('fractions.Fraction' in ns) if note else ('builtins.float' in ns)) and not val:
                    return False
                if note and val and ns <= {'builtins.int', 'builtins.float', 'builtins.complex', 'builtins.str'}:
                    return False
                if not note and val and 'builtins.float' not in ns and not ns & {'numbers.Number', 'numbers.Real'}:
                    return False
                continue
            n = k[2][1] if len(k[2]) > 1 else str(k[2])
            if n == 'fractions.Fraction':
                if val is not note:
                    return False
                seen = True
            elif n in ('builtins.float',) and val is note:
                return False
            elif n in ('builtins.int', 'builtins.str', 'numpy.ndarray', 'builtins.list', 'builtins.tuple', 'collections.abc.Sequence', 'collections.abc.Iterable',
                       'builtins.bool', 'decimal.Decimal') and val:
                return False
            elif n in ('numbers.Number', 'numbers.Real') and not val:
                return False
            elif n in ('numbers.Rational',) and val is not note:
                return False
        elif k[0] == 'isinst' and len(k[2]) > 1 and k[2][1] == 'fractions.Fraction' and val and (not note and subterm(k[1], x) or converted(k[1])):
            return False                    # durations and rates are floats
    return seen


def converted(t):
    if isinstance(t, tuple):
        if t[:1] == ('call',) and isinstance(t[1], tuple) and t[1][:2] == ('func', NOTE):
            return True
        return any(converted(y) for y in t if isinstance(y, tuple))
    return False


def sinks(ev):
    k = ev.kind
    if k == 'write':
        yield ev.value
    elif k == 'setitem':
        yield ev.key
        yield ev.value
    elif k == 'getitem':
        yield ev.key
    elif k == 'order':
        a, b = ev.left, ev.right
        if not (zero(a) or zero(b)):
            yield a
            yield b
    elif k == 'call' and not ev.inlined:
        fn = ev.fn
        n = fn if isinstance(fn, str) else fn[1] if fn[0] in ('ext', 'func') else None
        if n in QUIET or n == NOTE or (fn[0] == 'extm' and fn[2] in ('format', 'append', 'extend', 'add', 'insert', 'update')):
            return
        for a in ev.args:
            yield a
        for a in ev.kwargs:
            yield a[1] if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple) else a
    elif k == 'mut':
        for a in ev.args:
            yield a


def zero(t):
    return is_const(t) and isinstance(t[2], (int, float)) and t[2] == 0


def parts(t):
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return
    if t[0] == 'tuple':
        for y in t[1]:
            yield from parts(y)
    else:
        yield t


def mentions(t, x):
    return subterm(t, x)


def text_only(t):
    """String formatting."""
    return t[0] == 'op' and (t[1] == 'fstr' or (t[1] == '%' and is_const(t[2][0]) and isinstance(t[2][0][2], str))) or (
        t[0] == 'call' and t[1] in ('builtins.str', 'builtins.repr', 'builtins.format')) or t[0] == 'exc'


def canon(ctx, t, x, I, st):
    """Polynomial normal form, without the numbers of objects, versions and occurrences; calls of note_duration reduced to ('dur', argument)."""
    return poly.normal(strip(ctx, t, x))


def strip(ctx, t, x):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'func' and t[1][1] == NOTE:
        return duration(ctx, t, x)
    if t[0] == 'call':
        fn = t[1] if isinstance(t[1], str) else strip(ctx, t[1], x)
        return ('call', fn, tuple(strip(ctx, y, x) for y in t[2]), tuple(strip(ctx, y, x) for y in t[3]), None)
    if t[0] == 'op' and t[1] not in ('+', '-', '*', '/', 'u-'):
        return ('op', t[1], tuple(poly.normal(strip(ctx, y, x)) for y in t[2]))
    if t[0] == 'obj':
        return ('obj', t[1], 0)
    if t[0] == 'cont':
        return ('cont', t[1], 0)
    if t[0] in ('fld', 'idx') and len(t) == 4:
        return (t[0], poly.normal(strip(ctx, t[1], x)), t[2] if isinstance(t[2], str) else strip(ctx, t[2], x), 0)
    if t[0] == 'elem':
        return ('elem', strip(ctx, t[1], x), 0)
    if t[0] == 'phi':
        return ('phi', 0, strip(ctx, t[2], x) if isinstance(t[2], tuple) else t[2])
    if t[0] == 'func':
        return ('func', t[1], 0)
    return tuple(strip(ctx, y, x) if isinstance(y, tuple) else y for y in t)


def duration(ctx, t, x):
    """note_duration(c * x, <defaults>) is c * dur."""
    args, kw = list(t[2]), list(t[3])
    if not args:
        return t[:4] + (None,)
    rest = args[1:] + [k[1] for k in kw if isinstance(k, tuple) and len(k) == 2]
    f = ctx.prog.func(NOTE)
    defaults = [ast.unparse(d) for d in f.node.args.defaults]
    for a in rest:
        if not is_const(a):
            continue
        if a[2] is None or a == default(ctx, 'TEMPO'):
            continue
        return ('call', 'odd duration', tuple(args), (), None)
    p = poly.poly(args[0])
    if len(p) == 1:
        (m, c), = p.items()
        if m == (x,):
            d = ('dur', x)
            return d if c == 1. else ('op', '*', (C(c), d))
    return ('call', 'duration', (args[0],), (), None)


def default(ctx, name):
    try:
        return ctx.const('klang.config.' + name)
    except Exception:
        return None


def differences(ctx, num, note, x, kind):
    d = ('dur', x)
    r = d if kind == 'time' else ('op', '/', (C(1.), d))
    want = {}
    for c, (t, ev) in num.items():
        if c[0] in ('raises', 'bare'):
            want[c] = (t, ev)
            continue
        # in number mode every conversion is the identity; a converted number is a mistake of its own
        want[poly.normal(strip(ctx, poly.subst(t, {x: r}), x))] = (t, ev)
    plain = {poly.normal(x), poly.normal(d), poly.normal(('op', '/', (C(1.), d)))}
    out = []
    for c, (t, ev) in num.items():
        if c[0] not in ('raises', 'bare') and subterm(c, d):
            out.append(('a number is converted as if it were a note value: %s' % show(t)[:140], ev))
    bare = ('sym', 'x')
    for c, (t, ev) in note.items():
        if c in plain or c in want or c[0] == 'bare':
            continue
        if c[0] == 'raises':
            out.append(('a note value raises %s where the corresponding number does not' % c[1], ev))
        elif subterm(drop(c, d), bare):
            out.append(('the note value itself is used where its %s is meant: %s' % ('duration' if kind == 'time' else 'rate', show(t)[:140]), ev))
        else:
            out.append(('a note value takes effect as %s, which is not what the corresponding number of %s does' % (show(t)[:140], 'seconds' if kind == 'time' else 'Hz'), ev))
    for c, (t, ev) in want.items():
        if c not in note and c not in plain and c[0] != 'bare':
            out.append(('a number takes effect as %s, a note value does not' % show(t)[:140], ev))
    # the value reaches a computation at all only in its converted form; comparisons with the bare note
    for c, (t, ev) in note.items():
        if c[0] == 'bare':
            out.insert(0, ('the note value itself is used where its %s is meant: %s' % ('duration' if kind == 'time' else 'rate', where(ev)), ev))
    return out


def where(ev):
    if ev.kind == 'order':
        return '%s %s %s' % (show(ev.left)[:60], ev.op, show(ev.right)[:60])
    return show(ev.fn)[:80] if isinstance(ev.fn, tuple) else str(ev.fn)


def numeric(ev):
    n = ev.fn if isinstance(ev.fn, str) else ev.fn[1] if ev.fn[0] == 'ext' else ''
    return isinstance(n, str) and (n in NUMERIC or n.startswith(('math.', 'numpy.')) and n not in QUIET)


NUMERIC = {'builtins.' + x for x in 'int float round divmod pow range abs'.split()}


def drop(t, d):
    """t without the converted parts."""
    if t == d:
        return ('dur',)
    if isinstance(t, tuple):
        return tuple(drop(y, d) if isinstance(y, tuple) else y for y in t)
    return t


# conversion formulas

def conversion(ctx):
    names = ['compute_duration', 'compute_rate']
    for n in names:
        v = V(ctx, 'conversion', 'klang.music.tempo.' + n)
        f = ctx.optional('klang.music.tempo.' + n)
        if f is None:
            continue
        x, tempo = ('sym', 'x'), ('sym', 'tempo')
        for note in (True, False):
            for call in ('%s(x)', '%s(x, tempo)', '%s(x, tempo=tempo)', '%s(x, beatValue=tempo)'):
                body = 'return ' + call % n
                src = HEAD + 'from klang.music.tempo import %s\n\n\ndef client(x, tempo):\n    if isinstance(x, Fraction):\n        %s\n    %s\n' % (
                    (n,) + ((body, 'return None') if note else ('return None', body)))
                I = ctx.interp(opaque=lambda g: g.key == NOTE)
                for p in ctx.run(I, ctx.client(src)) or ():
                    if not mode(p, x, note):
                        continue
                    if p.out[0] != 'ret':
                        v.bad('raises %s for a %s' % (exc_name(p.out[1]), 'note value' if note else 'number'), f.key)
                        continue
                    if not note:
                        if p.value != x:
                            v.bad('a number comes back as %s' % show(p.value)[:100], '%s:%d' % (f.mod.rel, f.node.lineno))
                        continue
                    calls = [it.ev for it in flat(p) if it.ev.kind == 'call' and not it.ev.inlined and it.ev.fn[0] == 'func' and it.ev.fn[1] == NOTE]
                    if len(calls) != 1:
                        v.und('not computed by note_duration')
                        continue
                    d = calls[0].result
                    want = d if n == 'compute_duration' else ('op', '/', (C(1.), d))
                    if not poly.equal(p.value, want):
                        v.bad('the %s of a note value is %s' % ('duration' if n == 'compute_duration' else 'rate', show(p.value)[:100]), '%s:%d' % (f.mod.rel, f.node.lineno))
                    if calls[0].args[0] != x:
                        v.bad('the note value is changed before its conversion: %s' % show(calls[0].args[0])[:100], calls[0])
                    if 'tempo' in call.replace('beatValue=tempo', 'b').replace(n, '') and tempo not in calls[0].args[1:] and not any(
                            k == ('tempo', tempo) or (isinstance(k, tuple) and tempo in k) for k in calls[0].kwargs):
                        v.bad('the given tempo is not used', calls[0])
        v.done()
    formulas = [
        ('klang.music.tempo.note_duration', 'note_duration(n, t, m, b)', lambda n, t, m, b: mul(div(div(C(60.), t), b), n)),
        ('klang.music.tempo.bar_period', 'bar_period(t, m, b)', lambda n, t, m, b: mul(div(div(C(60.), t), b), m)),
        ('klang.music.tempo.tempo_2_frequency', 'tempo_2_frequency(t)', lambda n, t, m, b: div(t, C(60.))),
        ('klang.music.tempo.tempo_2_period', 'tempo_2_period(t)', lambda n, t, m, b: div(C(60.), t)),
        ('klang.music.tempo.angular_velocity', 'angular_velocity(t, m, b)', lambda n, t, m, b: div(ctx.const('klang.constants.TAU'), mul(div(div(C(60.), t), b), m))),
    ]
    syms = [('sym', a) for a in ('n', 't', 'm', 'b')]
    for key, call, want in formulas:
        f = ctx.optional(key)
        if f is None:
            continue
        v = V(ctx, 'conversion', key)
        name = key.rpartition('.')[2]
        src = 'from klang.music.tempo import %s\n\n\ndef client(n, t, m, b):\n    if b is None:\n        return None\n    return %s\n' % (name, call)
        I = ctx.interp()
        k = 0
        for p in ctx.run(I, ctx.client(src)) or ():
            if p.out[0] == 'raise':
                v.und('may raise %s' % exc_name(p.out[1]))
            elif p.facts.get(('eq', ('const', 'NoneType', None), syms[3])) is True or is_const(p.value) and p.value[2] is None:
                continue
            else:
                k += 1
                if not close(poly.poly(p.value), poly.poly(want(*syms))):
                    if unknown(p.value, want(*syms)):
                        v.und(show(p.value)[:120])
                    else:
                        v.bad('%s is %s' % (call, show(p.value)[:140]), '%s:%d' % (f.mod.rel, f.node.lineno))
        if not k:
            v.und('no result')
        v.done('%d paths' % k)


def unknown(t, want):
    """Not understood: has parts that are no arithmetic, and uses everything the result depends on."""
    if any(a[0] == 'sym' and not subterm(t, a) for m in poly.poly(want) for f in m for a in leaves(f)):
        return False
    return strange(t, want)


def leaves(t):
    if t[0] == 'sym':
        yield t
    else:
        for y in t:
            if isinstance(y, tuple) and y:
                yield from leaves(y)


def strange(t, want):
    if t[0] == 'op' and t[1] in ('+', '-', '*', '/', 'u-'):
        return any(strange(y, want) for y in t[2])
    return not (is_const(t) or t[0] == 'sym' or subterm(want, t))


def close(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-9 * max(1., abs(b[k])) for k in b)


def mul(a, b):
    return ('op', '*', (a, b))


def div(a, b):
    return ('op', '/', (a, b))


def sequence(ctx):
    cls = 'klang.sequencer.Sequence'
    if cls not in ctx.prog.classes:
        return
    src = ('from klang.sequencer import Sequence\n\n\ndef client(n, t, b, g, rel):\n    s = Sequence(None, [60, 62, 64], tempo=t, beatValue=b, grid=g, relNoteLength=rel)\n'
           '    return s.duration, s.phasor.frequency.value, s.lengthener.duration\n')
    if not ctx.method(cls, 'duration'):
        return
    v = V(ctx, 'sequence', cls)
    I = ctx.interp()
    t, b, g, rel = [('sym', a) for a in ('t', 'b', 'g', 'rel')]
    step = mul(div(div(C(60.), t), b), g)
    whole = mul(C(3), step)
    n = 0
    for p in ctx.run(I, ctx.client(src)) or ():
        if p.out[0] != 'ret' or p.value[0] != 'tuple':
            continue
        if any(k[0] == 'eq' and val and b in k[1:] for k, val in p.facts.items()):
            continue
        n += 1
        got = p.value[1]
        for val, want, what in ((got[0], whole, 'duration'), (got[1], div(C(1.), whole), 'frequency of its phasor'), (got[2], mul(rel, step), 'note length')):
            if close(poly.poly(val), poly.poly(want)):
                continue
            if unknown(val, want):
                v.und('%s: %s' % (what, show(val)[:120]))
            else:
                v.bad('three steps of grid g (beat value b, tempo t): the %s is %s' % (what, show(val)[:140]), cls)
    if not n:
        v.und('no result')
    v.done('%d paths' % n)
