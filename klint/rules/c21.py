"""C21: every accepted option name is implemented, any other is refused."""
import ast

from ..core import V, clause, spread
from ..engine import C, is_const, show
from ..walk import flat, subterm

EXPLAIN = ('Exhaustive case analysis of option values: the code that takes an option given by name is interpreted with an unknown name; on every path that ends without an '
           'error the comparisons and membership tests passed on the way say which names lead there. A path that is reached by a name nobody '
           'asked for (and hands it to no outside library that checks it) accepts everything. Each name found this way, and each documented name, '
           'is then followed alone through creation and use: it has to reach a result, no variable may be read that no branch has '
           'set, None may not fall out at the end, and two names of one option may not lead to the same code and result.')
ASSUME = ['assertions are enabled', 'the samplerate and scipy libraries refuse names they do not know']
MINIMUM = 4
TECHNIQUE = 'path-sensitive case analysis (abstract interpretation) over all values of each option'

# id, imports, body (NAME stands for the option), documented names, names that may coincide, value has to be given back
OPTIONS = [
    ('klang.audio.panning.panning_amplitudes(mode)', 'from klang.audio.panning import panning_amplitudes', 'return panning_amplitudes(z, NAME)',
     ('linear', 'constant_power', 'mixture'), ()),
    ('klang.audio.panning.panning_amplitudes(mode, panLaw)', 'from klang.audio.panning import panning_amplitudes', 'return panning_amplitudes(z, NAME, law)',
     ('linear', 'constant_power', 'mixture'), ()),
    ('klang.audio.panning.pan_signal(mode)', 'from klang.audio.panning import pan_signal', 'return pan_signal(z, .5, NAME)', ('linear', 'constant_power', 'mixture'), ()),
    ('klang.audio.mixer.StereoMixer(mode)', 'from klang.audio.mixer import StereoMixer', 'o = StereoMixer(1, mode=NAME); o.update(); return o.output.value',
     ('linear', 'constant_power', 'mixture'), None),
    ('klang.audio.synthesizer.NoteScheduler(policy)', 'from klang.audio.synthesizer import NoteScheduler',
     'o = NoteScheduler(NAME); o.add_note(z); return o', ('newest', 'oldest', 'lowest', 'highest'), None),
    ('klang.audio.synthesizer.MonophonicSynthesizer(policy)', 'from klang.audio.synthesizer import MonophonicSynthesizer',
     'o = MonophonicSynthesizer(z, NAME); o.noteScheduler.add_note(z); return o', ('newest', 'oldest', 'lowest', 'highest'), None),
    ('klang.arpeggiator.arpeggio_index_permutation(order)', 'from klang.arpeggiator import arpeggio_index_permutation', 'return arpeggio_index_permutation(NAME, 4)',
     ('up', 'down', 'upDown', 'downUp', 'alternating', 'random'), ('random',)),
    ('klang.arpeggiator.Arpeggio(order)', 'from klang.arpeggiator import Arpeggio',
     'o = Arpeggio(NAME); o.add_note(z); return o.permutation', ('up', 'down', 'upDown', 'downUp', 'alternating', 'random'), None),
    ('klang.arpeggiator.Arpeggiator(order)', 'from klang.arpeggiator import Arpeggiator',
     'o = Arpeggiator(.1, NAME); o.arpeggio.add_note(z); return o.arpeggio.permutation', ('up', 'down', 'upDown', 'downUp', 'alternating', 'random'), None),
    ('klang.audio.sampling.CrudeResampler(converter_type)', 'from klang.audio.sampling import CrudeResampler', 'return CrudeResampler(z, 1., NAME).read(256)',
     ('crude', 'very_crude'), ()),
    ('klang.audio.sampling.initialize_resampler(mode)', 'from klang.audio.sampling import initialize_resampler', 'return initialize_resampler(z, 1., NAME, 1)',
     ('crude', 'very_crude'), None),
    ('klang.audio.sampling.Sample(mode)', 'from klang.audio.sampling import Sample', 'o = Sample(44100, z, mode=NAME); return o.resampler', ('crude', 'very_crude'), None),
    ('klang.audio.sync.Clock(edge)', 'from klang.audio.sync import Clock', 'o = Clock(2., .1, NAME); o.update(); return o.output.value', ('rising', 'falling'), ()),
    ('klang.audio.oscillators.Lfo(shape)', 'from klang.audio.oscillators import Lfo\nfrom klang.config import BUFFER_SIZE',
     'o = Lfo(2., shape=NAME); o.update(); return o.output.value', (1, 256), ()),
    ('klang.audio.effects.Subsampler(factor)', 'from klang.audio.effects import Subsampler', 'o = Subsampler(NAME); o.input.set_value(z); o.update(); return o.output.value',
     (2, 4, 8, 16, 32, 64), ()),
]
LIBRARY = ('samplerate.', 'scipy.')
CHECKED = ('klang.audio.sampling', 'klang.audio.effects')


def check(ctx):
    r = ctx.rep
    r.rule('refuse', 'a name that is no option is refused with an error')
    r.rule('accept', 'every accepted name leads to a defined result')
    r.rule('own', 'every accepted name has a result of its own')
    r.rule('default', 'the default values of a constructor are accepted by it')
    jobs = [(option, 'refuse', o) for o in OPTIONS] + [(defaults, 'default', k) for k in sorted(ctx.prog.classes) if k.startswith('klang.')]
    spread(ctx, jobs, lambda c, j: clause(c, j[1], j[0], j[2]))


def option(ctx, spec):
    con, imports, body, names, same = spec
    owner = con.partition('(')[0]
    if owner not in ctx.prog.classes and ctx.optional(owner) is None:
        return
    accepted = refuse(ctx, con, imports, body, names)
    v, w = V(ctx, 'accept', con), V(ctx, 'own', con)
    results = {}                            # note policies (same is None): what they choose is C24's business
    for n in list(names) + sorted((x for x in accepted if x not in names), key=repr):
        outs = follow(ctx, v, con, imports, body, n)
        if outs is not None and (same is None or n not in same):
            results[n] = outs
    v.done('%s' % ', '.join(map(str, list(names) + [x for x in accepted if x not in names])))
    if same is None:
        return
    seen = {}
    for n, outs in results.items():
        k = frozenset(outs)
        if k and k in seen and not any('?' in x for x in k):
            w.bad('%r does the same as %r: %s' % (n, seen[k], sorted(k)[0][:140]), owner)
        seen.setdefault(k, n)
    w.done('%d different results' % len(seen))


def client(ctx, imports, body, name):
    lines = [x.strip() for x in body.replace('NAME', name).split(';')]
    return ctx.client('%s\n\n\ndef client(name, z, law):\n    %s\n' % (imports, '\n    '.join(lines)))


def interp(ctx):
    return ctx.interp(lookup_raises=True)


def refuse(ctx, con, imports, body, names):
    """Checks that other names end in an error; returns the constants the code compares the name with on the way to a result."""
    v = V(ctx, 'refuse', con)
    x = ('sym', 'name')
    I = interp(ctx)
    ps = ctx.run(I, client(ctx, imports, body, 'name'), args=[x, ('sym', 'z'), ('sym', 'law')])
    found, n = set(), 0
    if ps is None:
        v.und('too many paths')
    for p in ps or ():
        if p.out[0] != 'ret':
            n += 1
            continue
        got, loose = constraint(p, x)
        if got is None:
            if loose or library(p, x):
                continue
            if p.value == ('const', 'NoneType', None):
                v.bad('a name that is no option is accepted, there is no result', con.partition('(')[0])
                continue
            v.bad('any name is accepted and leads to %s' % show(p.value)[:100], con.partition('(')[0])
        else:
            found |= {y for y in got if isinstance(y, (str, int, float))}
    if not n and v.v == 'ok':
        v.und('nothing is refused')
    v.done('accepted names: %s' % ', '.join(map(repr, sorted(found, key=repr))))
    return found


def constraint(p, x):
    """Constants the name may have on this path (None: any), and whether it passed a test that is not understood."""
    got, loose = None, False
    for k, val in p.facts.items():
        if not any(isinstance(y, tuple) and subterm(y, x) for y in k[1:]):
            continue
        new = None
        if val and k[0] == 'eq' and x in k[1:3]:
            o = k[2] if k[1] == x else k[1]
            if is_const(o):
                new = {o[2]}
            else:
                loose = True
        elif val and k[0] == 'inset' and k[1] == x:
            new = {y[2] if isinstance(y, tuple) and is_const(y) else y for y in k[2]}
        elif val and k[0] == 'in' and k[1] == x:
            new = numbers(k[2])
            loose = loose or new is None
        elif k[0] in ('eq', 'inset', 'in', 'isinst', 'truthy'):
            pass
        else:
            loose = True
        if new is not None:
            got = new if got is None else got & new
    for it in flat(p):
        ev = it.ev
        if ev.kind == 'getitem' and ev.key == x:
            loose = True                   # a table of the options: others are missing
    return got, loose


def numbers(t):
    """A few of the numbers of a range, its ends included."""
    if isinstance(t, tuple) and t[0] == 'call' and t[1] == 'builtins.range' and t[2] and all(is_const(y) and isinstance(y[2], int) for y in t[2]):
        r = range(*(y[2] for y in t[2]))
        return {r[i] for i in (0, 1, 2, len(r) // 2, -2, -1) if -len(r) <= i < len(r)}
    return None


def library(p, x):
    for it in flat(p):
        ev = it.ev
        if ev.kind == 'call' and not ev.inlined:
            n = ev.fn if isinstance(ev.fn, str) else ev.fn[1] if ev.fn[0] == 'ext' else ''
            if isinstance(n, str) and n.startswith(LIBRARY) and any(subterm(a, x) for a in list(ev.args) + [k for k in ev.kwargs if isinstance(k, tuple)]):
                return True
    return False


def follow(ctx, v, con, imports, body, n):
    """Result texts of one name; None when it is not known."""
    I = interp(ctx)
    ps = ctx.run(I, client(ctx, imports, body, repr(n)), args=[('sym', 'name'), ('sym', 'z'), ('sym', 'law')])
    if ps is None:
        v.und('%r: too many paths' % (n,))
        return None
    outs, why = set(), None
    for p in ps:
        for it in flat(p):
            if it.ev.kind in ('undefname', 'unboundname'):
                v.bad('%r is accepted, but no branch for it sets %s' % (n, it.ev.name), it.ev)
                return None
        if p.out[0] == 'raise':
            why = p.out[1]
            if why[0] == 'exc' and why[1] in (('ext', 'builtins.NameError'), ('ext', 'builtins.UnboundLocalError')):
                v.bad('%r is accepted, but fails with %s' % (n, why[1][1]), con.partition('(')[0])
                return None
        elif is_const(p.value) and p.value[2] is None:
            v.bad('%r is accepted, but there is no result' % (n,), con.partition('(')[0])
            return None
        else:
            outs.add(text(p.value, p.st, I))
    if not outs:
        if why is None:
            v.und('%r: no path' % (n,))
        elif refusal(why):
            v.bad('%r is documented but refused (%s)' % (n, show(why)[:80]), con.partition('(')[0])
        else:
            v.und('%r: raises %s' % (n, show(why)[:80]))
        return None
    return outs


def refusal(t):
    return t[0] == 'exc' and t[1] in (('ext', 'builtins.ValueError'), ('ext', 'builtins.AssertionError'), ('ext', 'builtins.KeyError'), ('ext', 'builtins.TypeError'),
                                      ('ext', 'builtins.NotImplementedError'))


def text(t, st, I, depth=0):
    if depth > 20:
        return '?'
    if t[0] == 'cont':
        c = I.contents(t, st)
        if c is None:
            return '?'
        return '[%s]' % ', '.join(text(y, st, I, depth + 1) if isinstance(y, tuple) else str(y) for y in c)
    if t[0] == 'tuple':
        return '(%s)' % ', '.join(text(y, st, I, depth + 1) for y in t[1])
    if t[0] == 'call':
        return '%s(%s)' % (t[1] if isinstance(t[1], str) else text(t[1], st, I, depth + 1), ', '.join(
            [text(y, st, I, depth + 1) for y in t[2]] + ['%s=%s' % (k[0], text(k[1], st, I, depth + 1)) for k in t[3] if len(k) == 2 and isinstance(k[1], tuple)]))
    if t[0] == 'op':
        return '(%s %s)' % (t[1], ' '.join(text(y, st, I, depth + 1) for y in t[2]))
    return show(t)


# --- defaults

def defaults(ctx, key):
    m = ctx.method(key, '__init__')
    if not m or m[1].key != key or not has_defaults(m[0].node):
        return
    c = ctx.prog.classes[key]
    mod, _, name = key.rpartition('.')
    if c.key != '%s.%s' % (mod, name) or '.' in name or mod not in ctx.prog.mods:
        return
    a = m[0].node.args
    xs = [x.arg for x in a.args[1:]]
    free = xs[:len(xs) - len(a.defaults)] if a.defaults else xs
    free = ['p%d' % i for i in range(len(free))]
    kw = [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    call = ', '.join(free + ['%s=%s' % (k, k) for k in kw])
    v = V(ctx, 'default', key)
    f = ctx.client('from %s import %s\n\n\ndef client(%s):\n    return %s(%s)\n' % (mod, name, ', '.join(free + kw), name, call))
    I = ctx.interp()
    ps = ctx.run(I, f, args=[('sym', n) for n in free + kw])
    if ps is None:
        return
    raised = None
    for p in ps:
        if p.out[0] == 'ret':
            v.done()
            return
        if p.out[0] == 'raise' and p.out[1][0] == 'exc' and p.out[1][1] in (('ext', 'builtins.AssertionError'), ('ext', 'builtins.ValueError')):
            raised = raised or p
    if raised is not None and all(p.out[0] == 'raise' for p in ps):
        ev = [it.ev for it in flat(raised) if it.ev.kind == 'raise']
        v.bad('%s(%s) with all defaults always raises %s' % (name, call, raised.out[1][1][1].partition('.')[2]), ev[-1] if ev else '%s:%d' % (m[0].mod.rel, m[0].node.lineno))
    else:
        v.und('no path returns')
    v.done()


def has_defaults(node):
    return bool(node.args.defaults) or any(d is not None for d in node.args.kw_defaults)
