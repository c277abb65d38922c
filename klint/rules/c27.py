"""C27: keyboard events are debounced and keys reach notes in pairs."""
from ..core import V, clause
from ..engine import C, FALSE, NONE, TRUE, is_const, show
from ..lin import fname
from ..walk import method_call

EXPLAIN = ('Client fragments are followed through the event handlers: whatever state a keyboard is in, a handled event of a key determines what the next '
           'event of this key does, with or without an event of another key in between (so by induction all histories are covered). The octaves and '
           'velocities that can ever be reached are enumerated by following the control keys to a fixpoint from a new keyboard, and every note key is '
           'judged in every reachable octave; press and release of every note key are compared across every control key.')
ASSUME = ['key objects are equal when they are the same key', 'the handlers of a keyboard are called one after the other (one listener thread)']
MINIMUM = 4
TECHNIQUE = 'typestate by path analysis over event pairs from an arbitrary state; fixpoint of the reachable settings'
KB = 'klang.keyboard.'
HEAD = '''from klang.keyboard import Keyboard, MusicalKeyboard


class Key:
    def __init__(self, char):
        self.char = char


class Special:
    pass


'''


def check(ctx):
    r = ctx.rep
    r.rule('debounce', 'a press of a pressed key and a release of a key that is not pressed do nothing, others make exactly one event')
    r.rule('listener', 'the handlers are the ones the system listener calls')
    r.rule('pair', 'releasing a note key silences the note its press has started')
    r.rule('control', 'octave, velocity and tuning change on presses of their keys only, and stay valid')
    r.rule('other', 'remaining keys are passed on exactly if that was asked for')
    for cls in ('Keyboard', 'MusicalKeyboard'):
        for i in range(len(TYPESTATE)):
            clause(ctx, 'debounce', debounce, cls, i)
        clause(ctx, 'debounce', first, cls)
    clause(ctx, 'listener', listener)
    clause(ctx, 'pair', pairs)
    clause(ctx, 'control', octaves)
    clause(ctx, 'control', velocities)
    clause(ctx, 'control', temperaments)
    clause(ctx, 'control', unchanged)
    clause(ctx, 'other', others)


def interp(ctx):
    return ctx.interp(opaque=lambda f: f.name == 'send' and f.cls is not None and f.mod.name == 'klang.connections')


def run(ctx, body, params='', **kw):
    """Paths of a client fragment."""
    lines = '\n'.join('    ' + x.strip() for x in body.split(';'))
    f = ctx.client(HEAD + 'def client(%s):\n%s\n    return kb\n' % (params, lines))
    I = interp(ctx)
    return f, I, ctx.run(I, f, **kw)


def segments(p, f, names=('on_press', 'on_release')):
    """Events of a path grouped by the handler call of the client they belong to."""
    out = []
    for e in p.events:
        if e.kind == 'call' and e.func is f and e.fn[0] in ('func', 'bound') and any(n in str(e.fn) for n in names):
            out.append([])
        if out:
            out[-1].append(e)
    return out


def sends(seg):
    out = []
    for e in seg:
        m = method_call(e, 'send') if e.kind == 'call' and not e.failed else None
        if m is not None and not e.inlined:
            out.append((e, m[0], m[2][0] if m[2] else dict(e.kwargs).get('message')))
        elif e.kind == 'loop' and any(sends(q.events) or sends(q.events) is None for q in e.paths):
            return None
    return out


def clean(p):
    """Paths without an error of the values the fragment leaves open."""
    return p.out is not None and p.out[0] == 'ret'


# (handlers called, index of the last one, events it makes, what the key is called)
TYPESTATE = [
    (('on_press(k)', 'on_press(k)'), 0), (('on_press(k)', 'on_release(k)'), 1), (('on_release(k)', 'on_release(k)'), 0),
    (('on_release(k)', 'on_press(k)'), 1),
    (('on_press(k)', 'on_press(j)', 'on_press(k)'), 0), (('on_press(k)', 'on_release(j)', 'on_press(k)'), 0),
    (('on_press(k)', 'on_press(j)', 'on_release(k)'), 1), (('on_press(k)', 'on_release(j)', 'on_release(k)'), 1),
    (('on_release(k)', 'on_press(j)', 'on_release(k)'), 0), (('on_release(k)', 'on_release(j)', 'on_release(k)'), 0),
    (('on_release(k)', 'on_press(j)', 'on_press(k)'), 1), (('on_release(k)', 'on_release(j)', 'on_press(k)'), 1)]


def debounce(ctx, cls, i):
    calls, want = TYPESTATE[i]
    musical = cls == 'MusicalKeyboard'
    v = V(ctx, 'debounce', '%s: %s' % (cls, ', '.join(calls)))
    if musical and want:  # a note key has a note to release if its press has started one
        calls = ('on_release(k)',) + calls
    chars = [('a', 'w')] if musical else [(None, None)]
    for a, b in chars:
        keys = 'k = Key(%r); j = Key(%r); ' % (a, b) if musical else 'k = Special(); j = Special(); '
        f, I, ps = run(ctx, keys + '; '.join('kb.' + c for c in calls), 'kb', args=[ctx.obj(KB + cls, 'kb')])
        if ps is None:
            v.und('paths')
            continue
        judge(v, f, [p for p in ps if clean(p)], len(calls), want, calls[-1], musical)
    return v.done('%d event(s)' % want)


def judge(v, f, ps, n, want, last, musical):
    if not ps:
        v.und('no path')
    for p in ps:
        segs = segments(p, f)
        if len(segs) != n:
            v.und('handlers')
            continue
        s = sends(segs[-1])
        if s is None:
            v.und('events in a loop')
        elif len(s) != want:
            v.bad('%d events instead of %d' % (len(s), want), s[-1][0] if s else segs[-1][0])
        elif want and not musical:
            e, out, val = s[0]
            key = segs[-1][0].args[-1] if segs[-1][0].args else None
            if val != key:
                v.und('event is %s' % show(val))
                continue
            w = [x for g in segs for x in g[:g.index(e) if e in g else len(g)] if x.kind == 'write' and x.base == val and x.attr == 'pressed']
            down = 'press(' in last
            if not w:
                v.bad('the key does not tell whether it is pressed', e)
            elif is_const(w[-1].value) and bool(w[-1].value[2]) != down:
                v.bad('the key says it is %spressed' % ('not ' if down else ''), w[-1])


def first(ctx, cls):
    """A new keyboard has no pressed key."""
    v = V(ctx, 'debounce', 'new %s' % cls)
    for call, want in (('on_press(k)', 1), ('on_release(k)', 0)):
        key = "Key('a')" if cls == 'MusicalKeyboard' else 'Special()'
        f, I, ps = run(ctx, 'k = %s; kb = %s(); kb.%s' % (key, cls, call))
        if ps is None:
            v.und('paths')
            continue
        judge(v, f, [p for p in ps if clean(p)], 1, want, call, cls == 'MusicalKeyboard')
    return v.done('first events')


def listener(ctx):
    v = V(ctx, 'listener', 'Keyboard.__init__')
    f, I, ps = run(ctx, 'kb = Keyboard(); kb.start(); kb.stop()')
    for p in ps or ():
        made = [e for e in p.events if e.kind == 'call' and e.result is not None and e.result[0] == 'call' and fname(e.result) == 'pynput.keyboard.Listener'] if p.out[0] == 'ret' else ()
        if len(made) != 1:
            v.und('listener')
            continue
        e = made[0]
        kw = dict(e.kwargs)
        pos = list(e.args)
        for i, n in enumerate(('on_press', 'on_release')):
            g = kw.get(n, pos[i] if i < len(pos) else None)
            if g is None or g == NONE:
                v.bad('no handler for %s' % n, e)
            elif g[0] == 'bound':
                got = g[2].rpartition('.')[2]
                if got in ('on_press', 'on_release') and got != n:
                    v.bad('%s is called for %s' % (got, n), e)
                elif got != n:
                    v.und('handler')
            else:
                v.und('handler %s' % show(g))
        for n in ('start', 'stop'):
            if not any((method_call(x, n) or (None,))[0] == e.result for x in p.events):
                v.bad('%s() does not %s the listener' % (n, n), e)
    return v.done('handlers, start and stop')


# --- the musical keyboard --------------------------------------------------
def note_keys(ctx):
    """Note keys with their pitch inside an octave, or None."""
    f = ctx.client('from klang.keyboard import MusicalKeyboard\n\n\ndef client():\n    return MusicalKeyboard.CHAR_2_BASE_PITCH\n')
    I = interp(ctx)
    ps = ctx.run(I, f)
    if not ps or len(ps) != 1:
        return None
    d = I.dict_items(ps[0].value, ps[0].st)
    if d is None or not all(is_const(k) and is_const(x) for k, x in d):
        return None
    return {k[2]: x[2] for k, x in d}


CONTROLS = ('y', 'x', 'c', 'v', '1')


def note(t, I, st):
    """(pitch, velocity, frequency) terms of a note."""
    if t is None or t[0] != 'obj' or not t[1].endswith('.Note'):
        return None
    r = [st.heap.get((t, x)) for x in ('pitch', 'velocity', 'frequency')]
    return r if None not in r else None


def pairs(ctx):
    v = V(ctx, 'pair', 'MusicalKeyboard')
    keys = note_keys(ctx)
    if not keys:
        v.und('note keys')
        return v.done()
    n = 0
    for c in sorted(keys):
        for ctrl in (CONTROLS if c in (sorted(keys)[0], sorted(keys)[-1]) or ctx.thorough else ('x',)):
            f, I, ps = run(ctx, "k = Key(%r); j = Key(%r); o = Key(%r); kb = MusicalKeyboard(); kb.on_press(k); kb.on_press(o); kb.on_press(j); "
                                "kb.on_release(j); kb.on_release(o); kb.on_release(k)" % (c, ctrl, next(x for x in sorted(keys) if x != c)))
            for p in [p for p in ps or () if clean(p)]:
                segs = segments(p, f)
                ss = [sends(s) for s in segs]
                if len(segs) != 6 or None in ss:
                    v.und('handlers')
                    continue
                down, up = ss[0], ss[5]
                if len(down) != 1 or len(up) != 1:
                    v.bad('key %r: %d events for the press, %d for the release' % (c, len(down), len(up)), segs[5][0] if len(up) != 1 else segs[0][0])
                    continue
                a, b = note(down[0][2], I, p.st), note(up[0][2], I, p.st)
                if a is None or b is None:
                    v.und('note %s' % show(down[0][2]))
                    continue
                n += 1
                if down[0][1] != up[0][1]:
                    v.bad('the release of key %r goes elsewhere' % c, up[0][0])
                for i, what in ((0, 'pitch'), (2, 'frequency')):
                    if a[i] != b[i]:
                        if what == 'pitch' and not (is_const(a[i]) and is_const(b[i])):
                            v.und('pitch')
                        elif what == 'frequency' and not different(a[i], b[i]):
                            v.und('frequency')
                        else:
                            v.bad('after %r the release of key %r has the %s %s instead of %s' % (ctrl, c, what, show(b[i])[:60], show(a[i])[:60]),
                                  up[0][0])
                if is_const(a[1]) and not a[1][2] > 0:
                    v.bad('key %r is silent' % c, down[0][0])
                if is_const(b[1]) and b[1][2] != 0:
                    v.bad('releasing key %r does not silence it (velocity %s)' % (c, show(b[1])), up[0][0])
                if not is_const(a[1]) or not is_const(b[1]):
                    v.und('velocity')
    if not n:
        v.und('no note')
    return v.done('%d presses and releases' % n)


def different(a, b):
    """Two frequencies that were computed by the same call from different values."""
    return a[0] == b[0] == 'call' and a[1:4] != b[1:4]


def reach(ctx, v, attr, keys):
    """Values of a setting that the control keys can reach from a new keyboard: {value: {key: value}} or None."""
    f, I, ps = run(ctx, 'kb = MusicalKeyboard()')
    start = {ctx.attr(I, p.value, attr, p.st) for p in ps or () if clean(p)}
    if len(start) != 1 or not is_const(next(iter(start))):
        v.und('start of %s' % attr)
        return None
    todo, seen = [next(iter(start))[2]], {}
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen[x] = {}
        if len(seen) > 40:
            v.bad('%s is not bounded: %s' % (attr, sorted(seen)[:3] + sorted(seen)[-3:]), where(ctx))
            return None
        for k in keys:
            f, I, ps = run(ctx, 'kb = MusicalKeyboard(); kb.%s = %r; kb.on_press(Key(%r))' % (attr, x, k))
            for p in ps or ():
                if p.out[0] == 'raise':
                    v.bad('with %s %s key %r raises %s' % (attr, x, k, show(p.out[1][1])), p.out[2] if False else where(ctx))
                    return None
                y = ctx.attr(I, p.value, attr, p.st)
                if y is None or not is_const(y):
                    v.und('%s %s' % (attr, show(y) if y else ''))
                    return None
                seen[x][k] = y[2]
                todo.append(y[2])
    return seen


def where(ctx):
    c = ctx.prog.cls(KB + 'MusicalKeyboard')
    return '%s:%d (%s)' % (c.mod.rel, c.node.lineno, c.key)


def octaves(ctx):
    v = V(ctx, 'control', 'MusicalKeyboard.octave')
    keys = note_keys(ctx)
    if not keys:
        v.und('note keys')
        return v.done()
    seen = reach(ctx, v, 'octave', ('y', 'x'))
    pitches = {}
    for o in sorted(seen or ()):
        if seen[o]['y'] not in (o - 1, o) or seen[o]['x'] not in (o + 1, o):
            v.bad("from octave %d, 'y' leads to %d and 'x' to %d" % (o, seen[o]['y'], seen[o]['x']), where(ctx))
        for c in sorted(keys):
            f, I, ps = run(ctx, 'kb = MusicalKeyboard(); kb.octave = %r; kb.on_press(Key(%r))' % (o, c))
            for p in ps or ():
                s = sends([e for g in segments(p, f) for e in g])
                if p.out[0] == 'raise':
                    m = [e for e in p.events if e.kind == 'raise']
                    if m and 'pitch' in str(m[-1].exc) and 'pitch_2' not in str(m[-1].exc):
                        v.bad('key %r raises in octave %d: no valid pitch' % (c, o), m[-1])
                elif s and len(s) == 1:
                    t = note(s[0][2], I, p.st)
                    if t and is_const(t[0]):
                        pitches[o, c] = t[0][2]
                        if not 0 <= t[0][2] < 128:
                            v.bad('key %r has the pitch %s in octave %d' % (c, t[0][2], o), s[0][0])
    if seen and len(seen) < 3:
        v.bad('the octave cannot be changed (only %s)' % sorted(seen), where(ctx))
    for (o, c), x in sorted(pitches.items()):
        y = pitches.get((o + 1, c))
        if y is not None and y - x != 12:
            v.bad('key %r goes up by %d from octave %d to the next' % (c, y - x, o), where(ctx))
        if x % 12 != keys[c] % 12:
            v.bad('key %r plays pitch %d' % (c, x), where(ctx))
    if not pitches:
        v.und('pitches')
    return v.done('%d octaves, %d pitches' % (len(seen or ()), len(pitches)))


def velocities(ctx):
    v = V(ctx, 'control', 'MusicalKeyboard.velocity')
    seen = reach(ctx, v, 'velocity', ('c', 'v'))
    for x, to in sorted((seen or {}).items()):
        if not 0 < x <= 1:
            v.bad('velocity %s' % x, where(ctx))
        if to['c'] > x or to['v'] < x:
            v.bad("from velocity %s, 'c' leads to %s and 'v' to %s" % (x, to['c'], to['v']), where(ctx))
    if seen and len(seen) < 3:
        v.bad('the velocity cannot be changed (only %s)' % sorted(seen), where(ctx))
    return v.done('%d velocities' % len(seen or ()))


def temperaments(ctx):
    v = V(ctx, 'control', 'MusicalKeyboard.temperament')
    n = 0
    for d in '0123456789':
        f, I, ps = run(ctx, 'kb.on_press(Key(%r))' % d, 'kb', args=[ctx.obj(KB + 'MusicalKeyboard', 'kb')])
        for p in ps or ():
            if p.out[0] == 'raise':
                v.und('key %r raises' % d)
            for e in p.events:
                if e.kind == 'write' and e.attr == 'temperament':
                    t = e.value
                    n += 1
                    if t[0] == 'idx' and is_const(t[2]):
                        base, k = t[1], t[2][2]
                        if isinstance(k, int) and I.kind_of(base, p.st) in ('dict', 'defaultdict'):
                            v.bad('a temperament is looked up by number in a table of names', e)
                        elif k != int(d):
                            v.bad('key %r leads to temperament %s' % (d, k), e)
                        else:
                            length = [x for x, val in dict(p.facts).items() if x[0] == 'lt' and x[1] == C(int(d)) and fname(x[2]) == 'builtins.len']
                            for x in length:
                                if dict(p.facts)[x] and I.kind_of(x[2][2][0], p.st) != I.kind_of(base, p.st):
                                    v.und('length')
                    elif t[0] == 'idx' and not is_const(t[2]) or t[0] != 'idx':
                        v.und('temperament %s' % show(t)[:80])
    if not n:
        v.bad('number keys do not change the temperament', where(ctx))
    return v.done('%d number keys' % n)


SETTINGS = {'octave': 'yx', 'velocity': 'cv', 'temperament': '0123456789'}


def unchanged(ctx):
    """Settings change on presses of their own keys only."""
    v = V(ctx, 'control', 'settings')
    n = 0
    for c in 'yxcv05' + 'ap' + 'q':
        for call in ('on_press', 'on_release'):
            f, I, ps = run(ctx, 'kb.%s(Key(%r))' % (call, c), 'kb', args=[ctx.obj(KB + 'MusicalKeyboard', 'kb')])
            for p in ps or ():
                for e in p.events:
                    if e.kind == 'write' and e.attr in SETTINGS and e.base == ('obj', KB + 'MusicalKeyboard', 'kb'):
                        n += 1
                        if call == 'on_release' and changes(e):
                            v.bad('the release of %r changes the %s' % (c, e.attr), e)
                        elif c not in SETTINGS[e.attr] and changes(e):
                            v.bad('key %r changes the %s' % (c, e.attr), e)
    if not n:
        v.und('no setting is changed')
    return v.done('%d changes' % n)


def changes(e):
    return not (e.value[0] == 'fld' and e.value[1] == e.base and e.value[2] == e.attr)


def others(ctx):
    v = V(ctx, 'other', 'MusicalKeyboard')
    for key in ("Key('q')", 'Special()', 'Key(None)'):
        for flag in (True, False):
            f, I, ps = run(ctx, 'k = %s; kb = MusicalKeyboard(others=%r); kb.on_press(k); kb.on_release(k)' % (key, flag))
            for p in ps or ():
                if p.out[0] == 'raise':
                    v.bad('%s raises %s%s' % (key, show(p.out[1][1]), '' if flag else ' when other keys are not asked for'), p.events[-1])
                    continue
                outs = I.contents(ctx.attr(I, p.value, 'outputs', p.st), p.st)
                for seg in segments(p, f):
                    s = sends(seg)
                    if s is None:
                        v.und('events in a loop')
                        continue
                    if len(s) != (1 if flag else 0):
                        v.bad('%s: %d events%s' % (key, len(s), '' if flag else ' though other keys were not asked for'), seg[0])
                        continue
                    for e, out, val in s:
                        if val != seg[0].args[-1]:
                            v.und('event')
                        if outs is None or len(outs) != 2:
                            v.und('outputs')
                        elif out == outs[0]:
                            v.bad('%s is sent to the notes' % key, e)
    return v.done('other keys')
