"""C23: every note that was started is stopped."""
from ..core import V, clause
from ..engine import C, NONE, is_const, show
from ..lin import Sys, fname
from ..poly import add, poly
from ..walk import flat, method_call, subterm

EXPLAIN = ('Pairing (typestate) of note-ons and note-offs per segment (path of a method, path of a loop iteration), for any history: a note that is let through must be put '
           'into the memory of the block (container or attribute) on the same segment and only such notes; what is sent as note-off must come out of that '
           'memory and leave it on the same segment, what leaves it must be sent. A bounded memory must never be full when a note is put in (linear arithmetic on the loop exit '
           'condition). Deadlines are the clock plus the duration and compared with the clock. For the polyphonic synthesizer the attribute by which a '
           'release finds its voice must be set when the note is handed over, and no idle value of it may be a valid pitch. A few notes are also followed step by step (constants propagated through a '
           'closed client) through the lengthener, the limiter and the polyphonic synthesizer.')
ASSUME = ['a note without velocity 0 is a note-on', 'the phasor of the arpeggiator wraps once per interval (C17)', 'voices are copies (C22)']
MINIMUM = 8
TECHNIQUE = 'typestate pairing over all paths of each segment; linear arithmetic for bounded memories'
NE, AR, SY, VO = 'klang.note_effects.', 'klang.arpeggiator.', 'klang.audio.synthesizer.', 'klang.audio.voices.'
INS = ('append', 'appendleft', 'insert', 'add', 'setdefault')
REM = ('popleft', 'pop', 'remove', 'delitem', 'discard', 'popitem')


def check(ctx):
    r = ctx.rep
    r.rule('remember', 'exactly the notes that are let through are remembered')
    r.rule('stop', 'a remembered note is stopped exactly once')
    r.rule('capacity', 'a remembered note is never dropped silently')
    r.rule('deadline', 'a note is stopped when its time is up')
    r.rule('reach', 'a released note reaches the voice that plays it')
    r.rule('scene', 'a few notes, followed step by step through the whole block: every note-on is let through or handed to a voice, with one note-off each, in time')
    for key, also in ((NE + 'NoteLengthener', ('deadline', 'capacity')), (NE + 'MaxNotes', ('capacity',)), (AR + 'Arpeggiator', ())):
        clause(ctx, 'stop', block, key, also)
    clause(ctx, 'reach', poly_synth)
    clause(ctx, 'reach', voice)
    clause(ctx, 'reach', updates)
    for name in SCENES:
        clause(ctx, 'scene', scene, name)


# --- terms -----------------------------------------------------------------
def called(t):
    """Plain name of what a call term calls."""
    if t is None or t[0] != 'call':
        return ''
    f = t[1]
    if isinstance(f, str):
        return f.rsplit('.', 1)[-1]
    return f[2] if f[0] in ('extm',) else (f[1] if isinstance(f[1], str) else '').rsplit('.', 1)[-1] if f[0] in ('ext', 'func') else (
        f[2] if f[0] == 'bound' and isinstance(f[2], str) else '').rsplit('.', 1)[-1]


def incoming(t):
    return t[0] == 'elem' and called(t[1] if t[1][0] == 'call' else None).startswith('receive') or t == ('sym', 'note')


def off_of(t, st=None):
    """The note a term is the note-off of, or None."""
    if t[0] == 'call':
        f = t[1]
        if isinstance(f, tuple) and f[0] == 'extm' and f[2] == 'silence' and not t[2]:
            return f[1]
        if isinstance(f, tuple) and f[0] == 'extm' and f[2] == '_replace' and not t[2]:
            kw = dict(t[3])
            if set(kw) == {'velocity'} and is_const(kw['velocity']) and kw['velocity'][2] == 0:
                return f[1]
        if isinstance(f, tuple) and f[0] == 'func' and f[1].endswith('Note.silence') and len(t[2]) == 1:
            return t[2][0]
    return None


def note_off(t, st):
    x = off_of(t)
    if x is not None:
        return x
    if t[0] == 'obj' and isinstance(t[1], str) and t[1].endswith('.Note') and st is not None:
        vel, pitch = st.heap.get((t, 'velocity')), st.heap.get((t, 'pitch'))
        if vel is not None and is_const(vel) and vel[2] == 0 and pitch is not None:
            return pitch[1] if pitch[0] == 'fld' and pitch[2] == 'pitch' else ('pitch', pitch)
    return None


def isconst0(t):
    return is_const(t) and t[2] == 0


def on_fact(facts, n):
    for k, val in dict(facts).items():
        if k[0] == 'truthy' and k[1][0] == 'fld' and k[1][1] == n:
            if k[1][2] in ('on', 'velocity'):
                return val
            if k[1][2] == 'off':
                return not val
        if k[0] in ('lt', 'eq') and isconst0(k[1]) and k[2][0] == 'fld' and k[2][1:3] == (n, 'velocity'):
            return val if k[0] == 'lt' else not val
    return None


def origin(t, me):
    """Where a note comes from: ('in', n) | ('cont', c, how, element) | ('slot', attr) | ('other', t)."""
    if incoming(t):
        return 'in', t
    x = t
    while True:
        if x[0] == 'idx' and x[1][0] == 'cont':
            how = {0: 'first', -1: 'last'}.get(x[2][2]) if is_const(x[2]) else 'other'
            return 'cont', x[1], how, x
        if x[0] == 'elem' and x[1][0] == 'cont':
            return 'cont', x[1], 'each', x
        if x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'extm' and x[1][1][0] == 'cont' and x[1][2] in ('pop', 'popleft', 'popitem'):
            return 'cont', x[1][1], x[1][2], x
        if x[0] == 'idx' and is_const(x[2]):
            x = x[1]
            continue
        break
    if t[0] == 'fld' and t[1] == me:
        return 'slot', t[2]
    if t[0] == 'phi' and isinstance(t[2], tuple) and len(t[2]) == 2 and t[2][0] == me:
        return 'slot', t[2][1]
    return 'other', t


def has(t, n):
    return t == n or t[0] == 'tuple' and any(has(x, n) for x in t[1])


def segments(events, outer=()):
    yield events, outer
    for i, e in enumerate(events):
        if e.kind == 'loop':
            for q in e.paths:
                yield from segments(q.events, outer + ((events, i),))


def flat_events(events):
    for e in events:
        yield e
        if e.kind == 'loop':
            for q in e.paths:
                yield from flat_events(q.events)


def sent(e):
    if e.kind == 'call' and not e.inlined:
        r = method_call(e, 'send')
        if r and len(r[2]) == 1:
            return r[2][0]
    return None


# --- blocks ----------------------------------------------------------------
def opaque(g):
    return g.name in ('send', 'receive', 'receive_latest', 'compute_duration', 'clock') or g.key.startswith('klang.audio.oscillators') or (
        g.cls is not None and g.cls.key == AR + 'Arpeggio')


def block(ctx, key, also):
    name = key.rsplit('.', 1)[1]
    vs = {x: V(ctx, x, name) for x in ('remember', 'stop') + also}
    m = ctx.method(key, 'update')
    me = ctx.obj(key, 'b')
    I = ctx.interp(opaque=opaque)
    ps = ctx.run(I, m[0], selfv=me) if m else None
    done = False
    if ps:
        ps = [p for p in ps if p.out[0] == 'ret']
        memory = set()
        for p in ps:
            for e in flat_events(p.events):
                t = sent(e)
                n = note_off(t, p.st) if t is not None else None
                if n is not None:
                    o = origin(n, me)
                    if o[0] in ('cont', 'slot'):
                        memory.add(o[1])
        started = [e for p in ps for e in flat_events(p.events) if sent(e) is not None and note_off(sent(e), p.st) is None]
        stopped = [e for p in ps for e in flat_events(p.events) if sent(e) is not None and note_off(sent(e), p.st) is not None]
        if started and not stopped:
            vs['stop'].bad('notes are started and never stopped', started[0])
        elif not memory and started and all(origin(x, me)[0] == 'in' and not related_any(e, x) for e in stopped for x in [note_off(sent(e), ps[0].st)] if x is not None):
            vs['stop'].bad('note-offs are only sent for incoming notes, never for the ones that were started', stopped[0])
            done = True
        elif len(memory) == 1 and started:
            mem = memory.pop()
            done = True
            for p in ps:
                for events, outer in segments(p.events):
                    segment(vs, p, events, outer, mem, me)
                if 'deadline' in also:
                    deadline(vs['deadline'], p, mem, me)
                if 'capacity' in also:
                    capacity(ctx, vs['capacity'], I, p, mem, me)
            ends(vs['stop'], ps, mem)
            steps(vs['stop'], ps, mem, me)
    if not done or vs['remember'].v == 'und':
        for p in ps or ():
            e = sifted(p, me)
            if e is not None:
                vs['remember'].bad('notes that were started are forgotten when another one comes in, no note-off is sent for them', e)
    if not done:
        for v in vs.values():
            v.und('how notes are remembered')
    for v in vs.values():
        v.done('%d paths' % len(ps or ()))


def sifted(p, me):
    """The memory is replaced by the part of it which an incoming note leaves over, without a note-off for the rest."""
    evs = list(flat_events(p.events))
    for w in evs:
        if w.kind != 'write' or w.base != me or w.value[0] != 'cont':
            continue
        for e in evs:
            if e.kind != 'compelt' or e.comp != w.value or not (isinstance(e.value, tuple) and e.value[0] == 'elem'):
                continue
            src = e.value[1]
            if src not in (('fld', me, w.attr), ('cont', w.value[1], (me, w.attr))) and not (src[0] == 'phi' and src[2] == (me, w.attr)) and not (
                    src[0] == 'fld' and src[1:3] == (me, w.attr)):
                continue
            for k, val in e.facts.items():
                if k in w.facts or k[0] != 'eq' or val:
                    continue
                a, b = k[1:3]
                if subterm(a, e.value):
                    a, b = b, a
                if not subterm(b, e.value) or subterm(a, e.value) or a[0] != 'fld' or not incoming(a[1]):
                    continue
                others = [x for x in evs if sent(x) is not None and note_off(sent(x), p.st) is not None and any(
                    y[0] == 'eq' and subterm(z, a[1]) for y in x.facts for z in y[1:3] if isinstance(z, tuple))]
                if not others:
                    return e
    return None


def inserted(e, mem, me):
    """Term put into the memory by an event, or None."""
    if isinstance(mem, str):
        return e.value if e.kind == 'write' and e.base == me and e.attr == mem else None
    if e.kind == 'mut' and e.base == mem and e.op in INS and e.args:
        return e.args[-1]
    if e.kind == 'setitem' and e.base == mem:
        return e.value
    if e.kind == 'call' and not e.inlined and e.result is not None and e.result[0] == 'call' and fname(e.result) in ('heapq.heappush', 'bisect.insort') \
            and e.args[:1] == (mem,) and len(e.args) > 1:
        return e.args[1]
    return None


def segment(vs, p, events, outer, mem, me):
    rem, stop = vs['remember'], vs['stop']
    slot = isinstance(mem, str)
    ons, offs, puts, gone = [], [], [], []
    for i, e in enumerate(events):
        t = sent(e)
        if t is not None:
            n = note_off(t, p.st)
            (ons if n is None else offs).append((i, e, t if n is None else n))
        x = inserted(e, mem, me)
        if x is not None:
            puts.append((i, e, x))
        if not slot and e.kind == 'mut' and e.base == mem and e.op in REM:
            gone.append((i, e))
        if not slot and e.kind == 'mut' and e.base == mem and e.op == 'clear':
            stop.und('clear')
    rewritten = not slot and any(e.kind == 'write' and e.base == me and e.value[0] == 'cont' for e in events)
    # what is let through is remembered, and nothing else
    for i, e, n in ons:
        o = origin(n, me)
        if o[0] == 'in':
            on = on_fact(e.facts, n)
            if on is False:
                rem.bad('a note-off is passed on that belongs to no note of the block', e) if not related(e, n, mem, me) else rem.und('note-off passed on')
                continue
            if on is None and not any(subterm(k, n) for k in dict(e.facts) if k[0] != 'loop'):
                rem.bad('every incoming note is passed on as if it were a note-on', e)
                continue
            if on is None:
                rem.und('note-on')
                continue
        elif o[0] in ('cont', 'slot'):
            rem.und('a remembered note is sent again')
            continue
        if any(has(x, n) for _, _, x in puts):
            continue
        if rewritten or unknown_use(events, n) or nested_put(events, outer, mem, me, n):
            rem.und('memory')
        else:
            rem.bad('a note is let through but not remembered, so it is never stopped', e)
    for i, e, x in puts:
        if slot and (x == NONE or is_const(x)):
            continue
        if any(has(x, n) for _, _, n in ons):
            continue
        if any(subterm(x, n) for _, _, n in ons) or any(sent(y) is not None and has(x, sent(y)) for y in flat_events(events)):
            rem.und('memory')
        elif slot:
            src = origin(x, me)
            (rem.bad('a note is remembered that is not let through', e) if src[0] == 'in' else rem.und('memory'))
        else:
            ns = [y for y in ([x] if x[0] != 'tuple' else x[1]) if incoming(y)]
            if ns and on_fact(e.facts, ns[0]) is not None or ns and not any(subterm(k, ns[0]) for k in dict(e.facts)):
                up = any(sent(y) is not None and has(x, sent(y)) for evs, _ in outer for y in evs)
                rem.und('sent elsewhere') if up else rem.bad('a note is remembered that is not let through', e)
            else:
                rem.und('memory')
    # what is stopped leaves the memory, what leaves it is stopped
    for i, e, n in offs:
        o = origin(n, me) if n[0] != 'pitch' else ('other', n)
        if o[0] == 'in':
            if related(e, n, mem, me):
                stop.und('release')
            else:
                stop.bad('a note-off is sent for an incoming note, not for a remembered one', e)
            continue
        if o[0] == 'slot':
            if not puts:
                if any(inserted(y, mem, me) is not None for evs, k in outer for y in evs[k:]):
                    stop.und('forgotten later')
                else:
                    stop.bad('the note stays remembered after its note-off, which is sent again', e)
            if len([1 for _, _, y in offs if y == n]) > 1:
                stop.bad('the note-off is sent twice', e)
            continue
        if o[0] != 'cont' or o[1] != mem:
            stop.und('note-off of %s' % show(n)[:50])
            continue
        how = o[2]
        if len([1 for _, _, y in offs if y == n]) > 1:
            stop.bad('the note-off is sent twice', e)
        if how in ('pop', 'popleft', 'popitem'):
            continue
        if not gone:
            if rewritten or any(y.kind in ('mut', 'setitem') and y.base == mem and y.op in REM + ('clear',) if y.kind == 'mut' else y.kind == 'write' and y.base == me
                                for evs, _ in outer for y in flat_events(evs)):
                stop.und('removed elsewhere')
            else:
                stop.bad('the note stays remembered after its note-off, which is sent again', e)
            continue
        for _, g in gone:
            if how in ('first', 'last') and len(gone) == 1 and len(o[3]) > 3 and o[3][3] != g.ver and o[3][3] == p_after(g.ver):
                stop.bad('another note is stopped than the one that is forgotten', e)
                continue
            at = {'popleft': 'first', 'pop': 'last' if not g.args else {0: 'first', -1: 'last'}.get(g.args[0][2]) if is_const(g.args[0]) else None}.get(g.op)
            if g.op == 'delitem' and g.args and is_const(g.args[0]):
                at = {0: 'first', -1: 'last'}.get(g.args[0][2])
            if at and how in ('first', 'last') and at != how:
                stop.bad('another note is forgotten than the one that is stopped', g)
            elif not at or how not in ('first', 'last'):
                if not (g.op in ('remove', 'discard') and g.args and subterm(n, g.args[0])):
                    stop.und('removal')
    if not slot:
        for i, g in gone:
            r = g.result
            if any(origin(n, me)[:2] == ('cont', mem) for _, _, n in offs):
                continue
            used = [y for y in flat_events(events) if y is not g and r is not None and r != NONE and any(
                isinstance(a, tuple) and subterm(a, r) for a in list(getattr(y, 'args', ()) or ()) + [getattr(y, 'value', None)])]
            if used or rewritten or any(sent(y) is not None for y in flat_events(events) if note_off(sent(y) or NONE, p.st) is not None):
                stop.und('removed note')
            elif any(sent(y) is not None and note_off(sent(y), p.st) is not None for evs, _ in outer for y in evs):
                stop.und('removed note')
            else:
                stop.bad('a remembered note is forgotten without a note-off', g)
    else:
        for i, e, x in puts:
            if x == NONE:
                if not any(j < i for j, _, n in offs) and not empty(e, me, mem, p) and not any(j > i for j, _, n in offs):
                    stop.bad('the remembered note is forgotten without a note-off', e)
                continue
            if is_const(x):
                continue
            if not any(origin(n, me) == ('slot', mem) and j < i for j, _, n in offs) and not empty(e, me, mem, p):
                if any(j > i for j, _, n in offs):
                    stop.und('order')
                elif any(note_off(sent(y), p.st) is not None for y in flat_events(events) if sent(y) is not None):
                    stop.und('note-off in a loop')
                else:
                    stop.bad('the remembered note is replaced without a note-off', e)


def related_any(e, n):
    """Whether the event knows more about the note than that it is a note-on."""
    return any(k[0] != 'loop' and subterm(x, n) and not (x[0] == 'fld' and x[1] == n and x[2] in ('on', 'off', 'velocity'))
               for k in dict(e.facts) for x in k[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))


def p_after(ver):
    return (ver, 1) if not isinstance(ver, int) else ver + 1


def empty(e, me, mem, p):
    """Whether the slot is known to be empty at an event, or is found out later on the path to have been."""
    for k, val in list(dict(e.facts).items()) + list(dict(p.facts).items()):
        for x in k[1:3]:
            if isinstance(x, tuple) and x and (x[0] == 'fld' and x[1] == me and x[2] == mem or x[0] == 'phi' and x[2] == (me, mem)):
                if k[0] == 'truthy' and not val or k[0] == 'eq' and NONE in k[1:3] and val:
                    return True
    return False


def related(e, n, mem, me):
    """Whether the event knows something connecting the note with the memory."""
    for k in dict(e.facts):
        ts = [x for x in k[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)]
        if any(subterm(x, n) for x in ts) and any(isinstance(mem, str) and subterm_slot(x, me, mem) or not isinstance(mem, str) and subterm(x, mem) for x in ts):
            return True
        if k[0] in ('in', 'truthy') and any(subterm(x, n) for x in ts) and not any(x[0] == 'fld' and x[2] in ('on', 'off', 'velocity') for x in ts):
            return True
    return False


def subterm_slot(t, me, mem):
    return subterm(t, ('fld', me, mem, 0)) or 'loop' in show(t)


def unknown_use(events, n):
    """The note is handed to code that is not followed (apart from send)."""
    for e in flat_events(events):
        if e.kind == 'call' and not e.inlined and sent(e) is None and e.result is not None:
            if any(isinstance(a, tuple) and has(a, n) for a in e.args) and not (e.result[0] == 'call' and (fname(e.result) or '').startswith('builtins.')):
                return True
        if e.kind in ('mut', 'setitem') and any(isinstance(a, tuple) and has(a, n) for a in (e.args if e.kind == 'mut' else (e.value, e.key))):
            return True
    return False


def nested_put(events, outer, mem, me, n):
    return any(inserted(y, mem, me) is not None and has(inserted(y, mem, me), n) for y in flat_events(events)) or any(
        inserted(y, mem, me) is not None and has(inserted(y, mem, me), n) for evs, _ in outer for y in evs)


def ends(v, ps, mem):
    """Notes leave the memory in the order they came."""
    if isinstance(mem, str):
        return
    put, take = {}, {}
    for p in ps:
        for e in flat_events(p.events):
            if e.kind == 'mut' and e.base == mem:
                if e.op in ('append', 'appendleft'):
                    put[e.op] = e
                elif e.op == 'popleft' or e.op == 'pop' and e.args == (C(0),):
                    take['left'] = e
                elif e.op == 'pop' and not e.args:
                    take['right'] = e
                elif e.op not in ('clear',):
                    return
    if len(put) == 1 and len(take) == 1:
        if 'append' in put and 'right' in take or 'appendleft' in put and 'left' in take:
            v.bad('the newest note is stopped instead of the oldest one', list(take.values())[0])


def steps(v, ps, mem, me):
    """Whenever a new note may be started the previous one is stopped."""
    if not isinstance(mem, str):
        return
    common, info = None, []
    for p in ps:
        ons = [e for e in p.events if sent(e) is not None and note_off(sent(e), p.st) is None]
        offs = [e for e in flat_events(p.events) if sent(e) is not None and note_off(sent(e), p.st) is not None]
        atoms = {(k, val) for k, val in dict(p.facts).items() if k[0] == 'lt' and not any(isinstance(x, tuple) and 'Arpeggio.' in str(x) for x in k[1:])}
        info.append((p, atoms, ons, offs))
        if ons:
            common = atoms if common is None else common & atoms
    if not common:
        return
    for p, atoms, ons, offs in info:
        if common <= atoms and not offs and not ons:
            for e in p.events[::-1]:
                if empty(e, me, mem, p):
                    break
                if e.kind == 'write' and e.base == me and e.attr == mem:
                    break
            else:
                w = [e for e in p.events if e.kind == 'assume']
                if any(k[0] == 'truthy' and (k[1] == ('fld', me, mem, 0)) and val for k, val in dict(p.facts).items()):
                    v.bad('the remembered note goes on sounding when there is no next one', w[-1])


def capacity(ctx, v, I, p, mem, me):
    """A deque with a maximum length drops a note when it is full."""
    if isinstance(mem, str):
        return
    key = me[1]
    name = key.rsplit('.', 1)[1]
    src = 'from klang.note_effects import %s\n\n\ndef client(number):\n    return %s(number)\n' % (name, name)
    lens, names = set(), {}
    for q in ctx.run(ctx.interp(), ctx.client(src)) or ():
        if q.out[0] != 'ret':
            continue
        for e in q.events:
            if e.kind == 'write' and e.base == q.value:
                names.setdefault(e.value, e.attr)
                if e.value[0] == 'cont' and e.value[1] == 'deque':
                    made = [x for x in q.events if x.kind == 'call' and x.result == e.value]
                    if made:
                        kw = dict(made[-1].kwargs)
                        t = kw.get('maxlen') or (made[-1].args[1] if len(made[-1].args) > 1 else None)
                        lens.add(t if t is not None else NONE)
    if lens == {NONE} or not lens:
        return
    if len(lens) != 1:
        v.und('maxlen')
        return
    top = lens.pop()
    # parameters in terms of the attributes holding them
    back = {k: ('fld', me, a, 0) for k, a in names.items() if k[0] == 'sym'}
    for e in flat_events(p.events):
        if e.kind == 'mut' and e.base == mem and e.op in ('append', 'appendleft'):
            bound = exit_bound(p, mem)
            if bound is None:
                if any(k[0] != 'loop' and 'builtins.len' in show_all(k) for k in dict(e.facts)) or any(
                        x.kind == 'call' and x.result is not None and fname(x.result) == 'builtins.len' for x in flat_events(p.events)):
                    v.und('number of remembered notes')
                else:
                    v.bad('the memory is limited to %s notes, more are dropped without a note-off' % show(top), e)
                continue
            # len <= bound between messages; must be < maxlen before a note is put in
            d = add(poly(swap(top, back)), poly(bound), -1.)
            if set(d) <= {()}:
                if d.get((), 0.) < 1.:
                    v.bad('the memory is full when a note is put in: the oldest one is dropped without a note-off', e)
            else:
                v.und('maximum length %s against %s' % (show(top), show(bound)))


def swap(t, back):
    if t in back:
        return back[t]
    if t[0] == 'op':
        return ('op', t[1], tuple(swap(x, back) if isinstance(x, tuple) else x for x in t[2]))
    return t


def exit_bound(p, mem):
    """Term the number of remembered notes does not exceed after a loop that removes notes."""
    for e in flat_events(p.events):
        if e.kind == 'loop' and any(x.kind == 'mut' and x.base == mem and x.op in REM for q in e.paths for x in q.events):
            for q in e.paths:
                for x in q.events:
                    if x.kind == 'assume' and x.key[0] == 'lt' and x.val and x.key[2][0] == 'call' and fname(x.key[2]) == 'builtins.len' and x.key[2][2] == (mem,):
                        return x.key[1]
    return None


def deadline(v, p, mem, me):
    """Deadline stored with a note: clock plus duration; compared with the clock."""
    if isinstance(mem, str):
        v.und('memory')
        return
    clock = [e.result for e in flat_events(p.events) if e.kind == 'call' and e.result is not None and called(e.result) == 'clock']
    if not clock:
        v.und('clock')
        return
    pos = None
    for e in flat_events(p.events):
        x = inserted(e, mem, me)
        if x is None:
            continue
        if x[0] != 'tuple':
            v.und('memory')
            continue
        for k, y in enumerate(x[1]):
            if any(subterm(y, c) for c in clock):
                pos = k
                d = poly(y)
                c = [a for a in clock if d.get((a,)) == 1.]
                rest = {m: w for m, w in d.items() if m != (c[0],)} if c else None
                if not c:
                    v.und('deadline %s' % show(y)[:50])
                elif rest == {}:
                    v.und('time of the start')
                elif len(rest) == 1 and list(rest.values())[0] == 1. and len(list(rest)[0]) == 1 and list(rest)[0][0][0] == 'fld':
                    pass
                elif all(w < 0 for w in rest.values()):
                    v.bad('the deadline of a note lies before its start', e)
                else:
                    v.und('deadline %s' % show(y)[:50])
    if pos is None:
        return
    for events, outer in segments(p.events):
        for e in events:
            t = sent(e)
            n = note_off(t, p.st) if t is not None else None
            if n is None:
                continue
            o = origin(n, me)
            if o[0] != 'cont':
                continue
            end = ('idx', o[3], C(pos), 0)
            seen = False
            for k, val in dict(e.facts).items():
                if k[0] == 'lt':
                    a, b = k[1], k[2]
                    if a in clock and same(b, o, pos):
                        seen = True
                        if val:
                            v.bad('notes are stopped before their time is up', e)
                    if b in clock and same(a, o, pos):
                        seen = True
                        if not val:
                            v.bad('notes are stopped before their time is up', e)
            if not seen:
                if any(any(isinstance(x, tuple) and any(subterm(x, c) for c in clock) for x in k[1:]) for k in dict(e.facts)):
                    v.und('comparison with the clock')
                else:
                    v.bad('notes are stopped without looking at the clock', e)


def same(t, o, pos):
    return t[0] == 'idx' and t[2] == C(pos) and (t[1] == o[3] or t[1][0] == 'idx' and o[3][0] == 'idx' and t[1][:3] == o[3][:3])


# --- synthesizer -----------------------------------------------------------
def pushed(e):
    if e.kind == 'call' and not e.inlined:
        r = method_call(e, 'push')
        if r and len(r[2]) == 1:
            return r[0], r[2][0]
    return None


def voice_of(recv):
    """Voice whose input a note is pushed to."""
    if recv[0] in ('fld',) and recv[2] == 'input':
        return recv[1]
    if recv[0] == 'idx' and recv[1][0] == 'fld' and recv[1][2] == 'inputs':
        return recv[1][1]
    return None


def poly_synth(ctx):
    v = V(ctx, 'reach', 'PolyphonicSynthesizer')
    m = ctx.method(SY + 'PolyphonicSynthesizer', 'process_note')
    me = ctx.obj(SY + 'PolyphonicSynthesizer', 's')
    I = ctx.interp()
    ps = ctx.run(I, m[0], selfv=me, params={'note': ctx.obj('klang.messages.Note', 'note')}) if m else None
    note = ctx.obj('klang.messages.Note', 'note')
    found = set()
    ons = []
    for p in ps or ():
        if p.out[0] != 'ret':
            v.und('raises')
            continue
        for events, outer in segments(p.events):
            for i, e in enumerate(events):
                r = pushed(e)
                if r is None or r[1] != note:
                    continue
                on = on_fact(p.facts, note)
                on = on if on is not None else on_fact(e.facts, note)
                w = voice_of(r[0])
                if w is None:
                    v.und('voice %s' % show(r[0])[:50])
                elif on is True:
                    ons.append((p, events, e, w))
                elif on is False:
                    by = None
                    for k, val in dict(e.facts).items():
                        if k[0] != 'eq':
                            continue
                        for a, b in ((k[1], k[2]), (k[2], k[1])):
                            if a == ('fld', note, 'pitch', 0):
                                f = field_of(b, w)
                                if f:
                                    by = (f, val)
                    if by is None:
                        if any('pitch' in show_all(k) for k in dict(e.facts)):
                            v.und('voice of a release')
                        elif w[0] == 'elem' and w[1][0] == 'cont' and not isinstance(w[1][2], int):
                            v.bad('note-offs are pushed to voices that do not play the note', e)
                        else:
                            v.und('voice of a release')
                    elif not by[1]:
                        v.bad('note-offs are pushed to voices that do not play the note', e)
                    else:
                        found.add(by[0])
                        if w[0] == 'elem':
                            complete(v, w, outer)
                else:
                    v.und('kind of note')
    if ps and not ons and not v.v.get('bad') if isinstance(v.v, dict) else False:
        v.und('note-on')
    if len(found) == 1:
        f = found.pop()
        for p, events, e, w in ons:
            ws = [x for x in events if x.kind == 'write' and x.base == w and x.attr == f]
            if not ws:
                if any(x.kind == 'call' and not x.inlined and x is not e and any(has(a, w) for a in x.args if isinstance(a, tuple)) for x in events):
                    v.und('voice used elsewhere')
                else:
                    v.bad('a release in the cycle of its note-on does not find the voice: %s is only set when the voice is updated' % f, e)
            elif ws[-1].value != ('fld', note, 'pitch', 0):
                v.bad('%s of the voice is %s, not the pitch of the note' % (f, show(ws[-1].value)), ws[-1])
        idle(ctx, v, f)
    elif ps and ons and not found:
        if not any(pushed(e) for p in ps if on_fact(p.facts, note) is False for e in flat_events(p.events)):
            if not any(e.kind == 'call' and not e.inlined and note in e.args for p in ps if on_fact(p.facts, note) is False for e in flat_events(p.events)):
                v.bad('note-offs reach no voice', ons[0][2])
            else:
                v.und('release')
    else:
        v.und('how a release finds its voice')
    v.done('%d paths' % len(ps or ()))


def show_all(k):
    return ' '.join(show(x) for x in k[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))


def field_of(t, w):
    if t[0] == 'fld' and t[1] == w:
        return t[2]
    if t[0] == 'phi' and isinstance(t[2], tuple) and len(t[2]) == 2 and t[2][0] == w:
        return t[2][1]
    return None


def complete(v, w, outer):
    """All voices are searched."""
    it = w[1]
    if it[0] == 'idx' and it[2][0] == 'op' and it[2][1] == 'slice' and it[2][2] != (NONE, NONE, NONE):
        evs, i = outer[-1]
        v.bad('only some of the voices are searched for the note', evs[i])


def idle(ctx, v, f):
    """No value the attribute has on an idle voice is a valid pitch."""
    I = ctx.interp(opaque=execution)
    src = 'from klang.audio.voices import Voice\n\n\ndef client(o, e):\n    return Voice(o, e)\n'
    for p in ctx.run(I, ctx.client(src)) or ():
        if p.out[0] != 'ret':
            continue
        x = p.st.heap.get((p.value, f))
        if x is None:
            v.und('idle value')
        elif is_const(x) and isinstance(x[2], (int, float)) and not isinstance(x[2], bool) and 0 <= x[2] < 128:
            ws = [e for e in p.events if e.kind == 'write' and e.attr == f]
            v.bad('idle voices are taken for playing pitch %s' % show(x), ws[-1])


def execution(g):
    return g.key.startswith('klang.execution.') or g.key.startswith('klang.graph.')


def voice(ctx):
    """A voice starts and releases its envelope for every incoming note, remembering the pitch."""
    v = V(ctx, 'reach', 'Voice')
    key = VO + 'Voice'
    m = ctx.method(key, 'update')
    me = ctx.obj(key, 'v')
    I = ctx.interp(opaque=lambda g: g.name in ('receive', 'execute', 'receive_latest'))
    ps = ctx.run(I, m[0], selfv=me) if m else None
    seen = 0
    for p in ps or ():
        for events, outer in segments(p.events):
            ns = set()
            for e in events:
                if e.kind == 'assume':
                    for x in e.key[1:3]:
                        if isinstance(x, tuple) and x and x[0] == 'fld' and incoming(x[1]):
                            ns.add(x[1])
            gates = [(e, method_call(e, 'gate')) for e in events if e.kind == 'call' and not e.inlined and method_call(e, 'gate')]
            if not ns and not gates:
                continue
            seen += 1
            for n in ns:
                on = None
                for e in events:
                    if e.kind == 'assume' and on is None:
                        on = on_fact({e.key: e.val}, n)
                if not gates:
                    if not any(e.kind == 'call' and not e.inlined for e in events):
                        v.bad('incoming %s do not reach the envelope' % ('note-ons' if on else 'note-offs'), events[0])
                    else:
                        v.und('gate')
                    continue
                a = gates[-1][1][2][:1]
                if not a:
                    v.und('gate')
                elif is_const(a[0]) and on is not None and bool(a[0][2]) != on:
                    v.bad('the envelope is %s by a %s' % (('triggered', 'note-off') if not on else ('released', 'note-on')), gates[-1][0])
                elif a[0][0] == 'fld' and a[0][1] == n and a[0][2] == 'off':
                    v.bad('the gate of the envelope is inverted', gates[-1][0])
                elif not is_const(a[0]) and not (a[0][0] == 'fld' and a[0][1] == n and a[0][2] in ('on', 'velocity')):
                    v.und('gate of %s' % show(a[0])[:40])
    if not seen:
        v.und('incoming notes')
    # pending notes make a voice active
    src = 'from klang.audio.voices import Voice\n\n\ndef client(o, e, note):\n    v = Voice(o, e)\n    v.input.push(note)\n    return v.active\n'
    J = ctx.interp(opaque=execution)
    for p in ctx.run(J, ctx.client(src)) or ():
        if p.out[0] != 'ret':
            continue
        r = bool(p.value[2]) if is_const(p.value) else dict(p.facts).get(('truthy', p.value, p.st.ver(p.value)))
        if r is not True:
            if p.value == C(False) or p.value[0] == 'fld' and p.value[2] == 'active' or p.value[0] == 'call' and 'active' in show(p.value):
                v.bad('a voice with a pending note is not active, so the note is never processed', p.events[-1] if p.events else '')
            else:
                v.und('active is %s' % show(p.value)[:50])
    v.done('%d segments' % seen)


def updates(ctx):
    """Active voices are updated in every cycle."""
    for name in ('PolyphonicSynthesizer', 'MonophonicSynthesizer'):
        v = V(ctx, 'reach', name + '.update')
        m = ctx.method(SY + name, 'update')
        me = ctx.obj(SY + name, 's')
        I = ctx.interp(opaque=lambda g: g.name in ('receive', 'process_note', 'receive_latest'))
        ps = ctx.run(I, m[0], selfv=me) if m else None
        n = 0
        for p in ps or ():
            if p.out[0] != 'ret':
                continue
            for events, outer in segments(p.events):
                acts = [(e, e.key[1][1]) for e in events if e.kind == 'assume' and e.key[0] == 'truthy' and e.key[1][0] == 'fld' and e.key[1][2] == 'active']
                for e, w in acts:
                    ups = [x for x in events if x.kind == 'call' and method_call(x, 'update') and method_call(x, 'update')[0] == w
                           or x.kind == 'mut' and x.op == 'update' and x.base == w]
                    n += 1
                    if e.val and not ups:
                        if any(x.kind == 'call' and not x.inlined and w in x.args for x in events):
                            v.und('update')
                        else:
                            v.bad('an active voice is not updated', e)
                    if e.val is False and ups:
                        n += 0
            took = [e for e in flat_events(p.events) if e.kind == 'call' and not e.inlined and method_call(e, 'process_note')]
            if not any(e.kind == 'call' and 'process_note' in show(e.result or NONE) for e in flat_events(p.events)):
                if not any(e.kind == 'call' and not e.inlined and 'receive' in show(e.result or NONE) for e in flat_events(p.events)):
                    v.bad('incoming notes are not processed', p.events[0])
                else:
                    v.und('incoming notes')
        if not n:
            v.und('voices')
        v.done('%d voices' % n)


# ------------------------------------------------------------------ a few notes, step by step
PRELUDE = '''from klang.audio.synthesizer import PolyphonicSynthesizer
from klang.block import Block
from klang.clock import ClockMixin
from klang.connections import MessageInput
from klang.messages import Note
from klang.note_effects import MaxNotes, NoteLengthener


class Probe(Block):
    def __init__(self, made):
        super().__init__(0, 1)
        self.inputs = [MessageInput(self)]
        self.made = made
        self.active = True
        self.currentPitch = None
        self.got = []
        made.append(self)

    def __deepcopy__(self, memo):
        return Probe(self.made)

    def update(self):
        for note in self.input.receive():
            self.got.append((note.pitch, note.on))


def heard(inbox):
    got = []
    for note in inbox.receive():
        got.append((note.pitch, note.on))
    return got


def client():
    dst = MessageInput()
    a, b, c = Note(60, 1., 440.), Note(64, .5, 550.), Note(67, .25, 660.)
%s
'''
ON, OFF = lambda n: (n, True), lambda n: (n, False)

# what every returned list has to hold (per pitch in this order); the lists of the voices in any order
SCENES = {
    'PolyphonicSynthesizer': (None, [[ON(60), OFF(60)], [ON(64), OFF(64)], [ON(67), OFF(67)]], '''
    made = []
    synth = PolyphonicSynthesizer(Probe(made))
    synth.input.push(a)
    synth.input.push(b)
    synth.input.push(a.silence())
    synth.update()
    synth.input.push(c)
    synth.update()
    synth.input.push(b.silence())
    synth.input.push(c.silence())
    synth.update()
    return [x.got for x in made]
'''),
    'PolyphonicSynthesizer, all voices in turn': (None, [[ON(60), OFF(60), ON(60), OFF(60)]] + [[ON(60), OFF(60)]] * 23, '''
    made = []
    synth = PolyphonicSynthesizer(Probe(made))
    for i in range(25):
        synth.input.push(a)
        synth.input.push(a.silence())
        synth.update()
    return [x.got for x in made]
'''),
    'NoteLengthener': (1, [[ON(60)], [ON(64), ON(60)], [OFF(60)], [OFF(64), OFF(60)], []], '''
    block = NoteLengthener(.1)
    block.output.connect(dst)
    ClockMixin.set_current_time(0.)
    block.input.push(a)
    block.update()
    first = heard(dst)
    ClockMixin.set_current_time(.05)
    block.input.push(b)
    block.input.push(a)
    block.update()
    second = heard(dst)
    ClockMixin.set_current_time(.125)
    block.update()
    third = heard(dst)
    ClockMixin.set_current_time(.25)
    block.update()
    fourth = heard(dst)
    block.update()
    return [first, second, third, fourth, heard(dst)]
'''),
    'MaxNotes': (1, [[ON(60), ON(64), OFF(60), ON(67)], [OFF(64), ON(60), OFF(67), ON(64)]], '''
    block = MaxNotes(2)
    block.output.connect(dst)
    block.input.push(a)
    block.input.push(b)
    block.input.push(c)
    block.update()
    first = heard(dst)
    block.input.push(a)
    block.input.push(b)
    block.update()
    return [first, heard(dst)]
'''),
}


def scene(ctx, name):
    rep = ctx.rep
    ordered, want, body = SCENES[name]
    con = 'a few notes: %s' % name
    f = ctx.client(PRELUDE % body)
    I = ctx.interp(recursion=3, exact=True)
    ps = ctx.run(I, f)
    meth = ctx.method((SY if 'Poly' in name else NE) + name.partition(',')[0], 'update')
    where = getattr((meth or [None])[0], 'where', '')
    for p in ps or ():
        if any(it.ev.kind == 'loop' and it.ev.paths for it in flat(p)):
            rep.und('scene', con, 'a loop is not followed step by step')
            return
        if any(it.ev.kind == 'call' and not it.ev.inlined and (not it.ev.fn or it.ev.fn[0] not in ('ext', 'extm')) for it in flat(p)):
            rep.und('scene', con, 'a call is not followed')
            return
        lists = I.contents(p.value, p.st) if p.normal else None
        lists = [I.contents(x, p.st) for x in lists] if lists is not None else [None]
        got = [[plain(x) for x in items] if items is not None else None for items in lists]
        if None in got or any(x is None for items in got for x in items):
            rep.und('scene', con, 'notes are not followed')
            return
        text = differ(got, want) if ordered else differ(sorted(x for x in got if x), sorted(want), 'voices')
        if text:
            rep.bad('scene', con, text, where)
            return
    (rep.ok if ps else rep.und)('scene', con)


def plain(t):
    if t[0] == 'tuple' and len(t[1]) == 2 and all(is_const(x) for x in t[1]):
        return t[1][0][2], t[1][1][2]
    return None


def differ(got, want, what=None):
    pitches = sorted({n for items in got + want for n, _ in items})
    if what:
        for n in pitches:
            for on, word in ((True, 'note-on'), (False, 'note-off')):
                g, w = (sum(items.count((n, on)) for items in x) for x in (got, want))
                if g != w:
                    return '%d instead of %d times the %s of pitch %d reaches a voice' % (g, w, word, n)
        for items in got:
            for n in pitches:
                if [on for k, on in items if k == n] != [True, False] * sum(k == n and on for k, on in items):
                    return 'the note-off of pitch %d reaches another voice than the note-on' % n
        return None
    for i, (x, y) in enumerate(zip(got, want)):
        for n in pitches:
            a, b = [on for k, on in x if k == n], [on for k, on in y if k == n]
            if a != b:
                return 'pitch %d: %s instead of %s in cycle %d' % (n, *(' and '.join('on' if on else 'off' for on in z) or 'nothing' for z in (a, b)), i + 1)
    return None
