"""C09: sound card, stream, sockets and files are released on every exit."""
import ast

from ..core import V, clause
from ..engine import C, NONE, show
from ..walk import flat, subterm

EXPLAIN = ('Resource typestate on all exits: the engine and the WAV reader are followed with an error or keyboard interruption possible at every call that '
           'is not part of the release itself. On every path after the sound card was acquired it must be released, and a stream that was opened must '
           'be stopped and closed before that; a file opened for reading must be closed or its scope left. For blocks holding a socket or a MIDI '
           'port, the finaliser must close exactly that.')
ASSUME = ['the release calls themselves and logging do not fail', 'leaving a with statement over an opened file closes it']
MINIMUM = 2
KG = 'klang.audio.klanggeber'
QUIET = ('terminate', 'close', 'stop_stream', 'is_stopped', 'info', 'warning', 'error', 'debug', 'exception', 'getLogger', 'close_port', 'write_wave', 'callback', 'push', 'register', 'enter_context', 'ExitStack', 'closing')


def check(ctx):
    r = ctx.rep
    r.rule('card', 'the sound card is released on every path that acquired it')
    r.rule('stream', 'an opened stream is stopped and closed before the sound card is released')
    r.rule('file', 'a file opened for reading is closed on every path')
    r.rule('socket', 'a block that goes away closes its connection to the outside')
    clause(ctx, 'card', card)
    clause(ctx, 'file', wav)
    clause(ctx, 'socket', final, 'klang.network.JsonCourier', 'sock', ('close',), 'socket.socket')
    clause(ctx, 'socket', final, 'klang.midi.MidiOut', 'midiout', ('close_port', 'delete'), 'rtmidi.MidiOut')


def name_of(fn):
    if fn[0] in ('extm', 'fld', 'bound'):
        return fn[2].rpartition('.')[2]
    if fn[0] in ('ext', 'func', 'sym'):
        return fn[1].rpartition('.')[2]
    return ''


ERR = [('exc', ('ext', 'builtins.OSError'), ()), ('exc', ('ext', 'builtins.KeyboardInterrupt'), ())]


def may(fn, args, node, I, fr, st):
    if name_of(fn) in QUIET or fn[0] == 'ext' and fn[1] in ('pyaudio.PyAudio', 'wave.open') or fn[0] == 'ext' and fn[1].startswith(('logging.', 'numpy.')):
        return None
    if fn[0] == 'ext' and fn[1].startswith('builtins.'):
        return None
    if fn[0] == 'extm' and fn[1][0] == 'const':
        return None
    return ERR


def method(ev, recv, *names):
    return ev.kind == 'call' and not ev.inlined and ev.fn[0] == 'extm' and ev.fn[1] == recv and ev.fn[2] in names


def holds(t, res, st, deep=2):
    """Does a value hand on the resource?"""
    if t == res or t[0] in ('bound', 'extm', 'fld') and t[1] == res or t[0] in ('partial', 'tuple') and subterm(t, res):
        return True
    if deep and t[0] in ('bound', 'partial', 'tuple', 'call'):
        return any(holds(x, res, st, deep - 1) for x in (t[2] if t[0] == 'call' else t[1:]) if isinstance(x, tuple) and x and isinstance(x[0], str))
    return t[0] == 'obj' and isinstance(t[2], int) and any(k[0] == t and v == res for k, v in st.heap.items() if isinstance(k, tuple) and len(k) == 2)


def leaks(items, res, allowed, st):
    """The resource is handed to something whose effect on it is not known."""
    for e in items:
        if e.kind == 'call' and not e.inlined:
            if e.fn[0] == 'extm' and e.fn[1] == res:
                continue
            vals = list(e.args) + [v for _, v in e.kwargs]
            if any(holds(v, res, st) for v in vals) or (
                    name_of(e.fn) in ('callback', 'push', 'register', 'enter_context') and any(v[0] == 'func' for v in vals)):
                if name_of(e.fn) not in allowed and e.fn not in (('ext', 'wave.open'), ('ext', 'builtins.print'), ('ext', 'builtins.repr'), ('ext', 'builtins.str')):
                    return e
        if e.kind == 'enter' and (e.cm == res or e.cm[0] == 'call' and not opener(e.cm) and holds(e.cm, res, st) or e.cm[0] == 'obj' and holds(e.cm, res, st)):
            return e
    return None


def opener(cm):
    """A reader over a file does not close what it was given opened."""
    return cm[1] in ('wave.open', ('ext', 'wave.open'))


def card(ctx):
    v = V(ctx, 'card', 'run_audio_engine')
    w = V(ctx, 'stream', 'run_audio_engine')
    f = ctx.prog.func(KG + '.run_audio_engine')
    adc, dac = ctx.obj(KG + '.Adc', 'adc'), ctx.obj(KG + '.Dac', 'dac')
    n = 0
    for fp in ('', 'x.wav'):
        I = ctx.interp(may_raise=may, opaque=lambda g: g.name in ('collect_samples', 'write_wave', 'inject_samples'))
        ps = ctx.run(I, f, params={'adc': adc, 'dac': dac, 'offline': C(False), 'filepath': C(fp)})
        if ps is None:
            v.und('too many paths')
            w.und('too many paths')
        for p in ps or []:
            evs = [i.ev for i in flat(p)]
            top = list(p.events)
            acq = [e for e in top if e.kind == 'call' and e.fn == ('ext', 'pyaudio.PyAudio')]
            if not acq:
                continue
            n += 1
            how = 'a %s' % ('raised error' if p.raises else 'normal end')
            for a in acq:
                released(v, p, top, evs, a.result, how)
            for a in top:
                if method(a, acq[0].result, 'open') and a.failed is None:
                    ended(w, p, top, evs, acq[0].result, a.result, how)
    if not n:
        v.und('no sound card acquired')
        w.und('no sound card acquired')
    v.done('%d paths' % n)
    w.done('%d paths' % n)


def released(v, p, top, evs, pa, how):
    if none_known(p, pa):
        return
    end = [k for k, e in enumerate(top) if method(e, pa, 'terminate')]
    if not end:
        esc = leaks(evs, pa, ('validate_sound_card_channels',), p.st)
        if esc:
            v.und('sound card handed to %s' % show(getattr(esc, 'fn', pa)))
        else:
            v.bad('the sound card is not released after %s' % how, last(top))
    elif len(end) > 1:
        v.und('released more than once')


def ended(w, p, top, evs, pa, s, how):
    if none_known(p, s):
        return
    end = [k for k, e in enumerate(top) if method(e, pa, 'terminate')]
    esc = leaks(evs, s, (), p.st)
    stop = [k for k, e in enumerate(top) if method(e, s, 'stop_stream', 'abort_stream')]
    close = [k for k, e in enumerate(top) if method(e, s, 'close')]
    if esc:
        w.und('stream handed on')
    elif not close:
        w.bad('an opened stream is not closed after %s' % how, last(top))
    elif any(k[0] in ('truthy', 'eq') and subterm(k, ('extm', s, 'is_stopped')) for k in p.facts) and not stop:
        pass
    elif not stop or min(stop) > max(close):
        w.bad('an opened stream is not stopped before it is closed after %s' % how, top[close[0]])
    elif end and max(close) > end[0]:
        w.bad('the sound card is released before its stream is closed', top[end[0]])


def none_known(p, t):
    """The path takes a resource for missing: not possible once it was acquired."""
    return any(k[0] == 'eq' and t in k[1:] and NONE in k[1:] and val or k[0] == 'truthy' and k[1] == t and not val for k, val in p.facts.items())


def last(evs):
    evs = [e for e in evs if e.kind in ('call', 'raise')]
    return evs[-1] if evs else ''


def wav(ctx):
    v = V(ctx, 'file', 'load_wave')
    f = ctx.prog.func('klang.audio.wavfile.load_wave')
    I = ctx.interp(may_raise=may, opaque=lambda g: g.name == 'convert_samples_to_float')
    n = 0
    for p in ctx.run(I, f) or []:
        top = list(p.events)
        for e in top:
            if e.kind == 'call' and not e.inlined and e.failed is None and e.fn[0] == 'ext' and e.fn[1] in ('wave.open', 'builtins.open'):
                n += 1
                r = e.result
                ent = [x for x in top if x.kind == 'enter' and closing(x.cm, r)]
                ext = [x for x in top if x.kind == 'exit' and closing(x.cm, r)]
                if ent and ext or any(method(x, r, 'close') for x in top):
                    continue
                if leaks(top, r, (), p.st):
                    v.und('handed on')
                    continue
                v.bad('the opened file is not closed when the reader ends with %s' % ('an error' if p.raises else 'a result'), last(top))
    if not n:
        v.und('no file opened here')
    v.done('%d paths' % n)


def closing(cm, r):
    return cm == r or cm[0] == 'call' and r in cm[2] and not opener(cm)


FAIL = ('shutdown', 'getpeername', 'send', 'sendto', 'sendall', 'recv')


def final(ctx, cls, field, closers, ctor):
    con = '%s.__del__' % cls.rpartition('.')[2]
    v = V(ctx, 'socket', con)
    m = ctx.method(cls, '__del__')
    c = ctx.prog.cls(cls)
    o = ctx.obj(cls, 'a')
    # which field holds the resource?
    k = ctx.method(cls, '__init__')
    fields = set()
    if k:
        for p in ctx.run(ctx.interp(), k[0], selfv=o, cls=k[1]) or []:
            evs = [i.ev for i in flat(p)]
            for e in evs:
                if e.kind == 'write' and e.base == o and e.value[0] == 'call' and e.value[1] in (ctor, ('ext', ctor)):
                    fields.add(e.attr)
            for e in evs if not p.raises else ():
                if e.kind == 'call' and e.fn == ('ext', ctor) and e.failed is None:
                    r = e.result
                    if r in p.st.heap.values() or subterm(tuple(p.st.conts.values()), r) or any(method(x, r, *closers) for x in evs) or leaks(evs, r, (), p.st) or none_known(p, r):
                        continue
                    if any(x.kind in ('enter', 'setitem', 'gwrite', 'nlwrite', 'mut') and subterm((getattr(x, 'cm', None) or getattr(x, 'value', None) or getattr(x, 'args', None) or ()), r) for x in evs):
                        continue
                    v.bad('a connection which was opened is neither kept nor closed', e)
    if m is None:
        if k and '__del__' not in c.members and private(ctx, c, fields, closers):
            v.bad('nothing closes the connection when the block goes away', c.node and '%s:%d' % (c.mod.path, c.node.lineno))
        else:
            v.und('closed elsewhere')
        return v.done()
    if not fields:
        v.und('no field holds it')
        return v.done()
    inits = {x for g in c.node.body if getattr(g, 'name', '') == '__init__' for x in ast.walk(g)}
    written = {t.attr for t in ast.walk(c.node) if isinstance(t, ast.Attribute) and isinstance(t.ctx, (ast.Store, ast.Del)) and t not in inits}

    def fail(fn, args, node, I, fr, st):
        if fn[0] == 'extm' and fn[2] in FAIL:
            return [('exc', ('ext', 'builtins.OSError'), ())]
        return None

    for p in ctx.run(ctx.interp(may_raise=fail), m[0], selfv=o, cls=m[1]) or []:
        evs = [i.ev for i in flat(p)]
        fresh = {e.result for e in evs if e.kind == 'call' and e.fn == ('ext', ctor)}
        ok = any(e.kind == 'call' and e.fn[0] == 'extm' and e.fn[2] in closers and e.fn[1][0] in ('fld', 'call', 'sym') and e.fn[1] not in fresh or
                 e.kind == 'exit' and e.cm[0] in ('fld', 'call', 'sym') and e.cm not in fresh for e in evs)
        if not ok:
            about = [a for k, _ in p.facts.items() for a in attrs(k, o)]
            # a condition on something which has nothing to do with the resource
            apart = [k for k, _ in p.facts.items() if not any(subterm(k, x) for x in fields_of(ctx, o, fields, p.st)) and k[0] not in ('hasattr',)
                     and not any(x[1] in ('builtins.getattr', 'builtins.hasattr', 'builtins.vars') for x in calls_in(k))
                     and (any(True for _ in attrs(k, o)) or inside(k, o) or any(subterm(k, x) for x in fresh))]
            if p.raises:
                v.und('raises')
            elif p.facts and (len(apart) < len(p.facts) or any(a in fields or a in written for a in about)):
                v.und('conditional')
            elif any(e.kind == 'call' and not e.inlined and any(holds(x, o, p.st) or x[0] == 'fld' and x[1] == o and x[2] in fields for x in list(e.args) + [y for _, y in e.kwargs])
                     and not (e.fn[0] == 'extm' and e.fn[2] in QUIET) for e in evs):
                v.und('handed on')
            else:
                v.bad('the connection is not closed', m[0].where)
    v.done()


def fields_of(ctx, o, fields, st):
    I = ctx.interp()
    for f in fields:
        got = ctx.attr(I, o, f, st)
        if got is not None:
            yield got


def calls_in(t):
    if isinstance(t, tuple):
        if len(t) > 2 and t[0] == 'call':
            yield t
        for x in t:
            yield from calls_in(x)


def inside(t, o):
    """Is it about an object made in the constructor of the block?"""
    if isinstance(t, tuple):
        if len(t) > 2 and t[0] in ('obj', 'cont') and isinstance(t[2], tuple) and subterm(t[2], o):
            return True
        return any(inside(x, o) for x in t)
    return False


def attrs(t, o):
    """The fields of the block a term is about."""
    if isinstance(t, tuple):
        if len(t) > 2 and t[0] == 'fld' and t[1] == o:
            yield t[2]
        else:
            for x in t:
                yield from attrs(x, o)


def private(ctx, c, fields, closers):
    """No other code of the package looks at the resource or asks the block to close itself."""
    own = set(ast.walk(c.node))
    for mod in ctx.prog.mods.values():
        for t in ast.walk(mod.tree):
            if isinstance(t, ast.Attribute) and t not in own and (t.attr in fields or t.attr in closers and not isinstance(t.value, ast.Name)):
                return False
            if (t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', getattr(t, 'name', ''))) in ('finalize', 'closing', 'atexit') + (('__exit__', '__del__') if t in own else ()):
                return False
    return True
