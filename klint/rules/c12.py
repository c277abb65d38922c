"""C12: a malformed datagram never stops the receiver."""
from ..core import V, clause
from ..engine import C, is_const, show
from ..walk import subterm

EXPLAIN = ('Fault enumeration over all paths of one cycle of the network input blocks, from update() down to the socket: receiving may report that nothing '
           'is waiting, turning bytes into text may fail, and decoding the text may fail with each kind of error a bad text, a too deep text, or a bad note or array description '
           'leads to. No path may leave update() with one of these errors, every path that ends must have ended because the socket had nothing '
           'waiting, and every decoded object must be handed to the output in the iteration that decoded it; a slice or a prefix of what was received drops the rest.')
ASSUME = ['logging does not fail', 'the socket fails only by having nothing to read']
MINIMUM = 4

NOTHING = ('exc', ('ext', 'builtins.BlockingIOError'), ())
TEXT = ('exc', ('ext', 'builtins.UnicodeDecodeError'), ())
DECODE = [('exc', ('ext', x), ()) for x in ('json.JSONDecodeError', 'builtins.RecursionError', 'builtins.KeyError', 'builtins.TypeError', 'builtins.ValueError')]
RECV = ('recv', 'recvfrom', 'recv_into', 'recvmsg')


def attr(fn):
    return fn[2] if fn[0] in ('extm', 'fld') else None


def is_recv(fn):
    return attr(fn) in RECV


def from_socket(t):
    if not isinstance(t, tuple):
        return False
    if t[:1] == ('call',) and isinstance(t[1], tuple) and is_recv(t[1]):
        return True
    return any(from_socket(x) for x in t if isinstance(x, tuple))


def is_decode(fn):
    return attr(fn) == 'raw_decode' or fn in (('ext', 'json.loads'), ('ext', 'json.load')) or attr(fn) == 'decode' and fn[1][0] == 'call' and \
        fn[1][1] == ('ext', 'json.JSONDecoder')


def lenient(ev_args, kwargs=()):
    return any(is_const(a) and a[2] in ('replace', 'ignore', 'backslashreplace', 'surrogateescape') for a in list(ev_args))


LATE = ('exc', ('ext', 'builtins.TimeoutError'), ())
BADTYPE = ('exc', ('ext', 'builtins.TypeError'), ('object',))
PICKY = ('builtins.float', 'builtins.int', 'builtins.len', 'builtins.abs', 'builtins.round', 'builtins.sum', 'builtins.min', 'builtins.max', 'builtins.iter',
         'builtins.sorted', 'numpy.isnan', 'numpy.isfinite', 'builtins.set', 'builtins.hash')


def is_object(t):
    """Something decoded from a datagram: can be any JSON value."""
    return t[0] == 'idx' and t[2] == C(0) and t[1][0] == 'call' and isinstance(t[1][1], tuple) and is_decode(t[1][1]) or \
        t[0] == 'call' and isinstance(t[1], tuple) and is_decode(t[1]) and attr(t[1]) != 'raw_decode'


def may_late(fn, args, node, I, fr, st):
    if is_recv(fn):
        return [LATE]
    return may(fn, args, node, I, fr, st)


def may(fn, args, node, I, fr, st):
    if is_recv(fn):
        return [NOTHING]
    if fn[0] == 'ext' and fn[1] in PICKY and args and is_object(args[0]):
        return [BADTYPE]
    if is_decode(fn):
        return DECODE
    if attr(fn) == 'decode' and from_socket(fn[1]) or fn == ('ext', 'builtins.str') and len(args) > 1 and from_socket(args[0]):
        import ast
        kw = [k.value.value for k in getattr(node, 'keywords', ()) if isinstance(k.value, ast.Constant)]
        if lenient(args) or any(x in ('replace', 'ignore', 'backslashreplace', 'surrogateescape') for x in kw):
            return None
        return [TEXT]
    return None


def check(ctx):
    r = ctx.rep
    r.rule('survive', 'no error of a malformed datagram leaves the block')
    r.rule('drain', 'a cycle of receiving ends only when the socket has nothing waiting')
    r.rule('deliver', 'every decoded object is handed to the output')
    for name, send in (('NetworkIn', 'set_value'), ('NetworkMessageIn', 'send')):
        clause(ctx, 'survive', block, name, send)


def block(ctx, name, send):
    v, w, d = V(ctx, 'survive', name), V(ctx, 'drain', name), V(ctx, 'deliver', name)
    f = ctx.client("from klang.network import %s\n\n\ndef client():\n    b = %s(('localhost', 1234))\n    b.update()\n" % (name, name))
    I = ctx.interp(may_raise=may, unroll=2, opaque=lambda g: g.name in ('set_value', 'send') and g.cls is not None)
    ps = ctx.run(I, f)
    received = decoded = 0
    mode = waits(ps or [])
    if mode == 'timeout':
        I = ctx.interp(may_raise=may_late, unroll=2, opaque=lambda g: g.name in ('set_value', 'send') and g.cls is not None)
        ps = ctx.run(I, f)
    elif mode == 'blocking':
        w.bad('receiving waits for the next datagram when nothing is waiting', '')
    idle = LATE if mode == 'timeout' else NOTHING
    for p in ps or []:
        if p.raises:
            exc = p.out[1]
            if exc == BADTYPE:
                v.bad('a decoded object of another type is an error which leaves the block', last(p))
            elif exc == idle:
                v.bad('%s leaves the block with nothing waiting' % exc[1][1].rpartition('.')[2], last(p))
            elif exc in DECODE + [TEXT, NOTHING]:
                what = 'with nothing waiting' if exc == NOTHING else 'for a malformed datagram'
                v.bad('%s leaves the block %s' % (exc[1][1].rpartition('.')[2], what), last(p))
            else:
                v.und('raises %s' % show(exc))
            continue
        calls = [e for e in p.events if e.kind == 'call' and not e.inlined and is_recv(e.fn)]
        inner = [e for es in segments(p) for e in es if e.kind == 'call' and not e.inlined and is_recv(e.fn)]
        received += len(inner)
        if any('select' in show(e.fn) or 'poll' in show(e.fn) for e in p.events if e.kind == 'call' and not e.inlined):
            w.und('asks for waiting data in another way')
        elif not inner and not calls:
            w.und('a path without receiving')
        elif calls and by_test(p, calls[-1]):
            w.und('the loop ends by a test of the last datagram')
        elif not (calls and calls[-1].failed == idle):
            at = calls[-1] if calls else inner[-1]
            ex = next((e for e in reversed(p.events) if e.kind == 'except'), None)
            w.bad('receiving ends %s although more datagrams may be waiting' % ('after an error in a datagram' if ex is not None else 'early'), ex or at)
        for e in p.events:
            if e.kind == 'call' and e.fn == ('ext', 'builtins.next') and e.args and e.args[0][0] == 'gen':
                w.bad('only the first datagram is asked for', e)
            if e.kind == 'call' and e.fn == ('ext', 'builtins.iter') and len(e.args) == 2 and is_const(e.args[1]) and e.args[0][0] == 'fld' and \
                    e.args[0][1][0] == 'gen' and e.args[0][2] == '__next__':
                w.bad('receiving ends with an object %s although more datagrams may be waiting' % show(e.args[1]), e)
        if send == 'send':
            part(p, d, send)
        for e in (e for es in segments(p) for e in es):
            if e.kind == 'loop' and e.iter and sliced(e.iter) and any(x.kind == 'call' and is_decode(x.fn) for q in e.paths for es in segments(q) for x in es):
                d.bad('only some of the received datagrams are decoded', e)
        # delivery
        for events in segments(p):
            for i, e in enumerate(events):
                if e.kind == 'call' and not e.inlined and is_recv(e.fn) and not e.failed and events is not p.events and not touched(events[i + 1:], e.result) \
                        and not any(x.kind == 'call' and attr(x.fn) == 'decode' and x.fn[1][0] == 'phi' for x in events) \
                        and not empty(events, e.result):
                    d.bad('a datagram is received and dropped without being decoded', e)
                if e.kind == 'getitem' and is_object(e.base) and not guarded(e):
                    v.bad('the decoded object is used like a dictionary', e)
                if e.kind != 'call' or e.inlined or not is_decode(e.fn) or e.failed:
                    continue
                decoded += 1
                rest = events[i + 1:]
                use = [x for x in rest if x.kind == 'call' and (any(subterm(a, e.result) for a in x.args) or any(subterm(a, e.result) for _, a in x.kwargs))]
                if any(sends(x, send) and sent_object(x, e) for x in use):
                    continue
                kept = [x for x in rest if x.kind in ('mut', 'setitem', 'write', 'yield', 'compelt') and any(
                    subterm(t, e.result) for t in ([x.value] if x.kind in ('write', 'setitem', 'yield', 'compelt') else x.args))]
                fault = [x for x in rest if x.kind == 'call' and x.failed]
                if kept or fault or [x for x in use if not x.inlined and x.fn[0] != 'ext']:
                    d.und('the object is kept for later')
                else:
                    conds = [k for k, val in (rest[-1].facts if rest else e.facts).items() if subterm(k, e.result)]
                    d.bad('a decoded object is not handed to the output%s' % (' in some case' if conds else ''), e)
    if not received:
        w.und('no receiving')
    if not decoded:
        d.und('no decoding')
    v.done()
    w.done('%d receive calls' % received)
    d.done('%d decode calls' % decoded)


def by_test(p, last):
    """Receiving goes on in a loop which ends when its test says that there was nothing."""
    after = p.events[p.events.index(last) + 1:]
    lp = [e for e in after if e.kind == 'loop' and not e.isfor and any(x.kind == 'call' and is_recv(x.fn) for q in e.paths for es in segments(q) for x in es)]
    if not lp:
        return False
    return not any(k[0] == 'truthy' and not val and subterm(k, 'phi') for k, val in p.facts.items())


def part(p, d, send):
    """Decoded objects which are kept are all handed on, one by one."""
    evs = [e for es in segments(p) for e in es]
    fed = {e.base for e in evs if e.kind == 'mut' and e.op in ('append', 'add', 'extend', 'appendleft') and any(is_object(a) for a in e.args)}
    run = {e.iter for e in evs if e.kind == 'loop' and e.iter}
    for e in evs:
        if e.kind == 'loop' and e.iter and any(x.kind == 'call' and sends(x, send) for q in e.paths for x in q.events):
            if e.iter[0] == 'cont' and e.iter[1] in ('set', 'frozenset'):
                d.bad('equal objects are only delivered once, in any order', e)
            elif e.iter[0] == 'idx' and e.iter[1][0] == 'cont' and e.iter[2][0] == 'op' and e.iter[2][1] == 'slice' and any(x != C(None) for x in e.iter[2][2]) \
                    and all(is_const(x) for x in e.iter[2][2]) and e.iter[2][2][2] in (C(None), C(1)):
                d.bad('only some of the decoded objects are delivered', e)
        if e.kind == 'getitem' and e.base in fed and is_const(e.key) and e.base not in run and not any(
                x.kind in ('yield', 'mut') and (getattr(x, 'value', None) == e.base or e.base in (getattr(x, 'args', None) or ())) for x in evs):
            d.bad('only one of the decoded objects is delivered', e)


def sliced(it):
    """A part of a list with fixed bounds, or the first few items of an iterator."""
    while it[0] == 'call' and it[1] in (('ext', 'builtins.list'), ('ext', 'builtins.tuple'), ('ext', 'builtins.iter'), 'builtins.list', 'builtins.tuple') and it[2]:
        it = it[2][0]
    if it[0] == 'call' and it[1] in (('ext', 'itertools.islice'), 'itertools.islice'):
        return len(it[2]) > 1 and all(is_const(x) for x in it[2][1:]) and it[2][1] != C(None)
    return it[0] == 'idx' and it[2][0] == 'op' and it[2][1] == 'slice' and any(x != C(None) for x in it[2][2][:2]) and it[2][2][0] in (C(None), C(0)) and \
        is_const(it[2][2][1]) and it[2][2][2] in (C(None), C(1))


def waits(ps):
    """How the socket behaves when nothing is waiting."""
    got = set()
    for p in ps:
        made = [e.result for e in p.events if e.kind == 'call' and e.fn == ('ext', 'socket.socket')]
        if not made:
            return None
        mode = 'blocking'
        for e in (e for es in segments(p) for e in es):
            if e.kind != 'call' or e.inlined:
                continue
            if attr(e.fn) == 'setblocking' and e.fn[1] in made:
                mode = None if not (e.args and e.args[0] == C(True)) else 'blocking'
            elif attr(e.fn) == 'settimeout' and e.fn[1] in made:
                t = e.args[0] if e.args else None
                mode = 'timeout' if t is not None and is_const(t) and t[2] else None if t is not None and is_const(t) and t[2] == 0 and t[2] is not None else 'blocking' \
                    if t == C(None) else None
            elif is_recv(e.fn) and len(e.args) > 1 or any(x in show(e.fn) for x in ('select', 'poll', 'fcntl', 'ioctl')):
                mode = None
            elif any(subterm(a, m) for m in made for a in list(e.args) + [y for _, y in e.kwargs]) and attr(e.fn) not in ('info', 'debug'):
                return None
        got.add(mode)
    return got.pop() if len(got) == 1 else None


def touched(events, data):
    """Is something done with the bytes?"""
    for x in events:
        if x.kind in ('mut', 'yield', 'compelt', 'write', 'setitem'):
            return True
        if x.kind == 'call' and (x.inlined or x.fn[0] == 'extm' and subterm(x.fn[1], data) or any(subterm(a, data) for a in list(x.args) + [y for _, y in x.kwargs])
                                 and not (x.fn[0] == 'ext' and x.fn[1] == 'builtins.len') and attr(x.fn) not in ('warning', 'info', 'debug', 'error')):
            return True
        if x.kind in ('loop', 'getitem', 'except'):
            return True
    return False


def empty(events, data):
    return any(subterm(k, data) and (k[0] == 'truthy' and not val or k[0] == 'eq' and C(0) in k[1:3] and val or k[0] == 'eq' and C(b'') in k[1:3] and val or
                                     k[0] == 'lt' and k[1] == C(0) and not val) for k, val in events[-1].facts.items())


def guarded(e):
    """Inside a try, here or in a caller?"""
    import ast
    return any(isinstance(x, (ast.Try, ast.With)) for x in ast.walk(e.func.node)) or e.func.isgen or e.func.name != 'update'


def sends(x, name):
    fn = x.fn
    if fn[0] == 'func':
        return fn[1].rpartition('.')[2].partition('#')[0] == name
    if fn[0] in ('bound', 'extm', 'fld'):
        return fn[2].rpartition('.')[2].partition('#')[0] == name
    return False


def sent_object(x, e):
    """The argument is the decoded object itself."""
    t = x.args[-1] if x.args else None
    return t is not None and (t == ('idx', e.result, C(0), 0) or t == e.result or t[0] == 'idx' and t[1] == e.result and t[2] == C(0))


def segments(p):
    """Event lists that run in one go: the path itself without loop bodies, and every iteration."""
    yield p.events
    for e in p.events:
        if e.kind == 'loop':
            for q in e.paths:
                yield from segments(q)


def last(p):
    e = next((e for e in reversed(p.events) if e.kind == 'call' and e.failed), None)
    return e.where if e is not None else ''
