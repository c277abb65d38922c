"""C03: messages reach every destination once, in order; inboxes are bounded queues."""
from ..core import clause
from ..engine import C, NONE, State, is_const, show
from ..links import CON, OUT
from ..walk import flat

EXPLAIN = ('Delivery counting: sending (and relaying) is followed for every kind of destination; the only effect must be one exhausted loop over the '
           'destinations, each iteration putting the very message exactly once at the back of that destination\'s inbox (or handing it to that relay, '
           'which is held to the same rule).  Reading is a queue typestate: values handed out are exactly the results of left pops, the reader '
           'only stops on an empty inbox, and the inbox is a bounded deque of its own.  Small networks of '
           'outputs, relays, mixers and inputs are followed step by step on symbolic messages.')
ASSUME = ['collections.deque(maxlen=n) drops from the other end when full']
MINIMUM = 14


def check(ctx):
    r = ctx.rep
    r.rule('send', 'every destination gets the message exactly once at the back of its inbox, nothing else gets it')
    r.rule('push', 'a message input puts a pushed message at the back of its own inbox exactly once')
    r.rule('inbox', 'the inbox is an own, bounded deque that is empty at first')
    r.rule('receive', 'receive hands out left pops of the own inbox, each once, until it is empty')
    r.rule('latest', 'receive_latest returns the right end (None if there is none) and leaves the inbox empty')
    r.rule('scene', 'small networks of outputs, relays, mixers and inputs, followed step by step: every message arrives once, in order, where it is meant to')
    for k, m in (('MessageOutput', 'send'), ('MessageRelay', 'push'), ('MessageRelay', 'send')):
        for e in ('MessageInput', 'MessageRelay'):
            clause(ctx, 'send', send, k, m, e)
    clause(ctx, 'push', push)
    clause(ctx, 'inbox', inbox)
    clause(ctx, 'receive', receive)
    clause(ctx, 'latest', latest)
    for name in SCENES:
        clause(ctx, 'scene', scene, name)


def root_of(I, it, st):
    """The container an iterable is (a snapshot of)."""
    while True:
        if it[0] == 'idx' and it[2][0] == 'op' and it[2][1] == 'slice':
            lo, hi, step = it[2][2]
            if lo not in (NONE, C(0)) or hi != NONE or step not in (NONE, C(1), C(-1)):
                if all(is_const(x) for x in (lo, hi, step)) and root_of(I, it[1], st)[0] == 'cont':
                    raise Wrong('passes over only a part of the destinations')
                return it
            it = it[1]
            continue
        n = st.heap.get((it, '#from'))
        if n is None:
            if it[0] == 'call' and it[1] in ('builtins.sorted', 'builtins.reversed', 'builtins.iter') and it[2]:
                it = it[2][0]
                continue
            return it
        it = n


def queue_owner(base, st):
    for (b, a), v in st.heap.items():
        if v == base and a != '#from':
            return b, a
    if base[0] == 'fld':
        return base[1], base[2]
    return None, None


class Unsure(Exception):
    pass


class Wrong(Exception):
    def __init__(self, msg, ev=None):
        self.msg, self.ev = msg, ev


def deliveries(ctx, I, path, me, msg, dests, depth=0):
    """Map destination term -> number of deliveries of one pass over `dests` (the destinations of `me`)."""
    seen_loop = 0
    for ev in path.events:
        if ev.kind == 'loop':
            if root_of(I, ev.iter, path.st) == dests and ev.exhausted:
                seen_loop += 1
                if seen_loop > 1:
                    if any(inside(ctx, I, p, ev.elem, msg) for p in ev.paths):
                        raise Wrong('runs over the destinations twice', ev)
                    seen_loop -= 1
                    continue
                got = [inside(ctx, I, p, ev.elem, msg) for p in ev.paths if not p.raises]
                if any(g == 0 for g in got) and any(got):
                    raise Wrong('some destinations are left out', ev)
                if not any(got):
                    seen_loop -= 1
                    continue
                for p, g in zip([p for p in ev.paths if not p.raises], got):
                    if g > 1:
                        raise Wrong('a destination gets the message %d times' % g, ev)
                    if p.out is not None and p.out[0] in ('brk', 'ret'):
                        raise Wrong('stops after the first destination', ev)
            elif not ev.exhausted and root_of(I, ev.iter, path.st) == dests:
                if path.raises:
                    return
                raise Wrong('stops before the last destination', ev)
        elif ev.kind == 'mut':
            check_mut(ev, path, me, msg, None)
        elif ev.kind == 'call' and not ev.inlined and mentions(ev, msg):
            raise Unsure(str(ev))
    if not seen_loop:
        if any(e.kind == 'loop' for e in path.events):
            raise Unsure('destinations are reached in a way that is not understood')
        if path.raises:
            return
        f = path.facts
        if any(k[0] == 'truthy' and k[1] == dests and v is False for k, v in f.items()):
            return
        raise Wrong('does not run over the destinations')


def mentions(ev, msg):
    return any(a == msg for a in ev.args) or any(v == msg for _, v in ev.kwargs)


def check_mut(ev, path, me, msg, elem):
    """1 if the event delivers to elem; raises if it puts anything into another inbox."""
    if ev.op not in ('append', 'appendleft', 'extend', 'insert', 'extendleft', 'add'):
        return 0
    o, a = queue_owner(ev.base, path.st)
    if ev.base[0] == 'cont' and ev.base[1] != 'deque' and isinstance(ev.base[2], int):
        return 0
    if o is None:
        if ev.args and ev.args[-1] == msg:
            raise Unsure(str(ev))
        return 0
    if elem is None or o != elem:
        if ev.args and ev.args[-1] == msg:
            raise Wrong('the message is also put into %s.%s' % (show(o), a), ev)
        return 0
    if ev.op in ('extend', 'insert'):
        c = path.st.conts.get(ev.args[-1]) if ev.op == 'extend' and ev.args else None
        if ev.op == 'extend' and (c == (msg,) or ev.args[-1] == ('tuple', (msg,))):
            return 1
        if ev.op == 'extend' or not ev.args or not is_const(ev.args[0]):
            raise Unsure(str(ev))
    if ev.op != 'append':
        raise Wrong('the message is not put at the back of the inbox (%s)' % ev.op, ev)
    if ev.args[0] != msg:
        raise Wrong('something else than the message is put into the inbox: %s' % show(ev.args[0]), ev)
    return 1


def inside(ctx, I, p, elem, msg):
    """Number of deliveries to `elem` on one iteration path."""
    n = 0
    for ev in p.events:
        if ev.kind == 'mut':
            n += check_mut(ev, p, None, msg, elem)
        elif ev.kind == 'loop':
            own = ev.iter
            o, a = queue_owner(root_of(I, own, p.st), p.st)
            if o == elem and a == OUT and ev.exhausted:
                got = [inside(ctx, I, q, ev.elem, msg) for q in ev.paths if not q.raises]
                if got and min(got) != max(got):
                    raise Wrong('some destinations of a relay are left out', ev)
                n += max(got or [0])
            elif any(inside_any(q, msg) for q in ev.paths):
                raise Unsure('nested loop')
        elif ev.kind == 'call' and not ev.inlined:
            if ev.fn[0] == 'extm' and ev.fn[1] == elem and ev.fn[2] in ('push', 'send') and list(ev.args) == [msg]:
                n += 1
            elif ev.fn[0] == 'func' and len(ev.args) == 2 and ev.args[0] == elem and ev.args[1] == msg and ctx.prog.funcs[ev.fn[1]].name in (
                    'send', 'push'):
                n += 1
            elif mentions(ev, msg):
                raise Unsure(str(ev))
    return n


def inside_any(p, msg):
    return any((e.kind in ('call', 'mut') and e.args and msg in list(e.args)) or (e.kind == 'loop' and any(inside_any(q, msg) for q in e.paths))
               for e in p.events)


def send(ctx, k, m, e):
    rep = ctx.rep
    con = '%s.%s to %s' % (k, m, e)
    r = ctx.method(CON + k, m)
    if r is None:
        rep.bad('send', con, '%s has no %s method' % (k, m), CON + k)
        return
    f, c = r
    I = ctx.interp()
    o = ctx.obj(CON + k, 'a')
    st = State()
    dests = ctx.attr(I, o, OUT, st)
    st.set_celem(dests, ctx.obj(CON + e, 'dst'))
    names = [x.arg for x in f.node.args.args]
    msg = ('sym', 'message')
    ps = ctx.run(I, f, args=[o, msg], st=st, cls=c)
    if ps is None:
        rep.und('send', con)
        return
    try:
        for p in ps:
            if p.raises and not any(ev.kind in ('loop', 'mut') for ev in p.events):
                raise Wrong('raises %s' % show(p.out[1]))
            deliveries(ctx, I, p, o, msg, dests)
    except Wrong as w:
        rep.bad('send', con, w.msg, w.ev.where if w.ev else f.where)
        return
    except Unsure as u:
        rep.und('send', con, str(u))
        return
    rep.ok('send', con, '%d paths' % len(ps), f.where)


def push(ctx):
    rep = ctx.rep
    f, c = ctx.method(CON + 'MessageInput', 'push')
    I = ctx.interp()
    o = ctx.obj(CON + 'MessageInput', 'a')
    msg = ('sym', 'message')
    ps = ctx.run(I, f, args=[o, msg], cls=c)
    con = 'MessageInput.push'
    try:
        for p in ps:
            n = 0
            for ev in p.events:
                if ev.kind == 'mut':
                    if ev.op in ('pop', 'remove', 'clear'):
                        own, a = queue_owner(ev.base, p.st)
                        if own == o:
                            raise Wrong('takes %s out of the inbox' % ('the newest message' if ev.op == 'pop' else 'messages'), ev)
                    n += check_mut(ev, p, None, msg, o)
                elif ev.kind == 'loop':
                    raise Unsure('loop')
                elif ev.kind == 'call' and not ev.inlined and mentions(ev, msg):
                    raise Unsure(str(ev))
            if p.raises:
                raise Wrong('raises %s' % show(p.out[1]))
            if n != 1:
                raise Wrong('the message is put into the inbox %d times' % n)
    except Wrong as w:
        rep.bad('push', con, w.msg, w.ev.where if w.ev else f.where)
        return
    except Unsure as u:
        rep.und('push', con, str(u))
        return
    rep.ok('push', con, '%d paths' % len(ps), f.where)


def inbox_field(ctx):
    """Name of the field that push appends to."""
    f, c = ctx.method(CON + 'MessageInput', 'push')
    I = ctx.interp()
    o = ctx.obj(CON + 'MessageInput', 'a')
    for p in I.run(f, args=[o, ('sym', 'message')], cls=c):
        for ev in p.events:
            if ev.kind == 'mut':
                own, a = queue_owner(ev.base, p.st)
                if own == o:
                    return a
    return 'queue'


def inbox(ctx):
    rep = ctx.rep
    c = ctx.prog.cls(CON + 'MessageInput')
    name = inbox_field(ctx)
    I = ctx.interp()
    I.n = 10
    o = ('obj', c.key, 1)
    r = ctx.prog.find_member(c, '__init__')
    ps = ctx.run(I, r[1][-1][1], selfv=o, cls=r[0])
    con = 'MessageInput()'
    for p in ps:
        if p.raises:
            continue
        q = p.st.heap.get((o, name))
        if q is None:
            rep.bad('inbox', con, 'a new input has no inbox of its own', c.key)
            return
        if q[0] != 'cont' or q[1] != 'deque':
            if q[0] == 'cont':
                rep.bad('inbox', con, 'the inbox is an unbounded %s' % q[1], c.key)
            else:
                rep.und('inbox', con, show(q))
            return
        if not isinstance(q[2], int) or q in I.gstate.conts:
            rep.bad('inbox', con, 'all inputs share one inbox', c.key)
            return
        mk = [e for e in p.events if e.kind == 'call' and e.result == q]
        if not mk:
            rep.und('inbox', con)
            return
        ev = mk[-1]
        bound = dict(ev.kwargs).get('maxlen', ev.args[1] if len(ev.args) > 1 else None)
        if bound is None or bound == NONE:
            rep.bad('inbox', con, 'the inbox is not bounded', ev.where)
            return
        if is_const(bound) and not (isinstance(bound[2], int) and bound[2] >= 1):
            rep.bad('inbox', con, 'an inbox of length %r can not hold a message' % bound[2], ev.where)
            return
    rep.ok('inbox', con)


def receive(ctx):
    rep = ctx.rep
    f, c = ctx.method(CON + 'MessageInput', 'receive')
    name = inbox_field(ctx)
    I = ctx.interp()
    o = ctx.obj(CON + 'MessageInput', 'a')
    st = State()
    q = ctx.attr(I, o, name, st)
    con = 'MessageInput.receive'
    ps = ctx.run(I, f, args=[o], st=st, cls=c)
    if ps is None:
        rep.und('receive', con)
        return
    try:
        some = False
        for p in ps:
            stale(p, q)
            some |= walk_receive(p, q)
            if not p.raises:
                ends_empty(p, q)
        if not some:
            raise Unsure('no left pop is handed out')
    except Wrong as w:
        rep.bad('receive', con, w.msg, w.ev.where if w.ev else f.where)
        return
    except Unsure as u:
        rep.und('receive', con, str(u))
        return
    rep.ok('receive', con, '', f.where)


def stale(p, q):
    """Messages handed out from a copy while they are still in the inbox: nothing was taken out before the copy is read."""
    for ev in p.events:
        if ev.kind == 'mut' and ev.base == q or ev.kind == 'write' and q in (ev.value, ev.old if hasattr(ev, 'old') else None):
            return
        if ev.kind == 'loop' and ev.iter != q and copied(ev.iter, q, p.st) and not any(x.ev.kind == 'mut' and x.ev.base == q for b in ev.paths for x in flat(b)):
            for b in ev.paths:
                for x in flat(b):
                    if x.ev.kind == 'yield' and x.ev.value == ev.elem:
                        raise Wrong('hands out a message which is still in the inbox (again, when this reader stops; and one that arrives meanwhile '
                                    'is not seen)', x.ev)


def copied(t, q, st):
    while t != q:
        t = st.heap.get((t, '#from'))
        if t is None:
            return False
    return True


def walk_receive(p, q):
    pend, some = [], False
    if p.raises:
        raise Unsure('raises')
    for it in flat(p):
        if it.ev.kind == 'yield' and backwards(it, p, q):
            raise Wrong('hands out the newest message first', it.ev)
    for ev in p.events:
        if ev.kind == 'mut' and ev.base == q:
            if ev.op in ('popleft',) or (ev.op == 'pop' and list(ev.args) == [C(0)]):
                pend.append(ev)
            elif ev.op == 'pop':
                raise Wrong('hands out the newest message first', ev)
            elif ev.op == 'clear' and not any(e.kind in ('comp',) for e in p.events):
                raise Unsure('clear')
            else:
                raise Unsure(ev.op)
        elif ev.kind == 'yield':
            if pend and ev.value == pend[0].result:
                pend.pop(0)
                some = True
            elif ev.value[0] == 'idx' and ev.value[1] == q and ev.value[2] == C(-1):
                raise Wrong('hands out the newest message first', ev)
            elif ev.value[0] == 'elem' and ev.value[1] == q:
                raise Wrong('hands out a message without taking it out of the inbox first', ev) if not later_clear(p, q) else Unsure('clear')
            elif ev.value[0] == 'idx' and ev.value[1] == q and ev.value[2] == C(0):
                raise Wrong('hands out a message before taking it out of the inbox (it is still there for the next reader when this one stops)', ev)
            else:
                raise Unsure('hands out %s' % show(ev.value))
        elif ev.kind == 'loop':
            for b in ev.paths:
                some |= walk_receive(b, q)
                if b.out is not None and b.out[0] in ('brk', 'ret') and not facts_empty(b, q):
                    if any(e.kind == 'mut' for e in b.events):
                        raise Wrong('stops although messages are left', ev)
    if pend and not any(e.kind == 'compelt' for e in p.events):
        raise Wrong('a message is taken out but not handed out', pend[0])
    return some


def backwards(it, p, q):
    loops = [x[0].iter for x in it.loops if x[0].elem == it.ev.value]
    if not loops or loops[-1][0] != 'call' or loops[-1][1] != 'builtins.reversed' or not loops[-1][2]:
        return False
    t = loops[-1][2][0]
    while t != q and (t, '#from') in p.st.heap:
        t = p.st.heap[(t, '#from')]
    return t == q


def possible(p, q, n):
    """The facts about the inbox hold for n messages (None: not known)."""
    for k, b in p.facts.items():
        xs = [length(t, q, n) for t in k[1:] if isinstance(t, tuple)]
        if not any(x is not None and x[1] for x in xs):
            if any(t == q for t in k[1:]) and k[0] != 'truthy':
                return None
            if k[0] == 'truthy' and k[1] == q and (n > 0) != b:
                return False
            continue
        if any(x is None for x in xs) or k[0] not in ('lt', 'eq', 'truthy'):
            return None
        v = [x[0] for x in xs]
        if {'lt': lambda: v[0] < v[1], 'eq': lambda: v[0] == v[1], 'truthy': lambda: bool(v[0])}[k[0]]() != b:
            return False
    return True


def length(t, q, n):
    """(number, whether it depends on the inbox)"""
    if is_const(t) and isinstance(t[2], int):
        return t[2], False
    if t[0] == 'call' and t[1] == 'builtins.len' and t[2] and t[2][0] == q:
        return n, True
    return None


def later_clear(p, q):
    return any(e.kind == 'mut' and e.base == q and e.op == 'clear' for e in p.events)


def facts_empty(p, q):
    return any(k[0] == 'truthy' and k[1] == q and v is False for k, v in p.facts.items())


def ends_empty(p, q):
    key = ('truthy', q, p.st.ver(q))
    v = p.facts.get(key)
    if v is False or p.st.conts.get(q) == ():
        return
    if v is True:
        raise Wrong('stops although messages are left')
    loops = [e for e in p.events if e.kind == 'loop']
    if not loops and any(e.kind == 'mut' and e.base == q for e in p.events):
        raise Wrong('hands out at most one message')
    raise Unsure('end of the loop is not understood')


def latest(ctx):
    rep = ctx.rep
    f, c = ctx.method(CON + 'MessageInput', 'receive_latest')
    name = inbox_field(ctx)
    I = ctx.interp()
    o = ctx.obj(CON + 'MessageInput', 'a')
    st = State()
    q = ctx.attr(I, o, name, st)
    con = 'MessageInput.receive_latest'
    ps = ctx.run(I, f, args=[o], st=st, cls=c)
    if ps is None:
        rep.und('latest', con)
        return
    unsure = None
    for p in ps:
        if p.raises:
            rep.bad('latest', con, 'raises %s' % show(p.out[1]), f.where)
            return
        muts = [e for e in p.events if e.kind == 'mut' and e.base == q]
        loops = [e for e in p.events if e.kind == 'loop']
        v = p.value
        if p.facts.get(('truthy', q, 0)) is False:
            if v != NONE and not is_loop_value(v):
                rep.bad('latest', con, 'an empty inbox yields %s' % show(v), f.where)
                return
            if v != NONE:
                unsure = show(v)
            continue
        if loops or is_loop_value(v):
            unsure = 'loop'
            continue
        newest = [e for e in muts if e.op == 'pop' and not e.args or e.op == 'pop' and list(e.args) == [C(-1)]]
        if v == NONE:
            if p.facts.get(('truthy', q, 0)) is True or possible(p, q, 1):
                rep.bad('latest', con, 'a message is there but none is returned', f.where)
                return
            unsure = 'returns nothing'
            continue
        if v[0] == 'idx' and v[1] == q and v[2] == C(-1) and v[3] == 0 or any(e.result == v and e is muts[0] for e in newest):
            pass
        elif any(e.result == v for e in muts if e.op == 'popleft') or (v[0] == 'idx' and v[1] == q and v[2] == C(0)):
            rep.bad('latest', con, 'returns the oldest message', f.where)
            return
        else:
            unsure = show(v)
            continue
        if p.st.conts.get(q) != ():
            rep.bad('latest', con, 'older messages stay in the inbox', f.where)
            return
    if unsure:
        rep.und('latest', con, unsure)
    else:
        rep.ok('latest', con, '%d paths' % len(ps), f.where)


def is_loop_value(v):
    return v[0] == 'phi'


# ------------------------------------------------------------------ small networks, step by step
PRELUDE = '''from klang.connections import MessageInput, MessageOutput, MessageRelay
from klang.note_effects import MessageMixer


def client(a, b, c, d):
%s
'''

# what is returned: pairs of (messages that arrived, streams they have to consist of)
SCENES = {
    'mixer': '''
    x, y, z = MessageOutput(), MessageOutput(), MessageInput()
    mixer = MessageMixer(2)
    x.connect(mixer.inputs[0])
    y.connect(mixer.inputs[1])
    mixer.output.connect(z)
    x.send(a)
    y.send(b)
    x.send(c)
    mixer.update()
    first = list(z.receive())
    y.send(d)
    mixer.update()
    return (first, [[a, c], [b]]), (list(z.receive()), [[d]])
''',
    'mixer with added inputs': '''
    x, y, z = MessageOutput(), MessageOutput(), MessageInput()
    mixer = MessageMixer(0)
    mixer.add_new_channel()
    mixer.add_new_channel()
    mixer.output.connect(z)
    x.connect(mixer.inputs[0])
    y.connect(mixer.inputs[1])
    y.send(a)
    x.send(b)
    y.send(c)
    y.send(d)
    mixer.update()
    mixer.update()
    return (list(z.receive()), [[a, c, d], [b]]),
''',
    'relays': '''
    x = MessageOutput()
    r, s, t = MessageRelay(), MessageRelay(), MessageRelay()
    p, q, u, v = MessageInput(), MessageInput(), MessageInput(), MessageInput()
    x.connect(p)
    x.connect(r)
    r.connect(s)
    r.connect(q)
    s.connect(t)
    t.connect(u)
    x.send(a)
    x.send(b)
    r.disconnect(q)
    r.send(c)
    x.disconnect(r)
    x.send(d)
    return (list(p.receive()), [[a, b, d]]), (list(q.receive()), [[a, b]]), (list(u.receive()), [[a, b, c]]), (list(v.receive()), [])
''',
    'patched again': '''
    x, y, p, q = MessageOutput(), MessageOutput(), MessageInput(), MessageInput()
    x.connect(p)
    x.send(a)
    x.disconnect(p)
    y.connect(p)
    x.connect(q)
    x.send(b)
    y.send(c)
    return (list(p.receive()), [[a, c]]), (list(q.receive()), [[b]])
''',
    'reading': '''
    x, p, q = MessageOutput(), MessageInput(), MessageInput()
    x.connect(p)
    x.connect(q)
    x.send(a)
    x.send(b)
    first = list(p.receive())
    x.send(c)
    newest = [q.receive_latest()]
    rest = list(q.receive())
    x.send(d)
    return (first, [[a, b]]), (list(p.receive()), [[c, d]]), (newest, [[c]]), (rest, []), (list(q.receive()), [[d]]), (list(q.receive()), [])
''',
}


def scene(ctx, name):
    rep = ctx.rep
    con = 'a network: %s' % name
    f = ctx.client(PRELUDE % SCENES[name])
    I = ctx.interp(recursion=8, exact=True)
    ps = ctx.run(I, f)
    meth = ctx.method('klang.note_effects.MessageMixer', 'update') if 'mixer' in name else ctx.method(CON + 'MessageOutput', 'send')
    where = getattr((meth or [None])[0], 'where', '')
    for p in ps or ():
        if any(it.ev.kind == 'loop' and it.ev.paths for it in flat(p)):
            rep.und('scene', con, 'a loop is not followed step by step')
            return
        if any(it.ev.kind == 'call' and not it.ev.inlined and (not it.ev.fn or it.ev.fn[0] != 'ext') for it in flat(p)):
            rep.und('scene', con, 'a call is not followed')
            return
        if not p.normal or p.value[0] != 'tuple':
            rep.und('scene', con, str(p.out)[:80])
            return
        for pair in p.value[1]:
            got, want = (I.contents(x, p.st) for x in pair[1])
            streams = [I.contents(x, p.st) for x in want] if want is not None else None
            if got is None or streams is None or None in streams or any(x[0] != 'sym' and x != NONE for x in got):
                rep.und('scene', con, 'messages are not followed')
                return
            text = judge(list(got), streams)
            if text:
                rep.bad('scene', con, text, where)
                return
    (rep.ok if ps else rep.und)('scene', con)


def judge(got, streams):
    every = [x for s in streams for x in s]
    if any(got.count(x) > every.count(x) for x in got):
        x = next(x for x in got if got.count(x) > every.count(x))
        return 'a message arrives %s' % ('twice' if x in every else 'where it is not meant to')
    if len(got) < len(every):
        return 'a message is lost'
    for s in streams:
        if [x for x in got if x in s] != list(s):
            return 'messages of one output arrive out of order'
    return None
