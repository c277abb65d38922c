"""C06: temporarily removed links come back on every exit."""
from ..core import clause
from ..engine import NONE, is_const, show
from ..links import INC, OUT
from ..walk import flat, leaves, method_call, partial, src_of

EXPLAIN = ('Pairing on all exits: a client that opens the scope and then returns or raises inside it is followed; on every path that gets past the '
           'unlinking loop an exhausted loop over the very same list of links must link each of them again before the path ends. The list itself must hold '
           'every link of the inputs and the outputs to other blocks (only unlinked ends and the own ends of the block may be skipped), '
           'and be complete before the first link is removed. Recomputing an inner order is held to the same rule. Small networks '
           'built by closed clients are also followed step by step: which links exist inside the scope and after it.')
ASSUME = ['connect and disconnect do what C01 says']
MINIMUM = 1


def check(ctx):
    r = ctx.rep
    r.rule('restore', 'every way out of the scope links again exactly what was unlinked')
    r.rule('all', 'the links of every input and every output to other blocks are removed')
    r.rule('recompute', 'recomputing the inner order of a composite restores its wiring on every exit')
    src = ('from klang.composite import temporarily_unpatch\n\n\ndef client(b, body):\n    with temporarily_unpatch(b):\n        body()\n')
    clause(ctx, 'restore', scope, src, 'temporarily_unpatch', 'restore', ('sym', 'b'))
    clause(ctx, 'recompute', recompute)
    r.rule('wired', 'new blocks, a scope around one of them: inside only its links to itself are left, afterwards every link is back')
    for how in LEAVE:
        clause(ctx, 'wired', wired, how)
    clause(ctx, 'wired', composed)


LEAVE = {'normally': 'pass', 'by an error': 'raise KeyError', 'by a value error': 'raise ValueError', 'by an interrupt': 'raise KeyboardInterrupt'}

WIRED = '''
from klang.block import Block
from klang.connections import Input, MessageInput, MessageOutput, Output
from klang.composite import temporarily_unpatch


def state(links, outputs):
    r = []
    for src, dst in links:
        r.append(dst.incomingConnection is src)
        r.append(dst in src.outgoingConnections)
    for x in outputs:
        r.append(len(x.outgoingConnections))
    return r


def client():
    a = Block(1, 2)
    b = Block(4, 3)
    c = Block(2, 1)
    b.inputs.append(MessageInput(b))
    b.outputs.append(MessageOutput(b))
    lone = Output()
    end = Input()
    told = MessageInput()
    tells = MessageOutput()
    links = [(a.outputs[0], b.inputs[0]), (a.outputs[1], b.inputs[1]), (b.outputs[0], c.inputs[0]), (b.outputs[0], c.inputs[1]),
             (b.outputs[1], a.inputs[0]), (lone, b.inputs[3]), (b.outputs[1], end), (tells, b.inputs[4]), (b.outputs[3], told)]
    for src, dst in links:
        src.connect(dst)
    own = [(b.outputs[2], b.inputs[2])]
    b.outputs[2].connect(b.inputs[2])
    outputs = [a.outputs[0], a.outputs[1], b.outputs[0], b.outputs[1], b.outputs[2], b.outputs[3], lone, tells]
    r = []
    kept = None
    error = None
    try:
        with temporarily_unpatch(b):
            r = state(links, [])
            kept = state(own, [])
            %s
    except BaseException as err:
        error = err
    return r, kept, error, state(links, []), state(own, []), state([], outputs)
'''
COUNTS = (1, 1, 2, 2, 1, 1, 1, 1)


def wired(ctx, how):
    rep = ctx.rep
    con = 'temporarily_unpatch left ' + how
    I = ctx.interp(recursion=3)
    ps = ctx.run(I, ctx.client(WIRED % LEAVE[how]))
    where = getattr(ctx.optional('klang.composite.temporarily_unpatch'), 'where', '')
    for p in ps or ():
        if not p.normal:
            rep.und('wired', con, str(p.out))
            return
        inside, kept, error, after, own, counts = p.value[1]
        inside, kept, after, own, counts = (I.contents(t, p.st) if t != NONE else None for t in (inside, kept, after, own, counts))
        if None in (inside, kept, after, own, counts) or not all(is_const(t) for x in (inside, kept, after, own, counts) for t in x):
            rep.und('wired', con, 'links are not followed')
            return
        text = None
        if any(t[2] for t in inside):
            text = 'a link of the block is still there inside the scope'
        elif not all(t[2] for t in kept):
            text = 'the link of the block to itself is removed'
        elif not all(t[2] for t in after) or not all(t[2] for t in own):
            n = [i for i, t in enumerate(list(after) + list(own)) if not t[2]][0]
            text = '%s does not come back' % ('one end of a link' if (list(after) + list(own))[n ^ 1][2] else 'a link')
        elif tuple(t[2] for t in counts) != COUNTS:
            text = 'there are other links afterwards'
        elif how != 'normally' and error == NONE:
            text = 'the error that ended the scope is lost'
        if text and any(hands_over(it.ev) for it in flat(p)):
            rep.und('wired', con, 'the links are handed to code that is not followed')
            return
        if text:
            rep.bad('wired', con, text, where)
            return
    (rep.ok if ps else rep.und)('wired', con)


COMPOSED = '''
from klang.block import Block
from klang.composite import Composite
from klang.connections import Relay


def client():
    a = Block(0, 1)
    c = Block(1, 0)
    inner = Block(1, 1)
    comp = Composite()
    comp.inputs = [Relay(comp), Relay(comp)]
    comp.outputs = [Relay(comp), Relay(comp)]
    links = [(a.outputs[0], comp.inputs[0]), (comp.inputs[0], inner.inputs[0]), (inner.outputs[0], comp.outputs[0]), (comp.outputs[0], c.inputs[0])]
    for src, dst in links:
        src.connect(dst)
    try:
        comp.update_internal_exec_order()
    except ValueError:
        pass
    r = []
    for src, dst in links:
        r.append(dst.incomingConnection is src)
        r.append(dst in src.outgoingConnections)
    return r
'''


def composed(ctx):
    rep = ctx.rep
    con = 'a linked composite'
    det = ctx.optional('klang.execution.determine_execution_order')
    if det is None:
        rep.und('wired', con)
        return

    def may(fn, args, node, I, fr, st):
        return [('exc', ('ext', 'builtins.ValueError'), ())] if fn[0] == 'func' and fn[1] == det.key else None
    I = ctx.interp(recursion=3, opaque={det.key}, may_raise=may)
    ps = ctx.run(I, ctx.client(COMPOSED))
    for p in ps or ():
        r = I.contents(p.value, p.st) if p.normal else None
        if r is None or not all(map(is_const, r)):
            rep.und('wired', con, 'links are not followed')
            return
        if not all(t[2] for t in r) and any(hands_over(it.ev) for it in flat(p)):
            rep.und('wired', con, 'the links are handed to code that is not followed')
            return
        if not all(t[2] for t in r):
            rep.bad('wired', con, 'recomputing the inner order leaves the composite with other links than before',
                    getattr(ctx.method('klang.composite.Composite', 'update_internal_exec_order')[0], 'where', ''))
            return
    (rep.ok if ps else rep.und)('wired', con)


OPAQUE = ('connect', 'disconnect', 'make_connection', 'break_connection')


def interp(ctx, raiser):
    def may(fn, args, node, I, fr, st):
        if raiser(fn):
            return [('exc', ('ext', 'builtins.ValueError'), ()), ('exc', ('ext', 'builtins.KeyboardInterrupt'), ())]
        return None
    return ctx.interp(opaque=lambda f: f.name in OPAQUE and f.mod.name == 'klang.connections', may_raise=may)


def link_op(ev):
    """('+' | '-', source, destination) of a call that links or unlinks two ends."""
    if ev.kind != 'call' or ev.inlined:
        return None
    m = method_call(ev)
    if not m or len(m[2]) != 1:
        return None
    if m[1] in ('connect', 'make_connection'):
        return '+', m[0], m[2][0]
    if m[1] in ('disconnect', 'break_connection'):
        return '-', m[0], m[2][0]
    return None


def scope(ctx, src, con, rule, b):
    f = ctx.client(src)
    I = interp(ctx, lambda fn: fn == ('sym', 'body'))
    ps = ctx.run(I, f)
    judge(ctx, I, ps, con, rule, b, lambda ev: ev.kind == 'call' and ev.fn == ('sym', 'body'))


def recompute(ctx):
    m = ctx.method('klang.composite.Composite', 'update_internal_exec_order')
    con = 'Composite.update_internal_exec_order'
    if m is None:
        ctx.rep.und('recompute', con)
        return
    det = ctx.optional('klang.execution.determine_execution_order')
    if det is None:
        ctx.rep.und('recompute', con, 'no determine_execution_order')
        return

    def isdet(fn):
        return fn[0] == 'func' and fn[1] == det.key

    def may(fn, args, node, I, fr, st):
        return [('exc', ('ext', 'builtins.ValueError'), ())] if isdet(fn) else None
    I = ctx.interp(opaque=lambda f: f is det or f.name in OPAQUE and f.mod.name == 'klang.connections', may_raise=may)
    o = ctx.obj('klang.composite.Composite', 'a')
    ps = ctx.run(I, m[0], selfv=o, cls=m[1])
    judge(ctx, I, ps, con, 'recompute', o, lambda ev: ev.kind == 'call' and isdet(ev.fn), optional=True)


def loops_with(path, sign):
    """Top level loops of a path with link operations of one sign: (position, loop event, {iteration: [(src, dst)]})."""
    out = []
    for i, ev in enumerate(path.events):
        if ev.kind == 'loop':
            ops = []
            for p in ev.paths:
                ops.append([link_op(e)[1:] for e in p.events if link_op(e) and link_op(e)[0] == sign])
                if any(e.kind == 'loop' and any(link_op(x.ev) for q in e.paths for x in flat(q)) for e in p.events):
                    ops[-1].append('nested')
            if any(ops):
                out.append((i, ev, ops))
    return out


def hands_over(e):
    """Is a way to link given to a call that is not followed?"""
    if e.kind not in ('call', 'mut') or getattr(e, 'inlined', False):
        return False
    args = list(e.args or ()) + [v for k, v in e.kwargs or ()]
    return any(a[0] == 'func' or a[0] in ('bound', 'unbound', 'extm', 'fld') and any(
        isinstance(x, str) and x.rpartition('.')[2].rpartition(':')[2] in OPAQUE for x in a) for a in args)


def judge(ctx, I, ps, con, rule, b, isbody, optional=False):
    rep = ctx.rep
    if ps is None:
        rep.und(rule, con)
        return
    seen_body = False
    verdict = None
    allv = None
    for p in ps:
        pos = [i for i, e in enumerate(p.events) if isbody(e)]
        if any(link_op(e) for e in p.events):
            verdict = verdict or ('und', 'links changed outside a loop', None)
        if not pos:
            continue
        seen_body = True
        body = pos[0]
        off = [x for x in loops_with(p, '-') if x[0] < body]
        on = [x for x in loops_with(p, '+') if x[0] > body]
        early = [x for x in loops_with(p, '+') if x[0] < body]
        late = [x for x in loops_with(p, '-') if x[0] > body]
        if early or late:
            verdict = verdict or ('und', 'unusual order of linking and unlinking', None)
            continue
        if not off:
            if optional and not on:
                continue
            verdict = ('bad', 'links are never removed', p.events[body])
            break
        v = all_links(ctx, I, p, off, b)
        if v[0] == 'bad' or allv is None or (v[0] == 'und' and allv[0] == 'ok'):
            allv = v
        exit_ = 'normally' if not p.raises else 'by %s' % show(p.out[1])
        if not on and any(hands_over(it.ev) for it in flat(p)):
            verdict = verdict or ('und', 'the links are handed to code that is not followed', None)
            continue
        if not on:
            verdict = ('bad', 'leaving the scope %s does not bring the links back' % exit_, p.events[body])
            break
        v = same_links(p, off, on)
        if v:
            verdict = v if verdict is None or verdict[0] == 'und' else verdict
            if verdict[0] == 'bad':
                break
    if not seen_body:
        rep.und(rule, con, 'the scope body is not reached')
        return
    if verdict is None:
        rep.ok(rule, con, '%d paths' % len(ps))
    elif verdict[0] == 'bad':
        rep.bad(rule, con, verdict[1], verdict[2].where if verdict[2] is not None else '')
    else:
        rep.und(rule, con, verdict[1])
    if allv is not None:
        if allv[0] == 'ok':
            rep.ok('all', con)
        elif allv[0] == 'bad':
            rep.bad('all', con, allv[1], allv[2].where if allv[2] is not None else '')
        else:
            rep.und('all', con, allv[1])


def norm(t, elems):
    """Replace loop elements by their position so that two loops over the same list can be compared."""
    if t in elems:
        return ('#e', elems.index(t))
    if isinstance(t, tuple):
        return tuple(norm(x, elems) if isinstance(x, tuple) else x for x in t)
    return t


def shape_of(ev, ops):
    elems = [ev.elem] if ev.elem is not None else []
    if ev.elem is not None and ev.elem[0] == 'tuple':
        elems = list(ev.elem[1])
    return [[tuple(norm(x, elems) for x in op) if op != 'nested' else op for op in it] for it in ops]


def same_links(p, off, on):
    """None, or (verdict, text, event): are the links made again the ones removed?"""
    if any('nested' in it for x in off + on for it in x[2]):
        return 'und', 'nested loops', None
    if len(off) != len(on):
        return 'und', 'different number of loops', None
    for x in off + on:
        if partial(x[1].iter, p.st):
            return 'bad', 'only a part of the links is covered', x[1]
    left = list(on)
    for i, ev, ops in off:
        match = [x for x in left if src_of(x[1].iter, p.st) == src_of(ev.iter, p.st)]
        if not match:
            return 'und', 'the loops run over different things', None
        j, ev2, ops2 = match[0]
        left.remove(match[0])
        if not ev2.exhausted and not p.raises:
            return 'bad', 'linking again stops before the last link', ev2
        a, c = shape_of(ev, ops), shape_of(ev2, ops2)
        for it, q in zip(c, ev2.paths):
            if q.raises:
                continue
            if q.out is not None and q.out[0] in ('brk', 'ret'):
                return 'bad', 'linking again stops before the last link', ev2
            if not it:
                if relinked_already(q):
                    continue
                return 'bad', 'some links are not made again', ev2
            if len(it) > 1:
                return 'bad', 'a link is made again twice', ev2
        want = {tuple(x) for it in a for x in it}
        got = {tuple(x) for it in c for x in it}
        if want != got:
            return 'bad', 'other links than the removed ones are made again', ev2
    return None


def relinked_already(q):
    return any(k[0] in ('truthy', 'in', 'eq') and ('connected' in repr(k) or INC in repr(k) or OUT in repr(k)) for k in q.facts)


def all_links(ctx, I, p, off, b):
    """Is every link of b to other blocks collected before the first one is removed?"""
    for loops, q in leaves(p):
        ev = loops[-1][0]
        if partial(ev.iter, q.st):
            return 'bad', 'only a part of the links is listed', ev
    vals = {'in': False, 'out': False}
    selfskip = {'in': False, 'out': False}
    conts = {src_of(x[1].iter, p.st) for x in off}
    first_off = min(x[0] for x in off)
    for it in conts:
        if it[0] == 'gen' or (it[0] == 'fld'):
            return 'bad', 'links are removed while they are still being enumerated', off[0][1]
    found = []
    # a loop nest that enumerates links: values put into the list
    for loops, q in [((), p)] + list(leaves(p)):
        for e in q.events:
            v = None
            if e.kind == 'compelt':
                v = e.value
            elif e.kind == 'mut' and e.op in ('append', 'add') and src_of(e.base, p.st) in conts and e.args:
                v = e.args[0]
            if v is not None and v[0] == 'tuple' and len(v[1]) == 2 and loops:
                found.append((loops, q, v[1], e))
    for loops, q, (s, d), e in found:
        k = classify(I, s, d, b, q.st)
        if k is None:
            return 'und', 'the list of links is not understood: %s -> %s' % (show(s), show(d)), e
        vals[k] = True
        other = own_fact(q, s, d, b)
        if other is False:
            selfskip[k] = True
        if other is True:
            return 'bad', 'only the links of the block to itself are removed', e
    missing = [k for k, v in vals.items() if not v]
    if missing:
        return ('und' if not found else 'bad'), 'the links of the %s are not removed' % ('inputs' if missing == ['in'] else 'outputs' if missing == [
            'out'] else 'ends'), off[0][1]
    if not any(selfskip.values()):
        return 'bad', 'a link of the block to itself is listed twice', found[0][3]
    # iterations that skip a link
    for loops, q in leaves(p):
        lv = loops[-1][0]
        role = None
        if src_of(lv.iter, q.st) == attr_of(I, b, 'inputs', q.st):
            role = 'in'
        elif is_out_set(I, lv.iter, b, q.st):
            role = 'out'
        if role is None:
            continue
        if any(x[1] is q for x in found):
            continue
        if any(e.kind == 'loop' for e in q.events):
            continue
        if not any(f[1] is not q and f[0][-1][0] is lv for f in found):
            continue
        if q.out is not None and q.out[0] in ('brk', 'ret'):
            return 'bad', 'stops before the last link', lv
        elem = lv.elem
        if role == 'in':
            other = (('fld', elem, INC, 0), elem)
            free = any((k[0] == 'truthy' and k[1][0] == 'fld' and k[1][1] == elem and k[1][2] in ('connected', INC) and v is False) or (
                k[0] == 'eq' and k[1] == NONE and v and k[2][0] == 'fld' and k[2][1] == elem and k[2][2] == INC) for k, v in q.facts.items())
            if free:
                continue
        if own_any(q, b):
            continue
        return 'bad', 'some links of the %s are skipped' % ('inputs' if role == 'in' else 'outputs'), lv
    return 'ok', '', None


def attr_of(I, b, name, st):
    v = st.heap.get((b, name))
    return v if v is not None else ('fld', b, name, 0)


def is_out_set(I, it, b, st):
    it = src_of(it, st)
    return it[0] == 'fld' and it[2] == OUT and it[1][0] == 'elem' and src_of(it[1][1], st) == attr_of(I, b, 'outputs', st) or (
        it[0] == 'cont' and any(v == it and k[1] == OUT and k[0][0] == 'elem' and src_of(k[0][1], st) == attr_of(I, b, 'outputs', st)
                                for k, v in st.heap.items()))


def classify(I, s, d, b, st):
    if d[0] == 'elem' and src_of(d[1], st) == attr_of(I, b, 'inputs', st):
        if s == ('fld', d, INC, 0) or s == st.heap.get((d, INC)):
            return 'in'
    if s[0] == 'elem' and src_of(s[1], st) == attr_of(I, b, 'outputs', st):
        if d[0] == 'elem' and is_out_set(I, d[1], b, st) and (src_of(d[1], st)[0] == 'cont' or src_of(d[1], st)[1] == s):
            return 'out'
    return None


def own_fact(q, s, d, b):
    """Truth of 'the far end belongs to the block itself' on this path (None: not asked)."""
    for k, v in q.facts.items():
        if k[0] == 'eq' and b in k[1:]:
            o = [t for t in k[1:] if t != b]
            if o and o[0][0] == 'fld' and o[0][2] == 'owner' and o[0][1] in (s, d):
                return v
    return None


def own_any(q, b):
    return any(k[0] == 'eq' and v and b in k[1:] and any(t[0] == 'fld' and t[2] == 'owner' for t in k[1:]) for k, v in q.facts.items())
