"""C14: delays read the past before they overwrite it."""
import os

from ..cfront import Unsupported, cshow
from ..cmod import SELF, Module, modules
from ..core import V, clause
from ..engine import C, NONE, is_const, show
from ..lin import Lin, Sys, fname
from ..poly import add, atom, freeze, normal, poly, subst
from .c13 import HEAD, READ, RING, before, invariant, moving, rows
from .c17 import occurs

EXPLAIN = ('Three layers. Filters and delay (Python): on every path the ring buffer is read before the chunk is stored, nothing computed after storing uses '
           'a view of the ring, each chunk is stored exactly once, and output and stored value are, as polynomials over input, delayed sample and gain, '
           'those of the filter. Filters (native): the same for one iteration of the sample loop, with the read at the position the iteration starts at, '
           'exactly one store at the same position, and the position moving on by one modulo the length given at construction. Ring buffer (Python): '
           'every store puts value j of a chunk to position + j or one length away from it, the mirrored parts are written whenever they are affected, '
           'and peeking yields the samples from the position on (linear constraints).')
ASSUME = ['chunks are not longer than the ring (documented limit of the Python filters)', 'ring buffers are changed only through their methods']
MINIMUM = 6
TECHNIQUE = 'event order and polynomial normal forms over paths (Python and C), polyhedral domain for the ring contents'

X, A, OLD = ('sym', 'x'), ('sym', 'alpha'), ('sym', 'old')


def op(o, a, b):
    return ('op', o, (a, b))


MIX = op('+', X, op('*', A, OLD))
SPEC = {'ForwardCombFilter': (MIX, X), 'BackwardCombFilter': (MIX, MIX), 'EchoFilter': (OLD, MIX)}


def check(ctx):
    r = ctx.rep
    r.rule('order', 'the delayed samples are read before they are overwritten')
    r.rule('once', 'each chunk is stored exactly once')
    r.rule('mix', 'output and stored value combine input and delayed sample as the filter says')
    r.rule('ring', 'the ring keeps every sample where it is read from one length later')
    r.rule('silent', 'a new ring holds silence')
    view = peek_is_view(ctx)
    for n in SPEC:
        clause(ctx, 'order', filter_, 'Py' + n, n, view)
    clause(ctx, 'order', delay, view)
    pre = before(ctx)
    for name in ('extend', 'append', 'peek', 'peek_extend'):
        clause(ctx, 'ring', ring, name, pre)
    clause(ctx, 'silent', silent)
    for path in modules(ctx.root):
        try:
            m = Module(ctx.root, path)
        except Unsupported as e:
            r.und('order', os.path.relpath(path, ctx.root), str(e))
            continue
        for tn in sorted(m.types):
            for role in m.roles:
                if role.tname == tn and role.label.endswith('.filter'):
                    clause(ctx, 'order', native, m, tn, role)


# ------------------------------------------------------------ Python filters
def is_ring(g):
    return g.cls is not None and g.cls.name == 'RingBuffer'


def peek_is_view(ctx):
    f = ctx.client(HEAD + 'def client(r, v):\n    return r.peek(v)\n')
    ps = ctx.run(ctx.interp(), f, args=[ctx.obj(RING, 'r'), ('sym', 'v')])
    return not ps or any(p.normal and p.value[0] == 'idx' for p in ps)


def ring_call(ev):
    if ev.kind != 'call' or ev.fn[0] != 'func' or not ev.fn[1].startswith(RING + '.'):
        return None
    return ev.fn[1].rpartition('.')[2]


def plain(t, olds):
    """Term with reads of the ring named and numpy spellings of arithmetic undone."""
    if t in olds:
        return OLD
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'call':
        fn = t[1]
        if isinstance(fn, tuple) and fn[0] == 'extm' and fn[2] == 'copy' and not t[2]:
            return plain(fn[1], olds)
        if isinstance(fn, str) and fn in ('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.atleast_1d') and t[2]:
            return plain(t[2][0], olds)
        o = {'numpy.add': '+', 'numpy.multiply': '*', 'numpy.subtract': '-'}.get(fn) if isinstance(fn, str) else None
        if o and len(t[2]) == 2 and not t[3]:
            return op(o, plain(t[2][0], olds), plain(t[2][1], olds))
    return tuple(plain(x, olds) if isinstance(x, tuple) else x for x in t)


def known(t):
    """Only input, gain and delayed sample occur."""
    return all(set(m) <= {X, A, OLD} for m in poly(t))


def trace(ctx, p, view, o, w, con):
    """Reads and stores of the ring along a path: (olds, stored term) or None."""
    olds, stores, done = set(), [], None
    for e in p.events:
        k = ring_call(e)
        if e.kind == 'loop':
            if any(ring_call(x) for q in e.paths for x in q.events):
                w.und('ring used in a loop')
                return None
            continue
        if k is None:
            if e.kind == 'binop' and done is not None and view:
                for x in (e.left, e.right):
                    if x in olds and x[1][1].endswith('.peek'):
                        o.bad('the samples read from the ring are used after they were overwritten', e)
            if e.kind == 'call' and done is not None and view and any(x in olds and x[1][1].endswith('.peek') for x in list(e.args) + (
                    [e.fn[1]] if e.fn[0] == 'extm' else [])):
                o.bad('the samples read from the ring are used after they were overwritten', e)
            if e.kind in ('iop', 'setitem', 'mut') and getattr(e, 'base', None) in olds:
                o.und('samples of the ring changed in place')
            continue
        if k == '__init__':
            continue
        if k in ('peek', 'peek_extend'):
            if done is not None and k == 'peek':
                o.bad('the ring is read after the new samples were stored', e)
            olds.add(e.result)
        if k in ('extend', 'append', 'peek_extend'):
            stores.append((e.args[1] if len(e.args) > 1 else NONE, e))
            done = e
        if k not in ('peek', 'peek_extend', 'extend', 'append', 'length', '__init__'):
            w.und(k)
            return None
    if not stores:
        w.bad('the chunk is not stored', next((e for e in reversed(p.events) if e.kind == 'call'), None))
        return None
    if len(stores) > 1:
        w.bad('the chunk is stored %d times' % len(stores), stores[-1][1])
        return None
    if not olds:
        o.bad('the ring is never read', stores[0][1])
        return None
    return olds, stores[0]


def returned_view(p, v, olds, view, o):
    if view and v in olds and v[1][1].endswith('.peek'):
        o.bad('a view of the ring is put out, it holds the new samples', next((e for e in reversed(p.events) if ring_call(e)), None))


def filter_(ctx, cls, n, view):
    o, w, x = V(ctx, 'order', cls), V(ctx, 'once', cls), V(ctx, 'mix', cls)
    f = ctx.client('from klang.audio.filters import %s\n\n\ndef client(k, alpha, x):\n    f = %s(k, alpha)\n    return f.filter(x)\n' % (cls, cls))
    done = 0
    for p in ctx.run(ctx.interp(opaque=is_ring), f) or ():
        if p.raises:
            continue
        done += 1
        r = trace(ctx, p, view, o, w, cls)
        if r is None:
            continue
        olds, (stored, ev) = r
        returned_view(p, p.value, olds, view, o)
        for what, t, want in (('the output', p.value, SPEC[n][0]), ('the stored value', stored, SPEC[n][1])):
            compare(x, what, plain(t, olds), want, ev)
    if not done:
        o.und('no path')
    for y in (o, w, x):
        y.done('%d paths' % done)


def compare(x, what, t, want, ev):
    if normal(t) == normal(want):
        return
    if known(t):
        x.bad('%s is %s instead of %s' % (what, text(t), text(want)), ev)
    else:
        x.und('%s: %s' % (what, show(t)))


def text(t):
    out = []
    for m, c in sorted(poly(t).items(), key=repr):
        s = ' * '.join(a[1] for a in m) or '1'
        out.append(s if c == 1 else '%g * %s' % (c, s))
    return ' + '.join(out) or '0'


def delay(ctx, view):
    con = 'Delay'
    o, w, x = V(ctx, 'order', con), V(ctx, 'once', con), V(ctx, 'mix', con)
    f = ctx.client('from klang.audio.effects import Delay\n\n\ndef client(x, feedback, drywet):\n    f = Delay(1., feedback, drywet)\n    f.input.set_value(x)\n'
                   '    f.update()\n    return f.output.value\n')
    done = 0
    fb = ('sym', 'feedback')
    for p in ctx.run(ctx.interp(opaque=is_ring), f) or ():
        if p.raises:
            continue
        done += 1
        r = trace(ctx, p, view, o, w, con)
        if r is None:
            continue
        olds, (stored, ev) = r
        returned_view(p, p.value, olds, view, o)
        s, y = poly(plain(stored, olds)), poly(plain(p.value, olds))
        wet = {m: c for m, c in s.items() if OLD in m}
        dry = {m: c for m, c in s.items() if OLD not in m}
        inside = any(a != OLD and occurs(OLD, a) for m in s for a in m)
        if inside:
            x.und('stored value')
        elif wet != poly(op('*', fb, OLD)):
            x.bad('the delayed samples are stored as %s instead of scaled by the feedback' % (show_poly(wet) or 'nothing'), ev)
        if not dry:
            x.bad('the input is not stored', ev)
        if not inside and not any(occurs(OLD, a) for m in y for a in m):
            x.bad('the output does not depend on the delayed samples', ev)
        if dry and not any(occurs(X, a) for m in y for a in m):
            x.bad('the output does not depend on the input', ev)
        if dry and not any(occurs(X, a) for m in dry for a in m):
            x.bad('what is stored does not depend on the input', ev)
    if not done:
        o.und('no path')
    for z in (o, w, x):
        z.done('%d paths' % done)


def show_poly(p):
    return ' + '.join(' * '.join([('%g' % c)] * (c != 1) + [show(a) for a in m]) for m, c in p.items())


# ------------------------------------------------------------ Python ring
def silent(ctx):
    v = V(ctx, 'silent', 'RingBuffer')
    f = ctx.client(HEAD + 'def client(n, cap, head):\n    r = RingBuffer(n, cap, head)\n' + READ)
    for p in ctx.run(ctx.interp(), f) or ():
        if not p.normal or p.value[0] != 'tuple':
            continue
        d = p.value[1][4]
        fn = fname(d)
        touched = any(e.kind in ('setitem', 'mut', 'iop', 'loop') for e in p.events)
        if fn == 'numpy.zeros' and not touched:
            continue
        if fn in ('numpy.empty', 'numpy.ones') and not touched:
            v.bad('a new ring is made by %s' % fn, 'klang/ring_buffer.py')
        else:
            v.und(show(d))
    v.done()


def ring(ctx, name, pre):
    v = V(ctx, 'ring', name)
    if pre is None:
        v.und('quantities')
        v.done()
        return
    body = {'extend': '    r.extend(v)\n', 'append': '    r.append(v)\n', 'peek': '    y = r.peek(v)\n', 'peek_extend': '    y = r.peek_extend(v)\n'}[name]
    ret = READ if name in ('extend', 'append') else '    return y, r.pos, r.data\n'
    f = ctx.client(HEAD + 'def client(r, v):\n' + body + ret)
    r, x = ctx.obj(RING, 'r'), ('sym', 'v')
    I = ctx.interp()
    n = x if name == 'peek' else C(1) if name == 'append' else ('call', 'builtins.len', (x,), (), None)
    pos, length, cap, head, data = pre
    count = 0
    for p in ctx.run(I, f, args=[r, x]) or ():
        if p.raises:
            continue
        if any(val is True and k[0] == 'eq' and NONE in k[1:] and any(k[i] in (x, n) for i in (1, 2)) for k, val in dict(p.facts).items()):
            continue
        s = Sys()
        invariant(s, pre)
        s.le(1, n)
        s.le(n, length)
        s.le(n, head)
        s.facts(p.facts)
        if not s.sat():
            continue
        count += 1
        if p.value[0] != 'tuple':
            v.und('result')
            continue
        if name in ('peek', 'peek_extend'):
            y, after, dat = p.value[1]
            read(I, p, s, v, y, pre, n, name)
            if name == 'peek' and after != pos:
                v.bad('peeking moves the position', last(p))
        if name != 'peek':
            after = p.value[1][1] if name == 'peek_extend' else p.value[1][0]
            stores(I, p, s, v, pre, n, x, name)
            moved(s, v, after, pos, n, length, last(p))
    if not count:
        v.und('no path')
    v.done('%d paths' % count)


def last(p):
    return next((e for e in reversed(p.events) if e.kind in ('write', 'setitem', 'call')), None)


def moved(s, v, after, pos, n, length, ev):
    t = after
    want = op('+', pos, n)
    if t[0] == 'op' and t[1] == '%' and s.holds('==', t[2][1], length):
        t = t[2][0]
        if s.holds('==', t, want) or s.holds('==', t, op('+', want, length)) or s.holds('==', t, op('-', want, length)):
            return
        if s.exact(t):
            (v.und if moving(after) else v.bad)('the position moves to %s instead of %s' % (show(after), show(want)), ev)
        else:
            v.und('position %s' % show(after))
        return
    for w in (want, op('-', want, length)):
        if s.holds('==', t, w):
            return
    if t[0] == 'op' and t[1] == '%':
        d = t[2][1]
        far = s.copy()
        far.le(length, want)
        if s.exact(d) and far.sat() and not far.holds('==', d, length) and not far.holds('==', op('-', want, length), t):
            v.bad('the position wraps at %s instead of the length' % show(d), ev)
        else:
            v.und(show(t))
    elif s.exact(t) and t == pos:
        v.bad('the position stays', ev)
    elif s.exact(t):
        (v.und if moving(after) else v.bad)('the position moves to %s instead of %s' % (show(after), show(want)), ev)
    else:
        v.und('position %s' % show(after))


def read(I, p, s, v, y, pre, n, name):
    """What is read: the n samples from the position on, as they were before."""
    pos, length, cap, head, data = pre
    t, copied = y, None
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'extm' and t[1][2] == 'copy':
        t, copied = t[1][1], t
    elif t[0] == 'call' and isinstance(t[1], str) and t[1] in ('numpy.array', 'numpy.copy') and t[2]:
        t, copied = t[2][0], y
    if not (t[0] == 'idx' and t[1] == data and t[2][0] == 'op' and t[2][1] == 'slice'):
        v.und(show(y))
        return
    lo, hi, step = t[2][2]
    lo = C(0) if lo == NONE else lo
    if step not in (NONE, C(1)) or hi == NONE:
        v.und('slice')
        return
    for a, b, what in ((lo, pos, 'starts at'), (hi, op('+', pos, n), 'ends at')):
        if not s.holds('==', a, b):
            if s.exact(a):
                v.bad('what is read %s %s instead of %s' % (what, show(a), show(b)), last(p))
            else:
                v.und(show(a))
    if name == 'peek_extend':
        first = next((i for i, e in enumerate(p.events) if e.kind == 'setitem' and e.base == data), None)
        if copied is None:
            v.bad('a view of the ring is returned, it holds the new samples', last(p))
            return
        at = next((i for i, e in enumerate(p.events) if e.kind == 'call' and getattr(e, 'result', None) == copied), None)
        if at is None or first is None:
            v.und('copy')
        elif at > first:
            v.bad('the samples are copied after they were overwritten', p.events[at])


def stores(I, p, s, v, pre, n, x, name):
    pos, length, cap, head, data = pre
    spans = []                                    # (offset class, first value, lo, hi)
    zero = Lin({}, 0)
    ln = s.lin(n)
    for e in p.events:
        if e.kind == 'loop':
            v.und('loop')
            return
        if e.kind in ('iop', 'mut') and getattr(e, 'base', None) == data:
            v.und('memory changed in place')
            return
        if e.kind != 'setitem' or e.base != data:
            continue
        key, val = e.key, e.value
        if key[0] == 'tuple' and key[1]:
            key = key[1][0]
        if key[0] == 'op' and key[1] == 'slice':
            lo, hi, step = key[2]
            if step not in (NONE, C(1)) or hi == NONE:
                v.und('slice')
                return
            lo = C(0) if lo == NONE else lo
        else:
            lo, hi = key, op('+', key, C(1))
        if fname(val) in ('numpy.asarray', 'numpy.array') and val[2]:
            val = val[2][0]
        if val == x:
            b = zero
        elif val[0] == 'idx' and val[1] == x and val[2][0] == 'op' and val[2][1] == 'slice' and val[2][2][2] in (NONE, C(1)):
            vl = val[2][2][0]
            if vl == NONE:
                b = zero
            else:
                b = s.lin(vl)
                if s.holds('<', b, zero):
                    b = ln + b
                elif not s.holds('<=', zero, b):
                    v.und('slice of the chunk')
                    return
        elif is_const(val):
            v.bad('%s is stored instead of the chunk' % show(val), e)
            return
        else:
            v.und('what is stored: %s' % show(val))
            return
        off = s.lin(lo) - b
        cls = next((c for c in (0, 1, -1) if s.holds('==', off, s.lin(pos) + s.lin(length).scale(c))), None)
        if cls is None:
            if s.exact(lo):
                v.bad('value j of the chunk is stored at another place than position + j', e)
            else:
                v.und('place of %s' % show(val))
            return
        spans.append((cls, b, s.lin(lo), s.lin(hi)))
    ev = last(p)
    end = s.lin(pos) + ln
    L, H = s.lin(length), s.lin(head)

    def need(t, cls, lo, his, what):
        if not t.sat():
            return
        if any(c == cls and t.holds('==', a, lo) and any(t.holds('<=', h, b) for h in his) for c, _, a, b in spans):
            return
        if t.exact():
            v.bad(what, ev)
        else:
            v.und(what)
    need(s, 0, s.lin(pos), [end], 'the chunk is not stored at the position')
    t = s.copy()
    t.lt(pos, head)
    t.le(n, op('-', head, pos))                                 # the part that reaches the head room completely
    need(t, 1, s.lin(pos) + L, [end + L], 'samples at the beginning of the ring are not repeated in the head room')
    t = s.copy()
    t.lt(pos, head)
    t.le(op('-', head, pos), n)
    need(t, 1, s.lin(pos) + L, [H + L], 'samples at the beginning of the ring are not repeated in the head room')
    t = s.copy()
    t.lt(length, op('+', pos, n))
    need(t, -1, Lin({}, 0), [end - L], 'samples behind the end are not stored at the beginning of the ring')


# ------------------------------------------------------------ native filters
def native(ctx, m, tn, role):
    con = role.label
    o, w, x, g = V(ctx, 'order', con), V(ctx, 'once', con), V(ctx, 'mix', con), V(ctx, 'ring', con)
    keep = m.infer(tn)[0]
    I, ps = m.paths(role, keep)
    ctx.rep.paths += len(ps)
    ctx.rep.funcs |= {m.unit.rel + ':' + f for f in I.visited}
    spec = SPEC.get(con.rpartition('.')[0].rpartition('.')[2])
    alpha = ('fld', SELF, gain(m, tn), 0)
    seen = set()
    for p in ps:
        if p.kind != 'ret' or p.value is None or p.value[0] != 'h' or p.st.err == 'set':
            continue
        out = ('data', p.value)
        loops = [e for e in p.st.events if e.kind == 'loop' and any(wr.kind == 'write' and wr.loc[0] == 'at' for q in e.paths for wr in q.events[len(e.head.events):])]
        if len(loops) != 1:
            w.und('%d loops' % len(loops))
            continue
        lp = loops[0]
        if id(lp) in seen:
            continue
        seen.add(id(lp))
        for q in lp.paths:
            iteration(ctx, m, I, lp, q, out, alpha, spec, o, w, x, g, tn)
    if not seen:
        w.und('no loop')
    for y in (o, w, x, g):
        y.done('one iteration')
    fresh(ctx, m, tn)


def gain(m, tn):
    for nm, row in m.members.get(tn, []):
        if nm == 'alpha' and row.get('offset', ('', ''))[0] == 'offset':
            return row['offset'][1].rpartition(',')[2].strip(' )')
    return 'alpha'


def iteration(ctx, m, I, lp, q, out, alpha, spec, o, w, x, g, tn):
    evs = [e for e in q.events[len(lp.head.events):] if e.kind == 'write']
    if q.und:
        w.und(', '.join(q.und))
        return
    outs = [e for e in evs if e.loc[0] == 'at' and base(e.loc[1]) == out]
    ring = [e for e in evs if e.loc[0] == 'at' and base(e.loc[1]) != out]
    if len(outs) != 1:
        x.und('%d samples written' % len(outs))
        return
    if not ring:
        w.bad('the sample is not stored in the ring', lp.where)
        return
    if len(ring) > 1:
        w.bad('the sample is stored %d times' % len(ring), ring[-1].where)
        return
    st = ring[0]
    mem, idx = st.loc[1], st.loc[2]
    if idx[0] != 'phi':
        if any(t[0] == 'phi' for t in terms(idx)):
            g.bad('the sample is stored at %s, not at the position the iteration starts at' % cshow(idx), st.where)
        else:
            g.und('index %s' % cshow(idx))
        return
    K = outs[0].loc[2]
    stray = []

    def name(t):
        if t == alpha:
            return A
        if t[0] == 'ld':
            if t[1] == mem:
                if t[2] == idx:
                    return OLD
                stray.append(t)
                return t
            if t[2] == K and t[1][0] == 'data' and t[1] != out:
                return X
        return tuple(name(y) if isinstance(y, tuple) else y for y in t)
    y, s = name(outs[0].value), name(st.value)
    if stray:
        o.bad('the delayed sample is read at %s instead of the position the iteration starts at' % cshow(stray[0][2]), outs[0].where)
        return
    if spec:
        compare(x, 'the output', y, spec[0], outs[0].where)
        compare(x, 'the stored value', s, spec[1], st.where)
    loc = idx[2]
    after = q.mem.get(loc)
    if after is None or loc[0] not in ('mem', 'lv'):
        g.und('position')
        return
    nxt = op('+', idx, C(1))
    S = I.sys(q)
    L = ring_length(m, tn)
    t = after
    where = next((e.where for e in reversed(evs) if e.loc == loc), lp.where)
    if t == idx:
        g.bad('the position stays', where)
    elif t[0] == 'op' and t[1] == '%' and S.holds('==', t[2][0], nxt):
        if L is not None and t[2][1] != L:
            if S.excludes(t[2][1], L):
                g.bad('the position wraps at %s instead of the length' % cshow(t[2][1]), where)
            else:
                g.und('wraps at %s' % cshow(t[2][1]))
    elif L is not None and S.holds('==', t, nxt):
        if not S.holds('<', nxt, L):
            g.und('position without wrap')
    elif L is not None and t == C(0):
        if not S.holds('==', nxt, L):
            if S.excludes(nxt, L):
                g.bad('the position wraps although %s is not the length' % cshow(nxt), where)
            else:
                g.und('wrap')
    elif S.exact(t) and t[0] != 'op':
        g.bad('the position moves to %s' % cshow(t), where)
    else:
        g.und('position %s' % cshow(t))


def base(t):
    while t[0] == 'padd':
        t = t[1]
    return t


def terms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from terms(x)


def construction(m, tn):
    role = next((r for r in m.roles if r.tname == tn and r.kind == 'new'), None)
    if role is None:
        return
    I, ps = m.paths(role)
    for p in ps:
        if p.kind == 'ret' and p.value is not None and p.value[0] == 'h' and p.st.err == 'clear':
            yield I, p


def ring_length(m, tn):
    """Term of the field that holds the length given at construction."""
    found = None
    for I, p in construction(m, tn):
        v = next((e.value for e in p.st.events if e.kind == 'parsed' and e.name == 'length' and not e.failed), None)
        if v is None:
            return None
        hit = [l for l, t in p.st.mem.items() if l[0] == 'mem' and t == v]
        if len(hit) != 1:
            return None
        l = hit[0]
        if l[1] == p.value:
            cur = ('fld', SELF, l[2], 0)
        else:
            own = [k for k, t in p.st.mem.items() if k[0] == 'mem' and k[1] == p.value and t == l[1]]
            if len(own) != 1:
                return None
            cur = ('fld', ('fld', SELF, own[0][2], 0), l[2], 0)
        if found not in (None, cur):
            return None
        found = cur
    return found


def fresh(ctx, m, tn):
    """The memory of a new ring is cleared, the gain is stored."""
    v = V(ctx, 'silent', '%s' % tn)
    for I, p in construction(m, tn):
        mems = [(h, x) for h, x in p.st.res.items() if x['kind'] == 'mem' and h[0] == 'h']
        length = next((e.value for e in p.st.events if e.kind == 'parsed' and e.name == 'length' and not e.failed), None)
        if not mems:
            v.und('memory')
        for h, x in mems:
            if x.get('zero'):
                continue
            sets = [e for e in p.st.events if e.kind == 'memset' and occurs(h, e.dst)]
            if len(sets) == 1 and length is not None:
                e, S = sets[0], I.sys(p.st)
                if not is_const(e.byte):
                    v.und('byte')
                elif e.byte[2]:
                    v.bad('the memory of a new ring is set to %s' % e.byte[2], e.where)
                elif not S.holds('<=', op('*', length, C(8)), e.size):
                    if S.exact(e.size, length) and S.holds('<', e.size, op('*', length, C(8))):
                        v.bad('only %s bytes of a new ring are cleared' % cshow(e.size), e.where)
                    else:
                        v.und('size %s' % cshow(e.size))
            elif sets or any(e.kind in ('loop', 'copy') for e in p.st.events):
                v.und('memory cleared by hand')
            else:
                v.bad('the memory of a new ring is not cleared', m.unit.where(m.unit.funcs[next(r.func for r in m.roles if r.tname == tn and r.kind == 'new')]))
    v.done()
