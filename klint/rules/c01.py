"""C01: both ends of every link agree, inputs have one source, refused calls change nothing."""
from ..core import clause
from ..engine import NONE, State, show
from .. import links
from ..links import CON, INC, OUT, KINDS, OUTPUTS, INPUTS, RELAYS, compatible, orient

EXPLAIN = ('Link typestate: connect and disconnect of the nine connectable kinds are followed path by path for all 81 argument kinds and every '
           'path must leave both ends of the link in agreement (or, when it raises, unchanged); every other function of the package that '
           'changes a link field is held to the same rule, where a helper may rely on its callers to complete it.')
ASSUME = ['attribute access has no hooks beyond the properties found in the sources',
          'the two ends of a call are different objects unless they are compared by the code']
MINIMUM = 150


def check(ctx):
    ctx.rep.rule('pair', 'connect / disconnect of two kinds leaves both ends in agreement; a refused call leaves them as they were')
    ctx.rep.rule('does', 'a permitted connect of a free input links both ends; a permitted disconnect of a linked pair unlinks both')
    ctx.rep.rule('taken', 'connecting an input that has a source is refused')
    ctx.rep.rule('writer', 'any function that changes a link field keeps both ends in agreement')
    ctx.rep.rule('asks', 'connected / is_connected report the fields they stand for')
    ctx.rep.rule('ctor', 'a new connectable has no links')
    clause(ctx, 'pair', pairs)
    clause(ctx, 'writer', scan_writers)
    clause(ctx, 'asks', queries)
    clause(ctx, 'ctor', ctors)


def pairs(ctx):
    for x in KINDS:
        for y in KINDS:
            for op in ('connect', 'disconnect'):
                clause(ctx, 'pair', pair, x, y, op)


def pair(ctx, x, y, op):
    rep = ctx.rep
    con = '%s.%s(%s)' % (x, op, y)
    m = ctx.method(CON + x, op)
    if m is None:
        rep.bad('pair', con, '%s has no %s method' % (x, op), CON + x)
        return
    f, c = m
    I = ctx.interp()
    a, b = ('obj', ctx.prog.cls(CON + x).key, 'a'), ('obj', ctx.prog.cls(CON + y).key, 'b')
    ps = ctx.run(I, f, args=[a, b], cls=c)
    if ps is None:
        rep.und('pair', con)
        return
    i, j = orient(x, y)
    src, dst = (a, b)[i], (a, b)[j]
    ok = compatible((x, y)[i], (x, y)[j])
    worst = ('ok', '', None)
    done = 0
    for p in ps:
        v = links.all_balanced(p)
        if v[0] == 'bad':
            rep.bad('pair', con, v[1], v[2].where if v[2] else f.where, trace_of(p))
            return
        if v[0] == 'und':
            worst = v
        if p.raises or not ok:
            continue
        e = links.effects(p.events, p.st)
        net = links.net_sets(e)
        if op == 'connect':
            if e.inc.get(dst, (0, 0))[1] == src and net.get(src, {}).get(dst, 0) > 0:
                done += 1
                continue
            # returning quietly without linking is fine only if they were linked already
            old = I.obj_attr(dst, ctx.prog.classes[dst[1]], INC, p.st, None, None)[0][1] if not e.inc else None
            if old is not None and any(val and k[0] == 'eq' and set(k[1:]) == {src, old} for k, val in p.facts.items()):
                continue
            if worst[0] != 'und' and not has_opaque(p):
                rep.bad('does', con, 'returns without linking %s to %s' % (show(src), show(dst)), f.where, trace_of(p))
                return
        else:
            if e.inc.get(dst, (0, 0))[1] == NONE and net.get(src, {}).get(dst, 0) < 0:
                done += 1
                continue
            if not e.inc and not e.sets and not_linked(p, src, dst):
                continue
            if worst[0] != 'und' and not has_opaque(p):
                rep.bad('does', con, 'returns without unlinking %s from %s' % (show(src), show(dst)), f.where, trace_of(p))
                return
    if worst[0] == 'und':
        rep.und('pair', con, worst[1], worst[2].where)
    else:
        rep.ok('pair', con, '%d paths' % len(ps), f.where)
    if ok:
        if done:
            rep.ok('does', con, '', f.where)
        elif any(has_opaque(p) for p in ps):
            rep.und('does', con)
        else:
            rep.bad('does', con, 'no path %ss the two ends' % op, f.where)


def not_linked(p, src, dst):
    for k, v in p.facts.items():
        if k[0] == 'in' and k[1] == dst and v is False and links.owner_of(k[2], p.st) == src:
            return True
        if k[0] == 'eq' and v is False and src in k[1:] and any(t[0] == 'fld' and t[1] == dst and t[2] == INC for t in k[1:]):
            return True
        if k[0] == 'eq' and v and k[1] == NONE and k[2][0] == 'fld' and k[2][1] == dst and k[2][2] == INC:
            return True
    return False


def has_opaque(p):
    """A call of something unknown that was given one of the ends."""
    for e in p.events:
        if e.kind == 'call' and not e.inlined and e.fn[0] in ('func', 'fld', 'extm', 'glob', 'sym', 'call', 'idx', 'phi'):
            base = e.fn[1] if e.fn[0] in ('extm', 'fld') else None
            if base is not None and base[0] in ('const', 'super'):
                continue
            if any(x[0] == 'obj' for x in list(e.args) + ([base] if isinstance(base, tuple) else []) if isinstance(x, tuple)):
                return True
    return False


def trace_of(p):
    return [str(e) for e in p.events if e.kind in ('write', 'mut', 'assume', 'raise', 'mutfail')][-12:]


def scan_writers(ctx):
    rep = ctx.rep
    ws = links.writers(ctx.prog)
    seen = {}

    def judge(f, depth):
        if f.key in seen:
            return seen[f.key]
        seen[f.key] = ('ok', '', None)
        I = ctx.interp()
        ps = ctx.run(I, f)
        if ps is None:
            r = ('und', 'too many paths', None)
        else:
            r = ('ok', '', None)
            for p in ps:
                v = links.all_balanced(p)
                if v[0] == 'bad':
                    r = v
                    break
                if v[0] == 'und':
                    r = v
        if r[0] == 'bad' and depth < 4 and f.name not in ('connect', 'disconnect', 'make_connection', 'break_connection'):
            cs = links.callers(ctx.prog, f)
            if cs and all(judge(g, depth + 1)[0] != 'bad' for g in cs):
                r = ('ok', 'completed by its callers', None)
        seen[f.key] = r
        return r
    for f in ws:
        v = judge(f, 0)
        if v[0] == 'bad':
            rep.bad('writer', f.key, v[1], v[2].where if v[2] else f.where)
        elif v[0] == 'und':
            rep.und('writer', f.key, v[1])
        else:
            rep.ok('writer', f.key, v[1], f.where)
    if not ws:
        rep.und('writer', 'klang', 'no function changes a link field directly')


def queries(ctx):
    rep = ctx.rep
    for k in KINDS:
        key = ctx.prog.cls(CON + k).key
        c = ctx.prog.classes[key]
        r = ctx.prog.find_member(c, 'connected')
        if not r:
            rep.bad('asks', k + '.connected', '%s has no attribute connected' % k)
            continue
        I = ctx.interp()
        if r[1][-1][0] != 'func':
            rep.und('asks', k + '.connected')
            continue
        f = r[1][-1][1]
        o = ('obj', key, 'a')
        ps = ctx.run(I, f, args=[o], cls=r[0])
        if ps is None:
            rep.und('asks', k + '.connected')
            continue
        fldname = OUT if k in OUTPUTS else INC
        v = worst_query(ctx, I, ps, o, fldname)
        if v[0] == 'bad':
            rep.bad('asks', k + '.connected', v[1], f.where)
        elif v[0] == 'und':
            rep.und('asks', k + '.connected', v[1], f.where)
        else:
            rep.ok('asks', k + '.connected', '', f.where)


def worst_query(ctx, I, ps, o, fldname):
    """Does the result equal 'the field is set / not empty'?"""
    worst = ('ok', '')
    for p in ps:
        if p.raises:
            return 'bad', 'raises'
        st = p.st
        for s, truth in I.truth(p.value, st, frame(ctx), None):
            if not isinstance(truth, bool):
                return 'und', ''
            fv = s.heap.get((o, fldname))
            val = None
            for k, v in s.facts.items():
                if fldname == INC and k[0] == 'eq' and k[1] == NONE and is_field(k[2], o, fldname, fv):
                    val = not v
                if k[0] == 'truthy' and is_field(k[1], o, fldname, fv):
                    val = v
            if val is None:
                mine = [k for k in s.facts if any(is_sub(t, o) for t in k[1:] if isinstance(t, tuple))]
                if not mine and p.value[0] != 'call':
                    return 'bad', 'the result %s does not depend on %s' % (show(p.value), fldname)
                if mine and all(not any(is_field(t, o, fldname, fv) for t in k[1:] if isinstance(t, tuple)) for k in mine):
                    return 'bad', 'the result depends on something else than %s' % fldname
                worst = ('und', 'result %s' % show(p.value))
            elif val != truth:
                return 'bad', 'says %s when %s is %s' % (truth, fldname, 'set' if val else 'not set')
    return worst


def is_sub(t, o):
    return t == o or (isinstance(t, tuple) and any(is_sub(x, o) for x in t if isinstance(x, tuple)))


def is_field(t, o, name, v):
    return (v is not None and t == v) or (t[0] == 'fld' and t[1] == o and t[2] == name)


def frame(ctx):
    from ..engine import Frame
    return Frame(None, 0, None, None, 0, (), ctx.prog.mods['klang.connections'])


def ctors(ctx):
    rep = ctx.rep
    for k in KINDS:
        c = ctx.prog.cls(CON + k)
        I = ctx.interp()
        r = ctx.prog.find_member(c, '__init__')
        if not r or r[1][-1][0] != 'func':
            rep.und('ctor', k)
            continue
        o = ('obj', c.key, 1)
        I.n = 10
        ps = ctx.run(I, r[1][-1][1], selfv=o, cls=r[0])
        if ps is None:
            rep.und('ctor', k)
            continue
        bad = None
        for p in ps:
            if p.raises:
                continue
            inc, out = p.st.heap.get((o, INC)), p.st.heap.get((o, OUT))
            if k in INPUTS + RELAYS and inc != NONE:
                bad = 'starts with source %s' % (show(inc) if inc else 'unset')
            if k in OUTPUTS + RELAYS:
                if out is None:
                    bad = 'starts without a set of destinations'
                elif out[0] == 'cont':
                    items = I.contents(out, p.st)
                    if items:
                        bad = 'starts with destinations'
                    if not isinstance(out[2], int) or out in I.gstate.conts:
                        bad = 'shares its set of destinations'
        if bad:
            rep.bad('ctor', k, bad, r[1][-1][1].where)
        else:
            rep.ok('ctor', k)
