"""C02: exactly the compatible pairs can be linked."""
from ..core import clause
from ..engine import show
from .. import links
from ..links import CON, KINDS, compatible, orient

EXPLAIN = ('Exhaustive over the 81 ordered pairs of connectable kinds and the two operations: every path of an incompatible pair must raise the '
           'incompatible-connection error before any link field is written, and a compatible pair must have a path that succeeds and no path '
           'that raises that error.  The pipe operator is followed for blocks and ends on either side.')
ASSUME = ['the nine kinds are used themselves, not through further subclasses outside the library']
MINIMUM = 162


def check(ctx):
    ctx.rep.rule('refused', 'an incompatible pair raises IncompatibleConnection and nothing else, before anything is linked')
    ctx.rep.rule('allowed', 'a compatible pair is never refused as incompatible and can succeed')
    ctx.rep.rule('pipe', 'the pipe operator links left output to right input, or raises TypeError / the incompatible-connection error')
    for x in KINDS:
        for y in KINDS:
            for op in ('connect', 'disconnect'):
                clause(ctx, 'refused', pair, x, y, op)
    clause(ctx, 'free', free)


def is_incompatible(p, ctx):
    e = p.out[1]
    if e[0] != 'exc' or e[1][0] != 'class':
        return None if e[0] not in ('exc',) else False
    want = ctx.prog.cls(CON + 'IncompatibleConnection')
    return ctx.prog.is_subclass(ctx.prog.classes[e[1][1]], want)


def pair(ctx, x, y, op):
    con = '%s.%s(%s)' % (x, op, y)
    m = ctx.method(CON + x, op)
    if m is None:
        ctx.rep.bad('refused', con, '%s has no %s method' % (x, op), CON + x)
        return
    f, c = m
    i, j = orient(x, y)
    a, b = ('obj', ctx.prog.cls(CON + x).key, 'a'), ('obj', ctx.prog.cls(CON + y).key, 'b')
    judge(ctx, con, f, c, [a, b], compatible((x, y)[i], (x, y)[j]))


def judge(ctx, con, f, c, args, ok):
    rep = ctx.rep
    I = ctx.interp()
    ps = ctx.run(I, f, args=args, cls=c)
    rule = 'allowed' if ok else 'refused'
    if ps is None:
        rep.und(rule, con)
        return
    unsure = False
    good = 0
    for p in ps:
        if ok:
            if p.raises:
                if is_incompatible(p, ctx):
                    rep.bad(rule, con, 'refused as incompatible', where_of(p, f))
                    return
            else:
                good += 1
        else:
            if not p.raises:
                from .c01 import has_opaque
                if has_opaque(p):
                    unsure = True
                    continue
                rep.bad(rule, con, 'returns normally', f.where, [str(e) for e in p.events][-10:])
                return
            r = is_incompatible(p, ctx)
            if r is None:
                unsure = True
            elif not r:
                rep.bad(rule, con, 'raises %s instead' % show(p.out[1]), where_of(p, f))
                return
            e = links.effects(p.events, p.st)
            if e.inc or e.sets:
                rep.bad(rule, con, 'changes a link before it refuses', where_of(p, f))
                return
    if ok and not good:
        rep.bad(rule, con, 'no path succeeds', f.where)
    elif unsure:
        rep.und(rule, con)
    else:
        rep.ok(rule, con, '%d paths' % len(ps), f.where)


def where_of(p, f):
    n = p.out[2] if len(p.out) > 2 else None
    g = p.out[3] if len(p.out) > 3 and p.out[3] is not None else f
    return '%s:%d (%s)' % (g.mod.rel, getattr(n, 'lineno', 0), g.key)


def free(ctx):
    """The module level functions, which take source and destination in this order, when they are there."""
    for name in ('make_connection', 'break_connection'):
        f = ctx.optional(CON + name)
        if f is None:
            continue
        for x in KINDS:
            for y in KINDS:
                a, b = ('obj', ctx.prog.cls(CON + x).key, 'a'), ('obj', ctx.prog.cls(CON + y).key, 'b')
                clause(ctx, name, judge, '%s(%s, %s)' % (name, x, y), f, None, [a, b], compatible(x, y))
    f = ctx.optional('klang.block.pipe_operator')
    if f is None:
        return
    for x in KINDS:
        for y in KINDS:
            clause(ctx, 'pipe', pipe, f, x, y)


def pipe(ctx, f, x, y):
    rep = ctx.rep
    con = '%s | %s' % (x, y)
    I = ctx.interp()
    a, b = ('obj', ctx.prog.cls(CON + x).key, 'a'), ('obj', ctx.prog.cls(CON + y).key, 'b')
    ps = ctx.run(I, f, args=[a, b])
    if ps is None:
        rep.und('pipe', con)
        return
    ok = compatible(x, y)
    good = 0
    for p in ps:
        if p.raises:
            if is_incompatible(p, ctx) and ok:
                rep.bad('pipe', con, 'refused as incompatible', where_of(p, f))
                return
            continue
        good += 1
        e = links.effects(p.events, p.st)
        if not ok:
            rep.bad('pipe', con, 'returns normally', f.where)
            return
        if e.inc.get(b, (0, 0))[1] != a:
            rep.bad('pipe', con, 'does not link the left output to the right input', f.where)
            return
    if ok and not good:
        rep.bad('pipe', con, 'no path succeeds', f.where)
    else:
        rep.ok('pipe', con, '%d paths' % len(ps), f.where)
