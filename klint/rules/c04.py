"""C04: what reading a value end yields."""
from ..core import clause
from ..engine import NONE, State, show
from ..links import CON, INC, KINDS, OUTPUTS

EXPLAIN = ('Read-after-write dataflow: for both writing and both reading interfaces of value outputs, inputs and relays of unknown history, and every way '
           'the reader can be linked (not at all, to an output, to an unconnected relay, through one and two relays), the value read must be the very value last '
           'written to the end that feeds it, on every path, and writing must touch nothing but the written end.')
ASSUME = ['values are compared by value numbering: a copied or converted value counts as undecided, another end\'s value as wrong']
MINIMUM = 50

WRITE = {'set_value': '%s.set_value(%s)', 'value=': '%s.value = %s'}
READ = {'get_value': '%s.get_value()', 'value': '%s.value'}


def check(ctx):
    ctx.rep.rule('reads', 'the reader sees the last value written to the end of its chain of sources')
    ctx.rep.rule('quiet', 'writing a value changes only the written end, and reading does not unlink or change any end')
    ctx.rep.rule('own', 'an end keeps the value last set on it while it is linked, and shows it again when it is not')
    for wk, w in WRITE.items():
        for rk, r in READ.items():
            for name, chain in CHAINS.items():
                clause(ctx, 'reads', reads, wk, w, rk, r, name, chain)
    for k in ('Input', 'Output'):
        for rk, r in READ.items():
            clause(ctx, 'reads', initial, k, rk, r)
    for k in ('Input', 'Relay', 'Output'):
        for wk, w in WRITE.items():
            clause(ctx, 'quiet', quiet, k, wk, w)
    for wk, w in WRITE.items():
        for name, kinds in HISTORIES.items():
            clause(ctx, 'own', history, wk, w, name, kinds)


# reader first; each next end is the source of the one before; the last one is not linked any further
CHAINS = {
    'output': ['Output'],
    'free input': ['Input'],
    'free relay': ['Relay'],
    'output to input': ['Input', 'Output'],
    'output to relay': ['Relay', 'Output'],
    'free relay to input': ['Input', 'Relay'],
    'free relay to relay': ['Relay', 'Relay'],
    'output through relay': ['Input', 'Relay', 'Output'],
    'output through relays': ['Input', 'Relay', 'Relay', 'Output'],
    'relay through relay': ['Relay', 'Relay', 'Relay'],
}


HISTORIES = {
    'output and input': ('Output', 'Input'),
    'output and relay': ('Output', 'Relay'),
    'relay and input': ('Relay', 'Input'),
    'relay and relay': ('Relay', 'Relay'),
}


def history(ctx, wk, w, name, kinds):
    """Set, link, set both, read, unlink, read: new ends, so every value is known."""
    src, dst = kinds
    lines = ['src = %s()' % src, 'dst = %s()' % dst, w % ('dst', 'own'), w % ('src', 'first'), 'src.connect(dst)', 'r = []']
    want = []

    def read(end, value, when):
        for rk, r in READ.items():
            lines.append('r.append(%s)' % r % end)
            want.append((value, '%s of the %s %s' % (rk, 'source' if end == 'src' else 'reader', when)))

    read('dst', 'first', 'after linking')
    lines.append(w % ('src', 'second'))
    read('dst', 'second', 'after setting the source')
    lines.append('src.disconnect(dst)')
    read('dst', 'own', 'after unlinking')
    lines.append('src.connect(dst)')
    lines.append(w % ('dst', 'late'))
    read('dst', 'second', 'after setting the linked reader')
    read('src', 'second', 'after setting the linked reader')
    lines.append('dst.disconnect(src)' if dst == 'Input' else 'src.disconnect(dst)')
    lines.append(w % ('src', 'third'))
    read('dst', 'late', 'after unlinking')
    read('src', 'third', 'after unlinking')
    con = '%s, %s' % (wk, name)
    f = ctx.client('from klang.connections import Output, Input, Relay\n\n\ndef client(own, first, second, third, late):\n    %s\n    return r\n' % '\n    '.join(lines))
    I = ctx.interp(recursion=3)
    ps = ctx.run(I, f)
    for p in ps or ():
        got = I.contents(p.value, p.st) if p.normal else None
        if p.raises:
            ctx.rep.und('own', con, 'raises %s' % show(p.out[1]))
            return
        if got is None or len(got) != len(want):
            ctx.rep.und('own', con)
            return
        for g, (v, what) in zip(got, want):
            if g != ('sym', v):
                if g[0] == 'sym' or g[0] == 'const' or g[0] == 'op' and g[1] in ('or', 'and'):
                    names = {'own': 'the value it was given before', 'first': 'an earlier value of the source', 'second': 'the value of the source',
                             'third': 'the new value of the source', 'late': 'the value set on the reader'}
                    ctx.rep.bad('own', con, '%s is %s' % (what, names.get(g[1], show(g))), where_write(p, g))
                else:
                    ctx.rep.und('own', con, '%s is %s' % (what, show(g)))
                return
    if not ps:
        ctx.rep.und('own', con)
    else:
        ctx.rep.ok('own', con, '%d paths, %d readings' % (len(ps), len(want)))


def where_write(p, g):
    for e in reversed(p.events):
        if e.kind == 'write' and e.value == g and e.func is not None and not e.func.key.startswith('#client'):
            return e.where
    return where_events(p)


def setup(ctx, I, chain):
    st = State()
    objs = [ctx.obj(CON + k, 'end%d' % i) for i, k in enumerate(chain)]
    for i, k in enumerate(chain):
        if k != 'Output':
            st.set_heap((objs[i], INC), objs[i + 1] if i + 1 < len(chain) else NONE)
    return st, objs


def reads(ctx, wk, w, rk, r, name, chain):
    rep = ctx.rep
    con = '%s then %s, %s' % (wk, rk, name)
    I = ctx.interp(recursion=len(chain) + 1)
    st, objs = setup(ctx, I, chain)
    last = 'e%d' % (len(chain) - 1)
    names = ['e%d' % i for i in range(len(chain))]
    body = []
    if len(chain) > 1:
        body.append(w % ('e0', 'own'))     # the reader's own fallback must not show
    body += [w % (last, 'v'), r % 'e0', w % (last, 'w')]
    if len(chain) > 1:
        body.append(w % ('e0', 'own'))
    src = 'def client(%s, v, w, own):\n    %s\n    return %s\n' % (', '.join(names), '\n    '.join(body), r % 'e0')
    f = ctx.client(src)
    ps = ctx.run(I, f, params=dict(zip(names, objs)), st=st)
    if ps is None:
        rep.und('reads', con)
        return
    for p in ps:
        if p.raises:
            rep.bad('reads', con, 'raises %s' % show(p.out[1]), where_of(p))
            return
        v = p.value
        if v != ('sym', 'w'):
            opaque = v[0] in ('call', 'op', 'phi')
            fresh = v[0] == 'fld' and v[1] not in objs
            if opaque or fresh:
                rep.und('reads', con, 'reads %s' % show(v))
            else:
                what = {'v': 'an outdated value', 'own': 'the own value of the reader', 'w': ''}.get(v[1] if v[0] == 'sym' else '', show(v))
                rep.bad('reads', con, 'reads %s' % what, where_events(p))
            return
    rep.ok('reads', con, '%d paths' % len(ps))


def initial(ctx, k, rk, r):
    con = 'value given to %s(), %s' % (k, rk)
    f = ctx.client('from klang.connections import %s\n\n\ndef client(v):\n    e = %s(value=v)\n    return %s\n' % (k, k, r % 'e'))
    ps = ctx.run(ctx.interp(), f)
    for p in ps or ():
        if p.raises or p.value != ('sym', 'v'):
            if not p.raises and p.value[0] in ('call', 'op', 'phi', 'fld'):
                ctx.rep.und('reads', con, show(p.value))
            else:
                ctx.rep.bad('reads', con, 'raises' if p.raises else 'reads %s' % show(p.value), CON + k)
            return
    ctx.rep.ok('reads', con)


def where_of(p):
    g = p.out[3] if len(p.out) > 3 else None
    n = p.out[2] if len(p.out) > 2 else None
    return '%s:%s' % (g.key if g else '?', getattr(n, 'lineno', '?'))


def where_events(p):
    for e in reversed(p.events):
        if e.func is not None and not e.func.key.startswith('#client'):
            return e.where
    return 'klang/connections.py'


def quiet(ctx, k, wk, w):
    """Writing an end of unknown history writes only fields of that end, none of them a link."""
    rep = ctx.rep
    con = '%s of a linked %s' % (wk, k)
    I = ctx.interp()
    o = ctx.obj(CON + k, 'a')
    f = ctx.client('def client(a, v):\n    %s\n' % (w % ('a', 'v')))
    ps = ctx.run(I, f, params={'a': o})
    for p in ps or ():
        for e in p.events:
            if e.kind == 'write' and (e.base != o or e.attr == INC) and not (e.base[0] == 'obj' and isinstance(e.base[2], int)):
                rep.bad('quiet', con, 'changes %s.%s' % (show(e.base), e.attr), e.where)
                return
            if e.kind == 'call' and not e.inlined and e.fn[0] in ('fld', 'extm') and e.fn[-1 if e.fn[0] == 'extm' else 2] in ('set_value',):
                rep.bad('quiet', con, 'sets the value of %s' % show(e.fn[1]), e.where)
                return
            if e.kind in ('mut', 'loop'):
                rep.und('quiet', con, str(e))
                return
        if p.raises:
            rep.bad('quiet', con, 'raises %s' % show(p.out[1]), where_of(p))
            return
    if ps is None:
        rep.und('quiet', con)
    else:
        rep.ok('quiet', con)
