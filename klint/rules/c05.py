"""C05: the execution order is complete, duplicate free and producer first."""
from ..core import V, clause
from ..engine import C, NONE, is_const, show
from ..links import INC, OUT
from ..walk import flat, leaves, partial, src_of, subterm

EXPLAIN = ('Worklist typestate: each loop that pops from a worklist must run until it is empty, take each element once, and put back every neighbour of '
           'the required kinds. Collecting the network: a block not seen before is recorded once, all owners on the other side of its outgoing and '
           'incoming links are put on the worklist, and edges run from the feeding to the fed block. Ordering: a node is only appended when '
           'all its predecessors in the loop-free graph are in the order, its successors are put back, and all nodes are seeded. '
           'Feedback links: depth first search with three colours records exactly edges to nodes still open. No graph that is passed in is written to.')
ASSUME = ['numpy: a[i].nonzero()[-1] are the column indices of the non-zero entries of row i, a.T is the transpose']
MINIMUM = 5


def check(ctx):
    r = ctx.rep
    r.rule('collect', 'the network walk records each reachable block once and every link with its direction')
    r.rule('translate', 'blocks and node numbers correspond one to one and no block is left out')
    r.rule('ready', 'a node is put into the order once, after all its predecessors')
    r.rule('progress', 'the ordering is seeded with all nodes and takes up the successors of every node it has placed')
    r.rule('feedback', 'exactly the edges to open nodes of the depth first search count as feedback and are removed')
    r.rule('pure', 'identifying feedback links does not change the graph it looks at')
    r.rule('matrix', 'the graph matrix has source rows and destination columns')
    clause(ctx, 'collect', collect)
    clause(ctx, 'translate', translate)
    clause(ctx, 'ready', sorting)
    clause(ctx, 'feedback', feedback)
    clause(ctx, 'feedback', removal)
    clause(ctx, 'pure', pure)
    clause(ctx, 'matrix', matrix)


POPS = ('pop', 'popleft')


def worklists(p):
    """Top level while loops in which elements are popped from a container: (loop event, container)."""
    for e in p.events:
        if e.kind == 'loop' and not e.isfor and e.exhausted:
            qs = {x.base for q in e.paths for x in q.events if x.kind == 'mut' and x.op in POPS}
            if len(qs) == 1:
                yield e, qs.pop()


def neighbour(t, x, st):
    """'succ' / 'pred' if t is a block on the other end of a link of x."""
    if t[0] == 'fld' and t[2] == 'owner':
        e = t[1]
        if e[0] == 'elem':
            s = src_of(e[1], st)
            if s[0] == 'fld' and s[2] == OUT and s[1][0] == 'elem':
                o = src_of(s[1][1], st)
                if o == ('fld', x, 'outputs', 0):
                    return 'succ'
        if e[0] == 'fld' and e[2] == INC and e[1][0] == 'elem' and src_of(e[1][1], st) == ('fld', x, 'inputs', 0):
            return 'pred'
    return None


def collect(ctx):
    f = ctx.optional('klang.execution.traverse_network')
    v = V(ctx, 'collect', 'traverse_network')
    if f is None:
        v.und('no traverse_network')
        return v.done()
    I = ctx.interp()
    b = ('sym', 'blocks')
    ps = ctx.run(I, f, args=[b])
    for p in ps or []:
        if p.raises:
            continue
        if p.value[0] != 'tuple' or len(p.value[1]) != 2:
            v.und('result not understood')
            continue
        vert, edges = p.value[1]
        wl = list(worklists(p))
        if len(wl) != 1:
            v.und('%d worklist loops' % len(wl))
            continue
        loop, q = wl[0]
        if src_of(q, p.st) != b:
            if partial(q, p.st):
                v.bad('the worklist starts with a part of the starting blocks only', loop)
            else:
                v.und('the worklist does not start with the starting blocks')
            continue
        if partial(q, p.st):
            v.bad('the worklist starts with a part of the starting blocks only', loop)
        kinds, ekinds = set(), set()
        fresh = False
        for it in loop.paths:
            if it.raises:
                continue
            if it.out is not None and it.out[0] in ('brk', 'ret'):
                v.bad('the walk stops before the worklist is empty', loop)
                continue
            pops = [e for e in it.events if e.kind == 'mut' and e.op in POPS and e.base == q]
            if len(pops) != 1:
                v.und('pops')
                continue
            x = pops[0].result
            seen = [val for k, val in it.facts.items() if k[0] == 'in' and k[1] == x]
            adds = [i.ev for i in flat(it) if i.ev.kind == 'mut' and i.ev.op in ('append', 'add') and i.ev.base == vert]
            if not adds and (src_of(vert, p.st) != vert or any(e.kind == 'setitem' and e.key == x for e in it.events)):
                v.und('recorded in another way')
                continue
            if not seen:
                if adds:
                    v.und('no membership question')
                continue
            if seen[0]:
                if adds:
                    v.bad('a block that was seen before is recorded again', adds[0])
                continue
            fresh = True
            for k, val in it.facts.items():
                if k[0] == 'in' and k[1] == x and val is False:
                    for i in flat(it):
                        e = i.ev
                        if e.kind == 'mut' and e.base == k[2] and e.op in ('append', 'add') and e.args and e.args[0] != x and neighbour(e.args[0], x, i.path.st):
                            v.bad('a block counts as seen before it is recorded', e)
            if len(adds) != 1 or adds[0].args[0] != x:
                if not adds:
                    v.bad('a block is not recorded', pops[0])
                elif any(e.args[0] != x for e in adds):
                    v.bad('records something else than the block taken from the worklist', adds[0])
                else:
                    v.bad('a block is recorded twice', adds[-1])
                continue
            for i in flat(it):
                e = i.ev
                if e.kind == 'mut' and e.base == q and e.op in ('append', 'appendleft', 'add') and e.args:
                    k = neighbour(e.args[0], x, p.st) or neighbour(e.args[0], x, i.path.st)
                    if k is None:
                        v.und('puts %s on the worklist' % show(e.args[0]))
                    else:
                        kinds.add(k)
                        for lv, q2 in i.loops:
                            if partial(lv.iter, q2.st):
                                v.bad('only a part of the links is followed', lv)
                elif e.kind == 'mut' and e.base == q and e.op in ('extend', 'extendleft', 'update'):
                    v.und('extends the worklist')
                    kinds |= {'succ', 'pred'}
                elif e.kind == 'mut' and e.base == edges and e.op in ('add', 'append') and e.args and e.args[0][0] == 'tuple':
                    s, d = e.args[0][1]
                    ks, kd = neighbour(s, x, i.path.st), neighbour(d, x, i.path.st)
                    if s == x and kd == 'succ' or d == x and ks == 'pred':
                        ekinds.add('ok')
                    elif s == x and kd == 'pred' or d == x and ks == 'succ':
                        v.bad('an edge is recorded against the direction of the link', e)
                    else:
                        v.und('edge %s' % show(e.args[0]))
            # iterations of the neighbour loops without effect
            for loops, q2 in leaves(it):
                lv = loops[-1][0]
                if not any(any(e.kind == 'mut' and e.base == q for e in z.events) for z in lv.paths):
                    continue
                if q2.raises or any(e.kind == 'mut' and e.base == q for e in q2.events) or any(e.kind == 'loop' for e in q2.events):
                    continue
                if q2.out is not None and q2.out[0] in ('brk', 'ret'):
                    v.bad('stops before the last neighbour', lv)
                    continue
                why = reason(q2, x, it.facts)
                if why == 'bad':
                    v.bad('some neighbours are not followed', lv)
                elif why == 'und':
                    v.und('a neighbour is skipped')
        if fresh and kinds != {'succ', 'pred'}:
            if kinds:
                v.bad('the links to %s are not followed' % ('feeding blocks' if 'pred' not in kinds else 'fed blocks'), loop)
            else:
                v.und('neighbours')
        elif not fresh:
            v.und('no iteration records a block')
        if fresh and not ekinds:
            v.und('edges')
    if not ps:
        v.und()
    v.done()


def reason(q, x, known):
    """May this neighbour be skipped?"""
    new = {e.key: e.val for e in q.events if e.kind == 'assume' and known.get(e.key) is not e.val}
    for k, val in new.items():
        if k[0] == 'truthy' and k[1][0] == 'fld' and k[1][2] in ('owner', 'connected', INC) and val is False:
            return 'ok'
        if k[0] == 'truthy' and k[1][0] == 'fld' and k[1][2] in (OUT, 'inputs', 'outputs') and val is False and not behind(k[1]):
            return 'ok'
        if k[0] == 'eq' and val and x in k[1:] and any(t[0] == 'fld' and t[2] == 'owner' for t in k[1:]):
            return 'ok'
        if k[0] == 'eq' and val and NONE in k[1:] and any(t[0] == 'fld' and t[2] in ('owner', INC) for t in k[1:]):
            return 'ok'
        if k[0] == 'in' and val and (k[1][0] == 'fld' or k[1] != x):
            return 'ok'
        if k[0] == 'eq' and val and any(t[0] == 'fld' and t[2] == INC for t in k[1:]):
            return 'ok'
    if any(k[0] == 'isinst' for k in q.facts):
        return 'bad'
    if any(k[0] in ('truthy', 'eq', 'lt') and any(behind(t) for t in k[1:]) for k in new):
        return 'bad'
    return 'und'


def behind(t):
    """Something of a block on the other end of a link (the block itself not counted)."""
    while isinstance(t, tuple) and t and t[0] in ('fld', 'call', 'idx'):
        u = t[2][0] if t[0] == 'call' and t[1] == 'builtins.len' and t[2] else t[1][1] if t[0] == 'call' and t[1][0] == 'extm' else t[1]
        if isinstance(u, tuple) and u[:1] == ('fld',) and u[2] == 'owner':
            return True
        t = u
    return False


# ---------------------------------------------------------------------- blocks <-> indices
def mapping(t, st, vert):
    """'b2i' / 'i2b' for dict(zip(...)) of the vertices and their numbers."""
    d = st.heap.get((t, '#from'))
    if d is None:
        return None
    if d[0] == 'call' and d[1] == 'builtins.zip' and len(d[2]) == 2:
        a, b = (src_of(x, st) for x in d[2])
        if a == vert and is_range(b, vert):
            return 'b2i'
        if b == vert and is_range(a, vert):
            return 'i2b'
    if d[0] == 'call' and d[1] == 'builtins.enumerate' and src_of(d[2][0], st) == vert and (len(d[2]) == 1 or d[2][1] == C(0)):
        return 'i2b'
    return None


def is_range(t, vert):
    return t[0] == 'call' and t[1] == 'builtins.range' and (len(t[2]) == 1 or t[2][0] == C(0)) and is_len(t[2][-1], vert) or (
        t[0] == 'call' and t[1] == 'itertools.count' and (not t[2] or t[2][0] == C(0)))


def is_len(t, vert):
    return t[0] == 'call' and t[1] == 'builtins.len' and t[2] and t[2][0] == vert


def number_fits(facts, vert, n):
    """Do the facts about the number of blocks hold for n blocks? None: not known."""
    for k, val in facts.items():
        if not any(is_len(t, vert) for t in k[1:] if isinstance(t, tuple)):
            continue
        xs = [n if is_len(t, vert) else t[2] if is_const(t) and isinstance(t[2], (int, float)) else None for t in k[1:3] if isinstance(t, tuple)]
        if k[0] not in ('lt', 'eq') or len(xs) != 2 or None in xs:
            return None
        if (xs[0] < xs[1] if k[0] == 'lt' else xs[0] == xs[1]) != val:
            return False
    return True


def translate(ctx):
    prog = ctx.prog
    v = V(ctx, 'translate', 'determine_execution_order')
    f = ctx.optional('klang.execution.determine_execution_order')
    tr = ctx.optional('klang.execution.traverse_network')
    gm = ctx.optional('klang.graph.graph_matrix')
    ts = ctx.optional('klang.graph.topological_sorting')
    if None in (f, tr, gm, ts):
        v.und('structure')
        return v.done()
    I = ctx.interp(opaque={tr.key, gm.key, ts.key})
    b = ('sym', 'blocks')
    ps = ctx.run(I, f, args=[b])
    for p in ps or []:
        if p.raises:
            v.und('raises')
            continue
        calls = {k.key: [e for e in p.events if e.kind == 'call' and not e.inlined and e.fn[0] == 'func' and e.fn[1] == k.key] for k in (tr, gm, ts)}
        if len(calls[tr.key]) != 1:
            v.und('walk')
            continue
        c = calls[tr.key][0]
        if partial(c.args[0], p.st):
            v.bad('only a part of the starting blocks is used', c)
        elif src_of(c.args[0], p.st) != b:
            v.und('starting blocks')
        vert, edges = ('idx', c.result, C(0), 0), ('idx', c.result, C(1), 0)
        if not calls[ts.key]:
            # no ordering needed: only right without links
            noedge = any(k[0] == 'truthy' and src_of(k[1], p.st) == edges and val is False or (
                k[0] == 'eq' and C(0) in k[1:] and any(is_len(t, edges) for t in k[1:]) and val) for k, val in p.facts.items())
            if src_of(p.value, p.st) == vert and not partial(p.value, p.st):
                if not noedge:
                    few = any(any(is_len(t, vert) for t in k[1:] if isinstance(t, tuple)) for k in p.facts)
                    two = number_fits(p.facts, vert, 2)
                    if few and two is None:
                        v.und('short cut')
                    elif few and two:
                        v.bad('two blocks that are linked are returned unordered', c)
                    elif few:
                        pass        # one block has no other that feeds it
                    else:
                        v.bad('the blocks are returned unordered although there are links', c)
            elif src_of(p.value, p.st) == b and not any(i.ev.kind == 'mut' and i.ev.base == p.value for i in flat(p)) and noedge:
                v.bad('the starting blocks are returned as they are: a block that is given twice stays twice', c)
            else:
                v.und('result without ordering')
            continue
        if len(calls[ts.key]) != 1 or len(calls[gm.key]) != 1:
            v.und('calls')
            continue
        g, t = calls[gm.key][0], calls[ts.key][0]
        if t.args[0] == ('fld', g.result, 'T', 0) or t.args[0][0] == 'fld' and t.args[0][1:3] == (g.result, 'T'):
            v.bad('links are turned round', t)
            continue
        if t.args[0] != g.result:
            v.und('another graph is sorted')
            continue
        kw = dict(g.kwargs)
        order = kw.get('order', g.args[2] if len(g.args) > 2 else None)
        if order is None:
            v.bad('the graph is sized by its links, not by its blocks', g)
        elif not is_len(order, vert):
            if is_len(order, b) or order[0] == 'call' and order[1] == 'builtins.len' and order[2] and src_of(order[2][0], p.st) == b:
                v.bad('the graph is sized by the starting blocks, not by all blocks', g)
            else:
                v.und('size of the graph')
        dire = kw.get('directed', g.args[1] if len(g.args) > 1 else None)
        if dire is not None and dire == ('const', 'bool', False):
            v.bad('the direction of the links is dropped', g)
        # edges
        ints = kw.get('edges', g.args[0] if g.args else None)
        elts = compelts(p, ints)
        if elts is None:
            v.und('edge list')
        else:
            for lv, q, val in elts:
                if src_of(lv.iter, p.st) != edges:
                    v.und('edge source')
                    continue
                if partial(lv.iter, p.st):
                    v.bad('only a part of the links is used', lv)
                if val is None:
                    v.und('an edge is skipped')
                    continue
                if val[0] != 'tuple' or len(val[1]) != 2:
                    v.und('edge')
                    continue
                roles = []
                for i, part in enumerate(val[1]):
                    if part[0] == 'idx' and mapping(part[1], p.st, vert) == 'b2i':
                        roles.append(role_of(part[2], lv))
                    elif part[0] == 'call' and part[1][0] == 'extm' and part[1][2] == 'index' and part[1][1] == vert and len(part[2]) == 1:
                        roles.append(role_of(part[2][0], lv))
                    else:
                        roles.append(None)
                if roles == [1, 0]:
                    v.bad('links are turned round', lv)
                elif roles != [0, 1]:
                    v.und('edge')
        # back to blocks
        elts = compelts(p, p.value)
        if elts is None:
            v.und('result list')
            continue
        for lv, q, val in elts:
            base, flip = unwrap(lv.iter, p.st)
            if base != t.result:
                v.und('result order')
                continue
            if partial(lv.iter, p.st):
                v.bad('a part of the order is dropped', lv)
            elif flip:
                v.bad('the order is turned round', lv)
            elif flip is None:
                v.und('result order')
                continue
            if val is None:
                new = [k for k in q.facts if p.facts.get(k) is not q.facts[k]]
                if any(k[0] in ('truthy', 'eq', 'lt') and any(of_block(t, lv, p, vert) for t in k[1:]) for k in new):
                    v.bad('a block of the order is left out', lv)
                elif q.facts and not any(k[0] == 'isinst' for k in q.facts):
                    v.und('filter')
                else:
                    v.bad('a block of the order is left out', lv)
                continue
            if val[0] == 'idx' and val[2] == lv.elem and (mapping(val[1], p.st, vert) == 'i2b' or src_of(val[1], p.st) == vert):
                continue
            v.und('result element %s' % show(val))
    if not ps:
        v.und()
    v.done('%d paths' % len(ps or ()))


def of_block(t, lv, p, vert):
    """A field of the block a node of the order stands for."""
    while isinstance(t, tuple) and t and t[0] == 'fld':
        t = t[1]
        if t[0] == 'idx' and t[2] == lv.elem and (mapping(t[1], p.st, vert) == 'i2b' or src_of(t[1], p.st) == vert):
            return True
    return False


def unwrap(it, st):
    """(what is iterated, turned round?) below snapshots, slices and reversed(); None: changed in another way."""
    flip = False
    for _ in range(20):
        if it[0] == 'call' and it[1] in ('builtins.sorted', 'builtins.set'):
            flip = None
        it = src_of(it, st)
        if it[0] == 'cont' and it[1] in ('set', 'frozenset'):
            flip = None
        if it[0] == 'idx' and it[2][0] == 'op' and it[2][1] == 'slice':
            step = it[2][2][2]
            if step not in (NONE, C(1)):
                flip = not flip if step == C(-1) and flip is not None else None
            it = it[1]
        elif it[0] == 'call' and it[1] == 'builtins.reversed' and it[2]:
            flip = not flip if flip is not None else None
            it = it[2][0]
        else:
            break
    return it, flip


def role_of(t, lv):
    if lv.elem[0] == 'tuple' and t in lv.elem[1]:
        return lv.elem[1].index(t)
    if t[0] == 'idx' and t[1] == lv.elem and is_const(t[2]):
        return t[2][2]
    return None


def compelts(p, lst):
    """[(loop, iteration path, value or None)] for a list built in one loop."""
    lst = src_of(lst, p.st) if lst is not None else None
    out = []
    for i in flat(p):
        e = i.ev
        if e.kind == 'loop' and e.exhausted:
            vals = []
            for q in e.paths:
                got = [x.value for x in q.events if x.kind == 'compelt' and x.comp == lst] + [
                    x.args[0] for x in q.events if x.kind == 'mut' and x.base == lst and x.op in ('append',) and x.args]
                vals.append((e, q, got[0] if len(got) == 1 else None))
            if any(x[2] is not None for x in vals):
                out.extend(vals)
    return out or None


# ---------------------------------------------------------------------- graph functions
def direction(t, node):
    """('succ' | 'pred', graph) for the indices of the non-zero entries of a row or column."""
    if t[0] == 'idx' and t[1][0] == 'call' and t[1][1][0] == 'extm' and t[1][1][2] == 'nonzero' and t[2] in (C(-1), C(0)):
        row = t[1][1][1]
    elif t[0] == 'idx' and t[1][0] == 'call' and t[1][1] in ('numpy.nonzero', 'numpy.where') and len(t[1][2]) == 1:
        row = t[1][2][0]
    elif t[0] == 'call' and t[1] == 'numpy.flatnonzero':
        row = t[2][0]
    else:
        return None
    flip = False
    if row[0] != 'idx':
        return None
    g, k = row[1], row[2]
    if k == node:
        pass
    elif k[0] == 'tuple' and len(k[1]) == 2 and k[1][0] == node and k[1][1][0] == 'op' and k[1][1][1] == 'slice':
        pass
    elif k[0] == 'tuple' and len(k[1]) == 2 and k[1][1] == node and k[1][0][0] == 'op' and k[1][0][1] == 'slice':
        flip = True
    else:
        return None
    while True:
        if g[0] == 'fld' and g[2] == 'T':
            flip = not flip
            g = g[1]
        elif g[0] == 'call' and (g[1] == 'numpy.transpose' or g[1][0] == 'extm' and g[1][2] == 'transpose'):
            flip = not flip
            g = g[2][0] if g[1] == 'numpy.transpose' else g[1][1]
        else:
            break
    return ('pred' if flip else 'succ'), g


def seeded(t, st, g):
    """All nodes of the graph: range over its size."""
    part = partial(t, st)
    t, _ = unwrap(t, st)
    if t[0] == 'call' and t[1] == 'builtins.range':
        if part:
            return False
        n = t[2][-1]
        if len(t[2]) > 1 and t[2][0] != C(0):
            return False
        if len(t[2]) > 2:
            return False
        if n[0] == 'idx' and n[1] == ('fld', g, 'shape', 0) or is_len(n, g):
            return True
        if n[0] == 'op' and n[1] == '-':
            return False
    return None


def zero(facts, c, child):
    """What facts say about c[child] being zero."""
    for k, val in facts.items():
        for t in k[1:]:
            if isinstance(t, tuple) and t[:1] == ('idx',) and t[1] == c and t[2] == child or isinstance(t, tuple) and t[:1] == ('op',) and any(
                    y[:1] == ('idx',) and y[1] == c and y[2] == child for y in t[2] if isinstance(y, tuple)):
                if k[0] == 'truthy':
                    return not val
                if k[0] == 'eq' and C(0) in k[1:]:
                    return val
                return None
    return None


def asks(facts, c, child):
    return any(isinstance(t, tuple) and t[:1] in (('idx',), ('op',)) and {c, child} <= flatten(t) for k in facts for t in k[1:])


def counting(v, w, p, loop, q, order, dag, gsym):
    """Nodes whose unplaced predecessors are counted: a node goes to the worklist when its count reaches zero."""
    found = []
    for it in loop.paths:
        for i in flat(it):
            e = i.ev
            if e.kind == 'setitem' and i.loops and e.key == i.loops[-1][0].elem and e.value[0] == 'op' and e.value[1] == '-' and e.value[2][1] == C(1) and (
                    e.value[2][0][0] == 'idx' and e.value[2][0][1] == e.base):
                found.append((it, i))
    if not found:
        return False
    it, i = found[0]
    c, lv = i.ev.base, i.loops[-1][0]
    pops = [e for e in it.events if e.kind == 'mut' and e.op in POPS and e.base == q]
    if len(loop.paths) != 1 or len(pops) != 1 or len(i.loops) != 1 or not lv.exhausted:
        v.und('counted predecessors')
        w.und('counted predecessors')
        return True
    x = pops[0].result
    adds = [e for e in it.events if e.kind == 'mut' and e.base == order and e.op == 'append' and list(e.args) == [x]]
    d = direction(src_of(lv.iter, it.st), x)
    if len(adds) != 1:
        v.und('counted predecessors')
    elif d is None or d[1] not in (dag, gsym):
        v.und('whose count falls')
    elif d[0] == 'pred':
        v.bad('the counts of the nodes that come before a placed node fall, not those of its successors', lv)
    elif partial(lv.iter, it.st):
        w.bad('only a part of the successors of a placed node is taken up again', lv)
    elif d[1] == gsym:
        v.und('counted with the feedback links')
    else:
        for z in lv.paths:
            downs = [n for n, e in enumerate(z.events) if e.kind == 'setitem' and e.base == c]
            puts = [(n, e) for n, e in enumerate(z.events) if e.kind == 'mut' and e.base == q and e.op in ('append', 'appendleft') and list(e.args) == [lv.elem]]
            if len(downs) != 1 or z.raises or z.out is not None and z.out[0] != 'cont':
                v.und('counted predecessors')
                continue
            none = zero(z.facts, c, lv.elem)
            if puts and none is False:
                v.bad('a node is put on the worklist while some of its predecessors are missing', puts[0][1])
            elif puts and none is None:
                if asks(z.facts, c, lv.elem):
                    v.und('condition of a node')
                else:
                    v.bad('a node is put on the worklist whatever the number of its missing predecessors', puts[0][1])
            elif not puts and none:
                w.bad('a node without missing predecessors is not put on the worklist', lv)
    n = p.st.heap.get((c, '#from'), c)
    bad = None
    if n[0] == 'call' and n[1][0] == 'extm' and n[1][2] == 'sum' and n[1][1] == dag:
        axis = dict(n[3]).get('axis', n[2][0] if n[2] else None)
        if axis == C(1):
            bad = 'the successors of a node are counted, not its predecessors'
        elif axis != C(0):
            v.und('counts')
    elif n[0] == 'cont':
        for l2, z, val in compelts(p, n) or [(None, None, None)]:
            t = val[2][0] if val is not None and val[0] == 'call' and val[1] == 'builtins.len' and val[2] else None
            dd = direction(t, l2.elem) if t is not None else None
            if dd is None or dd[1] not in (dag, gsym):
                v.und('counts')
            elif dd[0] == 'succ':
                bad = 'the successors of a node are counted, not its predecessors'
            elif dd[1] == gsym:
                bad = 'predecessors are counted with the feedback links still in place'
    else:
        v.und('counts')
    if bad:
        v.bad(bad, loop)
    s = compelts(p, q)
    if s is None:
        if seeded(q, p.st, dag):
            v.bad('nodes are put on the worklist before their predecessors are placed', loop)
        else:
            w.und('seeding')
        return True
    for l2, z, val in s:
        none = zero(z.facts, c, l2.elem)
        if partial(l2.iter, p.st):
            w.bad('not all nodes are seeded', loop)
        elif val is None and none:
            w.bad('a node without predecessors is not seeded', l2)
        elif val is not None and none is False:
            v.bad('a node with predecessors is seeded', l2)
        elif val is not None and val != l2.elem or none is None:
            w.und('seeding')
    return True


def gathered(it, lv, order):
    """Readiness judged by a list of the predecessors that are (not) in the order."""
    comps = {e.comp for z in lv.paths for e in z.events if e.kind == 'compelt'}
    if len(comps) != 1:
        return 'und', 'readiness', lv
    comp = comps.pop()
    kept = set()
    for z in lv.paths:
        got = any(e.kind == 'compelt' for e in z.events)
        ks = [val for k, val in z.facts.items() if k[0] == 'in' and k[1] == lv.elem and src_of(k[2], it.st) == order]
        if len(ks) != 1 or z.raises:
            return 'und', 'readiness', lv
        if got:
            kept.add(ks[0])
        elif not ks[0] in (True, False):
            return 'und', 'readiness', lv
    empty = [val for k, val in it.facts.items() if k[0] == 'truthy' and k[1] == comp]
    if kept == {False} and empty == [False]:
        return ('ok',)
    if kept == {False} and empty == [True]:
        return 'bad', 'a node is placed before one of its predecessors', lv
    return 'und', 'readiness', lv


def sorting(ctx):
    v = V(ctx, 'ready', 'topological_sorting')
    w = V(ctx, 'progress', 'topological_sorting')
    f = ctx.optional('klang.graph.topological_sorting')
    rb = ctx.optional('klang.graph.remove_back_edges')
    if f is None or rb is None:
        v.und()
        w.und()
        v.done()
        return w.done()
    I = ctx.interp(opaque={rb.key})
    gsym = ('sym', 'graph')
    ps = ctx.run(I, f, args=[gsym])
    for p in ps or []:
        if p.raises:
            v.und('raises')
            continue
        calls = [e for e in p.events if e.kind == 'call' and not e.inlined and e.fn[0] == 'func' and e.fn[1] == rb.key]
        wl = list(worklists(p))
        if len(wl) != 1:
            v.und('%d worklist loops' % len(wl))
            w.und()
            continue
        if not calls:
            v.und('feedback links are not removed here')
            w.und()
            continue
        dag = calls[0].result
        loop, q = wl[0]
        order = p.value
        if counting(v, w, p, loop, q, order, dag, gsym):
            continue
        s = seeded(q, p.st, dag)
        if s is None:
            s = seeded(q, p.st, gsym)
        if s is False:
            w.bad('not all nodes are seeded', loop)
        elif s is None:
            w.und('seeding')
        placed = False
        for it in loop.paths:
            if it.raises:
                continue
            if it.out is not None and it.out[0] in ('brk', 'ret'):
                w.bad('stops before the worklist is empty', loop)
                continue
            pops = [e for e in it.events if e.kind == 'mut' and e.op in POPS and e.base == q]
            if len(pops) != 1:
                v.und('pops')
                continue
            x = pops[0].result
            adds = [i.ev for i in flat(it) if i.ev.kind == 'mut' and i.ev.base == order and i.ev.op in ('append', 'add', 'insert', 'appendleft')]
            puts = [i for i in flat(it) if i.ev.kind == 'mut' and i.ev.base == q and i.ev.op not in POPS]
            seen = [val for k, val in it.facts.items() if k[0] == 'in' and k[1] == x]
            if not adds:
                if seen and seen[0]:
                    continue
                continue
            placed = True
            if seen and seen[0]:
                v.bad('a node that is in the order already is placed again', adds[0])
                continue
            if not seen:
                if any(k[0] in ('eq', 'lt', 'truthy') and x in flatten(k) for k in it.facts):
                    v.und('a node is recognised in another way')
                else:
                    v.bad('a node may be placed twice', adds[0])
                continue
            if len(adds) > 1:
                v.bad('a node is placed twice', adds[1])
                continue
            if adds[0].op != 'append' or adds[0].args[0] != x:
                (v.bad if adds[0].op in ('insert', 'appendleft') else v.und)('nodes are not placed at the end', adds[0])
                continue
            # readiness
            ok = None
            for i in flat(it):
                lv = i.ev
                if lv.kind != 'loop' or i.loops or lv.elem is None:
                    continue
                d = direction(src_of(lv.iter, it.st), x)
                asks = any(k[0] == 'in' and k[1] == lv.elem for z in lv.paths for k in z.facts)
                if d is not None and not asks and not lv.exhausted and any(k[0] == 'in' and k[1] == lv.elem for k in it.facts):
                    ok = ('bad', 'only one of the predecessors of a placed node is looked at', lv)
                    continue
                if d is None or not asks:
                    continue
                if d[0] == 'succ':
                    ok = ok or ('bad', 'looks at the nodes that follow instead of the ones that come before', lv)
                    continue
                if d[1] != dag:
                    ok = ('bad', 'readiness is judged with the feedback links still in place', lv) if d[1] == gsym else ('und', 'graph', lv)
                    continue
                if not lv.exhausted:
                    ok = ('bad', 'a node is placed before one of its predecessors', lv)
                    continue
                if partial(lv.iter, it.st):
                    ok = ('bad', 'only a part of the predecessors is looked at', lv)
                    continue
                if any(e.kind == 'compelt' for z in lv.paths for e in z.events):
                    ok = gathered(it, lv, order)
                    continue
                good = True
                for z in lv.paths:
                    if z.out is not None and z.out[0] != 'cont':
                        continue
                    ks = [val for k, val in z.facts.items() if k[0] == 'in' and k[1] == lv.elem and src_of(k[2], it.st) == order]
                    if not ks:
                        good = None
                    elif ks[0] is False:
                        good = False
                        break
                ok = ('ok',) if good else ('bad', 'a node is placed before one of its predecessors', lv) if good is False else ('und', 'readiness', lv)
            if ok is None:
                anyfn = any(k for k in it.facts if any(isinstance(t, tuple) and order in flatten(t) for t in k[1:]) and k[1] != x)
                if anyfn:
                    v.und('readiness is judged in another way')
                elif any(e.kind == 'call' and order in e.args for e in it.events):
                    v.und('readiness is judged in another way')
                else:
                    v.bad('nodes are placed without looking at their predecessors', adds[0])
            elif ok[0] == 'bad':
                v.bad(ok[1], ok[2])
            elif ok[0] == 'und':
                v.und(ok[1])
            # progress: successors are taken up again
            if not puts:
                if requeue_other(loop, q):
                    continue
                w.bad('the successors of a placed node are not taken up again', adds[0])
                continue
            kinds = set()
            for i in puts:
                t = i.ev.args[0] if i.ev.args else None
                if i.ev.op in ('extend', 'extendleft', 'update') and t is not None:
                    d = direction(src_of(t, it.st), x)
                    kinds.add(d[0] if d and d[1] in (dag, gsym) and not partial(t, it.st) else 'part' if partial(t, it.st) else None)
                elif i.loops and t == i.loops[-1][0].elem:
                    d = direction(src_of(i.loops[-1][0].iter, it.st), x)
                    kinds.add(d[0] if d and not partial(i.loops[-1][0].iter, it.st) else None)
                else:
                    kinds.add(None)
            if 'succ' in kinds or requeue_other(loop, q):
                pass
            elif kinds == {'pred'}:
                w.bad('the successors of a placed node are not taken up again', puts[0].ev)
            elif kinds == {'part'}:
                w.bad('only a part of the successors of a placed node is taken up again', puts[0].ev)
            else:
                w.und('what is put back')
        if not placed:
            v.und('nothing is placed')
    if not ps:
        v.und()
        w.und()
    v.done()
    w.done()


def flatten(t):
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            try:
                out.add(x)
            except TypeError:
                pass
            st.extend(x)
    return out


def requeue_other(loop, q):
    """Nodes that are not ready are put back themselves."""
    for it in loop.paths:
        pops = [e for e in it.events if e.kind == 'mut' and e.op in POPS and e.base == q]
        if pops and any(e.kind == 'mut' and e.base == q and e.op in ('append', 'appendleft') and e.args == (pops[0].result,) or (
                e.kind == 'mut' and e.base == q and e.op in ('append', 'appendleft') and list(e.args) == [pops[0].result]) for e in it.events):
            return True
    return False


def feedback(ctx):
    v = V(ctx, 'feedback', 'find_back_edges')
    f = ctx.optional('klang.graph.find_back_edges')
    if f is None:
        v.und()
        return v.done()
    I = ctx.interp()
    g = ('sym', 'graph')
    ps = ctx.run(I, f, args=[g])
    good = [p for p in ps or [] if p.normal]
    decided = False
    for p in good:
        res = src_of(p.value, p.st)
        outer = [e for e in p.events if e.kind == 'loop' and e.exhausted]
        for lv in outer:
            for it in lv.paths:
                if it.raises:
                    continue
                if it.out is not None and it.out[0] in ('brk', 'ret'):
                    v.bad('stops before all nodes were visited', lv)
                    continue
                if search(ctx, I, v, it, res, g, lv):
                    decided = True
        # all nodes are visited
        if decided and outer:
            lv = outer[0]
            if not lv.isfor:
                c = [k[1] for k, val in p.facts.items() if k[0] == 'truthy' and val is False and k[1][0] == 'cont']
                s = [seeded(x, p.st, g) for x in c]
            else:
                s = [seeded(lv.iter, p.st, g)]
            if s and all(x is False for x in s):
                v.bad('not all nodes are visited', lv)
            elif not any(s):
                v.und('start nodes')
        if not decided and search(ctx, I, V(ctx, 'feedback', 'find_back_edges'), p, res, g, None):
            v.bad('the search starts from one node only', f.where)
            decided = True
    if not decided:
        v.und('not a three colour depth first search')
    v.done()


def search(ctx, I, v, it, res, g, lv):
    """One visit of a node: open, look at all successors, close."""
    parent = None
    decided = False
    for n, e in enumerate(it.events):
        if e.kind == 'loop' and e.exhausted and e.elem is not None:
            child = e.elem
            adds = [(q, x) for q in e.paths for x in q.events if x.kind == 'mut' and x.base == res and x.op in ('append', 'add')]
            if not adds:
                continue
            edge = adds[0][1].args[0]
            if edge[0] != 'tuple' or len(edge[1]) != 2:
                v.und('edge')
                continue
            if edge[1][1] == child:
                parent = edge[1][0]
            elif edge[1][0] == child:
                v.bad('a feedback link is recorded the wrong way round', adds[0][1])
                return True
            if parent is None:
                v.und('edge')
                continue
            d = direction(src_of(e.iter, it.st), parent)
            if d is None:
                v.und('successors')
                continue
            decided = True
            if d[0] != 'succ':
                v.bad('the search follows the links backwards', e)
            if partial(e.iter, it.st):
                v.bad('only a part of the links is followed', e)
            # what the books say about a node: not visited yet, open (being visited), closed
            moves = marks(it, parent)
            books = {c for q in e.paths for c, _, _ in said(q.facts, child)} | {c for _, c, _ in moves}
            new = {c: at_first(I, c, it, g) for c in books}
            open_ = moved(new, [(c, y) for m, c, y in moves if m < n])
            closed = moved(open_, [(c, y) for m, c, y in moves if m > n])
            if any(y is None for c, y in new.items() if any(c == k for q in e.paths for k, _, _ in said(q.facts, child))):
                v.und('what is known of a node at first')
                continue
            if open_ == new:
                (v.bad if moves or not books else v.und)('the node is not marked as open while its successors are visited', e)
                continue
            if closed == open_:
                v.bad('a node stays open after its successors were visited', e)
                continue
            asked = any(x.kind == 'assume' and said({x.key: x.val}, parent) for x in it.events)
            for q in e.paths:
                if q.raises:
                    continue
                if q.out is not None and q.out[0] in ('brk', 'ret'):
                    v.bad('stops before the last successor', e)
                    continue
                rec = [x for x in q.events if x.kind == 'mut' and x.base == res]
                deeper = [x for x in q.events if x.kind == 'call' and not x.inlined and child in x.args and x.fn[0] == 'func']
                facts = said(q.facts, child)
                if fits(facts, open_):
                    if len(rec) != 1:
                        v.bad('a feedback link is not recorded', e)
                    elif deeper:
                        v.bad('an open node is visited again', deeper[0])
                if fits(facts, new) and new != closed:
                    if rec:
                        v.bad('a link that closes no loop is recorded as feedback', rec[0])
                    elif not deeper:
                        v.bad('some successors are not visited', e)
                if fits(facts, closed):
                    if rec:
                        v.bad('a link that closes no loop is recorded as feedback', rec[0])
                    elif deeper and asked:
                        v.und('visits again')
                    elif deeper:
                        v.bad('a node is visited again after it was closed', deeper[0])
    return decided


def full(b, st, g):
    """Does the set hold all nodes at first (otherwise none)?"""
    return src_of(b, st) != b and seeded(b, st, g) is not False


def moved(state, ops):
    state = dict(state)
    for c, y in ops:
        state[c] = y
    return state


def at_first(I, c, it, g):
    """What a book says about a node nobody has visited: in the set or not, or the value in the table."""
    if c[0] == 'cont' and c[1] in ('set', 'frozenset'):
        return full(c, it.st, g)
    if c[0] == 'cont' and c[1] in ('list', 'dict', 'deque'):
        o = src_of(c, it.st)
        if o != c:
            return None if c[1] == 'dict' else full(c, it.st, g)
        got = I.contents(c, it.pre) if getattr(it, 'pre', None) else None
        return False if not got else None
    if c[0] == 'op' and c[1] == '*' and c[2][0][0] == 'cont':
        got = I.contents(c[2][0], it.st)
        if got and len(got) == 1 and is_const(got[0]):
            return got[0]
    if c[0] == 'call' and c[1] in ('numpy.zeros', 'builtins.bytearray'):
        return C(0)
    if c[0] == 'call' and c[1] == 'numpy.full' and len(c[2]) > 1 and is_const(c[2][1]):
        return c[2][1]
    return None


def marks(it, node):
    """[(position, book, what it says about the node from then on)]."""
    out, top = [], set()
    for n, e in enumerate(it.events):
        if e.kind == 'mut' and e.args and e.args[0] == node and e.op in ('remove', 'discard', 'add', 'append', 'appendleft'):
            out.append((n, e.base, e.op in ('add', 'append', 'appendleft')))
            if e.op == 'append':
                top.add(e.base)
        elif e.kind == 'mut' and e.op == 'pop' and not e.args and e.base in top:
            out.append((n, e.base, False))
        elif e.kind == 'setitem' and e.key == node:
            out.append((n, e.base, e.value if is_const(e.value) else None))
    return out


def said(facts, node):
    """[(book, test, answer)] about a node."""
    out = []
    for k, val in facts.items():
        if k[0] == 'in' and k[1] == node:
            out.append((k[2], 'in', val))
            continue
        for t in k[1:]:
            if isinstance(t, tuple) and t[:1] == ('idx',) and t[2] == node:
                if k[0] == 'truthy':
                    out.append((t[1], 'truthy', val))
                elif k[0] == 'eq' and is_const(k[1]):
                    out.append((t[1], k[1], val))
                else:
                    out.append((t[1], None, val))
    return out


def fits(facts, state):
    for c, test, val in facts:
        y = state.get(c)
        if y is None or test is None:
            continue
        if test == 'in':
            have = y is not False
        elif y in (True, False):
            continue
        elif test == 'truthy':
            have = bool(y[2])
        else:
            have = y[2] == test[2]
        if have is not val:
            return False
    return True


def removal(ctx):
    v = V(ctx, 'feedback', 'remove_back_edges')
    f = ctx.optional('klang.graph.remove_back_edges')
    fb = ctx.optional('klang.graph.find_back_edges')
    if f is None or fb is None:
        v.und()
        return v.done()
    I = ctx.interp(opaque={fb.key})
    g = ('sym', 'graph')
    ps = ctx.run(I, f, args=[g])
    for p in ps or []:
        if p.raises:
            v.und('raises')
            continue
        calls = [e for e in p.events if e.kind == 'call' and not e.inlined and e.fn[0] == 'func' and e.fn[1] == fb.key]
        if not calls:
            v.und('no search')
            continue
        sets = 0
        for i in flat(p):
            e = i.ev
            if e.kind != 'setitem':
                continue
            base, k = e.base, e.key
            if base[0] == 'idx' and base[1] == p.value:
                base, k = base[1], ('tuple', (base[2], k))
            if base != p.value and src_of(base, p.st) != src_of(p.value, p.st):
                continue
            one = any(y[:1] == ('idx',) and y[1] == calls[0].result and is_const(y[2]) for y in flatten(k) if y[:1] == ('idx',))
            if one and not i.loops and e.value == C(0) and not any(x.ev.kind == 'loop' for x in flat(p)):
                v.bad('only one of the feedback links is removed', e)
                continue
            if i.loops and src_of(i.loops[-1][0].iter, p.st) == calls[0].result:
                lv, q = i.loops[-1]
                if partial(lv.iter, p.st):
                    v.bad('only a part of the feedback links is removed', lv)
                if e.value != C(0) and e.value != ('const', 'float', 0.0) and e.value != ('const', 'bool', False):
                    v.und('value')
                if k == lv.elem or k[0] == 'tuple' and [role_of(t, lv) for t in k[1]] == [0, 1]:
                    sets += 1
                elif k[0] == 'tuple' and [role_of(t, lv) for t in k[1]] == [1, 0] or k[0] == 'idx' and k[1] == lv.elem and k[2] == ('op', 'slice', (NONE, NONE, C(-1))):
                    v.bad('the opposite of a feedback link is removed', e)
                elif role_of(k, lv) is not None:
                    v.bad('all links of a node are removed, not only the feedback link', e)
                else:
                    v.und('key')
                if any(z.out is not None and z.out[0] in ('brk', 'ret') for z in lv.paths):
                    v.bad('stops before the last feedback link', lv)
                for z in lv.paths:
                    if not any(x.kind == 'setitem' for x in z.events) and not z.raises:
                        v.und('a feedback link is skipped')
            else:
                v.und('writes')
        if not sets:
            v.und('removal')
    if not ps:
        v.und()
    v.done()


def pure(ctx):
    for name in ('topological_sorting', 'remove_back_edges', 'find_back_edges'):
        f = ctx.optional('klang.graph.%s' % name)
        v = V(ctx, 'pure', name)
        if f is None:
            v.und()
            v.done()
            continue
        I = ctx.interp()
        g = ('sym', 'graph')
        ps = ctx.run(I, f, args=[g])
        for p in ps or []:
            for i in flat(p):
                e = i.ev
                if e.kind in ('setitem', 'iop') and view_of(getattr(e, 'base', getattr(e, 'left', None)), g):
                    v.bad('writes to the graph it was given', e)
                if e.kind == 'mut' and view_of(e.base, g) and e.op in ('fill', 'put', 'itemset', 'sort', 'resize', 'clear', 'eliminate_zeros'):
                    v.bad('writes to the graph it was given', e)
                if e.kind == 'call' and not e.inlined and e.fn[0] == 'extm' and view_of(e.fn[1], g) and e.fn[2] in ('fill', 'put', 'itemset', 'sort', 'resize'):
                    v.bad('writes to the graph it was given', e)
                if e.kind == 'call' and not e.inlined and e.fn in (('ext', 'numpy.fill_diagonal'), ('ext', 'numpy.put'), ('ext', 'numpy.place')) and e.args and view_of(
                        e.args[0], g):
                    v.bad('writes to the graph it was given', e)
        if ps is None:
            v.und()
        v.done()


def view_of(t, g):
    """The very array g or a view of it."""
    for _ in range(6):
        if t is None:
            return False
        if t == g:
            return True
        if t[0] == 'fld' and t[2] == 'T':
            t = t[1]
        elif t[0] == 'idx' and (t[2][0] == 'op' and t[2][1] == 'slice' or t[2][0] == 'tuple'):
            t = t[1]
        elif t[0] == 'call' and t[1] in ('numpy.asarray', 'numpy.transpose', 'numpy.atleast_2d'):
            t = t[2][0]
        elif t[0] == 'call' and t[1][0] == 'extm' and t[1][2] in ('view', 'transpose', 'reshape', 'ravel'):
            t = t[1][1]
        else:
            return False
    return False


def matrix(ctx):
    v = V(ctx, 'matrix', 'graph_matrix')
    f = ctx.optional('klang.graph.graph_matrix')
    if f is None:
        v.und()
        return v.done()
    I = ctx.interp()
    e0 = ('sym', 'edges')
    ps = ctx.run(I, f, params={'edges': e0, 'directed': ('const', 'bool', True), 'order': ('sym', 'order')})
    seen = False
    for p in ps or []:
        if p.raises:
            continue
        for i in flat(p):
            e = i.ev
            if e.kind != 'setitem' or e.base != p.value and src_of(e.base, p.st) != p.value:
                continue
            k = keydir(e.key, p, e0, i)
            if k is None and e.value in (C(0), C(0.), C(False)) and (is_const(e.key) or e.key[0] == 'tuple' and all(map(is_const, e.key[1]))):
                v.bad('links are left out of the matrix', e)
            elif k is None and e.value in (C(0), C(0.), C(False)):
                pass
            elif k is None:
                v.und('key')
            elif k == 'back':
                v.bad('a directed graph gets links against their direction', e)
            else:
                seen = True
        m = src_of(p.value, p.st)
        shape = m[2][0] if m[0] == 'call' and m[1] in ('numpy.zeros', 'numpy.full') and m[2] else None
        free = not any(k[0] == 'lt' and ('sym', 'order') in k[1:] and val == (k[1] == ('sym', 'order')) for k, val in p.facts.items())
        if shape is not None and free and shape[0] == 'tuple' and not any(subterm(t, ('sym', 'order')) for t in shape[1]) and any(subterm(t, e0) for t in shape[1]):
            v.bad('the number of nodes asked for is not used: nodes without links are lost', f.where)
    if not seen:
        v.und()
    v.done()


def keydir(k, p, e0, item):
    """Does an index into the matrix run source -> destination?"""
    flip = False
    k = src_of(k, p.st)
    while k[0] == 'idx' and k[2][0] == 'op' and k[2][1] == 'slice' and k[2][2][2] == C(-1):
        flip = not flip
        k = src_of(k[1], p.st)
    if k[0] == 'fld' and k[2] == 'T' and is_edges(k[1], e0):
        return 'back' if flip else 'ok'
    if k[0] == 'tuple' and len(k[1]) == 2:
        cols = []
        for t in k[1]:
            if t[0] == 'idx' and t[2][0] == 'tuple' and len(t[2][1]) == 2 and is_edges(t[1], e0) and is_const(t[2][1][1]):
                cols.append(t[2][1][1][2])
            elif t[0] == 'idx' and t[1][0] == 'fld' and t[1][2] == 'T' and is_edges(t[1][1], e0) and is_const(t[2]):
                cols.append(t[2][2])
            elif item.loops and role_of(t, item.loops[-1][0]) is not None:
                cols.append(role_of(t, item.loops[-1][0]))
            else:
                return None
        if cols == [0, 1]:
            return 'back' if flip else 'ok'
        if cols == [1, 0]:
            return 'ok' if flip else 'back'
    if item.loops and k == item.loops[-1][0].elem:
        return 'back' if flip else 'ok'
    return None


def is_edges(t, e0):
    while t[0] == 'call' and t[1] in ('numpy.asarray', 'numpy.array', 'numpy.atleast_2d') and t[2]:
        t = t[2][0]
    return t == e0
