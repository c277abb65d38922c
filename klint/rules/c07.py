"""C07: composites run their inner blocks, never themselves, and recompute their order after rewiring."""
import ast

from ..core import clause
from ..engine import State, is_const, show
from ..walk import flat, method_call, partial, src_of

EXPLAIN = ('The attribute the recomputation stores its result in is the stored order. Every update method of a composite that keeps an order is followed: '
           'exactly one exhausted forward loop over the stored order, each iteration updating its block once. The stored value must be the computed order '
           'with the composite removed. Wiring typestate: in constructors and public wiring methods no link may be made or broken after the last recomputation. '
           'The link graph of each constructor (exact objects) is closed from the starting blocks: every linked inner block must be reached. '
           'Composites that drive inner blocks themselves must update each of them exactly once per update. '
           'New composites around recording blocks (built once, twice, wired again, with blocks outside) and the synthesizers around recording voices are '
           'also followed step by step: which blocks an update runs, and in which order.')
ASSUME = ['determine_execution_order does what C05 says', 'connect and disconnect do what C01 says']
MINIMUM = 5

LINKS = ('connect', 'disconnect', 'make_connection', 'break_connection')
WIRING = ('add_new_channel', 'apply_micro_rhythm', 'reset_micro_rhythm')


def check(ctx):
    r = ctx.rep
    r.rule('run', 'update runs every block of the stored order once, in that order')
    r.rule('self', 'the stored order never contains the composite or blocks outside of it')
    r.rule('after', 'the order is recomputed after the last change of inner links')
    r.rule('complete', 'every inner block that is linked or read is reached by the recomputation')
    r.rule('drive', 'a composite that drives its inner blocks itself updates each exactly once')
    r.rule('scene', 'new composites around recording blocks: an update runs every linked inner block once, in the computed order, and nothing else')
    clause(ctx, 'all', everything)
    for name in SCENES:
        clause(ctx, 'scene', scene, name)
    for name in SEQUENCERS:
        clause(ctx, 'scene', sequencer, name)


def everything(ctx):
    prog = ctx.prog
    comp = prog.cls('klang.composite.Composite')
    rec = ctx.method(comp.key, 'update_internal_exec_order')
    if rec is None:
        ctx.rep.und('run', 'Composite', 'no update_internal_exec_order')
        return
    attr = stored_attr(ctx, rec)
    if attr is None:
        return
    for c in [comp] + sorted((k for k in prog.all_subclasses(comp) if k is not comp), key=lambda c: c.key):
        if c.mod.name.startswith('#'):
            continue
        calls = recompute_methods(ctx, c, rec[0])
        up = ctx.method(c.key, 'update')
        calls = calls or up is not None and (up[1] is comp or any(isinstance(n, ast.Attribute) and n.attr == attr for n in ast.walk(up[0].node)))
        if c is comp or calls:
            clause(ctx, 'run', runs_order, c, attr)
        if c is comp:
            continue
        if calls:
            clause(ctx, 'complete', complete, c, rec[0])
            clause(ctx, 'after', after, c, rec[0])
        else:
            clause(ctx, 'drive', drives, c, rec[0], attr)


def stored_attr(ctx, rec):
    """Name of the attribute with the order; judges what is put there."""
    rep = ctx.rep
    det = ctx.optional('klang.execution.determine_execution_order')
    o = ctx.obj('klang.composite.Composite', 'a')
    con = 'Composite.update_internal_exec_order'
    I = ctx.interp(opaque=lambda f: f is det or f.name in LINKS)
    ps = ctx.run(I, rec[0], selfv=o, cls=rec[1])
    if ps is None or det is None:
        rep.und('self', con)
        return 'execOrder'
    verdict = 'ok'
    name, text, where = None, '', ''
    scoped = False
    for p in ps:
        scoped |= any(link(it.ev) and link(it.ev)[0] == '-' for it in flat(p))
        if p.raises:
            continue
        w = [e for e in p.events if e.kind == 'write' and e.base == o]
        calls = [e for e in p.events if e.kind == 'call' and not e.inlined and e.fn[0] == 'func' and e.fn[1] == det.key]
        if not calls:
            verdict = 'und'
            continue
        res = calls[-1].result
        w = [e for e in w if e.value[0] in ('call', 'cont', 'phi') or e.value == res]
        if not w:
            verdict, text, where = 'bad', 'the computed order is not stored', calls[-1].where
            break
        name = w[-1].attr
        v = w[-1].value
        k = excludes(p, v, o, res)
        if k == 'bad':
            verdict, text, where = 'bad', 'the composite may be part of its own order', w[-1].where
            break
        if k == 'und':
            verdict = 'und'
    if verdict != 'bad' and not scoped:
        verdict, text, where = 'bad', 'the inner order is computed with the outside links in place', rec[0].where
    if verdict == 'bad':
        rep.bad('self', con, text, where)
    elif verdict == 'ok':
        rep.ok('self', con, '%d paths' % len(ps))
    else:
        rep.und('self', con)
    return name or 'execOrder'


def excludes(p, v, o, res):
    root = src_of(v, p.st)
    # removal or an answered membership question
    related = {v, root, res, src_of(res, p.st)}
    for e in p.events:
        if e.kind == 'mut' and e.op == 'remove' and e.base in related and e.args and e.args[0] == o:
            return 'ok'
    for k, val in p.facts.items():
        if k[0] == 'in' and k[1] == o and k[2] in related and val is False:
            return 'ok'
    for it in flat(p):
        e = it.ev
        if e.kind == 'mut' and e.op == 'remove' and e.args and e.args[0] == o:
            return 'ok'
        if e.kind in ('compelt', 'mut') and it.loops:
            val = e.value if e.kind == 'compelt' else (e.args[0] if e.op in ('append', 'add') and e.args else None)
            if val is not None and val == it.loops[-1][0].elem:
                f = e.facts
                if any(k[0] == 'eq' and set(k[1:]) == {o, val} and f[k] is False for k in f):
                    return 'ok'
                if v[0] == 'cont' and src_of(it.loops[-1][0].iter, p.st) in related | {res}:
                    if not any(o in k for k in f):
                        return 'bad'
    if root == res or v == res or p.st.heap.get((v, '#from')) == res:
        return 'bad'
    return 'und'


def recompute_methods(ctx, c, rec):
    """Names of the methods of a class (or its bases below Composite) in which it recomputes its own order."""
    out = set()
    for k in ctx.prog.mro(c):
        if k is c or ctx.prog.is_subclass(k, ctx.prog.cls('klang.composite.Composite')) and k.key != 'klang.composite.Composite':
            for n in ast.walk(k.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == rec.name and isinstance(
                        n.func.value, ast.Name) and n.func.value.id == 'self':
                    out.add(n.lineno)
    return out


def upd(ev, elem):
    """Call of elem.update() that was not followed."""
    if ev.kind == 'mut':
        return ev.op == 'update' and ev.base == elem
    m = method_call(ev, 'update')
    return bool(m and m[0] == elem and not ev.inlined)


def any_upd(ev):
    if ev.kind == 'mut' and ev.op == 'update' and not ev.args:
        return ev.base
    if ev.kind == 'call' and not ev.inlined:
        m = method_call(ev, 'update')
        if m and not m[2]:
            return m[0]
    return None


def runs_order(ctx, c, attr):
    rep = ctx.rep
    con = '%s.update' % c.name
    m = ctx.method(c.key, 'update')
    if m is None:
        rep.und('run', con)
        return
    o = ctx.obj(c.key, 'a')
    I = ctx.interp(opaque=lambda f: f.name == 'update' and f.cls is not None and f is not m[0] and f.cls.key != 'klang.composite.Composite')
    ps = ctx.run(I, m[0], selfv=o, cls=m[1])
    if ps is None:
        rep.und('run', con)
        return
    verdict, text, where = 'ok', '', ''
    for p in ps:
        if p.raises:
            continue
        order = {p.st.heap.get((o, attr)), ('fld', o, attr, 0)} - {None}
        loops = [it for it in flat(p) if it.ev.kind == 'loop' and it.ev.exhausted and src_of(it.ev.iter, p.st) in order or it.ev.kind == 'loop' and it.ev.exhausted and unsliced(
            it.ev.iter, p.st) in order]
        runs = [it for it in loops if any(any_upd(e) is not None for q in it.ev.paths for e in q.events)]
        direct = [e for e in p.events if any_upd(e) is not None]
        if not runs:
            calls = [it.ev for it in flat(p) if it.ev.kind == 'call' and not it.ev.inlined]
            if direct or any(it.loops and any_upd(it.ev) is not None for it in flat(p)) or any(o in e.args or order & set(e.args) or e.fn[0] == 'bound' and e.fn[1] == o for e in calls) or any(
                    it.ev.kind == 'loop' and attr in repr(it.ev) for it in flat(p)) or any(
                    it.ev.kind == 'loop' and not it.ev.isfor and any(attr in repr(x.ev) for q in it.ev.paths for x in flat(q)) for it in flat(p)):
                verdict = 'und' if verdict == 'ok' else verdict
                continue
            verdict, text, where = 'bad', 'the stored order is not run on every path', m[0].where
            break
        if len(runs) > 1 or any(it.loops for it in runs):
            verdict, text, where = 'bad', 'the stored order may be run more than once', runs[-1].ev.where
            break
        lv = runs[0].ev
        if partial(lv.iter, p.st):
            verdict, text, where = 'bad', 'only a part of the stored order is run', lv.where
            break
        if backwards(lv.iter, p.st):
            verdict, text, where = 'bad', 'the stored order is run backwards', lv.where
            break
        if lv.iter[0] == 'call' and lv.iter[1] in ('builtins.set', 'builtins.frozenset', 'builtins.sorted') or src_kind(lv.iter, p.st) == 'set':
            verdict, text, where = 'bad', 'the stored order is not run in order', lv.where
            break
        for q in lv.paths:
            elems = [lv.elem, ('idx', lv.elem, ('const', 'int', 1), 0)] + (list(lv.elem[1]) if lv.elem is not None and lv.elem[0] == 'tuple' else [])
            n = sum(1 for e in q.events if any(upd(e, x) for x in elems))
            if q.raises:
                continue
            if q.out is not None and q.out[0] in ('brk', 'ret'):
                verdict, text, where = 'bad', 'stops before the end of the stored order', lv.where
            elif n == 0 and any(e.kind == 'call' and not e.inlined and lv.elem in e.args for e in q.events):
                verdict = 'und' if verdict == 'ok' else verdict
            elif n != 1:
                verdict, text, where = 'bad', 'a block of the stored order is updated %s' % ('twice' if n else 'not at all on some paths'), lv.where
        if verdict == 'bad':
            break
    if verdict == 'bad':
        rep.bad('run', con, text, where)
    elif verdict == 'ok':
        rep.ok('run', con, '%d paths' % len(ps))
    else:
        rep.und('run', con)


def unsliced(it, st):
    for _ in range(8):
        it = src_of(it, st)
        if it[0] == 'idx' and it[2][0] == 'op' and it[2][1] == 'slice':
            it = it[1]
        elif it[0] == 'call' and it[1] in ('builtins.reversed', 'builtins.enumerate', 'builtins.set', 'itertools.islice') and it[2]:
            it = it[2][0]
        else:
            return it
    return it


def src_kind(it, st):
    return it[1] if it[0] == 'cont' else None


def backwards(it, st):
    n = 0
    for _ in range(8):
        if it[0] == 'call' and it[1] == 'builtins.reversed':
            n += 1
            it = it[2][0]
        elif it[0] == 'idx' and it[2][0] == 'op' and it[2][1] == 'slice' and is_const(it[2][2][2]) and it[2][2][2][2] == -1:
            n += 1
            it = it[1]
        else:
            nx = src_of(it, st)
            if nx == it:
                break
            it = nx
    return n % 2 == 1


# ---------------------------------------------------------------------- wiring
def build(ctx, c, rec):
    """Constructor of a composite followed with everything but linking and recomputing."""
    mod, name = c.mod.name, c.name
    f = ctx.client('from %s import %s\n\n\ndef client(*args, **kwargs):\n    return %s(*args, **kwargs)\n' % (mod, name, name))
    I = ctx.interp(opaque=lambda f: f.name in LINKS and f.mod.name == 'klang.connections' or f is rec)
    return I, ctx.run(I, f)


def link(ev):
    if ev.kind == 'binop' and ev.op == '|':
        return '+', ev.left, ev.right
    if ev.kind != 'call' or ev.inlined:
        return None
    m = method_call(ev)
    if m and m[1] in LINKS and len(m[2]) == 1:
        return ('+' if m[1] in ('connect', 'make_connection') else '-'), m[0], m[2][0]
    return None


def recomputes(ev, rec):
    """Receiver of a recomputation call."""
    if ev.kind != 'call' or ev.inlined:
        return None
    m = method_call(ev, rec.name)
    return m[0] if m else None


def owner(e, st):
    if e[0] == 'obj':
        return st.heap.get((e, 'owner'))
    if e[0] in ('fld', 'elem', 'idx') and e[1][0] in ('fld', 'sym', 'obj') and e[0] == 'fld':
        return None
    return None


def own_chain(ev, o, c):
    """The event belongs to the wiring of o itself, not to that of another object it creates."""
    for key, sv in ev.chain:
        if key.endswith('.__init__') and sv is not None and sv != o and sv[0] == 'obj':
            return False
    return True


def complete(ctx, c, rec):
    rep = ctx.rep
    con = '%s constructor' % c.name
    I, ps = build(ctx, c, rec)
    if ps is None:
        rep.und('complete', con)
        return
    done = und = 0
    for p in ps:
        if not p.normal or p.value[0] != 'obj':
            continue
        o = p.value
        evs = [it.ev for it in flat(p)]
        links = [link(e)[1:] for e in evs if link(e) and link(e)[0] == '+' and own_chain(e, o, c)]
        recs = [e for e in evs if recomputes(e, rec) == o]
        if not recs:
            loops = [e for e in p.events if e.kind == 'loop']
            if any(recomputes(it.ev, rec) for l in loops for q in l.paths for it in flat(q)) or loops:
                und += 1
                continue
            rep.bad('complete', con, 'the inner order is never computed', c.node and '%s:%d' % (c.mod.rel, c.node.lineno))
            return
        blocks, edges, vague = set(), [], False
        for s, d in links:
            so, do = owner(s, p.st), owner(d, p.st)
            if so is None or do is None:
                vague = True
                continue
            for b in (so, do):
                if b != o:
                    blocks.add(b)
            if so != o and do != o:
                edges.append((so, do))
        args = [a for a in list(method_call(recs[-1])[2])]
        if any(a[0] == 'star' for a in args):
            und += 1
            continue
        starts = set(args)
        if not args:
            for s, d in links:
                so, do = owner(s, p.st), owner(d, p.st)
                if so == o and s in members(p, o, 'inputs') and relay(ctx, s):
                    starts.add(do)
                if do == o and d in members(p, o, 'outputs') and relay(ctx, d):
                    starts.add(so)
        reach = set(starts)
        grow = True
        while grow:
            grow = False
            for a, b in edges:
                if (a in reach) != (b in reach):
                    reach |= {a, b}
                    grow = True
        left = [b for b in blocks if b not in reach]
        if left and not vague:
            rep.bad('complete', con, '%s is linked inside but not part of the inner order' % ', '.join(sorted(x[1].rpartition('.')[2] for x in left)),
                    recs[-1].where)
            return
        # inner blocks whose output the update reads
        miss = unread(ctx, c, o, p, reach, vague)
        if miss:
            rep.bad('complete', con, '%s is read in update but neither part of the inner order nor updated' % miss, recs[-1].where)
            return
        if vague:
            und += 1
        else:
            done += 1
    if done:
        rep.ok('complete', con, '%d constructor paths' % done)
    elif und or not ps:
        rep.und('complete', con)


def members(p, o, name):
    v = p.st.heap.get((o, name))
    items = p.st.conts.get(v) if v is not None and v[0] == 'cont' else v[1] if v is not None and v[0] == 'tuple' else None
    return items or ()


def relay(ctx, e):
    return e[0] == 'obj' and any(k.name == 'RelayBase' for k in ctx.prog.mro(ctx.prog.cls(e[1])))


def unread(ctx, c, o, p, reach, vague):
    m = ctx.method(c.key, 'update')
    if m is None or m[1].key == 'klang.composite.Composite':
        return None
    read, updated = set(), set()
    for k in ctx.prog.mro(c):
        if k.key.startswith('klang.block') or k.key.startswith('klang.composite'):
            continue
        for fn in k.node.body:
            if not isinstance(fn, ast.FunctionDef) or fn.name == '__init__':
                continue
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == 'self':
                    if n.attr in ('output', 'outputs'):
                        read.add(n.value.attr)
                    if n.attr == 'update':
                        updated.add(n.value.attr)
    for a in sorted(read - updated):
        v = p.st.heap.get((o, a))
        if v is None:
            continue
        if v not in reach and not any(x == v for x in reach):
            if v[0] == 'obj' and not ctx.prog.is_subclass(ctx.prog.cls(v[1]), ctx.prog.cls('klang.block.Block')):
                continue
            return 'self.%s' % a
    return None


def after(ctx, c, rec):
    """Typestate of constructors and wiring methods."""
    rep = ctx.rep
    prog = ctx.prog
    con = '%s.__init__' % c.name
    I, ps = build(ctx, c, rec)
    if ps is None:
        rep.und('after', con)
    else:
        verdict = None
        for p in ps:
            if not p.normal or p.value[0] != 'obj':
                continue
            o = p.value
            verdict = late(p, o, rec, lambda s, d, p=p, o=o: inner(p, o, s, d), True) or verdict
        if verdict:
            rep.bad('after', con, 'inner links are changed after the order was computed', verdict.where)
        else:
            rep.ok('after', con)
    called = calls_of_self(c)
    for name, f in sorted((n.name, n) for n in c.node.body if isinstance(n, ast.FunctionDef)):
        if name.startswith('_') or name in ('update', rec.name):
            continue
        if name not in WIRING and called.get(name):
            continue
        m = ctx.method(c.key, name)
        if m is None or m[0].decos:
            continue
        o = ctx.obj(c.key, 'a')
        I = ctx.interp(opaque=lambda f: f.name in LINKS and f.mod.name == 'klang.connections' or f is rec)
        st = State()
        for a in ('inputs', 'outputs'):
            ctx.attr(I, o, a, st)
        ps = ctx.run(I, m[0], selfv=o, cls=m[1], st=st)
        con = '%s.%s' % (c.name, name)
        if ps is None:
            rep.und('after', con)
            continue
        any_link = False
        verdict = None
        for p in ps:
            if p.raises:
                continue
            any_link |= any(link(it.ev) for it in flat(p))
            ev = late(p, o, rec, lambda s, d, p=p, o=o: inner(p, o, s, d), False)
            if ev is not None:
                verdict = (ev, 'inner links are changed and the inner order is not recomputed afterwards')
            ev = late(p, o, rec, lambda s, d, p=p, o=o: outer(p, o, s, d), False, other=True)
            if ev is not None:
                verdict = (ev, 'links of the composite are changed and the order of its parent is not recomputed afterwards')
        if not any_link:
            continue
        if verdict:
            rep.bad('after', con, verdict[1], verdict[0].where)
        else:
            rep.ok('after', con, '%d paths' % len(ps))


def calls_of_self(c):
    out = {}
    for f in c.node.body:
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    out.setdefault(n.attr, set()).add(f.name)
    return out


def member(p, o, e, name):
    if e in members(p, o, name):
        return True
    v = p.st.heap.get((o, name))
    cont = {v, ('fld', o, name, 0)} - {None}
    return e[0] in ('elem', 'idx') and e[1] in cont


def mine(p, o, e):
    """Is the end one of the composite's own: True, False, None (unknown)."""
    if member(p, o, e, 'inputs') or member(p, o, e, 'outputs'):
        return True
    if e[0] == 'obj':
        w = p.st.heap.get((e, 'owner'))
        if w == o:
            return True
        if isinstance(e[2], tuple) and e[2][0] == o:
            # an end materialised from the constructor: the attribute of the composite itself
            for n in ('inputs', 'outputs'):
                v = p.st.heap.get((o, n))
                if v is not None and v[0] == 'cont' and e in (p.st.conts.get(v) or ()):
                    return True
        if w is not None:
            return False
    return None


def outer(p, o, s, d):
    """Link of the composite to the outside (in a method): leaves from an output or enters an input of its own."""
    return member(p, o, s, 'outputs') or member(p, o, d, 'inputs')


def inner(p, o, s, d):
    if outer(p, o, s, d):
        return False
    ms, md = mine(p, o, s), mine(p, o, d)
    if ms is None and md is None:
        return None
    return True


def late(p, o, rec, counts, ctor, other=False):
    """First link change that counts with no recomputation after it on this path."""
    pend = None

    def has_rec(path):
        for it in flat(path):
            r = recomputes(it.ev, rec)
            if r is not None and ((r != o) if other else (r == o)):
                return True
        return False

    for e in p.events:
        if e.kind == 'loop':
            lastlink = None
            for q in e.paths:
                x = late(q, o, rec, counts, ctor, other)
                if x is not None:
                    lastlink = x
            if any(has_rec(q) for q in e.paths) and lastlink is None:
                pend = None
            elif lastlink is not None:
                pend = lastlink
            continue
        l = link(e)
        if l and (own_chain(e, o, None)) and counts(l[1], l[2]):
            pend = e
        r = recomputes(e, rec)
        if r is not None and ((r != o) if other else (r == o)):
            pend = None
    return pend


# ---------------------------------------------------------------------- composites without a stored order
def drives(ctx, c, rec, attr):
    rep = ctx.rep
    prog = ctx.prog
    con = '%s.update' % c.name
    m = ctx.method(c.key, 'update')
    I, ps = build(ctx, c, rec)
    if ps is None or m is None:
        rep.und('drive', con)
        return
    block = prog.cls('klang.block.Block')
    inner_attrs = None
    for p in ps:
        if not p.normal or p.value[0] != 'obj':
            continue
        o = p.value
        s = {k[1] for k, v in p.st.heap.items() if k[0] == o and v[0] == 'obj' and v != o and prog.is_subclass(prog.cls(v[1]), block)}
        inner_attrs = s if inner_attrs is None else inner_attrs & s
    if m[1].key == 'klang.composite.Composite':
        if inner_attrs:
            rep.bad('drive', con, 'runs a stored order that is never computed', '%s:%d' % (c.mod.rel, c.node.lineno))
        return
    o = ctx.obj(c.key, 'a')
    for a in sorted(inner_attrs or ()):
        I = ctx.interp(opaque=lambda f: f.name == 'update' and f.cls is not None and f is not m[0])
        qs = ctx.run(I, m[0], selfv=o, cls=m[1])
        if qs is None:
            rep.und('drive', con)
            continue
        v = None
        for p in qs:
            if p.raises:
                continue
            x = p.st.heap.get((o, a), ('fld', o, a, 0))
            n = 0
            inloop = False
            for it in flat(p):
                u = any_upd(it.ev) if it.ev.kind == 'call' else None
                if u == x:
                    n += 1
                    inloop |= bool(it.loops)
                elif it.ev.kind == 'loop' and attr in repr(it.ev.iter):
                    inloop = True
            if inloop:
                v = v or ('und', '')
            elif n != 1:
                v = ('bad', 'self.%s is updated %s per update' % (a, 'more than once' if n else 'not at all on some paths'))
        if v is None:
            rep.ok('drive', '%s of self.%s' % (con, a))
        elif v[0] == 'bad':
            rep.bad('drive', '%s of self.%s' % (con, a), v[1], m[0].where)
        else:
            rep.und('drive', con)


# ---------------------------------------------------------------------- composites around recording blocks
PRELUDE = '''
from klang.block import Block
from klang.composite import Composite
from klang.connections import Input, MessageInput, MessageOutput, MessageRelay, Output, Relay
%s

def order(blocks):
    todo = list(blocks)
    found = []
    while todo:
        block = todo.pop(0)
        if block in found:
            continue
        found.append(block)
        for output in block.outputs:
            for other in output.outgoingConnections:
                if other.owner:
                    todo.append(other.owner)
        for input_ in block.inputs:
            other = input_.incomingConnection
            if other and other.owner:
                todo.append(other.owner)
    for i, block in enumerate(found):
        block.place = i
    return found


class Probe(Block):
    def __init__(self, log, nInputs=1, nOutputs=1):
        super().__init__(nInputs, nOutputs)
        self.log = log
        self.active = True
        self.frequency = self.inputs[0] if self.inputs else None
        for output in self.outputs:
            output.set_value(1.)

    def gate(self, on):
        pass

    def update(self):
        self.log.append(self)


def client():
    log = []
%s
'''

SCENES = {
    'relays': ('', '''
    a, p, q, r, s, z = Probe(log), Probe(log), Probe(log), Probe(log), Probe(log, 2, 2), Probe(log, 2)
    comp = Composite()
    comp.inputs = [Relay(comp), Relay(comp)]
    comp.outputs = [Relay(comp), Relay(comp)]
    a.output.connect(comp.inputs[0])
    a.output.connect(comp.inputs[1])
    comp.inputs[0].connect(p.inputs[0])
    p.output.connect(q.inputs[0])
    q.output.connect(comp.outputs[0])
    comp.inputs[1].connect(r.inputs[0])
    s.outputs[1].connect(comp.outputs[1])
    comp.outputs[0].connect(z.inputs[0])
    comp.outputs[1].connect(z.inputs[1])
    comp.update_internal_exec_order()
    comp.update()
    return log, [p, q, r, s], [a, z, comp]
'''),
    'feedback': ('', '''
    p, q, z = Probe(log, 2, 2), Probe(log), Probe(log)
    comp = Composite()
    comp.inputs = [Relay(comp)]
    comp.outputs = [Relay(comp), Relay(comp)]
    comp.inputs[0].connect(p.inputs[0])
    p.outputs[0].connect(q.inputs[0])
    q.output.connect(p.inputs[1])
    p.outputs[1].connect(comp.outputs[0])
    comp.outputs[0].connect(z.inputs[0])
    z.output.connect(comp.inputs[0])
    comp.update_internal_exec_order()
    comp.update()
    return log, [p, q], [z, comp]
'''),
    'starting blocks': ('', '''
    p, q, r, z = Probe(log), Probe(log), Probe(log, 0, 1), Probe(log)
    comp = Composite()
    comp.inputs = [Input(comp)]
    comp.outputs = [Output(comp)]
    z.output.connect(comp.inputs[0])
    comp.outputs[0].connect(z.inputs[0])
    p.output.connect(q.inputs[0])
    comp.update_internal_exec_order(p, r)
    comp.update()
    return log, [p, q, r], [z, comp]
'''),
    'wired again': ('', '''
    p, q, r, z = Probe(log), Probe(log), Probe(log), Probe(log)
    comp = Composite()
    comp.inputs = [Relay(comp)]
    comp.outputs = [Relay(comp)]
    z.output.connect(comp.inputs[0])
    comp.outputs[0].connect(z.inputs[0])
    comp.inputs[0].connect(p.inputs[0])
    p.output.connect(comp.outputs[0])
    comp.update_internal_exec_order()
    comp.inputs[0].disconnect(p.inputs[0])
    p.output.disconnect(comp.outputs[0])
    comp.inputs[0].connect(q.inputs[0])
    q.output.connect(r.inputs[0])
    r.output.connect(comp.outputs[0])
    comp.update_internal_exec_order()
    comp.update()
    return log, [q, r], [p, z, comp]
'''),
    'twice': ('', '''
    p, q, r = Probe(log), Probe(log), Probe(log)
    comp = Composite()
    comp.inputs = [Relay(comp)]
    comp.outputs = [Relay(comp)]
    comp.inputs[0].connect(p.inputs[0])
    p.output.connect(comp.outputs[0])
    q.output.connect(comp.inputs[0])
    comp.outputs[0].connect(r.inputs[0])
    comp.update_internal_exec_order()
    comp.update()
    comp.update_internal_exec_order()
    log.clear()
    comp.update()
    return log, [p], [q, r, comp]
'''),
    'messages': ('', '''
    p, q, z = Probe(log, 0, 0), Probe(log, 0, 0), Probe(log, 0, 0)
    p.inputs = [MessageInput(p)]
    q.outputs = [MessageOutput(q)]
    z.outputs = [MessageOutput(z)]
    comp = Composite()
    comp.inputs = [MessageRelay(comp)]
    comp.outputs = [MessageRelay(comp)]
    z.outputs[0].connect(comp.inputs[0])
    comp.inputs[0].connect(p.inputs[0])
    q.outputs[0].connect(comp.outputs[0])
    comp.update_internal_exec_order()
    comp.update()
    return log, [p, q], [z, comp]
'''),
    'Voice': ('from klang.audio.voices import Voice', '''
    lfo, osc, env, z = Probe(log), Probe(log), Probe(log), Probe(log)
    lfo.output.connect(osc.inputs[0])
    voice = Voice(osc, env)
    voice.output.connect(z.inputs[0])
    voice.update()
    return log, [lfo, osc, env], [z, voice]
'''),
    'PolyphonicSynthesizer': ('''from klang.audio.synthesizer import PolyphonicSynthesizer


class Copied(Block):
    def __init__(self, log, made):
        super().__init__(0, 1)
        self.inputs = [MessageInput(self)]
        self.active = True
        self.currentPitch = None
        self.log = log
        self.made = made

    def __deepcopy__(self, memo):
        voice = Copied(self.log, self.made)
        self.made.append(voice)
        return voice

    def update(self):
        self.log.append(self)
''', '''
    made = []
    voice = Copied(log, made)
    synth = PolyphonicSynthesizer(voice)
    synth.update()
    return log, made, []
'''),
    'MonophonicSynthesizer': ('from klang.audio.synthesizer import MonophonicSynthesizer', '''
    voice = Probe(log)
    synth = MonophonicSynthesizer(voice)
    synth.update()
    return log, [voice], []
'''),
}


def scene(ctx, name):
    rep = ctx.rep
    imp, body = SCENES[name]
    con = '%s around recording blocks' % name if name[0].isupper() else 'a composite: %s' % name
    det = ctx.optional('klang.execution.determine_execution_order')
    if det is None:
        rep.und('scene', con)
        return
    f = ctx.client(PRELUDE % (imp, body))
    I = ctx.interp(recursion=3, exact=True, redirect={det.key: ctx.prog.funcs[f.key.rpartition('.')[0] + '.order']})
    ps = ctx.run(I, f)
    meth = ctx.method('klang.audio.synthesizer.' + name, 'update') if 'Synthesizer' in name else ctx.method('klang.composite.Composite', 'update_internal_exec_order')
    where = getattr((meth or [None])[0], 'where', '')
    for p in ps or ():
        if any(it.ev.kind == 'loop' and it.ev.paths for it in flat(p)):
            rep.und('scene', con, 'a loop is not followed step by step')
            return
        if not p.normal or p.value[0] != 'tuple':
            rep.und('scene', con, str(p.out))
            return
        log, ins, outs = (I.contents(t, p.st) for t in p.value[1])
        if None in (log, ins, outs) or any(t[0] != 'obj' for t in log):
            rep.und('scene', con, 'updates are not followed')
            return
        text = None
        if any(t in outs for t in log):
            text = 'a block outside of the composite is updated'
        elif [t for t in ins if t not in log]:
            text = 'an inner block that is linked is not updated'
        elif any(log.count(t) > 1 for t in ins):
            text = 'an inner block is updated twice'
        else:
            places = [p.st.heap.get((t, 'place')) for t in log]
            if all(t is not None and is_const(t) for t in places) and places != sorted(places, key=lambda t: t[2]):
                text = 'the inner blocks are not updated in the computed order'
        if text:
            rep.bad('scene', con, text, where)
            return
    (rep.ok if ps else rep.und)('scene', con)


SEQUENCERS = {
    'split outputs': '''
    seq = Sequencer([[60, 62, 64, 65], [67, 69]])
    seq.update()
    return seq, []
''',
    'one output': '''
    seq = Sequencer([[60, 62, 64, 65], [67, 69]], splitOutputs=False)
    seq.update()
    return seq, []
''',
    'a channel added': '''
    seq = Sequencer([[60, 62, 64, 65]])
    seq.add_new_channel([67, 69])
    seq.update()
    return seq, []
''',
    'a channel added to the mix': '''
    seq = Sequencer([[60, 62, 64, 65]], splitOutputs=False)
    seq.add_new_channel([67, 69])
    seq.update()
    return seq, []
''',
    'a micro rhythm applied': '''
    micro = Probe(log)
    seq = Sequencer([[60, 62, 64, 65], [67, 69]])
    seq.apply_micro_rhythm(micro, 1)
    seq.update()
    return seq, [micro]
''',
    'a micro rhythm reset': '''
    micro = Probe(log)
    seq = Sequencer([[60, 62, 64, 65], [67, 69]])
    seq.apply_micro_rhythm(micro, 0)
    seq.reset_micro_rhythm(0)
    seq.update()
    return seq, []
''',
}


def sequencer(ctx, name):
    rep = ctx.rep
    prog = ctx.prog
    con = 'a sequencer: %s' % name
    det = ctx.optional('klang.execution.determine_execution_order')
    m = ctx.method('klang.sequencer.Sequencer', 'update')
    if det is None or m is None:
        rep.und('scene', con)
        return
    comp, block = prog.cls('klang.composite.Composite'), prog.cls('klang.block.Block')
    f = ctx.client(PRELUDE % ('from klang.sequencer import Sequencer', SEQUENCERS[name]))

    def leaf(f):
        return f.name == 'update' and f.cls is not None and prog.is_subclass(f.cls, block) and not prog.is_subclass(f.cls, comp)
    I = ctx.interp(recursion=3, exact=True, opaque=leaf, redirect={det.key: prog.funcs[f.key.rpartition('.')[0] + '.order']})
    ps = ctx.run(I, f)
    for p in ps or ():
        if not p.normal or p.value[0] != 'tuple':
            rep.und('scene', con, str(p.out))
            return
        if any(it.ev.kind == 'loop' and it.ev.paths for it in flat(p)):
            rep.und('scene', con, 'a loop is not followed step by step')
            return
        seq, more = p.value[1][0], I.contents(p.value[1][1], p.st)
        count = {}
        for e in p.events:
            if e.kind == 'call' and e.fn[0] in ('bound', 'func', 'unbound') and show(e.fn).rpartition('.')[2].split('(')[0] == 'update' or any_upd(e) is not None:
                t = any_upd(e) or (e.fn[1] if e.fn[0] == 'bound' else e.args[0] if e.args else None)
                count[t] = count.get(t, 0) + 1
        # the blocks inside: created by the sequencer, and what was put between
        made = [e.obj for e in p.events if e.kind == 'new' and prog.is_subclass(prog.cls(e.cls), block)]
        for t in made:
            want = 0 if t[1].startswith('#') and t not in more else 1
            got = count.get(t, 0)
            cls = t[1].rpartition('.')[2]
            if got != want:
                text = '%s is %s' % ('a micro rhythm' if cls == 'Probe' else cls, 'not updated' if got == 0 else 'updated twice' if want else 'still updated')
                rep.bad('scene', con, text, m[0].where)
                return
    (rep.ok if ps else rep.und)('scene', con)
