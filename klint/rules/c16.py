"""C16: both envelopes follow the same stage machine."""
import os

from ..cfront import TooMany, Unsupported, cshow
from ..cmod import SELF, Module, modules
from ..core import V, clause
from ..engine import C, is_const, show

EXPLAIN = ('The transition relation of both implementations is extracted and compared with the stated stage machine. Native: all paths of the gate '
           'method, and of one iteration of the sample loop, are collected by abstract interpretation of the C code; for every combination of stage, '
           'gate, loop, enabled and retrigger state the paths whose branch conditions agree with it give the set of next stages. Pure Python: the same '
           'for gate() and for one pass of the loop of sample() that moves on when the current source of samples is finished.')
ASSUME = ['the names of the stages are those of the enumerations']
MINIMUM = 3
TECHNIQUE = 'extraction of the transition relation by abstract interpretation (C and Python), compared with the stated machine'

NAMES = ('off', 'attack', 'decay', 'sustain', 'release')
SHORT = {'off': 'off', 'attack': 'attack', 'decay': 'decay', 'sustain': 'sustain', 'releas': 'release'}
PY = 'klang.audio.envelope'


def stage_name(n):
    n = n.lower()
    return next((v for k, v in SHORT.items() if k in n), None)


def gated(stage, on, retrigger):
    if on:
        return 'attack' if retrigger or stage in ('off', 'release') else stage
    return 'release' if stage in ('attack', 'decay', 'sustain') else stage


def finished(stage, loop, enabled):
    return {'attack': 'decay', 'decay': 'release' if loop else 'sustain', 'release': 'attack' if loop and enabled else 'off'}.get(stage, stage)


def check(ctx):
    r = ctx.rep
    r.rule('gate', 'the gate changes the stage as stated')
    r.rule('step', 'a stage that is over is followed by the stated one')
    r.rule('enabled', 'the gate state is remembered')
    r.rule('active', 'an envelope is active exactly outside its off stage')
    for path in modules(ctx.root):
        try:
            m = Module(ctx.root, path)
        except Unsupported as e:
            r.und('gate', os.path.relpath(path, ctx.root), str(e))
            continue
        for tn in m.types:
            if any(x.label.endswith('.gate') for x in m.roles if x.tname == tn):
                clause(ctx, 'step', native, m, tn)
    clause(ctx, 'gate', python_gate)
    clause(ctx, 'step', python_step)
    clause(ctx, 'active', python_active)


# ------------------------------------------------------------ native
def evaluate(t, val):
    """Integer value of a term, or None."""
    if t in val:
        return val[t]
    if is_const(t):
        return t[2] if isinstance(t[2], int) else None
    if t[0] == 'op' and t[1] in ('+', '-', '*', '&', '|', '^', '%', '/') and len(t[2]) == 2:
        a, b = evaluate(t[2][0], val), evaluate(t[2][1], val)
        if a is None or b is None or t[1] in ('%', '/') and b == 0:
            return None
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                '%': lambda: a % b, '/': lambda: a // b}[t[1]]()
    if t[0] == 'cmp':
        a, b = evaluate(t[2], val), evaluate(t[3], val)
        if a is None or b is None:
            return None
        return int({'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}.get(t[1], 0))
    return None


def mentions(t, val):
    if t in val:
        return True
    return isinstance(t, tuple) and any(mentions(x, val) for x in t if isinstance(x, tuple))


def agrees(facts, val):
    """True, False, or None when a condition about the state is not understood."""
    out = True
    for k, v in facts.items():
        if k[0] in ('eq', 'lt') and mentions(k[1:3], val):
            a, b = evaluate(k[1], val), evaluate(k[2], val)
            if a is None or b is None:
                out = None
            elif (a == b if k[0] == 'eq' else a < b) != v:
                return False
    return out


def stage_field(m, tn):
    """(field, {value: name}) of the one enumeration in the object."""
    u, q = m.unit, m.struct(tn)
    if q is None:
        return None
    hits = []
    enums = {}
    for d in u.typedefs.values():
        names = {v: stage_name(n) for i, (n, v) in u.enums.items() if i in enum_members(u, d)}
        if names and None not in names.values() and set(names.values()) == set(NAMES):
            enums[d['name']] = names
    for f, t in m.fields(q):
        if t in enums:
            hits.append((f, enums[t]))
    if not hits and len(enums) == 1:
        hits = [(f, next(iter(enums.values()))) for f, t in m.fields(q) if f == 'stage']
    return hits[0] if len(hits) == 1 else None


def enum_members(u, d):
    """Ids of the constants of the enumeration a type name stands for."""
    out = set()
    want = set(u.refs(d))
    for n in u.decls.values():
        if n.get('kind') == 'EnumDecl' and n['id'] in want:
            out |= {c['id'] for c in n.get('inner', []) if c.get('kind') == 'EnumConstantDecl'}
    return out


def member_field(m, tn, name):
    for nm, row in m.members.get(tn, []):
        if nm == name and row.get('offset', ('', ''))[0] == 'offset':
            return row['offset'][1].rpartition(',')[2].strip(' )')
    return None


def native(ctx, m, tn):
    rep = ctx.rep
    name = m.unit.rel
    sf = stage_field(m, tn)
    fl = {k: member_field(m, tn, k) for k in ('retrigger', 'loop')}
    if sf is None or None in fl.values():
        rep.und('gate', name, 'fields of the state machine')
        return
    f, names = sf
    num = {v: k for k, v in names.items()}
    keep = m.infer(tn)[0]
    loc = ('mem', SELF, f)

    def flag(k, head=None):
        l = ('mem', SELF, k)
        return (head.mem.get(l) if head is not None else None) or ('fld', SELF, k, 0)

    gate = next(r for r in m.roles if r.tname == tn and r.label.endswith('.gate'))
    v, e = V(ctx, 'gate', name), V(ctx, 'enabled', name)
    I, ps = m.paths(gate, keep)
    rep.paths += len(ps)
    rep.funcs |= {m.unit.rel + ':' + x for x in I.visited}
    memory = {True: None, False: None}
    posed = 0
    good = []
    for p in ps:
        if p.kind != 'ret' or p.st.err == 'set':
            continue
        on = trigger(p.st)
        if on is None or p.st.und:
            v.und('gate value')
            continue
        good.append((p, on))
        w = {l[2]: x[2] for l, x in p.st.mem.items() if l[0] == 'mem' and l[1] == SELF and l[2] != f and x in (C(0), C(1))}
        memory[on] = w if memory[on] is None else {k: x for k, x in memory[on].items() if w.get(k) == x}
    for s in NAMES:
        for on in (True, False):
            for rt in (0, 1):
                val = {('fld', SELF, f, 0): num[s], flag(fl['retrigger']): rt}
                got, fog = set(), False
                for p, o in good:
                    if o != on:
                        continue
                    a = agrees(p.st.facts, val)
                    if a is False:
                        continue
                    x = evaluate(p.st.mem.get(loc, ('fld', SELF, f, 0)), val)
                    if a is None or x is None:
                        fog = True
                    else:
                        got.add((names.get(x, str(x)), end(p)))
                posed += 1
                for x, wh in sorted(got, key=str):
                    if x != gated(s, on, rt):
                        (v.und if fog else v.bad)(*(('%s' % x,) if fog else ('gate %s in stage %s%s leads to %s instead of %s' % (
                            'on' if on else 'off', s, ' with retrigger' if rt else '', x, gated(s, on, rt)), wh)))
                if fog or not got:
                    v.und('%s %s' % (s, on))
    v.done('%d combinations' % posed)
    remembers = [k for k, x in (memory[True] or {}).items() if x == 1 and (memory[False] or {}).get(k) == 0]
    if good and len(remembers) == 1:
        rep.ok('enabled', name, remembers[0])
    elif good and any(x != y for a in memory.values() for x, y in [(1, 2)]) and not remembers:
        cand = [k for k in set(memory[True] or {}) | set(memory[False] or {})]
        if len(cand) == 1:
            rep.bad('enabled', name, 'the gate leaves %s at %s when it opens and %s when it closes' % (
                cand[0], (memory[True] or {}).get(cand[0], 'its old value'), (memory[False] or {}).get(cand[0], 'its old value')),
                m.unit.where(m.unit.funcs[gate.func]))
        else:
            rep.und('enabled', name, 'gate state')
    else:
        rep.und('enabled', name, 'gate state')
    active(ctx, m, tn, f, names, keep)
    w = V(ctx, 'step', name)
    sample = next((r for r in m.roles if r.tname == tn and r.label.endswith('.sample')), None)
    if sample is None:
        w.und('no sample method')
        w.done()
        return
    I, ps = m.paths(sample, keep)
    rep.paths += len(ps)
    rep.funcs |= {m.unit.rel + ':' + x for x in I.visited}
    posed = 0
    seen = set()
    for p in ps:
        loops = [x for x in p.st.events if x.kind == 'loop' and loc in x.changed]
        if p.st.err == 'set':
            continue
        if len(loops) != 1:
            w.und('%d loops change the stage' % len(loops))
            continue
        lp = loops[0]
        if id(lp) in seen:
            continue
        seen.add(id(lp))
        before = lp.before.mem.get(loc, ('fld', SELF, f, 0))
        if before != ('fld', SELF, f, 0) or p.st.mem.get(loc) != lp.head.mem.get(loc):
            w.und('stage changes outside the loop')
            continue
        if not remembers and ('mem', SELF, 'enabled') not in lp.head.mem and 'enabled' not in [x for x, _ in m.fields(m.struct(tn))]:
            w.und('gate state')
            continue
        en = remembers[0] if remembers else 'enabled'
        lv = lp.head.mem[loc]
        for s in NAMES:
            for lo in (0, 1):
                for on in (0, 1):
                    val = {lv: num[s], flag(fl['loop'], lp.head): lo, flag(en, lp.head): on}
                    got, fog = set(), False
                    for q in lp.paths:
                        a = agrees(q.facts, val)
                        if a is False:
                            continue
                        x = evaluate(q.mem.get(loc, lv), val)
                        if a is None or x is None or q.und:
                            fog = True
                        else:
                            got.add(names.get(x, str(x)))
                    posed += 1
                    want = {s, finished(s, lo, on)}
                    how = 'stage %s%s%s' % (s, ', looping' if lo else '', ', gated' if on else '')
                    if fog:
                        w.und(how)
                        continue
                    for x in sorted(got - want):
                        w.bad('%s is followed by %s instead of %s' % (how, x, finished(s, lo, on)), lp.where)
                    if finished(s, lo, on) not in got and got:
                        w.bad('%s is never followed by %s' % (how, finished(s, lo, on)), lp.where)
                    if s not in got and got:
                        w.bad('%s is left at once' % how, lp.where)
    w.done('%d combinations' % posed)


def end(p):
    return next((x.where for x in reversed(p.st.events) if x.kind in ('write', 'return')), '')


def trigger(st):
    """Whether a path of the gate method is one with a true argument."""
    for k, v in st.dfacts.items():
        if k[0] == 'eq' and k[1] == C(1) and k[2][0] == 'call' and k[2][1] in ('PyObject_IsTrue',) and k[2][2] and mentions(k[2][2], {('sym', 'args'): 0}):
            return v
    return None


def active(ctx, m, tn, f, names, keep):
    r = next((r for r in m.roles if r.tname == tn and r.label.endswith('.active') and r.kind == 'get'), None)
    v = V(ctx, 'active', m.unit.rel)
    if r is None:
        v.und('no such attribute')
        v.done()
        return
    I, ps = m.paths(r, keep)
    ctx.rep.paths += len(ps)
    for k, s in names.items():
        for p in ps:
            if p.kind != 'ret' or p.st.err == 'set' or agrees(p.st.facts, {('fld', SELF, f, 0): k}) is False:
                continue
            x = p.value[2] if p.value and p.value[0] == 'h' else ''
            if agrees(p.st.facts, {('fld', SELF, f, 0): k}) is None or 'True' not in x and 'False' not in x:
                v.und(cshow(p.value) if p.value else '')
            elif ('True' in x) != (s != 'off'):
                v.bad('active is %s in stage %s' % ('True' in x, s), end(p))
    v.done('%d stages' % len(names))


# ------------------------------------------------------------ Python
def stages(ctx):
    c = ctx.prog.cls(PY + '.Stage')
    out = {}
    for n in c.members:
        if stage_name(n):
            out[stage_name(n)] = ('enum', c.key, n)
    return out if set(out) == set(NAMES) else None


def decide(facts, val):
    """Facts of a path under values of the state: True, False or None."""
    out = True
    for k, v in facts.items():
        if not any(mentions(x, val) for x in k[1:] if isinstance(x, tuple)):
            continue
        if k[0] == 'eq':
            a, b = val.get(k[1], k[1]), val.get(k[2], k[2])
            if solid(a) and solid(b):
                if (a == b) != v:
                    return False
                continue
        elif k[0] == 'truthy' and k[1] in val and is_const(val[k[1]]):
            if bool(val[k[1]][2]) != v:
                return False
            continue
        elif k[0] == 'truthy' and k[1] in val and val[k[1]][0] == 'enum':
            if not v:
                return False
            continue
        elif k[0] == 'inset' and k[1] in val and all(solid(x) for x in k[2]):
            if (val[k[1]] in k[2]) != v:
                return False
            continue
        elif k[0] == 'isinst':
            continue
        out = None
    return out


def solid(t):
    return is_const(t) or t[0] == 'enum'


def bools(*names):
    import itertools
    for vs in itertools.product((False, True), repeat=len(names)):
        yield dict(zip(names, vs))


def python_gate(ctx):
    v, e = V(ctx, 'gate', PY), V(ctx, 'enabled', PY)
    sts = stages(ctx)
    f = ctx.client('from klang.audio.envelope import Envelope\n\n\ndef client(stage, retrigger, on):\n'
                   '    e = Envelope(1., 1., .5, 1., retrigger=retrigger)\n    e.stage = stage\n    e.gate(on)\n    return e.stage\n')
    I = ctx.interp()
    ps = ctx.run(I, f)
    if ps is None or sts is None:
        v.und('gate()')
    for s in sts or ():
        for b in bools('retrigger', 'on'):
            val = {('sym', 'stage'): sts[s], ('sym', 'retrigger'): C(b['retrigger']), ('sym', 'on'): C(b['on'])}
            for p in ps or ():
                a = decide(p.facts, val)
                if a is False:
                    continue
                how = 'gate %s in stage %s%s' % ('on' if b['on'] else 'off', s, ' with retrigger' if b['retrigger'] else '')
                if p.raises:
                    (v.bad if a else v.und)('%s fails' % how)
                    continue
                x = val.get(p.value, p.value)
                want = sts[gated(s, b['on'], b['retrigger'])]
                if a is None or not solid(x):
                    v.und(how)
                elif x != want:
                    v.bad('%s leads to %s instead of %s' % (how, x[2].lower(), want[2].lower()), last(p))
    v.done('20 combinations')
    e.done('through the steps')


def last(p):
    return next((x for x in reversed(p.events) if x.kind == 'write'), None)


def python_step(ctx):
    """One pass of moving on: what follows a stage whose samples are over."""
    v = V(ctx, 'step', PY)
    sts = stages(ctx)
    f = ctx.client('from klang.audio.envelope import Envelope\n\n\ndef client(stage, loop, before, on):\n'
                   '    e = Envelope(1., 1., .5, 1., loop=loop)\n    e.gate(before)\n    e.gate(on)\n    e.stage = stage\n    e.sample(1)\n')
    I = ctx.interp()
    ps = ctx.run(I, f)
    posed = 0
    if ps is None or sts is None:
        v.und('sample()')
    done = set()
    for p in ps or ():
        for i, ev in enumerate(p.events):
            if ev.kind != 'loop' or not p.events[:i]:
                continue
            for q in ev.paths:
                ws = [x for x in q.events if x.kind == 'write' and x.base[:2] == ('obj', PY + '.Envelope') and (x.attr == 'stage' or x.value in sts.values())]
                if q.out is not None and q.out[0] not in ('cont', None):
                    if not ws:
                        continue
                if q.out is not None and q.out[0] == 'raise':
                    continue
                step(ctx, v, sts, p, q, ws, done)
                posed += 1
    if not posed:
        v.und('no loop that moves on')
    else:
        for s in NAMES:
            for b in bools('loop', 'on'):
                if (s, b['loop'], b['on']) not in done and s in ('attack', 'decay', 'release'):
                    v.und('stage %s' % s)
    v.done('%d passes' % posed)


def step(ctx, v, sts, p, q, ws, done):
    heads = {x for k in q.facts for x in terms(k) if x[0] == 'phi' and x[2][1:] == ('stage',)}
    heads |= {x.value for x in ws if x.value[0] == 'phi'}
    heads |= {x.old for x in ws if isinstance(getattr(x, 'old', None), tuple) and x.old[0] == 'phi'}
    if len(heads) != 1:
        v.und('stage at the beginning of a pass')
        return
    head = heads.pop()
    for s in sts:
        for b in bools('loop', 'on'):
            val = {head: sts[s], ('sym', 'loop'): C(b['loop']), ('sym', 'on'): C(b['on'])}
            a = decide({**p.facts, **q.facts}, val)
            if a is False:
                continue
            how = 'stage %s%s%s' % (s, ', looping' if b['loop'] else '', ', gated' if b['on'] else '')
            x = ws[-1].value if ws else head
            x = val.get(x, x)
            want = sts[finished(s, b['loop'], b['on'])]
            done.add((s, b['loop'], b['on']))
            if a is None or not solid(x):
                v.und(how)
            elif x != want:
                v.bad('%s is followed by %s instead of %s' % (how, x[2].lower(), want[2].lower()), ws[-1] if ws else None)


def terms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from terms(x)


def python_active(ctx):
    v = V(ctx, 'active', PY)
    sts = stages(ctx)
    f = ctx.client('from klang.audio.envelope import Envelope\n\n\ndef client(stage):\n'
                   '    e = Envelope(1., 1., .5, 1.)\n    e.stage = stage\n    return bool(e.active)\n')
    ps = ctx.run(ctx.interp(), f)
    for s in sts or ():
        val = {('sym', 'stage'): sts[s]}
        for p in ps or ():
            a = decide(p.facts, val)
            if a is False:
                continue
            x = p.value
            if x is not None and not is_const(x):
                x = {k: C(y) for k, y in val.items()}.get(x, x)
            if x is not None and x[0] == 'cmp' and x[1] in ('is', '==', 'is not', '!='):
                l, r = val.get(x[2], x[2]), val.get(x[3], x[3])
                if solid(l) and solid(r):
                    x = C((l == r) == (x[1] in ('is', '==')))
            if a is None or x is None or not is_const(x):
                v.und(show(x) if x else '')
            elif bool(x[2]) != (s != 'off'):
                v.bad('active is %s in stage %s' % (bool(x[2]), s), 'klang/audio/envelope.py')
    if not ps or not sts:
        v.und('active')
    v.done('5 stages')
