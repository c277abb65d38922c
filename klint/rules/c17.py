"""C17: envelope parameters are checked, stored and take effect."""
import os

from ..cfront import C, Unsupported, cshow
from ..cmod import SELF, Module, modules
from ..core import V, clause
from ..engine import is_const, show
from ..poly import equal, subst
from ..walk import Range
from .c16 import NAMES, agrees, end, member_field, stage_field, stages, terms

EXPLAIN = ('Native: every path of every setter is followed. A refused value must leave all fields alone and set a value error; what is refused and '
           'accepted is read off the comparisons on the path and compared with the documented range; an accepted value must end up in the field the '
           'getter of the same name reads, and every derived coefficient must be equal (as a polynomial over the parameters) to the one construction '
           'computes, never an old one. Construction must store each keyword under its own name. For each stage, the parameters the samples depend on are '
           'traced through the coefficients and must be those of the stage. Pure Python: at every change of stage the sample source installed must be '
           'that of the new stage, with its own duration, target and overshoot.')
ASSUME = ['values that are not numbers in the sense of NaN are out of scope']
MINIMUM = 5
TECHNIQUE = 'symbolic dataflow over the C setters and the Python envelope (abstract interpretation, polynomial normal forms)'

PY = 'klang.audio.envelope'
LEGAL = {'attack': (0., None), 'decay': (0., None), 'sustain': (0., 1.), 'release': (0., None), 'overshoot': (0., None)}
NEEDS = {'off': set(), 'attack': {'attack', 'overshoot'}, 'decay': {'decay', 'sustain', 'overshoot'}, 'sustain': {'sustain'}, 'release': {'release', 'overshoot'}}


def check(ctx):
    r = ctx.rep
    r.rule('refuse', 'a refused value changes nothing and raises a value error')
    r.rule('range', 'exactly the values in the documented range are accepted')
    r.rule('store', 'a value is stored under the name it is read back from')
    r.rule('derive', 'the derived coefficients follow every change')
    r.rule('effect', 'the samples of a stage depend on the parameters of that stage')
    r.rule('source', 'a change of stage installs the sample source of the new stage')
    for path in modules(ctx.root):
        try:
            m = Module(ctx.root, path)
        except Unsupported as e:
            r.und('store', os.path.relpath(path, ctx.root), str(e))
            continue
        for tn in m.types:
            if {'attack', 'release'} <= {x.label.rpartition('.')[2] for x in m.roles if x.tname == tn and x.kind == 'set'}:
                clause(ctx, 'store', native, m, tn)
    clause(ctx, 'source', python)


def inside(n, x):
    lo, hi = LEGAL[n]
    return x >= lo and (hi is None or x <= hi)


def native(ctx, m, tn):
    rep, u = ctx.rep, m.unit
    keep = m.infer(tn)[0]
    roles = {(r.kind, r.label.rpartition('.')[2]): r for r in m.roles if r.tname == tn}

    def run(r):
        I, ps = m.paths(r, keep)
        rep.paths += len(ps)
        rep.funcs |= {u.rel + ':' + x for x in I.visited}
        return ps
    field = {}
    for (k, n), r in sorted(roles.items()):
        if k != 'get' or ('set', n) not in roles:
            continue
        fs = set()
        for p in run(r):
            for e in p.st.events:
                if e.kind == 'call' and e.fn == 'PyFloat_FromDouble':
                    fs.add(e.args[0])
        if len(fs) == 1 and next(iter(fs))[:2] == ('fld', SELF):
            field[n] = next(iter(fs))[2]
        else:
            rep.und('store', '%s.%s' % (tn, n), 'what the getter reads')
    inits = [p for p in run(roles['init', tn_init(m, tn)]) if p.kind == 'ret' and p.value == C(0) and p.st.err == 'clear'] if ('init', tn_init(m, tn)) in roles else []
    stored, plain, derived = construct(ctx, m, tn, field, inits)
    back = {('fld', SELF, f, 0): ('P', n) for n, f in list(field.items()) + list(plain.items())}
    spec = []                                 # (facts, {field: term}) of construction over parameters
    for p in inits:
        mp = {}
        vals = given(p)
        for n, f in list(field.items()) + list(plain.items()):
            t = p.st.mem.get(('mem', SELF, f))
            if t is not None and not is_const(t):
                mp[t] = ('P', n)
            if n in vals:
                mp.setdefault(vals[n], ('raw', n))
        spec.append(({subst(k, mp): v for k, v in p.st.dfacts.items()}, {f: subst(p.st.mem.get(('mem', SELF, f)), mp) for f in derived}))
    deps = {f: {n.partition(' ')[0] for fs, d in spec for n in params(d[f])} for f in derived}
    for n, f in sorted(field.items()):
        setter(ctx, m, tn, n, f, field, run(roles['set', n]), back, spec, deps)
    effect(ctx, m, tn, field, deps, roles, run)


def tn_init(m, tn):
    return next((r.label.rpartition('.')[2] for r in m.roles if r.tname == tn and r.kind == 'init'), None)


def given(p):
    return {e.name: e.value for e in p.st.events if e.kind == 'parsed' and not e.failed and e.name}


def params(t):
    return {x[1] if x[0] == 'P' else x[1] + ' as given' for x in terms(t) if len(x) == 2 and x[0] in ('P', 'raw')}


def construct(ctx, m, tn, field, inits):
    """What construction stores: checks the parameters, returns (stored terms, plain fields, derived fields)."""
    u = m.unit
    init = next((r for r in m.roles if r.tname == tn and r.kind == 'init'), None)
    v = V(ctx, 'store', '%s (construction)' % tn)
    plain, derived = {}, set()
    doubles = {f for f, t in m.fields(m.struct(tn)) if t in ('double', 'float')}
    if not inits:
        v.und('construction')
    for p in inits:
        vals = given(p)
        where = end(p)
        for n, f in field.items():
            if n not in vals:
                if vals:
                    v.bad('construction takes no %s' % n, where)
                else:
                    v.und('no keywords')
                continue
            t = p.st.mem.get(('mem', SELF, f))
            names = {k for k, x in vals.items() if t is not None and occurs(x, t)}
            if t is None:
                v.bad('construction does not store %s' % n, where)
            elif n not in names:
                if t[0] == 'call' or not is_const(t) and not names:
                    v.und(cshow(t))
                else:
                    v.bad('%s is set to %s at construction' % (n, cshow(t) if not names else 'the value of ' + ', '.join(sorted(names))), where)
            elif names != {n}:
                v.und(cshow(t))
        for n, x in vals.items():
            if n in field:
                continue
            for f in doubles - set(field.values()):
                if p.st.mem.get(('mem', SELF, f)) == x:
                    plain[n] = f
            mf = member_field(m, tn, n)
            if mf is not None:                                   # flags exposed as members
                t = p.st.mem.get(('mem', SELF, mf))
                if t is None:
                    v.bad('construction does not store %s' % n, where)
                elif is_const(t):
                    known = [k for k in p.st.facts if k[0] == 'eq' and x in k[1:3]]
                    if x[0] == 'opt' and not known:
                        v.bad('%s does not depend on the value given at construction' % n, where)
                    elif agrees(p.st.facts, {x: 1 - t[2]}) is True:
                        v.bad('%s is stored as %d when %d is given' % (n, t[2], 1 - t[2]), where)
        for f in doubles - set(field.values()) - set(plain.values()):
            t = p.st.mem.get(('mem', SELF, f))
            if t is not None and any(occurs(x, t) for x in vals.values()):
                derived.add(f)
    v.done('%d paths, derived: %s' % (len(inits), ', '.join(sorted(derived))))
    return None, plain, derived


def occurs(x, t):
    if t == x:
        return True
    return isinstance(t, tuple) and any(occurs(x, y) for y in t if isinstance(y, tuple))


def setter(ctx, m, tn, n, f, field, ps, back, spec, deps):
    con = '%s.%s' % (tn, n)
    ref, rng, sto, der = (V(ctx, k, con) for k in ('refuse', 'range', 'store', 'derive'))
    accepted = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        st = p.st
        where = end(p)
        changed = {l[2]: x for l, x in st.mem.items() if l[0] == 'mem' and l[1] == SELF and x != ('fld', SELF, l[2], 0)}
        vals = {t for k in list(st.dfacts) + list(changed.values()) for t in terms(k) if t[0] == 'call' and t[1] in ('PyFloat_AsDouble', 'PyNumber_AsDouble')}
        vals |= {('call', e.fn, e.args, (), None) for e in st.events if e.kind == 'call' and e.fn == 'PyFloat_AsDouble'}
        if st.und or p.value not in (C(0), C(-1)) or len(vals) > 1:
            for x in (ref, rng, sto, der):
                x.und('followed')
            continue
        v = next(iter(vals), None)
        r = Range(v, st.dfacts) if v else None
        if p.value == C(-1):
            errs = [e for e in st.events if e.kind == 'error']
            if changed:
                ref.bad('a refused value changes %s' % ', '.join(sorted(changed)), where)
            if not errs:
                if st.err == 'set':
                    ref.bad('the error of the conversion is passed on, no value error', where)
            elif errs[-1].exc != ('sym', 'glob:PyExc_ValueError'):
                ref.bad('%s is raised instead of a value error' % cshow(errs[-1].exc).rpartition(':')[2], where)
            if r is not None and n in LEGAL and converted(st, v):
                if unclear(v, st.dfacts):
                    rng.und('comparison with another term')
                else:
                    hit = [x for x in r.samples((-1., -1e-6, 0., 1e-6, .5, 1., 1. + 1e-6, 2., 100.)) if inside(n, x)]
                    if hit:
                        rng.bad('%g is refused' % hit[0], where)
            continue
        accepted += 1
        if v is None:
            sto.bad('nothing is converted on a path that succeeds', where)
            continue
        if st.err != 'clear':
            ref.bad('a value that is not a number is accepted', where)
            continue
        if n in LEGAL:
            at = next((e.dfacts for e in st.events if e.kind == 'write' and e.loc == ('mem', SELF, f)), st.dfacts)
            if unclear(v, at):
                rng.und('comparison with another term')
            else:
                hit = [x for x in Range(v, at).samples((-1., -1e-6, 0., 1e-6, .5, 1., 1. + 1e-6, 2., 100.)) if not inside(n, x)]
                if hit:
                    rng.bad('%g is accepted' % hit[0], where)
        got = changed.get(f)
        if got is None:
            sto.bad('the value is not stored in %s, which is read back' % f, where)
        elif not occurs(v, got):
            if is_const(got):
                sto.und(cshow(got))
            else:
                sto.bad('%s is stored instead of the value' % cshow(got), where)
        elif got != v and got[0] == 'op':
            sto.bad('%s is stored instead of the value' % cshow(got), where)
        elif got != v:
            kept = [x for x in Range(v, st.dfacts).samples((0., 1e-6, .01, .25, .5, 1., 2., 100.)) if n not in LEGAL or inside(n, x)]
            for x in kept:
                y = clipped(got, v, x)
                if y is None or y != 'state' and abs(y - x) > 1e-6 and unclear(v, st.dfacts):
                    sto.und(cshow(got))
                    break
                if y == 'state' and not unclear(v, st.dfacts):
                    sto.bad('what is stored, %s, depends on the state of the envelope' % cshow(got)[:120], where)
                    break
                if y != 'state' and abs(y - x) > 1e-6:
                    sto.bad('%g is stored as %g' % (x, y), where)
                    break
        others = [k for k, g in field.items() if k != n and g in changed]
        if others:
            sto.bad('setting %s also changes %s' % (n, ', '.join(sorted(others))), where)
        if got is None:
            continue
        mp = dict(back)
        mp.pop(('fld', SELF, f, 0), None)
        mp[('fld', SELF, f, 0)] = ('old', n)
        mp[got] = ('P', n)
        if v != got:
            mp.setdefault(v, ('raw', n))
        facts = {subst(k, mp): x for k, x in st.dfacts.items()}
        for d in sorted(deps):
            cur = st.mem.get(('mem', SELF, d), ('fld', SELF, d, 0))
            if cur == ('fld', SELF, d, 0):
                if n in deps[d]:
                    der.bad('%s is not recomputed when %s changes' % (d, n), where)
                continue
            cur = subst(cur, mp)
            if occurs(('old', n), cur):
                der.bad('%s is computed from the old value of %s' % (d, n), where)
                continue
            olds = {x for x in terms(cur) if x[0] == 'fld' and x[1] == SELF and x[2] in deps}
            if any(n in deps[x[2]] for x in olds):
                der.bad('%s is computed from an old coefficient' % d, where)
                continue
            match = [sd for sf, sd in spec if all(facts.get(k, x) == x for k, x in sf.items())]
            cands = [sd[d] for sd in match]
            if not cands:
                der.und('no matching path of construction for %s' % d)
            elif any(equal(subst(cur, {x: sd[x[2]] for x in olds}), sd[d]) for sd in match):
                continue
            elif olds:
                der.und('%s is computed differently' % d)
            elif params(cur) != params(cands[0]) and len({frozenset(params(c)) for c in cands}) == 1:
                der.bad('%s depends on %s here and on %s at construction' % (d, ', '.join(sorted(params(cur))), ', '.join(sorted(params(cands[0])))), where)
            else:
                der.und('%s is computed differently' % d)
    if not accepted:
        sto.bad('no value is accepted', m.unit.where(m.unit.funcs[next(r.func for r in m.roles if r.tname == tn and r.kind == 'set' and r.label.endswith('.' + n))]))
    ref.done('%d paths' % len(ps))
    rng.done()
    sto.done(f)
    der.done('%d coefficients' % len(deps))


def clipped(t, v, x):
    """Stored value of a number, 'state' when a field limits it, None: not known."""
    if t == v:
        return x
    if is_const(t) and isinstance(t[2], (int, float)):
        return t[2]
    if t[0] == 'fld' and t[1] == SELF:
        return 'state'
    if t[0] == 'call' and t[1] in ('fmin', 'fmax') and len(t[2]) == 2:
        a = [clipped(y, v, x) for y in t[2]]
        if None in a:
            return None
        if 'state' in a:
            return 'state'
        return min(a) if t[1] == 'fmin' else max(a)
    return None


def unclear(v, facts):
    """A condition on the value other than a comparison with a number."""
    for k in facts:
        if occurs(v, k) and not (v in k[1:3] and any(is_const(x) for x in k[1:3])):
            return True
    return False


def converted(st, v):
    """The conversion of the value worked on this path."""
    return any(v in k[1:3] for k in st.dfacts)


def effect(ctx, m, tn, field, deps, roles, run):
    """Parameters the samples of each stage depend on."""
    name = m.unit.rel
    sf = stage_field(m, tn)
    sample = next((r for r in m.roles if r.tname == tn and r.label.endswith('.sample')), None)
    if sf is None or sample is None:
        ctx.rep.und('effect', name, 'stages')
        return
    f, names = sf
    loc = ('mem', SELF, f)
    of = {g: n for n, g in field.items()}
    ps = run(sample)
    for s in NAMES:
        v = V(ctx, 'effect', '%s, %s' % (name, s))
        k = next(x for x, y in names.items() if y == s)
        got, where, n = set(), '', 0
        for p in ps:
            lps = [x for x in p.st.events if x.kind == 'loop' and loc in x.changed]
            if p.st.err == 'set' or len(lps) != 1:
                continue
            lv = lps[0].head.mem.get(loc)
            where = lps[0].where
            for q in lps[0].paths:
                a = agrees(q.facts, {lv: k})
                if a is False:
                    continue
                if a is None or q.und:
                    v.und('conditions')
                    continue
                mark = len(lps[0].head.events)
                ws = [e for e in q.events[mark:] if e.kind == 'write' and e.loc[0] == 'at']
                if len(ws) != 1:
                    v.und('samples written')
                    continue
                n += 1
                for t in list(terms(ws[0].value)):
                    if t[0] == 'fld' and t[1] == SELF:
                        got |= deps.get(t[2], set()) & set(field) | ({of[t[2]]} if t[2] in of else set())
        if not n:
            v.und('no samples')
        elif v.v == 'ok':
            miss, extra = NEEDS[s] - got, got - NEEDS[s]
            if miss:
                v.bad('the samples do not depend on %s' % ', '.join(sorted(miss)), where)
            if extra:
                v.bad('the samples depend on %s' % ', '.join(sorted(extra)), where)
        v.done(', '.join(sorted(got)))


# ------------------------------------------------------------ Python
def python(ctx):
    sts = stages(ctx)
    f = ctx.client('from klang.audio.envelope import Envelope\n\n\ndef client(attack, decay, sustain, release, overshoot, retrigger, loop, stage, value, on):\n'
                   '    e = Envelope(attack, decay, sustain, release, overshoot=overshoot, retrigger=retrigger, loop=loop)\n'
                   '    e.stage = stage\n    e.value = value\n    e.gate(on)\n    return e\n')
    g = ctx.client('from klang.audio.envelope import Envelope\n\n\ndef client(attack, decay, sustain, release, overshoot, retrigger, loop, stage, value, on):\n'
                   '    e = Envelope(attack, decay, sustain, release, overshoot=overshoot, retrigger=retrigger, loop=loop)\n'
                   '    e.gate(on)\n    e.stage = stage\n    e.value = value\n    e.sample(1)\n    return e\n')
    opaque = lambda h: h.mod.name == PY and h.name in ('curve_samples', 'constant_samples')
    if sts is None or not (ctx.optional(PY + '.curve_samples') and ctx.optional(PY + '.constant_samples')):
        ctx.rep.und('source', PY, 'sample sources')
        return
    v, w = V(ctx, 'source', 'gate()'), V(ctx, 'source', 'sample()')
    n = 0
    I = ctx.interp(opaque=opaque)
    for p in ctx.run(I, f) or ():
        if p.raises:
            v.und('raises')
            continue
        ws = [e for e in p.events if e.kind == 'write' and e.attr == 'stage']
        k = [i for i, e in enumerate(ws) if e.value == ('sym', 'stage')]
        if not k:
            v.und('stage')
            continue
        if not ws[k[-1] + 1:]:
            continue
        n += 1
        source(ctx, v, sts, p, p.value, ws[-1].value, ws[-1], ('sym', 'value'))
    if not n:
        v.und('no changes of stage')
    v.done('%d paths' % n)
    n = 0
    I = ctx.interp(opaque=opaque)
    for p in ctx.run(I, g) or ():
        if p.raises:
            w.und('raises')
            continue
        o = p.value
        for ev in p.events:
            if ev.kind != 'loop':
                continue
            for q in ev.paths:
                ws = [e for e in q.events if e.kind == 'write' and e.base == o and e.attr == 'stage']
                if not ws or q.out is not None and q.out[0] == 'raise':
                    continue
                n += 1
                source(ctx, w, sts, q, o, ws[-1].value, ws[-1], None, p.events)
    if not n:
        w.und('no changes of stage')
    w.done('%d paths' % n)
    if ctx.method(PY + '.Envelope', 'switch_stage'):
        d = V(ctx, 'source', 'switch_stage()')
        for name in NAMES:
            k = ctx.client('from klang.audio.envelope import Envelope, Stage\n\n\ndef client(attack, decay, sustain, release, overshoot, retrigger, loop, value):\n'
                           '    e = Envelope(attack, decay, sustain, release, overshoot=overshoot, retrigger=retrigger, loop=loop)\n'
                           '    e.value = value\n    e.switch_stage(Stage.%s)\n    return e\n' % sts[name][2])
            I = ctx.interp(opaque=opaque)
            for p in ctx.run(I, k) or ():
                if p.raises:
                    d.und('raises')
                    continue
                source(ctx, d, sts, p, p.value, p.st.heap.get((p.value, 'stage')), None, ('sym', 'value'))
        d.done('5 stages')
    c = V(ctx, 'source', 'construction')
    h = ctx.client('from klang.audio.envelope import Envelope\n\n\ndef client(attack, decay, sustain, release, overshoot, retrigger, loop):\n'
                   '    e = Envelope(attack, decay, sustain, release, overshoot=overshoot, retrigger=retrigger, loop=loop)\n    return e\n')
    I = ctx.interp(opaque=opaque)
    for p in ctx.run(I, h) or ():
        if p.raises:
            c.und('raises')
            continue
        source(ctx, c, sts, p, p.value, p.st.heap.get((p.value, 'stage')), None, None)
    c.done()


def source(ctx, v, sts, p, o, stage, ev, value, before=()):
    """The sample source of an envelope belongs to its stage."""
    name = next((k for k, t in sts.items() if t == stage), None)
    if name is None:
        if stage is not None and stage[0] == 'phi':
            return                                    # unchanged
        v.und('stage %s' % (show(stage) if stage else ''))
        return
    src = p.st.heap.get((o, 'sampleGenerator'))
    calls = [e for e in p.events if e.kind == 'call' and e.result == src]
    if not calls:
        if src is not None and (src[0] in ('phi', 'const', 'fld') or any(e.kind == 'call' and e.result == src for e in before)):
            v.bad('the %s stage begins without a new sample source' % name, ev)
        else:
            c = src[1][1] if src is not None and src[0] == 'call' and isinstance(src[1], tuple) else ''
            v.und('sample source %s' % (c or (show(src) if src else '')))
        return
    call = calls[-1]
    key = call.fn[1] if call.fn[0] == 'func' else ''
    fn = ctx.prog.funcs.get(key)
    if fn is None:
        v.und(show(call.fn))
        return
    args = bound(fn, call)
    kind = key.rpartition('.')[2]
    want = {'attack': ('curve_samples', {'target': 1., 'duration': 'attack'}), 'decay': ('curve_samples', {'target': 'sustain', 'duration': 'decay'}),
            'release': ('curve_samples', {'target': 0., 'duration': 'release'}), 'off': ('constant_samples', {'value': 0.}),
            'sustain': ('constant_samples', {'value': 'sustain'})}[name]
    if kind != want[0]:
        v.bad('the %s stage takes its samples from %s' % (name, kind), call)
        return
    exp = dict(want[1])
    if kind == 'curve_samples':
        exp['overshoot'] = 'overshoot'
    for a, x in exp.items():
        t = args.get(a)
        if t is None:
            if a == 'overshoot':
                v.bad('the %s stage ignores the overshoot' % name, call)
            else:
                v.und('argument %s' % a)
        elif isinstance(x, str):
            if t == ('sym', x):
                continue
            if t[0] in ('const', 'sym'):
                v.bad('the %s stage uses %s as %s' % (name, show(t), a), call)
            else:
                v.und('%s = %s' % (a, show(t)))
        elif is_const(t):
            if t[2] != x:
                v.bad('the %s stage leads to %s instead of %s' % (name, show(t), x), call)
        elif t[0] == 'sym':
            v.bad('the %s stage uses %s as %s' % (name, show(t), a), call)
        else:
            v.und('%s = %s' % (a, show(t)))
    if kind == 'curve_samples':
        t = args.get('start')
        if t is None:
            v.und('start')
        elif value is not None and t != value:
            if t[0] in ('const', 'sym'):
                v.bad('the %s stage starts at %s instead of the current value' % (name, show(t)), call)
            else:
                v.und('start = %s' % show(t))
        elif t[0] in ('const', 'sym') and t != ('sym', 'value'):
            v.bad('the %s stage starts at %s instead of the current value' % (name, show(t)), call)


def bound(fn, call):
    names = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args]
    out = dict(zip(names, call.args))
    kw = call.kwargs
    out.update(kw.items() if isinstance(kw, dict) else kw)
    return out
