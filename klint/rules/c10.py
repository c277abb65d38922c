"""C10: no invalid note can be built."""
import ast

from ..core import V, clause
from ..engine import C, NONE, is_const, show
from ..walk import Range, flat, subterm

EXPLAIN = ('Guard dominance by value regions: every way of building a note (constructor with and without frequency, from a dictionary, from JSON text) is '
           'followed; where a note comes out, the comparisons passed on the way must confine pitch, velocity and frequency (given or derived from that '
           'pitch) to the legal region, where an error comes out it must be a value error and the values outside it. The region test is exact because '
           'all comparisons are with constants: one value per region is enough. Silencing and the on / off predicates are judged on the same regions. '
           'Building notes past the constructor (_replace, _make, tuple.__new__) is only allowed with constants inside the region.')
ASSUME = ['values are ordered numbers (not NaN)', 'JSON decoding itself raises a value error for text that is not JSON', 'pitch_2_frequency gives the frequency of the pitch']
MINIMUM = 3
NOTE = 'klang.messages.Note'
LEGAL = {'pitch': lambda x: 0 <= x < 128, 'velocity': lambda x: 0 <= x <= 1, 'frequency': lambda x: x >= 0}
GIVEN = ('Note(p, v, f)', 'Note(p, v, f, t)', 'Note.from_dict(p, v, f)')
POINTS = {'pitch': (-1, -0.5, 0, 0.5, 60, 127, 127.5, 128, 128.5, 300), 'velocity': (-1, -0.01, 0, 0.004, 0.5, 1, 1.01, 2), 'frequency': (-1, -0.01, 0, 0.5, 440)}
EDGE = {'pitch': (0, 127, 128), 'velocity': (0, 1), 'frequency': (0,)}


def check(ctx):
    r = ctx.rep
    r.rule('range', 'a note only comes out when pitch, velocity and frequency are in range, with the given values')
    r.rule('refuse', 'values are refused with a value error exactly when one is out of range')
    r.rule('silence', 'silencing keeps pitch and frequency and gives velocity zero')
    r.rule('onoff', 'a valid note is either on or off')
    r.rule('bypass', 'notes are not built past the checks with other values')
    for name, src in (
            ('Note(p, v, f)', 'def client(p, v, f):\n    n = Note(p, v, f)\n    return n.pitch, n.velocity, n.frequency\n'),
            ('Note(p, v)', 'def client(p, v):\n    n = Note(p, v)\n    return n.pitch, n.velocity, n.frequency\n'),
            ('Note(p)', 'def client(p):\n    n = Note(p)\n    return n.pitch, n.velocity, n.frequency\n'),
            ('Note(p, v, f, t)', 'def client(p, v, f, t):\n    n = Note(p, v, f, t)\n    return n.pitch, n.velocity, n.frequency\n'),
            ('Note.from_dict(p, v, f)', 'def client(p, v, f):\n    n = Note.from_dict({"type": "Note", "pitch": p, "velocity": v, "frequency": f})\n    return n.pitch, n.velocity, n.frequency\n'),
            ('Note.from_dict', 'def client(d):\n    n = Note.from_dict(d)\n    return n.pitch, n.velocity, n.frequency\n'),
            ('Note.from_json', 'def client(s):\n    n = Note.from_json(s)\n    return n.pitch, n.velocity, n.frequency\n')):
        clause(ctx, 'range', build, name, src)
    clause(ctx, 'silence', silence)
    clause(ctx, 'onoff', onoff)
    clause(ctx, 'bypass', bypass)


def role(t):
    """pitch / velocity / frequency input of the client a term is."""
    if t[0] == 'sym':
        return {'p': 'pitch', 'v': 'velocity', 'f': 'frequency'}.get(t[1])
    if t[0] == 'idx' and is_const(t[2]):
        return t[2][2] if t[2][2] in LEGAL else None
    if derived(t):
        return 'frequency'
    return None


def derived(t):
    return t[0] == 'call' and t[1][0] in ('extm', 'func', 'bound') and 'pitch_2_frequency' in str(t[1][2] if t[1][0] != 'func' else t[1][1])


def inputs(p):
    """All terms standing for one of the three values on a path."""
    out = {}
    for k in p.facts:
        for t in k[1:3]:
            if isinstance(t, tuple) and t and role(t):
                out.setdefault(role(t), set()).add(t)
    return out


class Unknown(Exception):
    pass


FUN = {'abs': abs, 'min': min, 'max': max, 'int': int, 'float': float, 'round': round, 'bool': bool}
OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b, '%': lambda a, b: a % b}


def value(t, env):
    """Value of a term where the inputs have given values."""
    if t in env:
        return env[t]
    if is_const(t) and isinstance(t[2], (int, float, bool)):
        return t[2]
    if t[0] == 'op' and t[1] in OPS and len(t[2]) == 2:
        try:
            return OPS[t[1]](*(value(x, env) for x in t[2]))
        except ZeroDivisionError:
            raise Unknown() from None
    if t[0] == 'op' and t[1] == 'u-':
        return -value(t[2][0], env)
    if t[0] == 'call':
        n = t[1] if isinstance(t[1], str) else t[1][1] if t[1][0] == 'ext' else ''
        n = n.rpartition('.')[2] if isinstance(n, str) and n.startswith('builtins.') else ''
        if n in FUN and not t[3]:
            return FUN[n](*(value(x, env) for x in t[2]))
    raise Unknown()


def consistent(facts, env):
    """Can these values of the inputs pass the tests on the way? None: not known."""
    sure = True
    for k, val in facts.items():
        if not any(subterm(k, t) for t in env):
            continue
        try:
            if k[0] == 'lt':
                got = value(k[1], env) < value(k[2], env)
            elif k[0] == 'eq':
                if NONE in k[1:3]:
                    got = False
                else:
                    got = value(k[1], env) == value(k[2], env)
            elif k[0] == 'truthy':
                got = bool(value(k[1], env))
            elif k[0] == 'inset':
                got = any(value(k[1], env) == value(x, env) for x in k[2])
            elif k[0] == 'isinst' and k[1] in env and k[2] in (('ext', 'builtins.int'), ('ext', 'builtins.float')):
                whole = env[k[1]] == int(env[k[1]])      # a whole number may be of either type
                got = val if whole else k[2][1] == 'builtins.float'
            else:
                raise Unknown()
            if got != val:
                return False
        except (Unknown, TypeError):
            sure = False
    return True if sure else None


def bend(t):
    """The input a computed value comes from."""
    got = set()

    def go(x):
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str) and x[0] in ('sym', 'idx') and role(x):
                got.add(x)
            else:
                for y in x:
                    go(y)
    go(t)
    return got.pop() if len(got) == 1 else None


def build(ctx, name, src):
    v = V(ctx, 'range', name)
    w = V(ctx, 'refuse', name)
    f = ctx.client('from klang.messages import Note\n\n\n' + src)
    I = ctx.interp(opaque=lambda g: g.name == 'pitch_2_frequency')
    ps = ctx.run(I, f)
    made = 0
    for p in ps or []:
        if p.raises:
            refusal(w, p, name)
            continue
        val = p.value
        if val[0] != 'tuple' or len(val[1]) != 3:
            v.und('result')
            continue
        made += 1
        for fld, t in zip(('pitch', 'velocity', 'frequency'), val[1]):
            if is_const(t):
                if fld == 'velocity' and name == 'Note(p)' or t == NONE:
                    if t == NONE:
                        v.bad('%s may be missing' % fld, at(p))
                    elif not LEGAL[fld](t[2]):
                        v.bad('default %s is %s' % (fld, show(t)), at(p))
                    continue
                if not isinstance(t[2], (int, float)) or not LEGAL[fld](t[2]):
                    v.bad('%s becomes %s' % (fld, show(t)), at(p))
                elif fld in ('pitch', 'velocity'):
                    v.und('%s is a constant' % fld)
                continue
            if t[0] == 'op' or role(t) is None:
                # changed on the way
                raw = bend(t)
                if raw is None or role(raw) != fld:
                    v.und('%s is %s' % (fld, show(t)))
                    continue
                for x in POINTS[fld]:
                    try:
                        got = value(t, {raw: x})
                    except Unknown:
                        v.und('%s is %s' % (fld, show(t)))
                        break
                    ok = consistent(p.facts, {raw: x})
                    if ok and not LEGAL[fld](x):
                        v.bad('%s %g is taken for %g' % (fld, x, got), at(p))
                    elif ok and got != x and not (t[0] == 'call' and t[1] in ('builtins.int', 'builtins.float', 'builtins.round')):
                        v.bad('%s %g becomes %g' % (fld, x, got), at(p))
                continue
            if role(t) != fld:
                v.bad('%s is taken from %s' % (fld, show(t)), at(p))
                continue
            if derived(t):
                args = t[2] if t[1][0] != 'func' else t[2][1:]
                if not any(role(a) == 'pitch' for a in t[2]):
                    v.bad('the frequency is not derived from the pitch', at(p))
            r = Range(t, p.facts)
            if r.odd:
                v.und('%s is compared with other values' % fld)
                continue
            if derived(t) and name == 'Note(p, v, f, t)' and t[1][0] in ('extm', 'bound') and t[1][1] != ('sym', 't') and not subterm(t[1][1], ('sym', 't')):
                v.bad('the frequency is not the one of the given temperament', at(p))
            if derived(t) and name in GIVEN:
                given = {x for x in inputs(p).get('frequency', ()) if not derived(x)} | {('sym', 'f')}
                if not any(k[0] == 'eq' and NONE in k[1:3] and val and set(k[1:3]) & given for k, val in p.facts.items()):
                    if any(consistent({k: val for k, val in p.facts.items() if not subterm(k, t)}, {g: x}) for g in given for x in (0, 100.)):
                        v.bad('a given frequency is replaced by the one of the pitch', at(p))
            wrong = [x for x in list(r.samples(EDGE[fld])) + list(POINTS[fld]) if not LEGAL[fld](x) and r.holds(x)]
            can = [consistent(p.facts, {t: x}) for x in wrong]
            if True in can:
                v.bad('a note with %s %g can be built' % (fld, wrong[can.index(True)]), at(p))
            elif None in can:
                v.und('%s' % fld)
    if not made:
        v.und('no note comes out')
    if ps is None:
        w.und()
    v.done('%d ways' % made)
    w.done()


def at(p):
    evs = [e for e in p.events if e.kind in ('new', 'raise')]
    return evs[-1] if evs else ''


def refusal(w, p, name):
    exc = p.value if p.raises else None
    out = p.out
    e = out[1]
    kind = e[1][1].rpartition('.')[2] if e[0] == 'exc' and e[1][0] in ('ext', 'class') else None
    ins = inputs(p)
    bad = False
    odd = False
    for fld, ts in ins.items():
        for t in ts:
            r = Range(t, p.facts)
            if r.odd:
                odd = True
            pts = r.samples(EDGE[fld])
            if fld == 'pitch':
                # pitches are documented as integers: 128 and above is above 127
                pts = [x for x in pts if not 127 < x < 128]
            if not pts or all(not LEGAL[fld](x) for x in pts):
                bad = True
    if bad:
        if kind is None:
            w.und('error')
        elif kind != 'ValueError' and not issub(kind):
            w.bad('values out of range end in %s' % kind, at(p))
        return
    # nothing out of range is needed to get here
    other = [k for k in p.facts if k[0] in ('eq', 'in', 'isinst', 'truthy') and not any(isinstance(t, tuple) and t and role(t) for t in k[1:3])]
    typ = [k for k in p.facts if k[0] == 'isinst']
    if odd or other or typ:
        return                                    # refused for another reason (type of the dictionary ...)
    if ins:
        w.bad('a note in range is refused with %s' % (kind or show(e)), at(p))


def issub(kind):
    import builtins
    k = getattr(builtins, kind, None)
    return isinstance(k, type) and issubclass(k, ValueError)


def note(ctx):
    return ctx.obj(NOTE, 'n')


def silence(ctx):
    v = V(ctx, 'silence', 'Note.silence')
    f = ctx.client('def client(n):\n    m = n.silence()\n    return m.pitch, m.velocity, m.frequency, n.pitch, n.frequency\n')
    I = ctx.interp()
    ps = ctx.run(I, f, args=[note(ctx)])
    fields = {n: ctx.attr(I, note(ctx), n, ps[0].st) for n in LEGAL} if ps else {}
    for p in ps or []:
        envs = grid(fields)
        fits = [consistent(p.facts, env) for env in envs]
        if not any(x is not False for x in fits):
            continue                              # no valid note gets here
        if p.raises:
            if True in fits:
                v.bad('raises %s' % show(p.out[1]), at(p))
            else:
                v.und('raises')
            continue
        a, b, c, d, e = p.value[1]
        try:
            if b[0] != 'const' and True in fits:
                for env, ok in zip(envs, fits):
                    if ok and value(b, env) != 0:
                        v.bad('the velocity of a note with %g becomes %g' % (env[fields['velocity']], value(b, env)), at(p))
                continue
        except (Unknown, TypeError):
            pass
        if b[0] == 'const':
            if b[2] != 0 or b[2] is False:
                v.bad('the velocity becomes %s' % show(b), at(p))
        else:
            v.und('velocity is %s' % show(b))
        for x, y, n in ((a, d, 'pitch'), (c, e, 'frequency')):
            if x != y:
                try:
                    if True not in fits:
                        raise Unknown()
                    if any(ok and value(x, env) != value(y, env) for env, ok in zip(envs, fits)):
                        v.bad('the %s becomes %s' % (n, show(x)), at(p))
                    continue
                except (Unknown, TypeError):
                    pass
                if n == 'frequency' and subterm(x, fields['pitch']) and not subterm(x, fields['frequency']):
                    v.bad('the frequency is made up from the pitch', at(p))
                elif x[0] in ('const', 'op') or x in (d, e):
                    v.bad('the %s becomes %s' % (n, show(x)), at(p))
                else:
                    v.und('%s is %s' % (n, show(x)))
    if not ps:
        v.und()
    v.done()


def grid(fields):
    """Valid notes."""
    return [{fields['pitch']: a, fields['velocity']: b, fields['frequency']: c}
            for a in (0, 0.5, 60, 127) for b in (0, 1e-9, 0.004, 0.3, 0.5, 0.99, 1) for c in (0, 0.5, 440.)]


def onoff(ctx):
    v = V(ctx, 'onoff', 'Note.on / Note.off')
    f = ctx.client('def client(n):\n    a = 1 if n.on else 0\n    b = 1 if n.off else 0\n    return a, b, n.velocity\n')
    I = ctx.interp()
    ps = ctx.run(I, f, args=[note(ctx)])
    for p in ps or []:
        if p.raises:
            v.und('raises')
            continue
        a, b, t = p.value[1]
        if not (is_const(a) and is_const(b)):
            v.und('value')
            continue
        fields = {n: ctx.attr(I, note(ctx), n, p.st) for n in LEGAL}
        fits = [(env, consistent(p.facts, env)) for env in grid(fields)]
        if all(ok is not None for _, ok in fits) and t == fields['velocity']:
            for env, ok in fits:
                on, off, x = a == C(1), b == C(1), env[t]
                if ok and (on == off or on != (x > 0)):
                    v.bad('a note with velocity %g is %s' % (x, 'on and off' if on and off else 'on' if on else 'off' if off else 'neither on nor off'), wh(ctx))
            continue
        r = Range(t, p.facts)
        extra = [k for k in p.facts if not (k[0] in ('lt', 'eq') and t in k[1:3])]
        if r.odd or any(k[0] != 'truthy' or k[1] != t for k in extra):
            if a == b:
                v.und('depends on something else')
            continue
        tr = [val for k, val in p.facts.items() if k[0] == 'truthy' and k[1] == t]
        pts = [x for x in r.samples((0, 1)) if 0 <= x <= 1 and all(bool(x) == y for y in tr)]
        for x in pts:
            on, off = a == C(1), b == C(1)
            if on == off:
                v.bad('a note with velocity %g is %s' % (x, 'on and off' if on else 'neither on nor off'), wh(ctx))
            elif on != (x > 0):
                v.bad('a note with velocity %g is %s' % (x, 'on' if on else 'off'), wh(ctx))
    if not ps:
        v.und()
    v.done()


def wh(ctx):
    m = ctx.method(NOTE, 'on')
    return m[0].where if m else ''


def given_names(node, names):
    """Parameters and the names computed from them."""
    names = set(names)
    while True:
        more = {t.id for x in ast.walk(node) if isinstance(x, ast.Assign) for u in ast.walk(x.value) if isinstance(u, ast.Name) and u.id in names
                for g in x.targets for t in ast.walk(g) if isinstance(t, ast.Name)} - names
        if not more:
            return names
        names |= more


def bypass(ctx):
    """Ways round the constructor anywhere in the library."""
    for f in ctx.prog.funcs.values():
        if f.mod.name.startswith('#'):
            continue
        params = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs} - {'self', 'cls'}
        innote = f.cls is not None and f.cls.key == NOTE
        for node in ast.walk(f.node):
            if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('_replace', '_make', '__new__')):
                continue
            fields = [k.arg for k in node.keywords]
            recv = node.func.value
            on = isinstance(recv, ast.Name) and (recv.id == 'Note' or recv.id == 'cls' and innote) or innote and node.func.attr == '__new__'
            if node.func.attr == '_replace' and not set(fields) & set(LEGAL) or node.func.attr != '_replace' and not on:
                continue
            if node.func.attr == '__new__' and f.name == '__new__':
                continue
            v = V(ctx, 'bypass', '%s:%s' % (f.key, node.func.attr))
            where = '%s:%d (%s)' % (f.mod.path, node.lineno, f.key)
            if node.func.attr != '_replace':
                used = {x.id for a in list(node.args) + [k.value for k in node.keywords] for x in ast.walk(a) if isinstance(x, ast.Name)}
                if used & given_names(f.node, params) and innote:
                    v.bad('a note is built from given values without the checks', where)
                else:
                    v.und('built without the checks')
            for k in node.keywords:
                if node.func.attr == '_replace' and k.arg in LEGAL:
                    val = k.value
                    if isinstance(val, ast.Attribute) and isinstance(val.value, ast.Name) and val.value.id == 'self' and f.cls is not None:
                        r = ctx.prog.find_member(f.cls, val.attr)
                        if r and r[1][-1][0] == 'assign' and len(r[1]) == 1:
                            val = r[1][-1][1]
                    try:
                        x = ast.literal_eval(val)
                        if not LEGAL[k.arg](x):
                            v.bad('a note gets %s %r without a check' % (k.arg, x), where)
                    except (ValueError, TypeError):
                        if isinstance(k.value, (ast.BinOp, ast.UnaryOp)):
                            v.bad('a note gets a computed %s without a check' % k.arg, where)
                        else:
                            v.und('%s is not a constant' % k.arg)
            v.done()
