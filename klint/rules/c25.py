"""C25: every documented option of a block takes effect."""
import ast

from ..core import V, clause, spread
from ..engine import C, NONE, is_const, show
from ..walk import flat, leaves, subterm

EXPLAIN = ('Data flow of every constructor parameter of every class: the constructor is interpreted with each parameter as its own unknown; at the end of each '
           'path the object, what hangs on it, the calls that left the library and the branches taken tell where each parameter went. A parameter that '
           'went nowhere is ignored. Where an object has a one-buffer result, the first two updates of the freshly built object (and its other public methods) '
           'are interpreted as well, and the parameter has to enter a computation, a branch or an outside call there; where it does not, and the attribute that holds it '
           'is not read by any other code, the setting is dead. Names of parameters and attributes are compared to find crossed arguments. A number '
           'that is kept when true but lost when zero is replaced by a default. Optional arguments '
           'of functions and methods must be read, unless they are documented as unused or only shared with a method of the same name in a related class.')
ASSUME = ['a setting handed to an outside library when the object is built takes effect there']
MINIMUM = 6
TECHNIQUE = 'path-sensitive data flow analysis of constructor parameters (abstract interpretation)'
SKIP = ('klang.audio.sampling.SampleVoice',)        # can not be built: C26
HEAVY = ('klang.sequencer.Sequencer',)              # the blocks it makes are not looked into at first


def check(ctx):
    r = ctx.rep
    r.rule('used', 'every constructor parameter is stored, passed on or otherwise used')
    r.rule('read', 'every stored setting is read by code that produces the result')
    r.rule('own', 'no parameter ends up in the place of another one')
    r.rule('default', 'a given number is never replaced by a default')
    r.rule('option', 'every optional argument of a function or method is read by it')
    clause(ctx, 'option', options)
    keys = [k for k in sorted(ctx.prog.classes) if k.startswith('klang.') and k not in SKIP and own_ctor(ctx, k)]
    spread(ctx, keys, lambda c, k: clause(c, 'used', klass, k))


def own_ctor(ctx, key):
    mod, _, name = key.rpartition('.')
    m = ctx.method(key, '__init__')
    return m is not None and mod in ctx.prog.mods and m[0].mod.name.startswith('klang') and (m[1].key == key or ctx.method(key, 'update') is not None)


class Sig:
    """Parameters of a constructor: names, call text."""

    def __init__(self, f):
        a = f.node.args
        ps = [*a.posonlyargs, *a.args][1:]
        d = dict(zip([x.arg for x in ps][len(ps) - len(a.defaults):], a.defaults))
        d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        self.defaults = d
        self.ann = {x.arg: x.annotation for x in ps + a.kwonlyargs}
        self.names = [x.arg for x in ps] + [k.arg for k in a.kwonlyargs]
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.vararg = a.vararg.arg if a.vararg else None
        self.doc = ast.get_docstring(f.node) or ''
        pos = {x.arg for x in ps if x.arg not in d}
        self.symbols, out = [], []
        for n in self.names:
            dv = d.get(n)
            if isinstance(dv, ast.Tuple) and dv.elts:
                parts = ['%s__%d' % (n, i) for i in range(len(dv.elts))]
                self.symbols += parts
                val = '(%s,)' % ', '.join(parts)
            else:
                self.symbols.append(n)
                val = n
            out.append(val if n in pos else '%s=%s' % (n, val))
        if self.kwarg:
            self.symbols.append(self.kwarg)
            out.append('**' + self.kwarg)
        self.call = ', '.join(out)
        self.all = self.names + ([self.kwarg] if self.kwarg else [])

    def syms(self, n):
        return [('sym', s) for s in self.symbols if s == n or s.startswith(n + '__')]

    def numeric(self, n):
        """Values of the parameter are numbers (0 means zero)."""
        d = self.defaults.get(n)
        if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)) and not isinstance(d.value, bool):
            return True
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
            return True
        t = self.ann.get(n)
        if t is not None and ast.unparse(t) in ('int', 'float', 'Fraction', 'Optional[int]', 'Optional[float]'):
            return True
        for line in self.doc.splitlines():
            line = line.strip()
            for typ in ('int', 'float', 'Fraction'):
                if line.startswith(('%s (%s)' % (n, typ), '%s (%s,' % (n, typ), '%s (%s or None' % (n, typ))):
                    return True
        return False


def has(t, xs):
    return isinstance(t, tuple) and any(subterm(t, x) for x in xs)


class Graph:
    """What is reachable from an object in a state."""

    def __init__(self, I, st):
        self.I, self.st = I, st
        self.at = {}
        for (o, a), v in st.heap.items():
            if isinstance(a, str) and not a.startswith('#') and isinstance(v, tuple):
                self.at.setdefault(o, {})[a] = v

    def holds(self, t, xs, seen=None, objects=True):
        """One of the symbols is in the term or in anything hanging on it."""
        if not isinstance(t, tuple) or not t:
            return False
        if t in xs:
            return True
        seen = set() if seen is None else seen
        if t in seen:
            return False
        seen.add(t)
        if t[0] in ('obj', 'call'):
            for v in self.at.get(t, {}).values() if objects else ():
                if self.holds(v, xs, seen, objects):
                    return True
            if t[0] == 'obj':
                return False
        if t[0] == 'cont':
            c = self.I.contents(t, self.st)
            e = self.st.celem.get(t)
            src = self.st.heap.get((t, '#from'))
            d = self.I.dict_items(t, self.st) if t[1] in ('dict', 'defaultdict') else None
            items = list(c) if c else []
            items += [y for kv in d for y in kv] if d else []
            items += [e] if isinstance(e, tuple) else []
            items += [src] if isinstance(src, tuple) else []
            if t[1] == 'dict' and not d:
                items += [x for _, x in self.I.known(t, self.st) if x is not None] + [x for x in [self.st.heap.get((t, '#rest'))] if x is not None]
            return any(self.holds(y, xs, seen, objects) for y in items if isinstance(y, tuple))
        if t[0] in ('func', 'bound'):
            e, f = t[-1], self.I.prog.funcs.get(t[-2])
            names = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)} if f is not None else set()
            while e is not None and e in self.st.envs:
                env = self.st.envs[e]
                if any(self.holds(y, xs, seen, objects) for k, y in env.items() if k in names and isinstance(y, tuple)):
                    return True
                e = env.get('__parent__')
        return any(self.holds(y, xs, seen, objects) for y in t if isinstance(y, tuple))

    def fields(self, o):
        return self.at.get(o, {})


def touched(it, xs, g):
    """The event computes with, decides on or gives away one of the symbols."""
    ev = it.ev
    k = ev.kind
    if k == 'assume':
        ts = ev.key[1:]
    elif k in ('binop', 'order'):
        ts = [ev.left, ev.right]
    elif k == 'iop':
        ts = [ev.value]
    elif k == 'call' and (not ev.inlined or isinstance(ev.result, tuple) and ev.result[0] == 'gen'):
        ts = [ev.fn, ev.args, ev.kwargs]
    elif k == 'loop':
        ts = [ev.iter]
    elif k == 'mut':
        ts = [ev.args, getattr(ev, 'kwargs', ())]
    elif k == 'setitem':
        ts = [ev.key, ev.value]
    elif k == 'getitem':
        ts = [ev.key]
    elif k in ('yield', 'compelt'):
        ts = [ev.value]
    else:
        return False
    return any(g.holds(y, xs, objects=False) for t in ts for y in (t if isinstance(t, list) else [t]) if isinstance(y, tuple))


def klass(ctx, key):
    f, owner = ctx.method(key, '__init__')
    sig = Sig(f)
    if not sig.all:
        return
    mod, _, name = key.rpartition('.')
    lineage = {getattr(b, 'key', None) for b in ctx.prog.mro(ctx.prog.classes[key])}
    shallow = {'opaque': lambda g: g.name == '__init__' and g.cls is not None and g.cls.key not in lineage and 'connections' not in g.cls.key}
    for kw in (shallow, {}) if key in HEAVY else ({}, shallow):
        I = ctx.interp(recursion=3, **kw)
        ps = ctx.run(I, ctx.client('from %s import %s\n\n\ndef client(%s):\n    return %s(%s)\n' % (mod, name, ', '.join(sig.symbols), name, sig.call)),
                     args=[('sym', n) for n in sig.symbols])
        if ps is not None:
            break
    if ps is None:
        for n in sig.all:
            ctx.rep.und('used', '%s(%s)' % (key, n), 'too many paths')
        return
    ok = [p for p in ps if p.normal and p.value[0] in ('obj', 'call')]
    if not ok:
        v = V(ctx, 'used', key)
        v.und('no path returns an object')
        v.done()
        return
    if owner.key == key:
        for n in sig.all:
            used(ctx, key, f, sig, I, ok, n)
        own(ctx, key, f, sig, I, ok)
    reads(ctx, key, f, sig, I, ok)


# --- used, default

def place(I, p, xs):
    """Where the symbols went on a constructor path: 'field', 'call' or None."""
    if Graph(I, p.st).holds(p.value, xs):
        return 'field'
    for it in flat(p):
        ev = it.ev
        if ev.kind == 'call' and not ev.inlined and (has(ev.fn, xs) if isinstance(ev.fn, tuple) else False):
            return 'call'
        if ev.kind == 'call' and not ev.inlined and not test(ev.fn) and any(has(y, xs) for y in list(ev.args) + list(ev.kwargs) if isinstance(y, tuple)):
            return 'call'
        if ev.kind == 'loop' and has(ev.iter, xs):
            return 'call'
        if ev.kind == 'mut' and any(has(y, xs) for y in list(ev.args) + list(getattr(ev, 'kwargs', ()) or ()) if isinstance(y, tuple)):
            return 'call'
    return None


def test(fn):
    """Calls that only look at a value."""
    return isinstance(fn, str) and fn in ('builtins.isinstance', 'builtins.hasattr', 'builtins.print', 'builtins.len', 'builtins.callable', 'builtins.type', 'builtins.repr',
                                          'builtins.str')


def decided(ok, xs):
    """Tests of the symbols whose outcome differs between the paths that return."""
    vals = {}
    turns = [q for p in ok for _, q in leaves(p) if not q.raises]
    for p in [*ok, *turns]:
        for k, b in p.facts.items():
            if k[0] in ('eq', 'isinst') and k[1] in xs + [NONE] and k[2] in xs + [NONE]:
                continue                         # given or not says nothing about its value
            if any(has(y, xs) for y in k[1:] if isinstance(y, tuple)):
                vals.setdefault(k, set()).add(b)
    return [k for k, s in vals.items() if len(s) > 1]


def documented_unused(sig, n):
    d = sig.defaults.get(n)
    return isinstance(d, ast.Name) and d.id.upper() == 'UNUSED' or isinstance(d, ast.Attribute) and d.attr.upper() == 'UNUSED'


def where(f):
    return '%s:%d (%s)' % (f.mod.rel, f.node.lineno, f.key)


def used(ctx, key, f, sig, I, ok, n):
    con = '%s(%s)' % (key, n)
    if documented_unused(sig, n):
        ctx.rep.notes.append('%s is documented as unused' % con)
        return
    xs = sig.syms(n)
    v = V(ctx, 'used', con)
    at = [place(I, p, xs) for p in ok]
    split = decided(ok, xs)
    if not any(at) and not split:
        v.bad('%s is accepted but not used: it reaches no attribute, call or decision' % n, where(f))
    v.done('%s%s' % ('/'.join(sorted({x for x in at if x})), ' decides' if split else ''))
    # default
    w = V(ctx, 'default', con)
    kept = [p for p, x in zip(ok, at) if x]
    for p, x in zip(ok, at):
        if x:
            continue
        if not any(has(y, xs) for k in p.facts for y in k[1:] if isinstance(y, tuple)):
            for q in kept:
                a = replaced(I, p, q, xs)
                if a:
                    w.bad('%s is replaced by %s in %s, whatever it is' % (n, show(a[1]), a[0]), where(f))
        if not sig.numeric(n):
            continue
        zero = [k for k, b in p.facts.items() if k[0] == 'truthy' and k[1] in xs and not b]
        for k in zero:
            if not others(kept, p, k, xs):
                continue
            none = any(q == ('eq', NONE, k[1]) or q == ('eq', k[1], NONE) for q, b in p.facts.items() if b)
            if not none and not explicit_none(p, k[1]) and not zeroes(I, p, kept, xs):
                w.bad('%s=0 counts as not given: the value is dropped and something else is used' % n, lost(p, k) or where(f))
    if sig.numeric(n) or w.v != 'ok':
        w.done()


def replaced(I, p, q, xs):
    """(place, constant) where one path keeps the plain value and the other a fixed one."""
    mine = Graph(I, p.st).fields(p.value)
    for a, t in Graph(I, q.st).fields(q.value).items():
        if t in xs and a in mine and fixed(mine[a]):
            return 'attribute %s' % a, mine[a]
    calls = {(id(it.ev.node), k[0] if named else i): k[1] if named else k for it in flat(p) if it.ev.kind == 'call' and it.ev.node is not None
             for named, ks in ((False, it.ev.args), (True, it.ev.kwargs)) for i, k in enumerate(ks) if not named or len(k) == 2}
    for it in flat(q):
        ev = it.ev
        if ev.kind != 'call' or ev.node is None:
            continue
        for i, y in [*enumerate(ev.args), *(k for k in ev.kwargs if len(k) == 2)]:
            if y in xs and fixed(calls.get((id(ev.node), i))):
                return 'the call at line %d' % ev.node.lineno, calls[(id(ev.node), i)]
    return None


def fixed(t):
    return isinstance(t, tuple) and (is_const(t) and t != NONE or t[0] == 'glob')


def zeroes(I, p, kept, xs):
    """What stands in the value's place is zero as well."""
    mine, got = Graph(I, p.st).fields(p.value), []
    for q in kept:
        g = Graph(I, q.st)
        got += [mine.get(a) for a, t in g.fields(q.value).items() if t in xs]
    return bool(got) and all(t is not None and is_const(t) and not isinstance(t[2], (str, bytes)) and t[2] is not None and t[2] == 0 for t in got)


def explicit_none(p, x):
    return any(k[0] == 'eq' and b and x in k[1:3] and NONE in k[1:3] for k, b in p.facts.items())


def others(kept, p, k, xs):
    """There is a path that keeps the value, only because it is true."""
    return any(q.facts.get(k) is True for q in kept)


def lost(p, k):
    for it in flat(p):
        if it.ev.kind == 'assume' and it.ev.key == k:
            return it.ev
    return None


# --- own

def own(ctx, key, f, sig, I, ok):
    v = V(ctx, 'own', key)
    names = sig.names
    single = {s[0]: n for n in names for s in [sig.syms(n)] if len(s) == 1}
    for p in ok:
        g = Graph(I, p.st)
        fields = g.fields(p.value)
        for n in names:
            if n not in fields or n in ('name',):
                continue
            if g.holds(fields[n], sig.syms(n)):
                continue
            got = [m for m in names if m != n and g.holds(fields[n], sig.syms(m))]
            if len(got) == 1 and place(I, p, sig.syms(n)) and not derived(fields[n], sig.syms(got[0])):
                v.bad('attribute %s gets the value of the parameter %s' % (n, got[0]), where(f))
        for it in flat(p):
            ev = it.ev
            if ev.kind == 'new':
                b = binding(ctx, ev)
            elif ev.kind == 'call' and ev.inlined:
                b = passed(ctx, ev)
            else:
                continue
            if not b or ev.func is not f:
                continue
            crossed(v, b, single, ev)
    v.done('%d parameters' % len(names))


def derived(t, xs):
    """More than the plain value (something computed from it)."""
    return t[0] not in ('obj', 'sym') and t not in xs


def binding(ctx, ev):
    """{parameter of the callee: value} of a constructor call."""
    m = ctx.method(ev.cls, '__init__') if ev.cls in ctx.prog.classes else None
    return match(m[0], ev, 1) if m else None


def passed(ctx, ev):
    """{parameter of the callee: value} of a base class constructor call."""
    if not isinstance(ev.fn, tuple) or ev.fn[0] not in ('bound', 'func', 'unbound'):
        return None
    f = ctx.prog.funcs.get(ev.fn[2] if ev.fn[0] == 'bound' else ev.fn[1])
    if f is None or f.name != '__init__':
        return None
    return match(f, ev, 1 if ev.fn[0] == 'bound' else 0)


def match(f, ev, skip):
    a = f.node.args
    ps = [x.arg for x in [*a.posonlyargs, *a.args][skip:]]
    out = dict(zip(ps, ev.args))
    for k in ev.kwargs:
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], str):
            out[k[0]] = k[1]
    return out


def crossed(v, b, names, ev):
    """Two parameters passed in each other's place (their names tell)."""
    def fits(mine, theirs):
        return mine.lower().endswith(theirs.lower())
    for r, val in b.items():
        n = names.get(val)
        if n is None or fits(n, r):
            continue
        for r2, val2 in b.items():
            n2 = names.get(val2)
            if r2 == r or n2 is None or n2 == n:
                continue
            if fits(n, r2) and not fits(n2, r2) and (fits(n2, r) or not any(fits(n2, q) for q in b)):
                v.bad('%s is passed as %s and %s as %s' % (n, r, n2, r2), ev)


# --- read

MARK = '<<built>>'


def reads(ctx, key, f, sig, I0, ok):
    mod, _, name = key.rpartition('.')
    prog = ctx.prog
    blocks = any(getattr(b, 'key', None) == 'klang.block.Block' for b in prog.mro(prog.classes[key]))
    held = {}                                    # parameter -> attributes of the object it is found through
    for n in sig.all:
        xs = sig.syms(n)
        for p in ok:
            g = Graph(I0, p.st)
            for a, t in g.fields(p.value).items():
                if a not in ('owner', 'name') and g.holds(t, xs, {p.value}):
                    held.setdefault(n, set()).add(a)
    if not held:
        return
    I, runs = behave(ctx, key, sig) if blocks and ctx.method(key, 'update') else (None, None)
    for n in sig.all:
        if n not in held or documented_unused(sig, n) or n == 'name':
            continue
        con = '%s(%s)' % (key, n)
        v = V(ctx, 'read', con)
        xs = sig.syms(n)
        visited, effect, loose = {}, None, runs is None
        for p in runs or ():
            e, seen, opaque = after(I, p, xs)
            for k, ls in seen.items():
                visited.setdefault(k, set()).update(ls)
            loose = loose or opaque
            effect = effect or e
        if effect:
            v.done('enters %s' % effect)
            continue
        external = all(outside(p, xs) for p in ok)
        attrs = held[n] - {'inputs', 'outputs'} or held[n]
        reader = load(ctx, key, attrs, visited)
        if reader:
            v.done('read by %s' % reader)
        elif external:
            v.done('handed to an outside library')
        elif not load(ctx, key, attrs, {}) and attrs - {'inputs', 'outputs'}:
            v.bad('%s is stored (%s), but nothing reads it' % (n, ', '.join(sorted(attrs))), where(f))
            v.done()
        elif runs is not None and loose or runs is None and held[n] <= {'inputs', 'outputs'}:
            v.und('the update is not followed everywhere')
            v.done()
        else:
            v.bad('%s is stored (%s), but nothing reads it%s' % (n, ', '.join(sorted(attrs)), '' if runs is None else ': the result of an update does not depend on it'), where(f))
            v.done()


def outside(p, xs):
    for it in flat(p):
        ev = it.ev
        if ev.kind == 'call' and not ev.inlined and not test(ev.fn) and any(has(y, xs) for y in list(ev.args) + list(ev.kwargs) if isinstance(y, tuple)):
            n = ev.fn if isinstance(ev.fn, str) else ev.fn[1] if ev.fn[0] == 'ext' else None
            if n is None or isinstance(n, str) and not n.startswith(('builtins.', 'numpy.')):
                return True
    return False


def behave(ctx, key, sig):
    """Paths of building the object and updating it twice."""
    mod, _, name = key.rpartition('.')
    src = ('from %s import %s\n\n\ndef client(%s):\n    o = %s(%s)\n    print(%r)\n%s    o.update()\n%s    return [x.value for x in o.outputs]\n')
    feed = "    if o.inputs:\n        i = o.inputs[0]\n        if hasattr(i, 'push'):\n            i.push(zz)\n"
    for twice in ('    o.update()\n', ''):
        I = ctx.interp(recursion=3)
        try:
            ps = ctx.run(I, ctx.client(src % (mod, name, ', '.join(sig.symbols + ['zz']), name, sig.call, MARK, feed, twice)), args=[('sym', n) for n in sig.symbols + ['zz']])
        except Exception:
            ps = None
        if ps is not None and any(p.normal for p in ps):
            return I, [p for p in ps if p.normal]
    return None, None


def after(I, p, xs):
    """What the symbols enter once the object is built; functions visited; whether anything was not followed."""
    mark, effect, opaque, seen = False, None, False, {}
    g = Graph(I, p.st)
    for it in flat(p):
        ev = it.ev
        if not mark:
            if ev.kind == 'call' and ev.args and ev.args[0] == C(MARK):
                mark = True
            continue
        if ev.func is not None:
            seen.setdefault(ev.func.key, set()).add(getattr(ev.node, 'lineno', 0))
        if ev.kind == 'call' and not ev.inlined and isinstance(ev.fn, tuple) and ev.fn[0] in ('func', 'bound', 'extm', 'fld'):
            opaque = True
        if effect is None and touched(it, xs, g):
            effect = '%s at %s' % ({'binop': 'a computation', 'order': 'a comparison', 'assume': 'a decision'}.get(ev.kind, 'a ' + ev.kind), ev.where)
    if effect is None and has_out(g, p, xs):
        effect = 'the output'
    return effect, seen, opaque


def has_out(g, p, xs):
    return g.holds(p.value, xs, objects=False)


TEXT = ('__init__', '__str__', '__repr__', '__deepcopy__', '__copy__', '__eq__', '__hash__', '__getstate__', '__reduce__', '__new__')


def load(ctx, key, attrs, visited):
    """A function outside construction and printing that reads one of the attributes."""
    prog = ctx.prog
    fam = set()
    c = prog.classes[key]
    for k, d in prog.classes.items():
        mro = [getattr(b, 'key', None) for b in prog.mro(d)]
        if key in mro:
            fam |= {x for x in mro if x}
    fam |= {getattr(b, 'key', None) for b in prog.mro(c)}
    for fk, f in sorted(prog.funcs.items()):
        if f.name in TEXT or not f.mod.name.startswith('klang'):
            continue
        inside = f.cls is not None and getattr(f.cls, 'key', f.cls) in fam
        if not inside and f.parent is not None:
            g = f.parent
            while g is not None and not inside:
                inside = getattr(g, 'cls', None) is not None and getattr(g.cls, 'key', g.cls) in fam
                g = getattr(g, 'parent', None)
        me = f.node.args.args[0].arg if getattr(f.node, 'args', None) and f.node.args.args else None
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in attrs:
                own = isinstance(x.value, ast.Name) and x.value.id == me and f.cls is not None
                if (inside or not own and not elsewhere(prog, f.mod, c, x.attr)) and not (fk in visited and evaluated(f.node, x, visited[fk])):
                    return fk
    return None


def imports(prog, mod, seen=None):
    """Modules of the library a module imports, itself included."""
    seen = {} if seen is None else seen
    if mod.name in seen:
        return seen
    seen[mod.name] = mod
    for x in ast.walk(mod.tree):
        names = []
        if isinstance(x, ast.Import):
            names = [a.name for a in x.names]
        elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
            names = [x.module] + ['%s.%s' % (x.module, a.name) for a in x.names]
        elif isinstance(x, ast.ImportFrom):
            return {m.name: m for m in prog.mods.values()}
        for n in names:
            if n in prog.mods:
                imports(prog, prog.mods[n], seen)
    return seen


def elsewhere(prog, mod, c, attr):
    """The module does not know the class, and knows another one with such an attribute."""
    near = imports(prog, mod)
    if c.mod.name in near:
        return False
    for m in near.values():
        for d in ast.walk(m.tree):
            if isinstance(d, ast.ClassDef):
                for y in ast.walk(d):
                    if isinstance(y, ast.FunctionDef) and y.name == attr:
                        return True
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == attr and isinstance(y.value, ast.Name) and y.value.id == 'self':
                        return True
    return False


def evaluated(fn, x, lines):
    """The expression was certainly evaluated: the innermost branch it stands in did run, and it stands in it unconditionally."""
    body, found = fn.body if isinstance(fn.body, list) else [], None

    def inner(stmts):
        nonlocal found
        for s in stmts:
            if not any(y is x for y in ast.walk(s)):
                continue
            found = stmts
            for name in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, name, None)
                if isinstance(sub, list) and not isinstance(s, ast.ClassDef):
                    inner(sub)
            for h in getattr(s, 'handlers', ()):
                inner(h.body)
            for y in ast.walk(s):
                if isinstance(y, (ast.IfExp, ast.BoolOp, ast.Lambda, ast.FunctionDef, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and y is not s \
                        and any(z is x for z in ast.walk(y)):
                    found = None
                    return
    inner(body)
    return found is not None and any(getattr(y, 'lineno', 0) in lines for s in found for y in ast.walk(s))


def options(ctx):
    """Optional arguments of functions and methods are read."""
    n = 0
    for key, f in sorted(ctx.prog.funcs.items()):
        if not f.mod.name.startswith('klang') or not isinstance(f.node, ast.FunctionDef) or f.name == '__init__':
            continue
        a = f.node.args
        ps = [*a.posonlyargs, *a.args]
        names = [x.arg for x in ps[len(ps) - len(a.defaults):]] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, (ast.Pass, ast.Raise))]
        if not names or not body:
            continue
        seen = {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        if seen & {'locals', 'vars', 'eval', 'exec'}:
            continue
        kin = [b[1] for c in others_of(ctx, f) for b in c.members[f.name] if b[0] == 'func']
        nodes = [getattr(g, 'node', None) for g in kin]
        shared = {y.arg for d in nodes if isinstance(d, ast.FunctionDef) for y in [*d.args.posonlyargs, *d.args.args, *d.args.kwonlyargs]}
        for x in names:
            n += 1
            if x not in seen and not x.startswith('_') and x not in shared and not unused(f, x):
                ctx.rep.bad('option', '%s(%s)' % (key, x), '%s is accepted but never read' % x, f.where)
    ctx.rep.ok('option', 'functions and methods', '%d optional arguments' % n)


def others_of(ctx, f):
    """The same method of the classes above and below (it may share its interface with them)."""
    c = ctx.prog.classes.get(getattr(f.cls, 'key', f.cls)) if f.cls is not None else None
    if c is None:
        return []
    kin = [b for b in ctx.prog.mro(c) if b is not c] + [b for b in ctx.prog.classes.values() if b is not c and c in ctx.prog.mro(b)]
    return [b for b in kin if f.name in getattr(b, 'members', ())]


def unused(f, x):
    """The default or the documentation says that the argument is not used."""
    a = f.node.args
    ps = [*a.posonlyargs, *a.args]
    defaults = dict(zip([y.arg for y in ps[len(ps) - len(a.defaults):]], a.defaults))
    defaults.update((y.arg, d) for y, d in zip(a.kwonlyargs, a.kw_defaults))
    d = defaults.get(x)
    if isinstance(d, ast.Name) and d.id.upper() == 'UNUSED' or isinstance(d, ast.Attribute) and d.attr.upper() == 'UNUSED':
        return True
    return any('unused' in line.lower() for line in (ast.get_docstring(f.node) or '').splitlines() if line.strip().startswith(x))
