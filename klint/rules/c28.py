"""C28: looking up music data by name is exact first, never a guess."""
from ..core import V, clause
from ..engine import C, is_const, show
from ..lin import Sys, fname
from ..poly import normal
from ..walk import Range, flat, subterm

EXPLAIN = ('All paths of the lookup for an arbitrary table and name: a returned entry is either the one of exactly that name (the path has established that '
           'the table has it), or belongs to a key from a list that only takes keys of zero distance, after the exact name was excluded and with the list '
           'known to have one element; every error is a value error and is raised only for a positive least distance or several candidates. The '
           'distance is the edit recurrence with the costs in their places, the public lookups ask their own table with the name as given.')
ASSUME = ['names are strings, entries of the tables have non empty names', 'distances are not negative']
MINIMUM = 3
TECHNIQUE = 'path conditions and provenance of returned entries over all paths of the lookup'
U = 'klang.util.'
TABLES = {'klang.music.scales.find_scale': ('klang.music.scales', 'KNOWN_SCALES'), 'klang.music.chords.find_chord': ('klang.music.chords', 'CHORDS'),
          'klang.music.intervals.find_interval': ('klang.music.intervals', 'INTERVALS'),
          'klang.music.tunings.find_temperament': ('klang.music.tunings', 'TEMPERAMENTS')}
D, NAME = ('sym', 'dct'), ('sym', 'name')


def check(ctx):
    r = ctx.rep
    r.rule('exact', 'an entry of exactly the name is returned if there is one')
    r.rule('single', 'otherwise only the single entry of zero distance is returned')
    r.rule('error', 'an unknown or ambiguous name is a value error, nothing else')
    r.rule('distance', 'distances are edit distances from the name to the key')
    r.rule('table', 'every lookup asks its own table for the name as given')
    clause(ctx, 'exact', lookup)
    clause(ctx, 'error', errors)
    clause(ctx, 'distance', recurrence)
    for key in TABLES:
        clause(ctx, 'table', public, key)


SRC = 'from klang.util import find_item\n\n\ndef client(dct, name):\n    return find_item(dct, name)\n'


def distance_call(t):
    return t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'func' and t[1][1] == U + 'levenshtein'


def has(p):
    """Whether the path knows if the table has exactly the name."""
    for k, val in dict(p.facts).items():
        if k[0] == 'in' and k[1] == NAME and root(k[2]) == D:
            return val
    return None


def root(t):
    while t[0] == 'dictview':
        t = next(x for x in t[1:] if isinstance(x, tuple))
    if t[0] == 'call' and t[1] in ('builtins.list', 'builtins.set', 'builtins.tuple', 'builtins.sorted') and t[2]:
        return root(t[2][0])
    return t


class Lists:
    """What the comprehensions and loops of a path put into their containers."""

    def __init__(self, p):
        self.p, self.put = p, {}
        for it in flat(p):
            e = it.ev
            if e.kind == 'compelt':
                self.put.setdefault(e.comp, []).append((e, e.value))
            elif e.kind == 'mut' and e.op in ('append', 'add') and e.args:
                self.put.setdefault(e.base, []).append((e, e.args[0]))
            elif e.kind == 'setitem':
                self.put.setdefault(e.base, []).append((e, ('tuple', (e.key, e.value))))

    def distance(self, t):
        """The term is the distance of an element: (element, call) or None."""
        if distance_call(t):
            return t
        if t[0] == 'idx' and t[1] in self.put:
            ds = {distance_call(v[1][1]) and v[1][1] for e, v in self.put[t[1]] if v[0] == 'tuple' and len(v[1]) == 2}
            if len(ds) == 1 and None not in ds and False not in ds:
                return ds.pop()
        return None

    def minimum(self, t):
        """The term is the least distance."""
        if t[0] == 'call' and fname(t) == 'builtins.min' and len(t[2]) == 1 and not dict(t[3] or ()).get('key'):
            x = t[2][0]
            if x[0] == 'dictview':
                return root(x) in self.put and x[1] == 'values'
            vs = [v for e, v in self.put.get(x, ())]
            return bool(vs) and all(self.distance(v) for v in vs)
        return False


def lookup(ctx):
    x, s, r = V(ctx, 'exact', 'find_item'), V(ctx, 'single', 'find_item'), V(ctx, 'error', 'find_item')
    dist = V(ctx, 'distance', 'find_item')
    f = ctx.client(SRC)
    I = ctx.interp(opaque=lambda g: g.key == U + 'levenshtein')
    ps = ctx.run(I, f, args=[D, NAME]) or []
    exact = False
    for p in ps:
        ls = Lists(p)
        for it in flat(p):
            if it.ev.kind == 'call' and it.ev.result is not None and it.ev.result[0] == 'call' and distance_call(it.ev.result):
                asked(dist, it.ev)
        h = has(p)
        ev = next((e for e in reversed(p.events) if e.kind in ('call', 'getitem', 'assume', 'raise')), None)
        if p.raises:
            if h is True:
                x.bad('the name is in the table but an error is raised', ev)
            elif h is None:
                x.und('error')
            else:
                justified(s, p, ls, ev)
                name = raised(p)
                if name not in VALUE and h is False:
                    r.bad('an unknown or ambiguous name raises %s' % name.rpartition('.')[2], ev)
            continue
        t = p.value
        if t == ('idx', D, NAME) or t[0] == 'idx' and t[1] == D and t[2] == NAME:
            exact = True
            if h is not True:
                x.und('not asked before')
            continue
        if h is True:
            if is_const(t):
                x.bad('the name is in the table but %s is returned' % show(t), ev)
            else:
                x.und(show(t)) if not (t[0] == 'idx' and t[1] == D) else x.bad('the name is in the table but another entry is returned', ev)
            continue
        if is_const(t):
            r.bad('%s is returned for an unknown name' % show(t), ev)
            continue
        if not (t[0] == 'idx' and t[1] == D):
            s.und(show(t))
            continue
        if h is None:
            if any(e.kind == 'getitem' and e.base == D and e.key == NAME or e.kind == 'call' and e.fn[0] == 'extm' and e.fn[1] == D for e in p.events):
                x.und('lookup')
            else:
                x.bad('the exact name is not tried first', ev)
        single(s, p, ls, t[2], ev)
    if not exact:
        x.und('no exact lookup')
    if not ps:
        x.und('no path')
    for v in (x, s, r, dist):
        v.done('%d paths' % len(ps))


def asked(v, e):
    """Insertions cost nothing on the way from the name to the key, everything else something."""
    args, kw = list(e.args), dict(e.kwargs)
    if len(args) < 2:
        v.und('arguments')
        return
    cost = {'deletionCost': C(1), 'insertionCost': C(1), 'substitutionCost': C(1)}
    cost.update(kw)
    for n, a in zip(('deletionCost', 'insertionCost', 'substitutionCost'), args[2:]):
        cost[n] = a
    free, other = ('insertionCost', 'deletionCost')
    if args[0] != NAME and args[1] == NAME:
        free, other = other, free
    elif args[0] != NAME:
        v.und('the name is not compared')
        return
    if not all(is_const(c) for c in cost.values()):
        v.und('costs')
    elif cost[free][2] != 0:
        v.bad('a key that continues the name has a positive distance', e)
    elif cost[other][2] == 0:
        v.bad('a key that lacks letters of the name has zero distance', e)
    elif cost['substitutionCost'][2] == 0:
        v.bad('a key with other letters than the name has zero distance', e)


def single(v, p, ls, key, ev):
    facts = dict(p.facts)
    if key[0] == 'idx' and key[1] in ls.put and is_const(key[2]):
        cand = key[1]
        if not one(p, cand, facts):
            n = ('call', 'builtins.len', (cand,), (), None)
            r = Range(n, facts)
            if any(e.kind == 'call' and subterm(e.result, cand) and fname(e.result) == 'builtins.len' for e in p.events if e.kind == 'call' and e.result) and r.odd:
                v.und('number of candidates')
            elif not any(subterm(x, cand) for k in facts for x in k[1:] if isinstance(x, tuple)) or r.holds(2):
                v.bad('one of several candidates is returned', ev)
            else:
                v.und('number of candidates')
        for e, x in ls.put[cand]:
            near(v, p, ls, e, x, facts)
        return
    if key[0] == 'call' and fname(key) == 'builtins.min':
        v.bad('the nearest key is taken, whatever its distance and however many there are', ev)
        return
    v.und('key %s' % show(key))


def one(p, cand, facts):
    """The list is known to have one element."""
    if any(e.kind == 'unpack' and e.base == cand and e.count == 1 for e in p.events):
        return True
    for k in facts:
        for t in k[1:]:
            if isinstance(t, tuple) and t[:2] == ('call', 'builtins.len') and t[2] == (cand,):
                r = Range(t, facts)
                if not r.holds(2) and not r.holds(3):
                    return True
    return False


def near(v, p, ls, e, x, facts):
    """A key becomes a candidate only at zero distance."""
    f = dict(e.facts)
    f.update({k: val for k, val in facts.items() if k not in f})
    ok = und = False
    for k, val in f.items():
        for i in (1, 2):
            t = k[i] if len(k) > 2 else None
            if not isinstance(t, tuple) or k[0] not in ('eq', 'lt') or not ls.distance(t):
                continue
            o = k[3 - i]
            if is_const(o):
                if not Range(t, f).holds(1) and not Range(t, f).holds(.5) and not Range(t, f).holds(100):
                    ok = True
            elif ls.minimum(o) and k[0] == 'eq' and val:
                r = Range(o, f)
                if not r.holds(1) and not r.holds(100):
                    ok = True
                elif r.odd:
                    und = True
            else:
                und = True
    for k, val in f.items():
        if k[0] == 'truthy' and ls.distance(k[1]) and not val:
            ok = True
    if ok:
        return
    if und:
        v.und('distance of the candidates')
    else:
        v.bad('keys of a positive distance are candidates', e)


def justified(v, p, ls, ev):
    """An error on this path means a positive least distance or several candidates."""
    facts = dict(p.facts)
    know = und = False
    for k in facts:
        for t in k[1:]:
            if not isinstance(t, tuple):
                continue
            if ls.minimum(t) or ls.distance(t):
                r = Range(t, facts)
                if not r.holds(0):
                    return
                know, und = True, und or bool(r.odd)
            elif t[:2] == ('call', 'builtins.len') and t[2][0] in ls.put:
                r = Range(t, facts)
                if not r.holds(1):
                    return
                know, und = True, und or bool(r.odd)
            elif t[0] == 'cont' and t in ls.put and k[0] == 'truthy':
                if facts[k] is False:
                    return
                know = True
            elif t == NAME or t == D or is_const(t) or isinstance(t, int):
                pass
            else:
                und = True
    if know and not und:
        v.bad('a name with a single entry of zero distance is refused', ev)
    else:
        v.und('reason of an error')


VALUE = ('builtins.ValueError', 'builtins.UnicodeError', 'builtins.UnicodeDecodeError', '?')


def raised(p):
    """Name of the class of the error a path ends with."""
    exc = p.out[1]
    if exc[0] == 'exc' and isinstance(exc[1], tuple) and exc[1][0] == 'ext':
        return exc[1][1]
    if exc[0] == 'ext':
        return exc[1]
    return '?'


def errors(ctx):
    v = V(ctx, 'error', 'any name')
    f = ctx.client(SRC)
    n = 0
    for p in ctx.run(ctx.interp(), f, args=[D, NAME]) or ():
        if not p.raises:
            continue
        n += 1
        name = raised(p)
        if name in VALUE:
            continue
        s = Sys()
        odd = False
        for k in dict(p.facts):
            for t in k[1:]:
                odd |= strange(t, s)
        s.facts({k: val for k, val in dict(p.facts).items() if k[0] != 'in'})
        if odd:
            v.und('%s' % name)
        elif s.sat():
            v.bad('%s is raised' % name.rpartition('.')[2], p.out[2] if len(p.out) > 2 and hasattr(p.out[2], 'where') else 'klang/util.py:%d' % getattr(p.out[2], 'lineno', 0))
    v.done('%d errors' % n)


def strange(t, s):
    """Facts about anything but the lengths of the name and the keys; keys are not empty."""
    if not isinstance(t, tuple) or not t or is_const(t) or t in (NAME, D):
        return False
    if t[:2] == ('call', 'builtins.len') and t[2] == (NAME,):
        s.le(0, t)
        return False
    if t[:2] == ('call', 'builtins.len') and len(t[2]) == 1 and t[2][0][0] == 'elem':
        s.le(1, t)
        return False
    if t[0] == 'op':
        return any(strange(x, s) for x in t[2])
    return True


def recurrence(ctx):
    """Each cell is the least of the three neighbours plus the cost of their step."""
    v = V(ctx, 'distance', 'levenshtein')
    f = ctx.client('from klang.util import levenshtein\n\n\ndef client(a, b, d, i, s):\n    return levenshtein(a, b, d, i, s)\n')
    n = 0
    for p in ctx.run(ctx.interp(), f) or ():
        for it in flat(p):
            e = it.ev
            if e.kind != 'setitem' or len(it.loops) != 2 or e.key[0] != 'tuple' or len(e.key[1]) != 2:
                continue
            n += 1
            cell(v, e, it)
        break
    if not n:
        v.und('recurrence')
    v.done('%d cells' % n)


def index(t, base):
    """Row and column terms of a cell read from the matrix."""
    if t[0] == 'idx' and t[2][0] == 'tuple' and t[1] == base and len(t[2][1]) == 2:
        return t[2][1]
    if t[0] == 'idx' and t[1][0] == 'idx' and t[1][1] == base:
        return t[1][2], t[2]
    return None


def cell(v, e, it):
    row, col = e.key[1]
    val = e.value
    if fname(val) not in ('builtins.min', 'numpy.min') or len(val[2]) != 3:
        v.und(show(val))
        return
    want = {(-1, 0): ('sym', 'd'), (0, -1): ('sym', 'i'), (-1, -1): ('sym', 's')}
    seen = set()
    for t in val[2]:
        cost, read = None, None
        if t[0] == 'op' and t[1] == '+':
            for a, b in (t[2], t[2][::-1]):
                if index(a, e.base):
                    read, cost = index(a, e.base), b
        if read is None:
            read, cost = index(t, e.base), C(0)
        if read is None:
            v.und(show(t))
            return
        s = Sys()
        off = []
        for a, b in zip(read, (row, col)):
            o = next((k for k in (0, -1, 1) if s.holds('==', a, ('op', '+', (b, C(k))))), None)
            off.append(o)
        off = tuple(off)
        if None in off:
            v.und('cell %s' % show(t))
            return
        seen.add(off)
        w = want.get(off)
        if w is None:
            v.bad('a cell depends on its neighbour at %s, %s' % off, e)
            return
        leaf = {x for x in (('sym', 'd'), ('sym', 'i'), ('sym', 's')) if subterm(cost, x)}
        if leaf != {w}:
            if leaf:
                v.bad('the step from row %+d, column %+d costs %s instead of %s' % (off + (show(cost), {'d': 'a deletion', 'i': 'an insertion', 's': 'a substitution'}[w[1]])), e)
            elif is_const(cost):
                v.bad('the step from row %+d, column %+d costs %s' % (off + (show(cost),)), e)
            else:
                v.und(show(cost))
            return
        if off != (-1, -1) and normal(cost) != normal(w):
            v.und(show(cost))
    if len(seen) < 3:
        v.bad('the same neighbour is used twice', e)


def public(ctx, key):
    v = V(ctx, 'table', key.rpartition('.')[2])
    mod, table = TABLES[key]
    f = ctx.client('from %s import %s as lookup\n\n\ndef client(name):\n    return lookup(name)\n' % (mod, key.rpartition('.')[2]))
    own = ctx.client('from %s import %s as table\n\n\ndef client():\n    return table\n' % (mod, table))
    I = ctx.interp(opaque=lambda g: g.key == U + 'find_item')
    want = [p.value for p in ctx.run(I, own) or () if p.normal]
    others = {}
    for k, (m, t) in TABLES.items():
        o = ctx.client('from %s import %s as table\n\n\ndef client():\n    return table\n' % (m, t))
        for p in ctx.run(I, o) or ():
            if p.normal and k != key:
                others[p.value] = t
    n = 0
    for p in ctx.run(I, f) or ():
        if p.raises:
            continue
        n += 1
        hits = set()
        finds(p.value, hits)
        ev = next((e for e in reversed(p.events) if e.kind == 'call'), None)
        if len(hits) != 1:
            v.und('lookup')
            continue
        c = hits.pop()
        if len(c[2]) < 2:
            v.und('arguments')
            continue
        if c[2][1] != ('sym', 'name'):
            v.und('name %s' % show(c[2][1]))
        if len(want) == 1 and c[2][0] != want[0]:
            if c[2][0] in others:
                v.bad('the name is looked up in %s' % others[c[2][0]], ev)
            else:
                v.und('table %s' % show(c[2][0]))
        if key.endswith('find_scale'):
            if not (p.value[0] == 'idx' and p.value[2] == c):
                v.und('entry')
        elif p.value != c:
            v.und('entry')
    if not n:
        v.und('no path')
    v.done()


def finds(t, out):
    if isinstance(t, tuple):
        if t[:1] == ('call',) and isinstance(t[1], tuple) and t[1][0] == 'func' and t[1][1] == U + 'find_item':
            out.add(t)
        for x in t:
            finds(x, out)
