"""C15: the native extensions are memory safe."""
import os

from ..cfront import C, MEMBER, NULL, TooMany, Unsupported, cshow, split
from ..cmod import SELF, Module, modules
from ..core import V, clause

EXPLAIN = ('Path-sensitive abstract interpretation of the C extension modules over clang\'s syntax tree: every function the interpreter can enter is followed '
           'along every path, file-local functions included, with every API call that can fail followed both ways. On the way it is checked that no null '
           'pointer is followed, every access lies inside its memory (linear constraints; object invariants are inferred: established by the constructor, '
           'kept by every operation), no integer division has a zero divisor, reference counts and allocations are balanced on every exit, errors are '
           'reported exactly when a failure value is returned, parsed arguments fit the variables they are stored in, and samples are only read from '
           'converted, contiguous, one dimensional arrays.')
ASSUME = ['arrays have fewer than 2^31 samples', 'the Python C API behaves as documented (stub headers in klint/cstub)', 'one thread at a time (the GIL)']
MINIMUM = 10
TECHNIQUE = 'abstract interpretation of C (ownership typestate, polyhedral bounds, inferred object invariants)'
RULES = {'null': 'no null pointer is followed', 'bounds': 'every access lies inside its memory', 'zero': 'no integer division by zero',
         'owned': 'what a path owns is released, handed over or stored exactly once', 'alive': 'nothing is used after its release',
         'format': 'parsed arguments fit the variables they are stored in', 'input': 'samples are read from converted contiguous double arrays',
         'init': 'no variable is used before it has a value', 'error': 'a failure value is returned exactly when an error is set',
         'tables': 'method, attribute and member tables are closed and their entries fit the functions', 'free': 'the destructor releases what the object owns'}


def check(ctx):
    for k, v in RULES.items():
        ctx.rep.rule(k, v)
    for path in modules(ctx.root):
        try:
            m = Module(ctx.root, path)
        except Unsupported as e:
            ctx.rep.und('parse', os.path.relpath(path, ctx.root), str(e))
            continue
        clause(ctx, 'module', module, m)


def module(ctx, m):
    rep = ctx.rep
    for rule, verdict, text, where in m.problems:
        rep.add(verdict, rule, text.split(' has')[0].split(' ends')[0], text, where)
    inf = {}
    for tn in m.types:
        inf[tn] = m.infer(tn)
        layout(ctx, m, tn)
    done = set()
    stored = {}                        # type -> fields that receive something owned
    runs = []
    for r in m.roles:
        nargs = len(m.params(r.func))
        if r.kind in ('method', 'function') and nargs > r.nargs or r.kind == 'set' and nargs > 3 or r.kind == 'get' and nargs > 2:
            rep.bad('tables', r.func, '%s is called with %s arguments and declares %d' % (r.func, r.nargs, nargs), m.unit.where(m.unit.funcs[r.func]))
        key = (r.kind, r.func, frozenset(inf[r.tname][0]) if r.tname else None, m.dealloc(r.tname) if r.tname else None)
        if key in done:
            continue
        done.add(key)
        keep = inf[r.tname][0] if r.tname else ()
        try:
            I, ps = m.paths(r, keep)
        except (Unsupported, TooMany) as e:
            rep.und('followed', r.func, str(e))
            continue
        rep.paths += len(ps)
        rep.funcs |= {m.unit.rel + ':' + f for f in I.visited}
        runs.append((r, I, ps))
        for p in ps:
            owner = p.value if r.kind == 'new' else SELF
            for loc, v in p.st.mem.items():
                if loc[0] == 'mem' and loc[1] == owner and v[0] == 'h' and v in p.st.res and not p.st.res[v].get('borrowed') and not p.st.res[v].get('dead'):
                    stored.setdefault(r.tname, {})[loc[2]] = p.st.res[v]
    for r, I, ps in runs:
        vague = inf[r.tname][1] if r.tname else []
        body(ctx, m, r, I, vague, inf[r.tname][2] if r.tname else [])
        v = V(ctx, 'owned', r.label + ' (%s)' % r.func)
        e = V(ctx, 'error', r.label + ' (%s)' % r.func)
        for p in ps:
            if p.kind != 'ret':
                continue
            result(m, r, p, e)
            balance(m, r, p, v, stored.get(r.tname, {}))
        v.done('%d paths' % len(ps))
        if r.kind != 'dealloc':
            e.done('%d paths' % len(ps))
        if r.kind == 'dealloc':
            destructor(ctx, m, r, ps, stored.get(r.tname, {}))


def body(ctx, m, r, I, vague, broken):
    """Obligations met on the way, one verdict per rule and function."""
    per = {}
    for o in I.obls:
        v = o.verdict
        if v == 'bad' and o.rule in ('bounds', 'zero', 'null') and vague and r.kind not in ('new', 'dealloc', 'module'):
            v = 'und'
        k = (o.rule, r.func)
        cur = per.get(k)
        rank = {'ok': 0, 'und': 1, 'bad': 2}
        if cur is None or rank[v] > rank[cur[0]]:
            per[k] = (v, o.text, o.where, 0)
        per[k] = per[k][:3] + (per[k][3] + 1,)
    for (rule, f), (v, text, where, n) in sorted(per.items()):
        note = ''
        if v == 'bad' and broken and rule in ('bounds', 'zero', 'null'):
            note = ' (not kept: %s)' % ', '.join('%s in %s' % x for x in broken[:3])
        ctx.rep.add(v, rule, f, (text if v != 'ok' else '%d sites' % n) + note, where)


def result(m, r, p, e):
    """Failure value and error indicator agree."""
    st = p.st
    if r.kind == 'dealloc':
        return
    if st.und or st.err not in ('set', 'clear'):
        e.und(', '.join(st.und))
        return
    end = next((x.where for x in reversed(st.events) if x.kind == 'return'), '')
    if p.value is None or p.value[0] == 'undef':
        e.bad('%s can end without a value' % r.func, end)
        return
    if r.kind in ('set', 'init'):
        if p.value not in (C(0), C(-1)):
            if p.value[0] == 'const':
                fails = p.value[2] < 0 or p.value[2] != 0 and r.kind == 'set'
            else:
                e.und('value %s' % cshow(p.value))
                return
        else:
            fails = p.value == C(-1)
    else:
        fails = p.value == NULL
        if not fails and p.value[0] not in ('h', 'addr', 'sym', 'fld', 'func'):
            e.und('value %s' % cshow(p.value))
            return
    if fails and st.err == 'clear':
        e.bad('%s fails without setting an error' % r.func, end)
    if not fails and st.err == 'set':
        e.bad('%s returns a value although an error is set' % r.func, end)


def balance(m, r, p, v, stored):
    """What a path owns at its end."""
    st = p.st
    end = next((x.where for x in reversed(st.events) if x.kind == 'return'), '')
    if st.und:
        v.und(', '.join(st.und))
        return
    live = {SELF} if r.kind not in ('new', 'module', 'function', 'dealloc') else set()
    obj = r.kind in ('new', 'get', 'method', 'module', 'function')
    if obj and p.value is not None and p.value[0] == 'h':
        live.add(p.value)
    grow = True
    while grow:                                        # what live objects point to is reachable
        grow = False
        for loc, x in st.mem.items():
            if loc[0] in ('mem', 'at') and loc[1] in live and x[0] == 'h' and x not in live and st.res.get(x, {}).get('kind') == 'mem':
                live.add(x)
                grow = True
    slots = {}
    for loc, x in st.mem.items():
        if loc[0] in ('mem', 'at') and (loc[1] in live or split(loc[1])[0] in live) and x[0] == 'h':
            slots.setdefault(x, []).append(loc)
        if loc[0] == 'glob' and x[0] == 'h':
            slots.setdefault(x, []).append(loc)
    for h, x in st.res.items():
        if h == SELF and r.kind == 'dealloc':
            continue
        n = x['n']
        want = len(slots.get(h, ()))
        if obj and p.value == h:
            want += 1
        if x['kind'] == 'mem':
            if x.get('borrowed'):
                continue
            if x.get('dead'):
                if slots.get(h):
                    v.bad('%s keeps pointing to memory that was released' % cshow(slots[h][0]), end)
                continue
            if not slots.get(h) and p.value != h:
                v.bad('memory from %s is never released on this path' % cshow(h), end)
            continue
        if x.get('dead'):
            if want:
                v.bad('an object is returned or stored after it was released', end)
            continue
        if x.get('borrowed'):
            # references beyond the borrowed one: every store or return needs its own
            if obj and p.value == h and n < 1:
                v.bad('%s is returned without a reference of its own' % cshow(h), end)
            elif n < want:
                v.bad('%s is stored without a reference of its own' % cshow(h), end)
            elif n > want:
                v.bad('a reference to %s is never released' % cshow(h), end)
            continue
        if n > want:
            v.bad('a reference to the object from %s is never released on this path' % cshow(h), end)
        elif n < want and not x.get('kept'):
            v.bad('the object from %s is returned or stored without a reference of its own' % cshow(h), end)
    # a field that owns something is replaced
    if r.kind in ('init', 'set', 'method') and stored:
        for f, info in stored.items():
            old = ('fld', SELF, f, 0)
            cur = st.mem.get(('mem', SELF, f), old)
            gone = any(k == old and (x.get('freed') or x.get('dead')) for k, x in st.res.items())
            if info['kind'] == 'mem':
                if cur != old and not gone:
                    v.bad('what %s owned before is never released' % f, end)
                if cur == old and gone:
                    v.bad('%s keeps pointing to memory that was released' % f, end)
    if obj and p.value is not None and p.value[0] in ('sym', 'fld', 'addr') and p.value not in st.res:
        v.bad('%s is returned without a reference of its own' % cshow(p.value), end)


def destructor(ctx, m, r, ps, stored):
    v = V(ctx, 'free', r.func)
    for p in ps:
        if p.kind != 'ret':
            continue
        x = p.st.res.get(SELF, {})
        end = m.unit.where(m.unit.funcs[r.func])
        if p.st.und:
            v.und()
            continue
        if x.get('freed', 0) != 1:
            v.bad('the object itself is released %d times' % x.get('freed', 0), end)
        order = [e for e in p.st.events if e.kind in ('free', 'call')]
        for f, info in stored.items():
            old = ('fld', SELF, f, 0)
            if info['kind'] == 'mem':
                fr = p.st.res.get(old, {}).get('freed')
                null = p.st.facts.get(('eq', NULL, old))
                if not fr and not null:
                    v.bad('the memory %s points to is never released' % f, end)
                elif fr and fr != info.get('family'):
                    v.bad('the memory %s points to is released with %s, but comes from another allocator' % (f, fr), end)
            else:
                n = p.st.res.get(old, {}).get('n', 0)
                if n != -1 and not p.st.facts.get(('eq', NULL, old)):
                    v.bad('the reference in %s is released %d times' % (f, -n), end)
    v.done('%d paths' % len(ps))


def layout(ctx, m, tn):
    """Size of the objects and types of the exposed members."""
    u, q = m.unit, m.struct(tn)
    v = V(ctx, 'tables', tn)
    if q is None:
        v.und('structure')
        v.done()
        return
    where = u.where(u.vars[tn])
    try:
        need = u.sizeof(q)
        have = m.types[tn].get('tp_basicsize')
        if not have or have[0] != 'int':
            v.und('size')
        elif have[1] < need:
            v.bad('objects are allocated with %s bytes and need %d' % (have[1], need), where)
        item = m.types[tn].get('tp_itemsize')
        lay = u.layout(q)
        for name, row in m.members.get(tn, []):
            t = row.get('type', ('?',))
            off = row.get('offset', ('?', ''))
            if t[0] != 'int' or off[0] != 'offset':
                v.und('member %s' % name)
                continue
            fld = off[1].rpartition(',')[2].strip(' )')
            st = off[1].partition('(')[2].rpartition(',')[0].strip()
            if u.strip(st) != q and u.strip(st) not in u.named or fld not in lay:
                v.und('member %s' % name)
                continue
            o, s, ft = lay[fld]
            if MEMBER.get(t[1]) != s:
                v.bad('%s is exposed with %s bytes, the field %s has %d' % (name, MEMBER.get(t[1]), fld, s), where)
            flt = ft in ('double', 'float')
            if (t[1] in (3, 4)) != flt:
                v.bad('%s is exposed as another type than the field %s has' % (name, fld), where)
            if t[1] in (6, 16) and not ft.endswith('*'):
                v.bad('%s is exposed as an object' % name, where)
    except Unsupported as e:
        v.und(str(e))
    v.done()
