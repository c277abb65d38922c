"""C24: held notes stay ordered and addressed by pitch."""
from ..core import V, clause
from ..engine import C, FALSE, NONE, TRUE, is_const, show
from ..lin import fname
from ..poly import poly
from ..walk import method_call, subterm

EXPLAIN = ('The order of the note containers (heap, ascending, descending, any) is a typestate: every change of a container moves it, loops are folded to a '
           'fixpoint, so the order at the point where a note is chosen is known for every history of notes. The choice is compared with the sign of the '
           'key for every policy. The arpeggio is followed the same way; after each change the play permutation must come from the new number of notes and '
           'the position must be inside it; the permutations of all orders are followed for every length up to a bound.')
ASSUME = ['notes compare by pitch first (their first field)', 'the elements of a container with keys are (key, note) pairs']
MINIMUM = 4
TECHNIQUE = 'typestate of container order over all paths, folded over loops; sign analysis of keys'
SY, AR = 'klang.audio.synthesizer.', 'klang.arpeggiator.'
EMPTY, HEAP, ASC, DESC, ANY, UNK = 'empty', 'heap', 'ascending', 'descending', 'unordered', 'unknown'
PURE = ('builtins.len', 'builtins.min', 'builtins.max', 'builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.iter', 'builtins.any', 'builtins.all',
        'builtins.next', 'builtins.enumerate', 'builtins.reversed', 'builtins.sum', 'builtins.zip', 'builtins.bool', 'builtins.range', 'builtins.str',
        'builtins.repr', 'builtins.print', 'builtins.isinstance', 'builtins.id', 'heapq.nsmallest', 'heapq.nlargest', 'itertools.chain',
        'bisect.bisect', 'bisect.bisect_left', 'bisect.bisect_right')
POLICIES = {'newest': ('time', -1), 'oldest': ('time', 1), 'lowest': ('pitch', 1), 'highest': ('pitch', -1)}
ORDERS = ('up', 'down', 'upDown', 'downUp', 'alternating', 'random')


def check(ctx):
    r = ctx.rep
    r.rule('order', 'the container is in order whenever a note is chosen from it')
    r.rule('policy', 'the chosen note is the one the policy asks for')
    r.rule('held', 'a note is held from its note-on to the note-off of its pitch')
    r.rule('deliver', 'the chosen note is handed to the voice')
    r.rule('sorted', 'arpeggio notes are sorted and free of duplicates')
    r.rule('refresh', 'the play permutation follows every change')
    r.rule('position', 'the play position stays inside the permutation')
    r.rule('permutation', 'the play permutation of every order consists of all positions')
    for pol in POLICIES:
        clause(ctx, 'order', scheduler, pol)
    clause(ctx, 'sorted', arpeggio)
    for o in ORDERS:
        clause(ctx, 'permutation', permutations, o)


# --- order of a container --------------------------------------------------
class Order:
    """Moves of the order of one container."""

    def __init__(self, c, start=ANY):
        self.c, self.who = c, {}
        self.put = []

    def fold(self, events, states):
        """Orders after events from a set of orders."""
        for e in events:
            if e.kind == 'loop':
                seen = set(states)
                while True:
                    more = set()
                    for q in e.paths:
                        if q.out is None or q.out[0] == 'cont' or (q.out[0] == 'brk' and e.exhausted):
                            more |= self.fold(q.events, seen)
                    if more <= seen:
                        break
                    seen |= more
                states = seen
            else:
                states = {self.move(e, s) for s in states}
        return states

    def note(self, e, new, old):
        if new != old:
            self.who[new] = e
        return new

    def move(self, e, s):
        c = self.c
        if e.kind == 'mut' and e.base == c:
            return self.note(e, self.mutate(e, s), s)
        if e.kind == 'setitem' and e.base == c:
            return self.note(e, ANY, s)
        if e.kind == 'call' and not e.inlined:
            f = fname(e.result) if e.result is not None and e.result[0] == 'call' else e.fn[1] if e.fn[0] == 'ext' else None
            args = list(e.args)
            if c not in args and not any(c == x for _, x in e.kwargs):
                return s
            if f is None or e.fn[0] == 'extm':
                return s if method_call(e) and method_call(e)[0] == c else self.note(e, UNK, s)
            if f in PURE:
                return s
            if args[:1] != [c]:
                return self.note(e, UNK, s)
            if f == 'heapq.heapify':
                return HEAP if s != ASC and s != EMPTY else s
            if f in ('heapq.heappush', 'heapq.heappushpop', 'heapq.heapreplace', 'heapq.heappop'):
                return self.note(e, HEAP if s in (EMPTY, HEAP, ASC) else s if s == UNK else ANY, s)
            if f in ('bisect.insort', 'bisect.insort_right', 'bisect.insort_left'):
                if e.kwargs or len(args) != 2:
                    return self.note(e, UNK, s)
                return self.note(e, ASC if s in (EMPTY, ASC) else s if s == UNK else ANY, s)
            if f == 'random.shuffle':
                return self.note(e, ANY, s)
            return self.note(e, UNK, s)
        return s

    def mutate(self, e, s):
        op = e.op
        if op in ('append', 'insert', 'appendleft', 'extend'):
            return ASC if s == EMPTY and op != 'extend' else s if s == UNK else ANY
        if op == 'clear':
            return EMPTY
        if op in ('remove', 'pop', 'delitem', 'popleft', 'discard'):
            if s == HEAP and not (op == 'pop' and not e.args):
                return ANY
            return s
        if op == 'sort':
            kw = dict(e.kwargs)
            if 'key' in kw:
                return UNK
            if kw.get('reverse', FALSE) == FALSE:
                return ASC
            return DESC if kw['reverse'] == TRUE else UNK
        if op == 'reverse':
            return {ASC: DESC, DESC: ASC, EMPTY: EMPTY, UNK: UNK}.get(s, ANY)
        return UNK


def insertion(e, c):
    """(inserted term, event) when the event puts something into the container."""
    if e.kind == 'mut' and e.base == c and e.op in ('append', 'insert', 'appendleft', 'add') and e.args:
        return e.args[-1]
    if e.kind == 'call' and not e.inlined and list(e.args[:1]) == [c] and len(e.args) >= 2:
        f = fname(e.result) if e.result is not None and e.result[0] == 'call' else None
        if f in ('heapq.heappush', 'bisect.insort', 'bisect.insort_right', 'bisect.insort_left', 'heapq.heappushpop', 'heapq.heapreplace'):
            return e.args[1]
    return None


def removal(e, c):
    return e.kind == 'mut' and e.base == c and e.op in ('remove', 'pop', 'delitem', 'popleft') or e.kind == 'call' and not e.inlined and (
        list(e.args[:1]) == [c] and e.result is not None and e.result[0] == 'call' and fname(e.result) in ('heapq.heappop', 'heapq.heapreplace'))


def split(p, f):
    """Events before and after the last call the client makes."""
    marks = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.func is f]
    return (p.events[:marks[-1]], p.events[marks[-1]:]) if marks else None


def on(p, note):
    """Whether the path knows that the note is a note-on: True, False, None."""
    for k, val in dict(p.facts).items():
        if k[0] == 'lt' and is_const(k[1]) and k[1][2] == 0 and k[2] == ('fld', note, 'velocity', 0):
            return val
        if k[0] == 'eq' and is_const(k[1]) and k[1][2] == 0 and k[2] == ('fld', note, 'velocity', 0):
            return not val
    return None


# --- monophonic synthesizer ------------------------------------------------
CLIENT = '''from klang.audio.synthesizer import MonophonicSynthesizer


def client(voice, hist, note):
    s = MonophonicSynthesizer(voice, %r)
    for h in hist:
        s.process_note(h)
    s.process_note(note)
'''


def scheduler(ctx, pol):
    con = 'MonophonicSynthesizer(policy=%r)' % pol
    f = ctx.client(CLIENT % pol)
    I = ctx.interp()
    note = ctx.obj('klang.messages.Note', 'note')
    ps = ctx.run(I, f, params={'note': note})
    order, policy, held, deliver = V(ctx, 'order', con), V(ctx, 'policy', con), V(ctx, 'held', con), V(ctx, 'deliver', con)
    n = [0, 0]
    rets = [p for p in ps or () if p.out[0] == 'ret']
    for p in ps or ():
        if p.out[0] == 'raise' and not any(e.kind == 'mutfail' for e in p.events[-1:]):
            order.und('raises')
    for p in rets:
        sp = split(p, f)
        if sp is None:
            order.und('calls')
            continue
        before, after = sp
        pushed = [(e, method_call(e, 'push')[2]) for e in after if e.kind == 'call' and not e.inlined and method_call(e, 'push')]
        pushed += [(e, e.args) for e in after if e.kind == 'mut' and e.op == 'append' and e.base[0] in ('fld', 'extm') and 'queue' in str(e.base)]
        if len(pushed) != 1 or len(pushed[0][1]) != 1:
            if not pushed and not any(e.kind == 'loop' for e in after):
                deliver.bad('the voice gets no note', after[-1] if after else f.key)
            else:
                deliver.und('note of the voice')
            continue
        got = pushed[0][1][0]
        ev = pushed[0][0]
        # the container: where the new note goes on some path
        conts = {c for q in rets for e in q.events for c in containers(e, note)}
        if len(conts) != 1:
            if not conts:
                held.und('no container')
            else:
                order.und('containers')
            continue
        c = conts.pop()
        isfull = full(p, c)
        put = [(e, insertion(e, c)) for e in after if insertion(e, c) is not None]
        gone = [e for e in after if removal(e, c)]
        st = on(p, note)
        if st is True and not put and got == note and isfull:
            held.bad('the new note is not held', ev)
        if st is False and put:
            held.bad('a note-off is held', put[0][0])
        if st is None and put and not any(show(('fld', note, 'velocity', 0)) in show_key(k) for k in dict(put[0][0].facts)):
            held.bad('notes are held without looking whether they are a note-on', put[0][0])
        for e in gone:
            guard(held, p, e, note)
        skips(held, after, c)
        if st is False and not gone and got == note and isfull is True:
            held.bad('a note-off reaches the voice though notes are held', ev)
        if got == note:
            if isfull is True and st is not True:
                deliver.und('note-off with notes')
            n[0] += 1
            continue
        ch = choice(got, c)
        if ch is None:
            policy.und('choice %s' % show(got)[:80])
            order.und('choice')
            continue
        o = Order(c)
        upto = after[:after.index(ev)]
        s0 = o.fold(before, {EMPTY})
        s = o.fold(upto, s0)
        n[1] += 1
        best = verdict(order, o, s, ch, ev, pol)
        if best is None:
            continue
        # key
        for e, item in put:
            sign(policy, pol, item, note, best, e, I, p)
    if not n[1]:
        order.und('no choice')
    for x in (order, policy, held, deliver):
        x.done('%d paths' % len(rets))


def containers(e, note):
    if e.kind == 'loop':
        for q in e.paths:
            for x in q.events:
                yield from containers(x, note)
        return
    base = e.base if e.kind == 'mut' else e.args[0] if e.kind == 'call' and not e.inlined and e.args else None
    if base is None:
        return
    x = insertion(e, base)
    if x is not None and (x == note or x[0] == 'tuple' and note in x[1]):
        yield base


def full(p, c):
    """The last thing the path knows about whether the container has elements."""
    v = p.st.ver(c)
    return dict(p.facts).get(('truthy', c, v))


def choice(t, c):
    """How a note is chosen from the container: 'first', 'last', 'min', 'max' or None."""
    if t[0] == 'idx' and t[2] in (C(1), C(-1)) and t[1][0] != 'cont':
        t = t[1]
    elif t[0] == 'tuple':
        return None
    if t[0] == 'idx' and t[1] == c and is_const(t[2]):
        return {0: 'first', -1: 'last'}.get(t[2][2])
    if t[0] == 'idx' and t[2] == C(0) and t[1][0] == 'call' and fname(t[1]) == 'heapq.nsmallest' and len(t[1][2]) == 2 and t[1][2][1] == c:
        return 'min'
    if t[0] == 'call' and fname(t) in ('builtins.min', 'builtins.max') and t[2] == (c,) and not t[3]:
        return fname(t)[-3:]
    return None


def verdict(v, o, states, ch, ev, pol):
    """'min' or 'max' when the choice is certain."""
    if ch in ('min', 'max'):
        return ch
    out = set()
    for s in states:
        if s == UNK:
            v.und('order')
            return None
        if s == ANY:
            # only keys that do not grow with time show that the order is lost
            if POLICIES[pol][0] == 'pitch':
                v.bad('the %s element is chosen from notes that are in no order' % ch, o.who.get(ANY, ev))
            else:
                e = o.who.get(ANY)
                if e is not None and e.kind == 'mut' and e.op in ('append', 'insert', 'appendleft'):
                    v.und('insertion at an end')
                else:
                    v.bad('the %s element is chosen from notes that are in no order' % ch, o.who.get(ANY, ev))
            return None
        if s == HEAP:
            if ch == 'last':
                v.bad('the last element of a heap is chosen', ev)
                return None
            out.add('min')
        elif s == EMPTY:
            continue
        else:
            out.add('min' if (s == ASC) == (ch == 'first') else 'max')
    return out.pop() if len(out) == 1 else None


def sign(v, pol, item, note, best, e, I, p):
    if item[0] != 'tuple' or not item[1] or item[1][-1] != note:
        v.und('element %s' % show(item)[:60])
        return
    k = item[1][0]
    n = poly(k)
    what, want = POLICIES[pol]
    if len(n) != 1:
        v.und('key %s' % show(k)[:60])
        return
    (mono, coef), = n.items()
    if len(mono) != 1:
        v.und('key %s' % show(k)[:60])
        return
    a = mono[0]
    kind = None
    if a == ('fld', note, 'pitch', 0):
        kind = 'pitch'
    elif a == ('fld', note, 'velocity', 0) or a == ('fld', note, 'frequency', 0):
        kind = a[2]
    elif a[0] == 'call' and fname(a) == 'builtins.next' and len(a[2]) == 1 and a[2][0][0] == 'call' and fname(a[2][0]) == 'itertools.count':
        ca = a[2][0]
        step = ca[2][1] if len(ca[2]) > 1 else dict(ca[3] or ()).get('step', C(1))
        if not is_const(step):
            v.und('step')
            return
        kind = 'time'
        coef = coef * (1 if step[2] > 0 else -1)
    elif a[0] == 'call' and fname(a) in ('time.time', 'time.perf_counter', 'time.monotonic'):
        kind = 'time'
    elif a[0] == 'call' and fname(a) == 'builtins.len' and what == 'time' and len(a[2]) == 1 and a[2][0][0] == 'cont':
        v.bad('notes are ordered by the number of held notes: a note gets the key of an older one after a release', e)
        return
    if kind is None:
        v.und('key %s' % show(k)[:60])
    elif kind == 'frequency' and what == 'pitch':
        v.und('frequency')
    elif kind != what:
        v.bad('notes are ordered by %s for policy %r' % (kind, pol), e)
    elif (coef > 0) != (want > 0) and best == 'min' or (coef > 0) == (want > 0) and best == 'max':
        other = [x for x, y in POLICIES.items() if y[0] == what and x != pol][0]
        v.bad('policy %r chooses the %s note' % (pol, other), e)


def guard(v, p, e, note):
    """A removed note is the one with the pitch of the note-off."""
    what = set()
    for k, val in dict(e.facts).items():
        if k[0] == 'eq':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if b == ('fld', note, 'pitch', 0) and 'each' in show(a) and a[0] in ('fld', 'idx'):
                    what.add(('pitch', val))
                elif b == note and 'each' in show(a):
                    what.add(('note', val))
                elif b[0] == 'fld' and b[1] == note and b[2] in ('velocity', 'frequency') and 'each' in show(a):
                    what.add((b[2], val))
    if ('pitch', True) in what:
        return
    if ('pitch', False) in what:
        v.bad('a note of another pitch is removed', e)
    elif ('note', True) in what:
        v.bad('a held note is only removed by an equal note, which a note-off never is (velocity)', e)
    elif ('velocity', True) in what or ('frequency', True) in what:
        v.bad('a held note is not removed by its pitch', e)
    else:
        v.und('removal')


def skips(v, events, c):
    """A search of the container leaves no element out."""
    for e in events:
        if e.kind != 'loop' or e.iter is None:
            continue
        t = e.iter
        if t[0] == 'idx' and t[1] == c and t[2][0] == 'op' and t[2][1] == 'slice':
            lo, hi, step = t[2][2]
            if lo not in (NONE, C(0)) and is_const(lo) or is_const(hi) and hi != NONE or is_const(step) and step not in (NONE, C(1), C(-1)):
                v.bad('some of the held notes are left out of the search', e)


# --- arpeggio --------------------------------------------------------------
ARP = '''from klang.arpeggiator import Arpeggio


def client(initial, hist, h2, h3, note):
    a = Arpeggio(%s, initial)
    for h in hist:
        a.add_note(h)
    for h in h2:
        a.remove_note(h)
    for h in h3:
        next(a)
    x = %s
    return a
'''
OPS = {'add': 'a.add_note(note)', 'remove': 'a.remove_note(note)', 'next': 'a.__next__()'}


def arpeggio(ctx):
    vs = {r: V(ctx, r, 'Arpeggio') for r in ('sorted', 'refresh', 'position')}
    per = ctx.optional(AR + 'arpeggio_index_permutation')
    note = ctx.obj('klang.messages.Note', 'note')
    runs = {}
    for name, op in OPS.items():
        f = ctx.client(ARP % ("'upDown'", op))
        I = ctx.interp(opaque=lambda g: per is not None and g.key == per.key)
        ps = ctx.run(I, f, params={'note': note})
        if ps is None:
            for v in vs.values():
                v.und('paths')
                v.done()
            return
        runs[name] = (f, I, ps)
    # the containers and fields: from what __next__ returns
    names = None
    f, I, ps = runs['next']
    for p in ps:
        sp = split(p, f)
        if p.out[0] != 'ret' or sp is None:
            continue
        for e in sp[1]:
            if e.kind == 'getitem' and e.key[0] == 'idx' and e.base[0] == 'cont':
                names = (e.base, attr_of(e.key[1]), attr_of(e.key[2]))
    if names is None or None in names:
        for v in vs.values():
            v.und('how notes are played')
            v.done()
        return
    c, pa, ca = names
    count = 0
    for name, (f, I, ps) in runs.items():
        a = None
        for p in ps:
            sp = split(p, f)
            if p.out[0] != 'ret' or sp is None:
                continue
            before, after = sp
            a = p.value
            count += 1
            o = Order(c)
            s = o.fold(after, o.fold(before, {EMPTY}))
            if UNK in s:
                vs['sorted'].und('order')
            elif s - {EMPTY, ASC}:
                vs['sorted'].bad('the notes of an arpeggio are not sorted', next((o.who[x] for x in s if x in o.who), after[0]))
            changed = [i for i, e in enumerate(after) if insertion(e, c) is not None or removal(e, c) or e.kind == 'mut' and e.base == c]
            if name == 'add':
                duplicates(vs['sorted'], p, after, c, note)
            if name == 'remove':
                for e in after:
                    if removal(e, c):
                        guard(vs['sorted'], p, e, note)
                skips(vs['sorted'], after, c)
            refresh(ctx, vs['refresh'], p, after, changed, c, a, pa, per, I)
            position(vs['position'], p, after, a, pa, ca, name)
    if not count:
        vs['sorted'].und('no path')
    for v in vs.values():
        v.done('%d paths' % count)


def attr_of(t):
    if t[0] == 'phi' and isinstance(t[2], tuple) and len(t[2]) == 2 and isinstance(t[2][1], str):
        return t[2][1]
    if t[0] == 'fld':
        return t[2]
    return None


def duplicates(v, p, after, c, note):
    for i, e in enumerate(after):
        x = insertion(e, c)
        if x is None:
            continue
        if x != note:
            v.und('inserted %s' % show(x)[:40])
            continue
        ok, seen = False, False
        for l in after[:i]:
            if l.kind == 'loop' and (l.iter == c or subterm(l.iter, c)):
                seen = True
                if l.iter[0] == 'idx' and l.iter[2][0] == 'op' and l.iter[2][1] == 'slice' and l.iter[2][2] != (NONE, NONE, NONE):
                    cut = [x for x in l.iter[2][2][:2] if x[0] == 'call' and fname(x).startswith('bisect.') and x[2][:2] == (c, note)]
                    if cut:
                        v.bad('only notes on one side of the new note are looked at: a pitch can be held twice', e)
                        ok = True
                    continue
                goes = [q for q in l.paths if q.out is None or q.out[0] == 'cont']
                if l.exhausted and goes and all(compares(q, note, 'pitch') is False for q in goes):
                    ok = True
                elif any(compares(q, note, None) is not None for q in l.paths) and not any(compares(q, note, 'pitch') is not None for q in l.paths):
                    v.bad('notes of the same pitch are only told apart as whole notes: a pitch can be held twice', e)
                    ok = True
        for k, val in dict(e.facts).items():
            if k[0] == 'in' and not val:
                seen = True
                if k[1] == note and k[2] == c:
                    v.bad('notes of the same pitch are only told apart as whole notes: a pitch can be held twice', e)
                    ok = True
        if ok:
            continue
        if not seen and not any(k[0] in ('in', 'truthy', 'eq') and 'pitch' in show_key(k) for k in dict(e.facts)):
            v.bad('a note is inserted without looking for its pitch', e)
        else:
            v.und('duplicates')


def show_key(k):
    return ' '.join(show(x) for x in k[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))


def compares(q, note, field):
    """Value of the comparison of an element with the note (its field, or the whole note) on an iteration, or None."""
    want = ('fld', note, field, 0) if field else note
    for e in q.events:
        if e.kind == 'assume' and e.key[0] == 'eq' and want in (e.key[1], e.key[2]):
            return e.val
    return None


def refresh(ctx, v, p, after, changed, c, a, pa, per, I):
    if not changed:
        return
    later = [e for e in after[changed[-1] + 1:] if e.kind == 'write' and e.base == a and e.attr == pa]
    if not later:
        if any(e.kind == 'mut' and subterm(e.base, a) for e in after[changed[-1] + 1:]):
            v.und('changed in place')
        else:
            v.bad('the notes change but the play permutation stays', after[changed[-1]])
        return
    t = later[-1].value
    if per is None or t[0] != 'call' or not isinstance(t[1], tuple) or t[1][0] != 'func' or t[1][1] != per.key:
        v.und('permutation %s' % show(t)[:60])
        return
    names = [x.arg for x in per.node.args.args]
    args = dict(zip(names, t[2]))
    args.update({k: x for k, x in t[3] or () if k})
    if args.get('order') != C('upDown') and 'order' in args:
        if is_const(args['order']):
            v.bad('the permutation is of order %s' % show(args['order']), later[-1])
        else:
            v.und('order')
    n = args.get('length')
    if n is None:
        v.und('length')
    elif n[0] == 'call' and fname(n) == 'builtins.len' and n[2] == (c,):
        if n[4] != (p.st.ver(c) or None):
            v.bad('the permutation is of the number of notes before the change', later[-1])
    else:
        v.und('length %s' % show(n)[:60])


def position(v, p, after, a, pa, ca, name):
    """The play position is inside the permutation after the operation."""
    P = p.st.heap.get((a, pa))
    cur = p.st.heap.get((a, ca))
    if P is None or cur is None:
        return
    wp = [e for e in after if e.kind == 'write' and e.base == a and e.attr == pa]
    wc = [e for e in after if e.kind == 'write' and e.base == a and e.attr == ca]
    if not wp and not wc:
        return
    if is_const(cur):
        if cur[2] != 0:
            v.bad('the play position is set to %s' % show(cur), wc[-1])
        return
    if cur[0] == 'op' and cur[1] == '%' and cur[2][1][0] == 'call' and fname(cur[2][1]) == 'builtins.len':
        if cur[2][1][2] != (P,):
            v.bad('the play position is wrapped at the length of something else than the current permutation', wc[-1])
        return
    if cur[0] == 'op' and cur[1] == '%':
        d = poly(cur[2][1])
        one = [(m, k) for m, k in d.items() if m]
        if len(one) == 1 and len(one[0][0]) == 1 and one[0][1] == 1. and one[0][0][0][0] == 'call' and fname(one[0][0][0]) == 'builtins.len' \
                and one[0][0][0][2] == (P,) and d.get((), 0.) > 0:
            v.bad('the play position is wrapped behind the end of the permutation', wc[-1])
            return
    facts = dict(p.facts)
    for k, val in facts.items():
        if k[0] == 'lt' and k[1] == cur and k[2][0] == 'call' and fname(k[2]) == 'builtins.len' and k[2][2] == (P,) and val:
            return
    if not wc:
        v.bad('the permutation changes but the play position is not kept inside', wp[-1])
        return
    if cur[0] == 'op' and cur[1] == '+' and attr_of(cur[2][0]) == ca and is_const(cur[2][1]) and not any(
            k[0] in ('lt', 'eq') and any(isinstance(x, tuple) and subterm(x, cur) for x in k[1:]) for k in facts):
        v.bad('the play position grows without a bound', wc[-1])
    else:
        v.und('position %s' % show(cur)[:60])


def permutations(ctx, order):
    """For every number of notes the permutation has exactly the positions of all notes."""
    v = V(ctx, 'permutation', 'order %r' % order)
    per = ctx.optional(AR + 'arpeggio_index_permutation')
    if per is None:
        v.und('no such function')
        return v.done()
    top = 24 if ctx.thorough else 9
    where = '%s:%d (%s)' % (per.mod.rel, per.node.lineno, per.key)
    for n in range(top):
        f = ctx.client('from klang.arpeggiator import arpeggio_index_permutation\n\n\ndef client():\n    return arpeggio_index_permutation(%r, %d)\n' % (order, n))
        I = ctx.interp()
        for p in ctx.run(I, f) or ():
            if p.out[0] == 'raise':
                v.bad('%d notes raise %s' % (n, show(p.out[1][1])), where)
                continue
            t = p.value
            if t is None or t == NONE:
                v.bad('no permutation of %d notes' % n, p.out[1] if False else where)
                continue
            items = I.contents(t, p.st)
            if items is None:
                s = p.st.heap.get((t, '#shuffled'))
                items = list(s[1]) if s is not None and s[0] == p.st.ver(t) else None
            if t[0] == 'call' and fname(t) == 'random.choices':
                v.bad('positions of the permutation are drawn with repetition', where)
                continue
            if t[0] == 'call' and fname(t) == 'random.sample' and len(t[2]) == 2 and t[2][1] == C(n) and I.contents(t[2][0], p.st) is not None:
                items = I.contents(t[2][0], p.st)
            if items is None or not all(is_const(x) for x in items):
                v.und('permutation of %d: %s' % (n, show(t)[:60]))
                continue
            got = [x[2] for x in items]
            if set(got) - set(range(n)):
                v.bad('the permutation of %d notes is %s: %s is no position' % (n, got, sorted(set(got) - set(range(n)))), where)
            elif set(range(n)) - set(got):
                v.bad('the permutation of %d notes is %s: %s is never played' % (n, got, sorted(set(range(n)) - set(got))), where)
    return v.done('lengths up to %d' % (top - 1))
