"""Helpers to read traces: flattening of loops, call matching."""
from .engine import NONE, C, is_const, show


class Item:
    """An event with the loops around it."""
    __slots__ = ('ev', 'loops', 'path', 'index')

    def __init__(self, ev, loops, path, index):
        self.ev, self.loops, self.path, self.index = ev, loops, path, index


def flat(path, loops=(), idx=()):
    """All events of a path in order, the ones of loop bodies with their loops (each iteration path in turn)."""
    for i, ev in enumerate(path.events):
        yield Item(ev, loops, path, idx + (i,))
        if ev.kind == 'loop' and ev.exhausted:
            for j, p in enumerate(ev.paths):
                yield from flat(p, loops + ((ev, p),), idx + (i, j))


def leaves(path, loops=()):
    """(loops, iteration path) for every iteration path in the loop nest of a path, innermost included."""
    for ev in path.events:
        if ev.kind == 'loop' and ev.exhausted:
            for p in ev.paths:
                yield loops + ((ev, p),), p
                yield from leaves(p, loops + ((ev, p),))


def method_call(ev, name=None):
    """(receiver, method name, args) of a call that was not followed, or None."""
    if ev.kind != 'call':
        return None
    fn = ev.fn
    if fn[0] == 'extm' or fn[0] == 'fld':
        if name is None or fn[2] == name:
            return fn[1], fn[2], list(ev.args)
    if fn[0] == 'func' and ev.args:
        n = fn[1].rpartition('.')[2].partition('#')[0]
        if name is None or n == name:
            return ev.args[0], n, list(ev.args[1:])
    if fn[0] == 'bound':
        n = fn[2].rpartition('.')[2].partition('#')[0]
        if name is None or n == name:
            return fn[1], n, list(ev.args)
    return None


def subterm(t, x):
    """x occurs in t."""
    if t == x:
        return True
    return isinstance(t, tuple) and any(subterm(y, x) for y in t if isinstance(y, tuple))


def src_of(it, st):
    """The container an iterable is, or is a snapshot of (list(x), set(x), sorted(x), x.copy() ...)."""
    while True:
        n = st.heap.get((it, '#from'))
        if n is not None:
            it = n
            continue
        if it[0] == 'call' and it[1] in ('builtins.sorted', 'builtins.iter', 'builtins.list', 'builtins.tuple', 'builtins.set') and it[2]:
            it = it[2][0]
            continue
        return it


def partial(it, st):
    """Text if the iterable leaves out elements of what it is taken from by a constant slice."""
    for _ in range(20):
        it = src_of(it, st)
        if it[0] == 'idx' and it[2][0] == 'op' and it[2][1] == 'slice':
            lo, hi, step = it[2][2]
            if (is_const(lo) and lo not in (NONE, C(0))) or (is_const(hi) and hi != NONE) or (is_const(step) and step not in (NONE, C(1), C(-1))):
                return show(it)
            if any(not is_const(x) for x in (lo, hi, step)):
                return None
            it = it[1]
            continue
        if it[0] == 'call' and it[1] == 'itertools.islice':
            return show(it)
        if it[0] == 'call' and it[1] in ('builtins.reversed', 'builtins.enumerate') and it[2]:
            it = it[2][0]
            continue
        return None
    return None


class Range:
    """What comparisons with constants say about a term."""

    def __init__(self, t, facts):
        self.lo, self.lo_in, self.hi, self.hi_in = float('-inf'), False, float('inf'), False
        self.odd = []                       # comparisons with other terms
        self.ne = set()
        for k, val in facts.items():
            if k[0] == 'lt' and t in k[1:3]:
                a, b = k[1], k[2]
                o = b if a == t else a
                if not (is_const(o) and isinstance(o[2], (int, float))):
                    self.odd.append((k, val))
                    continue
                c = o[2]
                if a == t:
                    self.upper(c, False) if val else self.lower(c, True)
                else:
                    self.lower(c, False) if val else self.upper(c, True)
            elif k[0] == 'eq' and t in k[1:3]:
                o = k[2] if k[1] == t else k[1]
                if is_const(o) and isinstance(o[2], (int, float)):
                    if val:
                        self.lower(o[2], True)
                        self.upper(o[2], True)
                    else:
                        self.ne.add(o[2])

    def lower(self, c, inc):
        if c > self.lo or c == self.lo and not inc:
            self.lo, self.lo_in = c, inc

    def upper(self, c, inc):
        if c < self.hi or c == self.hi and not inc:
            self.hi, self.hi_in = c, inc

    def holds(self, x):
        return (x > self.lo or x == self.lo and self.lo_in) and (x < self.hi or x == self.hi and self.hi_in) and x not in self.ne

    def samples(self, extra=()):
        """One value of every region the constants divide the axis into that satisfies the comparisons."""
        cs = sorted({c for c in [self.lo, self.hi, *self.ne, *extra] if abs(c) != float('inf')})
        pts = []
        for i, c in enumerate(cs):
            pts.append(c)
            if i + 1 < len(cs):
                pts.append((c + cs[i + 1]) / 2)
        if cs:
            pts += [cs[0] - 1, cs[-1] + 1]
        else:
            pts = [0]
        return [x for x in pts if self.holds(x)]
