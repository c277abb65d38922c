"""A polyhedral domain: linear constraints over integer terms, with exact projection (Fourier-Motzkin) and integer tightening.

`Sys` collects constraints from path facts and declared invariants; `holds(rel, a, b)` asks whether every point satisfies `a rel b`, `maybe_not(...)`
whether some rational point violates it.  Terms that are not linear become opaque atoms, noted so that callers can refrain from an alarm.
"""
from fractions import Fraction
from math import floor, gcd

from .engine import is_const, show


class Lin:
    __slots__ = ('c', 'k')

    def __init__(self, c=None, k=0):
        self.c = {a: v for a, v in (c or {}).items() if v}
        self.k = Fraction(k)

    def __add__(self, o):
        c = dict(self.c)
        for a, v in o.c.items():
            c[a] = c.get(a, 0) + v
        return Lin(c, self.k + o.k)

    def scale(self, f):
        return Lin({a: v * f for a, v in self.c.items()}, self.k * f)

    def __sub__(self, o):
        return self + o.scale(-1)


def fname(t):
    if t[0] != 'call':
        return None
    return t[1] if isinstance(t[1], str) else t[1][1] if t[1][0] == 'ext' else None


class Sys:
    MAX = 4000

    def __init__(self, subst=None):
        self.cases = [[]]          # alternatives, each a list of Lin L meaning L <= 0
        self.opaque = set()
        self.subst = subst or {}
        self.memo = {}
        self.n = 0

    def copy(self):
        o = Sys(self.subst)
        o.cases = [list(c) for c in self.cases]
        o.opaque = set(self.opaque)
        o.memo = dict(self.memo)
        o.n = self.n
        o.local = self.local
        o.whole = getattr(self, 'whole', False)
        return o

    # ---------------------------------------------------------------- terms
    def lin(self, t):
        if isinstance(t, Lin):
            return t
        if isinstance(t, (int, Fraction)):
            return Lin({}, t)
        t = self.subst.get(t, t)
        if is_const(t) and isinstance(t[2], (int, bool)):
            return Lin({}, int(t[2]))
        if is_const(t) and isinstance(t[2], float) and t[2] == int(t[2]):
            return Lin({}, int(t[2]))
        if t[0] == 'op':
            a = t[2]
            if t[1] in ('+', '-') and len(a) == 2:
                x, y = self.lin(a[0]), self.lin(a[1])
                return x + y if t[1] == '+' else x - y
            if t[1] in ('u-', 'u+'):
                return self.lin(a[0]).scale(-1 if t[1] == 'u-' else 1)
            if t[1] == '*' and len(a) == 2:
                x, y = self.lin(a[0]), self.lin(a[1])
                if not x.c:
                    return y.scale(x.k)
                if not y.c:
                    return x.scale(y.k)
            if t[1] == '/' and len(a) == 2 and getattr(self, 'whole', False) and a[1][0] == 'const' and isinstance(a[1][2], int) and a[1][2] > 0:
                if t not in self.memo:
                    self.memo[t] = q = Lin({t: 1})
                    x, c = self.lin(a[0]), a[1][2]
                    if self.holds('<=', 0, x):
                        self.add([q.scale(c) - x, x - q.scale(c) - Lin({}, c - 1), q.scale(-1)])
                    else:
                        self.opaque.add(t)
                return self.memo[t]
            if t[1] == '%' and len(a) == 2:
                if t not in self.memo:
                    self.memo[t] = Lin({t: 1})
                    m = self.lin(a[1])
                    if self.holds('<', 0, m):
                        r = self.memo[t]
                        self.add([r.scale(-1), r - m + Lin({}, 1)])
                    else:
                        self.opaque.add(t)
                return self.memo[t]
        f = fname(t)
        if f in ('builtins.min', 'builtins.max') and len(t[2]) >= 2 and not t[3] and not any(x[0] == 'star' for x in t[2]):
            if t not in self.memo:
                r = self.memo[t] = Lin({t: 1})
                xs = [self.lin(x) for x in t[2]]
                s = 1 if f == 'builtins.min' else -1
                self.add([(r - x).scale(s) for x in xs])
                self.cases = [c + [(r - x), (x - r)] for c in self.cases for x in xs]
            return self.memo[t]
        if f == 'builtins.len' and len(t[2]) == 1:
            a = ('len', t[2][0])
            if a not in self.memo:
                self.memo[a] = Lin({a: 1})
                self.add([self.memo[a].scale(-1)])
            return self.memo[a]
        if t[0] in ('sym', 'fld', 'phi', 'elem'):
            return Lin({t: 1})
        self.opaque.add(t)
        return Lin({t: 1})

    # ---------------------------------------------------------------- constraints
    def add(self, lins):
        for c in self.cases:
            c.extend(lins)

    def le(self, a, b):
        a, b = self.lin(a), self.lin(b)
        self.add([a - b])

    def lt(self, a, b):
        a, b = self.lin(a), self.lin(b)
        self.add([a - b + Lin({}, 1)])

    def eq(self, a, b):
        a, b = self.lin(a), self.lin(b)
        self.add([a - b, b - a])

    def ne(self, a, b):
        a, b = self.lin(a), self.lin(b)
        if len(self.cases) > 32:
            return
        one = Lin({}, 1)
        self.cases = [c + [x] for c in self.cases for x in (a - b + one, b - a + one)]

    def facts(self, facts):
        for k, val in facts.items():
            if k[0] == 'lt':
                if val:
                    self.lt(k[1], k[2])
                else:
                    self.le(k[2], k[1])
            elif k[0] == 'eq':
                if any(is_const(x) and not isinstance(x[2], (int, float)) for x in k[1:3]):
                    continue
                (self.eq if val else self.ne)(k[1], k[2])
            elif k[0] == 'truthy' and k[1][0] in ('sym', 'fld', 'op', 'phi') and k[1] in self.numeric:
                (self.ne if val else self.eq)(k[1], 0)
        return self

    numeric = ()

    # ---------------------------------------------------------------- decisions
    local = False        # only look at the constraints connected to a question (the rest is known to be feasible)

    def sat(self, extra=()):
        extra = list(extra)
        if self.local and extra:
            return any(feasible(connected(c, extra) + extra) for c in self.cases)
        return any(feasible(c + extra) for c in self.cases)

    def holds(self, rel, a, b):
        """Every integer point satisfies a rel b."""
        if rel == '!=':
            return self.excludes(a, b)
        return not any(self.sat([n]) for n in self.negated(rel, a, b))

    def negated(self, rel, a, b):
        a, b = self.lin(a), self.lin(b)
        one = Lin({}, 1)
        return {'<': [b - a], '<=': [b - a + one], '==': [a - b + one, b - a + one]}[rel]

    def excludes(self, a, b):
        """a == b is impossible."""
        a, b = self.lin(a), self.lin(b)
        return not self.sat([a - b, b - a])

    def exact(self, *terms):
        """No term that is not understood takes part."""
        seen = set()
        for t in terms:
            seen |= set(self.lin(t).c)
        return not (self.opaque & seen) and not any(self.opaque & set(x.c) for c in self.cases for x in c)

    def why(self, *terms):
        return ', '.join(show(x) for x in sorted(self.opaque, key=repr))[:200]


def connected(cs, extra):
    atoms = set()
    for x in extra:
        atoms |= set(x.c)
    out, rest = [], list(cs)
    while True:
        more = [c for c in rest if not c.c and c.k > 0 or not atoms.isdisjoint(c.c)]
        if not more:
            return out
        rest = [c for c in rest if c.c and atoms.isdisjoint(c.c)]
        out += more
        for c in more:
            atoms |= set(c.c)


def normal(l):
    """Integer tightening of l <= 0."""
    if not l.c:
        return l
    den = 1
    for v in list(l.c.values()):
        den = den * Fraction(v).denominator // gcd(den, Fraction(v).denominator)
    c = {a: int(v * den) for a, v in l.c.items()}
    g = 0
    for v in c.values():
        g = gcd(g, abs(v))
    k = l.k * den / g
    # sum + k <= 0  ->  sum <= floor(-k)
    return Lin({a: Fraction(v, g) for a, v in c.items()}, -floor(-k))


def feasible(cs):
    cs = [normal(c) for c in cs]
    for _ in range(40):
        live = []
        best = {}
        for c in cs:
            if not c.c:
                if c.k > 0:
                    return False
                continue
            key = tuple(sorted(c.c.items(), key=lambda x: repr(x[0])))
            if key not in best or best[key].k < c.k:
                best[key] = c
        live = list(best.values())
        if not live:
            return True
        atoms = {}
        for c in live:
            for a, v in c.c.items():
                p = atoms.setdefault(a, [0, 0])
                p[v < 0] += 1
        a = min(atoms, key=lambda x: (atoms[x][0] * atoms[x][1], repr(x)))
        pos = [c for c in live if c.c.get(a, 0) > 0]
        neg = [c for c in live if c.c.get(a, 0) < 0]
        cs = [c for c in live if a not in c.c]
        for p in pos:
            for n in neg:
                x = p.scale(1 / p.c[a]) + n.scale(-1 / n.c[a])
                cs.append(normal(Lin({k: v for k, v in x.c.items() if k != a}, x.k)))
        if len(cs) > Sys.MAX:
            return True
    return True
