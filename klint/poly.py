"""Polynomial normal form of arithmetic terms: sums of products of atoms, atoms normalised inside."""
from .engine import is_const


def number(t):
    return t[2] if is_const(t) and isinstance(t[2], (int, float)) and not isinstance(t[2], bool) else None


def poly(t):
    """{monomial (sorted tuple of atoms): coefficient}."""
    n = number(t)
    if n is not None:
        return {(): float(n)} if n else {}
    if t[0] == 'op':
        op, xs = t[1], t[2]
        if op == '+' and len(xs) == 2:
            return add(poly(xs[0]), poly(xs[1]), 1.)
        if op == '-' and len(xs) == 2:
            return add(poly(xs[0]), poly(xs[1]), -1.)
        if op in ('u-', 'neg'):
            return add({}, poly(xs[0]), -1.)
        if op in ('u+', 'pos'):
            return poly(xs[0])
        if op == '*' and len(xs) == 2:
            return mul(poly(xs[0]), poly(xs[1]))
        if op == '/' and len(xs) == 2:
            d = poly(xs[1])
            if set(d) == {()}:
                return {m: c / d[()] for m, c in poly(xs[0]).items()}
            if len(d) == 1:
                (m, c), = d.items()
                inv = {tuple(sorted((('1/', a) for a in m), key=repr)): 1. / c}
            else:
                inv = {(('1/', freeze(d)),): 1.}
            return mul(poly(xs[0]), inv)
    return {(atom(t),): 1.}


def atom(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'call':
        return t[:2] + (tuple(normal(x) if isinstance(x, tuple) else x for x in t[2]),) + t[3:]
    return t


def freeze(p):
    return ('poly', tuple(sorted(((m, round(c, 12)) for m, c in p.items() if abs(c) > 1e-15), key=repr)))


def normal(t):
    """Canonical form of a term: itself when atomic."""
    p = poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1. and len(m) == 1:
            return m[0]
    return freeze(p)


def add(a, b, s):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0.) + s * c
    return {m: c for m, c in out.items() if abs(c) > 1e-15}


def mul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            ms = list(m)
            for x in n:
                if x[0] == '1/' and x[1] in ms:
                    ms.remove(x[1])
                elif ('1/', x) in ms:
                    ms.remove(('1/', x))
                else:
                    ms.append(x)
            k = tuple(sorted(ms, key=repr))
            out[k] = out.get(k, 0.) + c * d
    return {m: c for m, c in out.items() if abs(c) > 1e-15}


def equal(a, b):
    return normal(a) == normal(b)


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t
