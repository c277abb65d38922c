"""C13: the ring buffer never leaves its bounds."""
from ..core import V, clause
from ..engine import C, NONE, is_const, show
from ..lin import Lin, Sys, fname
from ..walk import subterm

EXPLAIN = ('Inductive invariant by abstract interpretation with a polyhedral domain (linear constraints between position, length, capacity, head room and '
           'chunk size): 0 <= position < length <= capacity must hold after construction and, assuming it before, after every operation on every path; '
           'every index and slice of the sample memory must lie inside it on the way, a slice and what is stored there must have the same size, and '
           'nothing may be changed on a path that ends in an error.')
ASSUME = ['lengths, capacities and chunk sizes are integers', 'samples are one dimensional in time along the first axis']
MINIMUM = 4
TECHNIQUE = 'abstract interpretation (polyhedral domain, inductive invariant)'
RING = 'klang.ring_buffer.RingBuffer'
HEAD = 'from klang.ring_buffer import RingBuffer\n\n\n'
READ = '    return r.pos, r.length, r.capacity, r.bufferSize, r.data\n'


def check(ctx):
    r = ctx.rep
    r.rule('inv', 'position < length <= capacity after every operation')
    r.rule('atomic', 'an operation that fails changes nothing')
    r.rule('memory', 'the sample memory is only accessed inside its bounds')
    r.rule('refuse', 'a chunk is refused exactly when it is larger than the head room, a length exactly when it does not fit')
    clause(ctx, 'inv', construct)
    pre = before(ctx)
    for name, src, kind in (
            ('length = n', '    r.length = v\n', 'length'), ('append(x)', '    r.append(v)\n', 'one'), ('extend(xs)', '    r.extend(v)\n', 'chunk'),
            ('peek_extend(xs)', '    r.peek_extend(v)\n', 'chunk'), ('peek(n)', '    r.peek(v)\n', 'read')):
        clause(ctx, 'inv', operation, name, src, kind, pre)


def before(ctx):
    """Terms of the five quantities of an existing buffer."""
    f = ctx.client(HEAD + 'def client(r):\n' + READ)
    ps = ctx.run(ctx.interp(), f, args=[ctx.obj(RING, 'r')])
    vals = [p.value for p in ps or [] if p.normal]
    return list(vals[0][1]) if len(vals) == 1 and vals[0][0] == 'tuple' else None


def invariant(s, q):
    pos, length, cap, head = q[:4]
    s.le(0, pos)
    s.lt(pos, length)
    s.le(1, length)
    s.le(length, cap)
    s.le(0, head)


def prove(s, v, rel, a, b, text, ev):
    """Record the verdict of one linear obligation."""
    if s.holds(rel, a, b):
        return True
    if s.exact(a, b):
        v.bad(text, ev)
    else:
        v.und('%s: %s' % (text, s.why()))
    return False


def end(p):
    e = next((e for e in reversed(p.events) if e.kind in ('write', 'setitem') and not e.func.key.startswith('#')), None)
    if e is None:
        e = next((e for e in reversed(p.events) if e.kind in ('raise',)), None)
    return e


def construct(ctx):
    for name, sig in (('RingBuffer(n, capacity)', 'n, cap, head'), ('RingBuffer(n)', 'n, head')):
        v, a, w = V(ctx, 'inv', name), V(ctx, 'memory', name), V(ctx, 'refuse', name)
        call = 'RingBuffer(n, cap, head)' if 'cap' in sig else 'RingBuffer(n, bufferSize=head)'
        f = ctx.client(HEAD + 'def client(%s):\n    r = %s\n' % (sig, call) + READ)
        I = ctx.interp()
        made = 0
        for p in ctx.run(I, f) or []:
            n, cap = ('sym', 'n'), ('sym', 'cap')
            s = Sys()
            s.le(0, ('sym', 'head'))
            s.facts(p.facts)
            if not s.sat():
                continue
            if p.raises:
                # refusing a buffer that fits
                fits = s.copy()
                fits.le(1, n)
                if 'cap' in sig and not any(k[0] == 'eq' and k[1] == NONE and k[2] == cap and val for k, val in p.facts.items()):
                    fits.le(n, cap)
                if fits.sat():
                    if fits.exact():
                        w.bad('a buffer that fits is refused', end(p))
                    else:
                        w.und(s.why())
                continue
            if p.value[0] != 'tuple':
                v.und('result')
                continue
            made += 1
            pos, length, c, head, data = p.value[1]
            ev = end(p)
            prove(s, v, '<=', 0, pos, 'the position can be negative', ev)
            prove(s, v, '<=', 1, length, 'a length below 1 is accepted', ev)
            prove(s, v, '<', pos, length, 'the position is not below the length', ev)
            prove(s, v, '<=', length, c, 'a length above the capacity is accepted', ev)
            size = rows(I, data, p.st)
            if size is None:
                a.und('memory %s' % show(data))
            else:
                prove(s, a, '<=', ('op', '+', (c, head)), size, 'the memory has %s rows, less than capacity and head room' % show(size), ev)
        if not made:
            v.und('no buffer comes out')
        for x in (v, a, w):
            x.done('%d paths' % made)


def rows(I, data, st):
    """Number of rows of a freshly allocated array."""
    if fname(data) in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full') and (data[2] or data[3]):
        sh = dict(data[3]).get('shape', data[2][0] if data[2] else None)
        if sh is None:
            return None
        items = I.contents(sh, st)
        if items:
            return items[0]
        if sh[0] in ('op', 'sym', 'fld', 'const'):
            return sh
    return None


def operation(ctx, name, src, kind, pre):
    v, a, t, w = V(ctx, 'inv', name), V(ctx, 'memory', name), V(ctx, 'atomic', name), V(ctx, 'refuse', name)
    if pre is None:
        v.und('quantities')
        v.done()
        return
    f = ctx.client(HEAD + 'def client(r, v):\n' + src + READ)
    r, x = ctx.obj(RING, 'r'), ('sym', 'v')
    n = {'length': x, 'read': x, 'chunk': ('call', 'builtins.len', (x,), (), None)}.get(kind)
    I = ctx.interp()
    ps = ctx.run(I, f, args=[r, x])
    done = 0
    for p in ps or []:
        def fresh():
            s = Sys()
            invariant(s, pre)
            if kind == 'read':
                s.le(0, x)
                s.le(x, pre[3])
            return s
        s = fresh()
        s.facts(p.facts)
        loops = carried(p)
        for phi, first, steps in loops:
            if inductive(fresh, p, phi, first, steps, lambda s, y: s.le(0, y), lambda s, y: s.holds('<=', 0, y)):
                s.le(0, phi)
            if inductive(fresh, p, phi, first, steps, lambda s, y: s.lt(y, pre[1]), lambda s, y: s.holds('<', y, pre[1])):
                s.lt(phi, pre[1])
        if not s.sat():
            continue
        s.exact = lambda *t, exact=s.exact: not any(moving(y) for y in t) and exact(*t)
        if loops:
            # a violation without any turn of the loop is one in any case
            none = fresh()
            sub = {phi: first for phi, first, _ in loops}
            none.facts({swap(k, sub): val for k, val in p.facts.items()})
            if p.normal and p.value[0] == 'tuple' and none.sat():
                q = [swap(y, sub) for y in p.value[1]]
                prove(none, v, '<=', 0, q[0], 'the position can become negative', end(p))
                prove(none, v, '<', q[0], q[1], 'the position %s can reach the length' % show(q[0]), end(p))
        memory(ctx, I, p, s, a, t, pre, kind)
        if p.raises:
            if kind == 'chunk':
                if not s.holds('<', pre[3], n):
                    if s.exact(n):
                        w.bad('a chunk that fits into the head room is refused', end(p))
                    else:
                        w.und(s.why())
            elif kind == 'length':
                ok = s.copy()
                ok.le(1, x)
                ok.le(x, pre[2])
                if ok.sat():
                    if ok.exact():
                        w.bad('a length that fits is refused', end(p))
                    else:
                        w.und(s.why())
            else:
                w.und('raises')
            continue
        if p.value[0] != 'tuple':
            v.und('result')
            continue
        done += 1
        pos, length, cap, head, data = p.value[1]
        ev = end(p)
        if kind == 'chunk':
            prove(s, w, '<=', n, pre[3], 'a chunk larger than the head room is accepted', ev)
        prove(s, v, '<=', 1, length, 'a length below 1 is accepted', ev)
        prove(s, v, '<=', length, cap, 'a length above the capacity is accepted', ev)
        prove(s, v, '<=', 0, pos, 'the position can become negative', ev)
        prove(s, v, '<', pos, length, 'the position %s can reach the length' % show(pos), ev)
        if cap != pre[2] or head != pre[3]:
            v.und('capacity changes')
        if data != pre[4]:
            v.und('memory is replaced')
    if not done:
        v.und('no path')
    for y in (v, a, t, w):
        y.done('%d paths' % done)


def moving(t):
    """Does a term hold a value a loop changes?"""
    return isinstance(t, tuple) and (t[:1] == ('phi',) or any(moving(y) for y in t))


def carried(p):
    """Values carried by while loops: (term, value before, [(iteration path, value after)])."""
    out = []
    for e in p.events:
        if e.kind == 'loop':
            for m in e.mod or ():
                if m[0] == 'heap':
                    key = m[1]
                    phi = ('phi', e.loopid, key)
                    first = e.entry.heap.get(key) if e.entry else None
                    if first is None or first == phi:
                        first = e.pre.heap.get(key) if e.pre else None
                    if first in (None, phi) and isinstance(key[1], str) and not (key[0][0] == 'obj' and isinstance(key[0][2], int)):
                        first = ('fld', key[0], key[1], 0)
                    if first is not None and first != phi:
                        out.append((phi, first, [(q, q.st.heap.get(key)) for q in e.paths]))
    return out


def inductive(fresh, p, phi, first, steps, add, holds):
    """Does a bound hold before the loop and after every turn of it?"""
    s = fresh()
    s.facts({k: val for k, val in p.facts.items() if not subterm(k, phi)})
    if not holds(s, first):
        return False
    for q, after in steps:
        if after is None:
            return False
        s = fresh()
        s.facts(q.facts)
        add(s, phi)
        if s.sat() and not holds(s, after):
            return False
    return True


def swap(t, sub):
    if t in sub:
        return sub[t]
    return tuple(swap(x, sub) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t


def memory(ctx, I, p, s, a, t, pre, kind):
    """Accesses to the sample memory and changes before errors, in the order of the path."""
    pos, length, cap, head, data = pre
    size = ('op', '+', (cap, head))
    touched = None
    for e in p.events:
        if e.kind == 'loop':
            a.und('loop')
            continue
        if e.kind == 'binop' and e.op in ('%', '//', '/') and not (is_const(e.left) and isinstance(e.left[2], str)):
            if not s.excludes(e.right, 0) and touched is not None:
                if s.exact(e.right):
                    t.bad('%s fails when %s is zero, after %s was changed' % (show(('op', e.op, (e.left, e.right))), show(e.right), what(touched)), touched)
                else:
                    t.und(show(e.right))
        if e.kind == 'write' and e.base == pre_obj(pre):
            touched = touched or e
        if e.kind == 'setitem' and e.base == data:
            touched = touched or e
            access(I, p, s, a, e, e.key, e.value, size, kind)
        if e.kind == 'getitem' and e.base == data and not p.raises:
            access(I, p, s, a, e, e.key, None, size, kind)
        if e.kind in ('iop', 'mut') and getattr(e, 'base', None) == data:
            touched = touched or e
        if e.kind == 'raise' and touched is not None and p.raises and e is [x for x in p.events if x.kind == 'raise'][-1]:
            t.bad('%s is changed before the operation is refused' % what(touched), touched)


def pre_obj(pre):
    return pre[0][1] if pre[0][0] == 'fld' else None


def what(e):
    return show(e.base) if e.kind == 'setitem' else e.attr if e.kind == 'write' else 'the memory'


def access(I, p, s, a, e, key, value, size, kind):
    if key[0] == 'tuple' and key[1]:
        key = key[1][0]
    if key[0] == 'op' and key[1] == 'slice':
        lo, hi, step = key[2]
        if step not in (NONE, C(1)):
            a.und('step')
            return
        lo = C(0) if lo == NONE else lo
        hi = size if hi == NONE else hi
        prove(s, a, '<=', 0, lo, 'a slice of the memory starts before it (%s)' % show(lo), e)
        prove(s, a, '<=', hi, size, 'a slice of the memory ends behind it (%s)' % show(hi), e)
        if value is not None and not is_const(value):
            n = count(value, s)
            if n is None:
                a.und('size of %s' % show(value))
            else:
                d = s.lin(hi) - s.lin(lo)
                if not (s.holds('==', d, n)):
                    if s.exact(hi, lo) and s.exact(n):
                        a.bad('%s is stored in a slice of another size' % show(value), e)
                    else:
                        a.und('size of slice')
    else:
        prove(s, a, '<=', 0, key, 'the memory is accessed at a negative index (%s)' % show(key), e)
        prove(s, a, '<', key, size, 'the memory is accessed behind its end (%s)' % show(key), e)


def count(value, s):
    """Number of rows of what is stored."""
    if value[0] == 'sym':
        return ('call', 'builtins.len', (value,), (), None)
    if value[0] == 'idx' and value[2][0] == 'op' and value[2][1] == 'slice':
        lo, hi, step = value[2][2]
        if step not in (NONE, C(1)):
            return None
        n = count(value[1], s)
        if n is None:
            return None
        n = s.lin(n)
        zero = Lin({}, 0)

        def bound(t, default):
            if t == NONE:
                return default
            x = s.lin(t)
            if s.holds('<=', zero, x):
                return x if s.holds('<=', x, n) else None
            if s.holds('<', x, zero):
                return n + x if s.holds('<=', zero, n + x) else zero if s.holds('<=', n + x, zero) else None
            return None
        b, e = bound(lo, zero), bound(hi, n)
        if b is None or e is None:
            return None
        return e - b if s.holds('<=', b, e) else None
    if fname(value) in ('numpy.asarray', 'numpy.array') and value[2]:
        return count(value[2][0], s)
    return None
