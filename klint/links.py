"""Net effect of a path on the two ends of links."""
import ast

from .engine import NONE, show

INC, OUT = 'incomingConnection', 'outgoingConnections'
CON = 'klang.connections.'
OUTPUTS = ('OutputBase', 'Output', 'MessageOutput')
INPUTS = ('InputBase', 'Input', 'MessageInput')
RELAYS = ('RelayBase', 'Relay', 'MessageRelay')
FAMILY = {'OutputBase': 0, 'InputBase': 0, 'RelayBase': 0, 'Output': 1, 'Input': 1, 'Relay': 1, 'MessageOutput': 2, 'MessageInput': 2,
          'MessageRelay': 2}
KINDS = OUTPUTS + INPUTS + RELAYS


def compatible(src, dst):
    """The specification: same family, from an output or relay, to an input or relay."""
    return FAMILY[src] == FAMILY[dst] and src in OUTPUTS + RELAYS and dst in INPUTS + RELAYS


def orient(x, y):
    """(source, destination) for x.connect(y) / x.disconnect(y), as indices 0 / 1."""
    if x in OUTPUTS:
        return 0, 1
    if x in INPUTS:
        return 1, 0
    return (0, 1) if y in INPUTS + RELAYS else (1, 0)


class Effects:
    def __init__(self):
        self.inc = {}       # input -> (initial, final, [all values])
        self.sets = {}      # source -> list of (op, element)
        self.unknown = []   # effects not understood
        self.last_write = None


def owner_of(cont, st):
    """Which end a set of destinations belongs to."""
    if cont[0] == 'fld' and cont[2] == OUT:
        return cont[1]
    for (b, a), v in st.heap.items():
        if a == OUT and v == cont:
            return b
    return None


def effects(events, st, fresh_ok=True):
    """Link effects of a straight event list (loops are looked at separately)."""
    e = Effects()
    for ev in events:
        if ev.kind == 'write' and ev.attr == INC:
            b = ev.base
            if b not in e.inc:
                old = ev.old if ev.old is not None else ('fld', b, INC, 0)
                e.inc[b] = [old, ev.value, [(ev.value, ev)]]
            else:
                e.inc[b][1] = ev.value
                e.inc[b][2].append((ev.value, ev))
            e.last_write = ev
        elif ev.kind == 'write' and ev.attr == OUT:
            e.unknown.append(ev)
        elif ev.kind in ('mut', 'mutfail'):
            o = owner_of(ev.base, st)
            if o is None:
                continue
            if ev.kind == 'mutfail':
                continue
            if ev.op in ('add', 'remove', 'discard') and ev.args:
                e.sets.setdefault(o, []).append((ev.op, ev.args[0], ev))
                e.last_write = ev
            else:
                e.unknown.append(ev)
        elif ev.kind == 'iop':
            if getattr(ev, 'left', None) is not None and owner_of(ev.left, st) is not None:
                e.unknown.append(ev)
        elif ev.kind in ('setitem', 'delattr'):
            pass
    return e


def net_sets(e):
    """source -> {element: +1 | -1 | 0} net membership change."""
    out = {}
    for o, ops in e.sets.items():
        m = {}
        for op, x, ev in ops:
            m[x] = m.get(x, 0) + (1 if op == 'add' else -1)
        out[o] = m
    return out


def fresh(t):
    return t[0] == 'obj' and isinstance(t[2], int)


def holds(facts, key):
    return facts.get(key)


def balanced(events, st, facts, raised):
    """(verdict, message, event) of one path: do both ends of every link still agree?"""
    e = effects(events, st)
    if e.unknown:
        return 'und', 'link field changed in a way that is not understood', e.unknown[0]
    net = net_sets(e)
    if raised:
        for b, (old, fin, vals) in e.inc.items():
            if old != fin and not fresh(b):
                return 'bad', 'leaves with an error after the source of %s was changed' % show(b), e.last_write
        for o, m in net.items():
            for x, d in m.items():
                if d and not fresh(o):
                    return 'bad', 'leaves with an error after the destinations of %s were changed' % show(o), e.last_write
        return 'ok', '', None
    for b, (old, fin, vals) in e.inc.items():
        if fresh(b) and fin == NONE:
            continue
        if fin == old:
            continue
        if fin == NONE:
            gone = [o for o, m in net.items() if m.get(b, 0) < 0]
            if not gone:
                src = [o for o in (old,) if o != NONE and net.get(o, {}).get(b, 0) < 0]
                if not src:
                    if facts.get(('eq', NONE, old)):
                        continue
                    return 'bad', 'the source of %s is cleared but no source gives it up' % show(b), e.last_write
            for o in gone:
                disc = [ev for op, x, ev in e.sets[o] if op == 'discard' and x == b]
                if disc and not linked(disc[0].facts, o, b, old, st):
                    return 'bad', '%s may still be fed by another source than %s when its link is cleared' % (show(b), show(o)), disc[0]
        else:
            if net.get(fin, {}).get(b, 0) <= 0:
                return 'bad', '%s names %s as its source, which does not list it' % (show(b), show(fin)), e.last_write
            if old != NONE and not fresh(b):
                f = vals[0][1].facts
                released = any(m.get(b, 0) < 0 for m in net.values())
                if not released and not f.get(('eq', NONE, old)) and not f.get(('truthy', old, 0)) is False and not says_free(f, b):
                    return 'bad', '%s gets a new source although it may have one' % show(b), vals[0][1]
    for o, m in net.items():
        for x, d in m.items():
            if d > 0:
                fin = e.inc.get(x, (None, None))[1]
                if fin != o:
                    return 'bad', '%s lists %s, which does not name it as its source' % (show(o), show(x)), e.last_write
            elif d < 0:
                fin = e.inc.get(x, (None, None))[1]
                if fin is None or fin == o or fin == e.inc[x][0]:
                    return 'bad', '%s gives up %s, which still names it as its source' % (show(o), show(x)), e.last_write
    return 'ok', '', None


def says_free(f, b):
    return any(v is False and k[0] == 'truthy' and k[1][:3] == ('fld', b, 'connected') for k, v in f.items())


def linked(facts, o, b, old, st):
    for k, v in facts.items():
        if v and k[0] == 'eq' and set(k[1:]) == {o, old}:
            return True
        if v and k[0] == 'in' and k[1] == b and owner_of(k[2], st) == o:
            return True
    return False


def all_balanced(path, raised=None):
    """Worst verdict over a path and the iterations of its loops."""
    worst = ('ok', '', None)
    r = path.raises if raised is None else raised
    todo = [(path.events, path.st, path.facts, r)]
    while todo:
        evs, st, facts, ra = todo.pop()
        v = balanced(evs, st, facts, ra)
        if v[0] == 'bad':
            return v
        if v[0] == 'und':
            worst = v
        for ev in evs:
            if ev.kind == 'loop' and ev.exhausted:
                for p in ev.paths:
                    todo.append((p.events, p.st, p.facts, p.raises))
    return worst


def writers(prog):
    """Functions outside constructors whose own code changes a link field."""
    out = []
    for f in prog.funcs.values():
        if f.name == '__init__':
            continue
        body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
        hit = False
        from .model import walk_scope
        for n in walk_scope(body):
            if isinstance(n, ast.Attribute) and n.attr in (INC, OUT):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    hit = True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'add', 'remove', 'discard', 'clear', 'pop', 'update', 'difference_update', 'intersection_update'):
                if isinstance(n.func.value, ast.Attribute) and n.func.value.attr == OUT:
                    hit = True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                if any(isinstance(a, ast.Constant) and a.value in (INC, OUT) for a in n.args):
                    hit = True
        if hit:
            out.append(f)
    return out


def callers(prog, f):
    out = []
    from .model import walk_scope
    for g in prog.funcs.values():
        if g is f:
            continue
        body = g.node.body if isinstance(g.node.body, list) else [g.node.body]
        for n in walk_scope(body):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                if nm == f.name:
                    out.append(g)
                    break
    return out
