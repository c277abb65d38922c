"""Path sensitive dataflow over structured Python code.

Every path through a function is followed once (loops: one generic iteration with all loop-modified variables forgotten), repository
callees are followed through, and the result of each path is a trace of events (field writes, container mutations, calls, raises, loops
with their body paths).  Values are symbolic names in the sense of global value numbering: two expressions get the same name only if
they must denote the same value.  Branch conditions are recorded as literals; a path is dropped only when its literals
contradict each other syntactically.  Nothing is executed and no solver is involved.
"""
import ast
import builtins
import collections
import string
import sys

from .model import Prog, Func, Cls, walk_scope

sys.setrecursionlimit(20000)

MUTATORS = {
    'append', 'appendleft', 'add', 'extend', 'extendleft', 'insert', 'remove', 'discard', 'pop', 'popleft', 'popitem', 'clear', 'update', 'sort',
    'reverse', 'setdefault', 'rotate', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'fill', 'itemset', 'put',
    'partition', 'resize',
}
BUILTIN_TYPES = {'list': list, 'dict': dict, 'set': set, 'frozenset': frozenset, 'deque': collections.deque, 'defaultdict': collections.defaultdict,
                 'Counter': collections.Counter}

FACTORIES = {('ext', 'builtins.bool'): False, ('ext', 'builtins.int'): 0, ('ext', 'builtins.float'): 0., ('ext', 'builtins.str'): ''}
CONTAINER_CTORS = {
    'builtins.list': 'list', 'builtins.set': 'set', 'builtins.dict': 'dict', 'builtins.frozenset': 'frozenset', 'builtins.tuple': 'tuple',
    'collections.deque': 'deque', 'collections.defaultdict': 'defaultdict', 'collections.Counter': 'Counter', 'collections.OrderedDict': 'dict',
    'builtins.bytearray': 'bytearray',
}
PURE_EXT = {
    'builtins.abs', 'builtins.min', 'builtins.max', 'builtins.int', 'builtins.float', 'builtins.str', 'builtins.repr', 'builtins.round',
    'builtins.divmod', 'builtins.pow', 'builtins.hash', 'builtins.ord', 'builtins.chr', 'builtins.range', 'builtins.type', 'builtins.len',
    'builtins.isinstance', 'builtins.hasattr', 'builtins.bool', 'builtins.callable', 'builtins.issubclass', 'builtins.bytes', 'builtins.zip',
    'builtins.enumerate', 'builtins.reversed', 'builtins.complex', 'builtins.slice', 'builtins.id', 'builtins.sum', 'builtins.all', 'builtins.any',
    'numpy.ndim', 'numpy.shape', 'numpy.size', 'numpy.iinfo', 'numpy.issubdtype',
    'fractions.Fraction',
}
PURE_PREFIX = ('math.', 'operator.')
MUTATING_EXT = {
    'heapq.heappush': 0, 'heapq.heappop': 0, 'heapq.heapify': 0, 'heapq.heapreplace': 0, 'heapq.heappushpop': 0, 'bisect.insort': 0,
    'bisect.insort_left': 0, 'bisect.insort_right': 0, 'random.shuffle': 0, 'numpy.copyto': 0, 'numpy.put': 0, 'numpy.fill_diagonal': 0,
    'numpy.random.shuffle': 0,
}
BINOPS = {
    ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>',
    ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@',
}
DUNDER = {
    '+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '<<': 'lshift', '>>': 'rshift', '|': 'or',
    '&': 'and', '^': 'xor', '@': 'matmul',
}


class TooManyPaths(Exception):
    """The analysis of this entry is given up (verdict: undecided)."""


def C(v):
    return ('const', type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def is_const(t):
    return t[0] == 'const'


class Raise:
    """Exceptional result of an evaluation."""
    __slots__ = ('exc', 'node', 'func')

    def __init__(self, exc, node=None, func=None):
        self.exc, self.node, self.func = exc, node, func


class Escape:
    """A generator body leaves because its consumer left (break / return / raise in the consuming loop)."""
    __slots__ = ('token', 'out')

    def __init__(self, token, out):
        self.token, self.out = token, out


class Ev:
    """One event of a trace."""

    def __init__(self, kind, node, func, facts, **kw):
        self.kind, self.node, self.func, self.facts = kind, node, func, facts
        self.__dict__.update(kw)

    @property
    def where(self):
        if self.func is None:
            return '?'
        return '%s:%d (%s)' % (self.func.mod.rel, getattr(self.node, 'lineno', 0), self.func.key)

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ('kind', 'node', 'func', 'facts', 'paths', 'st', 'chain', 'pre', 'mod')}
        return '<%s %s>' % (self.kind, ' '.join('%s=%s' % (k, show(v)) for k, v in d.items()))


class Path:
    """One path: events, outcome and final state."""

    def __init__(self, events, out, st):
        self.events, self.out, self.st = events, out, st

    @property
    def facts(self):
        return self.st.facts

    @property
    def normal(self):
        return self.out is None or self.out[0] in ('ret', 'cont')

    @property
    def raises(self):
        return self.out is not None and self.out[0] == 'raise'

    @property
    def value(self):
        return self.out[1] if self.out and self.out[0] == 'ret' else NONE


def show(t, depth=0):
    """Readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    try:
        if k == 'const':
            return repr(t[2])
        if k == 'sym':
            return str(t[1])
        if k == 'obj':
            return '%s<%s>' % (t[1].rpartition('.')[2], show_id(t[2]))
        if k == 'fld':
            return '%s.%s' % (show(t[1]), t[2])
        if k == 'elem':
            return 'each(%s)' % show(t[1])
        if k == 'idx':
            return '%s[%s]' % (show(t[1]), show(t[2]))
        if k == 'call':
            fn = t[1] if isinstance(t[1], str) else show(t[1])
            return '%s(%s)' % (fn, ', '.join([show(a) for a in t[2]] + ['%s=%s' % (a, show(b)) for a, b in t[3]]))
        if k in ('op', 'cmp'):
            return '(%s)' % (' %s ' % t[1]).join(show(a) for a in t[2:] if isinstance(a, tuple)) if k == 'cmp' else '(%s)' % (
                (' %s ' % t[1]).join(show(a) for a in t[2]))
        if k == 'tuple':
            return '(%s)' % ', '.join(show(x) for x in t[1])
        if k == 'cont':
            return '%s<%s>' % (t[1], show_id(t[2]))
        if k in ('func', 'class'):
            return t[1].rpartition('.')[2]
        if k == 'bound':
            return '%s.%s' % (show(t[1]), t[2].rpartition('.')[2])
        if k == 'ext':
            return t[1]
        if k == 'extm':
            return '%s.%s' % (show(t[1]), t[2])
        if k == 'phi':
            return 'loop(%s)' % (t[2],)
        if k == 'exc':
            return show(t[1])
        if k == 'enum':
            return '%s.%s' % (t[1].rpartition('.')[2], t[2])
        if k == 'glob':
            return t[2]
        if k == 'not':
            return 'not %s' % show(t[1])
        if k in ('eq', 'lt', 'in', 'is'):
            return '(%s %s %s)' % (show(t[1]), k, show(t[2]))
        if k == 'truthy':
            return 'truthy(%s)' % show(t[1])
    except Exception:
        pass
    return '(%s)' % ' '.join(show(x) for x in t)


def show_id(i):
    return i if isinstance(i, str) else '#%s' % (i,) if isinstance(i, int) else '.'.join(show_id(x) for x in i) if isinstance(i, tuple) else str(i)


class State:
    __slots__ = ('envs', 'heap', 'conts', 'celem', 'vers', 'facts', 'types', 'trace', 'pend', 'gens', 'exc')

    def __init__(self):
        self.envs, self.heap, self.conts, self.celem, self.vers = {}, {}, {}, {}, {}
        self.facts, self.types, self.gens = {}, {}, {}
        self.trace = None
        self.pend = ()
        self.exc = None

    def fork(self):
        s = State.__new__(State)
        for a in State.__slots__:
            setattr(s, a, getattr(self, a))
        return s

    def emit(self, ev):
        self.trace = (self.trace, ev)

    def set_env(self, eid, name, v):
        e = dict(self.envs.get(eid, ()))
        e[name] = v
        self.envs = {**self.envs, eid: e}

    def set_heap(self, k, v):
        self.heap = {**self.heap, k: v}

    def set_cont(self, k, v):
        self.conts = {**self.conts, k: v}

    def set_celem(self, k, v):
        self.celem = {**self.celem, k: v}

    def bump(self, t):
        self.vers = {**self.vers, t: (self.vers.get(t, 0), 1) if isinstance(self.vers.get(t, 0), tuple) else self.vers.get(t, 0) + 1}

    def ver(self, t):
        return self.vers.get(t, 0)

    def assume(self, key, val):
        if key not in self.facts:
            self.facts = {**self.facts, key: val}

    def set_type(self, t, c):
        if self.types.get(t) != c:
            self.types = {**self.types, t: c}

    def events(self, since=None):
        out = []
        t = self.trace
        while t is not None and t is not since:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Frame:
    __slots__ = ('func', 'eid', 'cls', 'selfv', 'depth', 'on_yield', 'token', 'stack', 'mod', 'clsscope', 'chain')

    def __init__(self, func, eid, cls, selfv, depth, stack, mod, on_yield=None, token=None, clsscope=None, chain=()):
        self.chain = chain + ((func.key, selfv),) if func is not None else chain
        self.func, self.eid, self.cls, self.selfv, self.depth, self.stack, self.mod = func, eid, cls, selfv, depth, stack, mod
        self.on_yield, self.token, self.clsscope = on_yield, token, clsscope


ABC_KINDS = {
    'Sequence': (('list', 'tuple', 'str', 'bytes', 'range', 'deque'), ('int', 'float', 'bool', 'NoneType', 'dict', 'set')),
    'Iterable': (('list', 'tuple', 'str', 'bytes', 'range', 'deque', 'dict', 'set'), ('int', 'float', 'bool', 'NoneType')),
    'Mapping': (('dict', 'defaultdict'), ('int', 'float', 'bool', 'NoneType', 'list', 'tuple', 'str', 'set', 'bytes')),
    'Sized': (('list', 'tuple', 'str', 'bytes', 'range', 'deque', 'dict', 'set'), ('int', 'float', 'bool', 'NoneType')),
    'Hashable': (('int', 'float', 'bool', 'NoneType', 'str', 'bytes'), ('list', 'dict', 'set')),
    'Callable': ((), ('int', 'float', 'bool', 'NoneType', 'str', 'bytes', 'list', 'dict', 'set', 'tuple')),
}


class Interp:
    """The analyser. Options:

    opaque       set of function keys (or predicate) whose calls are reported but not followed
    may_raise    predicate (fn term, node, interp, frame) -> list of exception terms an opaque call may raise
    max_paths    budget of evaluated statements
    assume_remove_ok   if True, removing from a container of unknown content never fails
    """

    def __init__(self, prog, opaque=(), may_raise=None, max_steps=60000, depth=14, remove_raises=True, unroll=40,
                 iter_raises=False, loop_zero=False, recursion=1,
                 lookup_raises=False, redirect=None, exact=False):
        self.prog = prog
        self.exact = exact                      # follow while loops step by step as long as their tests are decided
        self.redirect = redirect or {}          # function key -> function followed in its place
        self.opaque = opaque if callable(opaque) else (lambda f, o=frozenset(opaque): f.key in o)
        self.may_raise = may_raise
        self.lookup_raises = lookup_raises      # a lookup by key may fail with KeyError
        self.max_steps, self.max_depth = max_steps, depth
        self.remove_raises = remove_raises
        self.unroll = unroll
        self.recursion = recursion
        self.steps = 0
        self.n = 0
        self.shapes = {}
        self.attr_try = 0
        self.gstate = State()       # module level constants
        self.gcache = {}
        self.globval = {}
        self.lazy = {}              # fields of existing objects as first seen
        self.visited = set()        # functions followed
        self.called_ext = set()
        self.stale_attr_cache = {}
        self.on_event = None

    # ------------------------------------------------------------------ utilities
    def fresh(self):
        self.n += 1
        return self.n

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooManyPaths()

    def ev(self, kind, node, fr, st, **kw):
        e = Ev(kind, node, fr.func if fr else None, st.facts, chain=fr.chain if fr else (), **kw)
        st.emit(e)
        return e

    # ------------------------------------------------------------------ types
    def cls_of(self, t, st):
        """Repository class of a term or None."""
        if t[0] == 'obj':
            return self.prog.classes.get(t[1])
        if t[0] == 'enum':
            return self.prog.classes.get(t[1])
        k = st.types.get(t)
        if k and k in self.prog.classes:
            return self.prog.classes[k]
        return None

    def kind_of(self, t, st):
        """Container kind / builtin type name of a term or None."""
        if t[0] == 'cont':
            return t[1]
        if t[0] == 'const':
            return t[1]
        if t[0] == 'tuple':
            return 'tuple'
        k = st.types.get(t)
        if k and k.startswith('~'):
            return k[1:]
        return None

    # ------------------------------------------------------------------ module level values
    def global_value(self, mod, name, st):
        key = (mod.name, name)
        if key not in self.gcache:
            self.gcache[key] = ('glob', mod.name, name)   # cycle breaker
            self.gcache[key] = self._global_value(mod, name)
        v = self.gcache[key]
        return v

    def _global_value(self, mod, name):
        cands = self.prog.lookup(mod, name)
        if not cands:
            if hasattr(builtins, name):
                return ('ext', 'builtins.' + name)
            if name in ('__name__', '__file__', '__doc__'):
                return ('glob', mod.name, name)
            return ('undef', mod.name, name)
        c = cands[0]
        if c[0] == 'func':
            return ('func', c[1].key, 0)
        if c[0] == 'class':
            return ('class', c[1].key)
        if c[0] in ('mod', 'ext'):
            return c
        _, m, nm, kind, x = c
        if m is not mod or nm != name:
            return self.global_value(m, nm, None)
        exprs = [q for q in cands if q[0] == 'expr']
        # several assignments: a None / type / empty container placeholder followed by the real value counts as one
        if len(cands) != len(exprs):
            exprs = []
        if len(exprs) > 1:
            real = [q for q in exprs if not self.placeholder(q)]
            exprs = real if real else exprs[:1]
        if len(exprs) != 1 or name in mod.mutglobals or exprs[0][3] == 'aug':
            alts = [q for q in cands if q[0] in ('class', 'func')]
            if alts:
                q = alts[0]
                return ('class', q[1].key) if q[0] == 'class' else ('func', q[1].key, 0)
            # an alias chosen at import time (C extension or Python fallback): prefer the Python one
            tg = []
            for q in exprs:
                if q[3] == 'assign' and isinstance(q[4], (ast.Name, ast.Attribute)):
                    r = self.prog.resolve_static(mod, q[4])
                    if r and r[0] == 'class':
                        tg.append(r[1])
            if tg:
                return ('class', tg[0].key)
            return ('glob', mod.name, name)
        _, m, nm, kind, x = exprs[0]
        node = x if kind == 'assign' else x[0]
        saved = self.steps
        st = self.gstate.fork()
        st.trace = None
        fr = Frame(None, 0, None, None, 0, (), mod)
        try:
            res = self.expr(node, st, fr)
        except TooManyPaths:
            res = []
        self.steps = saved
        if len(res) != 1 or isinstance(res[0][1], (Raise, Escape)):
            return ('glob', mod.name, name)
        st1, v = res[0]
        if kind == 'unpack':
            i, n = x[1], x[2]
            items = self.contents(v, st1)
            if items is None or len(items) != n:
                return ('glob', mod.name, name)
            v = items[i]
        keep = v[0] in ('const', 'tuple', 'func', 'class', 'ext', 'enum', 'obj', 'cont')
        self.globval[(mod.name, name)] = (v, st1)
        self.gstate.heap = {**self.gstate.heap, **st1.heap}
        self.gstate.conts = {**self.gstate.conts, **st1.conts}
        self.gstate.celem = {**self.gstate.celem, **st1.celem}
        self.gstate.types = {**self.gstate.types, **st1.types}
        if not keep or (v[0] == 'const' and False):
            g = ('glob', mod.name, name)
            return g
        return v

    def placeholder(self, q):
        if q[3] != 'assign':
            return False
        v = q[4]
        if isinstance(v, ast.Constant) and v.value is None:
            return True
        if isinstance(v, (ast.List, ast.Set, ast.Tuple)) and not v.elts:
            return True
        if isinstance(v, ast.Dict) and not v.keys:
            return True
        return isinstance(v, ast.Name) and v.id == 'type'

    def contents(self, t, st):
        """Known items of a container term, or None."""
        if t[0] == 'tuple':
            return list(t[1])
        if t[0] == 'cont':
            if t in st.conts:
                c = st.conts[t]
            else:
                c = self.gstate.conts.get(t)
            return list(c) if c is not None else None
        if t[0] == 'const' and t[1] in ('str',):
            return [C(ch) for ch in t[2]]
        if t[0] == 'const' and t[1] in ('tuple', 'frozenset'):
            return [C(x) for x in t[2]]
        if t[0] == 'call' and t[1] == 'builtins.range' and all(is_const(a) for a in t[2]):
            try:
                r = range(*[a[2] for a in t[2]])
            except Exception:
                return None
            return [C(i) for i in r] if len(r) <= 4 * self.unroll else None
        if t[0] == 'call' and t[1] in ('builtins.zip', 'builtins.enumerate', 'builtins.reversed', 'builtins.iter'):
            if t[3]:
                return None
            cs = [self.contents(a, st) for a in t[2][:1 if t[1] != 'builtins.zip' else None]]
            if any(c is None for c in cs):
                return None
            if t[1] == 'builtins.zip':
                return [('tuple', tuple(x)) for x in zip(*cs)]
            if t[1] == 'builtins.enumerate':
                s = 0
                if len(t[2]) > 1:
                    if not is_const(t[2][1]):
                        return None
                    s = t[2][1][2]
                return [('tuple', (C(i), x)) for i, x in enumerate(cs[0], s)]
            return list(reversed(cs[0])) if t[1].endswith('reversed') else cs[0]
        if t[0] == 'dictview':
            d = self.dict_items(t[2], st)
            if d is None:
                return None
            return [k if t[1] == 'keys' else v if t[1] == 'values' else ('tuple', (k, v)) for k, v in d]
        c = self.cls_of(t, st)
        if c is not None and c.ntfields is not None and not self.prog.find_member(c, '__iter__'):
            return [st.heap.get((t, x), ('fld', t, x, 0)) for x in c.ntfields]
        return None

    def dict_items(self, t, st):
        if t[0] == 'cont' and t[1] in ('dict', 'defaultdict'):
            c = st.conts.get(t, self.gstate.conts.get(t))
            if c is not None:
                return list(c)
        return None

    # -- entries of mappings
    def same(self, a, b, st):
        """Whether two keys are equal: True, False or None."""
        k, p = self.atom(('cmp', 'eq', a, b), st)
        if not isinstance(k, bool):
            k = self.decide(k, st)
        return None if k is None else k == p

    def mapping(self, b, st):
        return b[0] == 'cont' and b[1] in ('dict', 'defaultdict') or b[0] != 'cont' and self.kind_of(b, st) in ('dict', 'defaultdict')

    def known(self, b, st):
        """Entries of a mapping that are known though the rest of it is not: (key, value or None when there is no such entry)."""
        r = st.heap.get((b, '#known'))
        return r[1] if r is not None and r[0] == st.ver(b) else ()

    def lookup(self, b, k, st):
        """('yes', value), ('no',) or None for the entry of a key of a mapping."""
        d = self.dict_items(b, st)
        if d is not None:
            rs = [self.same(kk, k, st) for kk, _ in d]
            if True in rs:
                return ('yes', d[rs.index(True)][1])
            if None not in rs:
                return ('no',)
        for kk, v in self.known(b, st):
            if self.same(kk, k, st) is True:
                return ('yes', v) if v is not None else ('no',)
        return None

    def others(self, b, k, st):
        """Known entries of a mapping of keys that are certainly different from a key."""
        d = self.dict_items(b, st)
        r = [(kk, v) for kk, v in tuple(d or ()) + self.known(b, st) if self.same(kk, k, st) is False]
        for f, val in st.facts.items():
            if f[0] == 'in' and f[2] == b and f[3] == st.ver(b) and not any(kk == f[1] for kk, _ in r) and self.same(f[1], k, st) is False:
                r.append((f[1], None if not val else ('idx', b, f[1], st.ver(b)) if self.mapping(b, st) else TRUE))
        return tuple(r)

    def remember(self, b, rest, k, v, st):
        """After a change of the entry of a key in a mapping (rest: see others)."""
        st.set_heap((b, '#known'), (st.ver(b), rest + ((k, v),)))

    def new_cont(self, kind, items, st, celem=None):
        t = ('cont', kind, self.fresh())
        st.set_cont(t, tuple(items) if items is not None else None)
        if celem is None and items and kind not in ('dict', 'defaultdict'):
            celem = self.common_elem(items, st)
        if celem is not None:
            st.set_celem(t, celem)
        return t

    def common_elem(self, items, st):
        if not items:
            return None
        k = self.type_tag(items[0], st)
        return items[0] if k is not None and all(self.type_tag(x, st) == k for x in items) else None

    def type_tag(self, t, st):
        c = self.cls_of(t, st)
        if c is not None:
            return c.key
        k = self.kind_of(t, st)
        return '~' + k if k else None

    # ------------------------------------------------------------------ object shapes
    def shape(self, clskey):
        """Abstract constructor run: state and object after the constructor with unknown parameters, or None."""
        if clskey in self.shapes:
            return self.shapes[clskey]
        self.shapes[clskey] = None
        c = self.prog.classes[clskey]
        sub = Interp(self.prog, max_steps=30000, remove_raises=False, unroll=self.unroll, opaque=lambda f: f.name in (
            'connect', 'disconnect', 'make_connection', 'break_connection', 'update_internal_exec_order'))
        sub.shapes = self.shapes
        sub.gcache, sub.gstate, sub.globval = self.gcache, self.gstate, self.globval
        sub.n = 0
        st = State()
        o = ('obj', clskey, 'self')
        res = None
        try:
            r = self.prog.find_member(c, '__init__')
            if r and r[1][-1][0] == 'func':
                f = r[1][-1][1]
                args, kwargs = [], []
                a = f.node.args
                names = [x.arg for x in a.posonlyargs + a.args][1:]
                args = [('sym', n) for n in names]
                kwargs = [(x.arg, ('sym', x.arg)) for x in a.kwonlyargs]
                outs = sub.inline(f, [o] + args, kwargs, st, Frame(None, 0, None, None, 0, (), c.mod), f.node, cls=r[0])
                good = [s for s, v in outs if not isinstance(v, (Raise, Escape))]
                if good:
                    res = (good, o)
            else:
                res = ([st], o)
        except TooManyPaths:
            res = None
        self.shapes[clskey] = res
        return res

    def stale_attrs(self, c):
        """Attributes that methods other than the constructor (and its private helpers) rebind or mutate."""
        if c.key in self.stale_attr_cache:
            return self.stale_attr_cache[c.key]
        meths = {}
        for k in self.prog.mro(c):
            if isinstance(k, Cls):
                for name, b in k.members.items():
                    for x in b:
                        if x[0] == 'func' and name not in meths:
                            meths.setdefault(name, []).append(x[1])
        calls = {}
        for name, fs in meths.items():
            s = set()
            for f in fs:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                        s.add(n.attr)
            calls[name] = s
        initonly = {'__init__'}
        changed = True
        while changed:
            changed = False
            for name in meths:
                if name in initonly or not name.startswith('_') or name.startswith('__'):
                    continue
                callers = [m for m in meths if m != name and name in calls[m]]
                if callers and all(m in initonly for m in callers):
                    initonly.add(name)
                    changed = True
        out = set()
        for name, fs in meths.items():
            if name in initonly:
                continue
            for f in fs:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                        b = n.func.value
                        if isinstance(b, ast.Attribute):
                            out.add(b.attr)
                    elif isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Attribute):
                        r = self.prog.resolve_static(f.mod, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                        if r and r[0] == 'ext' and r[1] in MUTATING_EXT:
                            out.add(n.args[0].attr)
        self.stale_attr_cache[c.key] = out
        return out

    def field_from_shape(self, base, c, attr, st):
        """Initial value of a field of an existing object of class c, as established by the constructor."""
        fld = ('fld', base, attr, 0)
        sh = self.shape(c.key)
        if not sh:
            return fld
        goods, o = sh
        vals = [g.heap.get((o, attr)) for g in goods]
        if vals[0] is None:
            return fld
        tags = {self.type_tag(v, g) if v is not None else None for v, g in zip(vals, goods)}
        v, g = vals[0], goods[0]
        if len(tags) > 1 and len(set(vals)) > 1:
            # different kinds on different constructor paths
            ntags = tags - {'~NoneType', None}
            if len(ntags) == 1 and None not in tags:
                pass
            return fld
        stale = attr in self.stale_attrs(c)
        r = self.materialise(base, v, g, o, st, stale, set())
        if r is None:
            k = self.type_tag(v, g)
            if k and not k.startswith('~None') and not stale:
                st.set_type(fld, k)
            return fld
        return r

    def materialise(self, base, v, g, o, st, stale, seen):
        if v == o:
            return base
        if v[0] == 'obj':
            if stale:
                fld = ('obj', v[1], (base, v[2]))
                return fld
            n = ('obj', v[1], (base, v[2]))
            return n
        if v[0] == 'cont' and v not in self.gstate.conts:
            n = ('cont', v[1], (base, v[2]))
            if n in st.conts:
                return n
            st.set_cont(n, None)
            items = g.conts.get(v)
            if items is not None and not stale and v[1] in ('list', 'tuple') and items and all(x[0] in ('obj',) for x in items) and len(items) <= 12:
                st.set_cont(n, tuple(self.materialise(base, x, g, o, st, False, seen) for x in items))
            ce = g.celem.get(v)
            if ce is not None and ce[0] in ('obj',):
                st.set_celem(n, ('obj', ce[1], (base, ce[2])))
            elif ce is not None and ce[0] == 'cont':
                st.set_celem(n, ce)
            return n
        if v[0] == 'tuple' and v[1] and all(x[0] == 'obj' for x in v[1]):
            return ('tuple', tuple(self.materialise(base, x, g, o, st, False, seen) for x in v[1]))
        if v[0] in ('func', 'bound', 'class', 'ext', 'enum', 'mod', 'glob') and not stale and v[0] != 'bound':
            if v[0] == 'func' and v[2]:
                return None
            return v
        if v[0] == 'bound':
            b = self.materialise(base, v[1], g, o, st, stale, seen)
            return ('bound', b, v[2], v[3]) if b is not None and not stale else None
        return None

    # ------------------------------------------------------------------ entry points
    def new_object(self, clskey, ident):
        return ('obj', clskey, ident)

    def run(self, func, args=None, selfv=None, st=None, cls=None, kwargs=None, params=None):
        """Follow all paths of `func`. `params` maps parameter names to terms (default: symbols). Returns a list of Path."""
        st = st.fork() if st is not None else State()
        st.trace = None
        self.steps = 0
        self.endless = []
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = []
        params = params or {}
        if args is not None:
            vals = list(args)
        else:
            for i, n in enumerate(names):
                if i == 0 and selfv is not None:
                    vals.append(selfv)
                else:
                    vals.append(params.get(n, ('sym', n)))
        kw = [(x.arg, params.get(x.arg, ('sym', x.arg))) for x in a.kwonlyargs]
        if a.vararg and args is None:
            vals.append(('star', params.get(a.vararg.arg, ('sym', a.vararg.arg))))
        if a.kwarg and args is None:
            kw.append((None, params.get(a.kwarg.arg, ('sym', a.kwarg.arg))))
        fr = Frame(None, 0, None, None, 0, (), func.mod)
        if func.isgen:
            outs = self.run_gen_entry(func, vals, kw, st, fr, cls)
        else:
            outs = []
            for s, v in self.inline(func, vals, kw, st, fr, func.node, cls=cls or func.cls, emit=False):
                if isinstance(v, Raise):
                    outs.append((s, ('raise', v.exc, v.node, v.func)))
                elif isinstance(v, Escape):
                    outs.append((s, v.out))
                else:
                    outs.append((s, ('ret', v)))
        return [Path(s.events(), o, s) for s, o in outs]

    def run_value(self, f, args=(), kwargs=(), st=None):
        """Follow all paths of a call of a function value (closure, bound method ...) in a state."""
        st = st.fork() if st is not None else State()
        st.trace = None
        self.steps = 0
        self.endless = []
        fr = Frame(None, 0, None, None, 0, (), next(iter(self.prog.mods.values())))
        node = ast.parse('f()').body[0].value
        outs = []
        for s, v in self.call(f, list(args), list(kwargs), st, fr, node):
            if isinstance(v, Raise):
                outs.append((s, ('raise', v.exc, v.node, v.func)))
            elif isinstance(v, Escape):
                outs.append((s, v.out))
            else:
                outs.append((s, ('ret', v)))
        return [Path(s.events(), o, s) for s, o in outs]

    def run_gen_entry(self, func, vals, kw, st, fr, cls):
        """A generator analysed on its own: every yield is an event and the consumer always asks for more."""
        bound = self.bind(func, vals, kw, st, fr, func.node)
        res = []
        for s, eid in bound:
            if isinstance(eid, Raise):
                res.append((s, ('raise', eid.exc, eid.node, eid.func)))
                continue
            token = self.fresh()

            def on_yield(s2, v, node, fr2):
                self.ev('yield', node, fr2, s2, value=v)
                return [(s2, None)]
            f2 = Frame(func, eid, cls or func.cls, vals[0] if vals else None, 1, (func.key,), func.mod, on_yield, token)
            self.visited.add(func.key)
            for s3, out in self.block(func.node.body, s, f2):
                if out is not None and out[0] == 'esc':
                    out = out[2]
                res.append((s3, out))
        return res

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        """Execute a statement list: list of (state, outcome)."""
        work = [(st, None)]
        done = []
        for s in stmts:
            nxt = []
            for st1, _ in work:
                self.tick()
                for st2, out in self.stmt(s, st1, fr):
                    if out is None:
                        nxt.append((st2, None))
                    else:
                        done.append((st2, out))
            work = nxt
            if not work:
                break
            if len(work) + len(done) > 4000:
                raise TooManyPaths()
        return work + done

    def out_of(self, v, node=None, fr=None):
        if isinstance(v, Raise):
            return ('raise', v.exc, v.node, v.func)
        return ('esc', v.token, v.out)

    def stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return [(st, None)]
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(a, None if not isinstance(v, (Raise, Escape)) else self.out_of(v)) for a, v in self.expr(s.value, st, fr)]

    def s_Pass(self, s, st, fr):
        return [(st, None)]

    def s_Global(self, s, st, fr):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [(st, ('ret', NONE, s))]
        return [(a, ('ret', v, s) if not isinstance(v, (Raise, Escape)) else self.out_of(v)) for a, v in self.expr(s.value, st, fr)]

    def s_Break(self, s, st, fr):
        return [(st, ('brk',))]

    def s_Continue(self, s, st, fr):
        return [(st, ('cont',))]

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            return [(st, ('raise', st.exc or ('exc', ('ext', '?'), ()), s, fr.func))]
        out = []
        for a, v in self.expr(s.exc, st, fr):
            if isinstance(v, (Raise, Escape)):
                out.append((a, self.out_of(v)))
                continue
            if v[0] in ('class', 'ext'):
                v = ('exc', v, ())
            elif v[0] == 'obj':
                v = ('exc', ('class', v[1]), ())
            elif v[0] == 'call' and isinstance(v[1], str) and v[1].startswith('builtins.'):
                v = ('exc', ('ext', v[1]), v[2])
            elif v[0] != 'exc':
                v = ('exc', ('ext', '?'), ())
            self.ev('raise', s, fr, a, exc=v)
            out.append((a, ('raise', v, s, fr.func)))
        return out

    def s_Assert(self, s, st, fr):
        out = []
        for a, b in self.cond(s.test, st, fr):
            if isinstance(b, (Raise, Escape)):
                out.append((a, self.out_of(b)))
            elif b:
                out.append((a, None))
            else:
                exc = ('exc', ('ext', 'builtins.AssertionError'), ())
                self.ev('raise', s, fr, a, exc=exc)
                out.append((a, ('raise', exc, s, fr.func)))
        return out

    def s_If(self, s, st, fr):
        out = []
        for a, b in self.cond(s.test, st, fr):
            if isinstance(b, (Raise, Escape)):
                out.append((a, self.out_of(b)))
            else:
                out.extend(self.block(s.body if b else s.orelse, a, fr))
        return out

    def s_FunctionDef(self, s, st, fr):
        f = self.prog.by_node[s]
        st.set_env(fr.eid, s.name, ('func', f.key, fr.eid))
        return [(st, None)]

    def s_ClassDef(self, s, st, fr):
        st.set_env(fr.eid, s.name, ('class', self.prog.by_node[s].key))
        return [(st, None)]

    def s_Import(self, s, st, fr):
        for al in s.names:
            nm = al.name if al.asname else al.name.split('.')[0]
            v = ('mod', nm) if nm in self.prog.mods else ('ext', nm)
            st.set_env(fr.eid, al.asname or al.name.split('.')[0], v)
        return [(st, None)]

    def s_ImportFrom(self, s, st, fr):
        base = self.prog.import_base(fr.mod, s)
        for al in s.names:
            if base in self.prog.mods:
                v = self.global_value(self.prog.mods[base], al.name, st)
                if v[0] == 'undef' and base + '.' + al.name in self.prog.mods:
                    v = ('mod', base + '.' + al.name)
                if v[0] == 'undef':
                    v = ('ext', base + '.' + al.name)
            else:
                v = ('ext', base + '.' + al.name)
            st.set_env(fr.eid, al.asname or al.name, v)
        return [(st, None)]

    def s_Assign(self, s, st, fr):
        out = []
        for a, v in self.expr(s.value, st, fr):
            if isinstance(v, (Raise, Escape)):
                out.append((a, self.out_of(v)))
                continue
            cur = [(a, None)]
            for t in s.targets:
                nxt = []
                for b, o in cur:
                    if o is not None:
                        nxt.append((b, o))
                    else:
                        nxt.extend(self.assign(t, v, b, fr, s))
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, None)]
        out = []
        for a, v in self.expr(s.value, st, fr):
            if isinstance(v, (Raise, Escape)):
                out.append((a, self.out_of(v)))
            else:
                out.extend(self.assign(s.target, v, a, fr, s))
        return out

    def s_AugAssign(self, s, st, fr):
        out = []
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            for a, vs in self.exprs([load, s.value], st, fr):
                if isinstance(vs, (Raise, Escape)):
                    out.append((a, self.out_of(vs)))
                    continue
                for b, r in self.iop(op, vs[0], vs[1], a, fr, s):
                    if isinstance(r, (Raise, Escape)):
                        out.append((b, self.out_of(r)))
                    else:
                        out.extend(self.assign(t, r, b, fr, s))
        elif isinstance(t, ast.Attribute):
            for a, vs in self.exprs([t.value, s.value], st, fr):
                if isinstance(vs, (Raise, Escape)):
                    out.append((a, self.out_of(vs)))
                    continue
                for b, cur in self.getattr(vs[0], t.attr, a, fr, t):
                    if isinstance(cur, (Raise, Escape)):
                        out.append((b, self.out_of(cur)))
                        continue
                    for c, r in self.iop(op, cur, vs[1], b, fr, s):
                        if isinstance(r, (Raise, Escape)):
                            out.append((c, self.out_of(r)))
                        else:
                            out.extend(self.setattr(vs[0], t.attr, r, c, fr, s, aug=True))
        else:
            for a, vs in self.exprs([t.value, t.slice, s.value], st, fr):
                if isinstance(vs, (Raise, Escape)):
                    out.append((a, self.out_of(vs)))
                    continue
                cur = ('idx', vs[0], vs[1], a.ver(vs[0]))
                for b, r in self.iop(op, cur, vs[2], a, fr, s, sub=True):
                    if isinstance(r, (Raise, Escape)):
                        out.append((b, self.out_of(r)))
                    else:
                        out.extend(self.setitem(vs[0], vs[1], r, b, fr, s, aug=True))
        return out

    def s_Delete(self, s, st, fr):
        cur = [(st, None)]
        for t in s.targets:
            nxt = []
            for a, o in cur:
                if o is not None:
                    nxt.append((a, o))
                    continue
                if isinstance(t, ast.Subscript):
                    for b, vs in self.exprs([t.value, t.slice], a, fr):
                        if isinstance(vs, (Raise, Escape)):
                            nxt.append((b, self.out_of(vs)))
                            continue
                        self.mutate(vs[0], 'delitem', [vs[1]], b, fr, s)
                        nxt.append((b, None))
                elif isinstance(t, ast.Attribute):
                    for b, v in self.expr(t.value, a, fr):
                        if isinstance(v, (Raise, Escape)):
                            nxt.append((b, self.out_of(v)))
                            continue
                        self.ev('delattr', s, fr, b, base=v, attr=t.attr)
                        nxt.append((b, None))
                else:
                    nxt.append((a, None))
            cur = nxt
        return cur

    # -- loops
    def s_For(self, s, st, fr):
        out = []
        for a, it in self.expr(s.iter, st, fr):
            if isinstance(it, (Raise, Escape)):
                out.append((a, self.out_of(it)))
                continue

            def body(b, elem, s=s):
                res = []
                for c, o in self.assign(s.target, elem, b, fr, s):
                    if o is not None:
                        res.append((c, o))
                    else:
                        res.extend(self.block(s.body, c, fr))
                return res
            for b, o in self.iterate(it, body, a, fr, s, set_targets(s.target)):
                if o is None:
                    out.extend(self.block(s.orelse, b, fr) if s.orelse else [(b, None)])
                elif o == ('brk',):
                    out.append((b, None))
                else:
                    out.append((b, o))
        return out

    def iterate(self, it, body, st, fr, node, hint=()):
        """Run `body(state, element)` over iterable `it`. Outcomes: None (exhausted), ('brk',), or a leaving outcome."""
        self.tick()
        # objects with their own iteration protocol
        c = self.cls_of(it, st)
        if c is not None and it[0] != 'enum':
            r = self.prog.find_member(c, '__iter__')
            if r and r[1][-1][0] == 'func':
                out = []
                for a, v in self.inline(r[1][-1][1], [it], [], st, fr, node, cls=r[0]):
                    if isinstance(v, (Raise, Escape)):
                        out.append((a, self.out_of(v)))
                    else:
                        out.extend(self.iterate(v, body, a, fr, node, hint))
                return out
            r = self.prog.find_member(c, '__getitem__')
            if r and r[1][-1][0] == 'func':
                out = []
                i = ('sym', '#i%d' % self.fresh())
                for a, v in self.inline(r[1][-1][1], [it, i], [], st, fr, node, cls=r[0], emit=False):
                    if isinstance(v, (Raise, Escape)):
                        out.append((a, self.out_of(v)))
                    elif v[0] == 'idx' and v[2] == i:
                        out.extend(self.iterate(v[1], body, a, fr, node, hint))
                    else:
                        out.extend(self.generic_loop(it, body, a, fr, node))
                return out
        if it[0] == 'gen':
            if ('done', it) in st.gens:
                return [(st, None)]
            out = []
            for a, o in self.iterate_gen(it, body, st, fr, node):
                if o is None:
                    a.gens = {**a.gens, ('done', it): True}
                out.append((a, o))
            return out
        if it[0] == 'call' and it[1] == 'itertools.chain' and not it[3] and not any(x[0] == 'star' for x in it[2]):
            cur = [(st, None)]
            for sub in it[2]:
                nxt = []
                for a, o in cur:
                    nxt.extend(self.iterate(sub, body, a, fr, node, hint) if o is None else [(a, o)])
                cur = nxt
            return cur
        if it[0] == 'call' and it[1] in ('builtins.map', 'builtins.filter') and len(it[2]) == 2 and not it[3]:
            fn, src = it[2]

            def body2(b, elem):
                res = []
                if it[1].endswith('map'):
                    for c2, v in self.call(fn, [elem], [], b, fr, node):
                        if isinstance(v, (Raise, Escape)):
                            res.append((c2, self.out_of(v)))
                        else:
                            res.extend(body(c2, v))
                else:
                    calls = [(b, elem)] if fn == NONE else self.call(fn, [elem], [], b, fr, node)
                    for c2, v in calls:
                        if isinstance(v, (Raise, Escape)):
                            res.append((c2, self.out_of(v)))
                            continue
                        for d, ok in self.truth(v, c2, fr, node):
                            res.extend(body(d, elem) if ok else [(d, None)])
                return res
            return self.iterate(src, body2, st, fr, node, hint)
        items = self.contents(it, st) if it[0] != 'cont' or it[1] not in ('dict', 'defaultdict') else (
            [k for k, _ in self.dict_items(it, st)] if self.dict_items(it, st) is not None else None)
        if items is not None and len(items) <= self.unroll:
            cur = [(st, None)]
            for x in items:
                nxt = []
                for a, o in cur:
                    if o is not None:
                        nxt.append((a, o))
                        continue
                    for b, o2 in body(a, x):
                        nxt.append((b, None if o2 == ('cont',) else o2))
                cur = nxt
                if len(cur) > 3000:
                    raise TooManyPaths()
            return cur
        return self.generic_loop(it, body, st, fr, node)

    def iterate_gen(self, it, body, st, fr, node):
        _, fkey, eid, gid = it[:4]
        if fkey == '<genexp>':
            return self.iterate_genexp(it, body, st, fr, node)
        f = self.prog.funcs[fkey]
        token = self.fresh()
        if fr.stack.count(f.key) >= self.recursion or fr.depth >= self.max_depth:
            return self.generic_loop(it, body, st, fr, node)
        self.visited.add(f.key)

        def on_yield(s2, v, n2, fr2):
            res = []
            for a, o in body(s2, v):
                if o is None or o == ('cont',):
                    res.append((a, None))
                else:
                    res.append((a, Escape(token, o)))
            return res
        selfv = it[4] if len(it) > 4 else None
        f2 = Frame(f, eid, f.cls, selfv, fr.depth + 1, fr.stack + (f.key,), f.mod, on_yield, token, chain=fr.chain)
        out = []
        for a, o in self.block(f.node.body, st, f2):
            if o is None or o[0] == 'ret':
                out.append((a, None))
            elif o[0] == 'esc' and o[1] == token:
                out.append((a, o[2]))
            else:
                out.append((a, o))
        return out

    def iterate_genexp(self, it, body, st, fr, node):
        _, _, eid, gid = it[:4]
        gnode, gfr = st.gens.get(gid) or self.gstate.gens[gid]

        def inner(s2, v):
            return body(s2, v)
        return [(a, None if o == ('cont',) else o) for a, o in self.comp_loops(gnode.generators, 0, gnode.elt, inner, st, gfr, node)]

    def comp_loops(self, gens, i, elt, sink, st, fr, node):
        """Nested comprehension loops; sink(state, value) consumes each element."""
        if i == len(gens):
            res = []
            for a, v in self.expr(elt, st, fr):
                if isinstance(v, (Raise, Escape)):
                    res.append((a, self.out_of(v)))
                else:
                    res.extend(sink(a, v))
            return res
        g = gens[i]
        out = []
        for a, itv in self.expr(g.iter, st, fr):
            if isinstance(itv, (Raise, Escape)):
                out.append((a, self.out_of(itv)))
                continue

            def body(b, elem, g=g, i=i):
                res = []
                for c, o in self.assign(g.target, elem, b, fr, node):
                    if o is not None:
                        res.append((c, o))
                        continue
                    cur = [(c, True)]
                    for t in g.ifs:
                        nxt = []
                        for d, ok in cur:
                            if ok is not True:
                                nxt.append((d, ok))
                            else:
                                nxt.extend(self.cond(t, d, fr))
                        cur = nxt
                    for d, ok in cur:
                        if isinstance(ok, (Raise, Escape)):
                            res.append((d, self.out_of(ok)))
                        elif ok:
                            res.extend(self.comp_loops(gens, i + 1, elt, sink, d, fr, node))
                        else:
                            res.append((d, None))
                return res
            out.extend(self.iterate(itv, body, a, fr, node))
        return out

    def elem_of(self, it, loopid, st):
        """Name of the element of an opaque iterable in the generic iteration."""
        if it[0] == 'call' and it[1] == 'builtins.enumerate' and it[2]:
            return ('tuple', (('elem', ('call', 'builtins.range', it[2][1:], (), None), loopid), self.elem_of(it[2][0], loopid, st)))
        if it[0] == 'call' and it[1] == 'builtins.zip' and not any(x[0] == 'star' for x in it[2]):
            return ('tuple', tuple(self.elem_of(x, loopid, st) for x in it[2]))
        if it[0] == 'call' and it[1] in ('builtins.reversed', 'builtins.sorted', 'builtins.iter') and it[2]:
            return self.elem_of(it[2][0], loopid, st)
        if it[0] == 'dictview':
            k, v = ('elem', it[2], loopid), ('idx', it[2], ('elem', it[2], loopid), st.ver(it[2]))
            return k if it[1] == 'keys' else v if it[1] == 'values' else ('tuple', (k, v))
        if it[0] == 'snap':
            return self.elem_of(it[1], loopid, st)
        ce = st.celem.get(it) or self.gstate.celem.get(it)
        e = ('elem', it, loopid)
        if ce is not None:
            if ce[0] == 'tuple':
                return ('tuple', tuple(self.retag(x, ('idx', e, C(i), 0), st) for i, x in enumerate(ce[1])))
            self.retag(ce, e, st)
        return e

    def retag(self, src, dst, st):
        k = self.type_tag(src, st)
        if k:
            st.set_type(dst, k)
        return dst

    def generic_loop(self, it, body, st, fr, node, cond=None):
        """One generic iteration with everything the body may change forgotten, iterated until the set of forgotten things is stable."""
        loopid = self.fresh()
        mod = set()
        base_trace = st.trace
        for _ in range(6):
            h = self.havoc(st, mod, loopid)
            h0 = h.fork()
            b = h.fork()
            b.trace = None
            results = []
            if cond is None:
                elem = self.elem_of(it, loopid, b)
                h0.types = b.types
                results = body(b, elem)
            else:
                elem = None
                for c, ok in cond(b):
                    if isinstance(ok, (Raise, Escape)):
                        results.append((c, self.out_of(ok)))
                    elif ok:
                        results.extend(body(c))
            new = set()
            for c, o in results:
                new |= self.changed(h, c)
            if new <= mod:
                break
            mod |= new
        paths = [Path(c.events(), o, c) for c, o in results]
        out = []
        lev = dict(iter=it, elem=elem, loopid=loopid, paths=paths, pre=h, entry=st, isfor=cond is None, mod=mod)
        # normal exit
        e = h0.fork()
        e.trace = base_trace
        for c, o in results:
            if o is None or o == ('cont',):
                e.types = {**e.types, **{k: v for k, v in c.types.items() if k not in e.types}}
                e.celem = {**e.celem, **{k: v for k, v in c.celem.items() if k not in e.celem}}
        self.ev('loop', node, fr, e, exhausted=True, **lev)
        if cond is None:
            out.append((e, None))
        else:
            for c, ok in cond(e):
                if isinstance(ok, (Raise, Escape)):
                    pass
                elif not ok:
                    out.append((c, None))
        for c, o in results:
            if o is None or o == ('cont',):
                continue
            evs = c.events()
            x = c.fork()
            x.trace = base_trace
            self.ev('loop', node, fr, x, exhausted=False, **lev)
            for q in evs:
                x.emit(q)
            out.append((x, o))
        if not out:
            self.endless.append(Path(e.events(), ('endless',), e))
        return out

    def havoc(self, st, mod, loopid):
        h = st.fork()
        for m in mod:
            if m[0] == 'env':
                v = ('phi', loopid, m[2])
                old = st.envs.get(m[1], {}).get(m[2])
                h.set_env(m[1], m[2], v)
                if old is not None:
                    k = self.type_tag(old, st)
                    if k and k != '~NoneType':
                        h.set_type(v, k)
            elif m[0] == 'heap':
                v = ('phi', loopid, m[1])
                h.set_heap(m[1], v)
                old = st.heap.get(m[1])
                if old is not None:
                    k = self.type_tag(old, st)
                    if k and k != '~NoneType':
                        h.set_type(v, k)
            elif m[0] == 'cont':
                h.set_cont(m[1], None)
            elif m[0] == 'ver':
                h.vers = {**h.vers, m[1]: ('L', loopid)}
        return h

    def changed(self, a, b):
        out = set()
        for eid, e in b.envs.items():
            e0 = a.envs.get(eid)
            if e0 is None or e0 is e:
                continue
            for n, v in e.items():
                if n in e0 and e0[n] != v:
                    out.add(('env', eid, n))
        if a.heap is not b.heap:
            for k, v in b.heap.items():
                if k in a.heap:
                    if a.heap[k] != v:
                        out.add(('heap', k))
                elif not (k[0][0] == 'obj' and isinstance(k[0][2], int)):
                    if v != ('fld', k[0], k[1], 0) and self.lazy.get(k) != v:
                        out.add(('heap', k))
        if a.conts is not b.conts:
            for k, v in b.conts.items():
                if k in a.conts and a.conts[k] != v and a.conts[k] is not None:
                    out.add(('cont', k))
                elif k not in a.conts and isinstance(k[2], tuple) and a.vers.get(k, 0) != b.vers.get(k, 0):
                    out.add(('cont', k))
        if a.vers is not b.vers:
            for k, v in b.vers.items():
                if a.vers.get(k, 0) != v:
                    out.add(('ver', k))
        return out

    def spell_while(self, s, st, fr):
        """The outcomes of a while loop whose tests are all decided, or None."""
        out, todo = [], [(st.fork(), 0)]
        while todo:
            a, n = todo.pop()
            rs = self.cond(s.test, a, fr)
            if len(rs) != 1 or n > self.unroll:
                return None
            b, r = rs[0]
            if isinstance(r, (Raise, Escape)):
                out.append((b, self.out_of(r)))
            elif not r:
                out.extend(self.block(s.orelse, b, fr) if s.orelse else [(b, None)])
            else:
                for c, o in self.block(s.body, b, fr):
                    if o is None or o == ('cont',):
                        todo.append((c, n + 1))
                    else:
                        out.append((c, None if o == ('brk',) else o))
            if len(todo) > 16:
                return None
        return out

    def s_While(self, s, st, fr):
        if self.exact:
            out = self.spell_while(s, st, fr)
            if out is not None:
                return out
        # while over a literal false condition etc. is handled by cond()
        out = []

        def cond(b):
            return self.cond(s.test, b, fr)

        def body(b):
            return self.block(s.body, b, fr)
        for b, o in self.generic_loop(('while', id(s)), body, st, fr, s, cond=cond):
            if o is None:
                out.extend(self.block(s.orelse, b, fr) if s.orelse else [(b, None)])
            elif o == ('brk',):
                out.append((b, None))
            else:
                out.append((b, o))
        return out

    # -- with / try
    def s_With(self, s, st, fr):
        return self.with_items(s.items, s, st, fr)

    def with_items(self, items, s, st, fr):
        if not items:
            return self.block(s.body, st, fr)
        item = items[0]
        out = []
        for a, cm in self.expr(item.context_expr, st, fr):
            if isinstance(cm, (Raise, Escape)):
                out.append((a, self.out_of(cm)))
                continue

            def rest(b, v, item=item):
                if item.optional_vars is not None:
                    res = []
                    for c, o in self.assign(item.optional_vars, v, b, fr, s):
                        res.extend(self.with_items(items[1:], s, c, fr) if o is None else [(c, o)])
                    return res
                return self.with_items(items[1:], s, b, fr)
            if cm[0] == 'gen' and cm[1] != '<genexp>':
                f = self.prog.funcs[cm[1]]
                token = self.fresh()
                self.visited.add(f.key)

                def on_yield(s2, v, n2, fr2, token=token, rest=rest):
                    res = []
                    for b, o in rest(s2, v):
                        if o is not None and o[0] == 'raise':
                            res.append((b, Raise(o[1], o[2] if len(o) > 2 else None, o[3] if len(o) > 3 else None)))
                        else:
                            b.pend = b.pend + ((token, o),)
                            res.append((b, None))
                    return res
                f2 = Frame(f, cm[2], f.cls, None, fr.depth + 1, fr.stack + (f.key,), f.mod, on_yield, token, chain=fr.chain)
                for b, o in self.block(f.node.body, a, f2):
                    pend = [p for p in b.pend if p[0] == token]
                    b.pend = tuple(p for p in b.pend if p[0] != token)
                    if o is None or o[0] == 'ret':
                        out.append((b, pend[-1][1] if pend else None))
                    else:
                        out.append((b, o))
                continue
            c = self.cls_of(cm, a)
            if c is not None and self.prog.find_member(c, '__enter__'):
                for b, v in self.call_method(cm, '__enter__', [], [], a, fr, s):
                    if isinstance(v, (Raise, Escape)):
                        out.append((b, self.out_of(v)))
                        continue
                    for d, o in rest(b, v):
                        for e, w in self.call_method(cm, '__exit__', [NONE, NONE, NONE], [], d, fr, s):
                            out.append((e, o if not isinstance(w, (Raise, Escape)) else self.out_of(w)))
                continue
            self.ev('enter', s, fr, a, cm=cm)
            for b, o in rest(a, ('call', 'enter', (cm,), (), None)):
                self.ev('exit', s, fr, b, cm=cm)
                if cm[0] == 'call' and cm[1] == 'contextlib.suppress' and o is not None and o[0] == 'raise':
                    m = any(self.exc_match(o[1], h) for h in cm[2])
                    if m:
                        o = None
                out.append((b, o))
        return out

    def s_Try(self, s, st, fr):
        res = []
        catches = any(h.type is None or 'AttributeError' in ast.unparse(h.type) for h in s.handlers)
        self.attr_try += catches
        try:
            body = self.block(s.body, st, fr)
        finally:
            self.attr_try -= catches
        for a, o in body:
            if o is not None and o[0] == 'raise':
                res.extend(self.handlers(s, a, o, fr))
            elif o is None and s.orelse:
                res.extend(self.block(s.orelse, a, fr))
            else:
                res.append((a, o))
        if not s.finalbody:
            return res
        out = []
        for a, o in res:
            for b, o2 in self.block(s.finalbody, a, fr):
                out.append((b, o if o2 is None else o2))
        return out

    def handlers(self, s, st, o, fr):
        out = []
        cur = st
        exc = o[1]
        for h in s.handlers:
            if h.type is None:
                match = True
            else:
                match = None
                for a, t in self.expr(h.type, cur.fork(), fr):
                    if isinstance(t, (Raise, Escape)):
                        match = None
                        break
                    ts = t[1] if t[0] == 'tuple' else [t]
                    rs = [self.exc_match(exc, x) for x in ts]
                    match = True if True in rs else (None if None in rs else False)
            if match is False:
                continue
            b = cur.fork() if match is None else cur
            old = b.exc
            b.exc = exc
            if h.name:
                b.set_env(fr.eid, h.name, exc)
            self.ev('except', h, fr, b, exc=exc)
            for c, o2 in self.block(h.body, b, fr):
                c.exc = old
                out.append((c, o2))
            if match is True:
                return out
        out.append((cur, o))
        return out

    def exc_match(self, exc, handler):
        """Does a handler for `handler` catch `exc`? True / False / None (may)."""
        e = exc[1] if exc[0] == 'exc' else ('ext', '?')
        if handler[0] not in ('class', 'ext'):
            return None
        hb = self.exc_bases(handler)
        eb = self.exc_bases(e)
        if handler in eb:
            return True
        if e == ('ext', '?'):
            return True if handler == ('ext', 'builtins.BaseException') else None
        if e == ('ext', '?Exception'):
            return True if handler in (('ext', 'builtins.BaseException'), ('ext', 'builtins.Exception')) else None
        if e[0] == 'ext' and not known_exc(e[1]) or handler[0] == 'ext' and not known_exc(handler[1]):
            if e == handler:
                return True
            if handler in (('ext', 'builtins.BaseException'), ('ext', 'builtins.Exception')):
                return True
            return None
        if e in hb:      # handler is narrower than the raised type
            return False
        return False

    def exc_bases(self, e):
        if e[0] == 'class':
            c = self.prog.classes.get(e[1])
            out = []
            for k in self.prog.mro(c) if c else []:
                if isinstance(k, Cls):
                    out.append(('class', k.key))
                else:
                    out.extend(self.exc_bases(k) if k[0] == 'ext' else [])
            return out
        t = known_exc(e[1]) if e[0] == 'ext' else None
        if t is None:
            return [e]
        return [e] + [('ext', exc_name(b)) for b in t.__mro__]

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, fr, node)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            out = []
            for a, b in self.expr(t.value, st, fr):
                if isinstance(b, (Raise, Escape)):
                    out.append((a, self.out_of(b)))
                else:
                    out.extend(self.setattr(b, t.attr, v, a, fr, node))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for a, vs in self.exprs([t.value, t.slice], st, fr):
                if isinstance(vs, (Raise, Escape)):
                    out.append((a, self.out_of(vs)))
                else:
                    out.extend(self.setitem(vs[0], vs[1], v, a, fr, node))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.contents(v, st)
            vals = []
            n = len(t.elts)
            if star:
                i = star[0]
                if items is not None and len(items) >= n - 1:
                    k = len(items) - (n - 1)
                    vals = items[:i] + [self.new_cont('list', items[i:i + k], st)] + items[i + k:]
                else:
                    vals = [('idx', v, C(j), st.ver(v)) for j in range(i)] + [('call', 'rest', (v,), (('start', C(i)),) if i > 1 else (), self.fresh())] + [
                        ('idx', v, C(j - n), st.ver(v)) for j in range(i + 1, n)]
            elif items is not None and len(items) == n:
                vals = items
            else:
                self.ev('unpack', node, fr, st, base=v, count=n)
                vals = [self.index(v, C(j), st) for j in range(n)]
            cur = [(st, None)]
            for e, x in zip(t.elts, vals):
                e = e.value if isinstance(e, ast.Starred) else e
                nxt = []
                for a, o in cur:
                    nxt.extend(self.assign(e, x, a, fr, node) if o is None else [(a, o)])
                cur = nxt
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr, node)
        return [(st, None)]

    def set_name(self, name, v, st, fr, node):
        f, eid = fr.func, fr.eid
        if f is not None and name in f.globals_:
            self.ev('gwrite', node, fr, st, mod=f.mod.name, name=name, value=v)
            st.set_heap((('mod', f.mod.name), name), v)
            return
        if f is not None and name in f.nonlocals:
            e = eid
            while True:
                par = st.envs.get(e, {}).get('__parent__')
                if not par:
                    break
                e = par
                if name in st.envs.get(e, {}):
                    break
            self.ev('nlwrite', node, fr, st, name=name, env=e, value=v, old=st.envs.get(e, {}).get(name))
            st.set_env(e, name, v)
            return
        st.set_env(eid, name, v)

    def setattr(self, base, attr, v, st, fr, node, aug=False):
        c = self.cls_of(base, st)
        if base[0] == 'class':
            self.ev('write', node, fr, st, base=base, attr=attr, value=v, old=st.heap.get((base, attr)), aug=aug)
            st.set_heap((base, attr), v)
            return [(st, None)]
        if c is not None:
            r = self.prog.find_member(c, attr)
            if r:
                setter = [b[1] for b in r[1] if b[0] == 'func' and any(d.endswith('.setter') for d in b[1].decos)]
                if setter:
                    out = []
                    for a, x in self.inline(setter[-1], [base, v], [], st, fr, node, cls=r[0]):
                        out.append((a, None if not isinstance(x, (Raise, Escape)) else self.out_of(x)))
                    return out
                b = r[1][-1]
                if b[0] == 'func' and 'property' in b[1].decos:
                    exc = ('exc', ('ext', 'builtins.AttributeError'), ())
                    self.ev('nosetter', node, fr, st, base=base, attr=attr)
                    return [(st, ('raise', exc, node, fr.func))]
        self.ev('write', node, fr, st, base=base, attr=attr, value=v, old=st.heap.get((base, attr)), aug=aug)
        st.set_heap((base, attr), v)
        return [(st, None)]

    def setitem(self, base, key, v, st, fr, node, aug=False):
        c = self.cls_of(base, st)
        if c is not None and self.prog.find_member(c, '__setitem__'):
            return [(a, None if not isinstance(x, (Raise, Escape)) else self.out_of(x))
                    for a, x in self.call_method(base, '__setitem__', [key, v], [], st, fr, node)]
        self.ev('setitem', node, fr, st, base=base, key=key, value=v, aug=aug, ver=st.ver(base))
        items = self.contents(base, st) if base[0] == 'cont' else None
        rest = self.others(base, key, st) if self.mapping(base, st) else None
        if base[0] == 'cont' and base[1] in ('dict', 'defaultdict') and items is not None:
            rs = [self.same(k, key, st) for k, _ in items]
            if None not in rs:
                st.set_cont(base, tuple(x for x, r in zip(items, rs) if not r) + ((key, v),))
            else:
                st.set_cont(base, None)
        elif items is not None and is_const(key) and isinstance(key[2], int) and -len(items) <= key[2] < len(items):
            items[key[2]] = v
            st.set_cont(base, tuple(items))
        elif base[0] == 'cont':
            st.set_cont(base, None)
        st.bump(base)
        if rest is not None:
            self.remember(base, rest, key, v, st)
        st.set_heap((base, ('item', key)), v)
        return [(st, None)]

    # ------------------------------------------------------------------ conditions
    def cond(self, node, st, fr):
        """Branch on an expression: list of (state, True | False | Raise | Escape)."""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            out, cur = [], [st]
            for i, v in enumerate(node.values):
                nxt = []
                for a in cur:
                    for b, r in self.cond(v, a, fr):
                        if isinstance(r, (Raise, Escape)):
                            out.append((b, r))
                        elif r != isand:
                            out.append((b, r))
                        else:
                            nxt.append(b)
                cur = nxt
            out.extend((a, isand) for a in cur)
            return out
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(a, r if isinstance(r, (Raise, Escape)) else not r) for a, r in self.cond(node.operand, st, fr)]
        out = []
        for a, v in self.expr(node, st, fr):
            if isinstance(v, (Raise, Escape)):
                out.append((a, v))
            else:
                out.extend(self.truth(v, a, fr, node))
        return out

    def truth(self, v, st, fr, node):
        """Branch on the truth value of a term."""
        k = v[0]
        if k == 'const':
            return [(st, bool(v[2]))]
        if k == 'not':
            return [(a, r if isinstance(r, (Raise, Escape)) else not r) for a, r in self.truth(v[1], st, fr, node)]
        if k in ('func', 'class', 'bound', 'mod', 'exc', 'ext', 'gen', 'extm', 'enum'):
            return [(st, True)]
        if k == 'tuple':
            return [(st, bool(v[1]))]
        if k == 'cont':
            items = self.contents(v, st)
            if items is not None:
                return [(st, bool(items))]
        c = self.cls_of(v, st)
        if c is not None:
            for d in ('__bool__', '__len__'):
                r = self.prog.find_member(c, d)
                if r and r[1][-1][0] == 'func':
                    out = []
                    for a, x in self.inline(r[1][-1][1], [v], [], st, fr, node, cls=r[0], emit=False):
                        if isinstance(x, (Raise, Escape)):
                            out.append((a, x))
                        else:
                            out.extend(self.truth(x, a, fr, node))
                    return out
            if v[0] == 'obj' and c.ntfields is None:
                return [(st, True)]
            if c.ntfields is not None:
                return [(st, True)]
        key, pol = self.atom(v, st)
        if isinstance(key, bool):
            return [(st, key == pol)]
        d = self.decide(key, st)
        if d is not None:
            if key not in st.facts and not (d == pol and False):
                pass
            return [(st, d == pol)]
        a, b = st, st.fork()
        a.assume(key, pol)
        b.assume(key, not pol)
        self.learn(key, pol, a)
        self.learn(key, not pol, b)
        self.ev('assume', node, fr, a, key=key, val=pol)
        self.ev('assume', node, fr, b, key=key, val=not pol)
        return [(a, True), (b, False)]

    def learn(self, key, val, st):
        if key[0] == 'isinst' and val and key[2][0] == 'class':
            if self.cls_of(key[1], st) is None:
                st.set_type(key[1], key[2][1])

    def atom(self, v, st):
        """Canonical atom and polarity of a boolean valued term; (True/False, True) when decided structurally."""
        if v[0] == 'cmp':
            op, a, b = v[1], v[2], v[3]
            if op in ('ne', 'isnot', 'notin'):
                k, p = self.atom(('cmp', {'ne': 'eq', 'isnot': 'is', 'notin': 'in'}[op], a, b), st)
                return (not k, p) if isinstance(k, bool) else (k, not p)
            if op == 'gt':
                return self.atom(('cmp', 'lt', b, a), st)
            if op == 'ge':
                k, p = self.atom(('cmp', 'lt', a, b), st)
                return (not k, p) if isinstance(k, bool) else (k, not p)
            if op == 'le':
                k, p = self.atom(('cmp', 'lt', b, a), st)
                return (not k, p) if isinstance(k, bool) else (k, not p)
            if op in ('eq', 'is'):
                # len(x) == 0
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'call' and x[1] == 'builtins.len' and y == C(0):
                        k, p = self.atom(x[2][0] + () if False else x[2][0], st) if False else (('truthy', x[2][0], st.ver(x[2][0])), True)
                        items = self.contents(x[2][0], st)
                        if items is not None:
                            return (len(items) == 0, True)
                        return k, not p
                if a == b and a[0] != 'call':
                    return (True, True)
                if is_const(a) and is_const(b):
                    return ((a[2] == b[2]) if op == 'eq' else (a[2] is b[2] or a[1:] == b[1:]), True)
                DIST = ('const', 'enum', 'class', 'func', 'obj', 'ext', 'mod', 'cont', 'tuple')
                if a[0] in DIST and b[0] in DIST and op == 'is' or {a[0], b[0]} <= {'enum', 'class', 'func', 'mod'}:
                    if not ({a[0], b[0]} <= {'ext', 'const'} and 'ext' in (a[0], b[0])):
                        if a[0] == 'obj' and b[0] == 'obj' and not (isinstance(a[2], int) or isinstance(b[2], int)):
                            return (('eq',) + tuple(sorted((a, b), key=repr)), True)
                        return (a == b, True)
                if (a == NONE and b[0] in DIST) or (b == NONE and a[0] in DIST):
                    return (a == b, True)
                if a == NONE and b[0] in ('bound', 'partial', 'gen', 'unbound') or b == NONE and a[0] in ('bound', 'partial', 'gen', 'unbound'):
                    return (False, True)
                if (is_const(a) and b[0] in ('obj', 'cont', 'enum')) or (is_const(b) and a[0] in ('obj', 'cont', 'enum')):
                    c = self.cls_of(a if a[0] == 'obj' else b, st)
                    if c is None or not self.prog.find_member(c, '__eq__'):
                        return (False, True)
                if a[0] == 'obj' and b[0] == 'obj' and op == 'eq':
                    c = self.cls_of(a, st)
                    if c is not None and not self.prog.find_member(c, '__eq__') and c.ntfields is None:
                        if isinstance(a[2], int) or isinstance(b[2], int) or a[1] != b[1]:
                            return (a == b, True)
                if {a[0], b[0]} <= {'tuple'} and len(a[1]) != len(b[1]):
                    return (False, True)
                if {a[0], b[0]} <= {'tuple'}:
                    sub = [self.atom(('cmp', 'eq', x, y), st) for x, y in zip(a[1], b[1])]
                    vals = [(k == p) if isinstance(k, bool) else None for k, p in sub]
                    if False in vals:
                        return (False, True)
                    if all(x is True for x in vals):
                        return (True, True)
                if is_const(b) or a[0] in ('enum', 'class'):
                    a, b = b, a
                elif not is_const(a) and b[0] not in ('enum', 'class') and repr(b) < repr(a):
                    a, b = b, a
                return (('eq', a, b), True)
            if op == 'lt':
                if is_const(a) and is_const(b):
                    try:
                        return (a[2] < b[2], True)
                    except TypeError:
                        pass
                la = a[0] == 'call' and a[1] == 'builtins.len'
                lb = b[0] == 'call' and b[1] == 'builtins.len'
                if la and b == C(1):
                    return (('truthy', a[2][0], st.ver(a[2][0])), False)
                if lb and a == C(0):
                    items = self.contents(b[2][0], st)
                    if items is not None:
                        return (len(items) > 0, True)
                    return (('truthy', b[2][0], st.ver(b[2][0])), True)
                if a == b:
                    return (False, True)
                return (('lt', a, b), True)
            if op == 'in':
                if is_const(a) and is_const(b) and isinstance(a[2], str) and isinstance(b[2], str):
                    return (a[2] in b[2], True)
                items = self.contents(b, st)
                if b[0] == 'cont' and b[1] in ('dict', 'defaultdict'):
                    d = self.dict_items(b, st)
                    items = [k for k, _ in d] if d is not None else None
                if items is not None:
                    rs = []
                    for x in items:
                        k, p = self.atom(('cmp', 'eq', a, x), st)
                        if not isinstance(k, bool):
                            d = self.decide(k, st)
                            rs.append(None if d is None else d == p)
                        else:
                            rs.append(k == p)
                    if True in rs:
                        return (True, True)
                    if None not in rs:
                        return (False, True)
                    if len(rs) == 1 or rs.count(None) == 1:
                        x = items[rs.index(None)]
                        return self.atom(('cmp', 'eq', a, x), st)
                    return (('inset', a, tuple(sorted((x for x, r in zip(items, rs) if r is None), key=repr))), True)
                if self.mapping(b, st) or self.kind_of(b, st) == 'set':
                    r = self.lookup(b, a, st)
                    if r is not None:
                        return (r[0] == 'yes', True)
                return (('in', a, b, st.ver(b)), True)
        if v[0] == 'not':
            k, p = self.atom(v[1], st)
            return (not k, p) if isinstance(k, bool) else (k, not p)
        if v[0] == 'const':
            return (bool(v[2]), True)
        if v[0] == 'call' and v[1] == 'builtins.isinstance' and len(v[2]) == 2:
            r = self.isinst(v[2][0], v[2][1], st)
            if r is not None:
                return (r, True)
            t = v[2][1]
            return (('isinst', v[2][0], t), True)
        if v[0] == 'call' and v[1] in ('builtins.len', 'builtins.bool') and len(v[2]) == 1:
            return (('truthy', v[2][0], st.ver(v[2][0])), True)
        if v[0] == 'call' and v[1] == 'builtins.hasattr':
            return (('hasattr',) + v[2], True)
        return (('truthy', v, st.ver(v)), True)

    def isinst(self, x, t, st):
        if t[0] == 'tuple':
            rs = [self.isinst(x, y, st) for y in t[1]]
            return True if True in rs else (None if None in rs else False)
        c = self.cls_of(x, st)
        if c is not None:
            if t[0] == 'class':
                d = self.prog.classes.get(t[1])
                if d is not None and self.prog.is_subclass(c, d):
                    return True
                if x[0] in ('obj', 'enum'):
                    return False
                return False if d is not None and not self.prog.is_subclass(d, c) else None
            if t[0] == 'ext':
                if t in self.prog.ext_bases(c) or t == ('ext', 'builtins.object'):
                    return True
                return False if x[0] == 'obj' and all(b[1] != '?' for b in self.prog.ext_bases(c)) and not t[1].startswith(
                    ('collections.abc.', 'typing.')) else None
        k = self.kind_of(x, st)
        if k is not None:
            if t[0] == 'class':
                return False
            if t[0] == 'ext' and t[1].startswith('builtins.'):
                n = t[1][9:]
                if n == k or n == 'object' or (k == 'bool' and n == 'int') or (k == 'defaultdict' and n == 'dict'):
                    return True
                return False if k in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'NoneType', 'bytes', 'deque') else None
            if t[0] == 'ext' and t[1] in ('numpy.ndarray', 'fractions.Fraction') and k in (
                    'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'NoneType', 'bytes'):
                return False
            if t[0] == 'ext' and t[1].startswith('collections.abc.') and t[1][16:] in ABC_KINDS:
                yes, no = ABC_KINDS[t[1][16:]]
                if k in yes or k in no:
                    return k in yes
        if t == ('ext', 'fractions.Fraction') and x[0] == 'op' and x[1] in ('+', '-', '*', '/') and any(is_const(y) and isinstance(y[2], float) for y in x[2]):
            return False
        if x[0] == 'call' and isinstance(x[1], str) and ('ext', x[1]) == t:
            return True
        if x[0] in ('func', 'class', 'bound') and t[0] == 'class':
            return False
        f = st.facts.get(('isinst', x, t))
        return f

    def decide(self, key, st):
        f = st.facts
        if key in f:
            return f[key]
        k = key[0]
        if k == 'truthy':
            t = key[1]
            if f.get(('eq', NONE, t)):
                return False
            if f.get(('eq', FALSE, t)) or f.get(('eq', C(0), t)):
                return False
            if f.get(('eq', TRUE, t)):
                return True
            if f.get(('lt', C(0), t)):
                return True
        elif k == 'eq':
            a, b = key[1], key[2]
            if is_const(a) or a[0] in ('enum', 'class'):
                if a == NONE:
                    if f.get(('truthy', b, st.ver(b))):
                        return False
                    if self.kind_of(b, st) not in (None, 'NoneType') or self.cls_of(b, st) is not None:
                        return False
                    for q, val in f.items():
                        if val and q[0] == 'isinst' and q[1] == b:
                            return False
                        if q[0] == 'lt' and b in q[1:]:
                            return False
                for q, val in f.items():
                    if q[0] == 'eq' and val and q[2] == b and q[1] != a and (is_const(q[1]) or q[1][0] in ('enum', 'class')):
                        if not (is_const(q[1]) and is_const(a) and q[1][2] == a[2]):
                            return False
                    if q[0] == 'inset' and q[1] == b and all(is_const(x) or x[0] in ('enum', 'class') for x in q[2]):
                        if val and a not in q[2]:
                            return False
                        if val is False and a in q[2]:
                            return False
                        if val and all(x == a or f.get(('eq', x, b)) is False for x in q[2]):
                            return True
                c = self.cls_of(b, st)
                if c is not None and c.isenum and a[0] == 'enum':
                    rest = [m for m in self.enum_members(c) if f.get(('eq', m, b)) is not False and not any(
                        q[0] == 'inset' and q[1] == b and val is False and m in q[2] for q, val in f.items())]
                    if rest == [a]:
                        return True
                    if a not in rest:
                        return False
                if is_const(a) and isinstance(a[2], (int, float)) and not isinstance(a[2], bool):
                    lo, hi = self.bounds(b, f)
                    if lo is not None and (a[2] < lo[0] or (a[2] == lo[0] and lo[1])):
                        return False
                    if hi is not None and (a[2] > hi[0] or (a[2] == hi[0] and hi[1])):
                        return False
        elif k == 'inset':
            a = key[1]
            rs = [self.decide(self.atom(('cmp', 'eq', a, x), st)[0], st) if not isinstance(self.atom(('cmp', 'eq', a, x), st)[0], bool)
                  else self.atom(('cmp', 'eq', a, x), st)[0] for x in key[2]]
            if True in rs:
                return True
            if None not in rs:
                return False
            for q, val in f.items():
                if q[0] == 'inset' and q[1] == a:
                    if val and set(q[2]) <= set(key[2]):
                        return True
                    if not val and set(key[2]) <= set(q[2]):
                        return False
                    if val and not set(q[2]) & set(key[2]):
                        return False
        elif k == 'lt':
            a, b = key[1], key[2]
            if ('lt', b, a) in f and f[('lt', b, a)]:
                return False
            if is_const(b) and not is_const(a):
                lo, hi = self.bounds(a, f)
                try:
                    if hi is not None and (hi[0] < b[2] or (hi[0] == b[2] and hi[1])):
                        return True
                    if lo is not None and lo[0] >= b[2]:
                        return False
                except TypeError:
                    return None
            elif is_const(a) and not is_const(b):
                lo, hi = self.bounds(b, f)
                try:
                    if lo is not None and (lo[0] > a[2] or (lo[0] == a[2] and lo[1])):
                        return True
                    if hi is not None and hi[0] <= a[2]:
                        return False
                except TypeError:
                    return None
        elif k == 'in':
            a, b = key[1], key[2]
            if f.get(('truthy', b, key[3])) is False:
                return False
        elif k == 'isinst':
            return self.isinst(key[1], key[2], st)
        return None

    def bounds(self, t, f):
        """((low, strict) or None, (high, strict) or None) from literals about a term."""
        lo = hi = None
        for q, val in f.items():
            if q[0] == 'lt':
                if q[1] == t and is_const(q[2]) and isinstance(q[2][2], (int, float)):
                    c = q[2][2]
                    if val:
                        if hi is None or c < hi[0] or (c == hi[0] and not hi[1]):
                            hi = (c, True)
                    elif lo is None or c > lo[0]:
                        lo = (c, False)
                elif q[2] == t and is_const(q[1]) and isinstance(q[1][2], (int, float)):
                    c = q[1][2]
                    if val:
                        if lo is None or c > lo[0] or (c == lo[0] and not lo[1]):
                            lo = (c, True)
                    elif hi is None or c < hi[0]:
                        hi = (c, False)
            elif q[0] == 'eq' and val and q[2] == t and is_const(q[1]) and isinstance(q[1][2], (int, float)):
                c = q[1][2]
                return (c, False), (c, False)
        return lo, hi

    def enum_members(self, c):
        return [('enum', c.key, n) for n, b in c.members.items() if b[-1][0] == 'assign' and not n.startswith('_')]

    # ------------------------------------------------------------------ expressions
    def exprs(self, nodes, st, fr):
        """Evaluate several expressions left to right: list of (state, [values]) or (state, Raise / Escape)."""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for a, vs in cur:
                if isinstance(vs, (Raise, Escape)):
                    nxt.append((a, vs))
                    continue
                for b, v in self.expr(n, a, fr):
                    nxt.append((b, v if isinstance(v, (Raise, Escape)) else vs + [v]))
            cur = nxt
        return cur

    def expr(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return [(st, ('op', type(n).__name__, (('sym', '@%s:%s' % (getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))),)))]
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return [(st, C(n.value))]

    def e_Name(self, n, st, fr):
        return [(st, self.lookup_name(n.id, st, fr, n))]

    def lookup_name(self, name, st, fr, node):
        f, eid = fr.func, fr.eid
        if eid:
            if not (f is not None and name in f.globals_):
                e = eid
                while e:
                    env = st.envs.get(e, {})
                    if name in env:
                        return env[name]
                    e = env.get('__parent__')
            if f is not None and name in f.locals and f.name != '<lambda>' and name not in f.globals_:
                self.ev('unboundname', node, fr, st, name=name)
                return ('unbound', f.key, name)
        if (('mod', fr.mod.name), name) in st.heap:
            return st.heap[(('mod', fr.mod.name), name)]
        if fr.clsscope is not None:
            b = fr.clsscope.members.get(name)
            if b:
                v = self.class_member_value(fr.clsscope, name, b, st, fr)
                if v is not None:
                    return v
        v = self.global_value(fr.mod, name, st)
        if v[0] == 'undef':
            self.ev('undefname', node, fr, st, name=name)
        return v

    def e_NamedExpr(self, n, st, fr):
        out = []
        for a, v in self.expr(n.value, st, fr):
            if not isinstance(v, (Raise, Escape)):
                self.set_name(n.target.id, v, a, fr, n)
            out.append((a, v))
        return out

    def e_Attribute(self, n, st, fr):
        out = []
        for a, b in self.expr(n.value, st, fr):
            if isinstance(b, (Raise, Escape)):
                out.append((a, b))
            else:
                out.extend(self.getattr(b, n.attr, a, fr, n))
        return out

    def class_member_value(self, c, name, binds, st, fr):
        b = binds[-1]
        if b[0] == 'func':
            return ('func', b[1].key, 0)
        if b[0] == 'class':
            return ('class', b[1].key)
        if b[0] in ('assign', 'unpack'):
            if c.isenum and not name.startswith('_'):
                return ('enum', c.key, name)
            key = ('cls', c.key, name)
            if key not in self.gcache:
                self.gcache[key] = ('glob', c.key, name)
                s2 = self.gstate.fork()
                s2.trace = None
                node = b[1] if b[0] == 'assign' else b[1][0]
                saved = self.steps
                try:
                    res = self.expr(node, s2, Frame(None, 0, None, None, 0, (), c.mod, clsscope=c))
                except TooManyPaths:
                    res = []
                self.steps = saved
                if len(res) == 1 and not isinstance(res[0][1], (Raise, Escape)):
                    s3, v = res[0]
                    if b[0] == 'unpack':
                        items = self.contents(v, s3)
                        v = items[b[1][1]] if items is not None and len(items) == b[1][2] else ('glob', c.key, name)
                    self.globval[(c.key, name)] = (v, s3)
                    self.gstate.conts = {**self.gstate.conts, **s3.conts}
                    self.gstate.celem = {**self.gstate.celem, **s3.celem}
                    self.gstate.heap = {**self.gstate.heap, **s3.heap}
                    if v[0] in ('const', 'tuple', 'func', 'class', 'ext', 'enum', 'cont', 'bound', 'obj', 'mod'):
                        self.gcache[key] = v
            return self.gcache[key]
        if b[0] == 'import':
            return ('mod', b[1]) if b[1] in self.prog.mods else ('ext', b[1])
        return None

    def getattr(self, b, attr, st, fr, node, default=None):
        k = b[0]
        if (b, attr) in st.heap:
            return [(st, st.heap[(b, attr)])]
        if k == 'mod':
            m = self.prog.mods[b[1]]
            if (('mod', b[1]), attr) in st.heap:
                return [(st, st.heap[(('mod', b[1]), attr)])]
            v = self.global_value(m, attr, st)
            if v[0] == 'undef':
                if b[1] + '.' + attr in self.prog.mods:
                    v = ('mod', b[1] + '.' + attr)
                else:
                    self.ev('noattr', node, fr, st, base=b, attr=attr)
            elif v[0] == 'ext' and v[1].startswith('builtins.') and not m.binds.get(attr):
                self.ev('noattr', node, fr, st, base=b, attr=attr)
            return [(st, v)]
        if k == 'ext':
            return [(st, ext_value(b[1] + '.' + attr))]
        if k == 'super':
            return self.super_attr(b, attr, st, fr, node)
        if k == 'class':
            c = self.prog.classes[b[1]]
            if attr == '__name__' or attr == '__qualname__':
                return [(st, C(c.name))]
            r = self.prog.find_member(c, attr)
            put = self.put_on_class(c, attr, st)
            if put is not None:
                return [(st, put)]
            if r:
                v = self.class_member_value(r[0], attr, r[1], st, fr)
                if v is not None and v[0] == 'func':
                    f = self.prog.funcs[v[1]]
                    if 'classmethod' in f.decos:
                        return [(st, ('bound', b, f.key, 0))]
                if v is not None:
                    return [(st, v)]
            if c.ntfields is not None and attr == '_fields':
                return [(st, ('tuple', tuple(C(x) for x in c.ntfields)))]
            if not self.prog.ext_bases(c) and not attr.startswith('__') and not r:
                self.ev('noattr', node, fr, st, base=b, attr=attr)
            return [(st, ('fld', b, attr, 0))]
        if k == 'func' and attr in ('__name__', '__qualname__'):
            return [(st, C(b[1].rpartition('.')[2]))]
        c = self.cls_of(b, st)
        if c is not None:
            return self.obj_attr(b, c, attr, st, fr, node)
        if k == 'cont' and b[1] in ('dict', 'defaultdict', 'Counter') and attr in ('items', 'keys', 'values'):
            return [(st, ('extm', b, attr))]
        if k == 'exc':
            return [(st, ('fld', b, attr, 0))]
        if k in ('cont', 'const', 'tuple') and b != NONE:
            ty = BUILTIN_TYPES.get(b[1]) if k == 'cont' else tuple if k == 'tuple' else type(b[2])
            if ty is not None and not hasattr(ty, attr):
                self.ev('noattr', node, fr, st, base=b, attr=attr)
        if k in ('sym', 'fld', 'call', 'elem', 'idx', 'phi', 'op', 'cont', 'tuple', 'const', 'glob', 'not', 'cmp', 'gen', 'obj', 'enum', 'unbound',
                 'undef', 'func', 'bound', 'extm', 'dictview', 'snap', 'while', 'star', 'partial'):
            if k == 'phi' or True:
                return [(st, ('fld', b, attr, st.vers.get(('attr', b, attr), 0)))]
        return [(st, ('fld', b, attr, 0))]

    def put_on_class(self, c, attr, st):
        """Value assigned to an attribute of the class or of the nearest base that has it."""
        for k in self.prog.mro(c):
            key = getattr(k, 'key', None)
            if key is None:
                continue
            if (('class', key), attr) in st.heap:
                return st.heap[(('class', key), attr)]
            if attr in k.members:
                return None
        return None

    def super_attr(self, b, attr, st, fr, node):
        _, ckey, selfv = b
        c = self.cls_of(selfv, st)
        if selfv[0] == 'class':
            c = self.prog.classes[selfv[1]]
        here = self.prog.classes[ckey]
        if c is None:
            c = here
        r = self.prog.find_member(c, attr, after=here)
        if r and r[1][-1][0] == 'func':
            f = r[1][-1][1]
            if 'property' in f.decos:
                return self.inline(f, [selfv], [], st, fr, node, cls=r[0])
            if 'staticmethod' in f.decos or f.name == '__new__':
                return [(st, ('func', f.key, 0))]
            return [(st, ('bound', selfv, f.key, 0))]
        return [(st, ('extm', b, attr))]

    def obj_attr(self, b, c, attr, st, fr, node):
        if attr == '__class__':
            return [(st, ('class', c.key))]
        r = self.prog.find_member(c, attr)
        if r:
            bind = r[1][-1]
            if bind[0] == 'func':
                getters = [x[1] for x in r[1] if x[0] == 'func' and ('property' in x[1].decos or 'functools.cached_property' in x[1].decos)]
                if getters:
                    return self.inline(getters[-1], [b], [], st, fr, node, cls=r[0])
                f = bind[1]
                if 'staticmethod' in f.decos:
                    return [(st, ('func', f.key, 0))]
                if 'classmethod' in f.decos:
                    return [(st, ('bound', ('class', c.key), f.key, 0))]
                return [(st, ('bound', b, f.key, 0))]
            v = self.class_member_value(r[0], attr, r[1], st, fr)
            # instance attribute set by the constructor shadows the class attribute
            sh = self.shape(c.key) if b[0] != 'class' and not self.is_fresh(b) else None
            shadow = sh and any((sh[1], attr) in g.heap for g in sh[0])
            put = self.put_on_class(c, attr, st)
            if put is not None and not shadow:
                return [(st, put)]
            if not shadow and v is not None:
                if v[0] == 'func':
                    return [(st, ('bound', b, v[1], v[2]))]
                if v[0] == 'ext':
                    return [(st, v)]
                if self.rebinds(c, attr):
                    return [(st, ('fld', b, attr, 0))]
                return [(st, v)]
        if c.ntfields is not None and attr in c.ntfields:
            v = ('fld', b, attr, 0)
            return [(st, v)]
        if c.ntfields is not None and attr == '_fields':
            return [(st, ('tuple', tuple(C(x) for x in c.ntfields)))]
        if c.isenum and attr in ('name', 'value'):
            return [(st, ('fld', b, attr, 0))]
        if not self.is_fresh(b):
            v = self.field_from_shape(b, c, attr, st)
            st.set_heap((b, attr), v)
            self.lazy[(b, attr)] = v
            sh = self.shape(c.key)
            if sh and not any((sh[1], attr) in g.heap for g in sh[0]) and not self.prog.ext_bases(c) and not attr.startswith('__'):
                self.ev('noattr', node, fr, st, base=b, attr=attr)
            return [(st, v)]
        if not self.prog.ext_bases(c) and not attr.startswith('__'):
            if self.attr_try:
                return [(st, Raise(('exc', ('ext', 'builtins.AttributeError'), ()), node, fr.func))]
            self.ev('noattr', node, fr, st, base=b, attr=attr)
        if self.prog.ext_bases(c):
            return [(st, ('extm', b, attr))]
        return [(st, ('fld', b, attr, 0))]

    def rebinds(self, c, attr):
        return attr in self.stale_attrs(c)

    def is_fresh(self, b):
        """Object created (or being constructed) on this path, so that unset fields are really unset."""
        return b[0] == 'obj' and isinstance(b[2], int)

    def e_Subscript(self, n, st, fr):
        out = []
        for a, vs in self.exprs([n.value, n.slice], st, fr):
            if isinstance(vs, (Raise, Escape)):
                out.append((a, vs))
                continue
            b, k = vs
            c = self.cls_of(b, a)
            if c is not None and self.prog.find_member(c, '__getitem__'):
                out.extend(self.call_method(b, '__getitem__', [k], [], a, fr, n))
                continue
            if (b, ('item', k)) in a.heap and a.heap[(b, ('item', k))] is not None and self.item_fresh(b, k, a):
                out.append((a, a.heap[(b, ('item', k))]))
                continue
            if self.lookup_raises and not (k[0] == 'op' and k[1] == 'slice'):
                out.append((a.fork(), Raise(('exc', ('ext', 'builtins.KeyError'), ()), n, fr.func)))
            self.ev('getitem', n, fr, a, base=b, key=k, ver=a.ver(b))
            if b[0] == 'cont' and b[1] == 'defaultdict' and (b, '#factory') in a.heap and self.lookup(b, k, a) == ('no',):
                f = a.heap[(b, '#factory')]
                if f in FACTORIES:
                    v = C(FACTORIES[f])
                    self.setitem(b, k, v, a, fr, n)
                    out.append((a, v))
                    continue
            t = self.index(b, k, a)
            if self.mapping(b, a) and self.lookup(b, k, a) is None:
                self.remember(b, self.known(b, a), k, t, a)
            out.append((a, t))
        return out

    def item_fresh(self, b, k, st):
        return False

    def index(self, b, k, st):
        if is_const(k) and isinstance(k[2], int) and not (b[0] == 'cont' and b[1] in ('dict', 'defaultdict')):
            items = self.contents(b, st)
            if items is not None and -len(items) <= k[2] < len(items):
                return items[k[2]]
        if b[0] == 'tuple' and k[0] == 'op' and k[1] == 'slice' and all(is_const(x) for x in k[2]):
            return ('tuple', tuple(b[1][slice(*[x[2] for x in k[2]])]))
        if b[0] == 'cont' and b[1] == 'list' and k[0] == 'op' and k[1] == 'slice' and all(is_const(x) for x in k[2]):
            items = self.contents(b, st)
            if items is not None:
                try:
                    return self.new_cont('list', items[slice(*[x[2] for x in k[2]])], st)
                except (TypeError, ValueError):
                    pass
        if self.mapping(b, st):
            r = self.lookup(b, k, st)
            if r is not None and r[0] == 'yes':
                return r[1]
        t = ('idx', b, k, st.ver(b))
        if k[0] != 'op' or k[1] != 'slice':
            ce = st.celem.get(b) or self.gstate.celem.get(b)
            if ce is not None:
                if ce[0] == 'tuple':
                    return ('tuple', tuple(self.retag(x, ('idx', t, C(i), 0), st) for i, x in enumerate(ce[1])))
                self.retag(ce, t, st)
        return t

    def e_Slice(self, n, st, fr):
        parts = [x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)]
        return [(a, v if isinstance(v, (Raise, Escape)) else ('op', 'slice', tuple(v))) for a, v in self.exprs(parts, st, fr)]

    def e_Index(self, n, st, fr):
        return self.expr(n.value, st, fr)

    def e_Tuple(self, n, st, fr):
        return self.seq(n, st, fr, lambda vs, s: ('tuple', tuple(vs)))

    def e_List(self, n, st, fr):
        return self.seq(n, st, fr, lambda vs, s: self.new_cont('list', vs, s))

    def e_Set(self, n, st, fr):
        return self.seq(n, st, fr, lambda vs, s: self.new_cont('set', vs, s))

    def seq(self, n, st, fr, make):
        out = []
        nodes = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        for a, vs in self.exprs(nodes, st, fr):
            if isinstance(vs, (Raise, Escape)):
                out.append((a, vs))
                continue
            stars = [i for i, (e, v) in enumerate(zip(n.elts, vs)) if isinstance(e, ast.Starred)]
            if len(n.elts) == 1 and stars and (self.is_lazy(vs[0], a) or self.contents(vs[0], a) is None):
                kind = type(n).__name__.lower()      # [*x] is list(x)
                out.extend(self.make_container('builtins.' + kind, [vs[0]], [], a, fr, n))
                continue
            if any(self.is_lazy(vs[i], a) for i in stars):
                out.extend(self.spell_out(n, list(vs), stars, a, fr, make))
                continue
            out.extend(self.seq_items(n, vs, a, make))
        return out

    def is_lazy(self, v, st):
        return v[0] == 'gen' or v[0] == 'call' and v[1] in ('builtins.map', 'builtins.filter', 'itertools.chain') or self.cls_of(v, st) is not None

    def spell_out(self, n, vs, stars, st, fr, make):
        """Run generators under a star, then build the sequence."""
        if not stars:
            return self.seq_items(n, vs, st, make)
        i, rest = stars[0], stars[1:]
        if not self.is_lazy(vs[i], st):
            return self.spell_out(n, vs, rest, st, fr, make)

        def then(t, s):
            return self.spell_out(n, vs[:i] + [t] + vs[i + 1:], rest, s, fr, make)
        return self.consume(vs[i], 'list', st, fr, n, then)

    def seq_items(self, n, vs, a, make):
        items, ok = [], True
        for e, v in zip(n.elts, vs):
            if isinstance(e, ast.Starred):
                c = self.contents(v, a)
                if c is None:
                    ok = False
                    items.append(('star', v))
                else:
                    items.extend(c)
            else:
                items.append(v)
        return [(a, make(items, a) if ok else ('op', type(n).__name__, tuple(items)))]

    def e_Dict(self, n, st, fr):
        if any(k is None for k in n.keys):
            out = []
            for a, vs in self.exprs([k for k in n.keys if k is not None] + n.values, st, fr):
                out.append((a, vs if isinstance(vs, (Raise, Escape)) else self.new_cont('dict', None, a)))
            return out
        out = []
        for a, vs in self.exprs([x for kv in zip(n.keys, n.values) for x in kv], st, fr):
            if isinstance(vs, (Raise, Escape)):
                out.append((a, vs))
            else:
                pairs = {}
                for k, v in zip(vs[::2], vs[1::2]):
                    pairs[k] = v
                out.append((a, self.new_cont('dict', list(pairs.items()), a)))
        return out

    def e_JoinedStr(self, n, st, fr):
        vals = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        return [(a, vs if isinstance(vs, (Raise, Escape)) else ('op', 'fstr', tuple(vs))) for a, vs in self.exprs(vals, st, fr)]

    def e_FormattedValue(self, n, st, fr):
        return self.expr(n.value, st, fr)

    def e_Starred(self, n, st, fr):
        return [(a, v if isinstance(v, (Raise, Escape)) else ('star', v)) for a, v in self.expr(n.value, st, fr)]

    def e_Lambda(self, n, st, fr):
        f = self.prog.by_node.get(n)
        if f is None:
            f = self.prog.add_lambda(fr.mod, n, fr.cls, fr.func, (fr.func.key if fr.func else fr.mod.name))
        return [(st, ('func', f.key, fr.eid))]

    def e_IfExp(self, n, st, fr):
        out = []
        for a, b in self.cond(n.test, st, fr):
            if isinstance(b, (Raise, Escape)):
                out.append((a, b))
            else:
                out.extend(self.expr(n.body if b else n.orelse, a, fr))
        return out

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        out, cur = [], [st]
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for a in cur:
                for b, v in self.expr(x, a, fr):
                    if isinstance(v, (Raise, Escape)) or last:
                        out.append((b, v))
                        continue
                    for c, r in self.truth(v, b, fr, x):
                        if isinstance(r, (Raise, Escape)):
                            out.append((c, r))
                        elif r == isand:
                            nxt.append(c)
                        else:
                            out.append((c, v))
            cur = nxt
        return out

    def e_UnaryOp(self, n, st, fr):
        out = []
        for a, v in self.expr(n.operand, st, fr):
            if isinstance(v, (Raise, Escape)):
                out.append((a, v))
            elif isinstance(n.op, ast.Not):
                if is_const(v):
                    out.append((a, C(not v[2])))
                else:
                    out.append((a, ('not', v)))
            else:
                op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)]
                if is_const(v) and isinstance(v[2], (int, float)):
                    out.append((a, C(-v[2] if op == '-' else +v[2] if op == '+' else ~v[2])))
                else:
                    out.append((a, ('op', 'u' + op, (v,))))
        return out

    def e_BinOp(self, n, st, fr):
        out = []
        op = BINOPS[type(n.op)]
        for a, vs in self.exprs([n.left, n.right], st, fr):
            if isinstance(vs, (Raise, Escape)):
                out.append((a, vs))
            else:
                out.extend(self.binop(op, vs[0], vs[1], a, fr, n))
        return out

    def binop(self, op, x, y, st, fr, node):
        if is_const(x) and is_const(y):
            try:
                a, b = x[2], y[2]
                if op == '**' and isinstance(b, int) and abs(b) > 64:
                    raise ValueError
                if op == '*' and (isinstance(a, (str, bytes)) or isinstance(b, (str, bytes))):
                    raise ValueError
                r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '//': lambda: a // b, '%': lambda: a % b,
                     '**': lambda: a ** b, '<<': lambda: a << b, '>>': lambda: a >> b, '|': lambda: a | b, '&': lambda: a & b,
                     '^': lambda: a ^ b}[op]()
                return [(st, C(r))]
            except Exception:
                pass
        for u, w, pre in ((x, y, '__'), (y, x, '__r')):
            c = self.cls_of(u, st)
            if c is not None:
                nm = pre + DUNDER[op] + '__'
                r = self.prog.find_member(c, nm)
                if r:
                    v = self.class_member_value(r[0], nm, r[1], st, fr)
                    if v is not None and v[0] == 'func':
                        return self.inline(self.prog.funcs[v[1]], [u, w], [], st, fr, node, cls=r[0])
        if op == '+' and x[0] == 'tuple' and y[0] == 'tuple':
            return [(st, ('tuple', x[1] + y[1]))]
        if op == '+' and x[0] == 'cont' and y[0] == 'cont' and x[1] == y[1] == 'list':
            a, b = self.contents(x, st), self.contents(y, st)
            if a is not None and b is not None:
                return [(st, self.new_cont('list', a + b, st))]
        if op == '*':
            for u, w in ((x, y), (y, x)):
                if is_const(w) and isinstance(w[2], int) and u[0] == 'cont' and u[1] == 'list':
                    a = self.contents(u, st)
                    if a is not None and len(a) * max(w[2], 0) <= 64:
                        return [(st, self.new_cont('list', a * w[2], st))]
        self.ev('binop', node, fr, st, op=op, left=x, right=y)
        return [(st, ('op', op, (x, y)))]

    def iop(self, op, x, y, st, fr, node, sub=False):
        c = self.cls_of(x, st)
        if c is not None:
            nm = '__i' + DUNDER[op] + '__'
            r = self.prog.find_member(c, nm)
            if r:
                return self.call_method(x, nm, [y], [], st, fr, node)
        if not is_const(x) and not sub:
            self.ev('iop', node, fr, st, op=op, base=x, value=y)
            if x[0] == 'cont':
                if op == '+' and x[1] in ('list', 'deque'):
                    self.mutate(x, 'extend', [y], st, fr, node)
                    return [(st, x)]
                if op in ('|', '-', '&', '^') and x[1] in ('set', 'dict'):
                    self.mutate(x, {'|': 'update', '-': 'difference_update', '&': 'intersection_update', '^': 'symmetric_difference_update'}[op],
                                [y], st, fr, node)
                    return [(st, x)]
        return self.binop(op, x, y, st, fr, node)

    def e_Compare(self, n, st, fr):
        OPS = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Is: 'is', ast.IsNot: 'isnot',
               ast.In: 'in', ast.NotIn: 'notin'}
        if len(n.ops) == 1:
            out = []
            for a, vs in self.exprs([n.left, n.comparators[0]], st, fr):
                if isinstance(vs, (Raise, Escape)):
                    out.append((a, vs))
                else:
                    out.extend(self.compare(OPS[type(n.ops[0])], vs[0], vs[1], a, fr, n))
            return out
        # chain: fork on each link; operands evaluated once
        res = []
        for a, v0 in self.expr(n.left, st, fr):
            if isinstance(v0, (Raise, Escape)):
                res.append((a, v0))
                continue
            cur = [(a, v0)]
            for i, (op, cmpn) in enumerate(zip(n.ops, n.comparators)):
                nxt = []
                last = i == len(n.ops) - 1
                for b, left in cur:
                    for c, right in self.expr(cmpn, b, fr):
                        if isinstance(right, (Raise, Escape)):
                            res.append((c, right))
                            continue
                        for d, v in self.compare(OPS[type(op)], left, right, c, fr, n):
                            if isinstance(v, (Raise, Escape)) or last:
                                res.append((d, v))
                                continue
                            for e, ok in self.truth(v, d, fr, n):
                                if isinstance(ok, (Raise, Escape)):
                                    res.append((e, ok))
                                elif ok:
                                    nxt.append((e, right))
                                else:
                                    res.append((e, FALSE))
                cur = nxt
        return res

    def compare(self, op, x, y, st, fr, node):
        if op in ('in', 'notin'):
            c = self.cls_of(y, st)
            if c is not None and self.prog.find_member(c, '__contains__'):
                out = []
                for a, v in self.call_method(y, '__contains__', [x], [], st, fr, node):
                    if isinstance(v, (Raise, Escape)):
                        out.append((a, v))
                    else:
                        out.append((a, v if op == 'in' else ('not', v)))
                return out
        if op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
            c = self.cls_of(x, st)
            if c is not None:
                r = self.prog.find_member(c, '__%s__' % op)
                if r and r[1][-1][0] == 'func':
                    return self.call_method(x, '__%s__' % op, [y], [], st, fr, node)
        if op in ('lt', 'gt', 'le', 'ge'):
            self.ev('order', node, fr, st, op=op, left=x, right=y)
        if y[0] == 'dictview' and y[1] == 'keys' and op in ('in', 'notin'):
            y = y[2]
        v = ('cmp', op, x, y)
        k, p = self.atom(v, st)
        if isinstance(k, bool):
            return [(st, C(k == p))]
        d = self.decide(k, st)
        if d is not None:
            return [(st, C(d == p))]
        # freeze the version dependent atom in the term
        return [(st, v)]

    # comprehensions
    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, 'list')

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, 'set')

    def e_DictComp(self, n, st, fr):
        pair = ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n)
        return self.comp(n, st, fr, 'dict', pair)

    def e_GeneratorExp(self, n, st, fr):
        gid = self.fresh()
        st.gens = {**st.gens, gid: (n, fr)}
        return [(st, ('gen', '<genexp>', fr.eid, gid))]

    def comp(self, n, st, fr, kind, elt=None):
        elt = elt or n.elt
        saved = dict(st.envs.get(fr.eid, {}))
        names = [x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        acc = ('cont', '#acc', self.fresh())
        st.set_cont(acc, ())
        t = ('cont', kind, self.fresh())

        def sink(s, v):
            c = s.conts.get(acc)
            s.set_cont(acc, c + (v,) if c is not None else None)
            if kind != 'dict' and s.celem.get(acc) is None:
                s.set_celem(acc, v)
            self.ev('compelt', n, fr, s, comp=t, value=v)
            s.bump(acc)
            return [(s, None)]
        out = []
        for a, o in self.comp_loops(n.generators, 0, elt, sink, st, fr, n):
            if fr.eid and names:
                e = dict(a.envs.get(fr.eid, {}))
                for nm in names:
                    if nm in saved:
                        e[nm] = saved[nm]
                    else:
                        e.pop(nm, None)
                a.envs = {**a.envs, fr.eid: e}
            if o is not None:
                if o[0] == 'raise':
                    out.append((a, Raise(o[1], o[2] if len(o) > 2 else n, o[3] if len(o) > 3 else fr.func)))
                elif o[0] == 'esc':
                    out.append((a, Escape(o[1], o[2])))
                continue
            items = a.conts.get(acc)
            if items is not None and kind == 'dict':
                items = [tuple(x[1]) for x in items if x[0] == 'tuple'] if all(x[0] == 'tuple' for x in items) else None
            ce = a.celem.get(acc)
            r = t if len(out) == 0 else ('cont', kind, self.fresh())
            a.set_cont(r, tuple(items) if items is not None else None)
            if ce is not None:
                a.set_celem(r, ce)
            self.ev('comp', n, fr, a, result=r, elt=ce, comp=t)
            out.append((a, r))
        return out

    # generators
    def e_Yield(self, n, st, fr):
        out = []
        vals = [(st, NONE)] if n.value is None else self.expr(n.value, st, fr)
        for a, v in vals:
            if isinstance(v, (Raise, Escape)):
                out.append((a, v))
                continue
            if fr.on_yield is None:
                self.ev('yield', n, fr, a, value=v)
                out.append((a, NONE))
                continue
            for b, o in fr.on_yield(a, v, n, fr):
                out.append((b, NONE if o is None else o))
        return out

    def e_YieldFrom(self, n, st, fr):
        out = []
        for a, v in self.expr(n.value, st, fr):
            if isinstance(v, (Raise, Escape)):
                out.append((a, v))
                continue

            def body(b, x):
                if fr.on_yield is None:
                    self.ev('yield', n, fr, b, value=x)
                    return [(b, None)]
                res = []
                for c, o in fr.on_yield(b, x, n, fr):
                    if isinstance(o, Escape):
                        res.append((c, ('esc', o.token, o.out)))
                    elif isinstance(o, Raise):
                        res.append((c, ('raise', o.exc, o.node, o.func)))
                    else:
                        res.append((c, None))
                return res
            for b, o in self.iterate(v, body, a, fr, n):
                if o is None:
                    out.append((b, NONE))
                elif o[0] == 'esc':
                    out.append((b, Escape(o[1], o[2])))
                elif o[0] == 'raise':
                    out.append((b, Raise(o[1], o[2] if len(o) > 2 else None, o[3] if len(o) > 3 else None)))
        return out

    def e_Await(self, n, st, fr):
        return self.expr(n.value, st, fr)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and fr.cls is not None:
            return [(st, ('super', fr.cls.key, self.self_of(st, fr)))]
        out = []
        arg_nodes = [x.value if isinstance(x, ast.Starred) else x for x in n.args]
        for a, vs in self.exprs([n.func] + arg_nodes + [k.value for k in n.keywords], st, fr):
            if isinstance(vs, (Raise, Escape)):
                out.append((a, vs))
                continue
            f = vs[0]
            args = []
            for x, v in zip(n.args, vs[1:]):
                if isinstance(x, ast.Starred):
                    items = self.contents(v, a)
                    if v[0] == 'gen':
                        items = None
                    args.extend(items if items is not None else [('star', v)])
                else:
                    args.append(v)
            kwargs = []
            for k, v in zip(n.keywords, vs[1 + len(arg_nodes):]):
                if k.arg is None:
                    d = self.dict_items(v, a)
                    if d is not None and all(is_const(x) for x, _ in d):
                        kwargs.extend((x[2], y) for x, y in d)
                    else:
                        kwargs.append((None, v))
                else:
                    kwargs.append((k.arg, v))
            out.extend(self.call(f, args, kwargs, a, fr, n))
        return out

    def self_of(self, st, fr):
        e = fr.eid
        f = fr.func
        if f is not None:
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if names:
                return st.envs.get(e, {}).get(names[0], fr.selfv)
        return fr.selfv

    def call(self, f, args, kwargs, st, fr, node):
        self.tick()
        k = f[0]
        if k == 'func':
            fn = self.prog.funcs[f[1]]
            return self.inline(fn, args, kwargs, st, fr, node, cls=fn.cls, penv=f[2])
        if k == 'bound':
            fn = self.prog.funcs[f[2]]
            c = fn.cls
            recv = f[1]
            rc = self.cls_of(recv, st) if recv[0] != 'class' else self.prog.classes[recv[1]]
            if rc is not None:
                r = self.defining(rc, fn)
                c = r or c
            return self.inline(fn, [recv] + args, kwargs, st, fr, node, cls=c, penv=f[3] if len(f) > 3 else 0)
        if k == 'class':
            return self.construct(f, args, kwargs, st, fr, node)
        if k == 'ext':
            return self.call_ext(f[1], args, kwargs, st, fr, node)
        if k == 'extm':
            return self.call_extm(f[1], f[2], args, kwargs, st, fr, node)
        if k == 'fld':
            return self.call_extm(f[1], f[2], args, kwargs, st, fr, node, f)
        if k == 'partial':
            return self.call(f[1], list(f[2]) + args, list(f[3]) + kwargs, st, fr, node)
        c = self.cls_of(f, st)
        if c is not None and self.prog.find_member(c, '__call__'):
            return self.call_method(f, '__call__', args, kwargs, st, fr, node)
        return self.opaque_call(f, args, kwargs, st, fr, node)

    def defining(self, c, fn):
        for k in self.prog.mro(c):
            if isinstance(k, Cls):
                for b in k.members.values():
                    if any(x[0] == 'func' and x[1] is fn for x in b):
                        return k
        return None

    def call_method(self, obj, name, args, kwargs, st, fr, node):
        out = []
        for a, m in self.getattr(obj, name, st, fr, node):
            if isinstance(m, (Raise, Escape)):
                out.append((a, m))
            else:
                out.extend(self.call(m, args, kwargs, a, fr, node))
        return out

    def opaque_call(self, fn, args, kwargs, st, fr, node, pure=False, result=None, recv=None):
        """A call that is not followed: event plus a name for the result, plus the exceptions the rule asks about."""
        res = result
        if res is None:
            fname = fn[1] if fn[0] == 'ext' else fn
            res = ('call', fname, tuple(args), tuple(sorted(kwargs, key=lambda x: str(x[0]))), None if pure else self.fresh())
        out = []
        if self.may_raise is not None:
            for exc in self.may_raise(fn, args, node, self, fr, st) or ():
                b = st.fork()
                self.ev('call', node, fr, b, fn=fn, args=args, kwargs=kwargs, result=None, inlined=False, failed=exc)
                out.append((b, Raise(exc, node, fr.func)))
        self.ev('call', node, fr, st, fn=fn, args=args, kwargs=kwargs, result=res, inlined=False, failed=None)
        return [(st, res)] + out

    def bind(self, f, args, kwargs, st, fr, node, penv=0):
        """Bind arguments to parameters in a new environment: list of (state, env id | Raise)."""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        env = {}
        if penv:
            env['__parent__'] = penv
        extra, star = [], None
        i = 0
        bad = None
        for v in args:
            if v[0] == 'star':
                star = v[1]
                break
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(v)
            i += 1
        if star is not None:
            j = 0
            for p in pos[i:]:
                if p not in dict(kwargs):
                    env[p] = ('idx', star, C(j), 0)
                    # a parameter with a default may keep it; unknown either way
                    j += 1
            extra_t = ('call', 'rest', (star,), (), None)
        else:
            extra_t = ('tuple', tuple(extra))
        if extra and not a.vararg:
            bad = 'too many positional arguments'
        restkw, kwstar = [], None
        for k, v in kwargs:
            if k is None:
                kwstar = v
            elif k in pos or k in kwonly:
                if k in env and star is None and k in pos[:i]:
                    bad = 'multiple values for %r' % k
                env[k] = v
            elif a.kwarg:
                restkw.append((k, v))
            else:
                bad = 'unexpected keyword %r' % k
        if a.vararg:
            env[a.vararg.arg] = extra_t
        eid = self.fresh()
        st.envs = {**st.envs, eid: env}
        if a.kwarg:
            if kwstar is not None and not restkw:
                v = kwstar
            elif kwstar is not None:
                v = self.new_cont('dict', None, st)
                st.set_heap((v, '#known'), (st.ver(v), tuple((C(k), x) for k, x in restkw)))
                st.set_heap((v, '#rest'), kwstar)
            else:
                v = self.new_cont('dict', [(C(k), v) for k, v in restkw], st)
            st.set_env(eid, a.kwarg.arg, v)
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({k: d for k, d in zip(kwonly, a.kw_defaults) if d is not None})
        dfr = Frame(f.parent, penv, None, None, fr.depth, fr.stack, f.mod, clsscope=f.cls)
        for p in pos + kwonly:
            if p in env:
                continue
            if kwstar is not None and not (p in defaults and kwstar[0] == 'cont' and self.dict_items(kwstar, st) is not None):
                given = [x for k, x in self.known(kwstar, st) if k == C(p) and x is not None]
                st.set_env(eid, p, given[0] if given else ('idx', kwstar, C(p), 0))
            elif p in defaults:
                r = self.expr(defaults[p], st, dfr)
                if len(r) == 1 and not isinstance(r[0][1], (Raise, Escape)):
                    st.set_env(eid, p, r[0][1])
                else:
                    st.set_env(eid, p, ('sym', p))
            else:
                bad = bad or 'missing argument %r' % p
                st.set_env(eid, p, ('sym', p))
        if bad:
            self.ev('badcall', node, fr, st, fn=f.key, reason=bad)
            return [(st, Raise(('exc', ('ext', 'builtins.TypeError'), ()), node, fr.func))]
        return [(st, eid)]

    def inline(self, f, args, kwargs, st, fr, node, cls=None, penv=0, emit=True):
        """Follow a repository function."""
        f = self.redirect.get(f.key, f)
        if emit and (self.opaque(f) or fr.stack.count(f.key) >= self.recursion or fr.depth >= self.max_depth):
            for b in self.bind(f, args, kwargs, st.fork(), fr, node, penv):
                if isinstance(b[1], Raise):
                    return [b]
            if fr.stack.count(f.key) >= self.recursion:
                self.havoc_closure(st, penv)
            return self.opaque_call(('func', f.key, penv), args, kwargs, st, fr, node)
        out = []
        for a, eid in self.bind(f, args, kwargs, st, fr, node, penv):
            if isinstance(eid, Raise):
                out.append((a, eid))
                continue
            self.visited.add(f.key)
            if f.isgen:
                g = ('gen', f.key, eid, self.fresh())
                if emit:
                    self.ev('call', node, fr, a, fn=('func', f.key, penv), args=args, kwargs=kwargs, result=g, inlined=True, failed=None)
                out.append((a, g))
                continue
            e = None
            if emit:
                e = self.ev('call', node, fr, a, fn=('func', f.key, penv), args=args, kwargs=kwargs, result=None, inlined=True, failed=None)
            f2 = Frame(f, eid, cls or f.cls, args[0] if args else None, fr.depth + 1, fr.stack + (f.key,), f.mod, chain=fr.chain)
            if f.name == '<lambda>':
                out.extend(self.expr(f.node.body, a, f2))
                continue
            for b, o in self.block(f.node.body, a, f2):
                if o is None:
                    out.append((b, NONE))
                elif o[0] == 'ret':
                    out.append((b, o[1]))
                elif o[0] == 'raise':
                    out.append((b, Raise(o[1], o[2] if len(o) > 2 else None, o[3] if len(o) > 3 else None)))
                elif o[0] == 'esc':
                    out.append((b, Escape(o[1], o[2])))
                else:
                    out.append((b, NONE))
        return out

    def havoc_closure(self, st, penv):
        """A recursive call may change whatever the function closes over."""
        e = penv
        while e:
            env = st.envs.get(e, {})
            for n, v in env.items():
                if n != '__parent__' and v[0] == 'cont':
                    st.set_cont(v, None)
                    st.bump(v)
            e = env.get('__parent__')

    def construct(self, f, args, kwargs, st, fr, node):
        c = self.prog.classes[f[1]]
        exts = self.prog.ext_bases(c)
        isexc = any(known_exc(b[1]) for b in exts if b[0] == 'ext')
        if isexc:
            r = self.prog.find_member(c, '__init__')
            return [(st, ('exc', f, tuple(args)))]
        if c.isenum:
            return [(st, ('call', f, tuple(args), (), None))]
        r = self.prog.find_member(c, '__new__')
        if r and r[1][-1][0] == 'func':
            out = []
            for a, v in self.inline(r[1][-1][1], [f] + args, kwargs, st, fr, node, cls=r[0]):
                if isinstance(v, (Raise, Escape)):
                    out.append((a, v))
                else:
                    if v[0] == 'call' and self.cls_of(v, a) is None:
                        a.set_type(v, c.key)
                    r2 = self.prog.find_member(c, '__init__')
                    if r2 and r2[1][-1][0] == 'func':
                        for b, w in self.inline(r2[1][-1][1], [v] + args, kwargs, a, fr, node, cls=r2[0]):
                            out.append((b, w if isinstance(w, (Raise, Escape)) else v))
                    else:
                        out.append((a, v))
            return out
        o = ('obj', c.key, self.fresh())
        self.ev('new', node, fr, st, cls=c.key, obj=o, args=args, kwargs=kwargs)
        if c.ntfields is not None:
            vals = dict(zip(c.ntfields, args))
            vals.update({k: v for k, v in kwargs if k})
            for k, v in vals.items():
                st.set_heap((o, k), v)
            return [(st, o)]
        r = self.prog.find_member(c, '__init__')
        if r and r[1][-1][0] == 'func':
            out = []
            for a, v in self.inline(r[1][-1][1], [o] + args, kwargs, st, fr, node, cls=r[0]):
                out.append((a, v if isinstance(v, (Raise, Escape)) else o))
            return out
        if (args or kwargs) and not exts:
            self.ev('badcall', node, fr, st, fn=c.key, reason='%s() takes no arguments' % c.name)
        return [(st, o)]

    # -- builtins and library calls
    def call_ext(self, name, args, kwargs, st, fr, node):
        self.called_ext.add(name)
        b = name[9:] if name.startswith('builtins.') else None
        if b == 'isinstance' and len(args) == 2:
            r = self.isinst(args[0], args[1], st)
            return [(st, C(r) if r is not None else ('call', name, tuple(args), (), None))]
        if b == 'type' and len(args) == 1:
            c = self.cls_of(args[0], st)
            if c is not None:
                return [(st, ('class', c.key))]
            k = self.kind_of(args[0], st)
            if k in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set'):
                return [(st, ('ext', 'builtins.' + k))]
        if b == 'len' and len(args) == 1:
            items = self.contents(args[0], st)
            if items is not None:
                return [(st, C(len(items)))]
            c = self.cls_of(args[0], st)
            if c is not None and self.prog.find_member(c, '__len__'):
                return self.call_method(args[0], '__len__', [], [], st, fr, node)
            return [(st, ('call', name, (args[0],), (), st.ver(args[0]) or None))]
        if b == 'bool' and len(args) == 1:
            return [(a, r if isinstance(r, (Raise, Escape)) else C(r)) for a, r in self.truth(args[0], st, fr, node)]
        if name == 'random.shuffle' and args and args[0][0] == 'cont':
            items = self.contents(args[0], st)
            r = self.opaque_call(('ext', name), args, kwargs, st, fr, node)
            for a, v in r:
                if not isinstance(v, (Raise, Escape)):
                    a.set_cont(args[0], None)
                    a.bump(args[0])
                    if items is not None:
                        a.set_heap((args[0], '#shuffled'), (a.ver(args[0]), tuple(items)))
            return r
        if b == 'getattr' and len(args) >= 2 and is_const(args[1]):
            if len(args) == 2:
                return self.getattr(args[0], args[1][2], st, fr, node)
            out = []
            for a, r in self.call_ext('builtins.hasattr', args[:2], [], st, fr, node):
                for a2, has in self.truth(r, a, fr, node) if not isinstance(r, (Raise, Escape)) else [(a, r)]:
                    if isinstance(has, (Raise, Escape)):
                        out.append((a2, has))
                    else:
                        out.extend(self.getattr(args[0], args[1][2], a2, fr, node) if has else [(a2, args[2])])
            return out
        if b == 'setattr' and len(args) == 3 and is_const(args[1]):
            return [(a, NONE if o is None else Raise(o[1])) for a, o in self.setattr(args[0], args[1][2], args[2], st, fr, node)]
        if b == 'hasattr' and len(args) == 2 and is_const(args[1]):
            c = self.cls_of(args[0], st)
            if c is not None:
                nm = args[1][2]
                if self.prog.find_member(c, nm) or (args[0], nm) in st.heap:
                    return [(st, TRUE)]
                sh = self.shape(c.key)
                if sh and all((sh[1], nm) in g.heap for g in sh[0]):
                    return [(st, TRUE)]
                if sh and not any((sh[1], nm) in g.heap for g in sh[0]) and args[0][0] == 'obj' and not self.prog.ext_bases(c):
                    return [(st, FALSE)]
        if b == 'callable' and args and args[0][0] in ('func', 'bound', 'class'):
            return [(st, TRUE)]
        if b == 'super' and len(args) == 2 and args[0][0] == 'class':
            return [(st, ('super', args[0][1], args[1]))]
        if self.exact and name in ('itertools.cycle', 'itertools.count') and not kwargs:
            items = self.contents(args[0], st) if name == 'itertools.cycle' and len(args) == 1 else None
            if items or name == 'itertools.count' and (not args or len(args) == 1 and is_const(args[0]) and isinstance(args[0][2], int)):
                t = ('call', name, tuple(args), (), self.fresh())
                st.set_heap((t, '#place'), (tuple(items), 0) if items else ((), args[0][2] if args else 0))
                self.ev('call', node, fr, st, fn=('ext', name), args=args, kwargs=kwargs, result=t, inlined=False, failed=None)
                return [(st, t)]
        if b == 'next' and args:
            c = self.cls_of(args[0], st)
            if c is not None and self.prog.find_member(c, '__next__'):
                return self.call_method(args[0], '__next__', [], [], st, fr, node)
            at = st.heap.get((args[0], '#place')) if self.exact else None
            if at is not None:
                items, n = at
                st.set_heap((args[0], '#place'), (items, n + 1))
                return [(st, items[n % len(items)] if items else C(n))]
            st2 = st
            r = ('call', name, tuple(args), (), self.fresh())
            ce = st.celem.get(args[0])
            if ce is not None:
                self.retag(ce, r, st)
            return self.opaque_call(('ext', name), args, kwargs, st2, fr, node, result=r)
        if b == 'iter' and len(args) == 1:
            return [(st, args[0])]
        if b in ('any', 'all') and len(args) == 1 and (args[0][0] == 'gen' or self.contents(args[0], st) is not None):
            return self.any_all(b, args[0], st, fr, node)
        if b in ('sum', 'max', 'min', 'sorted') and args and args[0][0] == 'gen':
            return self.consume(args[0], 'list', st, fr, node,
                                lambda t, s: self.opaque_call(('ext', name), [t] + args[1:], kwargs, s, fr, node, pure=True))
        if b in ('abs', 'min', 'max', 'int', 'float', 'round', 'str') and args and all(is_const(a) for a in args) and not kwargs:
            try:
                return [(st, C(getattr(builtins, b)(*[a[2] for a in args])))]
            except Exception:
                pass
        if name.startswith('math.') and args and all(is_const(a) for a in args) and not kwargs:
            import math
            try:
                return [(st, C(getattr(math, name[5:])(*[a[2] for a in args])))]
            except Exception:
                pass
        if name == 'functools.partial' and args:
            return [(st, ('partial', args[0], tuple(args[1:]), tuple(kwargs)))]
        if b == 'map' and len(args) == 2 or b == 'filter' and len(args) == 2 or name == 'itertools.chain':
            return [(st, ('call', name, tuple(args), (), None))]
        if name == 'itertools.chain.from_iterable' and len(args) == 1:
            items = self.contents(args[0], st)
            if items is not None:
                return [(st, ('call', 'itertools.chain', tuple(items), (), None))]
        if b == 'dict' and not args and all(k for k, _ in kwargs):
            return [(st, self.new_cont('dict', [(C(k), v) for k, v in kwargs], st))]
        if name in CONTAINER_CTORS:
            return self.make_container(name, args, kwargs, st, fr, node)
        if name in MUTATING_EXT and args:
            t = args[MUTATING_EXT[name]]
            r = self.opaque_call(('ext', name), args, kwargs, st, fr, node)
            for s, v in r:
                if not isinstance(v, Raise):
                    if t[0] == 'cont':
                        if s.celem.get(t) is None and len(args) > 1 and name.startswith(('heapq.heappush', 'bisect')):
                            s.set_celem(t, args[1])
                        s.set_cont(t, None)
                    s.bump(t)
            return r
        if name == 'copy.copy' or name == 'copy.deepcopy':
            c = self.cls_of(args[0], st) if args else None
            if c is not None:
                m = '__deepcopy__' if name.endswith('deepcopy') else '__copy__'
                if self.prog.find_member(c, m):
                    return self.call_method(args[0], m, [NONE] if 'deep' in m else [], [], st, fr, node)
                r = ('call', name, tuple(args), (), self.fresh())
                st.set_type(r, c.key)
                return self.opaque_call(('ext', name), args, kwargs, st, fr, node, result=r)
        if b and known_exc(name):
            return [(st, ('exc', ('ext', name), tuple(args)))]
        if known_exc(name):
            return [(st, ('exc', ('ext', name), tuple(args)))]
        pure = name in PURE_EXT or name.startswith(PURE_PREFIX)
        return self.opaque_call(('ext', name), args, kwargs, st, fr, node, pure=pure)

    def any_all(self, b, src, st, fr, node):
        """any(generator) / all(generator) as the loop it is."""
        want = b == 'any'

        def body(s, v):
            res = []
            for a, r in self.truth(v, s, fr, node):
                if isinstance(r, (Raise, Escape)):
                    res.append((a, self.out_of(r)))
                elif r == want:
                    res.append((a, ('brk',)))
                else:
                    res.append((a, None))
            return res
        out = []
        for a, o in self.iterate(src, body, st, fr, node):
            if o is None:
                out.append((a, C(not want)))
            elif o == ('brk',):
                out.append((a, C(want)))
            elif o[0] == 'raise':
                out.append((a, Raise(o[1], o[2] if len(o) > 2 else None, o[3] if len(o) > 3 else None)))
            elif o[0] == 'esc':
                out.append((a, Escape(o[1], o[2])))
        return out

    def consume(self, src, kind, st, fr, node, then):
        """Collect a generator into a container, then continue."""
        t = ('cont', kind, self.fresh())
        acc = ('cont', '#acc', self.fresh())
        st.set_cont(acc, ())

        def body(s, v):
            c = s.conts.get(acc)
            s.set_cont(acc, c + (v,) if c is not None else None)
            s.bump(acc)
            if s.celem.get(acc) is None:
                s.set_celem(acc, v)
            self.ev('compelt', node, fr, s, comp=t, value=v)
            return [(s, None)]
        out = []
        for a, o in self.iterate(src, body, st, fr, node):
            if o is None:
                items = a.conts.get(acc)
                r = t if not out else ('cont', kind, self.fresh())
                a.set_cont(r, items)
                if a.celem.get(acc) is not None:
                    a.set_celem(r, a.celem[acc])
                self.ev('comp', node, fr, a, result=r, elt=a.celem.get(acc), comp=t)
                out.extend(then(r, a))
            elif o[0] == 'raise':
                out.append((a, Raise(o[1], o[2] if len(o) > 2 else None, o[3] if len(o) > 3 else None)))
            elif o[0] == 'esc':
                out.append((a, Escape(o[1], o[2])))
        return out

    def make_container(self, name, args, kwargs, st, fr, node):
        kind = CONTAINER_CTORS[name]

        def finish(t, s):
            self.ev('call', node, fr, s, fn=('ext', name), args=args, kwargs=kwargs, result=t, inlined=False, failed=None)
            return [(s, t)]
        if kind == 'defaultdict' or kind == 'Counter':
            t = self.new_cont(kind, [] if kind == 'defaultdict' and len(args) <= 1 else None, st)
            if kind == 'defaultdict' and len(args) == 1:
                st.set_heap((t, '#factory'), args[0])
            return finish(t, st)
        if not args:
            if kind == 'tuple':
                return [(st, ('tuple', ()))]
            return finish(self.new_cont(kind, [], st), st)
        src = args[0]
        if src[0] == 'gen' or src[0] == 'call' and src[1] in ('builtins.map', 'builtins.filter', 'itertools.chain'):
            return self.consume(src, kind, st, fr, node, finish)
        c = self.cls_of(src, st)
        if c is not None:
            return self.consume(src, kind, st, fr, node, finish)
        items = self.contents(src, st)
        if src[0] == 'cont' and src[1] in ('dict', 'defaultdict') and kind != 'dict' and items is not None:
            items = [k for k, _ in items]
        if items is not None and kind == 'tuple':
            return [(st, ('tuple', tuple(items)))]
        if kind == 'dict' and items is not None and not (src[0] == 'cont' and src[1] in ('dict', 'defaultdict')):
            items = [tuple(x[1]) for x in items] if all(x[0] == 'tuple' and len(x[1]) == 2 for x in items) else None
        if kind in ('set', 'frozenset') and items is not None:
            ded = []
            for x in items:
                if x not in ded:
                    ded.append(x)
            items = ded
        t = self.new_cont(kind, items, st)
        if items is None:
            ce = st.celem.get(src)
            if ce is not None:
                st.set_celem(t, ce)
            st.set_heap((t, '#from'), src)
        return finish(t, st)

    def call_extm(self, base, attr, args, kwargs, st, fr, node, fterm=None):
        """Method call on something that is not an object of a repository class."""
        if base[0] == 'super':
            res = ('call', ('extm', base, attr), tuple(args), tuple(kwargs), self.fresh())
            c = self.prog.classes.get(base[1])
            if attr == '__new__' and args and args[0][0] == 'class':
                cc = self.prog.classes[args[0][1]]
                if cc.ntfields is not None:
                    o = ('obj', cc.key, self.fresh())
                    vals = dict(zip(cc.ntfields, args[1:]))
                    vals.update({k: v for k, v in kwargs if k})
                    for k, v in vals.items():
                        st.set_heap((o, k), v)
                    self.ev('new', node, fr, st, cls=cc.key, obj=o, args=args[1:], kwargs=kwargs)
                    return [(st, o)]
            return self.opaque_call(('extm', base, attr), args, kwargs, st, fr, node, result=res)
        c = self.cls_of(base, st)
        if c is not None and c.ntfields is not None and attr in ('_replace', '_asdict'):
            if attr == '_replace':
                o = ('obj', c.key, self.fresh())
                kw = dict(kwargs)
                for fld in c.ntfields:
                    if fld in kw:
                        st.set_heap((o, fld), kw[fld])
                    else:
                        r = self.getattr(base, fld, st, fr, node)
                        st.set_heap((o, fld), r[0][1])
                self.ev('new', node, fr, st, cls=c.key, obj=o, args=args, kwargs=kwargs, replace=base)
                return [(st, o)]
            pairs = [(C(fld), self.getattr(base, fld, st, fr, node)[0][1]) for fld in c.ntfields]
            return [(st, self.new_cont('dict', pairs, st))]
        fn = ('extm', base, attr)
        if attr in ('items', 'keys', 'values') and not args:
            return [(st, ('dictview', attr, base))]
        if attr == 'copy' and base[0] == 'cont' and not args:
            items = st.conts.get(base, self.gstate.conts.get(base))
            t = self.new_cont(base[1], items, st, celem=st.celem.get(base))
            if items is None:
                st.set_heap((t, '#from'), base)
            return self.opaque_call(fn, args, kwargs, st, fr, node, result=t)
        if attr == 'get' and args and self.mapping(base, st):
            r = self.lookup(base, args[0], st)
            if r is not None:
                return [(st, r[1] if r[0] == 'yes' else args[1] if len(args) > 1 else NONE)]
            out = []
            for a, r in self.truth(('cmp', 'in', args[0], base), st, fr, node):
                if isinstance(r, (Raise, Escape)):
                    out.append((a, r))
                elif r:
                    t = self.index(base, args[0], a)
                    if self.lookup(base, args[0], a) is None:
                        self.remember(base, self.known(base, a), args[0], t, a)
                    out.append((a, t))
                else:
                    out.append((a, args[1] if len(args) > 1 else NONE))
            return out
        if attr in MUTATORS and not (base[0] in ('const', 'ext', 'glob') and base[0] != 'glob'):
            return self.mutate(base, attr, args, st, fr, node, kwargs)
        return self.opaque_call(fn if fterm is None else ('extm', base, attr), args, kwargs, st, fr, node)

    def mutate(self, base, op, args, st, fr, node, kwargs=()):
        """In-place change of a container (or array)."""
        items = self.contents(base, st) if base[0] == 'cont' else None
        isdict = base[0] == 'cont' and base[1] in ('dict', 'defaultdict', 'Counter')
        res = NONE
        out = []
        ver = st.ver(base)
        if op in ('extend', 'extendleft', 'update') and args and (args[0][0] == 'gen' or (args[0][0] == 'call' and args[0][1] in (
                'builtins.map', 'builtins.filter', 'itertools.chain'))) and base[0] == 'cont':
            return self.consume(args[0], 'list', st, fr, node, lambda t, s: self.mutate(base, op, [t] + args[1:], s, fr, node, kwargs))
        if op in ('remove',) and args:
            k, p = self.atom(('cmp', 'in', args[0], base), st)
            known = k if isinstance(k, bool) else self.decide(k, st)
            if known is None and self.removal_safe(base, args[0], st):
                known = True
            if known is False or (known is None and self.remove_raises):
                b = st.fork() if known is None else st
                exc = ('exc', ('ext', 'builtins.ValueError' if self.kind_of(base, st) in ('list', 'deque') else 'builtins.KeyError'), ())
                self.ev('mutfail', node, fr, b, op=op, base=base, args=args, exc=exc)
                out.append((b, Raise(exc, node, fr.func)))
                if known is False:
                    return out
        self_ce = st.celem.get(base)
        if op in ('append', 'add', 'appendleft', 'push') and args and base[0] == 'cont' and self_ce is None:
            st.set_celem(base, args[0])
        if op == 'extend' and args and base[0] == 'cont' and self_ce is None:
            ce = st.celem.get(args[0])
            if ce is not None:
                st.set_celem(base, ce)
        if op == 'insert' and len(args) == 2 and base[0] == 'cont' and self_ce is None:
            st.set_celem(base, args[1])
        gone = dflt = None
        if op == 'setdefault' and args and self.mapping(base, st):
            r = self.lookup(base, args[0], st)
            dflt = (r, self.others(base, args[0], st), args[1] if len(args) > 1 else NONE)
        put = None
        if op in ('add', 'remove', 'discard') and args and self.kind_of(base, st) == 'set':
            put = self.others(base, args[0], st)
        if op in ('pop', 'delitem') and args and self.mapping(base, st):
            gone = self.others(base, args[0], st)
        if op in ('pop', 'popleft', 'popitem'):
            if items and not isdict:
                if op == 'popleft' or (op == 'pop' and args == [C(0)]):
                    res, items2 = items[0], items[1:]
                elif op == 'pop' and not args:
                    res, items2 = items[-1], items[:-1]
                else:
                    res, items2 = None, None
                st.set_cont(base, tuple(items2) if items2 is not None else None)
            elif op == 'pop' and args and self.mapping(base, st) and self.lookup(base, args[0], st) is not None and (
                    len(args) == 2 or self.lookup(base, args[0], st)[0] == 'yes'):
                r = self.lookup(base, args[0], st)
                res = r[1] if r[0] == 'yes' else args[1]
                if items is not None:
                    rs = [self.same(k, args[0], st) for k, _ in items]
                    st.set_cont(base, None if None in rs else tuple(x for x, r in zip(items, rs) if not r))
            else:
                res = None
                if base[0] == 'cont':
                    st.set_cont(base, None)
            if res is None:
                res = ('call', ('extm', base, op), tuple(args), (), self.fresh())
                ce = st.celem.get(base) or self.gstate.celem.get(base)
                if ce is not None and not isdict:
                    if ce[0] == 'tuple':
                        r0 = res
                        res = ('tuple', tuple(self.retag(x, ('idx', r0, C(i), 0), st) for i, x in enumerate(ce[1])))
                    else:
                        self.retag(ce, res, st)
        elif base[0] == 'cont':
            new = None
            if items is not None and not isdict:
                if op in ('append',):
                    new = items + args[:1]
                elif op == 'add':
                    new = items if args[0] in items else items + args[:1]
                elif op == 'appendleft':
                    new = args[:1] + items
                elif op == 'extend':
                    more = self.contents(args[0], st)
                    new = items + more if more is not None else None
                elif op == 'clear':
                    new = []
                elif op == 'reverse':
                    new = items[::-1]
                elif op == 'insert' and len(args) == 2 and is_const(args[0]) and isinstance(args[0][2], int):
                    new = list(items)
                    new.insert(args[0][2], args[1])
                elif op in ('remove', 'discard') and args[0] in items:
                    new = list(items)
                    new.remove(args[0])
            if op == 'clear':
                new = []
            if isdict and op == 'update' and items is not None and args:
                d = self.dict_items(args[0], st)
                if d is not None and not kwargs and all(is_const(k) for k, _ in items + d):
                    m = dict(items)
                    m.update(dict(d))
                    new = list(m.items())
            if dflt is not None and dflt[0] is not None and items is not None:
                new = items if dflt[0][0] == 'yes' else items + [(args[0], dflt[2])]
            st.set_cont(base, tuple(new) if new is not None else None)
        if op == 'setdefault':
            res = ('call', ('extm', base, op), tuple(args), (), self.fresh())
            if dflt is not None and dflt[0] is not None:
                res = dflt[0][1] if dflt[0][0] == 'yes' else dflt[2]
        self.ev('mut', node, fr, st, op=op, base=base, args=list(args), kwargs=list(kwargs), result=res, ver=ver)
        st.bump(base)
        if put is not None:
            self.remember(base, put, args[0], TRUE if op == 'add' else None, st)
        if gone is not None:
            self.remember(base, gone, args[0], None, st)
        if dflt is not None:
            self.remember(base, dflt[1], args[0], res, st)
        if op in ('append', 'appendleft', 'add', 'insert', 'push'):
            st.assume(('truthy', base, st.ver(base)), True)
            if op == 'add' and args:
                st.assume(('in', args[0], base, st.ver(base)), True)
        if op == 'clear':
            st.assume(('truthy', base, st.ver(base)), False)
        if self.may_raise is not None and op not in ('append', 'add', 'clear', 'appendleft'):
            for exc in self.may_raise(('extm', base, op), args, node, self, fr, st) or ():
                b = st.fork()
                out.append((b, Raise(exc, node, fr.func)))
        return [(st, res)] + out

    def removal_safe(self, base, x, st):
        """x is an element of base: the loop element of base (or of a snapshot of it) that was not removed yet."""
        if x[0] == 'elem':
            src = x[1]
            while True:
                if src == base:
                    return True
                nxt = st.heap.get((src, '#from'))
                if nxt is None:
                    break
                src = nxt
        if x[0] == 'idx' and x[1] == base:
            return True
        return False


def ext_value(name):
    """Value of a name outside the analysed program: the constants of module string are known."""
    if name.startswith('string.') and isinstance(getattr(string, name[7:], None), str):
        return C(getattr(string, name[7:]))
    return ('ext', name)


def set_targets(t):
    return tuple(n.id for n in ast.walk(t) if isinstance(n, ast.Name))


def known_exc(name):
    """The builtin / standard library exception class of a dotted name, or None."""
    if name.startswith('builtins.'):
        t = getattr(builtins, name[9:], None)
        return t if isinstance(t, type) and issubclass(t, BaseException) else None
    if name in ('json.JSONDecodeError', 'json.decoder.JSONDecodeError'):
        import json
        return json.JSONDecodeError
    if name in ('binascii.Error',):
        import binascii
        return binascii.Error
    if name in ('socket.error',):
        return OSError
    if name in ('socket.timeout',):
        import socket
        return socket.timeout
    if name == 'queue.Empty':
        import queue
        return queue.Empty
    return None


def exc_name(t):
    if t.__module__ == 'builtins':
        return 'builtins.' + t.__name__
    if t.__name__ == 'JSONDecodeError':
        return 'json.JSONDecodeError'
    return t.__module__ + '.' + t.__name__
