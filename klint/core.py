"""Check runner: obligations, verdicts, evidence, known findings."""
import importlib
import json
import os
import pickle
import sys
import time
import traceback

from .engine import Frame, Interp, TooManyPaths, show
from .model import AnalysisBroken, Prog

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('KLINT_ROOT', '/repo')


class Report:
    """Obligations of one check. Verdicts: ok (follows from the source), bad (the source contradicts it), und (not decided)."""

    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.rules = {}
        self.notes = []
        self.funcs = set()
        self.paths = 0
        self.sites = 0

    def rule(self, name, text):
        self.rules[name] = text

    def add(self, verdict, rule, construct, msg='', where='', trace=()):
        self.obs.append((verdict, rule, construct, msg, where, list(trace)))

    def ok(self, rule, construct, msg='', where=''):
        self.add('ok', rule, construct, msg, where)

    def bad(self, rule, construct, msg, where='', trace=()):
        self.add('bad', rule, construct, msg, where, trace)

    def und(self, rule, construct, msg='', where=''):
        self.add('und', rule, construct, msg, where)

    def count(self, v):
        return sum(1 for o in self.obs if o[0] == v)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self._prog = None
        self.rep = Report(pid)
        self.root = ROOT
        self._callers = None

    @property
    def prog(self):
        if self._prog is None:
            self._prog = Prog(self.root)
        return self._prog

    def interp(self, **kw):
        kw.setdefault('max_steps', 400000 if self.thorough else 120000)
        if self.thorough:
            kw.setdefault('unroll', 80)
        return Interp(self.prog, **kw)

    def run(self, I, func, **kw):
        """Paths of a function; None when the analysis of it is given up."""
        try:
            ps = I.run(func, **kw)
        except TooManyPaths:
            self.rep.notes.append('gave up on %s (too many paths)' % func.key)
            return None
        except RecursionError:
            self.rep.notes.append('gave up on %s (recursion)' % func.key)
            return None
        self.rep.paths += len(ps)
        self.rep.funcs |= I.visited
        return ps

    def value(self, I, f, args=(), kwargs=(), st=None):
        """Paths of a call of a function value in a state."""
        ps = I.run_value(f, args, kwargs, st)
        self.rep.paths += len(ps)
        self.rep.funcs |= I.visited
        return ps

    def client(self, src, name='client'):
        """A client fragment (never executed): values and effects are followed through it like through any other function."""
        m = '#client%d' % len(self.prog.mods)
        self.prog.add_module(m, m, m, src)
        return self.prog.funcs['%s.%s' % (m, name)]

    def obj(self, clskey, name):
        """An existing object of a class with unknown history."""
        return ('obj', self.prog.cls(clskey).key, name)

    def attr(self, I, o, name, st):
        """Term of a field of an object (exact class) in a state."""
        fr = Frame(None, 0, None, None, 0, (), next(iter(self.prog.mods.values())))
        r = I.getattr(o, name, st, fr, None)
        return r[0][1] if r else None

    def const(self, dotted):
        """Value term of a module level name."""
        m, _, n = dotted.rpartition('.')
        f = self.client('from %s import %s\n\n\ndef client():\n    return %s\n' % (m, n, n))
        return self.interp().run(f)[0].value

    def optional(self, key):
        """Function by key or None: anchors that are not public API may go away in a refactoring."""
        try:
            return self.prog.func(key)
        except AnalysisBroken:
            return None

    def method(self, clskey, name):
        """(Func, defining class) of the method an instance of the class has, or None."""
        c = self.prog.cls(clskey)
        r = self.prog.find_member(c, name)
        if r and r[1][-1][0] == 'func':
            return r[1][-1][1], r[0]
        if r and r[1][-1][0] == 'assign':
            t = self.prog.resolve_static(r[0].mod, r[1][-1][1])
            if t and t[0] == 'func':
                return t[1], r[0]
        return None


def clause(ctx, name, fn, *args):
    """Run one clause of a rule; an analyser failure there leaves the clause undecided instead of ending the check."""
    try:
        fn(ctx, *args)
    except AnalysisBroken:
        raise
    except TooManyPaths:
        ctx.rep.und(name, name, 'too many paths')
    except Exception:
        if os.environ.get('KLINT_DEBUG'):
            traceback.print_exc()
        ctx.rep.und(name, name, 'analyser failure: ' + traceback.format_exc(limit=-4))


def known_findings():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if not line or line.startswith(('#', 'fixed:')):
                continue
            parts = [x.strip() for x in line.split('|')]
            if len(parts) >= 4:
                out[(parts[0], parts[1], parts[2])] = parts[3]
    return out


def main(argv):
    if len(argv) < 2:
        print('usage: check.py ID [--thorough]')
        return 2
    pid = argv[1]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    mod = importlib.import_module('klint.rules.%s' % pid.lower())
    ctx = Ctx(pid, tier, seed)
    try:
        mod.check(ctx)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    rep = ctx.rep
    known = known_findings()
    bad, seen_known = [], {}
    for v, rule, con, msg, where, trace in rep.obs:
        if v != 'bad':
            continue
        k = (pid, rule, con)
        if k in known:
            seen_known[k] = (known[k], msg, where)
        else:
            bad.append((rule, con, msg, where, trace))
    n = len(rep.obs)
    minimum = getattr(mod, 'MINIMUM', 1)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': getattr(mod, 'EXPLAIN', ''),
            'obligations': n, 'discharged': rep.count('ok'),
            'undecided': [dict(rule=o[1], construct=o[2], why=o[3]) for o in rep.obs if o[0] == 'und'],
            'refuted': [dict(rule=r, construct=c, detail=m, where=w) for r, c, m, w, _ in bad],
            'known_findings': [dict(rule=k[1], construct=k[2], what=v[0], where=v[2]) for k, v in seen_known.items()],
            'functions_analysed': len(rep.funcs), 'functions': sorted(rep.funcs), 'paths': rep.paths,
            'rules': rep.rules, 'rule': '; '.join('%s: %s' % kv for kv in rep.rules.items()),
            'samples': [dict(rule=o[1], construct=o[2], verdict=o[0], detail=o[3], where=o[4]) for o in rep.obs[:40]],
            'notes': rep.notes,
        },
        'assumptions': getattr(mod, 'ASSUME', []),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s [%s]: %d obligations, %d discharged, %d undecided, %d refuted; %d functions, %d paths; %.1f s' % (
        pid, tier, n, rep.count('ok'), rep.count('und'), len(bad), len(rep.funcs), rep.paths, time.time() - t0))
    for k, (what, msg, where) in seen_known.items():
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, what, where))
    if bad:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + '.txt')
        with open(path, 'w') as f:
            for rule, con, msg, where, trace in bad:
                f.write('rule      %s: %s\nconstruct %s\nwhere     %s\nproblem   %s\n' % (rule, rep.rules.get(rule, ''), con, where, msg))
                for t in trace:
                    f.write('    %s\n' % (t,))
                f.write('\n')
                print('  [%s] %s at %s: %s' % (rule, con, where, msg))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if n < minimum:
        print('ANALYSIS-BROKEN property=%s only %d obligations posed, at least %d expected' % (pid, n, minimum))
        return 2
    return 0


def spread(ctx, items, fn):
    """fn(ctx, item) for every item, on all cores; what the parts report is put together in order of the items."""
    n = min(8, os.cpu_count() or 1, len(items))
    ctx.prog
    if n < 2:
        for x in items:
            fn(ctx, x)
        return
    jobs = []
    sys.stdout.flush()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(r)
                res = []
                for i in range(k, len(items), n):
                    ctx.rep = Report(ctx.pid)
                    fn(ctx, items[i])
                    rep = ctx.rep
                    res.append((i, rep.obs, rep.notes, {str(x) for x in rep.funcs}, rep.paths, rep.sites))
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
                code = 0
            except BaseException:
                if os.environ.get('KLINT_DEBUG'):
                    traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        jobs.append((k, pid, r))
    parts = []
    for k, pid, r in jobs:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            parts += pickle.loads(data)
        except Exception:
            ctx.rep.notes.append('a part of the analysis was repeated')
            for i in range(k, len(items), n):
                fn(ctx, items[i])
    rep = ctx.rep
    for _, obs, notes, funcs, paths, sites in sorted(parts, key=lambda x: x[0]):
        rep.obs += obs
        rep.notes += notes
        rep.funcs |= funcs
        rep.paths += paths
        rep.sites += sites


class V:
    """Collects one verdict: bad beats und beats ok."""

    def __init__(self, ctx, rule, con):
        self.ctx, self.rule, self.con = ctx, rule, con
        self.v, self.text, self.where = 'ok', '', ''

    def bad(self, text, ev=None):
        if self.v != 'bad':
            self.v, self.text, self.where = 'bad', text, getattr(ev, 'where', ev or '')

    def und(self, text=''):
        if self.v == 'ok':
            self.v, self.text = 'und', text

    def done(self, msg=''):
        rep = self.ctx.rep
        if self.v == 'ok':
            rep.ok(self.rule, self.con, msg)
        elif self.v == 'bad':
            rep.bad(self.rule, self.con, self.text, self.where)
        else:
            rep.und(self.rule, self.con, self.text)
