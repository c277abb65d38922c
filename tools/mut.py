"""mut.py SPEC.py CHECK [bad|good] : applies each (file, old, new[, old, new...]) of BAD and GOOD to a copy of /repo and runs the check."""
import os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

spec = runpy.run_path(sys.argv[1])
pid = sys.argv[2]
which = sys.argv[3] if len(sys.argv) > 3 else 'all'
base = '/tmp/mutwork_%d' % os.getpid()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    kind, i, m = job
    d = '%s/%s%d' % (base, kind, i)
    try:
        shutil.copytree(os.environ.get('MUT_BASE', '/repo'), d, ignore=shutil.ignore_patterns('.git', '__pycache__', '*.so', 'build'))
        f, rest = m[0], m[1:]
        edits = [(f, rest[j], rest[j + 1]) for j in range(0, len(rest), 2)] if isinstance(f, str) else m
        for g, old, new in edits:
            p = os.path.join(d, g)
            s = open(p).read()
            if old not in s:
                return '%s %d NOT FOUND %r' % (kind, i, old[:60])
            open(p, 'w').write(s.replace(old, new, 1))
        o = subprocess.run([sys.executable, 'check.py', pid], cwd=V, env=dict(os.environ, KLINT_ROOT=d), capture_output=True, text=True)
        lines = [l for l in o.stdout.splitlines() if l.startswith('  [')]
        good = (o.returncode == 1) == (kind == 'BAD') and o.returncode in (0, 1)
        und = o.stdout.split(' undecided')[0].split()[-1] if ' undecided' in o.stdout else '?'
        return '%s %s %d rc=%d und=%s %s %s' % ('   ' if good else '!!!', kind, i, o.returncode, und, repr(edits[0][2])[:50],
                                               (lines[0][:150] if lines else '') + (o.stderr[-300:] if o.returncode not in (0, 1) else ''))
    finally:
        shutil.rmtree(d, ignore_errors=True)


jobs = [(k, i, m) for k in ('BAD', 'GOOD') if which in ('all', k.lower()) for i, m in enumerate(spec.get(k, []))]
try:
    os.makedirs(base)
    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '4'))) as ex:
        for line in ex.map(one, jobs):
            print(line, flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
