"""mkseed.py SPEC.py ...: write planted bugs from specs; each spec file calls seed(id, property, edits, demo, needs, breaks).

Works in a scratch copy of /repo under /tmp and writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}.
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
cd /repo && exec timeout 120 $PY "$here/demo.py"
'''


def seed(sid, prop, edits, demo, needs, breaks):
    tmp = '/tmp/mkseed'
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', tmp])
    for path, old, new in edits:
        p = os.path.join(tmp, path)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches in %s for %r' % (sid, s.count(old), path, old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', tmp, 'diff'], text=True)
    d = os.path.join(ROOT, sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    print('wrote', sid)


for f in sys.argv[1:]:
    exec(compile(open(f).read(), f, 'exec'))
