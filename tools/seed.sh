#!/bin/bash
# tools/seed.sh <seed id>: confirm one planted bug in /repo (applied and undone here) and run its property's check.
d=/verif/seeded/$1
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "/repo not clean"; exit 2; }
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "build failed on clean tree"; exit 2; }
(cd /repo && timeout 300 bash $d/demo.sh) >/tmp/sd0.log 2>&1; echo "demo on clean tree: $? (want 0)"
git -C /repo apply $d/patch.diff || { echo "does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 && echo "builds" || { echo "BUILD FAILS"; tail -3 /tmp/sb.log; }
bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1
python3 - <<'P'
import json
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/st.json'))
def passed(x):
    for k in ('stable', 'passed', 'pass', 'tests'):
        if isinstance(x, dict) and k in x: return set(x[k]) if not isinstance(x[k], dict) else {t for t, r in x[k].items() if r in ('pass', 'passed', True)}
    return set(x)
m = passed(b) - passed(o)
print('tests:', 'all stable tests pass' if not m else 'FAILED %s' % sorted(m)[:5], len(passed(b)))
P
(cd /repo && timeout 300 bash $d/demo.sh) >/tmp/sd1.log 2>&1; echo "demo with patch: $? (want nonzero): $(tail -1 /tmp/sd1.log | cut -c1-150)"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /verif && python3 check.py $p) | cut -c1-220 | tail -5
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || echo "rebuild failed"
