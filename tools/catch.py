"""Runs the check of every seeded change (in scratch copies) and records the outcome in tools/caught.json."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    meta = json.load(open(os.path.join(HERE, 'seeded', sid, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='catch')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', tmp], check=True)
        subprocess.run(['git', '-C', tmp, 'apply', os.path.join(HERE, 'seeded', sid, 'patch.diff')], check=True)
        out = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), meta['property']], capture_output=True, text=True,
                             env=dict(os.environ, KLINT_ROOT=tmp, KLINT_JOBS='2'), cwd=HERE)
    finally:
        shutil.rmtree(tmp)
    m = re.search(r'^  \[(\w+)\]', out.stdout, re.M)
    return sid, {'property': meta['property'], 'caught': out.returncode == 1 and 'VIOLATION' in out.stdout, 'rule': m.group(1) if m else None}


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    path = os.path.join(HERE, 'tools', 'caught.json')
    res = json.load(open(path)) if os.path.exists(path) and sys.argv[1:] else {}
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', 4))) as ex:
        for sid, r in ex.map(one, ids):
            res[sid] = r
            if not r['caught']:
                print('missed', sid, r)
    json.dump({k: res[k] for k in sorted(res)}, open(path, 'w'), indent=1)
    print(len(res), 'seeds', sum(r['caught'] for r in res.values()), 'caught')
