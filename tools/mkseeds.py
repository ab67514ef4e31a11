"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from the list in seeds_list.py and, with --verify,
confirms on /repo that the patch applies, builds, passes the stable tests, and that the demo separates the two trees."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds_list import SEEDS
DEMO = '''#!/bin/bash
# exit 0: behaviour as promised; nonzero: property broken
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$D/demo.py"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(s):
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed')
    try:
        sh('git -C /repo archive HEAD src | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x' % (t, t))
        for f, old, new in s['edits']:
            p = os.path.join(t, 'src/pyqcstrc', f)
            x = open(p, encoding='utf-8', newline='').read()
            n = x.count(old)
            if n != 1:
                print('  !!', s['id'], f, 'pattern occurs', n, 'times')
                return False
            open(p, 'w', encoding='utf-8', newline='').write(x.replace(old, new))
        diff = subprocess.run('git -C %s diff' % t, shell=True, capture_output=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return True
def demo(s):
    return sh('bash %s/seeded/%s/demo.sh' % (V, s['id']), cwd='/repo')
def verify(s, checks):
    r = demo(s)
    print(s['id'], s['property'], 'demo clean rc', r.returncode, r.stderr[-200:] if r.returncode else '')
    p = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, s['id']))
    if p.returncode:
        print('  apply failed', p.stderr); return
    try:
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        res = json.load(open('/tmp/seedtest.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(res.get('passed', []))
        missing = [x for x in base if x not in passed]
        r = demo(s)
        print('  build', b.returncode, 'stable failing', missing, 'demo patched rc', r.returncode, (r.stderr or r.stdout).strip().splitlines()[-1:] )
        if checks:
            c = sh('./vp.py check %s' % s['property'], cwd=V)
            print('  check rc', c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'failed obl' in l][:2])
    finally:
        sh('git -C /repo checkout -- .')
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
for s in SEEDS:
    if ids and s['id'] not in ids:
        continue
    ok = make(s)
    if ok and '--verify' in sys.argv:
        verify(s, '--check' in sys.argv)
    elif ok and '--checkonly' in sys.argv:
        sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, s['id']))
        try:
            c = sh('./vp.py check %s' % s['property'], cwd=V)
            print(s['id'], s['property'], 'check rc', c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'failed obl' in l][:2])
        finally:
            sh('git -C /repo checkout -- .')
