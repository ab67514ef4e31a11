"""Differential test of the verifier: mutates functions in a scratch copy; whatever the prover accepts of a mutant is run concretely in the
same case.  A case that is accepted and fails concretely is a hole in the verifier.
usage: soundness.py PKG MODULE [--fn NAME]... [--n PER_FUNCTION] [--seed S] [--jobs J] [--seq]    (development tool, not a check)"""
import sys, os, ast, random, shutil, subprocess, tempfile, json, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
sys.argv0 = sys.argv
_src = open(os.path.join(V, 'tools', 'mutate.py')).read().replace('\nmain()\n', '\n')
exec(compile(_src, 'mutate', 'exec'))

DRIVER2 = r'''
import sys, json
sys.path.insert(0, %r)
from pyded import core, contracts, num as N, concrete
from pyded.loader import World
q, seqonly = sys.argv[1], sys.argv[2] == '1'
pkg = q.split('.')[0]
contracts.build(pkg)
w = World(pkg)
con = core.CONTRACTS[q]
out = []
for case in con.cases:
    if case.nosym or (seqonly and 'any number' not in case.name and 'any size' not in case.name and 'any length' not in case.name):
        continue
    N.set_field(5 if pkg == 'ico2' else 3)
    try:
        fr = core.prove_case(w, con, case, budget_s=40)
    except Exception as e:
        out.append((case.name, 'error ' + str(e)[:100], None))
        continue
    f = None
    if fr.status == 'proved':
        ev, sk, f = concrete.search(con, case, 60, 11, budget=20, cats={'value', 'exception', 'canonical', 'frame'})
    out.append((case.name, fr.status, None if not f else str(f[1])[:200]))
print(json.dumps(out))
'''


def run2(pkg, mod, name, idx, q, seqonly):
    t = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/src', t + '/src', ignore=shutil.ignore_patterns('__pycache__', '*.so', 'ico', 'dode', '*.pyx', '*.c'))
        p = '%s/src/pyqcstrc/%s/%s.py' % (t, pkg, mod)
        d, s = mutant(open(p, encoding='utf-8').read(), name, idx)
        open(p, 'w', encoding='utf-8').write(s)
        try:
            r = subprocess.run([PY, '-c', DRIVER2 % V, q, '1' if seqonly else '0'], env=dict(os.environ, PYDED_SRC=t + '/src'), capture_output=True, text=True, timeout=400)
            return d, json.loads(r.stdout.strip().splitlines()[-1])
        except Exception as ex:
            return d, [('driver', str(ex)[:100], None)]
    finally:
        shutil.rmtree(t)


def main2():
    a = sys.argv[1:]
    opt = lambda k, d: int(a[a.index(k) + 1]) if k in a else d
    pkg, mod = a[0], a[1]
    only = [a[i + 1] for i, x in enumerate(a) if x == '--fn']
    n, seed, jobs = opt('--n', 12), opt('--seed', 1), opt('--jobs', 8)
    sys.path.insert(0, V)
    from pyded import core, contracts
    contracts.build(pkg)
    tree = ast.parse(open('/repo/src/pyqcstrc/%s/%s.py' % (pkg, mod), encoding='utf-8').read())
    work = []
    for fn in tree.body:
        q = '%s.%s.%s' % (pkg, mod, getattr(fn, 'name', ''))
        if not isinstance(fn, ast.FunctionDef) or (only and fn.name not in only) or q not in core.CONTRACTS:
            continue
        L = sites(fn)
        rng = random.Random('%s%d' % (q, seed))
        for i in (rng.sample(range(len(L)), n) if len(L) > n else range(len(L))):
            work.append((fn.name, i, q))
    t0, holes, proved, cases = time.time(), 0, 0, 0
    with ThreadPoolExecutor(jobs) as ex:
        for (name, i, q), (d, res) in zip(work, ex.map(lambda w: run2(pkg, mod, *w, '--seq' in a), work)):
            for c, st, f in res:
                cases += 1
                proved += st == 'proved'
                if f:
                    holes += 1
                    print('HOLE %s line %s case %s: %s' % (q, d, c, f), flush=True)
                elif st.startswith('error') or c == 'driver':
                    print('  %s line %s: %s %s' % (q, d, c, st), flush=True)
    print('%s.%s: %d mutants, %d cases, %d accepted, %d holes, %.0fs' % (pkg, mod, len(work), cases, proved, holes, time.time() - t0))


main2()
