"""Mutation study of the machinery: plants small syntactic changes in a scratch copy of the sources and reports the ones no contract notices.
usage: mutate.py PKG MODULE [--fn NAME]... [--n PER_FUNCTION] [--seed S] [--jobs J]     (development tool, not a check)"""
import sys, os, ast, copy, random, shutil, subprocess, tempfile, json, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult]}


def sites(fn):
    """all (description, mutator(fn copy) ) of one function"""
    nodes = list(ast.walk(fn))
    out = []
    for i, x in enumerate(nodes):
        ln = getattr(x, 'lineno', 0)
        if isinstance(x, ast.Compare):
            for alt in CMP.get(type(x.ops[0]), []):
                out.append(('%d cmp %s->%s' % (ln, type(x.ops[0]).__name__, alt.__name__), i, lambda y, alt=alt: y.ops.__setitem__(0, alt())))
        elif isinstance(x, ast.BinOp):
            if isinstance(x.left, ast.Constant) and isinstance(x.left.value, str):
                continue
            for alt in BIN.get(type(x.op), []):
                out.append(('%d bin %s->%s' % (ln, type(x.op).__name__, alt.__name__), i, lambda y, alt=alt: setattr(y, 'op', alt())))
        elif isinstance(x, ast.BoolOp):
            out.append(('%d boolop' % ln, i, lambda y: setattr(y, 'op', ast.Or() if isinstance(y.op, ast.And) else ast.And())))
        elif isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool):
            out.append(('%d const %d->%d' % (ln, x.value, x.value + 1), i, lambda y: setattr(y, 'value', y.value + 1)))
            if x.value > 0:
                out.append(('%d const %d->%d' % (ln, x.value, x.value - 1), i, lambda y: setattr(y, 'value', y.value - 1)))
        elif isinstance(x, ast.Constant) and isinstance(x.value, float):
            out.append(('%d const %r*1.01' % (ln, x.value), i, lambda y: setattr(y, 'value', y.value * 1.01 + 1e-3)))
        elif isinstance(x, ast.Call) and len(x.args) >= 2:
            out.append(('%d swap args' % ln, i, lambda y: y.args.__setitem__(slice(0, 2), y.args[1::-1])))
        elif isinstance(x, ast.Break):
            out.append(('%d break->continue' % ln, i, 'continue'))
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
            out.append(('%d drop minus' % ln, i, lambda y: setattr(y, 'op', ast.UAdd())))
        elif isinstance(x, ast.Return) and x.value is not None:
            out.append(('%d return None' % ln, i, lambda y: setattr(y, 'value', None)))
        if isinstance(x, (ast.For, ast.If, ast.FunctionDef, ast.While)):
            for k, s in enumerate(x.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, 'id', '') == 'print':
                        continue
                    out.append(('%d drop statement' % s.lineno, i, lambda y, k=k: y.body.__setitem__(k, ast.Pass())))
    return out


def mutant(src, name, idx):
    tree = ast.parse(src)
    fn = next(n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == name)
    d, i, f = sites(fn)[idx]
    node = list(ast.walk(fn))[i]
    if f == 'continue':
        for p in ast.walk(fn):
            for fld in ('body', 'orelse'):
                b = getattr(p, fld, None)
                if isinstance(b, list) and node in b:
                    b[b.index(node)] = ast.Continue()
    else:
        f(node)
    ast.fix_missing_locations(tree)
    return d, ast.unparse(tree)


DRIVER = r'''
import sys, json
sys.path.insert(0, %r)
from pyded import runner, core, contracts
import multiprocessing as mp
quals = sys.argv[1:]
res = runner.run_tasks(quals, 'ALL', 'quick', 1, jobs=1, tmo=120)
f = [x for r in res for x in r['failures']]
err = [r['error'].strip().splitlines()[-1] for r in res if r.get('error')]
st = sorted({c['status'] or 'run' for r in res for c in r['cases']})
print(json.dumps([[(x['qual'], x['case'], x['obligation'], x['message'][:150], x['args'] is not None) for x in f], err, st]))
'''


def run(pkg, mod, name, idx, quals):
    t = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/src', t + '/src', ignore=shutil.ignore_patterns('__pycache__', '*.so', 'ico', 'dode', '*.pyx', '*.c'))
        p = '%s/src/pyqcstrc/%s/%s.py' % (t, pkg, mod)
        d, s = mutant(open(p, encoding='utf-8').read(), name, idx)
        open(p, 'w', encoding='utf-8').write(s)
        e = dict(os.environ, PYDED_SRC=t + '/src')
        try:
            r = subprocess.run([PY, '-c', DRIVER % V] + quals, env=e, capture_output=True, text=True, timeout=400)
            return d, json.loads(r.stdout.strip().splitlines()[-1])
        except Exception as ex:
            return d, [[], ['driver ' + str(ex)[:200]], []]
    finally:
        shutil.rmtree(t)


def main():
    a = sys.argv[1:]
    opt = lambda k, d: int(a[a.index(k) + 1]) if k in a else d
    pkg, mod = a[0], a[1]
    only = [a[i + 1] for i, x in enumerate(a) if x == '--fn']
    n, seed, jobs = opt('--n', 8), opt('--seed', 1), opt('--jobs', 8)
    sys.path.insert(0, V)
    from pyded import core, contracts
    contracts.build(pkg)
    src = open('/repo/src/pyqcstrc/%s/%s.py' % (pkg, mod), encoding='utf-8').read()
    tree = ast.parse(src)
    work = []
    for fn in tree.body:
        if not isinstance(fn, ast.FunctionDef) or (only and fn.name not in only):
            continue
        q = '%s.%s.%s' % (pkg, mod, fn.name)
        if q not in core.CONTRACTS:
            if only:
                print('no contract', q)
            continue
        L = sites(fn)
        rng = random.Random('%s%d' % (q, seed))
        for i in (rng.sample(range(len(L)), n) if len(L) > n else range(len(L))):
            work.append((fn.name, i, [q]))
    t0 = time.time()
    alive = soft = 0
    with ThreadPoolExecutor(jobs) as ex:
        for (name, i, quals), (d, (f, err, st)) in zip(work, ex.map(lambda w: run(pkg, mod, *w), work)):
            if not f:
                alive += 1
                print('SURVIVES %s.%s.%s: line %s  %s %s' % (pkg, mod, name, d, ' '.join(err)[:150], st), flush=True)
            elif not any(x[4] for x in f):
                soft += 1
                print('  noinput %s.%s.%s: line %s  %s' % (pkg, mod, name, d, f[0][:4]), flush=True)
    print('%s.%s: %d mutants, %d survive, %d caught without input, %.0fs' % (pkg, mod, len(work), alive, soft, time.time() - t0))


main()
