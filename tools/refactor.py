"""Behaviour-preserving rewrites of the whole of both packages in a scratch copy; the checks must stay quiet on each.
usage: refactor.py TRANSFORM[,TRANSFORM] [PROP...]      (development tool, not a check)
transforms: invert while index temp helper wrap rename aug swap enum all"""
import sys, os, ast, shutil, subprocess, tempfile, time, copy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
MODS = ['math1', 'numericalc', 'utils', 'symmetry', 'intsct', 'occupation_domain', 'two_occupation_domains']
CNT = [0]


def fresh(p='t'):
    CNT[0] += 1
    return '_%s%d' % (p, CNT[0])


def name(i, store=False):
    return ast.Name(i, ast.Store() if store else ast.Load())


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class While(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) <= 2 and isinstance(n.target, ast.Name) and not n.orelse:
            a = it.args[0] if len(it.args) == 2 else ast.Constant(0)
            b = it.args[-1]
            k, e = fresh('k'), fresh('e')
            pre = [ast.Assign([name(k, True)], a), ast.Assign([name(e, True)], b)]
            body = [ast.Assign([name(n.target.id, True)], name(k)), ast.AugAssign(name(k, True), ast.Add(), ast.Constant(1))] + n.body
            return pre + [ast.While(ast.Compare(name(k), [ast.Lt()], [name(e)]), body, [])]
        return n


class Index(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Name) and isinstance(n.target, ast.Name):
            k = fresh('k')
            n.body = [ast.Assign([name(n.target.id, True)], ast.Subscript(name(n.iter.id), name(k), ast.Load()))] + n.body
            n.iter = ast.Call(name('range'), [ast.Call(name('len'), [name(n.iter.id)], [])], [])
            n.target = name(k, True)
        return n


class Enum(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 and isinstance(n.target, ast.Name):
            a = it.args[0]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len':
                n.iter = ast.Call(name('enumerate'), [a.args[0]], [])
                n.target = ast.Tuple([n.target, name(fresh('x'), True)], ast.Store())
        return n


class Temp(ast.NodeTransformer):
    """return EXPR -> r = EXPR; return r     and     if COND -> c = COND; if c"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        t = fresh('r')
        return [ast.Assign([name(t, True)], n.value), ast.Return(name(t))]

    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.orelse) == 1 and isinstance(n.orelse[0], list):
            n.orelse = n.orelse[0]
        t = fresh('c')
        return [ast.Assign([name(t, True)], n.test), ast.If(name(t), n.body, n.orelse)]


class Swap(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant):
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
        return n

    def visit_Assign(self, n):
        v = n.value
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and v.left.id == n.targets[0].id and isinstance(v.right, ast.Constant):
            return ast.AugAssign(n.targets[0], v.op, v.right)
        return n


def locals_of(fn):
    s = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            s.add(x.id)
    return s


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            return n
        args = {a.arg for a in n.args.args + n.args.kwonlyargs}
        L = locals_of(n) - args
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in L:
                x.id = x.id + '_v'
        return n


class Helper(ast.NodeTransformer):
    """x = EXPR with local names -> module level helper"""
    def __init__(self):
        self.out, self.loc, self.depth = [], None, 0

    def visit_FunctionDef(self, n):
        if self.depth:
            return n
        self.depth = 1
        self.loc = locals_of(n)
        inner = {x.name for x in ast.walk(n) if isinstance(x, ast.FunctionDef) and x is not n}
        self.loc |= inner
        if not inner:
            self.generic_visit(n)
        self.depth = 0
        return n

    def visit_Assign(self, n):
        if self.loc is not None and isinstance(n.value, (ast.BinOp, ast.Call)) and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for x in ast.walk(n.value)):
            names = sorted({x.id for x in ast.walk(n.value) if isinstance(x, ast.Name) and x.id in self.loc})
            if 'self' in names or not names:
                return n
            h = fresh('helper')
            self.out.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in names], None, [], [], None, []), [ast.Return(n.value)], [], None, None, []))
            n.value = ast.Call(name(h), [name(a) for a in names], [])
        return n


def wrap(tree):
    out = []
    for f in tree.body:
        if isinstance(f, ast.FunctionDef) and not f.args.vararg and not f.args.kwarg:
            g = copy.deepcopy(f)
            g.name = '_impl_' + f.name
            f.body = [ast.Return(ast.Call(name(g.name), [name(a.arg) for a in f.args.args] , [ast.keyword(a.arg, name(a.arg)) for a in f.args.kwonlyargs]))]
            out += [g, f]
        else:
            out.append(f)
    tree.body = out
    return tree


T = {'invert': Invert, 'while': While, 'index': Index, 'temp': Temp, 'aug': Aug, 'swap': Swap, 'rename': Rename, 'enum': Enum}


def transform(src, what):
    tree = ast.parse(src)
    for w in what:
        if w == 'wrap':
            tree = wrap(tree)
        elif w == 'helper':
            h = Helper()
            tree = h.visit(tree)
            tree.body = tree.body + h.out if not any(isinstance(x, ast.If) for x in tree.body) else [x for x in tree.body if not isinstance(x, ast.If)] + h.out + [x for x in tree.body if isinstance(x, ast.If)]
        else:
            tree = T[w]().visit(tree)
    return ast.unparse(ast.fix_missing_locations(tree)) + '\n'


def main():
    what = sys.argv[1].split(',')
    props = sys.argv[2:] or ['C%02d' % i for i in range(1, 24)]
    t = tempfile.mkdtemp(prefix='refac')
    try:
        shutil.copytree('/repo/src', t + '/src', ignore=shutil.ignore_patterns('__pycache__', '*.so', 'ico', 'dode', '*.pyx', '*.c'))
        for pkg in ('ico2', 'dode2'):
            for m in MODS:
                p = '%s/src/pyqcstrc/%s/%s.py' % (t, pkg, m)
                if os.path.exists(p):
                    s = transform(open(p, encoding='utf-8').read(), what)
                    open(p, 'w', encoding='utf-8').write(s)
        for p in props:
            t0 = time.time()
            r = subprocess.run([PY, V + '/vp.py', 'check', p], env=dict(os.environ, PYDED_SRC=t + '/src', PYDED_EVID=t + '/ev', VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
            L = r.stdout.splitlines()
            print('%s %s rc %d %.0fs' % (sys.argv[1], p, r.returncode, time.time() - t0), flush=True)
            for l in L:
                if l.startswith(('VIOLATION', 'failed', 'bounded stand-in', 'note', 'ERROR')):
                    print('   ', l[:300], flush=True)
            if r.returncode not in (0, 1):
                print(r.stderr[-800:])
    finally:
        shutil.rmtree(t)


main()
