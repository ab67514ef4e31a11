"""Mechanical extraction: parses /repo's source on every run and executes it over symbolic values.

What the extraction drops/changes (everything else runs verbatim):
  * `if __name__ == '__main__'` blocks are not executed (module is loaded under its import name)
  * str % args is routed through a formatting shim (needed only for messages)
  * for-loops over symbolically long sequences are routed through the loop rule (seq.py)
  * imports resolve to the stand-ins listed in IMPORTS; int/len/range/... see BUILTINS
"""
import ast, sys, builtins, itertools, types, os, copy, functools
import numpy as np
from . import num as N, logic, arr, text
from .num import Num, SymBool, Unsupported

REPO_SRC = os.environ.get('PYDED_SRC', '/repo/src')


def fmt(l, r):
    if not isinstance(l, (str, text.SymStr)):
        return l % r
    return text.fmt(l, r)


class Xform(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=ast.Name('__fmt__', ast.Load()), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        items = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                items.append(v)
            else:
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                items.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(func=ast.Name('__fstr__', ast.Load()), args=items, keywords=[]), node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_FunctionDef(self, node):
        for a in node.args.args + node.args.kwonlyargs:
            a.annotation = None
        node.returns = None
        from . import loops
        self.depth += 1
        keep = getattr(self, 'names', None)
        self.names = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs} | set(loops.stores(node.body))
        self.generic_visit(node)
        self.names = keep
        self.depth -= 1
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        from . import loops
        return ((loops.rewrite_max(node) or loops.rewrite_grow(node)) if self.depth else None) or node

    def visit_While(self, node):
        self.generic_visit(node)
        from . import loops
        return (loops.rewrite_readlines(node, self.names) if self.depth else None) or node

    def visit_For(self, node):
        self.generic_visit(node)
        if self.depth == 0 or node.orelse:
            return node
        from . import loops
        return loops.rewrite_for(node, self.names)


class Dispatch:
    """every repository function is reached through one of these: contract stub or real body"""
    def __init__(self, world, qual, fn):
        self.world = world
        self.qual = qual
        self.fn = fn
        self.__name__ = fn.__name__
        self.__doc__ = fn.__doc__
        self.__wrapped__ = fn

    def __call__(self, *a, **k):
        w = self.world
        st = w.stubs.get(self.qual)
        if st is not None and self.qual not in w.inline:
            r = st(self, a, k)
            if r is not NOSTUB:
                w.used_stubs.add(self.qual)
                return r
        w.inlined.add(self.qual)
        w.depth += 1
        if w.depth > 40:
            w.depth = 0
            raise Unsupported('recursion depth')
        try:
            return self.fn(*a, **k)
        finally:
            w.depth -= 1


NOSTUB = object()


class FakeModule(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.__name__, n))


class SymRandom:
    def sample(self, pop, k):
        pop = list(pop)
        if k > len(pop):
            raise ValueError('Sample larger than population')
        out = []
        c = logic.ctx()
        rest = list(pop)
        for _ in range(k):
            i = c.choose(len(rest))
            out.append(rest.pop(i))
        return out

    def choice(self, pop):
        pop = list(pop)
        return pop[logic.ctx().choose(len(pop))]

    def randrange(self, *a):
        r = range(*a)
        return r[logic.ctx().choose(len(r))]

    def __getattr__(self, n):
        raise Unsupported('random.%s' % n)


class QhullError(RuntimeError):
    pass


class SymDelaunay:
    """scipy.spatial.Delaunay as an unknown: it fails, or returns some list of simplices over the given points.
    (That the list fills the convex hull once is assumed; it is exercised by the bounded runs.)"""
    def __init__(self, points, *a, **k):
        pts = np.array(arr.base(points) if isinstance(points, arr.SymArr) else arr.obj(points), dtype=object)
        c = logic.ctx()
        n, d = pts.shape
        menu = [None]
        if n >= d + 1:
            menu += [[], [tuple(range(d + 1))], [tuple(range(n - 1, n - d - 2, -1))]]
        if n >= d + 2:
            menu += [[tuple(range(d + 1)), tuple(range(1, d + 2))], [tuple(range(1, d + 2)), (0,) + tuple(range(2, d + 2)), tuple(range(d + 1))]]
        i = c.choose(len(menu))
        c.funs['delaunay'] = (pts, menu[i])
        if menu[i] is None:
            raise QhullError('initial simplex is flat')
        self.simplices = np.array(menu[i], dtype=np.int32).reshape(len(menu[i]), d + 1)
        self.points = points


def sym_print(*a, sep=' ', end='\n', file=None, flush=False):
    """messages on the terminal are not modelled; text printed to a file is written to it"""
    if file is None or file is sys.stdout or file is sys.stderr:
        return
    out = ''
    for i, x in enumerate(a):
        out = (out + sep if i else out) + (x if isinstance(x, (str, text.SymStr)) else text.fmt('%s', (x,)))
    file.write(out + end)


class World:
    def __init__(self, pkg, src=None):
        self.pkg = pkg                # 'ico2' | 'dode2'
        self.src = src or REPO_SRC
        self.mods = {}
        self.stubs = {}
        self.inline = set()
        self.used_stubs = set()
        self.inlined = set()
        self.depth = 0
        self.np = arr.NP()
        self.random = SymRandom()
        self.asts = {}
        self.loading = []
        self.fs = {}                  # private file system
        self.dirs = set()
        N.set_field(5 if pkg.startswith('ico') else 3)

    def builtins(self):
        b = dict(builtins.__dict__)
        b.update(__import__=self.imp, int=arr.sym_int, float=arr.sym_float, len=arr.sym_len, range=arr.sym_range, round=arr.sym_round,
                 sum=arr.sym_sum, max=arr.sym_max, min=arr.sym_min, isinstance=arr.sym_isinstance, print=sym_print,
                 open=self.open, enumerate=self.enumerate, zip=self.zip, reversed=self.reversed, list=self.mklist, input=None,
                 eval=self.deny, exec=self.deny, compile=self.deny, globals=self.deny, __fmt__=fmt, __fstr__=text.fstr)
        from . import loops
        b.update(loops.BUILTINS)
        return b

    def deny(self, *a, **k):
        raise Unsupported('eval/exec')

    def open(self, name, mode='r', *a, **k):
        return text.VFile(self.fs, name, mode)

    def mklist(self, x=()):
        if hasattr(x, '__symlist__'):
            return x.__symlist__()
        return list(x)

    def enumerate(self, x, start=0):
        if hasattr(x, '__symenum__'):
            return x.__symenum__(start)
        return enumerate(x, start)

    def zip(self, *a, **k):
        if any(hasattr(x, '__symenum__') for x in a):
            from . import seq
            return seq.sym_zip(*a)
        return zip(*a)

    def reversed(self, x):
        if hasattr(x, '__symenum__'):
            raise Unsupported('reversed')
        if isinstance(x, arr.SymArr):
            return reversed([x[i] for i in range(len(x))])
        return reversed(x)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = (globals or {}).get('__package__') or ''
            parts = pk.split('.')
            parts = parts[:len(parts) - (level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        if name == 'numpy':
            return self.np
        if name.startswith('numpy.typing'):
            m = FakeModule('numpy.typing', NDArray=_ND())
            if not fromlist:
                return self.np
            return m
        if name == 'numpy.linalg':
            return self.np.linalg if fromlist else self.np
        if name.startswith('pyqcstrc'):
            parts = name.split('.')
            if len(parts) == 1:
                pk = FakeModule('pyqcstrc')
                if fromlist:
                    for f in fromlist:
                        pk.__dict__[f] = self.package(f)
                return pk
            if len(parts) == 2:
                pk = self.package(parts[1])
                for f in fromlist or ():
                    if os.path.exists('%s/pyqcstrc/%s/%s.py' % (self.src, parts[1], f)):
                        pk.__dict__[f] = self.module(parts[1], f)
                if not fromlist:
                    top = FakeModule('pyqcstrc')
                    top.__dict__[parts[1]] = pk
                    return top
                return pk
            m = self.module(parts[1], parts[2])
            if fromlist:
                for f in fromlist:
                    if f != '*' and f not in m.__dict__:
                        raise ImportError("cannot import name '%s'" % f)
                return m
            top = FakeModule('pyqcstrc')
            pk = self.package(parts[1])
            pk.__dict__[parts[2]] = m
            top.__dict__[parts[1]] = pk
            return top
        if name == 'random':
            return self.random
        if name == 'itertools':
            return itertools
        if name in ('copy', 'functools', 'operator', 'typing', 'collections', 'dataclasses', 'enum', 'fractions', '__future__', 'warnings', 'contextlib', 're', 'string', 'collections.abc', 'abc', 'types', 'numbers'):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if name == 'math':
            return FakeModule('math', gcd=lambda *a: logic.gcd([Num.of(x) for x in a]), sqrt=lambda x: logic.sqrt(Num.of(x)), fabs=abs, pi=3.141592653589793,
                              isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: arr.np_allclose(a, b, rel_tol, abs_tol),
                              fsum=arr.sym_sum)
        if name in ('sys',):
            return FakeModule('sys', path=[], argv=[''], stdout=None, stderr=None, exit=self.deny, maxsize=2**63 - 1)
        if name in ('time', 'timeit'):
            return FakeModule(name, time=lambda: 0.0, default_timer=lambda: 0.0, perf_counter=lambda: 0.0)
        if name in ('os', 'os.path'):
            path = FakeModule('os.path', exists=self.exists, join=lambda *a: '/'.join(a), isdir=self.exists, isfile=self.exists)
            return FakeModule('os', path=path, makedirs=self.makedirs, mkdir=self.makedirs, sep='/')
        if name.startswith('scipy'):
            m = FakeModule(name, Delaunay=SymDelaunay, QhullError=QhullError, ConvexHull=_Uns('ConvexHull'))
            if not fromlist:
                top = FakeModule('scipy')
                top.__dict__['spatial'] = m
                return top
            return m
        if name in ('numericalc', 'math1', 'utils', 'symmetry', 'intsct') and os.path.exists('%s/pyqcstrc/%s/%s.py' % (self.src, self.pkg, name)):
            return self.module(self.pkg, name)
        raise Unsupported('import %s' % name)

    def exists(self, p):
        return p in self.fs or p in self.dirs

    def makedirs(self, p, *a, **k):
        self.dirs.add(p)

    def package(self, p):
        key = ('pkg', p)
        if key not in self.mods:
            self.mods[key] = FakeModule('pyqcstrc.' + p)
        return self.mods[key]

    def module(self, p, name):
        key = (p, name)
        if key in self.mods:
            return self.mods[key]
        path = '%s/pyqcstrc/%s/%s.py' % (self.src, p, name)
        if not os.path.exists(path):
            raise ImportError('No module named pyqcstrc.%s.%s' % (p, name))
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src, path)
        self.asts[key] = ast.parse(src, path)
        tree = Xform().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        m = FakeModule('pyqcstrc.%s.%s' % (p, name))
        d = m.__dict__
        d['__builtins__'] = self.builtins()
        d['__file__'] = path
        d['__package__'] = 'pyqcstrc.' + p
        self.mods[key] = m
        saved = logic.CTX
        logic.set_ctx(logic.Ctx())
        try:
            exec(code, d)
        finally:
            logic.set_ctx(saved)
        for n, v in list(d.items()):
            if isinstance(v, types.FunctionType) and v.__module__ == m.__name__ or (isinstance(v, types.FunctionType) and v.__globals__ is d):
                d[n] = Dispatch(self, '%s.%s.%s' % (p, name, n), v)
        return m

    def func(self, qual):
        p, mod, fn = qual.split('.')
        m = self.module(p, mod)
        return m.__dict__.get(fn)

    def fast(self):
        return self


class _ND:
    def __getitem__(self, k):
        return None


class _Uns:
    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        raise Unsupported('call of %s' % self.n)
