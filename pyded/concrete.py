"""Runs the real code (CPython + numpy, imported from /repo/src) against the executable specifications."""
import sys, os, io, ast, inspect, contextlib, importlib, random, time, json, copy, signal, warnings, tempfile, shutil, gc
import numpy as np
from . import num as N, logic, arr, core
from .num import Num, Unsupported
from .core import Mismatch, SpecError
from .loader import REPO_SRC

sys.dont_write_bytecode = True
_mods = {}


def real_module(pkg, name):
    k = (pkg, name)
    if k not in _mods:
        if sys.path[0] != REPO_SRC:
            sys.path.insert(0, REPO_SRC)
        with quiet():
            _mods[k] = importlib.import_module('pyqcstrc.%s.%s' % (pkg, name))
    return _mods[k]


def real_func(qual):
    p, m, f = qual.split('.')
    return getattr(real_module(p, m), f, None)


class RealWorld:
    """what a client program sees of the package: the real modules and a scratch directory of its own"""
    symbolic = False

    def __init__(self, pkg):
        self.pkg = pkg
        self.dirs = []

    def mod(self, name):
        return real_module(self.pkg, name)

    def scratch(self):
        d = tempfile.mkdtemp(prefix='pyded_')
        self.dirs.append(d)
        return d

    def lines(self, path):
        gc.collect(0)
        if not os.path.exists(path):
            return None
        s = open(path, encoding='utf-8').read()
        for i, d in enumerate(self.dirs):
            s = s.replace(d, '/scratch%d' % i)
        return s.splitlines(True)


def client_call(con, a, k):
    M = RealWorld(con.qual.split('.')[0])
    try:
        return con.client(M, *a, **k)
    finally:
        for d in M.dirs:
            shutil.rmtree(d, ignore_errors=True)


def overflows(fn, args, kw, per_call):
    """an integer operation of this call leaves the 64-bit range (outside the precondition of every contract)"""
    try:
        with quiet('raise'), limit(per_call):
            fn(*args, **kw)
    except FloatingPointError as e:
        return 'overflow' in str(e)
    except BaseException:
        return False
    return False


@contextlib.contextmanager
def quiet(over='ignore'):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore', over=over):
        warnings.simplefilter('ignore')
        yield


_lits = {}


def literals(qual):
    """numeric literals of the function's module: used as draw values"""
    p, m, f = qual.split('.')
    k = (p, m)
    if k not in _lits:
        per = {}
        try:
            tree = ast.parse(open('%s/pyqcstrc/%s/%s.py' % (REPO_SRC, p, m), encoding='utf-8').read())
            for node in tree.body:
                if isinstance(node, ast.FunctionDef):
                    s = set()
                    for x in ast.walk(node):
                        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                            if x.value == int(x.value) and abs(x.value) < 10 ** 7:
                                s.add(int(x.value))
                    per[node.name] = s
        except Exception:
            pass
        _lits[k] = per
    per = _lits[k]
    s = set(per.get(f, ()))
    return sorted(s)


class Timeout(Exception):
    pass


@contextlib.contextmanager
def limit(sec):
    def h(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return True


def cat(m, c):
    m.cat = c
    return m


def fresh_func(qual):
    """the function in a newly imported copy of the package: a program that has called nothing before"""
    old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'pyqcstrc' or k.startswith('pyqcstrc.')}
    try:
        p, m, f = qual.split('.')
        if sys.path[0] != REPO_SRC:
            sys.path.insert(0, REPO_SRC)
        with quiet():
            return getattr(importlib.import_module('pyqcstrc.%s.%s' % (p, m)), f, None)
    finally:
        for k in list(sys.modules):
            if k == 'pyqcstrc' or k.startswith('pyqcstrc.'):
                del sys.modules[k]
        sys.modules.update(old)


def nearby(args, rng):
    """equal arguments but for one entry (never a denominator)"""
    out = copy.deepcopy(args)
    pos = [i for i, a in enumerate(out) if isinstance(a, np.ndarray) and a.size and a.dtype.kind in 'if']
    if not pos:
        return None
    a = out[rng.choice(pos)]
    ix = tuple(rng.randrange(n) for n in a.shape)
    if a.dtype.kind == 'i' and a.shape[-1] == 3:
        ix = ix[:-1] + (rng.randrange(2),)
    if rng.random() < 0.5:          # the last element: what a shortened key would leave out
        ix = tuple(n - 1 for n in a.shape[:-1]) + ix[-1:]
    a[ix] += rng.choice([-2, -1, 1, 2])
    return out


def unreduced(args, rng):
    """the same values, some triples written with another (possibly negative) denominator"""
    out = copy.deepcopy(args)
    for a in out:
        if isinstance(a, np.ndarray) and a.dtype == np.int64 and a.ndim > 1 and a.shape[-1] == 3 and a.flags.c_contiguous:
            t = a.reshape(-1, 3)
            for i in range(len(t)):
                if rng.random() < 0.4:
                    t[i] *= rng.choice([-1, 2, -2, -3])
    return out


def untouched(con, case, args, seed=1, per_call=20):
    """frame condition alone, for arguments outside the domain of the value contract"""
    fn = real_func(con.qual)
    if fn is None or con.client is not None:
        return None
    saved = copy.deepcopy(args)
    random.seed(seed)
    np.random.seed(seed)
    try:
        with quiet(), limit(per_call):
            fn(*args, **case.kw)
    except Timeout:
        return None
    except Exception:
        pass
    for i, (a, s) in enumerate(zip(args, saved)):
        if not same(a, s):
            return cat(Mismatch('argument %d was modified by the call' % i), 'frame')
    return None


def outcome(fn, args, kw, seed, per_call):
    random.seed(seed)
    np.random.seed(seed)
    try:
        with quiet(), limit(per_call):
            return 'ok', fn(*copy.deepcopy(args), **kw)
    except Timeout:
        return 'timeout', None
    except Exception as e:
        return type(e).__name__, None


def history(con, case, args, other, seed=1, per_call=20):
    """f(args), f(other), f(args) in one program against each call alone in a program of its own"""
    fn = real_func(con.qual)
    if fn is None or con.client is not None or getattr(con, 'nondet', False):
        return None
    k1, r1 = outcome(fn, args, case.kw, seed, per_call)
    keep = copy.deepcopy(r1)
    k2, r2 = outcome(fn, other, case.kw, seed, per_call)
    if 'timeout' in (k1, k2):
        return None
    if k1 == 'ok' and not same(r1, keep):
        return cat(Mismatch('a later call with other arguments changed the result of the first call from %s to %s' % (core.short(keep), core.short(r1))), 'frame')
    f2 = fresh_func(con.qual)
    k3, r3 = outcome(f2, other, case.kw, seed, per_call) if f2 is not None else ('timeout', None)
    if k3 == 'timeout':
        return None
    if k2 != k3 or not same(r2, r3):
        return cat(Mismatch('after other calls the result is %s, in a program that called nothing before it is %s' % (core.short(r2) if k2 == 'ok' else k2, core.short(r3) if k3 == 'ok' else k3)), 'frame')
    return None


def run_once(con, case, args, again=False, per_call=20, extra=None):
    """-> None, or Mismatch with .cat"""
    fn = real_func(con.qual)
    if fn is None:
        return None
    if con.client is not None:
        fn = lambda *a, **k: client_call(con, a, k)
    elif extra:
        fn0 = fn
        fn = lambda *a, **k: fn0(*a, **dict(k, **extra))
    saved = copy.deepcopy(args)
    # specification first: inputs outside the precondition are skipped
    N.reset_atoms()
    logic.set_ctx(logic.Ctx())
    try:
        try:
            sargs = [core.cval(a) for a in saved]
            if case.requires is not None:
                for f in case.requires(*sargs):
                    f = N.tobool(f)
                    if f.op != 'true':
                        return 'skip'
            spec = con.spec(*sargs, **case.kw)
        except (SpecError, logic.DivZero, Unsupported):
            return 'skip'
        if spec is None:
            return 'skip'
        exc = None
        try:
            with quiet(), limit(per_call):
                res = fn(*args, **case.kw)
        except Timeout:
            try:
                with quiet(), limit(3 * per_call):
                    fn(*copy.deepcopy(saved), **case.kw)
            except Timeout:
                return cat(Mismatch('no result within %d s' % (3 * per_call)), 'exception')
            except Exception:
                pass
            return 'timeout'
        except Exception as e:
            if overflows(fn, copy.deepcopy(saved), case.kw, per_call):
                return 'skip'
            return cat(Mismatch('raised %s: %s' % (type(e).__name__, e)), 'exception')
        for i, (a, s) in enumerate(zip(args, saved)):
            if not same(a, s):
                return cat(Mismatch('argument %d was modified by the call' % i), 'frame')
        keep = copy.deepcopy(res)
        try:
            core.compare(spec, res, case.tol or 1e-6)
        except Mismatch as m:
            if overflows(fn, copy.deepcopy(saved), case.kw, per_call):
                return 'skip'
            return cat(m, getattr(m, 'cat', 'value'))
        except logic.DivZero as e:
            if overflows(fn, copy.deepcopy(saved), case.kw, per_call):
                return 'skip'
            return cat(Mismatch('the result has a zero denominator: %s' % core.short(res)), 'value')
        except Unsupported:
            return 'skip'
        except (TypeError, ValueError, IndexError, AttributeError, KeyError) as e:
            return cat(Mismatch('the result has an unexpected form (%s: %s): %s' % (type(e).__name__, e, core.short(res))), 'value')
        if again:
            try:
                with quiet(), limit(per_call):
                    if isinstance(res, np.ndarray) and res.size and res.flags.writeable and not any(isinstance(a, np.ndarray) and np.shares_memory(a, res) for a in args):
                        res[...] = 0 if res.dtype.kind in 'iuf' else res
                    elif isinstance(res, list) and res and isinstance(res[0], np.ndarray) and not any(isinstance(a, np.ndarray) and np.shares_memory(a, res[0]) for a in args):
                        res[0][...] = 0
                        res.pop()
                    res2 = fn(*copy.deepcopy(saved), **case.kw)
            except Timeout:
                return 'timeout'
            except Exception as e:
                return cat(Mismatch('second call with equal arguments raised %s: %s' % (type(e).__name__, e)), 'frame')
            if not same(keep, res2):
                if not getattr(con, 'nondet', False):
                    return cat(Mismatch('second call with equal arguments (after the first result was overwritten) gave %s instead of %s' % (core.short(res2), core.short(keep))), 'frame')
        return None
    finally:
        logic.set_ctx(None)


def fmt_args(args):
    out = []
    for a in args:
        if isinstance(a, np.ndarray):
            out.append({'dtype': str(a.dtype), 'shape': list(a.shape), 'data': a.tolist()})
        elif isinstance(a, (int, float, str, bool, type(None), list)):
            out.append({'value': a})
        elif isinstance(a, (np.integer, np.floating)):
            out.append({'value': a.item()})
        else:
            out.append({'repr': repr(a)})
    return out


def unfmt_args(js):
    out = []
    for a in js:
        if 'dtype' in a:
            out.append(np.array(a['data'], dtype=a['dtype']).reshape(a['shape']))
        else:
            out.append(a.get('value'))
    return out


def verbose_at(con, case):
    """position of the optional parameter 'verbose' (results must not depend on it), or 0"""
    fn = real_func(con.qual)
    try:
        P = list(inspect.signature(fn).parameters.values())
    except (TypeError, ValueError):
        return 0
    if con.client is not None or 'verbose' in case.kw:
        return 0
    for i, p in enumerate(P):
        if p.name == 'verbose' and p.default is not p.empty:
            return i
    return 0


def mixed(old, new, rng):
    """arguments that share most of their entries with an earlier call"""
    shape = lambda x: (x.shape, x.dtype) if isinstance(x, np.ndarray) else type(x)
    if not new or [shape(x) for x in old] != [shape(x) for x in new]:
        return new
    i = rng.randrange(len(new))
    out = [copy.deepcopy(new[j] if j == i else old[j]) for j in range(len(new))]
    if isinstance(new[i], np.ndarray) and new[i].ndim > 1 and len(new[i]):
        a = old[i].copy()
        k = rng.choice([len(a) - 1, rng.randrange(len(a))])
        a[k] = new[i][k]
        out[i] = a
    return out


def search(con, case, n, seed, model=None, budget=30, cats=None):
    """-> (evaluations, skipped, failure or None); failure = (args json, message, cat)"""
    rng = random.Random('%s|%s|%s' % (seed, con.qual, case.name))
    env = {'lits': literals(con.qual)}
    t0 = time.time()
    ev = sk = 0
    fails = []
    tries = 0
    chatty = verbose_at(con, case)
    prev = None
    hist = 4 if cats == {'frame'} else 0
    while ev < n and time.time() - t0 < budget and tries < 20 * n + 50:
        tries += 1
        env['i'] = tries - 1
        try:
            if model is not None and (ev % 3 != 2):
                args = case.model_args(model, rng, env)
            else:
                args = case.conc_args(rng, env)
        except (IndexError, ValueError, ZeroDivisionError, OverflowError, SpecError):
            sk += 1
            continue
        if prev is not None and case.gen is None and model is None and tries % 6 == 5:
            args = mixed(prev, args, rng)
        prev = copy.deepcopy(args)
        js = fmt_args(args)
        random.seed(rng.getrandbits(64))        # draws of the code under test: different on every run, reproducible
        np.random.seed(rng.getrandbits(32))
        extra = {'verbose': 1 + tries % 2} if chatty and tries % 5 == 3 and len(args) <= chatty else None
        r = run_once(con, case, args, again=(ev % 4 == 0), extra=extra)
        if r == 'skip':
            sk += 1
            continue
        if r == 'timeout':
            ev += 1
            continue
        ev += 1
        if r is not None:
            f = (js, str(r), r.cat)
            if cats is None or r.cat in cats or getattr(r, 'cat2', None) in cats:
                return ev, sk, f
            fails.append(f)
        if hist and ev:
            other = nearby(prev, rng)
            if other is not None:
                hist -= 1
                r = history(con, case, prev, other)
                if r is not None:
                    return ev, sk, (js, str(r), r.cat, fmt_args(other))
            other = unreduced(prev, rng)
            js = fmt_args(other)
            r = untouched(con, case, other)
            if r is not None:
                return ev, sk, (js, str(r), r.cat, [])
    return ev, sk, None
