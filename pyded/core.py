"""Contracts: one executable specification per function, used
 (1) as the proof obligation of the function body, for all inputs,
 (2) as the only thing callers see of the function (stub),
 (3) as the exact oracle when a counterexample is replayed, or a bounded stand-in is run, on the real code."""
import time, math, traceback, itertools, random, copy
from fractions import Fraction
import numpy as np
from . import num as N, logic, arr
from .num import Num, SymBool, Unsupported, sand, sor, tobool, TRUE, FALSE, simplies, AT
from .arr import SymArr, obj, mk, base
from .logic import DivZero, Infeasible, PathLimit, tripval, canon, is_canon_trip
from .loader import World, Dispatch, NOSTUB


class SpecError(Exception):
    """the precondition of a contract is not met"""


# ---------------------------------------------------------------------------- input kinds
class Kind:
    def sym(self, name):
        raise NotImplementedError

    def conc(self, rng, env):
        raise NotImplementedError

    def from_model(self, name, model, rng, env):
        return self.conc(rng, env)


def canon_ints(t, D):
    a, b, c = (int(x) for x in t)
    g = math.gcd(a, b, c)
    if c < 0:
        g = -g
    return (a // g, b // g, c // g)


class Draw:
    """named draw strategies for concrete triples"""
    def __init__(self, lits=(), big=False):
        self.lits = [int(x) for x in lits if abs(x) < 10 ** 6 and float(x) == int(x)]
        self.big = big

    def triple(self, rng, kind='raw'):
        r = rng.random()
        if r < 0.12:
            a, b = 0, 0
        elif r < 0.22:
            a, b = rng.choice([0, 1, -1, 2]), 0
        elif r < 0.32:
            a, b = 0, rng.choice([1, -1, 2, 3])
        elif r < 0.45:
            a = rng.choice(self.lits or [3]) * rng.choice([1, -1])
            b = rng.choice((self.lits or [3]) + [rng.randint(-4, 4)])
        elif r < 0.9 or not self.big:
            a, b = rng.randint(-9, 9), rng.randint(-9, 9)
        else:
            a, b = rng.randint(-10 ** 4, 10 ** 4), rng.randint(-10 ** 4, 10 ** 4)
        c = rng.choice([1, 1, 1, 2, 3, 4, 5, 6, 10])
        if self.lits and rng.random() < 0.15:
            c = abs(rng.choice(self.lits)) or 1
        if kind == 'raw':
            if rng.random() < 0.25:
                c = -c
            if rng.random() < 0.25:
                k = rng.choice([2, 3, 5, -1])
                a, b, c = a * k, b * k, c * k
        return (a, b, c)


STYLES = ['plain'] * 8 + ['near', 'near', 'copy', 'copy', 'samec', 'samec', 'grid', 'tiny', 'bonly', 'large', 'lattice']


def nudge(rng, t):
    """a triple that differs from t in one entry, or in a negligible amount"""
    a, b, c = t
    k = rng.randrange(6)
    if k == 0:
        a += rng.choice([-1, 1])
    elif k == 1:
        b += rng.choice([-1, 1])
    elif k == 2:
        c = c * rng.choice([2, 3]) if c > 0 else -c
    elif k == 3:
        a, b = -a, -b
    elif k == 4:
        a, b = b, a
    else:
        m = rng.choice([50, 10 ** 3, 10 ** 5]) if max(abs(a), abs(b), abs(c)) < 10 ** 5 else 1
        a, b, c = a * m + rng.choice([-1, 1]), b * m, c * m
    return (a, b, c)


def restyle(rng, env, style, t):
    a, b, c = t
    if style == 'samec':
        c = env.setdefault('c', rng.choice([1, 2, 2, 3, 4, 6, 10]))
    elif style == 'grid':
        a, b, c = rng.choice([0, 0, 1, 1, -1, 2]), rng.choice([0, 0, 0, 1, -1]), rng.choice([1, 1, 1, 2])
    elif style == 'tiny' and abs(c) < 10 ** 3:
        c = c * env.setdefault('m', rng.choice([20, 100, 10 ** 3]))
    elif style == 'bonly':
        a = 0
    elif style == 'huge':                           # beyond 32 bits (linear functions only: nothing is multiplied)
        m = rng.choice([1, 10 ** 5, 10 ** 9])
        a, b, c = a % 9 * m + rng.randint(-3, 3), b % 9 * m + rng.randint(-3, 3), 1
    elif style == 'lattice':                        # lattice points and one fraction for everything else
        if env.get('earlier'):
            a, b, c = env.setdefault('frac', rng.choice([(1, 0, 2), (1, 0, 2), (1, 0, 3), (1, 1, 2), (1, 1, 5)]))
        else:
            c = 1
    elif style == 'large' and max(abs(a), abs(b)) < 10 ** 5:
        m = env.setdefault('m', rng.choice([30, 10 ** 3]))
        a, b = a * m + rng.randint(-3, 3), b * m + rng.randint(-3, 3)
    return (a, b, c)


class Trips(Kind):
    """array of integer triples, shape (*shape,3).
    mode 'int': independent integer atoms;  'val': value/second/denominator parametrisation (any integer triple with
    non-zero denominator is reached);  'canon': canonical triples."""
    def __init__(self, *shape, mode='val', big=False):
        self.shape = shape
        self.mode = mode
        self.big = big

    def sym(self, name):
        out = np.empty(self.shape + (3,), dtype=object)
        for idx in np.ndindex(*self.shape):
            nm = name + ''.join('[%d]' % i for i in idx)
            if self.mode == 'int':
                t = [logic.fresh(nm + '.0', 'int'), logic.fresh(nm + '.1', 'int'), logic.fresh(nm + '.2', 'int', 'nonzero')]
            elif self.mode == 'val':
                v = logic.fresh(nm + '.v', 'real')
                b = logic.fresh(nm + '.b', 'int')
                c = logic.fresh(nm + '.c', 'int', 'nonzero')
                a = v * c - logic.unit() * b
                a = Num(a.n, a.d, True)
                t = [a, b, c]
            else:
                t = canon(logic.fresh(nm + '.v', 'real'))
            for j in range(3):
                out[idx + (j,)] = t[j]
        return mk(out, 'int')

    def conc(self, rng, env):
        """the style of the call (drawn once per call, see STYLES) decides what the arguments have in common"""
        d = Draw(env.get('lits', ()), self.big)
        out = np.zeros(self.shape + (3,), dtype=np.int64)
        style = env.get('style', 'plain')
        pool = env.setdefault('pool', []) if style == 'near' else []
        earlier = env.setdefault('earlier', [])
        src = [x for x in earlier if x.shape == out.shape]
        if style == 'copy' and src and self.shape:
            out[...] = rng.choice(src)
            for _ in range(rng.choice([0, 1, 1, 2])):
                idx = tuple(rng.randrange(k) for k in self.shape)
                out[idx] = self.fix(nudge(rng, tuple(int(x) for x in out[idx])))
        else:
            for idx in np.ndindex(*self.shape):
                if pool and rng.random() < (0.6 if style == 'near' else 0.15):
                    t = rng.choice(pool)
                    if style == 'near' and rng.random() < 0.5:
                        t = nudge(rng, t)
                else:
                    t = d.triple(rng, 'canon' if self.mode == 'canon' else 'raw')
                t = self.fix(restyle(rng, env, style, t))
                pool.append(t)
                out[idx] = t
            if len(self.shape) >= 2 and self.shape[0] > 1 and rng.random() < 0.12:     # repeated rows
                i, j = rng.choice([(0, -1), (0, -1), (0, 1), (rng.randrange(self.shape[0]), rng.randrange(self.shape[0]))])
                out[j] = out[i]
            if len(self.shape) >= 3 and self.shape[1] > 1 and rng.random() < 0.06:
                k = rng.randrange(self.shape[0])
                i, j = rng.choice([(0, -1), (0, 1), (rng.randrange(self.shape[1]), rng.randrange(self.shape[1]))])
                out[k, j] = out[k, i]
        earlier.append(out.copy())
        return out

    def fix(self, t):
        return canon_ints(t, N.D) if self.mode == 'canon' else t

    def from_model(self, name, model, rng, env):
        out = self.conc(rng, env)
        for idx in np.ndindex(*self.shape):
            nm = name + ''.join('[%d]' % i for i in idx)
            if self.mode == 'int':
                vals = [model.get(nm + '.%d' % j) for j in range(3)]
                for j in range(3):
                    if vals[j] is not None:
                        out[idx + (j,)] = clampint(vals[j])
                if out[idx + (2,)] == 0:
                    out[idx + (2,)] = 1
            else:
                v = model.get(nm + '.v')
                if v is None:
                    continue
                v = Fraction(v)
                if v.denominator > 5000 or abs(v.numerator) > 10 ** 9:
                    v = v.limit_denominator(60)
                if abs(v.numerator) > 10 ** 9:
                    continue
                b = c = None
                if self.mode == 'val':
                    b, c = model.get(nm + '.b'), model.get(nm + '.c')
                t = (v.numerator, 0, v.denominator)
                if c is not None and clampint(c) not in (0,) and abs(clampint(c)) < 1000:
                    k = clampint(c)
                    if v.denominator == 1:
                        t = (v.numerator * k, 0, k)
                out[idx] = t
        return out


def clampint(v):
    v = int(round(v))
    return max(-10 ** 12, min(10 ** 12, v))


class Reals(Kind):
    def __init__(self, *shape, lo=-3, hi=3, sign=None):
        self.shape = shape
        self.lo, self.hi = lo, hi
        self.sign = sign

    def sym(self, name):
        if self.shape == ():
            return logic.fresh(name, 'real', self.sign)
        out = np.empty(self.shape, dtype=object)
        for idx in np.ndindex(*self.shape):
            out[idx] = logic.fresh(name + ''.join('[%d]' % i for i in idx), 'real', self.sign)
        return mk(out, 'float')

    def conc(self, rng, env):
        def d():
            r = rng.random()
            if r < 0.15:
                return 0.0
            if r < 0.5:
                return float(rng.randint(-4, 4)) / rng.choice([1, 1, 2, 4])
            return rng.uniform(self.lo, self.hi)
        if self.shape == ():
            return d()
        out = np.zeros(self.shape)
        for idx in np.ndindex(*self.shape):
            out[idx] = d()
        return out

    def from_model(self, name, model, rng, env):
        out = self.conc(rng, env)
        if self.shape == ():
            v = model.get(name)
            return float(v) if v is not None else out
        for idx in np.ndindex(*self.shape):
            v = model.get(name + ''.join('[%d]' % i for i in idx))
            if v is not None:
                out[idx] = float(v)
        return out


class Ints(Kind):
    """array of integers (float or int dtype)"""
    def __init__(self, *shape, dtype=np.int64, lo=-4, hi=4):
        self.shape = shape
        self.dtype = dtype
        self.lo, self.hi = lo, hi

    def sym(self, name):
        if self.shape == ():
            return logic.fresh(name, 'int')
        out = np.empty(self.shape, dtype=object)
        for idx in np.ndindex(*self.shape):
            out[idx] = logic.fresh(name + ''.join('[%d]' % i for i in idx), 'int')
        return mk(out, 'int' if self.dtype == np.int64 else 'float')

    def conc(self, rng, env):
        out = np.zeros(self.shape, dtype=self.dtype)
        m = 60 if self.shape and self.hi > 1 and rng.random() < 0.1 else 1
        for idx in np.ndindex(*self.shape):
            out[idx] = rng.randint(self.lo * m, self.hi * m)
        return out if self.shape else int(out)

    def from_model(self, name, model, rng, env):
        out = self.conc(rng, env)
        if self.shape == ():
            v = model.get(name)
            return clampint(v) if v is not None else out
        for idx in np.ndindex(*self.shape):
            v = model.get(name + ''.join('[%d]' % i for i in idx))
            if v is not None:
                out[idx] = clampint(v)
        return out


class Const(Kind):
    def __init__(self, v):
        self.v = v

    def sym(self, name):
        if isinstance(self.v, np.ndarray):
            return arr.arr_from(self.v)
        return copy.deepcopy(self.v)

    def conc(self, rng, env):
        return copy.deepcopy(self.v)


class OneOf(Kind):
    """finite choice: every alternative is proved (fork) """
    def __init__(self, *vals):
        self.vals = vals

    def sym(self, name):
        return self.vals[logic.ctx().choose(len(self.vals))]

    def conc(self, rng, env):
        return rng.choice(self.vals)


class Gen(Kind):
    """symbolic builder + concrete generator given explicitly"""
    def __init__(self, symf, concf):
        self.symf, self.concf = symf, concf

    def sym(self, name):
        return self.symf(name)

    def conc(self, rng, env):
        return self.concf(rng, env)


# ---------------------------------------------------------------------------- result descriptions
class R:
    """expected result"""
    def __init__(self, kind, val=None, **kw):
        self.kind = kind
        self.val = val
        self.kw = kw


def trips(v, tag='int'):
    """canonical triples with these values (array of Num, any shape incl. scalar)"""
    return R('trips', v)


def real(v, tol=None):
    return R('real', v, tol=tol)


def exact(v):
    return R('exact', v)


def none():
    return R('none')


def boolean(v):
    return R('bool', v)


def tri(must_true, must_false):
    return R('tri', (tobool(must_true), tobool(must_false)))


def rel(f, stub=None):
    """f(result) -> list of (name, formula)"""
    return R('rel', f, stub=stub)


def tup(*rs):
    return R('tuple', rs)


def anything():
    return R('any')


def opt(must, mustnot, r):
    """nothing, or a result described by r;  a result is required when must, nothing is required when mustnot"""
    return R('opt', (tobool(must), tobool(mustnot), r))


def vals(a):
    """array of triples -> object array of their values"""
    A = base(a) if isinstance(a, SymArr) else obj(a)
    sh = A.shape[:-1]
    if A.shape[-1] != 3:
        raise SpecError('not triples: shape %s' % (A.shape,))
    if sh == ():
        return tripval(A)
    out = np.empty(sh, dtype=object)
    for idx in np.ndindex(*sh):
        out[idx] = tripval(A[idx])
    return out


def to_stub_value(r):
    """result of a contracted call as seen by the caller"""
    k = r.kind
    if r.kw.get('groups') is not None:
        from . import seq
        gs = r.kw['groups']
        if k == 'dedup':
            v = seq.dedup_stub(r)
            if r.kw.get('after'):
                r.kw['after'](v)
            return v
        if any(seq.gdims(g) for g in gs):
            v = to_stub_value(R(k, r.val, **{x: y for x, y in r.kw.items() if x != 'groups'}))
            return seq.stub_value(r, v)
    if k == 'trips':
        v = r.val
        if isinstance(v, Num):
            out = np.empty(3, dtype=object)
            for i, x in enumerate(canon(v)):
                out[i] = x
            return mk(out, 'int')
        v = np.asarray(v, dtype=object)
        out = np.empty(v.shape + (3,), dtype=object)
        for idx in np.ndindex(*v.shape):
            for i, x in enumerate(canon(Num.of(v[idx]))):
                out[idx + (i,)] = x
        return mk(out, 'int')
    if k == 'real':
        v = r.val
        if isinstance(v, np.ndarray):
            return mk(np.array(v.view(np.ndarray), dtype=object, copy=True), 'float')
        return v
    if k == 'exact':
        v = r.val
        if isinstance(v, np.ndarray):
            return arr.arr_from(v)
        return v
    if k == 'none':
        return None
    if k == 'bool':
        return bool(r.val)
    if k == 'tri':
        t, f = r.val
        c = logic.ctx()
        if c.abstract and t.op == 'z3' and f.op == 'z3':
            i = c.choose(2)
            c.assume([~f, ~t][i])
            return i == 0
        if c.decide(t):
            c.assume(~f)
            return True
        if c.decide(f):
            return False
        return c.choose(2) == 0
    if k == 'tuple':
        return tuple(to_stub_value(x) for x in r.val)
    if k == 'opt':
        t, f, inner = r.val
        c = logic.ctx()
        if c.abstract and (t.op == 'z3' or f.op == 'z3'):
            if c.choose(2) == 1:
                c.assume(~t)
                return None
            c.assume(~f)
            return to_stub_value(inner)
        if c.decide(f):
            return None
        if not c.decide(t) and c.choose(2) == 1:
            return None
        return to_stub_value(inner)
    if k == 'rel' and r.kw.get('stub') is not None:
        return r.kw['stub']()
    return NOSTUB


class Obl:
    __slots__ = ('name', 'status', 'how', 'model', 'detail')

    def __init__(self, name, status, how='', model=None, detail=''):
        self.name, self.status, self.how, self.model, self.detail = name, status, how, model, detail


# ---------------------------------------------------------------------------- comparison in proofs
def check(name, formula, out, ms=None):
    st, how, m = logic.prove(formula, ms or PROVE_MS)
    if m is not None:
        m = {AT.name[k]: v for k, v in m.items() if v is not None}
    if st == 'refuted' and logic.ctx().soft:
        st = 'suspect'
    out.append(Obl(name, st, how, m, '' if st == 'proved' else repr(formula)[:600]))


PROVE_MS = 3000


def obligations(r, res, out, nm=''):
    """emit the obligations 'result == r'"""
    k = r.kind
    if k == 'any':
        out.append(Obl(nm + 'returns', 'proved', 'execution'))
        return
    if k == 'none':
        out.append(Obl(nm + 'returns nothing', 'proved' if res is None else 'refuted', 'shape', {} if res is not None else None, '' if res is None else 'returned %r' % (res,)))
        return
    if k == 'opt':
        t, f, inner = r.val
        if res is None:
            check(nm + 'nothing returned only when allowed', ~t, out)
        else:
            check(nm + 'something returned only when allowed', ~f, out)
            if inner is not None:
                obligations(inner, res, out, nm)
        return
    if res is None and k != 'rel':
        out.append(Obl(nm + 'returns a value', 'refuted', 'shape', {}, 'returned None'))
        return
    if (hasattr(res, '__symseq__') and k != 'rel') or (r.kw.get('groups') and any(not isinstance(f, int) for g in r.kw['groups'] for f in g)):
        from . import seq
        return seq.obligations(r, res, out, nm)
    if k == 'trips':
        v = r.val
        v = np.asarray(v, dtype=object) if not isinstance(v, Num) else v
        sh = (v.shape if not isinstance(v, Num) else ()) + (3,)
        if not isinstance(res, np.ndarray) or res.shape != sh:
            out.append(Obl(nm + 'shape', 'refuted', 'shape', {}, 'shape %s expected %s' % (getattr(res, 'shape', type(res)), sh)))
            return
        A = base(res)
        for idx in np.ndindex(*sh[:-1]):
            t = A[idx]
            e = v if isinstance(v, Num) else Num.of(v[idx])
            lab = nm + ('value' + ''.join('[%d]' % i for i in idx))
            if is_canon_trip(t):
                check(lab, t[0].trip.v == e, out)
                continue
            t = [arr.N_(x) for x in t]
            if not all(x.isint for x in t):
                out.append(Obl(lab + ' integer', 'unknown', 'integrality', None, 'component not known to be an integer'))
                continue
            check(lab + ' denominator>0', sand([~N.cmp_eq(t[2], Num.of(0)), t[2] >= 0]), out)
            if t[2].is_const() and not t[2].n:
                continue
            cp = logic.coprime(t)
            if cp:
                out.append(Obl(lab + ' lowest terms', 'proved', 'gcd definition'))
            else:
                con = all(x.is_const() for x in t)
                if con:
                    out.append(Obl(lab + ' lowest terms', 'refuted', 'constants', {}, repr(t)))
                else:
                    out.append(Obl(lab + ' lowest terms', 'unknown', 'gcd definition', None, repr(t)[:300]))
            try:
                check(lab, tripval(t) == e, out)
            except DivZero:
                out.append(Obl(lab, 'refuted', 'zero denominator', {}))
        return
    if k in ('real', 'exact'):
        v = r.val
        if not isinstance(v, np.ndarray) and not isinstance(v, (list, tuple)):
            e = Num.of(v)
            x = res
            if isinstance(x, np.ndarray) and x.size == 1 and x.ndim == 0:
                x = x.item()
            x = Num.of(x) if not isinstance(x, np.ndarray) else None
            if x is None:
                out.append(Obl(nm + 'shape', 'refuted', 'shape', {}, 'scalar expected, got %r' % (res,)))
                return
            check(nm + 'value', N.cmp_eq(x, e), out)
            return
        V = obj(v)
        try:
            A = obj(res) if not isinstance(res, np.ndarray) else base(res)
        except Exception:
            out.append(Obl(nm + 'shape', 'refuted', 'shape', {}, 'array expected'))
            return
        if A.shape != V.shape:
            out.append(Obl(nm + 'shape', 'refuted', 'shape', {}, 'shape %s expected %s' % (A.shape, V.shape)))
            return
        for idx in np.ndindex(*V.shape):
            check(nm + 'value' + ''.join('[%d]' % i for i in idx), N.cmp_eq(arr.N_(A[idx]), arr.N_(V[idx])), out)
        return
    if k == 'bool':
        e = tobool(r.val)
        x = tobool(res)
        check(nm + 'verdict', e if x.op == 'true' else (~e if x.op == 'false' else N.siff(x, e)), out)
        return
    if k == 'tri':
        t, f = r.val
        x = tobool(res)
        check(nm + 'true when required', simplies(t, x), out)
        check(nm + 'false when required', simplies(f, ~x), out)
        return
    if k == 'tuple':
        try:
            items = list(res)
        except TypeError:
            items = None
        if items is None or len(items) != len(r.val):
            out.append(Obl(nm + 'shape', 'refuted', 'shape', {}, 'expected %d results' % len(r.val)))
            return
        for i, (a, b) in enumerate(zip(r.val, items)):
            obligations(a, b, out, nm + '(%d).' % i)
        return
    if k == 'rel':
        for n, f in r.val(res):
            if f is None:
                out.append(Obl(nm + n, 'unknown', 'not expressible'))
            else:
                check(nm + n, f, out)
        return
    raise Unsupported('result kind ' + k)


# ---------------------------------------------------------------------------- comparison on concrete runs
class Mismatch(Exception):
    pass


def cval(x):
    """concrete python value -> constant arrays of Num"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return arr.arr_from(x)
        return arr.arr_from(x)
    if isinstance(x, (float, np.floating)):
        return Num.of(float(x))
    return x


def fl(x):
    x = Num.of(x) if not isinstance(x, Num) else x
    if not x.is_const():
        raise Unsupported('not constant')
    p, q = x.cval()
    if q == 0:
        return float(p)
    return exact_float(p, q)


def exact_float(p, q):
    """correctly rounded-ish float of p+q*sqrt(D) without cancellation"""
    sc = 10 ** 50
    s = Fraction(math.isqrt(N.D * sc * sc), sc)
    return float(Fraction(p) + Fraction(q) * s)


def compare(r, res, tol=1e-6):
    """raise Mismatch when the concrete result differs from the specification"""
    k = r.kind
    if k == 'any':
        return
    if k == 'none':
        if res is not None:
            raise Mismatch('expected nothing, got %s' % short(res))
        return
    if k == 'opt':
        t, f, inner = r.val
        if res is None:
            if t.op == 'true':
                raise Mismatch('expected a result, got None')
        else:
            if f.op == 'true':
                raise Mismatch('expected nothing, got %s' % short(res))
            if inner is not None:
                compare(inner, res, tol)
        return
    if res is None and k not in ('rel',):
        raise Mismatch('expected a result, got None')
    if k == 'trips':
        v = r.val
        v = v if isinstance(v, Num) else np.asarray(v, dtype=object)
        sh = (v.shape if not isinstance(v, Num) else ()) + (3,)
        a = np.asarray(res)
        if a.shape != sh:
            raise Mismatch('shape %s, expected %s' % (a.shape, sh))
        if a.dtype.kind not in 'iu':
            m = Mismatch('dtype %s, expected integers' % a.dtype)
            m.cat = 'canonical'
            raise m
        for idx in np.ndindex(*sh[:-1]):
            e = v if isinstance(v, Num) else Num.of(v[idx])
            et = logic.const_triple(e.cval())
            got = tuple(int(x) for x in a[idx])
            if got != et:
                m = Mismatch('component %s is %s, exact canonical value is %s' % (list(idx), got, et))
                if got[2] != 0 and logic.const_triple(tripval(got).cval()) == et:
                    m.cat = 'canonical'
                elif got[2] <= 0 or math.gcd(*got) != 1:
                    m.cat2 = 'canonical'
                raise m
        return
    if k == 'real':
        t = r.kw.get('tol') or tol
        v = r.val
        if isinstance(v, (np.ndarray, list, tuple)):
            V = obj(v)
            try:
                a = np.asarray(res, dtype=float)
            except Exception:
                raise Mismatch('not numeric: %s' % short(res))
            if a.shape != V.shape:
                raise Mismatch('shape %s, expected %s' % (a.shape, V.shape))
            for idx in np.ndindex(*V.shape):
                e = fl(V[idx])
                if not abs(a[idx] - e) <= t * (1 + abs(e)):
                    raise Mismatch('element %s is %r, expected %r' % (list(idx), a[idx], e))
        else:
            e = fl(v)
            try:
                g = float(res)
            except Exception:
                raise Mismatch('not a number: %s' % short(res))
            if not abs(g - e) <= t * (1 + abs(e)):
                raise Mismatch('value %r, expected %r' % (g, e))
        return
    if k == 'exact':
        v = r.val
        V = obj(v) if isinstance(v, (np.ndarray, list, tuple)) else np.asarray(Num.of(v), dtype=object)
        a = np.asarray(res)
        if a.shape != V.shape:
            raise Mismatch('shape %s, expected %s' % (a.shape, V.shape))
        for idx in np.ndindex(*V.shape):
            e = arr.N_(V[idx])
            g = a[idx]
            if Num.of(g.item() if hasattr(g, 'item') else g).n != e.n:
                raise Mismatch('element %s is %r, expected %s' % (list(idx), g, e))
        return
    if k == 'bool':
        e = tobool(r.val)
        if e.op not in ('true', 'false'):
            raise Unsupported('undetermined verdict')
        if not isinstance(res, (bool, np.bool_)):
            raise Mismatch('expected a truth value, got %s' % short(res))
        if bool(res) != (e.op == 'true'):
            raise Mismatch('verdict %s, expected %s' % (bool(res), e.op))
        return
    if k == 'tri':
        t, f = r.val
        if t.op == 'true' and not (isinstance(res, (bool, np.bool_)) and bool(res)):
            raise Mismatch('verdict %s, expected True' % (short(res),))
        if f.op == 'true' and not (isinstance(res, (bool, np.bool_)) and not bool(res)):
            raise Mismatch('verdict %s, expected False' % (short(res),))
        return
    if k == 'tuple':
        try:
            items = list(res)
        except TypeError:
            raise Mismatch('expected %d results' % len(r.val))
        if len(items) != len(r.val):
            raise Mismatch('expected %d results, got %d' % (len(r.val), len(items)))
        for a, b in zip(r.val, items):
            compare(a, b, tol)
        return
    if k == 'rel':
        for n, f in r.val(cval(res)):
            if f is None:
                continue
            f = tobool(f)
            if f.op == 'false':
                raise Mismatch('%s fails for result %s' % (n, short(res)))
            if f.op != 'true':
                raise Unsupported('undetermined ' + n)
        return
    raise Unsupported(k)


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


# ---------------------------------------------------------------------------- contracts
CONTRACTS = {}
# functions whose intermediate values stay of the size of their arguments
LINEAR = {'add', 'sub', 'add_vectors', 'sub_vectors', 'projection', 'projection3', 'shift_object', 'shift', 'symop_vec', 'symop_vecs', 'symop_obj',
          'remove_doubling', 'remove_doubling_in_perp_space', 'generator_obj_symmetric_obj', 'dot_product_1'}


class Case:
    def __init__(self, name, kinds, requires=None, gen=None, sym=None, bounded=None, kw=None, weight=1, runs=None, max_paths=None, ms=None, nosym=False, tol=None, seqs=0, skip_frame=False, pure=True, abstract=False, feas_ms=400, thorough=False):
        self.name = name
        self.kinds = kinds
        self.thorough = thorough        # proved in the thorough tier only
        self.abstract = abstract        # callee predicates stay opaque
        self.feas_ms = feas_ms          # 0: path feasibility by linear reasoning only
        self.requires = requires        # list of formulas from args
        self.gen = gen                  # concrete generator rng,env -> args (overrides kinds)
        self.symf = sym                 # symbolic generator -> args
        self.bounded = bounded          # text of the bound, when the symbolic case does not cover every size
        self.kw = kw or {}
        self.weight = weight
        self.runs = runs
        self.max_paths = max_paths
        self.ms = ms
        self.nosym = nosym
        self.tol = tol

    def sym_args(self):
        if self.symf is not None:
            return self.symf()
        return [k.sym('x%d' % i) for i, k in enumerate(self.kinds)]

    def conc_args(self, rng, env):
        for k in ('pool', 'earlier', 'c', 'm', 'frac'):
            env.pop(k, None)
        env['style'] = rng.style = rng.choice(STYLES + ['huge'] if getattr(self, 'linear', False) else STYLES)
        rng.c = rng.choice([1, 2, 2, 3, 4])
        if self.gen is not None:
            return self.gen(rng, env)
        return [k.conc(rng, env) for k in self.kinds]

    def model_args(self, model, rng, env):
        for k in ('pool', 'earlier', 'c', 'm', 'style'):
            env.pop(k, None)
        if self.symf is not None or not self.kinds:
            return self.conc_args(rng, env)
        return [k.from_model('x%d' % i, model, rng, env) for i, k in enumerate(self.kinds)]


class Contract:
    def __init__(self, qual, props, spec, cases, stub=True, inline=(), note='', stub_ok=None, bounded_only=None, public=True, nparams=None, cross=(), client=None, lift=None, seqspec=None):
        self.lift = lift                # element-wise specification: applies at every index of a sequence (see seq.lifted)
        self.seqspec = seqspec          # specification for sequences of symbolic length
        self.client = client            # program over the package whose result the contract describes (default: the function itself)
        self.qual = qual
        self.props = props
        self.spec = spec
        self.cases = cases
        self.stub = stub
        self.inline = set(inline)       # callees whose body is used instead of their contract
        self.note = note
        self.stub_ok = stub_ok
        self.bounded_only = bounded_only
        self.cases = [copy.copy(c) for c in cases]
        for c in self.cases:
            c.linear = qual.split('.')[-1] in LINEAR
        CONTRACTS[qual] = self

    def stubfn(self, disp, a, k):
        try:
            import inspect
            sig = inspect.signature(disp.fn)
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            args = list(ba.arguments.values())
            if self.stub_ok is not None and not self.stub_ok(*args):
                return NOSTUB
            if self.stub == 'seq' and not any(hasattr(x, 'groups') for x in args):
                return NOSTUB           # contract used for sequences of symbolic length only
            r = self.spec_of(args)
        except (SpecError, IndexError, AttributeError, TypeError, ValueError):
            return NOSTUB
        if r is None:
            return NOSTUB
        return to_stub_value(r)

    def spec_of(self, args, kw=None):
        from . import seq
        if any(isinstance(a, seq.SymSeq) for a in args):
            if self.seqspec is not None:
                return self.seqspec(*args, **(kw or {}))
            if self.lift is not None:
                return seq.lifted(self.spec, args, self.lift, kw)
            raise SpecError('no specification for sequences of symbolic length')
        return self.spec(*args, **(kw or {}))


class SymWorld:
    """what a client program sees of the package, symbolically"""
    symbolic = True

    def __init__(self, world):
        self.w = world

    def mod(self, name):
        return self.w.module(self.w.pkg, name)

    def scratch(self):
        self.w.dirs.add('/scratch')
        return '/scratch'

    def lines(self, path):
        from . import text
        if path not in self.w.fs:
            return None
        L = text.lines(self.w.fs[path])
        return text.ConcatList(L) if any(isinstance(x, text.LineBlock) for x in L) else L


class FuncResult:
    def __init__(self, qual, case):
        self.qual, self.case = qual, case
        self.paths = 0
        self.obls = []
        self.status = None          # proved / refuted / unknown / unsupported / missing
        self.reason = ''
        self.stubs = set()
        self.inlined = set()
        self.time = 0
        self.notes = set()


def snapshot(args):
    out = []
    for a in args:
        if isinstance(a, np.ndarray):
            out.append(np.array(a.view(np.ndarray), dtype=object, copy=True))
        elif isinstance(a, list):
            out.append(list(a))
        elif hasattr(a, 'buf'):
            out.append(a.__symseq__())
        else:
            out.append(None)
    return out


def frame_obls(args, snap, out):
    for i, (a, s) in enumerate(zip(args, snap)):
        if hasattr(s, 'buf'):
            a, s = a.buf, s.buf.view(np.ndarray)
        if isinstance(s, np.ndarray):
            A = base(a)
            if A.shape != s.shape:
                out.append(Obl('frame: argument %d unchanged' % i, 'refuted', 'frame', {}, 'shape changed'))
                continue
            bad = None
            for idx in np.ndindex(*s.shape):
                if A[idx] is not s[idx]:
                    f = N.cmp_eq(arr.N_(A[idx]), arr.N_(s[idx]))
                    st, how, m = logic.prove(f)
                    if st != 'proved':
                        if m is not None:
                            m = {AT.name[k]: v for k, v in m.items() if v is not None}
                        bad = Obl('frame: argument %d unchanged' % i, st, how, m, 'element %s' % (idx,))
                        break
            out.append(bad or Obl('frame: argument %d unchanged' % i, 'proved', 'frame'))


def prove_case(world, con, case, budget_s=60, max_paths=400):
    """symbolically execute the real body of con.qual on case; returns FuncResult"""
    fr = FuncResult(con.qual, case.name)
    t0 = time.time()
    max_paths = case.max_paths or max_paths
    work = [[]]
    try:
        N.reset_atoms()
        fn = world.func(con.qual)
    except Unsupported as e:
        fr.status, fr.reason = 'unsupported', str(e)
        return fr
    except Exception as e:
        fr.status, fr.reason = 'unsupported', 'module load: %r' % e
        return fr
    if fn is None:
        fr.status, fr.reason = 'missing', 'function not found'
        return fr
    if con.client is not None:
        fn = lambda *a, **k: con.client(SymWorld(world), *a, **k)
    world.stubs = {q: c.stubfn for q, c in CONTRACTS.items() if c.stub and q.startswith(world.pkg + '.')}
    world.inline = {con.qual} | con.inline
    world.used_stubs = set()
    world.inlined = set()
    while work:
        if time.time() - t0 > budget_s or fr.paths >= max_paths:
            fr.status, fr.reason = 'unknown', 'budget (%d paths, %.0fs)' % (fr.paths, time.time() - t0)
            break
        prefix = work.pop()
        N.reset_atoms()
        c = logic.set_ctx(logic.Ctx(prefix, case.feas_ms))
        c.abstract = case.abstract
        c.world = world
        world.depth = 0
        world.fs, world.dirs = {}, {'.'}
        out = []
        try:
            args = case.sym_args()
            c.nbase = len(AT.name)
            if case.requires is not None:
                for f in case.requires(*args):
                    c.assume(f)
            snap = snapshot(args)
            gsnap = globals_snapshot(world)
            res = exc = None
            try:
                world.top = True
                res = fn(*args, **case.kw)
            except DivZero as e:
                exc = e
            except (Infeasible, Unsupported, PathLimit, RecursionError):
                raise
            except Exception as e:
                exc = e
                exc_tb = traceback.format_exc(limit=-3)
            if exc is not None:
                # is the path feasible at all?
                r, m = logic.nra_check(c.facts, 2000, c, want_model=True)
                if r == 'unsat':
                    out.append(Obl('path infeasible', 'proved', 'z3 nonlinear'))
                else:
                    if m is not None:
                        m = {AT.name[k]: v for k, v in m.items() if v is not None}
                    out.append(Obl('terminates without exception', 'exception', type(exc).__name__, m, '%s: %s' % (type(exc).__name__, exc)))
            else:
                spec_args = [restore(a, s) for a, s in zip(args, snap)]
                if getattr(c, 'loops', None):
                    raise Unsupported('return from inside a loop of symbolic length')
                r = con.spec_of(spec_args, case.kw)
                obligations(r, res, out)
                frame_obls(args, snap, out)
                gd = globals_diff(world, gsnap)
                out.append(Obl('frame: no module state changed', 'proved' if not gd else 'refuted', 'frame', {} if gd else None, gd))
            fr.paths += 1
        except Infeasible:
            pass
        except (Unsupported, SpecError, RecursionError) as e:
            fr.paths += 1
            out.append(Obl('within reach', 'unsupported', type(e).__name__, None, str(e)[:300]))
        except PathLimit as e:
            fr.paths += 1
            out.append(Obl('within reach', 'unsupported', 'limit', None, str(e)))
        except Exception as e:      # specification or engine failure
            fr.paths += 1
            out.append(Obl('within reach', 'unsupported', 'engine', None, traceback.format_exc(limit=-4)[-600:]))
        for a in c.alts:
            work.append(a)
        fr.notes.update(c.notes)
        fr.obls.extend(out)
        if any(o.status in ('unsupported',) for o in out) and len([1 for o in fr.obls if o.status == 'unsupported']) >= 3:
            fr.status, fr.reason = 'unsupported', [o.detail for o in fr.obls if o.status == 'unsupported'][0]
            break
        if len([1 for o in fr.obls if o.status in ('refuted', 'exception')]) >= 12:
            break
    logic.set_ctx(None)
    st = {o.status for o in fr.obls}
    if 'refuted' in st or 'exception' in st:
        fr.status = 'refuted' if 'refuted' in st else 'exception'
    elif fr.status is None:
        if 'unsupported' in st:
            fr.status = 'unsupported'
            fr.reason = [o.detail for o in fr.obls if o.status == 'unsupported'][0]
        elif 'unknown' in st or 'suspect' in st:
            fr.status = 'unknown'
            fr.reason = [o.name + ': ' + o.detail for o in fr.obls if o.status in ('unknown', 'suspect')][0]
        elif not fr.obls:
            fr.status, fr.reason = 'unknown', 'no obligations (vacuous)'
        else:
            fr.status = 'proved'
    fr.stubs = set(world.used_stubs)
    fr.inlined = set(world.inlined) - {con.qual}
    fr.time = time.time() - t0
    return fr


def restore(a, s):
    if isinstance(s, np.ndarray):
        return mk(s, a.tag if isinstance(a, SymArr) else 'float')
    if isinstance(s, list) or hasattr(s, 'buf'):
        return s
    return a


def globals_snapshot(world):
    out = {}
    for key, m in world.mods.items():
        for n, v in m.__dict__.items():
            if n.startswith('__') or isinstance(v, Dispatch):
                continue
            if isinstance(v, np.ndarray):
                out[(key, n)] = ('a', v, v.tobytes() if v.dtype != object else [id(x) for x in v.reshape(-1)])
            elif isinstance(v, (list, dict, set)):
                out[(key, n)] = ('c', v, repr(v)[:5000])
            elif isinstance(v, (int, float, str, Num, bool, type(None))):
                out[(key, n)] = ('s', v, repr(v))
    return out


def globals_diff(world, snap):
    now = globals_snapshot(world)
    for k, v in now.items():
        o = snap.get(k)
        if o is None:
            if k[0] in {x[0] for x in snap}:
                return '%s.%s created' % (k[0][-1], k[1])
            continue
        if o[2] != v[2]:
            return '%s.%s modified' % (k[0][-1], k[1])
    return ''
