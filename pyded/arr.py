"""Symbolic arrays (object ndarrays of Num/SymBool) and the numpy stand-in seen by the extracted code."""
import numpy as np
import math, itertools
from . import num as N
from . import logic
from .num import Num, SymBool, Unsupported, sand, sor, tobool, TRUE, FALSE


def is_sym(x):
    return isinstance(x, (Num, SymBool, SymArr))


def wrap_scalar(x):
    """array element -> Num/SymBool/bool"""
    if isinstance(x, (Num, SymBool, bool, str)) or x is None:
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    n = Num.of(x)
    if n is None:
        raise Unsupported('element of type %s' % type(x).__name__)
    return n


_OPS = {}


def _bin(name, f):
    _OPS[name] = np.frompyfunc(f, 2, 1)


def _un(name, f):
    _OPS[name] = np.frompyfunc(f, 1, 1)


def N_(x):
    if isinstance(x, (bool, SymBool)):
        return Num.of(x) if not isinstance(x, bool) else Num.of(int(x))
    return x if isinstance(x, Num) else Num.of(x)


_bin('add', lambda a, b: N_(a) + N_(b))
_bin('subtract', lambda a, b: N_(a) - N_(b))
_bin('multiply', lambda a, b: N_(a) * N_(b))
_bin('divide', lambda a, b: N_(a) / N_(b))
_bin('true_divide', lambda a, b: N_(a) / N_(b))
_bin('floor_divide', lambda a, b: N_(a) // N_(b))
_bin('remainder', lambda a, b: N_(a) % N_(b))
_bin('power', lambda a, b: N_(a) ** N_(b))
_bin('equal', lambda a, b: (tobool(a) == tobool(b)) if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)) else N_(a) == N_(b))
_bin('not_equal', lambda a, b: N_(a) != N_(b))
_bin('less', lambda a, b: N_(a) < N_(b))
_bin('less_equal', lambda a, b: N_(a) <= N_(b))
_bin('greater', lambda a, b: N_(a) > N_(b))
_bin('greater_equal', lambda a, b: N_(a) >= N_(b))
_bin('logical_and', lambda a, b: sand([a, b]))
_bin('logical_or', lambda a, b: sor([a, b]))
_bin('bitwise_and', lambda a, b: sand([a, b]))
_bin('bitwise_or', lambda a, b: sor([a, b]))
_bin('maximum', lambda a, b: smax(N_(a), N_(b)))
_bin('minimum', lambda a, b: smin(N_(a), N_(b)))
_un('negative', lambda a: -N_(a))
_un('positive', lambda a: N_(a))
_un('absolute', lambda a: abs(N_(a)))
_un('fabs', lambda a: abs(N_(a)))
_un('square', lambda a: N_(a) * N_(a))
_un('sqrt', lambda a: logic.sqrt(N_(a)))
_un('logical_not', lambda a: ~tobool(a))
_un('invert', lambda a: ~tobool(a))
_un('sign', lambda a: ssign(N_(a)))
_bin('gcd', lambda a, b: logic.gcd([N_(a), N_(b)]))


def ssign(a):
    if a > 0:
        return Num.of(1)
    if a == 0:
        return Num.of(0)
    return Num.of(-1)


def smax(a, b):
    return a if a >= b else b


def smin(a, b):
    return a if a <= b else b


BOOLS = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or', 'logical_not', 'bitwise_and', 'bitwise_or', 'invert'}
FLOATS = {'divide', 'true_divide', 'sqrt', 'power'}


class SymArr(np.ndarray):
    tag = 'float'

    def __array_finalize__(self, obj):
        self.tag = getattr(obj, 'tag', 'float')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.get('out')
        if name == 'matmul' and method == '__call__':
            return np_dot(*inputs)
        if name not in _OPS:
            raise Unsupported('ufunc %s' % name)
        f = _OPS[name]
        args = [base(x) for x in inputs]
        if method == '__call__':
            r = f(*args)
            tags = [gtag(x) for x in inputs]
            t = 'bool' if name in BOOLS else ('float' if name in FLOATS or 'float' in tags else ('int?' if 'int?' in tags else 'int'))
            r = mk(r, t)
            if out is not None:
                o = out[0]
                o[...] = r
                return o
            return r
        if method == 'reduce':
            a = args[0]
            axis = kw.get('axis', 0)
            if name == 'logical_and':
                return red(a, axis, sand)
            if name == 'logical_or':
                return red(a, axis, sor)
            if name == 'add':
                return mk2(red(a, axis, lambda xs: sum((N_(x) for x in xs), Num.of(0))), gtag(inputs[0]))
            if name == 'gcd':
                return red(a, axis, logic.gcd)
            if name == 'maximum':
                return red(a, axis, lambda xs: fold(smax, xs))
            if name == 'minimum':
                return red(a, axis, lambda xs: fold(smin, xs))
            if name == 'multiply':
                return mk2(red(a, axis, lambda xs: fold(lambda p, q: p * q, [N_(x) for x in xs])), gtag(inputs[0]))
        raise Unsupported('ufunc method %s.%s' % (name, method))

    def __setitem__(self, key, val):
        key = fixkey(key)
        if self.tag in ('int', 'int?'):
            val = to_int(val, self.tag)
        elif isinstance(val, SymArr):
            val = val.view(np.ndarray)
        elif isinstance(val, np.ndarray):
            val = obj(val)
        elif isinstance(val, (list, tuple)):
            val = obj(val)
        else:
            val = wrap_scalar(val)
        c = logic.CTX
        np.ndarray.__setitem__(self, key, val)

    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, fixkey(key))
        return r

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __index__(self):
        if self.size == 1:
            return self.reshape(-1)[0].__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def all(self, axis=None, **k):
        return red(base(self), axis, sand)

    def any(self, axis=None, **k):
        return red(base(self), axis, sor)

    def sum(self, axis=None, **k):
        return np_sum(self, axis)

    def tolist(self):
        return np.ndarray.tolist(self.view(np.ndarray))

    def astype(self, dt, **k):
        return mkdt(obj(self).copy(), dt)

    def dot(self, o):
        return np_dot(self, o)

    def max(self, axis=None, **k):
        return red(base(self), axis, lambda xs: fold(smax, xs))

    def min(self, axis=None, **k):
        return red(base(self), axis, lambda xs: fold(smin, xs))

    def argsort(self, *a, **k):
        return np_argsort(self, *a, **k)

    def sort(self, *a, **k):
        raise Unsupported('in-place sort')

    def round(self, *a, **k):
        raise Unsupported('round')

    def __repr__(self):
        return 'SymArr%s%s' % (self.shape, self.tag)
    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


def fixkey(k):
    if isinstance(k, Num):
        return k.__index__()
    if isinstance(k, SymArr):
        return keyarr(k)
    if isinstance(k, list):
        return [fixkey(x) for x in k]
    if isinstance(k, tuple):
        return tuple(fixkey(x) for x in k)
    if isinstance(k, slice):
        f = lambda z: z.__index__() if isinstance(z, Num) else z
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def keyarr(k):
    if k.ndim == 0:
        return fixkey(k.item())
    flat = [x for x in base(k).reshape(-1)]
    if k.tag == 'bool' or any(isinstance(x, (SymBool, bool)) for x in flat):
        return np.array([bool(x) for x in flat], dtype=bool).reshape(k.shape)
    return np.array([N_(x).__index__() for x in flat], dtype=int).reshape(k.shape)


def base(x):
    if isinstance(x, SymArr):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return obj(x)
    if isinstance(x, (list, tuple)):
        return obj(x)
    return x


def gtag(x):
    if isinstance(x, SymArr):
        return x.tag
    if isinstance(x, np.ndarray):
        return {'i': 'int', 'u': 'int', 'b': 'bool'}.get(x.dtype.kind, 'float')
    if isinstance(x, bool) or isinstance(x, SymBool):
        return 'bool'
    if isinstance(x, (int, np.integer)):
        return 'int'
    if isinstance(x, Num):
        return 'int?' if x.isint else 'float'
    if isinstance(x, (list, tuple)):
        return gtag(arr_from(x))
    return 'float'


def obj(x):
    """anything array-like -> object ndarray of Num/SymBool/bool"""
    a = np.array(x, dtype=object) if not isinstance(x, np.ndarray) else x.view(np.ndarray).astype(object)
    f = a.reshape(-1)
    o = np.empty(f.shape, dtype=object)
    for i, e in enumerate(f):
        o[i] = wrap_scalar(e)
    return o.reshape(a.shape)


def mk(a, tag):
    if not isinstance(a, np.ndarray):
        return a
    r = a.view(SymArr)
    r.tag = tag
    return r


mk2 = mk


def to_int1(x, tag):
    if isinstance(x, Num):
        if x.isint:
            return x
        if x.is_const() and tag == 'int':
            return Num.of(N.ctrunc(x.cval()))
        raise NonInt('a value not known to be an integer is stored in an integer array: %s' % N.show(x))
    if isinstance(x, (SymBool, bool)):
        return Num.of(x) if isinstance(x, SymBool) else Num.of(int(x))
    return x


class NonInt(Unsupported):
    pass


def to_int(v, tag='int'):
    if isinstance(v, (np.ndarray, list, tuple)):
        a = obj(v)
        f = a.reshape(-1)
        for i in range(len(f)):
            f[i] = to_int1(f[i], tag)
        return f.reshape(a.shape)
    return to_int1(wrap_scalar(v), tag)


def dtname(dt):
    if dt is None:
        return None
    if dt in (np.int64, int, np.intp, 'int64', 'int'):
        return 'int'
    if dt in (np.float64, float, 'float64', 'float'):
        return 'float'
    if dt in (bool, np.bool_):
        return 'bool'
    if dt is sym_int:
        return 'int'
    if dt is sym_float:
        return 'float'
    if dt is object:
        return 'float'
    if isinstance(dt, np.dtype):
        return dtname(dt.type)
    raise Unsupported('dtype %s' % (dt,))


def mkdt(o, dt):
    t = dtname(dt)
    if t == 'int':
        return mk(to_int(o), 'int')
    return mk(o, t)


def arr_from(x, dt=None):
    if isinstance(x, SymArr) and dt is None:
        return mk(base(x).copy(), x.tag)
    if hasattr(x, '__symseq__'):
        return x.__symseq__(dt)
    if isinstance(x, (list, tuple)) and has_seq(x):
        from . import seq
        return seq.array_of(x, dt)
    o = obj(x)
    if dt is not None:
        return mkdt(o, dt)
    t = tag_of(x)
    return mk(o, t)


def has_seq(x):
    return any(hasattr(e, '__symseq__') or (isinstance(e, (list, tuple)) and has_seq(e)) for e in x)


def tag_of(x):
    if isinstance(x, SymArr):
        return x.tag
    if isinstance(x, np.ndarray):
        return gtag(x)
    if isinstance(x, (list, tuple)):
        ts = {tag_of(e) for e in x}
        if not ts:
            return 'float'
        if 'float' in ts:
            return 'float'
        if 'int?' in ts:
            return 'int?'
        if ts == {'bool'}:
            return 'bool'
        return 'int'
    return gtag(x)


def fold(f, xs):
    it = iter(xs)
    r = N_(next(it))
    for x in it:
        r = f(r, N_(x))
    return r


def red(a, axis, f):
    if not isinstance(a, np.ndarray):
        return f([a])
    if axis is None:
        return f(list(a.reshape(-1)))
    if axis < 0:
        axis += a.ndim
    b = np.moveaxis(a, axis, -1)
    sh = b.shape[:-1]
    if sh == ():
        return f(list(b))
    out = np.empty(sh, dtype=object)
    for idx in np.ndindex(*sh):
        out[idx] = f(list(b[idx]))
    return mk(out, 'bool' if f in (sand, sor) else 'float')


# ------------------------------------------------------------------ numpy functions
def np_zeros(shape, dtype=None, **k):
    from . import seq
    if seq.sym_shape(shape):
        return seq.zeros(shape, dtype)
    if isinstance(shape, (Num,)):
        shape = shape.__index__()
    if isinstance(shape, (list, tuple)):
        shape = tuple(s.__index__() if isinstance(s, Num) else s for s in shape)
    o = np.empty(shape, dtype=object)
    o.fill(Num.of(0))
    return mk(o, dtname(dtype) or 'float')


def np_ones(shape, dtype=None, **k):
    r = np_zeros(shape, dtype)
    r.view(np.ndarray).fill(Num.of(1))
    return r


def np_identity(n, dtype=None):
    r = np_zeros((n, n), dtype)
    for i in range(r.shape[0]):
        r[i, i] = Num.of(1)
    return r


def np_array(x, dtype=None, **k):
    return arr_from(x, dtype)


def np_dot(a, b):
    if hasattr(a, '__symseq__') or hasattr(b, '__symseq__'):
        from . import seq
        return seq.np_dot(a, b)
    A, B = base(a) if not isinstance(a, (Num, int, float)) else a, base(b) if not isinstance(b, (Num, int, float)) else b
    if not isinstance(A, np.ndarray) or not isinstance(B, np.ndarray):
        return mk(_OPS['multiply'](A, B), 'float')
    t = 'float' if 'float' in (gtag(a), gtag(b)) else 'int?'
    if A.ndim == 1 and B.ndim == 1:
        if len(A) != len(B):
            raise ValueError('shapes not aligned')
        return dotv(A, B)
    if A.ndim == 2 and B.ndim == 1:
        if A.shape[1] != B.shape[0]:
            raise ValueError('shapes not aligned')
        o = np.empty(A.shape[0], dtype=object)
        for i in range(A.shape[0]):
            o[i] = dotv(A[i], B)
        return mk(o, t)
    if A.ndim == 1 and B.ndim == 2:
        o = np.empty(B.shape[1], dtype=object)
        for i in range(B.shape[1]):
            o[i] = dotv(A, B[:, i])
        return mk(o, t)
    if A.ndim == 2 and B.ndim == 2:
        if A.shape[1] != B.shape[0]:
            raise ValueError('shapes not aligned')
        o = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                o[i, j] = dotv(A[i], B[:, j])
        return mk(o, t)
    raise Unsupported('dot of ndim %d,%d' % (A.ndim, B.ndim))


def dotv(u, v):
    r = Num.of(0)
    sq = True
    for x, y in zip(u, v):
        x, y = N_(x), N_(y)
        p = x * y
        sq = sq and p.sqof is not None or (sq and not p.n)
        r = r + p
    if sq:
        r = Num(r.n, r.d, r.isint)
        if len([1 for x in u if N_(x).n]) == 1:
            z = [N_(x) for x in u if N_(x).n][0]
            r.sqof = z
        r.tag = 'sos'
    return r


def np_cross(a, b, **k):
    A, B = base(a), base(b)
    if A.shape == (3,) and B.shape == (3,):
        o = np.empty(3, dtype=object)
        o[0] = A[1] * B[2] - A[2] * B[1]
        o[1] = A[2] * B[0] - A[0] * B[2]
        o[2] = A[0] * B[1] - A[1] * B[0]
        return mk(o, 'float')
    raise Unsupported('cross of these shapes')


def np_all(a, axis=None, **k):
    if isinstance(a, SymArr):
        return a.all(axis)
    if type(a).__name__ == 'NoneTest':
        return a.all()
    if isinstance(a, (SymBool, Num, bool)):
        return tobool(a)
    if isinstance(a, (list, tuple, np.ndarray)):
        return red(obj(a), axis, sand)
    return tobool(a)


def np_any(a, axis=None, **k):
    if isinstance(a, SymArr):
        return a.any(axis)
    if type(a).__name__ == 'NoneTest':
        return a.any()
    if isinstance(a, (SymBool, Num, bool)):
        return tobool(a)
    if isinstance(a, (list, tuple, np.ndarray)):
        return red(obj(a), axis, sor)
    return tobool(a)


def np_allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    A, B = obj(a), obj(b)
    A, B = np.broadcast_arrays(A, B)
    out = []
    for x, y in zip(A.reshape(-1), B.reshape(-1)):
        d = N_(x) - N_(y)
        bound = Num.of(atol) + Num.of(rtol) * abs(N_(y))
        out.append(~N.cmp_lt(bound - d))
        out.append(~N.cmp_lt(bound + d))
    return sand(out)


def np_sum(a, axis=None, **k):
    if hasattr(a, '__symseq__'):
        from . import seq
        return seq.np_sum(a.__symseq__(), axis)
    t = gtag(a)
    return mk2(red(base(a), axis, lambda xs: sum((N_(x) for x in xs), Num.of(0))), t)


def catn(f):
    def g(xs, **k):
        from . import seq
        if hasattr(xs, '__symseq__'):
            return seq.np_cat(f, xs, **k)
        xs = list(xs)
        if any(hasattr(x, '__symseq__') for x in xs):
            return seq.np_cat(f, xs, **k)
        arrs = [arr_from(x) for x in xs]
        tags = {a.tag for a in arrs}
        t = 'float' if 'float' in tags else ('int?' if 'int?' in tags else 'int')
        if tags == {'bool'}:
            t = 'bool'
        k2 = {kk: v for kk, v in k.items()}
        return mk(f([a.view(np.ndarray) for a in arrs], **k2), t)
    return g


def np_append(a, v, axis=None):
    if hasattr(a, '__symseq__') or hasattr(v, '__symseq__'):
        from . import seq
        return seq.np_append(a, v, axis)
    A, V = arr_from(a), arr_from(v)
    t = 'float' if 'float' in (A.tag, V.tag) else ('int?' if 'int?' in (A.tag, V.tag) else 'int')
    return mk(np.append(A.view(np.ndarray), V.view(np.ndarray), axis=axis), t)


def np_sqrt(x):
    if hasattr(x, '__symseq__'):
        return x.__symseq__()._un('sqrt')
    if isinstance(x, (np.ndarray, list)):
        return mk(_OPS['sqrt'](base(x)), 'float')
    return logic.sqrt(Num.of(x))


def np_abs(x):
    if hasattr(x, '__symseq__'):
        return x.__symseq__()._un('absolute')
    if isinstance(x, (np.ndarray, list)):
        return mk(_OPS['absolute'](base(x)), gtag(x))
    return abs(Num.of(x))


def np_unique(a, axis=None, return_index=False, return_inverse=False, return_counts=False):
    """distinct rows.  Abstraction: listed in order of first occurrence instead of sorted (assumed contract)."""
    if hasattr(a, '__symseq__'):
        from . import seq
        return seq.unique(a.__symseq__(), axis, return_index, inverse=return_inverse, counts=return_counts)
    A = arr_from(a)
    if axis is None:
        rows = A.reshape(-1)
    elif axis == 0:
        rows = A
    else:
        raise Unsupported('unique axis')
    n = len(rows)
    keep = []
    inv = []
    cnt = []
    for i in range(n):
        hit = None
        for k, j in enumerate(keep):
            e = sand(list(base(rows[i] == rows[j]).reshape(-1))) if isinstance(rows[i], SymArr) else tobool(rows[i] == rows[j])
            if e:
                hit = k
                break
        if hit is None:
            keep.append(i)
            cnt.append(1)
            inv.append(len(keep) - 1)
        else:
            cnt[hit] += 1
            inv.append(hit)
    out = [mk(base(rows)[keep] if n else base(rows), A.tag)]
    if return_index:
        out.append(arr_from(keep, np.int64))
    if return_inverse:
        out.append(arr_from(inv, np.int64))
    if return_counts:
        out.append(arr_from(cnt, np.int64))
    logic.ctx().notes.append('np.unique order abstracted')
    return out[0] if len(out) == 1 else tuple(out)


def np_argsort(a, axis=-1, kind=None, order=None, **k):
    A = arr_from(a)
    if k or order is not None:
        raise Unsupported('argsort options')
    if A.ndim == 2 and axis == 0:
        cols = [base(np_argsort(A[:, j])) for j in range(A.shape[1])]
        return arr_from(np.array(cols, dtype=object).T.reshape(A.shape), np.int64)
    if A.ndim != 1:
        raise Unsupported('argsort ndim')
    idx = []
    for i in range(len(A)):
        p = 0
        while p < len(idx) and not bool(A[idx[p]] > A[i]):
            p += 1
        idx.insert(p, i)
    return arr_from(idx, np.int64)


def np_lexsort(keys, **k):
    """stable permutation in which columns with equal keys are adjacent.  Abstraction: the groups are listed in order of
    first occurrence instead of sorted (assumed contract)."""
    A = arr_from(keys)
    if A.ndim != 2 or k:
        raise Unsupported('lexsort')
    cols = base(A).T
    groups = []
    for i in range(len(cols)):
        for g in groups:
            if bool(sand([tobool(N_(x) == N_(y)) for x, y in zip(cols[i], cols[g[0]])])):
                g.append(i)
                break
        else:
            groups.append([i])
    logic.ctx().notes.append('np.lexsort order abstracted')
    return arr_from([i for g in groups for i in g], np.int64)


def la_norm(x, ord=None, axis=None, **k):
    if ord is not None or axis is not None:
        raise Unsupported('norm options')
    if hasattr(x, '__symseq__'):
        from . import seq
        return seq.la_norm(x.__symseq__())
    v = obj(x).reshape(-1)
    return logic.sqrt(dotv(v, v))


def la_det(m):
    M = obj(m)
    n = M.shape[0]
    if M.shape != (n, n):
        raise Unsupported('det shape')
    return detn(M)


def detn(M):
    n = M.shape[0]
    if n == 1:
        return N_(M[0, 0])
    r = Num.of(0)
    for j in range(n):
        if not N_(M[0, j]).n:
            continue
        sub = np.delete(M[1:], j, axis=1)
        t = N_(M[0, j]) * detn(sub)
        r = r + t if j % 2 == 0 else r - t
    return r


def la_inv(m):
    M = obj(m)
    n = M.shape[0]
    if all(N_(x).is_const() for x in M.reshape(-1)):
        # exact Gauss-Jordan
        A = [[N_(M[i, j]) for j in range(n)] + [Num.of(int(i == j)) for j in range(n)] for i in range(n)]
        for c in range(n):
            p = next((r for r in range(c, n) if A[r][c].n), None)
            if p is None:
                raise np.linalg.LinAlgError('Singular matrix')
            A[c], A[p] = A[p], A[c]
            iv = A[c][c].inv()
            A[c] = [constint(x * iv) for x in A[c]]
            for r in range(n):
                if r != c and A[r][c].n:
                    f = A[r][c]
                    A[r] = [constint(x - f * y) for x, y in zip(A[r], A[c])]
        o = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                o[i, j] = A[i][n + j]
        return mk(o, 'float')
    d = detn(M)
    logic.require_nonzero(d, 'matrix inverse')
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = np.delete(np.delete(M, j, axis=0), i, axis=1)
            c = detn(sub) if n > 1 else Num.of(1)
            o[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return mk(o, 'float')


def constint(x):
    if x.is_const():
        return Num.const(x.cval())
    return x


class _Gcd:
    def __call__(self, a, b):
        return logic.gcd([N_(a), N_(b)])

    def reduce(self, xs, **k):
        return logic.gcd([N_(x) for x in obj(xs).reshape(-1)])


class _LinAlg:
    norm = staticmethod(la_norm)
    det = staticmethod(la_det)
    inv = staticmethod(la_inv)
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        raise Unsupported('np.linalg.%s' % n)


def uf(name):
    f = _OPS[name]

    def g(*a, **k):
        if k:
            raise Unsupported('ufunc options')
        if hasattr(a[0], '__symseq__'):
            return a[0].__symseq__()._un(name) if len(a) == 1 else a[0].__symseq__()._bin(a[1], name)
        if len(a) == 2 and hasattr(a[1], '__symseq__'):
            return a[1].__symseq__()._bin(a[0], name, True)
        bs = [base(x) for x in a]
        r = f(*bs)
        if isinstance(r, np.ndarray):
            tags = [gtag(x) for x in a]
            return mk(r, 'bool' if name in BOOLS else ('float' if name in FLOATS or 'float' in tags else 'int?'))
        return r
    return g


def np_array_equal(a, b, **k):
    A, B = obj(a), obj(b)
    if A.shape != B.shape:
        return False
    return sand(list(_OPS['equal'](A, B).reshape(-1))) if A.size else True


def np_where(c, *a):
    if a:
        C, X, Y = np.broadcast_arrays(obj(c), obj(a[0]), obj(a[1]))
        o = np.empty(C.shape, dtype=object)
        for i in np.ndindex(*C.shape):
            o[i] = X[i] if tobool(C[i]) else Y[i]
        return mk(o, 'float')
    C = keyarr(arr_from(c)) if not isinstance(c, np.ndarray) or isinstance(c, SymArr) else c
    return tuple(arr_from(list(map(int, x)), np.int64) for x in np.where(C))


def np_arg(better):
    def g(a, axis=None):
        if axis is not None:
            raise Unsupported('argmax axis')
        A = list(obj(a).reshape(-1))
        b = 0
        for i in range(1, len(A)):
            if better(N_(A[i]), N_(A[b])):
                b = i
        return b
    return g


def np_isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    A, B = np.broadcast_arrays(obj(a), obj(b))
    o = np.empty(A.shape, dtype=object)
    for i in np.ndindex(*A.shape):
        o[i] = np_allclose(A[i], B[i], rtol, atol)
    return mk(o, 'bool') if o.shape else o.item()


def np_arange(*a, **k):
    return arr_from([int(x) for x in range(*[int(y) for y in a])] , np.int64)


def np_eye(n, *a, **k):
    if a:
        raise Unsupported('eye')
    return np_identity(n, **k)


def np_full(shape, v, dtype=None):
    r = np_zeros(shape, dtype or (np.int64 if isinstance(v, int) else float))
    r[...] = v
    return r


def wrapsame(f):
    def g(a, *x, **k):
        A = arr_from(a)
        return mk(f(A.view(np.ndarray), *[fixkey(y) for y in x], **k), A.tag)
    return g


class NP:
    """the numpy module as the extracted code sees it"""
    __name__ = 'numpy'
    int64 = np.int64
    int32 = np.int32
    int16 = np.int16
    int8 = np.int8
    float64 = np.float64
    float32 = np.float32
    bool_ = np.bool_
    integer = np.integer
    ndarray = np.ndarray
    newaxis = None
    pi = math.pi
    linalg = _LinAlg()
    gcd = _Gcd()
    zeros = staticmethod(np_zeros)
    ones = staticmethod(np_ones)
    empty = staticmethod(np_zeros)
    identity = staticmethod(np_identity)
    eye = staticmethod(np_eye)
    full = staticmethod(np_full)
    array = staticmethod(np_array)
    asarray = staticmethod(lambda x, dtype=None: x if isinstance(x, SymArr) and (dtype is None or dtname(dtype) == x.tag) else np_array(x, dtype))
    zeros_like = staticmethod(lambda a, dtype=None: np_zeros(a.shape, dtype or {'int': np.int64, 'int?': np.int64}.get(a.tag, float)))
    dot = staticmethod(np_dot)
    matmul = staticmethod(np_dot)
    inner = staticmethod(np_dot)
    vdot = staticmethod(np_dot)
    cross = staticmethod(np_cross)
    all = staticmethod(np_all)
    any = staticmethod(np_any)
    allclose = staticmethod(np_allclose)
    isclose = staticmethod(np_isclose)
    array_equal = staticmethod(np_array_equal)
    sum = staticmethod(np_sum)
    vstack = staticmethod(catn(np.vstack))
    hstack = staticmethod(catn(np.hstack))
    stack = staticmethod(catn(np.stack))
    concatenate = staticmethod(catn(np.concatenate))
    append = staticmethod(np_append)
    sqrt = staticmethod(np_sqrt)
    abs = staticmethod(np_abs)
    absolute = staticmethod(np_abs)
    fabs = staticmethod(np_abs)
    unique = staticmethod(np_unique)
    argsort = staticmethod(np_argsort)
    lexsort = staticmethod(np_lexsort)
    where = staticmethod(np_where)
    arange = staticmethod(np_arange)
    argmax = staticmethod(np_arg(lambda a, b: bool(a > b)))
    argmin = staticmethod(np_arg(lambda a, b: bool(a < b)))
    max = staticmethod(lambda a, axis=None, **k: red(obj(a), axis, lambda xs: fold(smax, xs)))
    min = staticmethod(lambda a, axis=None, **k: red(obj(a), axis, lambda xs: fold(smin, xs)))
    amax = max
    amin = min
    copy = staticmethod(lambda a, **k: arr_from(a))
    reshape = staticmethod(wrapsame(np.reshape))
    transpose = staticmethod(wrapsame(np.transpose))
    ravel = staticmethod(wrapsame(np.ravel))
    delete = staticmethod(wrapsame(np.delete))
    repeat = staticmethod(wrapsame(np.repeat))
    tile = staticmethod(wrapsame(np.tile))
    squeeze = staticmethod(wrapsame(np.squeeze))
    expand_dims = staticmethod(wrapsame(np.expand_dims))
    flip = staticmethod(wrapsame(np.flip))
    roll = staticmethod(wrapsame(np.roll))
    mean = staticmethod(lambda a, axis=None: np_sum(a, axis) / (len(a) if axis == 0 else obj(a).size if axis is None else obj(a).shape[axis]))
    shape = staticmethod(lambda a: arr_from(a).shape)
    ndim = staticmethod(lambda a: arr_from(a).ndim)
    size = staticmethod(lambda a: arr_from(a).size)
    einsum = staticmethod(lambda *a, **k: np_einsum(*a, **k))

    def __init__(self):
        for n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'negative', 'power', 'square', 'equal', 'not_equal',
                  'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or', 'logical_not', 'maximum', 'minimum', 'sign'):
            setattr(self, n, uf(n))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if not hasattr(np, n):
            raise AttributeError("module 'numpy' has no attribute '%s'" % n)
        raise Unsupported('np.%s' % n)


def np_einsum(*a, **k):
    raise Unsupported('einsum')


# ------------------------------------------------------------------ builtins
def sym_int(x=0, *a):
    if hasattr(x, 'number'):
        return x.number('int')
    if isinstance(x, SymArr):
        x = x.reshape(-1)[0] if x.size == 1 else x
    if isinstance(x, Num):
        if x.isint:
            return x if not x.is_const() else int(x.cval()[0])
        if x.is_const():
            return N.ctrunc(x.cval())
        if x.d is None and all(not c[1] and c[0] == int(c[0]) and all(e > 0 and N.AT.kind[k] == 'int' for k, e in m) for m, c in x.n.items()):
            return Num(x.n, None, True)
        raise NonInt('int() of a value not known to be an integer: %s' % N.show(x))
    return int(x, *a)


def sym_float(x=0.0):
    if hasattr(x, 'number'):
        return x.number('float')
    if isinstance(x, Num):
        return x
    if isinstance(x, SymArr) and x.size == 1:
        return x.reshape(-1)[0]
    return float(x)


def sym_len(x):
    if hasattr(x, '__symlen__'):
        return x.__symlen__()
    return len(x)


def sym_abs(x):
    return abs(x)


def sym_range(*a):
    from . import seq
    if any(isinstance(x, Num) and not x.is_const() for x in a):
        return seq.SymRange(*a)
    return range(*[x.__index__() if isinstance(x, Num) else x for x in a])


def sym_round(x, n=None):
    if isinstance(x, Num):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def sym_pow(a, b):
    return a ** b


def sym_sum(xs, start=0):
    if hasattr(xs, '__symseq__'):
        from . import seq
        v = xs.__symseq__()
        return (seq.np_sum(v) if v.ndim == 1 else seq.np_sum(v, 0)) + start
    r = start
    for x in xs:
        r = r + x
    return r


def sym_max(*a, **k):
    key = k.get('key')
    xs = list(a[0]) if len(a) == 1 else list(a)
    r = xs[0]
    for x in xs[1:]:
        if (key(x) > key(r)) if key else (x > r):
            r = x
    return r


def sym_min(*a, **k):
    key = k.get('key')
    xs = list(a[0]) if len(a) == 1 else list(a)
    r = xs[0]
    for x in xs[1:]:
        if (key(x) < key(r)) if key else (x < r):
            r = x
    return r


def sym_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(int if q is sym_int else float if q is sym_float else q for q in ts)
    if isinstance(x, Num):
        if x.isint and any(q in (int, np.integer, np.int64) for q in ts):
            return True
        if not x.isint and any(q in (float, np.floating, np.float64) for q in ts):
            return True
    return isinstance(x, ts)
