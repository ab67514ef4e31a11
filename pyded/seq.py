"""Sequences of symbolic length.

A Dim is a length n (an arbitrary integer >= lo) together with one arbitrary index i, 0 <= i < n.  A SymSeq is an array some of
whose axes are such lengths; what is tracked is its content at the arbitrary index (one slot per symbolic axis).  Whatever is
proved of that slot holds for every index, because the index is a fresh constant about which nothing else is assumed.

Axes are kept as groups of factors: (D,) is an axis of length n, (D,4) an axis of length 4n obtained by merging (n,4).
"""
import itertools
from fractions import Fraction
import numpy as np
from . import num as N, logic, arr
from .num import Num, SymBool, Unsupported, AT, sand, tobool
from .arr import SymArr, mk, base


class Dim:
    def __init__(self, name, lo=0, parent=None):
        c = logic.ctx()
        self.name = name
        self.parent = parent            # the sequence this one was selected from
        self.present = True             # is the arbitrary element of the parent selected (on this path)?
        self.n = logic.fresh('len_' + name, 'int', 'pos' if lo else 'nonneg', ('indep',))
        self.i = logic.fresh('idx_' + name, 'int', 'nonneg', ('slot', parent or self))
        self.forked = False             # a decision was taken about the arbitrary element
        self.spent = False              # the index was specialised (early exit): no further loop over it
        if parent is None:
            c.assume(self.i < self.n)

    def __repr__(self):
        return '<%s>' % self.name


class RepDim(Dim):
    """the positions of a sequence of representatives: every element of the source has exactly one representative with the same key,
    and representatives have different keys.  What is tracked is the representative of the tracked element(s) of the source."""
    def __init__(self, src, key):
        c = logic.ctx()
        sub = c.__dict__.setdefault('subdims', [])
        self.name = 'rep%d' % len(sub)
        self.parent = None
        self.src = tuple(src)
        self.key = key                  # one array of values per tracked slot
        k = glen(src)
        L = logic.fresh('len_' + self.name, 'int', 'pos', ('indep',))
        self.n = L / k if k > 1 else L
        self.i = None
        self.idx = [logic.fresh('idx%d_%s' % (j, self.name), 'int', 'nonneg', ('slot', self)) for j in range(k)]
        self.present = True
        self.forked = any(d.forked for d in gdims(src))
        self.spent = False
        self.group = (self, k) if k > 1 else (self,)
        sub.append(self)
        c.groups.append(self.group)


def roots(d):
    """the lengths whose tracked element a decision about d concerns"""
    out = {d}
    if d.parent is not None:
        out |= roots(d.parent)
    if isinstance(d, RepDim):
        for x in gdims(d.src):
            out |= roots(x)
    return out


def dims():
    c = logic.ctx()
    if not hasattr(c, 'seqdims'):
        c.seqdims = {}
        c.active = []
        c.loops = []
        c.groups = []
    return c.seqdims


def dim(name, lo=0):
    d = dims()
    if name not in d:
        d[name] = Dim(name, lo)
        logic.ctx().soft = True
        logic.ctx().absatoms = True
    return d[name]


def size(f):
    return f.n if isinstance(f, Dim) else f


def gsize(g):
    r = 1
    for f in g:
        r = size(f) * r
    return r


def glen(g):
    """number of tracked slots of a group"""
    r = 1
    for f in g:
        r *= 1 if isinstance(f, Dim) else f
    return r


def gdims(g):
    return [f for f in g if isinstance(f, Dim)]


def same(a, b):
    return Num.of(a).n == Num.of(b).n


def positions(g):
    """tracked (flat position, per-factor index, index expression) of a group"""
    out = []
    for k, idx in enumerate(itertools.product(*[range(1) if isinstance(f, Dim) else range(f) for f in g])):
        if isinstance(g[0], RepDim):
            out.append((k, idx, g[0].idx[k]))
            continue
        e = Num.of(0)
        for f, j in zip(g, idx):
            e = e * size(f) + (f.i if isinstance(f, Dim) else j)
        out.append((k, idx, e))
    return out


def norm_group(g):
    return tuple(g)


class SymSeq:
    """array with symbolic axes; buf has one axis per factor (length 1 for a symbolic factor)"""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, buf, groups):
        self.buf = buf
        self.groups = tuple(tuple(g) for g in groups)

    @property
    def tag(self):
        return self.buf.tag

    @property
    def shape(self):
        return tuple(gsize(g) for g in self.groups)

    @property
    def ndim(self):
        return len(self.groups)

    @property
    def size(self):
        return gsize([f for g in self.groups for f in g])

    @property
    def dtype(self):
        return np.dtype(np.int64 if self.tag in ('int', 'int?') else float)

    def __symlen__(self):
        return gsize(self.groups[0])

    def __len__(self):
        raise Unsupported('length of a sequence of symbolic length')

    def __symseq__(self, dt=None):
        b = mk(np.array(self.buf.view(np.ndarray), dtype=object, copy=True), self.tag)
        if dt is not None:
            b = arr.mkdt(b.view(np.ndarray), dt)
        return SymSeq(b, self.groups)

    def copy(self, *a, **k):
        return self.__symseq__()

    def astype(self, dt, **k):
        return self.__symseq__(dt)

    def flat(self):
        """plain array with one axis per group, tracked slots only"""
        return mk(self.buf.view(np.ndarray).reshape(tuple(glen(g) for g in self.groups)), self.tag)

    # ------------------------------------------------------------ indexing
    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) > len(self.groups) or any(k is Ellipsis or k is None for k in key):
            raise Unsupported('index of a symbolic sequence')
        idx, rest = [], []
        for k, g in zip(key, self.groups):
            if isinstance(k, SymArr) and k.ndim == 0:
                k = k.item()
            if isinstance(k, slice):
                if k == slice(None):
                    idx += [slice(None)] * len(g)
                    rest.append(g)
                    continue
                if len(g) == 1 and not gdims(g):
                    k = arr.fixkey(k)
                    idx.append(k)
                    rest.append((len(range(*k.indices(g[0]))),))
                    continue
                raise Unsupported('slice of a symbolic axis')
            if not isinstance(k, (int, np.integer, Num)) or isinstance(k, bool):
                raise Unsupported('index %s of a symbolic sequence' % type(k).__name__)
            if not gdims(g):
                k = k.__index__()
                n = gsize(g)
                if not -n <= k < n:
                    raise IndexError('index %d is out of bounds for axis of size %d' % (k, n))
                idx += list(np.unravel_index(k % n, g))
                continue
            for _, ix, e in positions(g):
                if same(e, k):
                    idx += list(ix)
                    break
            else:
                raise Unsupported('element %s of a sequence of symbolic length' % (k,))
        rest += list(self.groups[len(key):])
        return tuple(idx), rest

    def __getitem__(self, key):
        ri = repindex(key)
        if ri is not None:
            return representative(self, ri, key)
        idx, rest = self._key(key)
        r = self.buf[idx]
        if any(gdims(g) for g in rest):
            return SymSeq(r, rest)
        if isinstance(r, SymArr):
            return r.reshape(tuple(gsize(g) for g in rest))
        return r

    def __setitem__(self, key, val):
        idx, rest = self._key(key)
        if any(gdims(g) for g in rest):
            if isinstance(val, SymSeq):
                if list(val.groups) != list(rest):
                    raise Unsupported('assignment between different lengths')
                val = val.buf
            elif isinstance(val, (np.ndarray, list, tuple)):
                raise Unsupported('assignment to a symbolic slice')
        else:
            if isinstance(val, SymSeq):
                raise Unsupported('sequence stored in an element')
            t = self.buf[idx]
            if isinstance(t, SymArr) and isinstance(val, (np.ndarray, list, tuple)):
                V = arr.arr_from(val)
                full = tuple(gsize(g) for g in rest)
                if V.shape != full:
                    V = mk(np.broadcast_to(V.view(np.ndarray), full), V.tag)
                val = V.reshape(t.shape)
        self.buf[idx] = val

    def __iter__(self):
        if gdims(self.groups[0]):
            raise Unsupported('iteration over a sequence of symbolic length')
        for i in range(gsize(self.groups[0])):
            yield self[i]

    def __symenum__(self, start=0):
        return SymEnum(self, start)

    # ------------------------------------------------------------ iteration by the loop rule
    def sym_group(self):
        return self.groups[0]

    def sym_item(self, idx, e):
        r = self.buf[idx]
        rest = self.groups[1:]
        if any(gdims(g) for g in rest):
            return SymSeq(r, rest)
        return r.reshape(tuple(gsize(g) for g in rest)) if isinstance(r, SymArr) and rest else r

    # ------------------------------------------------------------ shape
    def reshape(self, *sh, **k):
        if k:
            raise Unsupported('reshape options')
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        fac = [f for g in self.groups for f in g]
        neg = [i for i, s in enumerate(sh) if not isinstance(s, Num) and int(s) == -1]
        if len(neg) > 1:
            raise ValueError('can only specify one unknown dimension')
        if neg:
            i = neg[0]
            pre, fac1 = take(sh[:i], list(fac))
            post, fac2 = take([s for s in reversed(sh[i + 1:])], list(reversed(fac1)))
            mid = tuple(reversed(fac2))
            groups = pre + [mid] + [tuple(reversed(g)) for g in reversed(post)]
        else:
            groups, rest = take(sh, list(fac))
            if any(f != 1 for f in rest):
                raise Unsupported('reshape of a symbolic sequence')
        bsh = [1 if isinstance(f, Dim) else f for g in groups for f in g]
        b = mk(self.buf.view(np.ndarray).reshape(bsh), self.tag)
        for g in groups:
            if len(g) > 1 and gdims(g):
                logic.ctx().groups.append(g)
        return SymSeq(b, groups)

    # ------------------------------------------------------------ arithmetic
    def _bin(self, o, name, swap=False):
        if o is None and name in ('equal', 'not_equal'):
            return NoneTest(self, name == 'not_equal')
        f = arr._OPS[name]
        if isinstance(o, SymSeq):
            if o.groups == self.groups:
                b = o.buf.view(np.ndarray)
            elif len(o.groups) < len(self.groups) and o.groups == self.groups[len(self.groups) - len(o.groups):]:
                b = o.buf.view(np.ndarray)
            else:
                raise Unsupported('arithmetic between different lengths')
            tg = o.tag
        elif isinstance(o, (np.ndarray, list, tuple)):
            O = arr.arr_from(o)
            tail = self.groups[len(self.groups) - O.ndim:]
            if any(gdims(g) or len(g) > 1 for g in tail) or O.ndim > len(self.groups):
                raise Unsupported('broadcast over a symbolic axis')
            b = base(O)
            tg = O.tag
        else:
            b = arr.wrap_scalar(o)
            tg = arr.gtag(o)
        a = self.buf.view(np.ndarray)
        r = f(b, a) if swap else f(a, b)
        tags = [self.tag, tg]
        t = 'bool' if name in arr.BOOLS else ('float' if name in arr.FLOATS or 'float' in tags else ('int?' if 'int?' in tags else 'int'))
        if r.shape != a.shape:
            raise Unsupported('broadcast')
        return SymSeq(mk(r, t), self.groups)

    def _un(self, name):
        r = arr._OPS[name](self.buf.view(np.ndarray))
        return SymSeq(mk(r, 'float' if name in arr.FLOATS else self.tag), self.groups)

    def __neg__(self):
        return self._un('negative')

    def __abs__(self):
        return self._un('absolute')

    def sum(self, axis=None, **k):
        return np_sum(self, axis)

    def all(self, *a, **k):
        raise Unsupported('all() over a symbolic sequence')

    any = all

    def __bool__(self):
        raise Unsupported('truth of a symbolic sequence')

    def __repr__(self):
        return 'SymSeq%s' % (self.groups,)


class NoneTest:
    """sequence == None: False (or True for !=) at every element"""
    def __init__(self, s, val):
        self.s, self.val = s, val

    def all(self, *a, **k):
        return tobool(True) if self.val else tobool(Num.of(self.s.size) == 0)

    def any(self, *a, **k):
        return ~tobool(Num.of(self.s.size) == 0) if self.val else tobool(False)

    def __bool__(self):
        raise Unsupported('truth of a symbolic sequence')


def _install():
    for d, n in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'divide'), ('floordiv', 'floor_divide'), ('mod', 'remainder'), ('pow', 'power')):
        setattr(SymSeq, '__%s__' % d, lambda s, o, n=n: s._bin(o, n))
        setattr(SymSeq, '__r%s__' % d, lambda s, o, n=n: s._bin(o, n, True))
    for d, n in (('eq', 'equal'), ('ne', 'not_equal'), ('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'), ('ge', 'greater_equal')):
        setattr(SymSeq, '__%s__' % d, lambda s, o, n=n: s._bin(o, n))
    SymSeq.__hash__ = None


_install()


def take(sizes, fac):
    """split the factor list into groups of the given sizes"""
    groups = []
    for s in sizes:
        g = []
        cur = Num.of(1)
        s = Num.of(s)
        while not same(cur, s):
            if not fac:
                raise Unsupported('reshape of a symbolic sequence')
            f = fac.pop(0)
            nxt = cur * size(f)
            if not isinstance(f, Dim) and s.is_const() and nxt.cval()[0] > s.cval()[0]:
                need = Fraction(s.cval()[0]) / cur.cval()[0]
                if need.denominator != 1 or f % int(need):
                    raise Unsupported('reshape of a symbolic sequence')
                fac.insert(0, f // int(need))
                f = int(need)
                nxt = cur * f
            if isinstance(f, Dim) and s.is_const():
                raise Unsupported('reshape of a symbolic axis to a fixed length')
            if not (not isinstance(f, Dim) and f == 1):
                g.append(f)
            cur = nxt
        ints = [f for f in g if not isinstance(f, Dim)]
        if len(ints) == len(g) and len(g) > 1:
            p = 1
            for f in g:
                p *= f
            g = [p]
        groups.append(tuple(g) if g else (1,))
    return groups, fac


def wrap(flat, groups, tag=None):
    """plain array with one axis per group -> SymSeq (or the array itself when nothing is symbolic)"""
    if isinstance(flat, Num) or not any(gdims(g) for g in groups):
        return flat
    b = flat.view(np.ndarray) if isinstance(flat, np.ndarray) else flat
    sh = [1 if isinstance(f, Dim) else f for g in groups for f in g]
    return SymSeq(mk(b.reshape(sh), tag or getattr(flat, 'tag', 'float')), groups)


def is_seq(x):
    return isinstance(x, SymSeq)


def sym_shape(shape):
    if isinstance(shape, Num):
        return not shape.is_const()
    if isinstance(shape, (list, tuple)):
        return any(isinstance(s, Num) and not s.is_const() for s in shape)
    return False


def group_of(p):
    """factors of a symbolic length expression"""
    p = Num.of(p)
    c = logic.ctx()
    cand = [g for g in getattr(c, 'groups', []) if same(gsize(g), p)]
    if cand:
        if any(g != cand[0] for g in cand):
            raise Unsupported('ambiguous length')
        return cand[0]
    for d in list(dims().values()) + [x for x in getattr(c, 'subdims', [])]:
        if same(d.n, p):
            return (d,)
    if p.d is None and len(p.n) == 1:
        (m, cc), = p.n.items()
        if cc[1] == 0 and type(cc[0]) is int and cc[0] > 0 and len(m) == 1 and m[0][1] == 1:
            for d in list(dims().values()):
                if d.n.n == {m: (1, 0)}:
                    return (d, cc[0])
    raise Unsupported('symbolic length %s' % N.show(p))


def zeros(shape, dtype=None):
    if not isinstance(shape, (list, tuple)):
        shape = (shape,)
    groups = []
    for s in shape:
        if isinstance(s, Num) and not s.is_const():
            groups.append(group_of(s))
        else:
            groups.append((int(s),))
    sh = [1 if isinstance(f, Dim) else f for g in groups for f in g]
    o = np.empty(sh, dtype=object)
    o.fill(Num.of(0))
    return SymSeq(mk(o, arr.dtname(dtype) or 'float'), groups)


# ---------------------------------------------------------------------------- representatives
def unique(a, axis, return_index=False, **k):
    """np.unique(a, axis=0) of a sequence: one representative per distinct row (order abstracted)"""
    if axis != 0 or any(k.values()) or not isinstance(a, SymSeq) or any(gdims(g) for g in a.groups[1:]):
        raise Unsupported('unique of a symbolic sequence')
    g = a.groups[0]
    if not gdims(g):
        raise Unsupported('unique of a symbolic sequence')
    if any(x.spent for d in gdims(g) for x in roots(d)):
        raise Unsupported('unique after an early exit')
    f = a.flat().view(np.ndarray)
    rep = RepDim(g, [f[j].copy() for j in range(len(f))])
    u = SymSeq(mk(f.copy().reshape([1 if isinstance(x, Dim) else x for gg in (rep.group,) + a.groups[1:] for x in gg]), a.tag), (rep.group,) + a.groups[1:])
    logic.ctx().notes.append('np.unique order abstracted')
    if not return_index:
        return u
    ix = np.empty(len(f), dtype=object)
    tab = logic.ctx().__dict__.setdefault('repindex', {})
    for j in range(len(f)):
        ix[j] = logic.fresh('ri%d_%s' % (j, rep.name), 'int', 'nonneg', ('slot', rep))
        tab[logic.nkey(ix[j])] = (g, j, rep)
    return (u, SymSeq(mk(ix.reshape([1 if isinstance(x, Dim) else x for x in rep.group]), 'int'), (rep.group,)))


def repindex(key):
    if isinstance(key, SymArr) and key.ndim == 0:
        key = key.item()
    if not isinstance(key, Num) or isinstance(key, N.AbsNum):
        return None
    return logic.ctx().__dict__.get('repindex', {}).get(logic.nkey(key))


def representative(s, ri, key):
    """the element of s at the index of a representative: an element with the same key as the tracked one"""
    src, j, rep = ri
    if s.groups[0] != src:
        raise Unsupported('index of a representative used on another sequence')
    x = s.flat().view(np.ndarray)[j]
    k = rep.key[j]
    if x.shape == k.shape and all(same(a, b) and Num.of(a).d == Num.of(b).d for a, b in zip(x.reshape(-1), k.reshape(-1))):
        return mk(x.copy(), s.tag)
    memo = logic.ctx().__dict__.setdefault('repmemo', {})
    mk_ = (logic.nkey(key), tuple(logic.nkey(Num.of(v)) for v in x.reshape(-1)))
    if mk_ in memo:
        return mk(memo[mk_].copy(), s.tag)
    X, K = trip_values(x), trip_values(k)
    if X is None or K is None:
        raise Unsupported('representative of a sequence that is not made of canonical triples')
    xs, ks = list(X.reshape(-1)), list(K.reshape(-1))
    at = []
    for v in xs:
        m = list(v.n.items())
        if v.d is not None or len(m) != 1 or m[0][1] != (1, 0) or len(m[0][0]) != 1 or m[0][0][0][1] != 1:
            raise Unsupported('representative of computed elements')
        at.append(m[0][0][0][0])
    rows = []
    for v in ks:
        if v.d is not None:
            raise Unsupported('key of a representative')
        row = [Num.of(0)] * len(at)
        for m, cc in v.n.items():
            if len(m) != 1 or m[0][1] != 1 or m[0][0] not in at:
                raise Unsupported('key of a representative is not linear')
            row[at.index(m[0][0])] = Num.const(cc)
        rows.append(row)
    out = list(xs)
    for n, vec in enumerate(kernel(rows, len(at))):
        t = logic.fresh('t%d_%s_%d' % (n, rep.name, j), 'real', None, ('rep', rep))
        out = [a + t * b for a, b in zip(out, vec)]
    res = np.empty(x.shape, dtype=object)
    fl = res.reshape(-1, 3)
    for i, v in enumerate(out):
        for q, z in enumerate(logic.canon(v)):
            fl[i, q] = z
    memo[mk_] = fl.reshape(x.shape)
    logic.ctx().__dict__.setdefault('members', {})[tuple(logic.nkey(v) for v in out)] = tuple(logic.nkey(v) for v in xs)
    return mk(memo[mk_].copy(), s.tag)


def trip_values(x):
    from .loops import canonical
    if x.ndim < 1 or x.shape[-1] != 3:
        return None
    rows = x.reshape(-1, 3)
    if not all(canonical(t) for t in rows):
        return None
    out = np.empty(len(rows), dtype=object)
    for i, t in enumerate(rows):
        out[i] = logic.tripval(t)
    return out


def kernel(rows, n):
    """basis of the kernel of a constant matrix over Q(sqrt D)"""
    M = [list(r) for r in rows]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(M)) if M[i][c].n), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        iv = Num.of(1) / M[r][c]
        M[r] = [x * iv for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c].n:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    out = []
    for c in range(n):
        if c not in piv:
            v = [Num.of(0)] * n
            v[c] = Num.of(1)
            for i, pc in enumerate(piv):
                v[pc] = -M[i][c]
            out.append(v)
    return out


def bigmax(init, fs, g):
    """max of init and of all fs over the group: opaque, determined by the set of values"""
    ds = gdims(g)
    while len(ds) == 1 and isinstance(ds[0], RepDim):
        if ds[0].spent:
            raise Unsupported('maximum after an early exit')
        ds = gdims(ds[0].src)               # representatives take the same values as their source
    if len(ds) != 1 or ds[0].parent is not None or ds[0].forked or ds[0].spent:
        raise Unsupported('maximum over a selection')
    d = ds[0]
    vals = {}
    for f in fs:
        f = Num.of(f)
        if deps(f) - {d}:
            raise Unsupported('maximum of a value that depends on the choice of a representative')
        vals[logic.nkey(f)] = f
    init = Num.of(init)
    memo = logic.ctx().__dict__.setdefault('maxes', {})
    k = (d.name, logic.nkey(init), frozenset(vals))
    if k not in memo:
        memo[k] = logic.fresh('max%d_%s' % (len(memo), d.name), 'real', 'nonneg' if logic.prove(init >= 0, 500)[0] == 'proved' else None, ('indep',))
    return memo[k]


def maxstep(x, a):
    """max(x, a) for the step  if a > x: x = a"""
    if isinstance(x, MaxAcc):
        return MaxAcc(x.acc, x.vals + [a])
    if isinstance(x, Num) and not isinstance(x, N.AbsNum) and len(x.n) == 1:
        (m, cc), = x.n.items()
        if cc == (1, 0) and len(m) == 1 and m[0][1] == 1 and AT.info[m[0][0]] and AT.info[m[0][0]][0] == 'havoc':
            return MaxAcc(x, [a])
    return a if a > x else x


class MaxAcc:
    """max of the accumulator of a running loop and further values; usable only as the accumulator"""
    __hash__ = None
    __array_ufunc__ = None

    def __init__(self, acc, vals):
        self.acc, self.vals = acc, vals

    def _bad(self, *a, **k):
        raise Unsupported('running maximum used inside the loop')
    __bool__ = __len__ = __iter__ = __getitem__ = __call__ = __index__ = __int__ = __float__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _bad
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _bad


class SymRange:
    def __init__(self, *a):
        if len(a) == 1:
            a = (0, a[0])
        if len(a) == 3:
            if Num.of(a[2]).n != Num.of(1).n:
                raise Unsupported('symbolic range with a step')
            a = a[:2]
        self.start = Num.of(a[0])
        if not self.start.is_const():
            raise Unsupported('symbolic range with a symbolic start')
        self.stop = Num.of(a[1])
        self.n = self.stop - self.start
        self.g = group_of(self.n)

    def sym_group(self):
        return self.g

    def sym_item(self, idx, e):
        e = self.start + e
        return Num(e.n, e.d, True)

    def __symlen__(self):
        return Num(self.n.n, self.n.d, True)

    def __symenum__(self, start=0):
        return SymEnum(self, start)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range')

    def __symlist__(self):
        raise Unsupported('list of a symbolic range')


class SymEnum:
    def __init__(self, s, start=0):
        self.s, self.start = s, start

    def sym_group(self):
        return self.s.sym_group()

    def sym_item(self, idx, e):
        i = e + self.start
        return (Num(i.n, i.d, True), self.s.sym_item(idx, e))

    def __iter__(self):
        if not isinstance(self.s, SymRange) and not gdims(self.s.sym_group()):
            return iter([(i + self.start, x) for i, x in enumerate(self.s)])
        raise Unsupported('iteration over a symbolic sequence')

    def __symenum__(self, start=0):
        return SymEnum(self, start)


class SymZip:
    def __init__(self, *a):
        self.a = a

    def sym_group(self):
        gs = [x.sym_group() if hasattr(x, 'sym_group') else None for x in self.a]
        if any(g != gs[0] for g in gs):
            raise Unsupported('zip of different lengths')
        return gs[0]

    def sym_item(self, idx, e):
        return tuple(x.sym_item(idx, e) for x in self.a)

    def __symenum__(self, start=0):
        return SymEnum(self, start)

    def __iter__(self):
        g = self.sym_group()
        if gdims(g):
            raise Unsupported('iteration over a symbolic sequence')
        return zip(*self.a)


def sym_zip(*a):
    return SymZip(*a)


class SymList:
    """list built by a loop: one element (or k of them) per index"""
    def __init__(self, group, items):
        self.group, self.items = group, items

    def __symlen__(self):
        return gsize(self.group)

    def __len__(self):
        raise Unsupported('length of a symbolic list')

    def __bool__(self):
        return bool(gsize(self.group) != 0)

    def sym_group(self):
        return self.group

    def _at(self, idx):
        k = 0
        for f, j in zip(self.group, idx):
            k = k * (1 if isinstance(f, Dim) else f) + j
        return self.items[k]

    def sym_item(self, idx, e):
        return self._at(idx)

    def __getitem__(self, k):
        if isinstance(k, SymArr) and k.ndim == 0:
            k = k.item()
        if isinstance(k, (int, np.integer, Num)):
            for _, ix, e in positions(self.group):
                if same(e, k):
                    return self._at(ix)
        raise Unsupported('element of a symbolic list')

    def __symenum__(self, start=0):
        return SymEnum(self, start)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic list')

    def __symseq__(self, dt=None):
        its = self.items
        if not its:
            raise Unsupported('array of an unselected element')
        if all(isinstance(x, SymSeq) for x in its):
            if any(x.groups != its[0].groups for x in its):
                raise Unsupported('ragged list')
            b = np.stack([x.buf.view(np.ndarray) for x in its])
            tail = list(its[0].groups)
            tag = its[0].tag
        else:
            A = arr.arr_from(list(its), dt)
            b, tail, tag = A.view(np.ndarray), [(k,) for k in A.shape[1:]], A.tag
        sh = [1 if isinstance(f, Dim) else f for g in [self.group] + tail for f in g]
        r = SymSeq(mk(np.array(b, dtype=object).reshape(sh), tag), [self.group] + tail)
        return r.__symseq__(dt) if dt is not None else r

    def append(self, x):
        raise Unsupported('append to a symbolic list')

    extend = append


def array_of(x, dt=None):
    """array of a python list containing sequences: list axis is concrete"""
    its = [y if isinstance(y, SymSeq) else arr.arr_from(y) for y in x]
    if not all(isinstance(y, SymSeq) for y in its) or any(y.groups != its[0].groups for y in its):
        raise Unsupported('array of mixed sequences')
    b = np.stack([y.buf.view(np.ndarray) for y in its])
    r = SymSeq(mk(b, its[0].tag), ((len(its),),) + its[0].groups)
    return r.__symseq__(dt) if dt is not None else r


def np_cat(f, xs, **k):
    raise Unsupported('concatenation of symbolic sequences')


def np_append(a, v, axis):
    raise Unsupported('append of symbolic sequences')


# ---------------------------------------------------------------------------- sums over an arbitrary length
UNKNOWN = object()


def deps(x, seen=None):
    """symbolic indices the value depends on (a set of Dim), or UNKNOWN in it"""
    x = Num.of(x)
    out = set()
    if isinstance(x, N.AbsNum):
        return deps(x.x)
    for p in (x.n, x.d or {}):
        for m in p:
            for k, _ in m:
                out |= atom_deps(k)
    return out


def atom_deps(k):
    c = logic.ctx()
    memo = c.__dict__.setdefault('depmemo', {})
    if k in memo:
        return memo[k]
    info = AT.info[k]
    r = None
    if k in c.__dict__.get('slotatoms', {}):
        r = frozenset(c.slotatoms[k])
    elif info is None:
        r = frozenset() if k < getattr(c, 'nbase', 0) else frozenset([UNKNOWN])
    elif info[0] == 'slot':
        r = frozenset([info[1]])
    elif info[0] == 'indep':
        r = frozenset()
    elif info[0] == 'fun':
        r = frozenset().union(*[deps(v) for v in info[1]])
    elif info[0] in ('tripB', 'tripD', 'sqrt', 'abs'):
        r = frozenset(deps(info[1]))
    elif info[0] == 'gcd':
        r = frozenset().union(*[deps(v) for v in info[1]])
    elif info[0] == 'sum':
        r = frozenset(info[1])
    elif info[0] == 'havoc':
        r = frozenset([info[1]])
    else:
        r = frozenset([UNKNOWN])
    memo[k] = r
    return r


def matpow(A, k):
    """k-th power of a square matrix (array of Num), k a symbolic exponent >= 1: one opaque value per entry, determined by A and k"""
    A = np.asarray(A, dtype=object)
    c = logic.ctx()
    memo = c.__dict__.setdefault('matpows', {})
    xs = [Num.of(x) for x in A.reshape(-1)]
    key = (A.shape, tuple(logic.nkey(x) for x in xs), logic.nkey(Num.of(k)))
    if key not in memo:
        isint = all(x.isint or (x.is_const() and x.cval()[1] == 0 and Fraction(x.cval()[0]).denominator == 1) for x in xs)
        out = np.empty(A.shape, dtype=object)
        for idx in np.ndindex(*A.shape):
            out[idx] = logic.fresh('pow%d_%d%d' % ((len(memo),) + idx), 'int' if isint else 'real', None, ('fun', xs + [Num.of(k)]))
        memo[key] = out
    return memo[key].copy()


def bigsum(d, x):
    """sum over 0 <= i < d.n of the value x (given at the arbitrary index of d); linear, with opaque sums of monomials"""
    if isinstance(d, RepDim):
        raise Unsupported('sum over representatives')
    x = Num.of(x)
    if isinstance(x, N.AbsNum):
        x = x.force()
    if x.d is not None:
        ds = deps(Num(x.d, None))
        if d in ds or UNKNOWN in ds:
            dd = deps(x)
            if UNKNOWN in dd:
                raise Unsupported('sum of a term of unknown dependence')
            return sumatom(d, ('frac', logic.nkey(x)), dd - {d})
        return bigsum(d, Num(x.n, None)) / Num(x.d, None)
    total = Num.of(0)
    for m, cc in x.n.items():
        ind, dep, dd = [], [], set()
        for k, e in m:
            a = atom_deps(k)
            if UNKNOWN in a or any(not isinstance(z, Dim) for z in a):
                raise Unsupported('sum of a term of unknown dependence')
            if d in a:
                dep.append((k, e))
                dd |= a
            else:
                ind.append((k, e))
        t = Num({tuple(ind): cc}, None)
        if not dep:
            total = total + t * d.n
        else:
            total = total + t * sumatom(d, tuple(dep), dd - {d})
    return total


def sumatom(d, key, rest):
    """the sum over d of the monomial key;  sums of sums are one sum over several lengths, whatever the order"""
    c = logic.ctx()
    memo = c.__dict__.setdefault('sums', {})
    ds = frozenset([d])
    inner = [k for k, e in key if AT.info[k] and AT.info[k][0] == 'sum'] if key[0] != 'frac' else []
    if len(inner) == 1 and dict(key)[inner[0]] == 1:
        _, _, ds2, key2 = AT.info[inner[0]]
        others = tuple((k, e) for k, e in key if k != inner[0])
        if d not in ds2 and key2[0] != 'frac' and not any(atom_deps(k) & ds2 for k, _ in others):
            key = N.mmul(tuple(sorted(others)), key2)
            ds = ds2 | ds
    if (ds, key) not in memo:
        memo[(ds, key)] = AT.new('sum%d_%s' % (len(memo), '_'.join(sorted(x.name for x in ds))), 'real', None, ('sum', frozenset(rest), ds, key))
    return Num.atom(memo[(ds, key)])


def gtotal(xs, g):
    """sum over a whole group, xs: the tracked slot values in order"""
    s = Num.of(0)
    for x in xs:
        s = s + Num.of(x)
    for d in gdims(g):
        if d.forked:
            raise Unsupported('sum after a decision about the arbitrary element')
        s = bigsum(d, s)
    return s


def total(v, g, axis=0):
    """specification-level sum of an object array (one axis per group) along the axis that stands for group g"""
    V = np.moveaxis(np.asarray(v, dtype=object), axis, -1)
    if V.ndim == 1:
        return gtotal(list(V), g)
    out = np.empty(V.shape[:-1], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = gtotal(list(V[idx]), g)
    return out


def np_sum(a, axis=None):
    f = a.flat()
    gs = list(a.groups)
    v = f.view(np.ndarray)
    if axis is None:
        while v.ndim > 1:
            v = total(v, gs.pop(0), 0)
        return gtotal(list(v), gs[0])
    ax = axis % v.ndim
    if v.ndim == 1:
        return gtotal(list(v), gs[0])
    r = total(v, gs[ax], ax)
    del gs[ax]
    return wrap(mk(r, a.tag), gs, a.tag)


def la_norm(a):
    v = a.flat().view(np.ndarray)
    gs = list(a.groups)
    t = np.empty(v.shape, dtype=object)
    for idx in np.ndindex(*v.shape):
        x = arr.N_(v[idx])
        t[idx] = x * x
    return root(np_sum(SymSeq(mk(t, 'float'), a.groups) if len(a.groups) == len(a.buf.shape) else wrap(mk(t, 'float'), gs)))


def root(s):
    """square root of a sum of squares"""
    s = Num.of(s)
    s = Num(s.n, s.d, False)
    s.tag = 'sos'
    return logic.sqrt(s)


def np_dot(a, b):
    """product over a fixed axis; the symbolic axes are carried along"""
    ga = list(a.groups) if isinstance(a, SymSeq) else None
    gb = list(b.groups) if isinstance(b, SymSeq) else None
    A = a.flat() if ga else arr.arr_from(a)
    B = b.flat() if gb else arr.arr_from(b)
    ga = ga or [(k,) for k in A.shape]
    gb = gb or [(k,) for k in B.shape]
    if len(ga) > 2 or len(gb) > 2 or not ga or not gb:
        raise Unsupported('dot of symbolic sequences')
    if ga[-1] != gb[0]:
        raise Unsupported('dot of different lengths')
    if gdims(gb[0]):
        X = A.view(np.ndarray).reshape((-1, A.shape[-1]))
        Y = B.view(np.ndarray).reshape((B.shape[0], -1))
        r = np.empty((X.shape[0], Y.shape[1]), dtype=object)
        for i in range(X.shape[0]):
            for j in range(Y.shape[1]):
                r[i, j] = gtotal([arr.N_(X[i, t]) * arr.N_(Y[t, j]) for t in range(X.shape[1])], gb[0])
        gs = ga[:-1] + gb[1:]
        if not gs:
            return r[0, 0]
        t = 'float' if 'float' in (A.tag, B.tag) else 'int?'
        return wrap(mk(r.reshape([glen(g) for g in gs]), t), gs)
    return wrap(arr.np_dot(A, B), ga[:-1] + gb[1:])


def groups_of(a):
    """axis groups of a spec argument, without the final triple axis"""
    return tuple(a.groups) if isinstance(a, SymSeq) else tuple((k,) for k in base(a).shape)


def plain(a):
    return a.flat() if isinstance(a, SymSeq) else a


def lead(a):
    """leading groups of a up to the last symbolic one"""
    k = max(i for i, g in enumerate(a.groups) if gdims(g)) + 1
    return list(a.groups[:k])


def lifted(spec, args, lift, kw=None):
    """apply an element-wise specification to the tracked slots and give the result the lengths of the arguments"""
    r = spec(*[plain(a) for a in args], **(kw or {}))
    if lift is True or lift == 'map':
        gs = lead(next(a for a in args if isinstance(a, SymSeq)))
    else:
        gs = lift(*args)
    return regroup(r, gs)


def regroup(r, gs):
    if r is None:
        return None
    if r.kind == 'tuple':
        for x in r.val:
            regroup(x, gs)
        return r
    if r.kind in ('none', 'any'):
        return r
    if r.kind not in ('trips', 'real', 'exact'):
        raise Unsupported('lifting of a %s result' % r.kind)
    V = np.asarray(r.val, dtype=object)
    if tuple(V.shape[:len(gs)]) != tuple(glen(g) for g in gs):
        raise Unsupported('lifting: shape %s, lengths %s' % (V.shape, gs))
    r.kw['groups'] = list(gs) + [(k,) for k in V.shape[len(gs):]]
    return r


def stub_value(r, v):
    """value of a contracted call, v: the plain stub value"""
    gs = list(r.kw['groups'])
    if r.kind == 'trips':
        gs = gs + [(3,)]
    return wrap(v, gs, v.tag)


def obligations(r, res, out, nm):
    from .core import Obl, obligations as ob, R
    gs = r.kw.get('groups')
    if r.kind == 'filter':
        return filter_obligations(r, res, out, nm)
    if r.kind == 'dedup':
        return dedup_obligations(r, res, out, nm)
    if gs is None or not any(gdims(g) for g in gs):
        raise Unsupported('a sequence of symbolic length was returned')
    if r.kind == 'trips':
        gs = list(gs) + [(3,)]
    if not isinstance(res, SymSeq):
        if hasattr(res, '__symseq__'):
            res = res.__symseq__()
        else:
            out.append(Obl(nm + 'shape', 'suspect', 'shape', {}, 'a sequence of the length of the argument is expected'))
            return
    if [tuple(g) for g in gs] != list(res.groups):
        ok = len(gs) == len(res.groups) and all(same(gsize(a), gsize(b)) for a, b in zip(gs, res.groups))
        out.append(Obl(nm + 'shape', 'unknown' if ok else 'suspect', 'shape', {}, 'lengths %s expected %s' % (res.groups, gs)))
        return
    if any(d.spent == 'exit' for g in gs for d in gdims(g)):
        raise Unsupported('result over a length whose index was specialised')
    r2 = R(r.kind, r.val, **{k: v for k, v in r.kw.items() if k != 'groups'})
    out.append(Obl(nm + 'length', 'proved', 'shape'))
    ob(r2, res.flat(), out, nm + 'at every index: ')


def exists(g, cond):
    """does some index of the length have the property?  cond(): the property at the tracked index.
    A loop that stopped at the tracked index shows a witness; a loop that never stopped leaves the index arbitrary, so refuting the
    property there refutes it everywhere.  Without such a loop the question is not answered."""
    ds = gdims(g)
    if len(ds) != 1 or len(g) != 1:
        raise Unsupported('existence over a product of lengths')
    d = ds[0]
    c = tobool(cond())
    if d.spent == 'exit':
        if logic.prove(c, 2000)[0] == 'proved':
            return N.TRUE
        raise Unsupported('the loop stopped at an element without the property')
    if c.op == 'false' or logic.prove(~c, 2000)[0] == 'proved':
        return N.FALSE
    raise Unsupported('existence over a symbolic length')


def filtered(cond, val, groups):
    """specification: the elements with the property cond, in order; val: the triples of the tracked element"""
    from .core import R
    return R('filter', val, cond=cond, groups=groups)


def filter_obligations(r, res, out, nm):
    from .core import Obl, obligations as ob, check, trips
    gs = r.kw['groups']
    if not isinstance(res, SymSeq):
        out.append(Obl(nm + 'shape', 'suspect', 'shape', {}, 'a sequence is expected'))
        return
    (d,) = gs[0]
    if len(res.groups[0]) != 1 or [tuple(g) for g in res.groups[1:]] != [tuple(g) for g in gs[1:]] + [(3,)]:
        out.append(Obl(nm + 'shape', 'suspect', 'shape', {}, 'shape %s' % (res.groups,)))
        return
    e, = res.groups[0]
    if e is d:
        here = True
    elif isinstance(e, Dim) and e.parent is d:
        here = e.present
    else:
        raise Unsupported('a sequence of another length')
    if d.spent == 'exit':
        raise Unsupported('result over a length whose index was specialised')
    c = tobool(r.kw['cond'])
    if here:
        check(nm + 'an element that is kept has to be kept', c, out)
        ob(trips(r.val), res.flat()[0], out, nm + 'the kept element ')
    else:
        check(nm + 'an element that is left out has to be left out', ~c, out)


def dedup(seqarg, key, ker):
    """specification: representatives of the vectors of seqarg under `key` (values of a vector -> values), ker: basis of the differences
    of vectors with the same key"""
    from .core import R
    f = seqarg.flat().view(np.ndarray)
    gs = seqarg.groups
    fac = tuple(x for g in gs[:-2] for x in g)
    return R('dedup', f.reshape((-1,) + f.shape[-2:]), key=key, ker=ker, groups=[fac, gs[-2], gs[-1]])


def dedup_stub(r):
    fac = r.kw['groups'][0]
    V = r.val
    def keyrow(v):
        ks = r.kw['key'](np.array([logic.tripval(t) for t in v], dtype=object))
        return np.array([list(logic.canon(Num.of(k))) for k in ks], dtype=object)
    rep = RepDim(fac, [keyrow(v) if r.kw['ker'] else v.copy() for v in V])
    out = np.empty(V.shape, dtype=object)
    for j, v in enumerate(V):
        xs = [logic.tripval(t) for t in v]
        x0 = tuple(logic.nkey(x) for x in xs)
        if not r.kw['ker']:
            out[j] = v
            continue
        for n, vec in enumerate(r.kw['ker']):
            t = logic.fresh('t%d_%s_%d' % (n, rep.name, j), 'real', None, ('rep', rep))
            xs = [a + t * b for a, b in zip(xs, vec)]
        logic.ctx().__dict__.setdefault('members', {})[tuple(logic.nkey(x) for x in xs)] = x0
        for i, x in enumerate(xs):
            for q, z in enumerate(logic.canon(x)):
                out[j, i, q] = z
    return SymSeq(mk(out.reshape([1 if isinstance(x, Dim) else x for x in rep.group] + list(V.shape[1:])), 'int'), (rep.group, (V.shape[1],), (3,)))


def dedup_obligations(r, res, out, nm):
    from .core import Obl, check
    if not isinstance(res, SymSeq) or len(res.groups) != 3 or list(res.groups[1:]) != list(r.kw['groups'][1:]):
        out.append(Obl(nm + 'shape', 'suspect', 'shape', {}, 'a set of vectors is expected'))
        return
    g = res.groups[0]
    d = g[0]
    if not isinstance(d, RepDim) or g != d.group:
        raise Unsupported('a set of representatives is expected')
    src = d.src
    while isinstance(src[0], RepDim) and src == src[0].group:
        src = src[0].src
    if tuple(src) != tuple(r.kw['groups'][0]):
        raise Unsupported('representatives of another sequence')
    if any(x.spent for x in roots(d)):
        raise Unsupported('result over a length whose index was specialised')
    R_ = res.flat().view(np.ndarray)
    V = r.val
    out.append(Obl(nm + 'one representative per tracked vector', 'proved', 'shape'))
    for j in range(len(V)):
        rv, vv = trip_values(R_[j]), trip_values(V[j])
        kd = trip_values(d.key[j].reshape(-1, 3)) if d.key[j].size % 3 == 0 else None
        if rv is None or vv is None or kd is None:
            raise Unsupported('representatives that are not canonical triples')
        member = all(same(a, b) for a, b in zip(rv, vv)) or logic.ctx().__dict__.get('members', {}).get(tuple(logic.nkey(x) for x in rv)) == tuple(logic.nkey(x) for x in vv)
        out.append(Obl(nm + 'nothing else [%d]' % j, 'proved' if member else 'unknown', 'member of the argument'))
        kr, kv = r.kw['key'](rv), r.kw['key'](vv)
        for a, b in zip(kr, kv):
            check(nm + 'represented [%d]' % j, Num.of(a) == Num.of(b), out)
        if len(kr) != len(kd):
            raise Unsupported('representatives under another key')
        for a, b in zip(kr, kd):
            check(nm + 'no two equal [%d]' % j, Num.of(a) == Num.of(b), out)


# ---------------------------------------------------------------------------- input kinds
class SeqKind:
    """array of triples with symbolic axes.  axes: a name (an arbitrary length), 'name+' (at least one) or an integer"""
    def __init__(self, *axes, mode='val', real=False, ints=False):
        self.axes = axes
        self.mode = mode
        self.real = real
        self.ints = ints

    def inner(self, shape):
        from .core import Trips, Reals, Ints
        if self.ints:
            return Ints(*shape)
        return Reals(*shape) if self.real else Trips(*shape, mode=self.mode)

    def sym(self, name):
        groups = []
        for a in self.axes:
            if isinstance(a, int):
                groups.append((a,))
            else:
                groups.append((dim(a.rstrip('+'), 1 if a.endswith('+') else 0),))
        k0 = len(AT.name)
        b = self.inner([1 if gdims(g) else g[0] for g in groups]).sym(name)
        ds = [f for g in groups for f in gdims(g)]
        sl = logic.ctx().__dict__.setdefault('slotatoms', {})
        for k in range(k0, len(AT.name)):
            sl[k] = ds
        if not self.real and not self.ints:
            groups.append((3,))
        return SymSeq(b, groups)

    def conc(self, rng, env):
        d = env.setdefault('lens', {})
        if d.get('#') != env.get('i'):
            d.clear()
            d['#'] = env.get('i')
        shape = []
        for a in self.axes:
            if isinstance(a, int):
                shape.append(a)
            else:
                if a.rstrip('+') not in d:
                    d[a.rstrip('+')] = rng.choice([1, 2, 3, 4, 5, 6, 7, 9])
                shape.append(d[a.rstrip('+')])
        return self.inner(shape).conc(rng, env)

    def from_model(self, name, model, rng, env):
        return self.conc(rng, env)


def wrapped(f, *axes):
    """symbolic arguments of f() whose first one gets the given lengths (f builds it with one slot per symbolic axis)"""
    def g():
        groups = [(a,) if isinstance(a, int) else (dim(a.rstrip('+'), 1 if a.endswith('+') else 0),) for a in axes]
        k0 = len(AT.name)
        args = list(f())
        ds = [x for gg in groups for x in gdims(gg)]
        sl = logic.ctx().__dict__.setdefault('slotatoms', {})
        for k in range(k0, len(AT.name)):
            sl[k] = ds
        A = args[0]
        assert tuple(A.shape[:len(groups)]) == tuple(glen(gg) for gg in groups)
        args[0] = SymSeq(A, groups + [(k,) for k in A.shape[len(groups):]])
        return args
    return g


class IndexList:
    """a list of any length whose elements are arbitrary integers of range(k); the arbitrary element is explored for every value"""
    def __init__(self, name, k):
        self.name, self.k = name, k

    def sym(self, name):
        d = dim(self.name, 1)
        d.forked = True                 # no summation over this length: the element is known only on this path
        v = np.array([Num.of(logic.ctx().choose(self.k))], dtype=object)
        return SymSeq(mk(v, 'int'), [(d,)])

    def conc(self, rng, env):
        return [rng.randrange(self.k) for _ in range(rng.randint(1, 7))]

    def from_model(self, name, model, rng, env):
        return self.conc(rng, env)


class Exponent:
    """an arbitrary integer n >= 1 (sign 1) or n <= -1 (sign -1)"""
    def __init__(self, sign):
        self.sign = sign

    def sym(self, name):
        return dim('exp', 1).n * self.sign

    def conc(self, rng, env):
        return self.sign * rng.randint(1, 7)

    def from_model(self, name, model, rng, env):
        return self.conc(rng, env)


# ---------------------------------------------------------------------------- ghost results
# A contract whose result is a region (common part, outline, hull of a set) names it by the regions of its arguments: the caller knows the result
# only through that name.  ctx.ghosts: name -> the array that represents it;  ctx.hulls: array -> name of its convex hull.
def gkey(x):
    """contents of an argument (with its lengths)"""
    if isinstance(x, SymSeq):
        return ('seq', tuple(tuple(repr(f) if isinstance(f, Dim) else f for f in g) for g in x.groups), logic.akey(arr.base(x.buf)))
    if isinstance(x, np.ndarray):
        A = arr.base(x)
        if A.shape and A.shape[-1] == 3:
            v = trip_values(A.reshape(-1, 3))
            if v is not None:
                return ('arr', A.shape, tuple(logic.nkey(Num.of(y)) for y in v))
        return ('arr', A.shape, logic.akey(A))
    return ('val', repr(x))


def ghost(name, *axes, may_none=True, make=None):
    """the array (of unknown length) or None that represents the named region; the same one whenever the name is the same"""
    g = logic.ctx().__dict__.setdefault('ghosts', {})
    if name not in g:
        if may_none and logic.ctx().choose(2):
            g[name] = None
        else:
            k = 'g%d' % len(g)
            g[name] = make(k) if make else SeqKind(k + '+', *axes, mode='canon').sym(k)
    r = g[name]
    return r if r is None else r.copy()


def hull_of(x):
    """name of the convex hull of the points of x"""
    h = logic.ctx().__dict__.setdefault('hulls', {})
    return h.get(gkey(x), ('hull', gkey(x)))


def set_hull(x, h):
    if x is not None:
        logic.ctx().__dict__.setdefault('hulls', {})[gkey(x)] = h


def is_ghost(res, name, what):
    """obligations: res is the named region"""
    g = logic.ctx().__dict__.get('ghosts', {})
    if name not in g:
        raise Unsupported('%s was not obtained through its contract' % what)
    e = g[name]
    if e is None or res is None:
        return [(what, N.TRUE if e is None and res is None else N.FALSE)]
    if not isinstance(res, SymSeq) or tuple(res.groups) != tuple(e.groups):
        raise Unsupported('%s: another shape' % what)
    return [(what, N.sand([Num.of(a) == Num.of(b) for a, b in zip(arr.base(res.buf).reshape(-1), arr.base(e.buf).reshape(-1))]))]
