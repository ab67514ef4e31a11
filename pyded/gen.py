"""Concrete generators of exact geometric inputs (6D triples) for replay and bounded runs."""
import math, itertools
from fractions import Fraction as F
import numpy as np
from . import num as N, logic
from .num import Num
from .c_math1 import proj_matrix


class Q:
    """p+q*sqrt(D) with Fractions: light exact numbers for generators"""
    __slots__ = ('p', 'q')

    def __init__(self, p, q=0):
        self.p, self.q = F(p), F(q)

    @staticmethod
    def of(x):
        return x if isinstance(x, Q) else Q(x)

    def __add__(self, o):
        o = Q.of(o)
        return Q(self.p + o.p, self.q + o.q)
    __radd__ = __add__

    def __sub__(self, o):
        o = Q.of(o)
        return Q(self.p - o.p, self.q - o.q)

    def __rsub__(self, o):
        return Q.of(o) - self

    def __neg__(self):
        return Q(-self.p, -self.q)

    def __mul__(self, o):
        o = Q.of(o)
        return Q(self.p * o.p + N.D * self.q * o.q, self.p * o.q + self.q * o.p)
    __rmul__ = __mul__

    def inv(self):
        d = self.p * self.p - N.D * self.q * self.q
        return Q(self.p / d, -self.q / d)

    def __truediv__(self, o):
        return self * Q.of(o).inv()

    def sign(self):
        return N.csign((self.p, self.q))

    def __eq__(self, o):
        o = Q.of(o)
        return self.p == o.p and self.q == o.q

    def __hash__(self):
        return hash((self.p, self.q))

    def __lt__(self, o):
        return (self - o).sign() < 0

    def __gt__(self, o):
        return (self - o).sign() > 0

    def __le__(self, o):
        return (self - o).sign() <= 0

    def __ge__(self, o):
        return (self - o).sign() >= 0

    def __abs__(self):
        return self if self.sign() >= 0 else -self

    def __float__(self):
        sc = 10 ** 40
        return float(self.p + self.q * F(math.isqrt(N.D * sc * sc), sc))

    def __repr__(self):
        return 'Q(%s,%s)' % (self.p, self.q)


def qtrip(t):
    a, b, c = (int(x) for x in t)
    if N.D == 5:
        return Q(F(a, c) + F(b, 2 * c), F(b, 2 * c))
    return Q(F(a, c), F(b, 2 * c))


def trip(x):
    x = Q.of(x)
    return logic.const_triple((x.p, x.q))


def tau():
    return Q(F(1, 2), F(1, 2)) if N.D == 5 else Q(0, F(1, 2))


def q6(v):
    """(…,3) ints -> nested list of Q"""
    v = np.asarray(v)
    if v.ndim == 1:
        return qtrip(v)
    return [q6(x) for x in v]


def to6(v):
    """nested lists of Q -> int64 array of triples"""
    if isinstance(v, (list, tuple)):
        return np.array([to6(x) for x in v], dtype=np.int64)
    return np.array(trip(v), dtype=np.int64)


_PM = {}


def pm(which):
    k = (N.D, which)
    if k not in _PM:
        P, Qm = proj_matrix('ico2' if N.D == 5 else 'dode2')
        cv = lambda M: [[Q(*x.cval()) for x in r] for r in M]
        _PM[(N.D, 'par')], _PM[(N.D, 'perp')] = cv(P), cv(Qm)
    return _PM[k]


def perp(v6):
    return [sum((a * b for a, b in zip(r, v6)), Q(0)) for r in pm('perp')]


def par(v6):
    return [sum((a * b for a, b in zip(r, v6)), Q(0)) for r in pm('par')]


def kernel():
    """vectors with zero perpendicular projection"""
    if N.D == 5:
        return pm('par')
    s = tau()
    return [[Q(1), s, Q(F(1, 2)), Q(0), Q(0), Q(0)], [Q(0), Q(F(1, 2)), s, Q(1), Q(0), Q(0)], [Q(0), Q(0), Q(0), Q(0), Q(1), Q(0)]]


def rnd_q(rng, small=True):
    r = rng.random()
    style = getattr(rng, 'style', None)
    if style == 'grid':
        return Q(rng.choice([0, 0, 1, 1, -1, 2]))
    if style == 'samec' and r < 0.8:
        return (Q(rng.randint(-3, 3)) + tau() * rng.randint(-2, 2)) / rng.c
    if style == 'bonly' and r < 0.8:
        return tau() * rng.randint(-2, 2)
    if r < 0.25:
        return Q(0)
    if r < 0.55:
        return Q(rng.randint(-2, 2))
    a, b = rng.randint(-3, 3), rng.randint(-2, 2)
    c = rng.choice([1, 1, 1, 2, 3])
    return (Q(a) + tau() * b) / c


def rnd_v6(rng, planar=None):
    v = [rnd_q(rng) for _ in range(6)]
    if planar is None:
        planar = N.D == 3
    if planar:
        v[5] = Q(0)
    return v


def axis6(rng, i):
    """a 6D vector whose perpendicular projection lies on coordinate axis i"""
    M = pm('perp')
    k = 3 if N.D == 5 else 2
    for _ in range(50):
        cols = rng.sample(range(6), k)
        m = [[M[r][c] for c in cols] for r in range(k)]
        rhs = [Q(int(r == i)) for r in range(k)]
        det = (lambda w: det3(*w)) if k == 3 else (lambda w: w[0][0] * w[1][1] - w[0][1] * w[1][0])
        d = det(m)
        if d.sign() == 0:
            continue
        v = [Q(0)] * 6
        for j, c in enumerate(cols):
            w = [[rhs[r] if jj == j else m[r][jj] for jj in range(k)] for r in range(k)]
            v[c] = det(w) / d
        return v
    raise ValueError('no axis')


def close6(rng, v):
    """a vector that differs from v in one component only, by little or in form only slightly"""
    v = list(v)
    i = rng.randrange(5 if N.D == 3 else 6)
    k = rng.randrange(6)
    if k == 5:          # large coordinates: the numbers agree in all leading digits
        v[i] = v[i] + Q(F(1, 10 ** 6 + rng.randint(1, 9)))
    elif k == 0:
        v[i] = v[i] + Q(F(rng.choice([-1, 1]), rng.choice([10, 300, 10 ** 4, 10 ** 6])))
    elif k == 1:
        v[i] = v[i] / rng.choice([2, 3])
    elif k == 2:
        v[i] = -v[i]
    elif k == 3:
        v[i] = Q(v[i].p, -v[i].q)
    else:
        v[i] = v[i] + rng.choice([Q(1), Q(-1), tau(), -tau()])
    return v


def grid_complex(rng, n, most=14):
    """part of a regular grid cut into n-vertex simplices: (vertices, simplices)"""
    import itertools as it
    k = n - 1
    dim = 3 if N.D == 5 else 2
    if rng.random() < 0.6:
        B = [mul6(axis6(rng, i), rnd_scale(rng)) for i in rng.sample(range(dim), k)]
    else:
        T = rnd_simplex(rng, n, 0.05)
        B = [sub6(t, T[0]) for t in T[1:]]
    o = rnd_v6(rng)
    size = [rng.choice([1, 2, 3] if most <= 14 else [2, 3, 4] if k == 2 else [2, 2, 3]) for _ in range(k)]
    V, ix, S = [], {}, []

    def vert(c):
        if c not in ix:
            p = o
            for a, b in zip(c, B):
                p = add6(p, mul6(b, Q(a)))
            ix[c] = len(V)
            V.append(p)
        return ix[c]
    for cell in it.product(*[range(x) for x in size]):
        for perm in it.permutations(range(k)):
            c = list(cell)
            s = [vert(tuple(c))]
            for j in perm:
                c[j] += 1
                s.append(vert(tuple(c)))
            S.append(tuple(s))
    rng.shuffle(S)
    return V, S[:rng.randint(2 if most <= 14 else most // 2, most)]


def rnd_scale(rng):
    return rng.choice([Q(1), Q(1), Q(2), tau(), Q(F(1, 2)), Q(1) + tau()])


def add6(a, b):
    return [x + y for x, y in zip(a, b)]


def sub6(a, b):
    return [x - y for x, y in zip(a, b)]


def mul6(a, k):
    return [x * k for x in a]


def comb(vs, ls):
    out = [Q(0)] * 6
    for v, l in zip(vs, ls):
        out = [o + x * l for o, x in zip(out, v)]
    return out


def disguise(rng, v, p=0.5):
    """another 6D vector with the same perpendicular projection"""
    if rng.random() > p:
        return list(v)
    k = kernel()
    out = list(v)
    for i in range(3):
        if rng.random() < 0.5:
            c = rnd_q(rng)
            out = add6(out, mul6(k[i], c))
    return out


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), Q(0))


def sub3(a, b):
    return [x - y for x, y in zip(a, b)]


def det3(a, b, c):
    return dot(a, cross(b, c))


def tet_det(ps):
    return det3(*[sub3(p, ps[0]) for p in ps[1:]])


def tri_n(ps):
    return cross(sub3(ps[1], ps[0]), sub3(ps[2], ps[0]))


def rnd_simplex(rng, n=None, minvol=0.01):
    """list of n 6D vectors (Q), non-degenerate in perpendicular space"""
    n = n or (4 if N.D == 5 else 3)
    for _ in range(200):
        vs = [rnd_v6(rng) for _ in range(n)]
        ps = [perp(v) for v in vs]
        if n == 4:
            if abs(float(tet_det(ps))) > minvol:
                return vs
        elif n == 3:
            nn = tri_n(ps)
            if float(dot(nn, nn)) > minvol * minvol:
                return vs
        elif n == 2:
            d = sub3(ps[1], ps[0])
            if float(dot(d, d)) > minvol * minvol:
                return vs
    raise ValueError('no simplex')


def rnd_bary(rng, n, kind):
    """barycentric coordinates (sum 1)"""
    if kind == 'in':
        w = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(n)]
        if sum(w) == 0:
            w[rng.randrange(n)] = 1
        s = sum(w)
        return [Q(F(x, s)) for x in w]
    if kind == 'vertex':
        k = rng.randrange(n)
        return [Q(int(i == k)) for i in range(n)]
    if kind == 'edge':
        i, j = rng.sample(range(n), 2)
        t = F(rng.randint(0, 8), 8)
        return [Q(t if k == i else (1 - t if k == j else 0)) for k in range(n)]
    if kind == 'near':      # slightly outside
        k = rng.randrange(n)
        e = F(1, rng.choice([100, 1000, 5000, 20000]))
        l = rnd_bary(rng, n, 'in')
        l = [x * (1 + e) for x in l]
        m = [i for i in range(n)]
        l2 = rnd_bary(rng, n - 1, 'in')
        out = []
        it = iter(l2)
        for i in m:
            out.append(Q(-e) if i == k else next(it) * (1 + e))
        return out
    # out
    w = [F(rng.randint(-6, 6), rng.choice([1, 2, 3])) for _ in range(n - 1)]
    w.append(1 - sum(w))
    rng.shuffle(w)
    return [Q(x) for x in w]


def pnt_in(rng, vs, kind=None):
    kind = kind or rng.choice(['in', 'in', 'vertex', 'edge', 'near', 'out', 'out'])
    return comb(vs, rnd_bary(rng, len(vs), kind))
