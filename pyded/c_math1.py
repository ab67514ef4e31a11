"""Contracts of math1.py (both packages)."""
import numpy as np
from fractions import Fraction
from . import num as N, logic, arr
from .num import Num, sand, sor, tobool, TRUE, FALSE
from .core import *
from .core import vals
from .arr import base, obj


def proj_matrix(pkg):
    """documented projection matrices: rows par(3), perp(3)"""
    if pkg == 'ico2':
        t = Num.const((Fraction(1, 2), Fraction(1, 2)))
        P = [[1, t, t, 0, -1, 0], [t, 0, 0, 1, t, 1], [0, 1, -1, -t, 0, t]]
        Q = [[t, -1, -1, 0, -t, 0], [-1, 0, 0, t, -1, t], [0, t, -t, 1, 0, -1]]
    else:
        s = Num.const((0, Fraction(1, 2)))
        h = Num.of(Fraction(1, 2))
        P = [[s, 1, 0, -h, 0, 0], [-h, 0, 1, s, 0, 0], [0, 0, 0, 0, 1, 0]]
        Q = [[-s, 1, 0, -h, 0, 0], [-h, 0, 1, -s, 0, 0], [0, 0, 0, 0, 0, 1]]
    f = lambda M: [[Num.of(x) for x in r] for r in M]
    return f(P), f(Q)


def matvec(M, v):
    out = np.empty(len(M), dtype=object)
    for i, row in enumerate(M):
        s = Num.of(0)
        for c, x in zip(row, v):
            if Num.of(c).n:
                s = s + c * x
        out[i] = s
    return out


def perp_vals(pkg, v6):
    """perpendicular components (3 Nums) of an array of 6 values"""
    return matvec(proj_matrix(pkg)[1], v6)


def par_vals(pkg, v6):
    return matvec(proj_matrix(pkg)[0], v6)


def isint_trip(*sh):
    return Trips(*sh, mode='val')


def need(c):
    if not c:
        raise SpecError()


def big_pairs(rng, env):
    """pairs whose intermediate integers fit in 64 bits but not in 53"""
    r = rng.random()
    if r < 0.3:
        m1, m2 = 10 ** 9, 10 ** 9
        a = (rng.randint(-m1, m1), rng.randint(-m1, m1), rng.randint(1, 9))
        b = (rng.randint(-m2, m2) // 3, rng.randint(-m2, m2) // 3, rng.choice([1, -1, 2]))
    elif r < 0.6:
        m = 10 ** 8
        a = (rng.randint(-m, m), rng.randint(-m, m), rng.randint(1, m) | 1)
        b = (rng.randint(-m, m), rng.randint(-m, m), rng.choice([1, -1]) * rng.randint(1, m))
    else:
        d = Draw(env.get('lits', ()), False)
        a, b = d.triple(rng), d.triple(rng)
    return [np.array(a, dtype=np.int64), np.array(b, dtype=np.int64)]


def fits(f, a, b):
    return True


def build(pkg, A='C01'):
    q = pkg + '.math1.'
    A = 'C01' if pkg == 'ico2' else 'C02'
    pp, qq = proj_matrix(pkg)
    I1 = Trips(mode='int', big=True)
    V1 = Trips(mode='val')

    def two(x, y):
        need(len(base(x)) == 3 and base(x).ndim == 1 and base(y).ndim == 1)
        return vals(x), vals(y)

    def s_add(a, b):
        x, y = two(a, b)
        return trips(x + y)

    def s_sub(a, b):
        x, y = two(a, b)
        return trips(x - y)

    def s_mul(a, b):
        x, y = two(a, b)
        return trips(x * y)

    def s_div(a, b):
        x, y = two(a, b)
        if tobool(y == 0):
            return none()
        return trips(x / y)

    ab = [Case('any two triples', [I1, I1], runs=400), ]
    abig = Case('64-bit intermediates', None, gen=big_pairs, nosym=True, runs=300)
    Contract(q + 'add', [A, 'C03', 'C22'], s_add, ab + [abig], stub=True)
    Contract(q + 'mul', [A, 'C03', 'C22'], s_mul, ab + [abig])
    Contract(q + 'sub', [A, 'C03', 'C22'], s_sub, ab + [abig])

    def big_div(rng, env):
        a, b = big_pairs(rng, env)
        if max(abs(int(x)) for x in list(a) + list(b)) > 10 ** 4:
            a[:] = [rng.randint(-5 * 10 ** 8, 5 * 10 ** 8), rng.randint(-5 * 10 ** 8, 5 * 10 ** 8), rng.randint(1, 10 ** 6)]
            b[:] = [rng.randint(-10 ** 5, 10 ** 5), rng.randint(-10 ** 5, 10 ** 5), rng.randint(1, 10 ** 4)]
        return [a, b]
    Contract(q + 'div', [A, 'C03', 'C22'], s_div, ab + [Case('64-bit intermediates', None, gen=big_div, nosym=True, runs=300)])

    # ------------------------------------------------------------- vectors
    def n_of(*arrs):
        return [base(x) for x in arrs]

    def s_addv(a, b):
        a_, b_ = n_of(a, b)
        need(a_.ndim == 2 and b_.ndim == 2 and a_.shape == b_.shape)
        return trips(vals(a) + vals(b))

    def s_subv(a, b):
        a_, b_ = n_of(a, b)
        if a_.ndim != 2 or b_.ndim != 2:
            return none()
        need(a_.shape == b_.shape)
        return trips(vals(a) - vals(b))

    def s_mulv(a, k):
        a_, = n_of(a)
        if a_.ndim != 2:
            return none()
        return trips(vals(a) * vals(k))

    def s_mulvs(a, k):
        a_, = n_of(a)
        if a_.ndim not in (3, 4):
            return none()
        return trips(vals(a) * vals(k))

    def vec2(*ns):
        return [Case('vectors of length %d' % n, [Trips(n), Trips(n)], bounded='length %d' % n, runs=25) for n in ns]

    def anylen(f, lo=0, hi=12, runs=60, extra=()):
        """concrete arguments of random length"""
        return Case('any length (sampled)', None, gen=f, nosym=True, runs=runs)
    from . import seq
    SV = seq.SeqKind
    Contract(q + 'add_vectors', ['C04', 'C22'], s_addv, [Case('vectors of any length n >= 1', [SV('n'), SV('n')], runs=0)] + vec2(3, 6) + [anylen(lambda r, e: two_vecs(r, e))], lift='map')
    Contract(q + 'sub_vectors', ['C04', 'C22'], s_subv, [Case('vectors of any length n >= 1', [SV('n'), SV('n')], runs=0)] + vec2(3, 6) + [anylen(lambda r, e: two_vecs(r, e)),
             Case('wrong rank', [Trips(), Trips(3)], runs=5)], lift='map')
    Contract(q + 'mul_vector', ['C04', 'C22'], s_mulv, [Case('vector of any length n >= 1', [SV('n'), Trips()], runs=0), Case('length 6', [Trips(6), Trips()], bounded='length 6', runs=40),
             anylen(lambda r, e: two_vecs(r, e)[:1] + [Trips().conc(r, e)]), Case('wrong rank', [Trips(), Trips()], runs=5)], lift='map')
    Contract(q + 'mul_vectors', ['C04', 'C22'], s_mulvs, [Case('any number of vectors of any length', [SV('n', 'm'), Trips()], runs=0), Case('any number of sets of any size', [SV('n', 'm', 'k'), Trips()], runs=0),
             Case('2 vectors', [Trips(2, 3), Trips()], bounded='2x3', runs=20), Case('set of simplices', [Trips(2, 2, 2), Trips()], bounded='2x2x2', runs=20),
             Case('wrong rank', [Trips(3), Trips()], runs=5)], lift='map')

    def s_outer(a, b):
        a_, b_ = n_of(a, b)
        need(a_.shape == (3, 3) and b_.shape == (3, 3))
        x, y = vals(a), vals(b)
        return trips(np.array([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]], dtype=object))
    Contract(q + 'outer_product', ['C04', 'C22'], s_outer, [Case('any two 3-vectors', [Trips(3), Trips(3)], runs=60)])

    def dotn(x, y):
        s = Num.of(0)
        for i, j in zip(x, y):
            s = s + i * j
        return s

    def ss_matmul(a, b, first='t'):
        """inner, matrix-vector and matrix-matrix product of any sizes"""
        ga, gb = seq.groups_of(a), seq.groups_of(b)
        ga = ga[:-1] if first == 't' else ga
        gb = gb[:-1]
        need(len(ga) in (1, 2) and len(gb) in (1, 2))
        if first == 't' and len(ga) == 1 and len(gb) == 2 or first != 't' and len(ga) == 1:
            return none()
        if ga[-1] != gb[0]:
            if tobool(Num.of(seq.gsize(ga[-1])) == Num.of(seq.gsize(gb[0]))):
                raise SpecError('lengths given twice')
            return none()
        x = vals(seq.plain(a)) if first == 't' else np.vectorize(arr.N_, otypes=[object])(base(seq.plain(a)))
        y = vals(seq.plain(b))
        s, u = [g for g in ga[:-1]], [g for g in gb[1:]]
        X = x.reshape((-1, x.shape[-1]))
        Y = y.reshape((y.shape[0], -1))
        out = np.empty((X.shape[0], Y.shape[1]), dtype=object)
        for i in range(X.shape[0]):
            for j in range(Y.shape[1]):
                out[i, j] = seq.gtotal([X[i, t] * Y[t, j] for t in range(X.shape[1])], gb[0])
        gs = s + u
        if not gs:
            return trips(out[0, 0])
        return seq.regroup(trips(out.reshape([seq.glen(g) for g in gs])), gs)

    def ss_inner(a, b):
        need(len(seq.groups_of(a)) == 2 and len(seq.groups_of(b)) == 2)
        return ss_matmul(a, b)

    def s_inner(a, b):
        a_, b_ = n_of(a, b)
        need(a_.ndim == 2 and b_.ndim == 2)
        if len(a_) != len(b_):
            return none()
        return trips(dotn(vals(a), vals(b)))
    Contract(q + 'inner_product', ['C04', 'C22'], s_inner, [Case('vectors of any length n >= 1', [SV('n'), SV('n')], runs=0)] + vec2(3, 6) + [anylen(lambda r, e: two_vecs(r, e)), Case('different lengths n and m', [SV('n'), SV('m')], requires=lambda a, b: [a.shape[0] != b.shape[0]], runs=0), Case('different lengths', [Trips(3), Trips(2)], runs=5)], seqspec=ss_inner)

    def s_dot(a, b):
        a_, b_ = n_of(a, b)
        if a_.ndim == 2 and b_.ndim == 2:
            return s_inner(a, b)
        if a_.ndim == 3 and b_.ndim in (2, 3):
            if a_.shape[1] != b_.shape[0]:
                return none()
            x, y = vals(a), vals(b)
            return trips(matmul(x, y))
        return none()

    def matmul(x, y):
        if y.ndim == 1:
            out = np.empty(x.shape[0], dtype=object)
            for i in range(x.shape[0]):
                out[i] = dotn(x[i], y)
            return out
        out = np.empty((x.shape[0], y.shape[1]), dtype=object)
        for i in range(x.shape[0]):
            for j in range(y.shape[1]):
                out[i, j] = dotn(x[i], y[:, j])
        return out

    def mats(rng, env, first='t'):
        s, t, u = (rng.randint(1, 4) for _ in range(3))
        t2 = t if rng.random() < 0.8 else rng.randint(1, 4)
        k = rng.random()
        m1 = Trips(s, t).conc(rng, env) if first == 't' else Ints(s, t).conc(rng, env)
        m2 = Trips(t2, u).conc(rng, env) if k < 0.6 else Trips(t2).conc(rng, env)
        return [m1, m2]
    Contract(q + 'dot_product', ['C04', 'C22'], s_dot, [
        Case('3x3 by 3', [Trips(3, 3), Trips(3)], bounded='3x3x1', runs=20), Case('2x3 by 3x2', [Trips(2, 3), Trips(3, 2)], bounded='2x3x2', runs=20),
        Case('3x2 by 2x3', [Trips(3, 2), Trips(2, 3)], bounded='3x2x3', runs=20), Case('vector by vector', [Trips(3), Trips(3)], bounded='3', runs=10),
        Case('mismatch', [Trips(2, 3), Trips(2)], runs=4), Case('mismatch 3d', [Trips(2, 3), Trips(2, 2)], runs=4), Case('wrong rank', [Trips(3), Trips(2, 2)], runs=4),
        Case('s x t by t, any sizes', [SV('s', 't'), SV('t')], runs=0), Case('s x t by t x u, any sizes', [SV('s', 't'), SV('t', 'u')], runs=0),
        Case('inner product, any size', [SV('t'), SV('t')], runs=0), Case('mismatching sizes', [SV('s', 't'), SV('r', 'u')], requires=lambda a, b: [a.shape[1] != b.shape[0]], runs=0),
        anylen(mats)], seqspec=ss_matmul)

    def s_dot1(m, b):
        m_, b_ = n_of(m, b)
        if m_.ndim == 2 and b_.ndim in (2, 3):
            if m_.shape[1] != b_.shape[0]:
                return none()
            x = np.vectorize(arr.N_, otypes=[object])(m_)
            need(all(e.isint for e in x.reshape(-1)))
            return trips(matmul(x, vals(b)))
        return none()
    Contract(q + 'dot_product_1', ['C04', 'C22'], s_dot1, [
        Case('6x6 by 6', [Ints(6, 6), Trips(6)], bounded='6x6x1', runs=20), Case('6x6 float matrix', [Ints(6, 6, dtype=np.float64), Trips(6)], bounded='6x6x1', runs=20),
        Case('3x2 by 2x4', [Ints(3, 2), Trips(2, 4)], bounded='3x2x4', runs=30), Case('2x3 by 3x2', [Ints(2, 3), Trips(3, 2)], bounded='2x3x2', runs=30),
        Case('mismatch', [Ints(3, 2), Trips(3)], runs=4), Case('mismatch 3d', [Ints(3, 2), Trips(3, 2)], runs=4), Case('wrong rank', [Ints(3), Trips(3)], runs=4),
        Case('s x t by t, any sizes', [SV('s', 't', ints=True), SV('t')], runs=0), Case('s x t by t x u, any sizes', [SV('s', 't', ints=True), SV('t', 'u')], runs=0),
        Case('mismatching sizes', [SV('s', 't', ints=True), SV('r', 'u')], requires=lambda a, b: [a.shape[1] != b.shape[0]], runs=0),
        anylen(lambda r, e: mats(r, e, 'i'))], seqspec=lambda a, b: ss_matmul(a, b, 'i'))

    # ------------------------------------------------------------- projections
    def s_proj(v):
        need(base(v).shape == (6, 3))
        x = vals(v)
        return trips(np.array([list(matvec(pp, x)), list(matvec(qq, x))], dtype=object))

    def s_proj3(v):
        need(base(v).shape == (6, 3))
        return trips(matvec(qq, vals(v)))
    v6 = [Case('any 6D vector', [Trips(6)], runs=60)]
    Contract(q + 'projection', ['C05', 'C22'], s_proj, v6)
    Contract(q + 'projection3', ['C05', 'C22'], s_proj3, v6)
    if pkg == 'ico2':
        # orthogonal projector onto Eperp in 6D indices: Q^T (Q Q^T)^-1 Q, with Q Q^T = 2(2+tau) I
        t = logic_unit(5)
        k = (Num.of(2) * (Num.of(2) + t)).inv()
        PP = [[sum((qq[r][i] * qq[r][j] for r in range(3)), Num.of(0)) * k for j in range(6)] for i in range(6)]

        def s_pperp(v):
            need(base(v).shape == (6, 3))
            return trips(matvec(PP, vals(v)))
        Contract(q + 'projection_perp', ['C05', 'C22'], s_pperp, v6)

    def s_mtrix(*a):
        ms, v = a[:6], a[6]
        need(base(v).shape == (6, 3))
        x = vals(v)
        s = Num.of(0)
        for m, y in zip(ms, x):
            s = s + vals(m) * y
        return trips(s)
    Contract(q + 'mtrixcal', ['C05', 'C22'], s_mtrix, [Case('any row and vector', [Trips()] * 6 + [Trips(6)], runs=20)])

    # ------------------------------------------------------------- centroid, determinant, powers
    def ss_cen(o, depth=1):
        gs = seq.groups_of(o)
        need(len(gs) == depth + 2 and gs[-2:] == ((6,), (3,)))
        v = vals(seq.plain(o))
        n = Num.of(1)
        for k in range(depth):
            need(not any(isinstance(f, int) and f == 0 for f in gs[k]))
            n = n * seq.gsize(gs[k])
            v = seq.total(v, gs[k], 0)
        return trips(np.array([x / n for x in v], dtype=object))

    def s_cen(o):
        o_ = base(o)
        need(o_.ndim == 3 and o_.shape[1:] == (6, 3) and len(o_) > 0)
        x = vals(o)
        n = Num.of(len(x))
        return trips(np.array([sum((x[i, j] for i in range(len(x))), Num.of(0)) / n for j in range(6)], dtype=object))
    Contract(q + 'centroid', ['C04', 'C22'], s_cen, [Case('%d points' % n, [Trips(n, 6)], bounded='%d points' % n, runs=20) for n in (1, 2, 3, 4)] +
             [Case('any number of points', [SV('n+', 6)], runs=0), anylen(lambda r, e: [Trips(r.randint(1, 9), 6).conc(r, e)])], seqspec=ss_cen)

    def s_ceno(o):
        o_ = base(o)
        need(o_.ndim == 4 and o_.shape[2:] == (6, 3) and len(o_) > 0)
        x = vals(o)
        n = Num.of(x.shape[0] * x.shape[1])
        return trips(np.array([sum((x[i, k, j] for i in range(x.shape[0]) for k in range(x.shape[1])), Num.of(0)) / n for j in range(6)], dtype=object))
    Contract(q + 'centroid_obj', ['C04', 'C22'], s_ceno, [Case('%d simplices' % n, [Trips(n, 3 if pkg == 'dode2' else 4, 6)], bounded='%d simplices' % n, runs=10) for n in (1, 2, 3)] +
             [Case('any number of sets of any size', [SV('n+', 'm+', 6)], runs=0), anylen(lambda r, e: [Trips(r.randint(1, 5), r.choice([3, 4]), 6).conc(r, e)], runs=30)], seqspec=lambda o: ss_cen(o, 2))

    def s_det(m):
        need(base(m).shape == (3, 3, 3))
        x = vals(m)
        return trips(arr.detn(x))
    Contract(q + 'det_matrix', ['C04', 'C22'], s_det, [Case('any 3x3 matrix', [Trips(3, 3)], runs=60)])

    def s_mpow(m, n):
        m_ = base(m)
        need(m_.ndim == 2)
        if m_.shape[0] != m_.shape[1]:
            return none()
        M = obj(m_)
        if isinstance(n, Num) and not n.is_const():
            if bool(n > 0):
                return real(seq.matpow(M, n))
            return real(seq.matpow(base(arr.la_inv(M)), -n))
        n = int(n)
        if n < 0:
            M = base(arr.la_inv(M))
            n = -n
        r = base(arr.np_identity(M.shape[0]))
        for _ in range(n):
            r = base(arr.np_dot(r, M))
        return real(r)

    def unimod(rng, n):
        M = np.eye(n, dtype=np.int64)
        for _ in range(4):
            i, j = rng.randrange(n), rng.randrange(n)
            if i != j:
                M[i] += rng.choice([1, -1, 2]) * M[j]
            else:
                M[i] = -M[i]
        return M
    Contract(q + 'matrixpow', ['C04', 'C07', 'C22'], s_mpow, [
        Case('3x3, powers 0..4', [Ints(3, 3), OneOf(0, 1, 2, 3, 4)], bounded='3x3, 0<=n<=4', runs=30, ms=4000),
        Case('2x2, powers -3..-1', [Ints(2, 2), OneOf(-1, -2, -3)], requires=lambda m, n: [arr.detn(base(m)) != 0], bounded='2x2, -3<=n<=-1', runs=0),
        Case('any 3x3 matrix, any power n >= 1', [Ints(3, 3), seq.Exponent(1)], runs=20),
        Case('any 6x6 matrix, any power n >= 1', [Ints(6, 6), seq.Exponent(1)], runs=0),
        Case('any invertible 3x3 matrix, any power n <= -1', [Ints(3, 3), seq.Exponent(-1)], requires=lambda m, n: [arr.detn(base(m)) != 0], runs=0),
        Case('not square', [Ints(2, 3), OneOf(0, 2, -1)], runs=4),
        Case('unimodular integer matrices', None, gen=lambda r, e: [unimod(r, r.randint(1, 6)), r.randint(-5, 7)], nosym=True, runs=80)],
        stub_ok=lambda m, n: all(arr.N_(x).is_const() for x in base(m).reshape(-1)))


def two_vecs(rng, env):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12])
    return [Trips(n).conc(rng, env), Trips(n).conc(rng, env)]


def logic_unit(d):
    return Num.const((Fraction(1, 2), Fraction(1, 2))) if d == 5 else Num.const((0, Fraction(1, 2)))
