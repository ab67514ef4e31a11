"""Contracts of numericalc.py (both packages)."""
import itertools
from fractions import Fraction
import numpy as np
from . import num as N, logic, arr, gen
from .num import Num, sand, sor, tobool, TRUE, FALSE
from .core import *
from .core import vals, NOSTUB
from .arr import base, obj
from .c_math1 import proj_matrix, matvec, need
from .gen import to6, rnd_v6, rnd_simplex, pnt_in, disguise

DEL = Fraction(1, 10 ** 5)      # relative tolerance of the membership statements (10 x the library's EPS)


def nvec(xs):
    s = Num.of(0)
    for x in xs:
        s = s + x * x
    s = Num(s.n, s.d, False)
    s.tag = 'sos'
    return s


def norm(xs):
    xs = list(xs)
    if sum(1 for x in xs if Num.of(x).n) == 1:
        return abs([Num.of(x) for x in xs if Num.of(x).n][0])
    return logic.sqrt(nvec(xs))


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot3(a, b):
    s = Num.of(0)
    for x, y in zip(a, b):
        s = s + x * y
    return s


def sub3(a, b):
    return [x - y for x, y in zip(a, b)]


def det3(a, b, c):
    return dot3(a, cross3(b, c))


def reals(a):
    """array of floats -> object array of Num"""
    A = base(a) if isinstance(a, arr.SymArr) else obj(a)
    return A


def ratio(x, y):
    """x/y, dividing polynomials exactly when possible"""
    x, y = Num.of(x), Num.of(y)
    if not x.is_const() and not y.is_const() and x.d is None and y.d is None:
        q = N.pdivide(x.n, y.n)
        if q is not None:
            return Num(q, None)
    if not x.n:
        return Num.of(0)
    return x / y


def bary_tet(T, p):
    """barycentric coordinates of p in the tetrahedron T (non-degenerate)"""
    d = det3(*[sub3(T[i], T[0]) for i in (1, 2, 3)])
    if tobool(d == 0):
        raise SpecError('degenerate')
    out = []
    for i in range(4):
        S = [p if j == i else T[j] for j in range(4)]
        out.append(ratio(det3(*[sub3(S[j], S[0]) for j in (1, 2, 3)]), d))
    return out


def bary_tri(T, p):
    """(barycentric coordinates of the foot point, squared height over area) of p in triangle T"""
    n = cross3(sub3(T[1], T[0]), sub3(T[2], T[0]))
    nn = nvec(n)
    if tobool(nn == 0):
        raise SpecError('degenerate')
    out = []
    for i in range(3):
        S = [p if j == i else T[j] for j in range(3)]
        out.append(ratio(dot3(cross3(sub3(S[1], S[0]), sub3(S[2], S[0])), n), nn))
    h = ratio(dot3(sub3(p, T[0]), n), nn)
    return out, h, nn


def factor_pos(name, p):
    """register p as a factor of either sign (both explored)"""
    if logic.ctx().choose(2) == 0:
        logic.factor(name, p, 'pos')
    else:
        logic.factor(name, -p, 'pos')


def build(pkg):
    q = pkg + '.numericalc.'
    ico = pkg == 'ico2'
    pp, qq = proj_matrix(pkg)
    F1 = 'C06'

    def c06(name, spec, cases, props=('C06', 'C22'), **kw):
        for c in cases:
            c.tol = c.tol or 1e-9
        Contract(q + name, list(props), spec, cases, **kw)

    def lens(mk, ns, runs=10):
        return [Case('%d elements' % n, mk(n), bounded='%d elements' % n, runs=runs) for n in ns]

    def rlen(mk, lo=0, hi=9, runs=40):
        return Case('any number (sampled)', None, gen=lambda r, e: [k.conc(r, e) for k in mk(r.randint(lo, hi))], nosym=True, runs=runs)

    def s_nv(t):
        need(base(t).shape == (3,))
        return real(vals(t))
    c06('numeric_value', s_nv, [Case('any triple', [Trips(mode='int')], runs=60)])

    from . import seq
    SV = seq.SeqKind
    ANY = 'any number n >= 1'

    def s_nvec(v):
        need(base(v).ndim == 2)
        return real(vals(v))
    c06('numerical_vector', s_nvec, [Case('any length n >= 1', [SV('n')], runs=0)] + lens(lambda n: [Trips(n)], (3, 6)) + [rlen(lambda n: [Trips(n)], 1)], lift='map')

    def s_nvecs(v):
        need(base(v).ndim == 3)
        return real(vals(v))
    c06('numerical_vectors', s_nvecs, [Case('any sizes n, m >= 1', [SV('n', 'm')], runs=0), Case('any number of 6D vectors', [SV('n', 6)], runs=0)] +
        lens(lambda n: [Trips(n, 6)], (1, 3)) + [rlen(lambda n: [Trips(n, 6)]), rlen(lambda n: [Trips(n, 3)], 1, 5, 10)], lift='map')

    def s_len(v):
        need(base(v).ndim == 2)
        return real(norm(list(vals(v))))

    def ss_len(v):
        need(len(v.groups) == 2)
        x = vals(seq.plain(v))
        return real(seq.root(seq.gtotal([t * t for t in x], v.groups[0])))
    c06('length_numerical', s_len, [Case('any length n >= 1', [SV('n')], runs=0)] + lens(lambda n: [Trips(n)], (3, 6)) + [rlen(lambda n: [Trips(n)], 1)], seqspec=ss_len)

    def s_gic(v):
        need(base(v).shape == (6, 3))
        return real(matvec(qq, vals(v)))
    c06('get_internal_component_numerical', s_gic, [Case('any 6D vector', [Trips(6)], runs=40)])

    def stack(f, V):
        out = np.empty((len(V), 3 if f != 6 else 6), dtype=object)
        for i, v in enumerate(V):
            out[i] = list(matvec(qq, v)) if f == 3 else list(matvec(pp, v)) + list(matvec(qq, v))
        return out

    def s_gics(v):
        need(base(v).ndim == 3 and base(v).shape[1:] == (6, 3))
        return real(stack(3, vals(v)))
    c06('get_internal_component_sets_numerical', s_gics, [Case(ANY, [SV('n', 6)], runs=0)] + lens(lambda n: [Trips(n, 6)], (1, 2, 3, 4)) + [rlen(lambda n: [Trips(n, 6)])], lift='map')

    def s_pn(v):
        need(reals(v).shape == (6,))
        return real(np.array(list(matvec(pp, reals(v))) + list(matvec(qq, reals(v))), dtype=object))
    c06('projection_numerical', s_pn, [Case('any 6D vector', [Reals(6)], runs=40)])

    def s_p3n(v):
        need(reals(v).shape == (6,))
        return real(matvec(qq, reals(v)))
    c06('projection3_numerical', s_p3n, [Case('any 6D vector', [Reals(6)], runs=40)])

    def s_psn(v):
        need(reals(v).ndim == 2 and reals(v).shape[1] == 6)
        return real(stack(6, reals(v)))
    c06('projection_sets_numerical', s_psn, [Case(ANY, [SV('n', 6, real=True)], runs=0)] + lens(lambda n: [Reals(n, 6)], (1, 3)) + [rlen(lambda n: [Reals(n, 6)])], lift='map')

    def s_p3sn(v):
        need(reals(v).ndim == 2 and reals(v).shape[1] == 6)
        return real(stack(3, reals(v)))
    c06('projection3_sets_numerical', s_p3sn, [Case(ANY, [SV('n', 6, real=True)], runs=0)] + lens(lambda n: [Reals(n, 6)], (1, 3)) + [rlen(lambda n: [Reals(n, 6)])], lift='map')

    def area(T):
        return norm(cross3(sub3(T[1], T[0]), sub3(T[2], T[0]))) / 2

    def s_ta(t):
        need(base(t).shape == (3, 3, 3))
        return real(area(vals(t)))
    c06('triangle_area', s_ta, [Case('any triangle', [Trips(3, 3)], runs=40)])

    def s_tan(t):
        need(reals(t).ndim == 2 and reals(t).shape[1] == 3 and len(reals(t)) >= 3)
        return real(area(reals(t)))
    c06('triangle_area_numerical', s_tan, [Case('any triangle', [Reals(3, 3)], runs=40)], props=('C06', 'C14', 'C22'))

    def vol(T):
        return abs(det3(*[sub3(T[i], T[0]) for i in (1, 2, 3)])) / 6

    def s_mdot(a, b):
        return real(arr.np_dot(reals(a), reals(b)))
    c06('inner_product_numerical', s_mdot, [Case('3-vectors', [Reals(3), Reals(3)], runs=10)])
    c06('matrix_dot', s_mdot, [Case('3x3', [Reals(3, 3), Reals(3, 3)], runs=10)])

    def perp1(v):
        """perpendicular components of one 6D vector of triples"""
        A = base(v) if isinstance(v, arr.SymArr) else arr.obj(v)
        memo = None if logic.CTX is None else logic.CTX.memo
        if memo is None or A.shape != (6, 3):
            return list(matvec(qq, vals(A)))
        xs = tuple(A.reshape(-1))
        k = tuple(id(x) for x in xs)
        if k not in memo:
            memo[k] = (xs, list(matvec(qq, vals(A))))
        return list(memo[k][1])

    def perps(v):
        A = base(v) if isinstance(v, arr.SymArr) else arr.obj(v)
        return [perp1(x) for x in A]

    if ico:
        def s_tvn(t):
            need(reals(t).shape == (4, 3))
            return real(vol(reals(t)))
        c06('tetrahedron_volume_numerical', s_tvn, [Case('any tetrahedron', [Reals(4, 3)], runs=40)], props=('C06', 'C14', 'C22'))

        def s_tv6(t):
            need(base(t).shape == (4, 6, 3))
            return real(vol(perps(t)))
        c06('tetrahedron_volume_6d_numerical', s_tv6, [Case('any tetrahedron', [Trips(4, 6)], runs=40)])

        def s_ovn(o):
            need(reals(o).ndim == 3 and reals(o).shape[1:] == (4, 3))
            return real(sum((vol(t) for t in reals(o)), Num.of(0)))

        def ss_ovn(o):
            need([g for g in o.groups[1:]] == [(4,), (3,)])
            return real(seq.gtotal([vol(t) for t in reals(seq.plain(o))], o.groups[0]))
        c06('obj_volume_numerical', s_ovn, [Case(ANY, [SV('n', 4, 3, real=True)], runs=0)] + lens(lambda n: [Reals(n, 4, 3)], (1, 2)) + [rlen(lambda n: [Reals(n, 4, 3)])], seqspec=ss_ovn)

        def s_ov6(o):
            need(base(o).ndim == 4 and base(o).shape[1:] == (4, 6, 3))
            return real(sum((vol(perps(t)) for t in base(o)), Num.of(0)))

        def ss_ov6(o):
            need([g for g in o.groups[1:]] == [(4,), (6,), (3,)])
            return real(seq.gtotal([vol(perps(t)) for t in base(seq.plain(o))], o.groups[0]))
        c06('obj_volume_6d_numerical', s_ov6, [Case(ANY, [SV('n', 4, 6)], runs=0)] + lens(lambda n: [Trips(n, 4, 6)], (1,)) + [rlen(lambda n: [Trips(n, 4, 6)], runs=20)], seqspec=ss_ov6)
    else:
        def s_tv6(t):
            need(base(t).shape == (3, 6, 3))
            return real(area(perps(t)))
        c06('triangle_volume_6d_numerical', s_tv6, [Case('any triangle', [Trips(3, 6)], runs=40)])

        def s_ov6(o):
            need(base(o).ndim == 4 and base(o).shape[1:] == (3, 6, 3))
            return real(sum((area(perps(t)) for t in base(o)), Num.of(0)))

        def ss_ov6(o):
            need([g for g in o.groups[1:]] == [(3,), (6,), (3,)])
            return real(seq.gtotal([area(perps(t)) for t in base(seq.plain(o))], o.groups[0]))
        c06('obj_volume_6d_numerical', s_ov6, [Case(ANY, [SV('n', 3, 6)], runs=0)] + lens(lambda n: [Trips(n, 3, 6)], (1,)) + [rlen(lambda n: [Trips(n, 3, 6)], runs=20)], seqspec=ss_ov6)

    # ------------------------------------------------------------- C14 point in simplex
    def verdict(lam):
        return tri(sand([l >= 0 for l in lam]), sor([l < Num.of(-DEL) for l in lam]))

    def dy(rng, lo=-8, hi=8):
        return Fraction(rng.randint(lo, hi), rng.choice([1, 2, 4]))

    def dsimp(rng, n):
        """dyadic simplex in R^3 (planar z=0 for triangles of dode sometimes)"""
        for _ in range(100):
            T = [[dy(rng) for _ in range(3)] for _ in range(n)]
            if n == 3 and not ico and rng.random() < 0.7:
                for t in T:
                    t[2] = Fraction(0)
            d = [[x - y for x, y in zip(t, T[0])] for t in T[1:]]
            if n == 4:
                v = np.linalg.det(np.array(d, dtype=float))
            else:
                v = np.linalg.norm(np.cross(np.array(d[0], float), np.array(d[1], float)))
            if abs(v) > 0.05:
                return T
        raise ValueError

    def dbary(rng, n):
        k = rng.choice(['in', 'in', 'face', 'vertex', 'out', 'near', 'near'])
        if k == 'vertex':
            i = rng.randrange(n)
            return [Fraction(int(j == i)) for j in range(n)]
        w = [rng.randint(0, 8) for _ in range(n)]
        if k == 'face':
            w[rng.randrange(n)] = 0
        cuts = sorted(rng.randint(0, 64) for _ in range(n - 1))
        l = [Fraction(b - a, 64) for a, b in zip([0] + cuts, cuts + [64])]
        if k == 'face':
            i, j = rng.sample(range(n), 2)
            l[j] += l[i]
            l[i] = Fraction(0)
        if k == 'near':
            i, j = rng.sample(range(n), 2)
            e = Fraction(1, 2 ** rng.randint(1, 14))
            l[j] += l[i] + e
            l[i] = -e
        if k == 'out':
            i, j = rng.sample(range(n), 2)
            e = Fraction(rng.randint(1, 40), 8)
            l[j] += e
            l[i] -= e
        return l

    def flt(T):
        return np.array([[float(x) for x in t] for t in T])

    def gen_pt(n):
        def g(rng, env):
            T = dsimp(rng, n)
            if rng.random() < 0.3:      # small simplices away from the origin
                k = Fraction(1, 2 ** rng.randint(2, 7))
                T = [[T[0][j] + k * (t[j] - T[0][j]) for j in range(3)] for t in T]
            l = dbary(rng, n)
            p = [sum((a * t[j] for a, t in zip(l, T)), Fraction(0)) for j in range(3)]
            return [np.array([float(x) for x in p]), flt(T)]
        return g

    def gen_pt6(n):
        def g(rng, env):
            T = rnd_simplex(rng, n, minvol=0.05)
            if rng.random() < 0.3:      # small simplices away from the origin
                f = gen.Q(Fraction(1, 2 ** rng.randint(2, 6)))
                T = [gen.add6(T[0], gen.mul6(gen.sub6(t, T[0]), f)) for t in T]
            k = rng.choice(['in', 'in', 'vertex', 'edge', 'near', 'near', 'out', 'out'])
            p = gen.comb(T, gen.rnd_bary(rng, n, k))
            p = disguise(rng, p)
            T = [disguise(rng, t, 0.2) for t in T]
            return [to6(p), to6(T)]
        return g

    def simplex_sym(n, wrap=True):
        """T0=o, Ti=o+e_i, p=o+sum l_i e_i: every non-degenerate simplex and every point of its affine hull"""
        def f():
            o = Reals(3).sym('o')
            E = [Reals(3).sym('e%d' % i) for i in range(1, n)]
            if n == 4:
                factor_pos('D', det3(*E))
            else:
                logic.factor('S', nvec(cross3(E[0], E[1])), 'pos')
            l = [logic.fresh('l%d' % i) for i in range(1, n)]
            T = [o] + [o + e for e in E]
            p = o
            for li, e in zip(l, E):
                p = p + e * li
            return [arr.mk(np.array(base(p), dtype=object), 'float'), arr.mk(np.array([base(t) for t in T], dtype=object), 'float')]
        return f

    def simplex6_sym(n):
        """6D vertices o, o+e_i and point o+sum l_i e_i + (arbitrary vector without perpendicular part), as exact triples"""
        def f():
            o = [logic.fresh('o%d' % j) for j in range(6)]
            E = [[logic.fresh('e%d_%d' % (i, j)) for j in range(6)] for i in range(1, n)]
            P = [list(matvec(qq, e)) for e in E]
            if n == 4:
                factor_pos('D', det3(*P))
            elif n == 3:
                logic.factor('S', nvec(cross3(P[0], P[1])), 'pos')
            l = [logic.fresh('l%d' % i) for i in range(1, n)]
            T = [o] + [[a + b for a, b in zip(o, e)] for e in E]
            p = list(o)
            for li, e in zip(l, E):
                p = [a + li * b for a, b in zip(p, e)]
            tv = lambda v: np.array([list(logic.canon(x)) for x in v], dtype=object)
            return [arr.mk(tv(p), 'int'), arr.mk(np.array([tv(t) for t in T], dtype=object), 'int')]
        return f

    def io_abs(p, T):
        """abstract verdict 'the point is inside' for callers that only combine verdicts"""
        if logic.CTX is not None and logic.CTX.abstract:
            P = perp1(p)
            S = perps(T)
            if not logic.isconst([P, S]):
                k = (logic.akey(P), tuple(sorted((logic.akey(x) for x in S), key=repr)))
                return tri(logic.opaque('inside', k), logic.opaque('outside', k))
        return None

    def io_absr(p, T):
        """the same abstract verdict for points given by coordinates"""
        if logic.CTX is not None and logic.CTX.abstract:
            P, S = list(p), [list(x) for x in T]
            if not logic.isconst([P, S]):
                k = (logic.akey(P), tuple(sorted((logic.akey(x) for x in S), key=repr)))
                return tri(logic.opaque('inside', k), logic.opaque('outside', k))
        return None

    if ico:
        def s_in(p, T):
            need(reals(p).shape == (3,) and reals(T).shape == (4, 3))
            r = io_absr(reals(p), reals(T))
            if r is not None:
                return r
            return verdict(bary_tet(reals(T), reals(p)))
        Contract(q + 'inside_outside_tetrahedron', ['C14', 'C22'], s_in, [
            Case('any point, any non-degenerate tetrahedron', None, sym=simplex_sym(4), gen=gen_pt(4), runs=120)])

        def s_int(p, T):
            need(base(p).shape == (6, 3) and base(T).shape == (4, 6, 3))
            r = io_abs(p, T)
            if r is not None:
                return r
            return verdict(bary_tet(perps(T), list(matvec(qq, vals(p)))))
        Contract(q + 'inside_outside_tetrahedron_tau', ['C14', 'C22'], s_int, [
            Case('any point, any non-degenerate tetrahedron', None, sym=simplex6_sym(4), gen=gen_pt6(4), runs=80)])
    else:
        def s_in(p, T):
            need(reals(p).shape == (3,) and reals(T).shape == (3, 3))
            r = io_absr(reals(p), reals(T))
            if r is not None:
                return r
            lam, h, nn = bary_tri(reals(T), reals(p))
            return tri(sand([l >= 0 for l in lam] + [h == 0]), sand([sor([l < Num.of(-DEL) for l in lam]), h == 0]))
        Contract(q + 'inside_outside_triangle', ['C14', 'C22'], s_in, [
            Case('any coplanar point, any non-degenerate triangle', None, sym=simplex_sym(3), gen=gen_pt(3), runs=120)])

        def s_int(p, T):
            need(base(p).shape == (6, 3) and base(T).shape == (3, 6, 3))
            r = io_abs(p, T)
            if r is not None:
                return r
            lam, h, nn = bary_tri(perps(T), list(matvec(qq, vals(p))))
            return tri(sand([l >= 0 for l in lam] + [h == 0]), sand([sor([l < Num.of(-DEL) for l in lam]), h == 0]))
        Contract(q + 'inside_outside_triangle_tau', ['C14', 'C22'], s_int, [
            Case('any coplanar point, any non-degenerate triangle', None, sym=simplex6_sym(3), gen=gen_pt6(3), runs=80)])

    NV = 4 if ico else 3

    def s_obj(p, O):
        """inside an object: inside one of its simplices"""
        A = reals(O)
        need(reals(p).shape == (3,) and A.ndim == 3 and A.shape[1:] == (NV, 3))
        rs = [s_in(p, T).val for T in A]
        return tri(sor([a for a, b in rs]), sand([b for a, b in rs]))

    def s_objt(p, O):
        A = base(O)
        need(base(p).shape == (6, 3) and A.ndim == 4 and A.shape[1:] == (NV, 6, 3))
        rs = [s_int(p, T).val for T in A]
        return tri(sor([a for a, b in rs]), sand([b for a, b in rs]))

    def ss_obj(one):
        def f(p, O):
            """any number of simplices: a search that stopped has found a simplex that is not missed; one that did not stop has
            ruled out an arbitrary simplex, hence every one"""
            need(isinstance(O, seq.SymSeq) and not isinstance(p, seq.SymSeq))
            d, = O.groups[0]
            a, b = one(p, base(seq.plain(O))[0]).val
            if d.spent == 'exit':
                return tri(TRUE, b)
            if d.spent == 'none':
                return tri(a, TRUE)
            raise Unsupported('no search over the simplices')
        return f

    def gen_obj(six):
        g1 = gen_pt6(NV) if six else gen_pt(NV)

        def g(rng, env):
            n = rng.choice([1, 1, 2, 3, 3, 5, 8])
            k = rng.randrange(n)
            p, T = g1(rng, env)
            Ts = [T if i == k else g1(rng, env)[1] for i in range(n)]
            if not ico:                 # one plane
                if six:
                    pass
                else:
                    p[2] = 0.0
                    for t in Ts:
                        t[:, 2] = 0.0
            if not six and not ico and any(abs(np.linalg.det(np.array([t[1] - t[0], t[2] - t[0]])[:, :2])) < 1e-3 for t in Ts):
                return g(rng, env)
            return [p, np.array(Ts)]
        return g
    Contract(q + 'inside_outside_obj', ['C14', 'C22'], s_obj, [
        Case('any number n >= 1 of simplices', [Reals(3), SV('n', NV, 3, real=True)], gen=gen_obj(False), runs=0, abstract=True),
        Case('2 simplices', [Reals(3), Reals(2, NV, 3)], gen=gen_obj(False), bounded='2 simplices', runs=0, abstract=True),
        Case('any number (sampled)', None, gen=gen_obj(False), nosym=True, runs=150)], stub=False, seqspec=ss_obj(s_in))
    Contract(q + 'inside_outside_obj_tau', ['C14', 'C22'], s_objt, [
        Case('any number n >= 1 of simplices', [Trips(6, mode='canon'), SV('n', NV, 6, mode='canon')], gen=gen_obj(True), runs=0, abstract=True),
        Case('2 simplices', [Trips(6, mode='canon'), Trips(2, NV, 6, mode='canon')], gen=gen_obj(True), bounded='2 simplices', runs=0, abstract=True),
        Case('any number (sampled)', None, gen=gen_obj(True), nosym=True, runs=100)], stub=False, seqspec=ss_obj(s_int))

    def s_surf(p, T):
        """true on the triangle; false when the three sub-triangles exceed the triangle by more than 1e-5 (area)"""
        need(base(p).shape == (6, 3) and base(T).shape == (3, 6, 3))
        lam, h, nn = bary_tri(perps(T), list(matvec(qq, vals(p))))
        inpl = tobool(h == 0)
        on = sand([l >= 0 for l in lam] + [inpl])
        # a point of the plane is off the triangle by area  2*neg*A ; a point off the plane by at least the height
        if inpl:
            neg = Num.of(0)
            for l in lam:
                if l < 0:
                    neg = neg - l
            far = neg * logic.sqrt(nn) > Num.of(DEL)
        else:
            far = off_plane_excess(perps(T), list(matvec(qq, vals(p))), nn)
        return tri(on, far)

    def off_plane_excess(T, p, nn):
        if not all(Num.of(x).is_const() for t in T for x in t) or not all(Num.of(x).is_const() for x in p):
            return FALSE
        f = [[fl(x) for x in t] for t in T]
        pf = [fl(x) for x in p]
        ar = lambda a, b, c: np.linalg.norm(np.cross(np.subtract(b, a), np.subtract(c, a))) / 2
        ex = ar(pf, f[1], f[2]) + ar(f[0], pf, f[2]) + ar(f[0], f[1], pf) - ar(*f)
        return TRUE if ex > 1e-5 else FALSE

    def gen_off(rng, env):
        T = rnd_simplex(rng, 3, minvol=0.05)
        k = rng.choice(['in', 'vertex', 'edge', 'near', 'out', 'off'])
        if k == 'off':
            p = gen.add6(gen.comb(T, gen.rnd_bary(rng, 3, 'in')), gen.mul6(rnd_v6(rng), gen.Q(Fraction(1, rng.choice([1, 4, 20, 100])))))
        else:
            p = gen.comb(T, gen.rnd_bary(rng, 3, k))
        return [to6(disguise(rng, p)), to6([disguise(rng, t, 0.2) for t in T])]
    Contract(q + 'on_out_surface', ['C14', 'C22'], s_surf, [
        Case('points of the plane, any non-degenerate triangle', None, sym=simplex6_sym(3), gen=gen_pt6(3), runs=80),
        Case('any point (sampled)', None, gen=gen_off, nosym=True, runs=80)])

    def s_pos(p, L):
        need(base(p).shape == (6, 3) and base(L).shape == (2, 6, 3))
        P = list(matvec(qq, vals(p)))
        A, B = perps(L)
        if logic.CTX is not None and logic.CTX.abstract and not logic.isconst([P, A, B]):
            k = (logic.akey(P), frozenset((logic.akey(A), logic.akey(B))))
            return tri(logic.opaque('on segment', k), logic.opaque('off segment', k))
        ab, ap = sub3(B, A), sub3(P, A)
        l2 = nvec(ab)
        if tobool(l2 == 0):
            return boolean(FALSE)
        s = ratio(dot3(ap, ab), l2)
        w = sub3(ap, [s * x for x in ab])
        w2 = nvec(w)
        on = sand([w2 == 0, s >= 0, s <= 1])
        # distance from the segment more than 1/100, for segments not shorter than 1/100
        c = Num.of(Fraction(1, 10 ** 4))
        far = sor([sand([s >= 0, s <= 1, w2 > c]), sand([s < 0, nvec(ap) > c]), sand([s > 1, nvec(sub3(P, B)) > c])])
        return tri(on, sand([far, l2 >= c]))

    def gen_seg(rng, env):
        A, B = rnd_simplex(rng, 2, minvol=0.1)
        k = rng.choice(['on', 'on', 'end', 'beyond', 'near', 'off', 'degenerate'])
        t = Fraction(rng.randint(1, 15), 16)
        if k == 'end':
            t = Fraction(0)      # the far end is subject to rounding, see DESIGN.md
        if k == 'beyond':
            t = rng.choice([Fraction(-1, 2), Fraction(3, 2), Fraction(-1, 50), Fraction(51, 50), Fraction(5), Fraction(-7)])
        p = gen.comb([A, B], [gen.Q(1 - t), gen.Q(t)])
        if k == 'near':
            p = gen.add6(p, gen.mul6(rnd_v6(rng), gen.Q(Fraction(1, rng.choice([5, 10, 20])))))
        if k == 'off':
            p = rnd_v6(rng)
        if k == 'degenerate':
            B = A
        return [to6(disguise(rng, p, 0.3)), to6([A, B])]

    def seg_sym():
        o = [logic.fresh('o%d' % j) for j in range(6)]
        e = [logic.fresh('e%d' % j) for j in range(6)]
        logic.factor('S', nvec(list(matvec(qq, e))), 'pos')
        l = logic.fresh('l')
        tv = lambda v: np.array([list(logic.canon(x)) for x in v], dtype=object)
        return [arr.mk(tv([a + l * b for a, b in zip(o, e)]), 'int'), arr.mk(np.array([tv(o), tv([a + b for a, b in zip(o, e)])], dtype=object), 'int')]
    Contract(q + 'point_on_segment', ['C14', 'C22'], s_pos, [
        Case('points of the line', None, sym=seg_sym, gen=gen_seg, runs=120)])

    # ------------------------------------------------------------- C15 segment tests
    tv = lambda v: np.array([list(logic.canon(x)) for x in v], dtype=object)

    def lincomb(o, *terms):
        out = list(o)
        for k, e in terms:
            out = [a + k * b for a, b in zip(out, e)]
        return out

    def fmat(rows):
        return arr.mk(np.array([list(r) for r in rows], dtype=object), 'float')

    def imat(rows):
        return arr.mk(np.array([tv(r) for r in rows], dtype=object), 'int')

    def fv(nm, n):
        return [logic.fresh('%s%d' % (nm, j)) for j in range(n)]

    proj = lambda dim: (lambda e: list(e)) if dim == 3 else (lambda e: list(matvec(qq, e)))
    out_ = lambda dim: fmat if dim == 3 else imat

    def seg_tri_sym(dim, parallel=False):
        """triangle c, c+e1, c+e2; segment a, a+r; a = c + u e1 + v e2 - t r: every pair with r transversal"""
        def f():
            c, e1, e2 = fv('c', dim), fv('e', dim), fv('f', dim)
            if parallel:
                p, q_ = logic.fresh('p'), logic.fresh('q')
                r = lincomb([Num.of(0)] * dim, (p, e1), (q_, e2))
                a = fv('a', dim)
            else:
                r = fv('r', dim)
                P = proj(dim)
                factor_pos('D', det3(P(e1), P(r), P(e2)))
                u, v, t = logic.fresh('u'), logic.fresh('v'), logic.fresh('t')
                a = lincomb(c, (u, e1), (v, e2), (-t, r))
            return [out_(dim)([a, lincomb(a, (Num.of(1), r))]), out_(dim)([c, lincomb(c, (Num.of(1), e1)), lincomb(c, (Num.of(1), e2))])]
        return f

    LIM = Num.of(Fraction(1, 10 ** 5))

    def seg_tri(L, T):
        """(must intersect, must not, parameter t of the exact intersection of the line with the plane or None)"""
        if logic.CTX is not None and logic.CTX.abstract and not logic.isconst([L, T]):
            k = tuple(tuple(sorted((logic.akey(x) for x in M), key=repr)) for M in (L, T))
            return logic.opaque('segment meets triangle', k), logic.opaque('segment misses triangle', k), None
        r, e1, e2 = sub3(L[1], L[0]), sub3(T[1], T[0]), sub3(T[2], T[0])
        ca = sub3(L[0], T[0])
        P, Q_ = cross3(r, e2), cross3(ca, e1)
        d = dot3(P, e1)
        if tobool(d == 0):
            return FALSE, TRUE, None
        u, v, t = ratio(dot3(P, ca), d), ratio(dot3(Q_, r), d), ratio(dot3(Q_, e2), d)
        one = Num.of(1)
        must = sand([abs(d) >= LIM, u >= 0, v >= 0, u + v <= 1, t >= 0, t <= 1])
        mustnot = sor([u < -LIM, v < -LIM, u + v > one + LIM, t < -LIM, t > one + LIM])
        return must, mustnot, t

    def gparam(rng, lo=False):
        k = rng.random()
        if k < 0.15:
            return Fraction(0)
        if k < 0.3:
            return Fraction(1)
        if k < 0.7:
            return Fraction(rng.randint(1, 15), 16)
        if k < 0.85:
            j = rng.choice([rng.randint(1, 13), rng.randint(1, 13), rng.randint(20, 24)])     # beyond 2^-20: within the tolerance of the code
            return rng.choice([Fraction(-1, 2 ** j), 1 + Fraction(1, 2 ** j)])
        return Fraction(rng.randint(-24, 40), 8)

    def qparam(rng, dim):
        """a parameter of a crossing point: rational, a multiple of tau, or a+b*tau, never close to 0 or 1 unless equal"""
        if dim == 3 or rng.random() < 0.6:
            return gen.Q(gparam(rng))
        for _ in range(50):
            a = Fraction(rng.randint(-3, 3), rng.choice([1, 2, 3])) if rng.random() < 0.5 else Fraction(0)
            b = Fraction(rng.choice([-3, -2, -1, 1, 2, 3]), rng.choice([1, 2, 3, 4, 5]))
            x = gen.Q(a + b / 2, b / 2) if ico else gen.Q(a, b / 2)
            if -0.6 < float(x) < 1.6 and min(abs(float(x)), abs(float(x) - 1)) > 0.01:
                return x
        return gen.Q(gparam(rng))

    def gen_seg_tri(dim):
        def vec(rng):
            return [gen.Q(dy(rng)) for _ in range(3)] if dim == 3 else rnd_v6(rng)

        def g(rng, env):
            P = (lambda x: x) if dim == 3 else gen.perp
            lc = lambda o, *ts: [sum((k * e[j] for k, e in ts), o[j]) for j in range(len(o))]
            for _ in range(100):
                c, e1, e2, r = vec(rng), vec(rng), vec(rng), vec(rng)
                if abs(float(gen.det3(P(e1), P(r), P(e2)))) > 0.01:
                    break
            if rng.random() < 0.12:      # parallel
                r = lc([gen.Q(0)] * len(c), (gen.Q(dy(rng)), e1), (gen.Q(dy(rng)), e2))
            u = qparam(rng, dim)
            v = qparam(rng, dim) if rng.random() < 0.4 else (gen.Q(1) - u) * gen.Q(gparam(rng))
            t = qparam(rng, dim)
            a = lc(c, (u, e1), (v, e2), (gen.Q(0) - t, r))
            L, T = [a, lc(a, (gen.Q(1), r))], [c, lc(c, (gen.Q(1), e1)), lc(c, (gen.Q(1), e2))]
            if rng.random() < 0.5:
                rng.shuffle(T)
            if dim == 3:
                return [np.array([[float(x) for x in p] for p in M]) for M in (L, T)]
            T = [disguise(rng, x, 0.3) for x in T]
            return [to6(L), to6(T)]
        return g

    def seg_seg(L1, L2):
        """(must, mustnot, s)"""
        if logic.CTX is not None and logic.CTX.abstract and not logic.isconst([L1, L2]):
            k = tuple(sorted((tuple(sorted((logic.akey(x) for x in L), key=repr)) for L in (L1, L2)), key=repr))
            return logic.opaque('segments cross', k), logic.opaque('segments apart', k), None
        r, e = sub3(L1[1], L1[0]), sub3(L2[1], L2[0])
        ac = sub3(L2[0], L1[0])
        n = cross3(r, e)
        nn = nvec(n)
        if tobool(nn == 0):
            return FALSE, TRUE, None
        # closest points:  A+s r,  C+t e
        s = ratio(dot3(cross3(ac, e), n), nn)
        t = ratio(dot3(cross3(ac, r), n), nn)
        h = dot3(ac, n)
        one = Num.of(1)
        must = sand([nn >= LIM, h == 0, s >= 0, s <= 1, t >= 0, t <= 1])
        mustnot = sor([s < -LIM, s > one + LIM, t < -LIM, t > one + LIM, h * h > Num.of(Fraction(1, 10 ** 5)) * nn])
        return must, mustnot, s

    def seg_seg_sym(dim, parallel=False):
        def f():
            a, r = fv('a', dim), fv('r', dim)
            if parallel:
                k = logic.fresh('k')
                e = [k * x for x in r]
                c = fv('c', dim)
            else:
                e = fv('e', dim)
                P = proj(dim)
                logic.factor('S', nvec(cross3(P(r), P(e))), 'pos')
                s, t = logic.fresh('s'), logic.fresh('t')
                c = lincomb(a, (s, r), (-t, e))
            one = Num.of(1)
            return [out_(dim)([a, lincomb(a, (one, r))]), out_(dim)([c, lincomb(c, (one, e))])]
        return f

    def gen_seg_seg(dim):
        def g(rng, env):
            planar = rng.random() < 0.8
            vec = (lambda: [gen.Q(dy(rng)) for _ in range(2)] + [gen.Q(0 if planar else dy(rng))]) if dim == 3 else (lambda: rnd_v6(rng))
            P = (lambda x: x) if dim == 3 else gen.perp
            lc = lambda o, *ts: [sum((k * e[j] for k, e in ts), o[j]) for j in range(len(o))]
            for _ in range(100):
                a, r, e = vec(), vec(), vec()
                n = gen.cross(P(r), P(e))
                if float(gen.dot(n, n)) > 0.01:
                    break
            k = rng.random()
            if k < 0.12:
                e = [gen.Q(rng.choice([-2, -1, 1, 3])) * x for x in r]
            c = lc(a, (qparam(rng, dim), r), (gen.Q(0) - qparam(rng, dim), e))
            if k > 0.9:
                c = vec()
            L1, L2 = [a, lc(a, (gen.Q(1), r))], [c, lc(c, (gen.Q(1), e))]
            if dim == 3:
                return [np.array([[float(x) for x in p] for p in M]) for M in (L1, L2)]
            return [to6(L1), to6([disguise(rng, x, 0.3) for x in L2])]
        return g

    TT = 'any transversal pair'
    if ico:
        def s_st(L, T):
            need(reals(L).shape == (2, 3) and reals(T).shape == (3, 3))
            a, b, _ = seg_tri(reals(L), reals(T))
            return tri(a, b)
        Contract(q + 'check_intersection_segment_surface_numerical', ['C15', 'C16', 'C22'], s_st, [
            Case(TT, None, sym=seg_tri_sym(3), gen=gen_seg_tri(3), runs=200),
            Case('parallel or degenerate', None, sym=seg_tri_sym(3, True), gen=gen_seg_tri(3), runs=0)])

        def s_st6(L, T):
            need(base(L).shape == (2, 6, 3) and base(T).shape == (3, 6, 3))
            a, b, _ = seg_tri(perps(L), perps(T))
            return tri(a, b)
        Contract(q + 'check_intersection_segment_surface_numerical_6d_tau', ['C15', 'C16', 'C22'], s_st6, [
            Case(TT, None, sym=seg_tri_sym(6), gen=gen_seg_tri(6), runs=100),
            Case('parallel or degenerate', None, sym=seg_tri_sym(6, True), gen=gen_seg_tri(6), runs=0)])
    else:
        def s_ss(L1, L2):
            need(reals(L1).shape == (2, 3) and reals(L2).shape == (2, 3))
            a, b, _ = seg_seg(reals(L1), reals(L2))
            return tri(a, b)
        Contract(q + 'check_intersection_two_segment_numerical', ['C15', 'C16', 'C22'], s_ss, [
            Case(TT, None, sym=seg_seg_sym(3), gen=gen_seg_seg(3), runs=200),
            Case('parallel or degenerate', None, sym=seg_seg_sym(3, True), gen=gen_seg_seg(3), runs=0)])

        def s_ss6(L1, L2):
            need(base(L1).shape == (2, 6, 3) and base(L2).shape == (2, 6, 3))
            a, b, _ = seg_seg(perps(L1), perps(L2))
            return tri(a, b)
        Contract(q + 'check_intersection_two_segment_numerical_6d_tau', ['C15', 'C16', 'C22'], s_ss6, [
            Case(TT, None, sym=seg_seg_sym(6), gen=gen_seg_seg(6), runs=100),
            Case('parallel or degenerate', None, sym=seg_seg_sym(6, True), gen=gen_seg_seg(6), runs=0)])

        def edges_any(L, T):
            r = [seg_seg(L, [T[i], T[j]]) for i, j in ((0, 1), (0, 2), (1, 2))]
            return sor([x[0] for x in r]), sand([x[1] for x in r])

        def seg3_sym(dim):
            def f():
                o = [out_(dim)([fv('a', dim), fv('b', dim)]), out_(dim)([fv('c', dim), fv('d', dim), fv('e', dim)])]
                return o
            return f

        def gen_st(dim):
            g0 = gen_seg_seg(dim)

            def g(rng, env):
                L, E = g0(rng, env)
                x = E[:1] * 1
                if dim == 3:
                    x = np.array([[float(dy(rng)), float(dy(rng)), 0.0]])
                else:
                    x = to6([rnd_v6(rng)])
                T = np.concatenate([E, x])
                k = list(range(3))
                rng.shuffle(k)
                return [L, T[k]]
            return g

        def s_st(L, T):
            need(reals(L).shape == (2, 3) and reals(T).shape == (3, 3))
            return tri(*edges_any(reals(L), reals(T)))
        Contract(q + 'check_intersection_segment_surface_numerical', ['C15', 'C16', 'C22'], s_st, [
            Case('any segment, any triangle', None, sym=seg3_sym(3), gen=gen_st(3), runs=200, abstract=True)])

        def s_st6(L, T):
            need(base(L).shape == (2, 6, 3) and base(T).shape == (3, 6, 3))
            return tri(*edges_any(perps(L), perps(T)))
        Contract(q + 'check_intersection_segment_surface_numerical_6d_tau', ['C15', 'C16', 'C22'], s_st6, [
            Case('any segment, any triangle', None, sym=seg3_sym(6), gen=gen_st(6), runs=100, abstract=True)])

    # ------------------------------------------------------------- C23 coplanarity
    EPS_ = Num.of(Fraction(1, 10 ** 6))
    TOL_ = Num.of(Fraction(1, 10 ** 9))

    def coplanar_rel(P):
        """P: list of points.  facts about the verdict, whatever triple was drawn"""
        n = len(P)
        if n <= 3:
            return boolean(TRUE)
        const = all(Num.of(x).is_const() for p in P for x in p)
        abstract = logic.CTX is not None and logic.CTX.abstract and not const

        def tiny(i, j, k):
            return sand([abs(x) < EPS_ for x in cross3(sub3(P[j], P[i]), sub3(P[k], P[i]))])

        if abstract:
            k = tuple(sorted((logic.akey(x) for x in P), key=repr))
            must, mustnot = logic.opaque('coplanar', k), logic.opaque('not coplanar', k)
        elif const:
            # cheap numeric evaluation with exact confirmation of zero
            dets, allz = None, True
            idx = list(range(n))
            base_t = next(((0, j, k) for j in range(1, n) for k in range(j + 1, n) if any(Num.of(x).n for x in cross3(sub3(P[j], P[0]), sub3(P[k], P[0])))), None)
            if base_t is None:
                cop = True
            else:
                nrm = cross3(sub3(P[base_t[1]], P[0]), sub3(P[base_t[2]], P[0]))
                cop = all(not dot3(nrm, sub3(p, P[0])).n for p in P)
            pf = np.array([[fl(x) for x in p] for p in P])
            somebig, allfar = False, True
            for i, j, k in itertools.combinations(range(n), 3):
                c = np.cross(pf[j] - pf[i], pf[k] - pf[i])
                if np.all(np.abs(c) < 5e-7):
                    continue
                if np.any(np.abs(c) > 2e-6):
                    somebig = True
                if max(abs(np.dot(pf - pf[i], c))) <= 1e-9:
                    allfar = False
            B = lambda b: TRUE if b else FALSE
            # double precision resolves the fixed tolerance 1e-10 only for coordinates of moderate size
            ext = float(np.abs(pf).max()) * float(np.ptp(pf, axis=0).max()) ** 2
            must, mustnot = B(cop and ext <= 1e4), B(allfar and somebig and not cop)
        else:
            must, far, tiny_ = [], [], []
            for i, j, k in itertools.combinations(range(n), 3):
                c = cross3(sub3(P[j], P[i]), sub3(P[k], P[i]))
                ds = [dot3(c, sub3(P[l], P[i])) for l in range(n) if l not in (i, j, k)]
                must += [d == 0 for d in ds]
                t = tiny(i, j, k)
                tiny_.append(t)
                far.append(sor([t] + [abs(d) >= TOL_ for d in ds]))
            must, mustnot = sand(must), sand([sand(far), sor([~t for t in tiny_])])

        def f(res):
            if res is None:
                return [('a verdict', FALSE)]
            x = tobool(res)
            return [('coplanar points are reported coplanar', N.simplies(must, x)), ('points off the plane are reported not coplanar', N.simplies(mustnot, ~x))]

        def stub():
            c = logic.ctx()
            if not abstract:
                return NOSTUB
            i = c.choose(2)
            c.assume([~mustnot, ~must][i])
            return [True, False][i]
        r = rel(f, stub)
        r.must, r.mustnot = must, mustnot
        return r

    def gen_cop(dim):
        def g(rng, env):
            n = rng.randint(3, 8) if rng.random() < 0.85 else rng.randint(9, 24)
            lc = lambda o, *ts: [sum((k * e[j] for k, e in ts), o[j]) for j in range(len(o))]
            V = (lambda: [gen.Q(dy(rng)) for _ in range(3)]) if dim == 3 else (lambda: rnd_v6(rng))
            o, a, b = V(), V(), V()
            c1 = lambda: gen.Q(dy(rng, -4, 4))
            pts = [lc(o, (c1(), a), (c1(), b)) for _ in range(n)]
            k = rng.random()
            if k < 0.45:
                pass
            elif k < 0.6:
                i = rng.randrange(n)
                pts[i] = lc(pts[i], (gen.Q(Fraction(1, rng.choice([1, 2, 16, 128, 2 ** 12, 2 ** 20]))), V()))
            elif k < 0.7 and n >= 4:
                pts[1:] = [lc(pts[0], (c1(), a)) for _ in range(n - 1)]
            else:
                pts = [V() for _ in range(n)]
            rng.shuffle(pts)
            if dim == 3:
                return [np.array([[float(x) for x in p] for p in pts])]
            return [to6([disguise(rng, p, 0.3) for p in pts])]
        return g

    def cop_sym(dim, n):
        def f():
            o, a, b = fv('o', dim), fv('a', dim), fv('b', dim)
            return [out_(dim)([lincomb(o, (logic.fresh('k%d' % i), a), (logic.fresh('m%d' % i), b)) for i in range(n)])]
        return f

    def pts_sym(dim, n):
        return lambda: [out_(dim)([fv('p%d_' % i, dim) for i in range(n)])]

    def s_cop(p, num_iteration=5):
        need(reals(p).ndim == 2 and reals(p).shape[1] == 3)
        return coplanar_rel([list(x) for x in reals(p)])
    c = Contract(q + 'coplanar_check_numeric', ['C23', 'C16', 'C22'], s_cop, [
        Case('1 to 3 points', None, sym=lambda: [out_(3)([fv('p%d_' % i, 3) for i in range(logic.ctx().choose(3) + 1)])], gen=lambda r, e: [Reals(r.randint(1, 3), 3).conc(r, e)], runs=10),
        Case('any 4 points, every draw', None, sym=pts_sym(3, 4), gen=gen_cop(3), bounded='4 points', runs=0, max_paths=4000, kw={'num_iteration': 1}, feas_ms=0),
        Case('5 coplanar points, every draw collinear', None, sym=cop_sym(3, 5), gen=gen_cop(3), bounded='5 points', runs=0, max_paths=4000, kw={'num_iteration': 0}, feas_ms=0),
        Case('5 coplanar points, every draw', None, sym=cop_sym(3, 5), gen=gen_cop(3), bounded='5 points', runs=0, max_paths=4000, kw={'num_iteration': 1}, feas_ms=0, thorough=True),
        Case('any number (sampled)', None, gen=gen_cop(3), nosym=True, runs=200)], seqspec=lambda p, num_iteration=5: ss_cop(p.groups, base(p.buf).reshape(-1)))
    c.nondet = True

    def ss_cop(groups, pts):
        """the verdict as a predicate of the points"""
        k = (tuple(tuple(repr(f) if isinstance(f, seq.Dim) else f for f in g) for g in groups[:1]), logic.akey(pts))
        return tri(logic.opaque('coplanar', k), logic.opaque('not coplanar', k))

    def ss_cop6(p, num_iteration=5):
        need(p.ndim == 3 and list(p.groups[1:]) == [(6,), (3,)])
        return ss_cop(p.groups, np.array([x for v in perps(seq.plain(p)) for x in v], dtype=object))

    def s_cop6(p, num_iteration=5):
        need(base(p).ndim == 3 and base(p).shape[1:] == (6, 3))
        return coplanar_rel(perps(p))
    c = Contract(q + 'coplanar_check_numeric_tau', ['C23', 'C16', 'C22'], s_cop6, [
        Case('any %d points' % n, None, sym=pts_sym(6, n), gen=gen_cop(6), bounded='%d points' % n, runs=0, abstract=True) for n in (2, 4, 5)] + [
        Case('any number (sampled)', None, gen=gen_cop(6), nosym=True, runs=100), Case('any number n >= 1 of points', None, sym=lambda: [seq.SeqKind('n', 6).sym('p')], gen=gen_cop(6), runs=0)], seqspec=ss_cop6)
    c.nondet = True

    Contract(pkg + '.math1.coplanar_check', ['C23', 'C16', 'C22'], s_cop6, [
        Case('any %d points' % n, None, sym=pts_sym(6, n), gen=gen_cop(6), bounded='%d points' % n, runs=0, abstract=True) for n in (2, 4, 5)] + [
        Case('any number (sampled)', None, gen=gen_cop(6), nosym=True, runs=100), Case('any number n >= 1 of points', None, sym=lambda: [seq.SeqKind('n', 6).sym('p')], gen=gen_cop(6), runs=0)], seqspec=ss_cop6).nondet = True
    # shared with the other contract files
    return dict(perps=perps, perp1=perp1, qq=qq, pp=pp, seg_tri=seg_tri, seg_seg=seg_seg, seg_tri_sym=seg_tri_sym, gen_seg_tri=gen_seg_tri, seg_seg_sym=seg_seg_sym,
                gen_seg_seg=gen_seg_seg, gen_cop=gen_cop, coplanar_rel=coplanar_rel, vol=vol, area=area, imat=imat, fmat=fmat, fv=fv, lincomb=lincomb, tv=tv,
                pts_sym=pts_sym, s_pos=s_pos, s_int=s_int, s_st6=s_st6, norm=norm, seg3_sym=None if ico else seg3_sym, cop_sym=cop_sym, dy=dy, gen_st=gen_st if not ico else None, edges_any=edges_any if not ico else None)
