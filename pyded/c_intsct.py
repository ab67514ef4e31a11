"""Contracts of intsct.py and two_occupation_domains.py (both packages)."""
import itertools, math
from fractions import Fraction
import numpy as np
from . import num as N, logic, arr, gen, clip
from .num import Num, sand, sor, tobool, TRUE, FALSE
from .core import *
from .core import vals, NOSTUB, fl
from .logic import Infeasible
from .arr import base, obj, mk
from .c_math1 import matvec, need
from .c_num import sub3, cross3, nvec
from .c_utils import B, aconst, ikey, canon_, symrows
from .gen import Q, to6, rnd_v6, rnd_simplex, disguise

MINV = 1e-3       # common parts with 0 < 6*volume (2*area) < MINV are below the resolution of the float predicates
RES = 2e-5        # a float parameter is exactly at a boundary or at least this far from it


def qn(x):
    return Q(*Num.of(x).cval())


def fpt(P):
    return np.array([[float(x) for x in p] for p in P])


def params_ok(*xs):
    """every parameter is 0 or 1 exactly (to rounding) or well away from both"""
    for x in xs:
        for b in (0.0, 1.0):
            d = abs(x - b)
            if 1e-9 < d < RES:
                return False
    return True


def resolved(S, T):
    """the relative position of two simplices (Q points) is resolved by the tolerances of the float predicates"""
    n = len(S)
    F, G = fpt(S), fpt(T)
    for A, Bm in ((F, G), (G, F)):
        k = n - 1
        M = (Bm[1:] - Bm[0])[:, :k].T
        if abs(np.linalg.det(M)) < 1e-3:
            return False
        L = np.linalg.solve(M, (A - Bm[0])[:, :k].T).T
        for l in L:
            if not params_ok(*l, 1 - l.sum()):
                return False
        for i, j in itertools.combinations(range(n), 2):
            a, r = A[i], A[j] - A[i]
            for f in itertools.combinations(range(n), n - 1):
                if n == 4:
                    c, e1, e2 = Bm[f[0]], Bm[f[1]] - Bm[f[0]], Bm[f[2]] - Bm[f[0]]
                    d = np.dot(np.cross(r, e2), e1)
                    if abs(d) < 1e-9:
                        continue
                    if abs(d) < 1e-4:
                        return False
                    P, Q_ = np.cross(r, e2), np.cross(a - c, e1)
                    u, v, t = np.dot(P, a - c) / d, np.dot(Q_, r) / d, np.dot(Q_, e2) / d
                    if not params_ok(u, v, t, 1 - u - v):
                        return False
                else:
                    c, e = Bm[f[0]], Bm[f[1]] - Bm[f[0]]
                    d = r[0] * e[1] - r[1] * e[0]
                    if abs(d) < 1e-9:
                        continue
                    if abs(d) < 1e-3:
                        return False
                    w = c - a
                    if not params_ok((w[0] * e[1] - w[1] * e[0]) / d, (w[0] * r[1] - w[1] * r[0]) / d):
                        return False
    return True


def point_simplex_dist(p, T):
    """float distance of a point from a simplex (vertices in rows)"""
    best = math.inf
    n = len(T)
    for k in range(1, n + 1):
        for f in itertools.combinations(range(n), k):
            V = T[list(f)]
            if k == 1:
                best = min(best, np.linalg.norm(p - V[0]))
                continue
            M = (V[1:] - V[0]).T
            l, *_ = np.linalg.lstsq(M, p - V[0], rcond=None)
            if np.all(l >= -1e-12) and l.sum() <= 1 + 1e-12:
                best = min(best, np.linalg.norm(p - V[0] - M @ l))
    return best


def build(pkg, H):
    q = pkg + '.intsct.'
    ico = pkg == 'ico2'
    nv = 4 if ico else 3
    perps, qq, perp6, same = H['perps'], H['qq'], H['perp6'], H['same']
    seg_tri, seg_seg, norm, kadd, apart = H['seg_tri'], H['seg_seg'], H['norm'], H['kadd'], H['apart']
    rows_of, arr_rows, g_complex, gvec = H['rows_of'], H['arr_rows'], H['g_complex'], H['gvec']
    t6 = lambda S: mk(np.array([[canon_(x) for x in v] for v in S], dtype=object), 'int')
    abstract = lambda: logic.CTX is not None and logic.CTX.abstract

    # ------------------------------------------------------------- C15 intersection points
    def at(L6, s):
        a, b = vals(L6[0]), vals(L6[1])
        return np.array([x + s * (y - x) for x, y in zip(a, b)], dtype=object)

    if ico:
        def s_iss(L, T):
            need(base(L).shape == (2, 6, 3) and base(T).shape == (3, 6, 3))
            a, b, t = seg_tri(perps(L), perps(T))
            if t is None:
                return none()
            return opt(a, b, trips(at(base(L), t)[None]))
        Contract(q + 'intersection_segment_surface', ['C15', 'C16', 'C22'], s_iss, [
            Case('any transversal pair', None, sym=H['seg_tri_sym'](6), gen=H['gen_seg_tri'](6), runs=100),
            Case('parallel or degenerate', None, sym=H['seg_tri_sym'](6, True), gen=H['gen_seg_tri'](6), runs=0)])
    else:
        def s_its(L1, L2):
            need(base(L1).shape == (2, 6, 3) and base(L2).shape == (2, 6, 3))
            a, b, s = seg_seg(perps(L1), perps(L2))
            if abstract() and s is None and a.op == 'z3':
                # the point as a function of the two segments
                k = (ikey(L1), ikey(L2))
                f = logic.ctx().funs
                if ('pt', k) not in f:
                    f[('pt', k)] = np.array([logic.fresh('x%d_%d' % (len(f), j)) for j in range(6)], dtype=object)
                return opt(a, b, trips(f[('pt', k)]))
            if s is None:
                return none()
            return opt(a, b, trips(at(base(L1), s)))
        Contract(q + 'intersection_two_segment', ['C15', 'C16', 'C22'], s_its, [
            Case('any transversal pair', None, sym=H['seg_seg_sym'](6), gen=H['gen_seg_seg'](6), runs=100),
            Case('parallel or degenerate', None, sym=H['seg_seg_sym'](6, True), gen=H['gen_seg_seg'](6), runs=0)])

        def s_iss(L, T):
            need(base(L).shape == (2, 6, 3) and base(T).shape == (3, 6, 3))
            E = [np.stack([base(T)[i], base(T)[j]]) for i, j in ((0, 1), (0, 2), (1, 2))]
            rs = [s_its(mk(base(L), 'int'), mk(e, 'int')) for e in E]
            must = sor([r.val[0] if r.kind == 'opt' else FALSE for r in rs])
            mustnot = sand([r.val[1] if r.kind == 'opt' else TRUE for r in rs])
            rs = [r for r in rs if r.kind == 'opt']

            def eqv(row, r):
                return sand([vals(row[j]) == r.val[2].val[j] for j in range(6)])

            def f(res):
                if not isinstance(res, np.ndarray) or res.size % 18 or res.size == 0:
                    return [('6D points', FALSE)]
                A = (base(res) if isinstance(res, arr.SymArr) else obj(res)).reshape(-1, 6, 3)
                out = [('crossing point %d is listed' % i, N.simplies(r.val[0], sor([eqv(a, r) for a in A]))) for i, r in enumerate(rs)]
                out += [('listed point %d is a crossing point' % i, sor([sand([~r.val[1], eqv(a, r)]) for r in rs])) for i, a in enumerate(A)]
                return out
            return opt(must, mustnot, rel(f))
        Contract(q + 'intersection_segment_surface', ['C15', 'C16', 'C22'], s_iss, [
            Case('any segment, any triangle', None, sym=H['seg3_sym'](6), gen=H['gen_st'](6), runs=80, abstract=True)], stub=False)

    # ------------------------------------------------------------- C17 bounding balls
    def dist(u, v):
        return norm([a - b for a, b in zip(perp6(u), perp6(v))])

    def s_dist(u, v):
        need(base(u).shape == (6, 3) and base(v).shape == (6, 3))
        return real(dist(base(u), base(v)))

    def g_dist(rng, env):
        a = gvec(rng)
        return [to6(a), to6(disguise(rng, a) if rng.random() < 0.2 else gvec(rng))]
    Contract(q + 'distance_in_perp_space', ['C17', 'C22'], s_dist, [Case('any two vectors', [Trips(6), Trips(6)], gen=g_dist, runs=60)])

    def radius_rel(V, c):
        if aconst(V) and aconst(c):
            far = max(([a - b for a, b in zip(perp6(v), perp6(c))] for v in V), key=lambda w: fl(nvec(w)))
            return real(Num.of(Fraction(math.sqrt(fl(nvec(far))))))
        ns, seen = [], set()
        for v in V:
            k = logic.akey(perp6(v))
            if k not in seen:
                seen.add(k)
                ns.append(dist(v, c))

        def f(res):
            x = Num.of(res) if not isinstance(res, np.ndarray) else None
            if x is None:
                return [('a number', FALSE)]
            return [('covers vertex %d' % i, x >= n) for i, n in enumerate(ns)] + [('reached by a vertex', sor([x == n for n in ns]))]

        def stub():
            cx = logic.ctx()
            i = cx.choose(len(ns))
            for j, n in enumerate(ns):
                if j != i:
                    cx.assume(ns[i] >= n)
            return ns[i]
        return rel(f, stub)

    def s_brad(o, c):
        A = base(o)
        need(A.ndim in (3, 4) and A.shape[-2:] == (6, 3) and base(c).shape == (6, 3) and A.size > 0)
        if abstract():
            return real(logic.fresh('radius', 'real', 'nonneg'))
        return radius_rel(list(A.reshape(-1, 6, 3)), base(c))

    def parts(n):
        """set partitions as restricted growth strings"""
        out = [[0]]
        for _ in range(n - 1):
            out = [p + [k] for p in out for k in range(max(p) + 2)]
        return out

    def ball_sym(*sh):
        n = int(np.prod(sh))

        def f():
            P = parts(n)
            pat = P[logic.ctx().choose(len(P))]
            reps, rows = [], []
            for i, k in enumerate(pat):
                if k == len(reps):
                    reps.append([logic.fresh('v%d_%d' % (i, j)) for j in range(6)])
                    rows.append(reps[k])
                else:
                    rows.append(kadd(reps[k], 'k%d' % i))
            for x, y in itertools.combinations(reps, 2):
                apart(matvec(qq, x), matvec(qq, y))
            c = [logic.fresh('c%d' % j) for j in range(6)]
            return [mk(base(t6(rows)).reshape(sh + (6, 3)), 'int'), mk(base(t6([c]))[0], 'int')]
        return f

    def g_ball(nd):
        def g(rng, env):
            o = to6(H['gset'](rng, nv, 0.15, 0.5)) if nd == 3 else g_complex(nv)(rng, env)[0]
            if nd == 3 and rng.random() < 0.3:
                o = to6(H['gset'](rng, rng.randint(1, 7)))
            if rng.random() < 0.08:                 # many vertices
                n = rng.randint(12, 24)
                o = to6([gvec(rng) for _ in range(n * nv)])
                o = o if nd == 3 else o.reshape(n, nv, 6, 3)
            k = rng.random()
            c = gvec(rng) if k < 0.7 else (gen.q6(o.reshape(-1, 6, 3)[rng.randrange(o.size // 18)]))
            if nd == 3 and rng.random() < 0.3:      # distances that differ by little
                v = gen.sub6(gvec(rng), c)
                o = to6([gen.add6(c, gen.mul6(v, Q(1 + Fraction(rng.randint(0, 4), rng.choice([500, 3000, 20000]))))) for _ in range(rng.randint(2, 4))])
            return [o, to6(c)]
        return g
    bcases = lambda: [
        Case('%s vertices' % 'x'.join(map(str, sh)), None, sym=ball_sym(*sh), gen=g_ball(2 + len(sh)), bounded='%d vertices' % int(np.prod(sh)), runs=0) for sh in ((1,), (2,), (3,), (1, 2))] + [
        Case('any set of vertices (sampled)', None, gen=g_ball(3), nosym=True, runs=60), Case('any object (sampled)', None, gen=g_ball(4), nosym=True, runs=30)]
    from . import seq

    def ss_brad(o, c):
        """largest distance over all vertices (0 is never exceeded downwards: distances are not negative)"""
        need(isinstance(o, seq.SymSeq) and o.ndim in (3, 4) and not isinstance(c, seq.SymSeq))
        r = seq.dedup(o, None, [])
        return real(seq.bigmax(0, [dist(v, base(c)) for v in r.val], r.kw['groups'][0]))
    anyn = lambda: [Case('any number n >= 1 of vertices', [seq.SeqKind('n', 6, mode='canon'), Trips(6, mode='canon')], runs=0),
                    Case('any number n >= 1 of simplices', [seq.SeqKind('n', nv, 6, mode='canon'), Trips(6, mode='canon')], runs=0)]
    Contract(q + 'ball_radius_obj', ['C17', 'C16', 'C22'], s_brad, bcases() + anyn(), seqspec=ss_brad)
    Contract(q + 'ball_radius', ['C17', 'C16', 'C22'], s_brad, [bcases()[2]] + bcases()[4:5] + anyn()[:1], seqspec=ss_brad)
    rname = 'rough_check_intersection_tetrahedron_obj' if ico else 'rough_check_intersection_triangle_obj'

    def s_rough(T, c, d):
        A = base(T)
        need(A.shape == (nv, 6, 3) and base(c).shape == (6, 3))
        d = Num.of(d)
        if abstract() and not aconst(A):
            f = logic.ctx().funs
            k = ('near', ikey(A))
            if k not in f:
                f[k] = logic.ctx().choose(2) == 0
            return boolean(TRUE if f[k] else FALSE)
        if aconst(A) and aconst(c):
            P = fpt([[qn(x) for x in perp6(v)] for v in A])
            cc = fpt([[qn(x) for x in perp6(base(c))]])[0]
            return tri(B(point_simplex_dist(cc, P) <= fl(d) - 1e-9), FALSE)
        cen = np.array([base(t) for t in base(t6([[sum((vals(v[j]) for v in A), Num.of(0)) / nv for j in range(6)]]))[0]], dtype=object)
        R = [dist(v, cen) for v in A]
        d0 = dist(cen, base(c))
        return tri(sor([d0 <= r + d for r in R]), FALSE)

    def g_rough(rng, env):
        T = rnd_simplex(rng, nv, 0.02)
        k = rng.choice(['in', 'vertex', 'edge', 'vertex', 'out'])
        x = gen.comb(T, gen.rnd_bary(rng, nv, k))
        c = gvec(rng) if rng.random() < 0.5 else gen.add6(x, gen.mul6(gvec(rng), Q(rng.choice([1, 2, 5, 20]))))
        w = gen.sub3(gen.perp(x), gen.perp(c))
        d = math.sqrt(float(gen.dot(w, w))) + rng.choice([1e-6, 1e-6, 1e-3, 0.5])
        return [to6([disguise(rng, t, 0.2) for t in T]), to6(c), d]

    def rough_sym():
        P = [[logic.fresh('v%d_%d' % (i, j)) for j in range(6)] for i in range(nv)]
        for x, y in itertools.combinations(P, 2):
            apart(matvec(qq, x), matvec(qq, y))
        return [t6(P), Trips(6, mode='canon').sym('c'), Reals(sign='nonneg').sym('d')]
    Contract(q + rname, ['C17', 'C16', 'C22'], s_rough, [
        Case('any simplex, any ball', None, sym=rough_sym, gen=g_rough, runs=150)])

    # ------------------------------------------------------------- C16
    cname = 'check_intersection_two_tetrahedron_4' if ico else 'check_intersection_two_triangles'
    iname = 'intersection_two_tetrahedron_4' if ico else 'intersection_two_triangles'
    EDGE = list(itertools.combinations(range(nv), 2))
    FACE = list(itertools.combinations(range(nv), 3))

    def qs(S):
        return [[qn(x) for x in perp6(v)] for v in S]

    def two(S, T):
        """Q points of both, precondition: resolved pair"""
        need(aconst(S) and aconst(T))
        P, R = qs(S), qs(T)
        need(abs(float(clip.signed(P))) > 0.01 and abs(float(clip.signed(R))) > 0.01)
        need(clip.far(P, R) or resolved(P, R))
        return P, R

    def volume_ok(V):
        need(V == Q(0) or float(V) >= MINV)

    def s_flag(S, T):
        need(base(S).shape == (nv, 6, 3) and base(T).shape == (nv, 6, 3))
        if abstract() and logic.ctx().flags_known:
            f = logic.ctx().funs
            k = ('flag', ikey(S), ikey(T))
            if k not in f:
                f[k] = logic.ctx().choose(4)
            return exact(f[k])
        con = aconst(S) and aconst(T)
        if con:
            P, R = two(base(S), base(T))
            V = clip.common([P], [R])
            volume_ok(V)
        i1 = [H['s_int'](v, T).val for v in base(S)]
        i2 = [H['s_int'](v, S).val for v in base(T)]
        pr = []
        for A, Bm in ((base(S), base(T)), (base(T), base(S))):
            for e in EDGE:
                for fc in FACE:
                    pr.append(H['s_st6'](mk(np.stack([A[i] for i in e]), 'int'), mk(np.stack([Bm[i] for i in fc]), 'int')).val)

        def f(res):
            try:
                x = int(res.item() if hasattr(res, 'item') else res)
            except Exception:
                return [('a flag', FALSE)]
            out = [('flag is 0, 1, 2 or 3', B(x in (0, 1, 2, 3)))]
            some1, some2 = sor([~m for m, _ in i1]), sor([~m for m, _ in i2])
            if x == 1:
                out += [('vertex %d of the first is inside the second' % i, ~n) for i, (_, n) in enumerate(i1)]
            elif x == 2:
                out += [('vertex %d of the second is inside the first' % i, ~n) for i, (_, n) in enumerate(i2)]
            elif x == 3:
                out += [('an edge meets a face', sor([~n for _, n in pr]))]
            elif x == 0:
                out += [('no edge meets a face [%d]' % i, ~m) for i, (m, _) in enumerate(pr)]
                out += [('the first is not inside', some1), ('the second is not inside', some2)]
                if con:
                    out.append(('no common interior', B(V == Q(0))))
            return out
        return rel(f)

    def two_sym():
        P = [[[logic.fresh('%s%d_%d' % (n, i, j)) for j in range(6)] for i in range(nv)] for n in 'ab']
        return [t6(p) for p in P]

    def iv(rng):
        """small integer vector: exact intersections stay within 64 bits"""
        v = [Q(rng.choice([-1, 0, 0, 1])) for _ in range(6)]
        if not ico:
            v[5] = Q(0)
        return v

    def isimplex(rng):
        for _ in range(200):
            vs = [iv(rng) for _ in range(nv)]
            if abs(float(clip.signed([gen.perp(v) for v in vs]))) > 0.05:
                return vs
        raise ValueError

    def g_pair(rng, env):
        for _ in range(60):
            a = isimplex(rng) if rng.random() < 0.6 else rnd_simplex(rng, nv, 0.05)
            k = rng.choice(['rnd', 'inside', 'outside', 'vert', 'vert', 'share', 'share', 'mid', 'nudge', 'same'])
            if k == 'rnd':
                b = isimplex(rng)
            elif k == 'inside':
                b = [gen.pnt_in(rng, a, 'in') for _ in range(nv)]
            elif k == 'outside':
                cen = gen.comb(a, [Q(Fraction(1, nv))] * nv)
                b = [gen.add6(cen, gen.mul6(gen.sub6(x, cen), Q(rng.choice([1, 2, Fraction(3, 2)])))) for x in a]
            elif k == 'vert':
                b = [gen.pnt_in(rng, a, rng.choice(['in', 'vertex', 'edge', 'out'])) for _ in range(nv)]
            elif k == 'share':
                b = rng.sample(a, rng.randint(1, nv - 1))
                b = b + [iv(rng) for _ in range(nv - len(b))]
            elif k == 'mid':
                b = [gen.pnt_in(rng, a, 'edge') for _ in range(nv)]
            elif k == 'nudge':
                s = gen.mul6(iv(rng), Q(Fraction(1, rng.choice([1, 2, 4]))))
                b = [gen.add6(x, s) for x in a]
            else:
                b = list(a)
            A, Bm = [gen.perp(x) for x in a], [gen.perp(x) for x in b]
            if abs(float(clip.signed(Bm))) < 0.02:
                continue
            rng.shuffle(b)
            a, b = [disguise(rng, x, .1) for x in a], [disguise(rng, x, .1) for x in b]
            if rng.random() < 0.5:
                a, b = b, a
            return [to6(a), to6(b)]
        raise ValueError
    Contract(q + cname, ['C16', 'C22'], s_flag, [
        Case('any two simplices', None, sym=two_sym, gen=g_pair, runs=100, abstract=True, max_paths=3000, feas_ms=0),
    ])

    def contains(S, P):
        hs = clip.halfspaces(S)
        return all((gen.dot(n, p) - c).sign() >= 0 for p in P for n, c in hs)

    def region_facts(V, inside, overlap=True):
        """result simplices: inside the region, total size V, not overlapping"""
        def f(res):
            A = arr_rows(res, nv)
            if A is None or len(A) == 0:
                return [('a set of simplices', FALSE)]
            R = [qs(s) for s in A]
            out = [('total volume', B(clip.total(R) == V)), ('inside the common region', B(all(inside(r) for r in R)))]
            if overlap and len(R) <= 10:
                ov = Q(0)
                for x, y in itertools.combinations(R, 2):
                    ov = ov + clip.common([x], [y])
                out.append(('no overlap', B(ov == Q(0))))
            return out
        return f

    def s_int2(S, T):
        need(base(S).shape == (nv, 6, 3) and base(T).shape == (nv, 6, 3))
        if abstract() and logic.ctx().flags_known:
            f = logic.ctx().funs
            k = ('common', ikey(S), ikey(T))
            if k not in f:
                if logic.ctx().choose(2) == 0:
                    f[k] = None
                else:
                    f[k] = base(t6([[logic.fresh('z%d_%d_%d' % (len(f), i, j)) for j in range(6)] for i in range(nv)]))
            if f[k] is None:
                return none()
            return rel(lambda r: [], lambda: mk(np.array(f[k][None], dtype=object), 'int'))
        P, R = two(base(S), base(T))
        V = clip.common([P], [R])
        volume_ok(V)
        if V == Q(0):
            return none()
        return rel(region_facts(V, lambda s: contains(P, s) and contains(R, s)))
    Contract(q + iname, ['C16', 'C22'], s_int2, [
        Case('any two simplices (sampled)', None, gen=g_pair, nosym=True, runs=100)]).nondet = True

    def covered(s, O):
        return clip.common([s], O) == clip.size(s)

    def obj_spec(simple=False):
        def s(o1, o2, kind=None, verbose=0):
            A, Bm = base(o1), base(o2)
            need(A.ndim == 4 and Bm.ndim == 4 and A.shape[1:] == (nv, 6, 3) and Bm.shape[1:] == (nv, 6, 3) and len(A) and len(Bm))
            if abstract():
                return abs_spec(A, Bm)
            need(aconst(A) and aconst(Bm))
            O1, O2 = [qs(x) for x in A], [qs(x) for x in Bm]
            V = Q(0)
            for x in O1:
                need(abs(float(clip.signed(x))) > 0.005)
            for y in O2:
                need(abs(float(clip.signed(y))) > 0.005)
            for x in O1:
                for y in O2:
                    if clip.far(x, y):
                        continue
                    need(resolved(x, y))
                    v = clip.common([x], [y])
                    volume_ok(v)
                    V = V + v
            if V == Q(0):
                return none()
            return rel(region_facts(V, lambda r: covered(r, O1) and covered(r, O2)))
        return s

    def abs_spec(A, Bm):
        """the result lists, for every pair of simplices not excluded by the bounding ball, its common part"""
        fn = logic.ctx().funs
        want = []
        for x in A:
            if fn.get(('near', ikey(x))) is False:
                continue
            fl_ = [fn.get(('flag', ikey(x), ikey(y))) for y in Bm]
            pcs = []
            for y, g in zip(Bm, fl_):
                if g == 1:
                    pcs.append((1, x))
                elif g == 2:
                    pcs.append((2, y))
                elif g == 3:
                    z = fn.get(('common', ikey(x), ikey(y)), 0)
                    if z is not None:
                        pcs.append((3, z))
            if any(k == 1 for k, _ in pcs):
                if len(pcs) > 1:
                    raise Infeasible()     # the simplices of an object do not overlap
                if None in fl_:            # the rest is skipped: the simplex is already complete
                    fl_ = [g or 0 for g in fl_]
            want.append((fl_, [p for _, p in pcs]))
        exp = [p for _, ps in want for p in ps]
        asked = all(g is not None for fs, _ in want for g in fs)
        if not exp:
            return rel(lambda r: [('nothing', B(r is None)), ('every pair examined', B(asked))])

        def f(res):
            R = arr_rows(res, nv)
            if R is None:
                return [('a set of simplices', FALSE)]
            if any(isinstance(p, int) for p in exp):
                return [('the common part of an intersecting pair is computed', FALSE)]
            key = lambda L: sorted([ikey(p) for p in L], key=repr)
            return [('every pair examined', B(asked)), ('exactly the common parts', B(key(R) == key(exp)))]
        return rel(f)

    def objs_sym(n, m):
        def f():
            logic.ctx().flags_known = True
            return [mk(symrows(n * nv, 'a').reshape(n, nv, 6, 3), 'int'), mk(symrows(m * nv, 'b').reshape(m, nv, 6, 3), 'int')]
        return f

    def g_objs(rng, env):
        def small(k):
            for _ in range(40):
                g = g_complex(nv, 0.1)(rng, env, k)[0]
                if len(g) <= 4:
                    return g
            raise ValueError
        for _ in range(40):
            if rng.random() < 0.5:
                a = to6([isimplex(rng)])
                if rng.random() < 0.6:
                    a = split(rng, a)
            else:
                a = small(rng.choice([0, 1, 1, 2]))
            k = rng.choice(['same', 'shift', 'sub', 'rnd', 'rnd', 'scale', 'one', 'sub2', 'trim'])
            if k == 'sub2':                          # a simplex of the one domain contains many simplices of the other
                a = a[:1]
                b = split(rng, split(rng, split(rng, a)))[::rng.choice([1, -1])]
            elif k == 'trim':                        # nearly all of a simplex
                f = Q(rng.choice([Fraction(199, 200), Fraction(499, 500)]))
                a = a[:1]
                t = gen.q6(a[0])
                b = to6([t[0]] + [gen.add6(t[0], gen.mul6(gen.sub6(v, t[0]), f)) for v in t[1:]])[None]
            elif k == 'same':
                b = a[rng.sample(range(len(a)), len(a))]
            elif k == 'shift':
                s = gen.mul6(iv(rng), Q(Fraction(1, rng.choice([1, 2, 4]))))
                b = np.array([to6([gen.add6(gen.q6(v), s) for v in t]) for t in a])
            elif k == 'sub':
                b = split(rng, a[:1])
            elif k == 'scale':
                t = gen.q6(a[0])
                cen = gen.comb(t, [Q(Fraction(1, nv))] * nv)
                f = Q(rng.choice([Fraction(1, 2), Fraction(3, 2), 2]))
                b = np.array([to6([gen.add6(cen, gen.mul6(gen.sub6(gen.q6(v), cen), f)) for v in t]) for t in a])
            elif k == 'one':
                b = g_pair(rng, env)[0][None]
            else:
                b = to6([isimplex(rng)])
                if rng.random() < 0.5:
                    b = split(rng, b)
            if len(a) * len(b) > 16:
                continue
            if rng.random() < 0.5:
                a, b = b, a
            return [np.array(a, dtype=np.int64), np.array(b, dtype=np.int64)]
        raise ValueError

    def g_large(rng, env):
        """many simplices against one: every simplex of the object counts"""
        a = g_complex(nv, 0, most=24)(rng, env)[0]
        t = gen.q6(a[rng.randrange(len(a))])
        cen = gen.comb(t, [Q(Fraction(1, nv))] * nv)
        f = Q(rng.choice([Fraction(1, 2), Fraction(3, 2), Fraction(2), Fraction(3)]))
        b = to6([gen.add6(cen, gen.mul6(gen.sub6(v, cen), f)) for v in t])[None]
        return [a, b] if rng.random() < 0.5 else [b, a]

    def split(rng, o):
        """subdivide the first simplex at a point of one of its faces"""
        t = gen.q6(o[0])
        m = rng.randint(2, nv)
        f = rng.sample(range(nv), m)
        w = [rng.choice([1, 1, 2]) for _ in f]
        p = gen.comb([t[i] for i in f], [Q(Fraction(x, sum(w))) for x in w])
        out = [to6([p if j == i else t[j] for j in range(nv)]) for i in f]
        return np.array(out + [x for x in o[1:]], dtype=np.int64)

    def ss_common(o1, o2, kind=None, verbose=0):
        """the common part of two domains (nothing: None), whatever the kind of its decomposition"""
        nm = ('common',) + tuple(sorted((seq.gkey(o1), seq.gkey(o2)), key=repr))
        need(o1.ndim == 4 and o2.ndim == 4)
        return rel(lambda res: seq.is_ghost(res, nm, 'the common part of the two domains'), lambda: seq.ghost(nm, nv, 6))

    def withkind(g, *more):
        return lambda rng, env: g(rng, env) + [rng.choice(list(more))]
    kinds_ = ('simple', None) if ico else ('simple', 'standard', None)
    Contract(q + 'intersection_two_obj_1', ['C16', 'C18', 'C22'], obj_spec(), [
        Case('%d and %d simplices' % (n, m), None, sym=objs_sym(n, m), gen=g_objs, bounded='%d and %d simplices' % (n, m), runs=0, abstract=True, max_paths=3000, feas_ms=0) for n, m in ((1, 1), (1, 2), (2, 1), (1, 3))] + [
        Case('2 and 2 simplices', None, sym=objs_sym(2, 2), gen=g_objs, bounded='2 and 2 simplices', runs=0, abstract=True, max_paths=3000, feas_ms=0, thorough=True),
        Case('any two objects (sampled)', None, gen=g_objs, nosym=True, runs=25),
        Case('large object and a simplex (sampled)', None, gen=g_large, nosym=True, runs=1),
        Case('any two objects, simplified (sampled)', None, gen=withkind(g_objs, 'simple'), nosym=True, runs=25)], stub='seq', seqspec=ss_common).nondet = True

    def s_inter(o1, o2, kind=None, verbose=0):
        if base(o1).ndim != 4 or base(o2).ndim != 4:
            return none()
        return obj_spec()(o1, o2)

    def g_wrong(rng, env):
        a, b = g_objs(rng, env)
        return rng.choice([[a[0], b], [a, b[0]], [a[0], b[0]], [a[None], b]])
    tq = pkg + '.two_occupation_domains.'
    Contract(tq + 'intersection', ['C16', 'C22'], s_inter, [
        Case('any numbers n, m >= 1 of simplices', None, sym=lambda: [seq.SeqKind('n', nv, 6).sym('a'), seq.SeqKind('m', nv, 6).sym('b'), kinds_[logic.ctx().choose(len(kinds_))]], gen=withkind(g_objs, *kinds_), runs=0),
        Case('any two objects (sampled)', None, gen=withkind(g_objs, *kinds_), nosym=True, runs=30),
        Case('wrong shape', None, gen=g_wrong, nosym=True, runs=5)], stub=False, seqspec=ss_common).nondet = True

    # ------------------------------------------------------------- intersection of convex domains
    def g_convex(rng, env):
        """two convex domains (a simplex, possibly subdivided)"""
        a, b = g_pair(rng, env)
        a, b = a[None], b[None]
        if rng.random() < 0.4:
            a = split(rng, a)
        if rng.random() < 0.4:
            b = split(rng, b)
        return [a, b]
    def g_corner(rng, env):
        """a domain with many corners, of which a large simplex leaves out one"""
        S = clip.many_corners(rng, ico)
        a, b = to6(S), to6([clip.cut_corner(rng, S, ico)])
        return [a, b] if rng.random() < 0.7 else [b, a]
    ss_conv = lambda a, b, verbose=0: ss_common(a, b)
    Contract(q + 'intersection_two_obj_convex', ['C16', 'C22'], lambda a, b, verbose=0: obj_spec()(a, b), [
        Case('two convex domains (sampled)', None, gen=g_convex, nosym=True, runs=10),
        Case('a corner cut off (sampled)', None, gen=g_corner, nosym=True, runs=0.7)], stub='seq', seqspec=ss_conv).nondet = True
    Contract(tq + 'intersection_convex', ['C16', 'C22'], lambda a, b, verbose=0: s_inter(a, b), [
        Case('any numbers n, m >= 1 of simplices', None, sym=lambda: [seq.SeqKind('n', nv, 6).sym('a'), seq.SeqKind('m', nv, 6).sym('b')], gen=g_convex, runs=0),
        Case('two convex domains (sampled)', None, gen=g_convex, nosym=True, runs=30),
        Case('wrong shape', None, gen=g_wrong, nosym=True, runs=5)], stub=False, seqspec=ss_conv).nondet = True
    return dict(isimplex=isimplex, split=split, g_objs=g_objs, g_pair=g_pair, qs=qs, region_facts=region_facts, covered=covered, iv=iv, obj_spec=obj_spec(), ss_common=ss_common)
