"""Contracts of utils.py (both packages)."""
import itertools
from fractions import Fraction
import numpy as np
from . import num as N, logic, arr, gen, concrete
from .num import Num, sand, sor, tobool, TRUE, FALSE
from .core import *
from .core import vals, NOSTUB
from .arr import base, obj, mk
from .c_math1 import proj_matrix, matvec, need
from .core import fl
from .c_num import det3, sub3, cross3
from .gen import Q, to6, rnd_v6, rnd_simplex, disguise

B = lambda b: TRUE if b else FALSE


def roweq(a, b):
    """the two arrays of triples are identical"""
    a, b = obj(a).reshape(-1), obj(b).reshape(-1)
    out = []
    for x, y in zip(a, b):
        e = tobool(arr.N_(x) == arr.N_(y))
        if e.op == 'false':
            return FALSE
        out.append(e)
    return sand(out)


def ikey(v):
    """key of an array: identical contents <=> equal keys when all entries are constant; equal keys => identical contents"""
    return logic.akey(obj(v))


def aconst(a):
    return logic.isconst(obj(a))


def symrows(n, tag='p'):
    """n canonical 6D vectors, independent values"""
    out = np.empty((n, 6, 3), dtype=object)
    for i in range(n):
        for j in range(6):
            out[i, j] = canon_(logic.fresh('%s%d_%d' % (tag, i, j)))
    return out


def canon_(v):
    t = logic.canon(v)
    o = np.empty(3, dtype=object)
    for i in range(3):
        o[i] = t[i]
    return o


def build(pkg, H):
    q = pkg + '.utils.'
    ico = pkg == 'ico2'
    nv = 4 if ico else 3
    perps, qq, tv = H['perps'], H['qq'], H['tv']

    def perp6(v):
        """perpendicular projection (3 Nums) of one 6D vector given as triples"""
        return H['perp1'](v)

    def same(u, v):
        """same perpendicular projection"""
        pu, pv = perp6(u), perp6(v)
        ku, kv = logic.akey(pu), logic.akey(pv)
        if ku == kv:
            return TRUE
        c = logic.CTX
        if c is not None and frozenset((ku, kv)) in c.funs:      # assumed distinct
            return FALSE
        out = []
        for a, b in zip(pu, pv):
            e = tobool(a == b)
            if e.op == 'false':
                return FALSE
            out.append(e)
        return sand(out)

    def pkey(v):
        """perpendicular key; equal keys <=> same point for constants"""
        return logic.akey([x for x in perp6(v)])

    def gvec(rng):
        return rnd_v6(rng) if rng.random() < 0.9 else [gen.rnd_q(rng) for _ in range(6)]

    def gset(rng, n, dup=0.4, dis=0.5):
        """list of n 6D vectors with duplicates and disguised duplicates"""
        out = []
        for _ in range(n):
            if out and rng.random() < dup:
                v = rng.choice(out)
                v = disguise(rng, v, dis) if rng.random() < 0.8 else gen.close6(rng, v)
            else:
                v = gvec(rng)
            out.append(v)
        if n > 1 and rng.random() < 0.15:      # two vectors whose integers agree in all leading digits
            i, j = rng.sample(range(n), 2)
            k = rng.randrange(5)
            out[i] = list(out[i])
            out[i][k] = out[i][k] + Q(10 ** 6)
            out[j] = list(out[i])
            out[j][k] = out[j][k] + rng.choice([Q(1), Q(-1), gen.tau(), Q(2 ** 8), Q(2 ** 16), gen.tau() * 2 ** 16])
        rng.shuffle(out)
        return out

    from . import seq
    SV = seq.SeqKind

    # ------------------------------------------------------------- C10
    def s_shift(o, s):
        if base(o).ndim != 4:
            return none()
        need(base(o).shape[2:] == (6, 3) and base(s).shape == (6, 3))
        return trips(vals(o) + vals(s))

    def shift_cases(f=lambda o, s: [o, s]):
        return [Case('%d simplices, any shift' % n, f(Trips(n, nv, 6), Trips(6)), bounded='%d simplices' % n, runs=10) for n in (1, 2)] + [
            Case('any number (sampled)', None, gen=lambda r, e: [k.conc(r, e) for k in f(Trips(r.randint(0, 6), nv, 6), Trips(6))], nosym=True, runs=30),
            Case('any number n >= 1 of simplices, any shift', f(SV('n', nv, 6), Trips(6)), runs=0),
            Case('wrong shape', f(Trips(2, 6), Trips(6)), runs=4)]
    Contract(q + 'shift_object', ['C10', 'C22'], s_shift, shift_cases(), lift='map')

    # ------------------------------------------------------------- C09
    def tdet(P):
        return det3(*[sub3(P[i], P[0]) for i in (1, 2, 3)])

    def tz(P):
        a, b = sub3(P[1], P[0]), sub3(P[2], P[0])
        return a[0] * b[1] - a[1] * b[0]

    def abspart(d, k):
        d = Num.of(d)
        return trips(-d / k if tobool(d < 0) else d / k)

    if ico:
        def s_tv(v):
            need(base(v).shape == (4, 3, 3))
            return abspart(tdet(vals(v)), 6)
        Contract(q + 'tetrahedron_volume', ['C09', 'C22'], s_tv, [Case('any tetrahedron', [Trips(4, 3)], runs=60)])
        vname, oname, simp = 'tetrahedron_volume_6d', 'obj_volume_6d', lambda t: abspart(tdet(perps(t)), 6)
    else:
        def planar3(v):
            z = [vals(x) for x in base(v)[:, 2]]
            return [z[1] == z[0], z[2] == z[0]]

        def planar_sym(shape):
            """(…,3,3) triples: triangles in a plane parallel to the first two axes"""
            def f():
                t = Trips(*shape, 3, 3).sym('x0')
                for idx in np.ndindex(*shape):
                    z = logic.fresh('z' + ''.join('_%d' % i for i in idx))
                    for i in range(3):
                        base(t)[idx + (i, 2)] = canon_(z)
                return [t]
            return f

        def planar6_sym(*shape):
            def f():
                t = Trips(*shape, 3, 6).sym('x0')
                for idx in np.ndindex(*shape):
                    z = logic.fresh('z' + ''.join('_%d' % i for i in idx))
                    for i in range(3):
                        base(t)[idx + (i, 5)] = canon_(z)
                return [t]
            return f

        def planar6_pts(n):
            t = symrows(n, 'p')
            z = logic.fresh('z')
            for i in range(n):
                t[i, 5] = canon_(z)
            return [mk(t, 'int')]

        def gplanar(j, comps):
            def g(rng, shape):
                t = Trips(*shape, 3, comps).conc(rng, {})
                for idx in np.ndindex(*shape):
                    t[idx + (slice(None), j)] = Trips(mode='canon').conc(rng, {})
                return t
            return g
        g33, g66 = gplanar(2, 3), gplanar(5, 6)

        def need_planar(P):
            for p in P[1:]:
                need(tobool(p[2] == P[0][2]))

        def s_tv(v):
            need(base(v).shape == (3, 3, 3))
            P = vals(v)
            need_planar(P)
            return abspart(tz(P), 2)
        Contract(q + 'triangle_area', ['C09', 'C22'], s_tv, [Case('any planar triangle', None, sym=planar_sym(()), gen=lambda r, e: [g33(r, ())], runs=60)])

        def simp(t):
            P = perps(t)
            need_planar(P)
            return abspart(tz(P), 2)
        vname, oname = 'triangle_area_6d', 'obj_area_6d'

    simp_ = simp

    def simp(t):
        c = logic.CTX
        if c is None or not c.abstract or aconst(t):
            return simp_(t)
        if not ico:
            z = perps(t)
            need(all(tobool(x[2] == z[0][2]) for x in z[1:]))
        key = tuple(sorted((ikey(v) for v in base(t)), key=repr))
        d = c.funs.setdefault('size', {})
        if key not in d:
            d[key] = logic.fresh('vol%d' % len(d), 'real', 'nonneg', ('fun', [arr.N_(x) for x in base(t).reshape(-1)]))
        return trips(d[key])

    def s_v6(t):
        if base(t).ndim != 3:
            return none()
        need(base(t).shape == (nv, 6, 3))
        return simp(t)

    def total(ts):
        s = Num.of(0)
        for t in ts:
            s = s + simp(t).val
        return trips(s)

    def s_ov6(o):
        O = base(o)
        if O.ndim == 3:
            return s_v6(o)
        if O.ndim == 4:
            need(O.shape[1:] == (nv, 6, 3))
            return total(list(O))
        if O.ndim == 5:
            need(O.shape[2:] == (nv, 6, 3))
            return total([t for s in O for t in s])
        return none()

    def k6(*sh):
        """canonical input of small rational size: independent triples (icosahedral), planar (dodecagonal)"""
        if ico:
            return dict(kinds=[Trips(*sh, 4, 6)])
        return dict(kinds=None, sym=planar6_sym(*sh), gen=lambda r, e: [g66(r, sh)])

    def k6s(*sh):
        return (lambda: [Trips(*sh, 4, 6).sym('o')]) if ico else planar6_sym(*sh)

    def ss_ov6(o):
        gs = o.groups
        need(len(gs) in (4, 5) and list(gs[-3:]) == [(nv,), (6,), (3,)])
        P = base(seq.plain(o))
        v = np.empty(P.shape[:-3], dtype=object)
        for idx in np.ndindex(*v.shape):
            v[idx] = simp(P[idx]).val
        for g in reversed(gs[:-3]):
            v = seq.total(v, g, -1)
        return trips(v)

    def gany(nd):
        def g(rng, env):
            sh = tuple(rng.randint(0 if i == 0 else 1, 4) for i in range(nd))
            T = [to6(rnd_simplex(rng, nv)) if rng.random() < 0.8 else to6([gvec(rng)] * nv) for _ in range(int(np.prod(sh)))]
            if ico and rng.random() < 0.3:
                T = [Trips(4, 6).conc(rng, env) for _ in T]
            return [np.array(T, dtype=np.int64).reshape(sh + (nv, 6, 3))]
        return g
    def g_tiny(rng, env):
        """simplices of any size: edges scaled by powers of the unit"""
        T = rnd_simplex(rng, nv)
        u = Q(1)
        for _ in range(rng.randint(0, 9 if ico else 6)):
            u = u * (gen.tau() - Q(1) if ico else Q(2) - gen.tau() * 2)
        T = [gen.add6(T[0], gen.mul6(gen.sub6(t, T[0]), u)) for t in T]
        rng.shuffle(T)
        return [to6(T)]
    Contract(q + vname, ['C09', 'C22'], s_v6, [Case('any simplex', runs=60, **k6()), Case('simplices of any size (sampled)', None, gen=g_tiny, nosym=True, runs=60), Case('wrong shape', [Trips(2)], runs=3)])
    Contract(q + oname, ['C09', 'C10', 'C22'], s_ov6, [
        Case('one simplex', runs=10, **k6()),
        Case('any number n >= 1 of simplices', None, sym=seq.wrapped(k6s(1), 'n'), gen=gany(1), runs=0, abstract=True),
        Case('any number of sets of any number of simplices', None, sym=seq.wrapped(k6s(1, 1), 'n', 'm'), gen=gany(2), runs=0, abstract=True),
        Case('set of 1', bounded='1 simplex', runs=5, **k6(1)), Case('set of 2', bounded='2 simplices', runs=5, **k6(2)),
        Case('nested 1x2', bounded='2 simplices', runs=5, **k6(1, 2)), Case('nested 2x1', bounded='2 simplices', runs=5, **k6(2, 1)),
        Case('any set (sampled)', None, gen=gany(1), nosym=True, runs=60), Case('any nested set (sampled)', None, gen=gany(2), nosym=True, runs=30),
        Case('wrong shape', [Trips(2)], runs=3)], seqspec=ss_ov6)

    def s_mid(a, b):
        need(base(a).shape == (6, 3) and base(b).shape == (6, 3))
        return trips([(x + y) / 2 for x, y in zip(vals(a), vals(b))])
    Contract(q + 'middle_position', ['C04', 'C22'], s_mid, [Case('any two points', [Trips(6), Trips(6)], runs=40)])

    def s_sort(v):
        """the same vectors, ordered by the first perpendicular coordinate"""
        A = base(v)
        need(A.ndim == 3 and A.shape[1:] == (6, 3))
        x = lambda r: H['perp1'](r)[0]

        def f(res):
            R = base(res) if isinstance(res, arr.SymArr) else obj(res)
            if R.shape != A.shape:
                return [('as many vectors', FALSE)]
            if aconst(A) and aconst(R):
                fx = [fl(x(r)) for r in R]
                return [('the same vectors', B(sorted(ikey(r) for r in R) == sorted(ikey(r) for r in A))),
                        ('in order', B(all(a <= b + 1e-9 * (1 + abs(a)) for a, b in zip(fx, fx[1:]))))]
            n = len(A)
            return [('the same vectors', sor([sand([roweq(R[i], A[p[i]]) for i in range(n)]) for p in itertools.permutations(range(n))]))] + [
                ('in order [%d]' % i, tobool(x(R[i]) <= x(R[i + 1]))) for i in range(n - 1)]
        return rel(f)

    def g_sort(rng, env):
        n = rng.randint(1, 9)
        V = [gvec(rng) for _ in range(n)]
        for i in range(n):
            if rng.random() < 0.2:
                V[i] = rng.choice(V)
        return [to6([disguise(rng, x, 0.2) for x in V])]
    Contract(q + 'sort_vctors', ['C11', 'C22'], s_sort, [
        Case('%d vectors' % n, [Trips(n, 6, mode='canon')], gen=g_sort, bounded='%d vectors' % n, runs=0) for n in (1, 2)] + [
        Case('any number (sampled)', None, gen=g_sort, nosym=True, runs=60)], stub=False)

    # ------------------------------------------------------------- C11
    def flat(v):
        A = base(v)
        if A.ndim == 4:
            need(A.shape[2:] == (6, 3))
            return A.reshape(A.shape[0] * A.shape[1], 6, 3)
        need(A.ndim == 3 and A.shape[1:] == (6, 3))
        return A

    def rows_of(res):
        if res is None or not isinstance(res, np.ndarray):
            return None
        A = base(res) if isinstance(res, arr.SymArr) else obj(res)
        if A.ndim != 3 or A.shape[1:] != (6, 3):
            return None
        return A

    def uniq_stub(V, eq):
        keep = []
        for i in range(len(V)):
            if not any(tobool(eq(V[i], V[j])) for j in keep):
                keep.append(i)
        return mk(np.array(V[keep], dtype=object).reshape(len(keep), 6, 3), 'int')

    def set_facts(V, eq, key, sub):
        """facts: R is a set of representatives of V under eq;  sub: rows of R are rows of V"""
        def f(res):
            R = rows_of(res)
            if R is None:
                return [('an array of 6D vectors', FALSE)]
            if aconst(V) and aconst(R):
                kv, kr = [key(v) for v in V], [key(r) for r in R]
                iv = {ikey(v) for v in V}
                return [('nothing else', B(all(ikey(r) in iv for r in R))), ('no two equal', B(len(set(kr)) == len(kr))), ('every one represented', B(set(kv) == set(kr)))]
            out = [('nothing else [%d]' % i, sor([roweq(r, v) for v in V])) for i, r in enumerate(R)]
            out += [('no two equal [%d,%d]' % (i, j), ~eq(R[i], R[j])) for i in range(len(R)) for j in range(i)]
            out += [('represented [%d]' % i, sor([eq(v, r) for r in R])) for i, v in enumerate(V)]
            return out
        return f

    def s_rd(v):
        if base(v).ndim not in (3, 4):
            return none()
        V = flat(v)
        return rel(set_facts(V, roweq, ikey, True), lambda: uniq_stub(V, roweq))

    def s_rdp(v):
        V = flat(v)
        return rel(set_facts(V, same, pkey, True), lambda: uniq_stub(V, same))

    def gdup(nd):
        def g(rng, env):
            if nd == 3:
                return [to6(gset(rng, rng.randint(1, 12)))]
            n = rng.randint(1, 5)
            m = rng.randint(1, 4)
            return [to6(gset(rng, n * m)).reshape(n, m, 6, 3)]
        return g

    def setsym(*sh):
        return lambda: [mk(symrows(int(np.prod(sh))).reshape(sh + (6, 3)), 'int')]

    for nm, sp in (('remove_doubling', s_rd), ('remove_doubling_in_perp_space', s_rdp)):
        cs = [Case('%d vectors' % n, None, sym=setsym(n), gen=gdup(3), bounded='%d vectors' % n, runs=0) for n in (1, 2, 3)]
        cs += [Case('1x1 vectors', None, sym=setsym(1, 1), gen=gdup(4), bounded='1 vector', runs=0), Case('2x1 vectors', None, sym=setsym(2, 1), gen=gdup(4), bounded='2 vectors', runs=0),
               Case('1x2 vectors', None, sym=setsym(1, 2), gen=gdup(4), bounded='2 vectors', runs=0)]
        cs += [Case('any set (sampled)', None, gen=gdup(3), nosym=True, runs=100), Case('any set of simplices (sampled)', None, gen=gdup(4), nosym=True, runs=60)]
        if nm == 'remove_doubling':
            cs.append(Case('wrong shape', [Trips(2, mode='canon')], runs=3))
        cs += [Case('any number n >= 1 of vectors', [seq.SeqKind('n', 6, mode='canon')], runs=0), Case('any number n >= 1 of simplices', [seq.SeqKind('n', nv, 6, mode='canon')], runs=0),
               Case('any number n >= 1 of edges', [seq.SeqKind('n', 2, 6, mode='canon')], runs=0)]

        def sq(v, perp=nm.endswith('space')):
            need(isinstance(v, seq.SymSeq) and v.ndim in (3, 4))
            r = seq.dedup(v, (lambda x: list(matvec(qq, x))) if perp else list, gen_kernel(pkg) if perp else [])
            h = seq.hull_of(v)
            r.kw['after'] = lambda x: seq.set_hull(x, h)        # dropping repetitions keeps the hull
            return r
        Contract(q + nm, ['C11', 'C13', 'C12', 'C22'], sp, cs, seqspec=sq)

    def s_rvs(a, b):
        need(base(a).ndim == 3 and base(b).ndim == 3 and base(a).shape[1:] == (6, 3) and base(b).shape[1:] == (6, 3))
        bs = list(base(b))
        if aconst(a) and aconst(b):
            ks = {ikey(x) for x in bs}
            keep = [v for v in base(a) if ikey(v) not in ks]
        else:
            keep = [v for v in base(a) if not any(tobool(roweq(v, w)) for w in bs)]
        out = np.empty((len(keep), 6), dtype=object)
        for i, v in enumerate(keep):
            for j in range(6):
                out[i, j] = vals(v[j])
        return trips(out)

    def s_rv(a, v):
        need(base(v).shape == (6, 3))
        return s_rvs(a, np.array([base(v)], dtype=object))

    def g_rvs(one):
        def g(rng, env):
            a = gset(rng, rng.randint(1, 9))
            b = [rng.choice(a) if rng.random() < 0.6 else disguise(rng, rng.choice(a)) for _ in range(1 if one else rng.randint(0, 4))]
            if not one and rng.random() < 0.1:
                b = list(a)
            if one:
                return [to6(a), to6(b[0])]
            return [to6(a), to6(b).reshape(len(b), 6, 3)]
        return g

    def rvs_sym(n, m):
        def f():
            a, b = symrows(n), symrows(m, 'w')
            return [mk(a, 'int'), mk(b, 'int')]
        return f

    def ss_rvs(a, b):
        need(isinstance(a, seq.SymSeq) and len(a.groups) == 3 and a.groups[1:] == ((6,), (3,)) and len(a.groups[0]) == 1)
        row = base(seq.plain(a))[0]
        if isinstance(b, seq.SymSeq):
            need(b.groups[1:] == ((6,), (3,)) and not set(b.groups[0]) & set(a.groups[0]))
            found = seq.exists(b.groups[0], lambda: roweq(row, base(seq.plain(b))[0]))
        else:
            found = sor([roweq(row, w) for w in base(b)])
        return seq.filtered(~found, vals(row), [a.groups[0], (6,)])

    def ss_rv(a, v):
        need(base(v).shape == (6, 3))
        return ss_rvs(a, np.array([base(v)], dtype=object))

    def rvs_seq(m):
        def f():
            a, = seq.wrapped(lambda: [mk(symrows(1), 'int')], 'n')()
            if m == 'm':
                b, = seq.wrapped(lambda: [mk(symrows(1, 'w'), 'int')], 'm')()
            else:
                b = mk(symrows(m, 'w'), 'int')
            return [a, b]
        return f
    Contract(q + 'remove_vectors', ['C11', 'C22'], s_rvs, [
        Case('any number n >= 1 minus any number m >= 1', None, sym=rvs_seq('m'), gen=g_rvs(False), runs=0),
        Case('any number n >= 1 minus none', None, sym=rvs_seq(0), gen=lambda r, e: [g_rvs(False)(r, e)[0], np.zeros((0, 6, 3), dtype=np.int64)], runs=10)] + [
        Case('%d minus %d' % (n, m), None, sym=rvs_sym(n, m), gen=g_rvs(False), bounded='%d and %d vectors' % (n, m), runs=0) for n, m in ((1, 1), (2, 1), (1, 2), (2, 2))] + [
        Case('any sets (sampled)', None, gen=g_rvs(False), nosym=True, runs=100)], seqspec=ss_rvs)
    Contract(q + 'remove_vector', ['C11', 'C22'], s_rv, [
        Case('any number n >= 1', None, sym=lambda: (lambda r: [r[0], mk(base(r[1])[0], 'int')])(rvs_seq(1)()), gen=g_rvs(True), runs=0)] + [
        Case('%d vectors' % n, None, sym=lambda n=n: (lambda r: [r[0], mk(base(r[1])[0], 'int')])(rvs_sym(n, 1)()), gen=g_rvs(True), bounded='%d vectors' % n, runs=0) for n in (1, 2, 3)] + [
        Case('any set (sampled)', None, gen=g_rvs(True), nosym=True, runs=100)], seqspec=ss_rv)

    # ------------------------------------------------------------- C13
    KER = gen_kernel(pkg)

    def kadd(v6, tag):
        """v6 (Nums) + arbitrary vector without perpendicular part"""
        out = list(v6)
        for i, k in enumerate(KER):
            c = logic.fresh('%s_%d' % (tag, i))
            out = [a + c * b for a, b in zip(out, k)]
        return out

    def matchings(n, m):
        """partial matchings of m new vertices to n old ones: list of tuples (index or None)"""
        out = []

        def go(p):
            if len(p) == m:
                out.append(tuple(p))
                return
            for i in list(range(n)) + [None]:
                if i is None or i not in p:
                    go(p + [i])
        go([])
        return out

    def apart(px, py):
        """assume two perpendicular points are different"""
        c = logic.ctx()
        c.assume(~sand([tobool(a == b) for a, b in zip(px, py)]))
        c.funs[frozenset((logic.akey(list(px)), logic.akey(list(py))))] = True

    def pair_sym(n, m, pats=None):
        """two simplices with n and m vertices: every pattern of coinciding perpendicular vertices"""
        pats = pats or matchings(n, m)

        def f():
            c = logic.ctx()
            pat = pats[c.choose(len(pats))]
            A = [[logic.fresh('a%d_%d' % (i, j)) for j in range(6)] for i in range(n)]
            Bv = [[logic.fresh('b%d_%d' % (i, j)) for j in range(6)] if pat[i] is None else kadd(A[pat[i]], 'k%d' % i) for i in range(m)]
            pts = A + [b for b, p in zip(Bv, pat) if p is None]
            for x, y in itertools.combinations(pts, 2):
                apart(matvec(qq, x), matvec(qq, y))
            t6 = lambda S: mk(np.array([[canon_(x) for x in v] for v in S], dtype=object), 'int')
            return [t6(A), t6(Bv)]
        return f

    def distinct(S):
        for x, y in itertools.combinations(S, 2):
            need(not tobool(same(x, y)))

    def nshared(a, b):
        """number of perpendicular points shared by two sets of distinct points"""
        A, Bv = list(base(a)), list(base(b))
        distinct(A)
        distinct(Bv)
        return sum(1 for x in A if any(tobool(same(x, y)) for y in Bv))

    def gpair(n, m=None):
        m = m or n

        def g(rng, env):
            for _ in range(50):
                a = [gvec(rng) for _ in range(n)]
                k = rng.randint(0, min(n, m)) if rng.random() < 0.5 else rng.choice([min(n, m), min(n, m), min(n, m) - 1])
                b = rng.sample(a, k) + [gvec(rng) for _ in range(m - k)]
                if rng.random() < 0.25:
                    i = rng.randrange(len(b))
                    b[i] = gen.close6(rng, b[i])
                b = [disguise(rng, x) for x in b]
                rng.shuffle(b)
                if all(len({tuple((y.p, y.q) for y in gen.perp(v)) for v in S}) == len(S) for S in (a, b)):
                    return [to6(a), to6(b)]
            raise ValueError
        return g

    def s_eqv(n):
        def s(a, b):
            need(base(a).shape == (n, 6, 3) and base(b).shape == (n, 6, 3))
            return boolean(B(nshared(a, b) == n))
        return s

    def s_v2(a, b):
        need(base(a).shape == (6, 3) and base(b).shape == (6, 3))
        return boolean(same(a, b))

    def vsym():
        c = logic.ctx()
        if c.choose(2) == 0:
            a = [logic.fresh('a%d' % j) for j in range(6)]
            b = kadd(a, 'k')
        else:
            a, b = [logic.fresh('a%d' % j) for j in range(6)], [logic.fresh('b%d' % j) for j in range(6)]
        t = lambda v: mk(np.array([canon_(x) for x in v], dtype=object), 'int')
        return [t(a), t(b)]

    def gv2(rng, env):
        a = gvec(rng)
        b = disguise(rng, a, 0.8) if rng.random() < 0.6 else gvec(rng)
        if rng.random() < 0.3:
            b = gen.close6(rng, a)
        return [to6(a), to6(b)]
    VC = [Case('any two vertices', None, sym=vsym, gen=gv2, runs=80), Case('unreduced triples', [Trips(6), Trips(6)], runs=5)]
    Contract(q + 'equivalent_vertices', ['C13', 'C12', 'C22'], s_v2, VC)
    for nm, n in (('equivalent_edges', 2), ('equivalent_triangles', 3)) + ((('equivalent_tetrahedra', 4),) if ico or concrete.real_func(q + 'equivalent_tetrahedra') else ()):
        Contract(q + nm, ['C13', 'C12', 'C22'], s_eqv(n), [Case('any two', None, sym=pair_sym(n, n), gen=gpair(n), runs=80)], stub_ok=(lambda n: lambda a, b: distinct_ok(a, b))(n))

    def distinct_ok(a, b):
        return True

    def s_equiv(a, b):
        A, Bv = base(a), base(b)
        if A.ndim == 2 and Bv.ndim == 2:
            return s_v2(a, b)
        if A.ndim == 4 and Bv.ndim == 4:
            if len(A) != 1 or len(Bv) != 1:
                return boolean(FALSE)
            A, Bv = A[0], Bv[0]
        elif not (A.ndim == 3 and Bv.ndim == 3):
            return none()
        k = nshared(A, Bv)
        return boolean(B(k == len(A) == len(Bv)))

    def wrap1(f):
        return lambda: [mk(base(x)[None], 'int') for x in f()]

    def gq(rng, env):
        k = rng.random()
        if k < 0.25:
            return gv2(rng, env)
        n = rng.randint(1, 4)
        m = n if rng.random() < 0.75 else rng.randint(1, 4)
        r = gpair(n, m)(rng, env)
        if k < 0.6:
            return r
        if k < 0.9:
            return [x[None] for x in r]
        return [np.stack([r[0], r[0]]), r[1][None]]
    Contract(q + 'equivalent', ['C13', 'C22'], s_equiv, VC + [
        Case('two sets of %d and %d vertices' % (n, m), None, sym=pair_sym(n, m), gen=gq, runs=0) for n, m in ((2, 2), (3, 3), (3, 2), (2, 3))] + [
        Case('two sets of 1 simplex', None, sym=wrap1(pair_sym(3, 3)), gen=gq, runs=0),
        Case('several simplices', None, sym=lambda: [mk(symrows(6).reshape(2, 3, 6, 3), 'int'), mk(symrows(3, 'w').reshape(1, 3, 6, 3), 'int')], gen=gq, runs=0),
        Case('any two (sampled)', None, gen=gq, nosym=True, runs=150)])

    # adjacency
    def s_conn(n):
        def s(a, b):
            need(base(a).shape == (n, 6, 3) and base(b).shape == (n, 6, 3))
            return boolean(B(nshared(a, b) == n - 1))
        return s

    def s_common(n):
        def s(a, b):
            need(base(a).shape == (n, 6, 3) and base(b).shape == (n, 6, 3))
            A, Bv = list(base(a)), list(base(b))
            k = nshared(a, b)
            need(k < n)
            if k != n - 1:
                return none()
            sh = [x for x in A if any(tobool(same(x, y)) for y in Bv)]

            def f(res):
                R = rows_of(res)
                if R is None or len(R) != n - 1:
                    return [('the common facet', FALSE)]
                used, ok = [], True
                for r in R:
                    hit = [i for i, x in enumerate(sh) if tobool(same(r, x))]
                    ok = ok and len(hit) == 1 and hit[0] not in used
                    used += hit
                own = all(any(ikey(r) == ikey(v) for v in A + Bv) for r in R)
                return [('exactly the shared vertices', B(ok)), ('vertices of the simplices', B(own))]
            return rel(f)
        return s
    if ico:
        Contract(q + 'check_connectivity_tetrahedra', ['C13', 'C22'], s_conn(4), [Case('any two', None, sym=pair_sym(4, 4), gen=gpair(4), runs=80)])
        Contract(q + 'get_common_triangle_in_two_tetrahedra', ['C13', 'C22'], s_common(4), [
            Case('any two', None, sym=pair_sym(4, 4, [p for p in matchings(4, 4) if None in p]), gen=gpair(4), runs=80, max_paths=1000)], stub=False)
    else:
        Contract(q + 'check_connectivity_triangles', ['C13', 'C22'], s_conn(3), [Case('any two', None, sym=pair_sym(3, 3), gen=gpair(3), runs=80)])
        Contract(q + 'get_common_edge_in_two_triangles', ['C13', 'C22'], s_common(3), [
            Case('any two', None, sym=pair_sym(3, 3, [p for p in matchings(3, 3) if None in p]), gen=gpair(3), runs=80)], stub=False)

    # ------------------------------------------------------------- C12
    class Classes:
        """perpendicular points met so far, numbered"""
        def __init__(self):
            self.reps, self.d = [], {}

        def of(self, v):
            k = pkey(v)
            i = self.d.get(k)
            if i is None:
                i = len(self.reps)
                if not aconst(v):
                    for j, r in enumerate(self.reps):
                        if tobool(same(v, r)):
                            i = j
                            break
                if i == len(self.reps):
                    self.reps.append(v)
                self.d[k] = i
            return i

        def simplex(self, s):
            return frozenset(self.of(v) for v in s)

    def sub_simplices(o, m):
        """all m-vertex sub-simplices of the simplices of o, one list per simplex"""
        return [[[s[i] for i in c] for c in itertools.combinations(range(len(s)), m)] for s in o]

    def arr_rows(res, m):
        if not isinstance(res, np.ndarray):
            return None
        A = base(res) if isinstance(res, arr.SymArr) else obj(res)
        if A.ndim != 4 or A.shape[1:] != (m, 6, 3):
            return None
        return A

    def exact_lists(groups, m):
        """the result lists group after group, each sub-simplex of a group exactly once (any order within a group, vertices in any order)"""
        def f(res):
            A = arr_rows(res, m)
            n = sum(len(g) for g in groups)
            if A is None or len(A) != n:
                return [('%d sub-simplices' % n, FALSE)]
            out, p = [], 0
            for i, g in enumerate(groups):
                want = sorted([sorted([ikey(v) for v in s], key=repr) for s in g], key=repr)
                got = sorted([sorted([ikey(v) for v in s], key=repr) for s in A[p:p + len(g)]], key=repr)
                p += len(g)
                out.append(('sub-simplices of simplex %d, each once' % i, B(want == got)))
            return out
        return f

    def gobj(n, k):
        return lambda rng, env: [np.array([to6([gvec(rng) for _ in range(n)]) for _ in range(rng.randint(0 if k else 1, k or 1))], dtype=np.int64).reshape((-1, n, 6, 3) if k else (n, 6, 3))]

    def objsym(*sh):
        return lambda: [mk(symrows(int(np.prod(sh))).reshape(sh + (6, 3)), 'int')]

    def subs_contract(nm, n, m):
        def s(t):
            need(base(t).shape == (n, 6, 3))
            return rel(exact_lists(sub_simplices([list(base(t))], m), m))
        Contract(q + nm, ['C12', 'C22'], s, [Case('any simplex', None, sym=objsym(n), gen=gobj(n, 0), runs=20)], stub=False)
    subs_contract('get_triangle_edge', 3, 2)
    if ico:
        subs_contract('get_tetrahedron_surface', 4, 3)
        subs_contract('get_tetrahedron_edge', 4, 2)

    def s_gae(o):
        O = base(o)
        need(O.ndim == 4 and O.shape[2:] == (6, 3))
        if O.shape[1] not in ((3, 4) if ico else (3,)):
            return none()
        return rel(exact_lists(sub_simplices(list(O), 2), 2))

    def ss_gae(o):
        r = s_gae(seq.plain(o))
        if r.kind == 'rel':
            n = o.groups[1][0]
            r.kw['groups'] = [o.groups[0] + (n * (n - 1) // 2,), (2,), (6,), (3,)]
        return r
    Contract(q + 'generator_all_edges', ['C12', 'C22'], s_gae, [
        Case('any number n >= 1 of simplices of %d vertices' % n, None, sym=seq.wrapped(objsym(1, n), 'n'), gen=gobj(n, 5), runs=0) for n in ((3, 4, 2) if ico else (3, 4))] + [
        Case('%d simplices of %d vertices' % (k, n), None, sym=objsym(k, n), gen=gobj(n, 5), bounded='%d simplices' % k, runs=10) for k in (1, 2, 3) for n in ((3, 4) if ico else (3,))] + [
        Case('neither triangles nor tetrahedra', None, sym=objsym(2, 2), gen=gobj(2, 3), runs=4)], stub=False, seqspec=ss_gae)

    def counted(o, m):
        """[(sub-simplex of points, number of simplices having it)], classes"""
        C = Classes()
        for s in o:
            need(len(C.simplex(s)) == len(s))
        cnt = {}
        for g in sub_simplices(o, m):
            for s in g:
                cnt[C.simplex(s)] = cnt.get(C.simplex(s), 0) + 1
        return cnt, C

    def centroids_apart(o, m):
        """two different m-vertex sub-simplices have different centroids (true for face-to-face objects)"""
        seen = {}
        C = Classes()
        for g in sub_simplices(o, m):
            for s in g:
                key = C.simplex(s)
                if key not in seen:
                    P = [perp6(v) for v in s]
                    seen[key] = [sum((p[j] for p in P), Num.of(0)) for j in range(3)]
        return list(seen.values())

    def need_apart(o, m):
        cs = centroids_apart(o, m)
        if all(logic.isconst(c) for c in cs):
            need(len({logic.akey(c) for c in cs}) == len(cs))
        # symbolic inputs: assumed by the generator of the case

    def exactly(want, C, m, own):
        def f(res):
            if m and not want and isinstance(res, np.ndarray) and res.size == 0:
                return [('nothing', TRUE)]
            A = arr_rows(res, m)
            if A is None:
                return [('array of sub-simplices', FALSE)]
            got = [C.simplex(s) for s in A]
            return [('each once', B(len(set(got)) == len(got))), ('nothing missing', B(set(want) <= set(got))), ('nothing else', B(set(got) <= set(want))),
                    ('vertices of the object', B(all(ikey(v) in own for s in A for v in s)))]
        return f

    def uniq_spec(m, cond, first=None):
        def s(o, verbose=0):
            O = base(o)
            need(O.ndim == 4 and O.shape[2:] == (6, 3) and len(O) > 0)
            L = [list(x) for x in O]
            cnt, C = counted(L, m)
            need_apart(L, m)
            own = {ikey(v) for x in L for v in x}
            return rel(exactly([k for k, n in cnt.items() if cond(n)], C, m, own))
        return s

    # ---- face-to-face objects
    def g_complex(n, dis=0.3, planar=True, most=0):
        """face-to-face objects of n-vertex simplices, vertices possibly written with different 6D coordinates"""
        def g(rng, env, k=None):
            if most:
                V, S = gen.grid_complex(rng, n, most)
                k = 0
            elif k is None and rng.random() < 0.35:
                V, S = gen.grid_complex(rng, n)
                k = rng.choice([0, 0, 0, 1])
            else:
                V = list(rnd_simplex(rng, n, 0.05))
                S = [tuple(range(n))]
            for _ in range(k if k is not None else rng.choice([0, 1, 1, 2, 2, 3])):
                what = rng.random()
                if what < 0.3 and len(S) == 1:
                    # glue a neighbour on the far side of a facet
                    s = S[0]
                    i = rng.randrange(n)
                    rest = [x for x in s if x != s[i]]
                    b = gen.rnd_bary(rng, n - 1, 'in')
                    foot = gen.comb([V[x] for x in rest], b)
                    lam = Q(Fraction(rng.randint(1, 6), rng.choice([2, 3])))
                    apex = gen.add6(foot, gen.mul6(gen.sub6(foot, V[s[i]]), lam))
                    V.append(apex)
                    S.append(tuple(rest + [len(V) - 1]))
                    continue
                s = rng.choice(S)
                m = rng.randint(2, n)
                f = rng.sample(s, m)
                w = [rng.choice([1, 1, 2, 3]) for _ in f]
                p = gen.comb([V[x] for x in f], [Q(Fraction(x, sum(w))) for x in w])
                V.append(p)
                N_ = []
                for t in S:
                    if set(f) <= set(t):
                        for x in f:
                            N_.append(tuple((len(V) - 1) if y == x else y for y in t))
                    else:
                        N_.append(t)
                S = N_
                if len(S) > 14:
                    break
            if rng.random() < 0.3 and len(S) > 2:
                S = rng.sample(S, rng.randint(1, len(S)))
            rng.shuffle(S)
            out = []
            for s in S:
                s = list(s)
                rng.shuffle(s)
                out.append([disguise(rng, V[x], dis) for x in s])
            return [to6(out)]
        return g

    def pair_obj(n, ms, maxshared, order=True):
        """objects of two simplices, every pattern of common vertices up to maxshared; sub-simplices that differ have different centroids"""
        pats = [p for p in matchings(n, n) if sum(x is not None for x in p) <= maxshared]
        if order:
            pats = [p for p in pats if [x for x in p if x is not None] == sorted(x for x in p if x is not None)]
        f0 = pair_sym(n, n, pats)

        def f():
            a, b = f0()
            L = [list(base(a)), list(base(b))]
            for m in ms:
                for x, y in itertools.combinations(centroids_apart(L, m), 2):
                    apart([u / m for u in x], [u / m for u in y])
            return [mk(np.stack([base(a), base(b)]), 'int')]
        return f

    def one_obj(n, ms):
        def f():
            a = symrows(n)
            for x, y in itertools.combinations(list(a), 2):
                apart(perp6(x), perp6(y))
            for m in ms:
                for x, y in itertools.combinations(centroids_apart([list(a)], m), 2):
                    apart([u / m for u in x], [u / m for u in y])
            return [mk(a[None], 'int')]
        return f

    def uniq_cases(n, m, runs=40, most=40):
        return [Case('1 simplex', None, sym=one_obj(n, [m]), gen=g_complex(n), bounded='1 simplex', runs=0),
                Case('2 simplices', None, sym=pair_obj(n, [m], n - 1), gen=g_complex(n), bounded='2 simplices, common vertices listed in the same order', runs=0),
                Case('2 simplices, any vertex order', None, sym=pair_obj(n, [m], n - 1, False), gen=g_complex(n), bounded='2 simplices', runs=0, thorough=True, max_paths=1000),
                Case('any face-to-face object (sampled)', None, gen=g_complex(n), nosym=True, runs=runs),
                Case('large face-to-face object (sampled)', None, gen=g_complex(n, most=most), nosym=True, runs=1)]
    ue = uniq_spec(2, lambda c: True)

    def s_ue(o):
        if base(o).ndim == 4 and base(o).shape[1] not in ((2, 3, 4) if ico else (2, 3)):
            raise SpecError()
        return ue(o)

    def g_edges(rng, env):
        L = g_complex(3)(rng, env)[0]
        E = [[t[i], t[j]] for t in L for i, j in ((0, 1), (0, 2), (1, 2))]
        rng.shuffle(E)
        return [np.array(E, dtype=np.int64)]
    def ss_surf(o, verbose=0):
        """the surface of a domain: known by its hull"""
        need(isinstance(o, seq.SymSeq) and o.ndim == 4)
        nm = ('surface', seq.gkey(o))
        h = seq.hull_of(o)

        def stub():
            v = seq.ghost(nm, 3, 6, may_none=False)
            seq.set_hull(v, h)
            return v
        return rel(lambda res: seq.is_ghost(res, nm, 'surface'), stub)
    Contract(q + 'generator_unique_edges', ['C12', 'C22'], s_ue, uniq_cases(3, 2) + (uniq_cases(4, 2)[:1] + uniq_cases(4, 2)[3:] if ico else []) + [
        Case('set of edges (sampled)', None, gen=g_edges, nosym=True, runs=20)], stub=False)
    if ico:
        Contract(q + 'generator_unique_triangles', ['C12', 'C22'], uniq_spec(3, lambda c: True), uniq_cases(4, 3), stub=False)
        Contract(q + 'generator_surface_1', ['C12', 'C22'], uniq_spec(3, lambda c: c == 1), uniq_cases(4, 3, 60), stub='seq', seqspec=ss_surf)

    def g_book(rng, env):
        """coplanar triangles several of which have one edge in common"""
        T = rnd_simplex(rng, 3, 0.05)
        out = [T]
        for _ in range(rng.randint(2, 4)):
            l = gen.rnd_bary(rng, 3, 'out')
            p = gen.comb(T, l)
            if l[2] == Q(0):
                raise ValueError
            out.append([T[0], T[1], p])
        rng.shuffle(out)
        return [to6([[disguise(rng, v, 0.2) for v in rng.sample(t, 3)] for t in out])]

    # outline of coplanar triangles
    def g_planar(rng, env):
        return g_complex(3)(rng, env)
    Contract(q + 'gen_border_edges_of_coplanar_triangles', ['C12', 'C22'], uniq_spec(2, lambda c: c == 1), uniq_cases(3, 2, most=20) + [
        Case('triangles around a common edge (sampled)', None, gen=g_book, nosym=True, runs=8)], stub=False)


    # two segments merged into one
    coplanar_rel = H['coplanar_rel']

    def s_merge(a, b):
        need(base(a).shape == (2, 6, 3) and base(b).shape == (2, 6, 3))
        A, Bv = list(base(a)), list(base(b))
        k = nshared(a, b)
        need(k < 2)
        if k == 0:
            return none()
        i = 0 if any(tobool(same(A[0], y)) for y in Bv) else 1
        j = 0 if tobool(same(A[i], Bv[0])) else 1
        u, v = A[1 - i], Bv[1 - j]
        t = H['s_pos'](mk(A[i], 'int'), mk(np.stack([u, v]), 'int'))
        must, mustnot = (t.val if t.kind == 'tri' else (t.val, ~tobool(t.val)))

        def f(res):
            R = rows_of(res)
            if R is None or len(R) != 2:
                return [('a segment', FALSE)]
            return [('joins the two far ends', sor([sand([same(R[0], u), same(R[1], v)]), sand([same(R[0], v), same(R[1], u)])])),
                    ('ends of the segments', B(all(any(ikey(r) == ikey(x) for x in A + Bv) for r in R)))]
        return opt(must, mustnot, rel(f, lambda: mk(np.stack([u, v]), 'int')))

    def g_merge(rng, env):
        p, e = gvec(rng), gvec(rng)
        k = rng.random()
        if k < 0.5:      # opposite directions
            f = gen.mul6(e, Q(-Fraction(rng.randint(1, 6), rng.choice([1, 2, 3]))))
        elif k < 0.65:   # same direction
            f = gen.mul6(e, Q(Fraction(rng.choice([1, 3, 5, 6]), rng.choice([2, 4, 7]))))
        else:
            f = gvec(rng)
        p2 = p if rng.random() < 0.85 else gen.add6(p, gvec(rng))
        a, b = [p, gen.add6(p, e)], [p2, gen.add6(p2, f)]
        a, b = [disguise(rng, x, 0.3) for x in a], [disguise(rng, x, 0.3) for x in b]
        if rng.random() < 0.5:
            a.reverse()
        if rng.random() < 0.5:
            b.reverse()
        for S in (a, b):
            pr = gen.sub3(gen.perp(S[0]), gen.perp(S[1]))
            if float(gen.dot(pr, pr)) < 0.01:
                raise ValueError
        return [to6(a), to6(b)]
    Contract(q + 'two_segment_into_one', ['C12', 'C22'], s_merge, [
        Case('any two segments', None, sym=pair_sym(2, 2, [p for p in matchings(2, 2) if None in p]), gen=g_merge, runs=150, abstract=True)], stub=False)

    # ------------------------------------------------------------- C23 triangles
    def pts_of(t1, t2):
        out = []
        for v in list(base(t1)) + list(base(t2)):
            if not any(tobool(same(v, w)) for w in out):
                out.append(v)
        return out

    def cop2(t1, t2):
        """(must be coplanar, must not)"""
        if logic.CTX is not None and logic.CTX.abstract and not (aconst(t1) and aconst(t2)):
            k = frozenset((ikey(t1), ikey(t2)))
            return logic.opaque('two coplanar', k), logic.opaque('two not coplanar', k)
        r = coplanar_rel([perp6(v) for v in pts_of(t1, t2)])
        return (r.must, r.mustnot) if r.kind == 'rel' else (TRUE, FALSE)

    def s_c2(t1, t2):
        need(base(t1).shape == (3, 6, 3) and base(t2).shape == (3, 6, 3))
        if aconst(t1) and aconst(t2):
            for t in (t1, t2):
                P = [perp6(v) for v in base(t)]
                c = [fl(x) for x in cross3(sub3(P[1], P[0]), sub3(P[2], P[0]))]
                need(max(abs(x) for x in c) > 1e-3)

        def f(res):
            if res is None:
                return [('a verdict', FALSE)]
            x = tobool(res)
            r = coplanar_rel([perp6(v) for v in pts_of(t1, t2)])
            must, mustnot = (r.must, r.mustnot) if r.kind == 'rel' else (TRUE, FALSE)
            return [('coplanar triangles are reported coplanar', N.simplies(must, x)), ('others are reported not coplanar', N.simplies(mustnot, ~x))]

        def stub():
            c = logic.ctx()
            if not c.abstract:
                return NOSTUB
            must, mustnot = cop2(t1, t2)
            i = c.choose(2)
            c.assume([~mustnot, ~must][i])
            return [True, False][i]
        return rel(f, stub)

    def g_two(rng, env, k=2):
        T = rnd_simplex(rng, 3, 0.1)
        out = [T]
        for _ in range(50):
            if len(out) == k:
                break
            if rng.random() < 0.6:
                base_ = rng.choice(out)
                t = [gen.comb(base_, gen.rnd_bary(rng, 3, rng.choice(['vertex', 'in', 'out', 'edge']))) for _ in range(3)]
            else:
                t = [rng.choice(rng.choice(out)) if rng.random() < 0.4 else gvec(rng) for _ in range(3)]
            n = gen.tri_n([gen.perp(v) for v in t])
            if float(gen.dot(n, n)) > 0.01:
                out.append(t)
        if len(out) < k:
            raise ValueError
        out = [[disguise(rng, v, 0.3) for v in t] for t in out]
        return [to6(t) for t in out]
    Contract(q + 'coplanar_check_two_triangles', ['C23', 'C12', 'C22'], s_c2, [
        Case('any two triangles', None, sym=pair_sym(3, 3), gen=g_two, runs=80, abstract=True)]).nondet = True

    def s_sets(S):
        A = base(S)
        need(A.ndim == 4 and A.shape[1:] == (3, 6, 3) and len(A) > 0)
        T = list(A)
        if aconst(A):
            for t in T:
                s_c2(t, t)

        def f(res):
            try:
                G = [arr_rows(g, 3) for g in res]
            except TypeError:
                return [('a list of sets', FALSE)]
            if any(g is None or len(g) == 0 for g in G):
                return [('a list of non-empty sets of triangles', FALSE)]
            want = sorted([ikey(t) for t in T], key=repr)
            got = sorted([ikey(t) for g in G for t in g], key=repr)
            out = [('every triangle in exactly one set', B(want == got))]
            con = aconst(A) and len(T) <= 20
            for i, g in enumerate(G):
                for j in range(1, len(g)):
                    for k in (range(j) if con else (0,)):
                        out.append(('set %d coplanar [%d,%d]' % (i, k, j), ~cop2(g[k], g[j])[1]))
                for h in G[:i]:
                    for x, y in (itertools.product(g, h) if con else [(g[0], h[0])]):
                        out.append(('different sets not coplanar', ~cop2(x, y)[0]))
            return out
        return rel(f)

    def g_tris(rng, env):
        return [np.stack(g_two(rng, env, rng.randint(1, 6)))]

    def g_many(rng, env):
        out = []
        for _ in range(rng.randint(3, 4)):
            T = rnd_simplex(rng, 3, 0.5)
            n = rng.randint(28, 34)
            pts = [gen.comb(T[:2], [Q(Fraction(n - i, n)), Q(Fraction(i, n))]) for i in range(n + 1)]
            out += [[pts[i], pts[i + 1], T[2]] for i in range(n)]
        rng.shuffle(out)
        return [to6(out)]

    def tris_sym(n):
        return lambda: [mk(symrows(3 * n).reshape(n, 3, 6, 3), 'int')]
    Contract(q + 'get_sets_of_coplanar_triangles', ['C23', 'C12', 'C22'], s_sets, [
        Case('%d triangles' % n, None, sym=tris_sym(n), gen=g_tris, bounded='%d triangles' % n, runs=0, abstract=True) for n in (1, 2, 3, 4)] + [
        Case('any set (sampled)', None, gen=g_tris, nosym=True, runs=40),
        Case('many triangles (sampled)', None, gen=g_many, nosym=True, runs=0.7)], stub=False).nondet = True

    # outline
    def s_clean(S):
        A = base(S)
        need(A.ndim == 4 and A.shape[1:] == (3, 6, 3) and len(A) > 0 and aconst(A))
        T = [list(t) for t in A]
        C = Classes()
        P = {}
        tris = []
        for t in T:
            ids = [C.of(v) for v in t]
            need(len(set(ids)) == 3)
            for i, v in zip(ids, t):
                P[i] = [Q(*Num.of(x).cval()) for x in perp6(v)]
            tris.append(ids)
        groups = []
        for t in tris:
            for g in groups:
                n = gen.tri_n([P[i] for i in g[0]])
                if all(gen.dot(n, gen.sub3(P[i], P[g[0][0]])) == Q(0) for i in t):
                    g.append(t)
                    break
            else:
                groups.append([t])
        edges = set()
        for g in groups:
            cnt = {}
            for t in g:
                for e in itertools.combinations(t, 2):
                    cnt[frozenset(e)] = cnt.get(frozenset(e), 0) + 1
            need(max(cnt.values()) <= 2)
            edges |= {e for e, n in cnt.items() if n == 1}
        edges = list(edges)
        # merge collinear neighbours
        done = False
        while not done:
            done = True
            for e, f in itertools.combinations(edges, 2):
                sh = e & f
                if len(sh) != 1:
                    continue
                p, = sh
                u, = e - sh
                v, = f - sh
                a, b = gen.sub3(P[u], P[p]), gen.sub3(P[v], P[p])
                if all(x == Q(0) for x in gen.cross(a, b)) and gen.dot(a, b) < Q(0):
                    edges = [g for g in edges if g not in (e, f)] + [frozenset((u, v))]
                    done = False
                    break
        own = {ikey(v) for t in T for v in t}
        need(edges)
        return rel(exactly(edges, C, 2, own))

    def g_surf(rng, env):
        if ico and rng.random() < 0.6:
            O = g_complex(4, 0.15)(rng, env, rng.choice([0, 1, 1, 2]))[0]
            from collections import Counter
            key = lambda t: frozenset(tuple((y.p, y.q) for y in gen.perp(gen.q6(v))) for v in t)
            F = [[t[i] for i in c] for t in O for c in itertools.combinations(range(4), 3)]
            cnt = Counter(key(f) for f in F)
            F = [f for f in F if cnt[key(f)] == 1]
            rng.shuffle(F)
            return [np.array(F, dtype=np.int64)]
        return g_complex(3, 0.15)(rng, env)
    def g_fan(rng, env, lo=9, hi=14):
        """a triangle cut into many slices: one side of the outline is pieced together from all of them"""
        T = rnd_simplex(rng, 3, 0.5)
        n = rng.randint(lo, hi)
        pts = [gen.comb(T[:2], [Q(Fraction(n - i, n)), Q(Fraction(i, n))]) for i in range(n + 1)]
        out = [[pts[i], pts[i + 1], T[2]] for i in range(n)]
        rng.shuffle(out)
        return [to6(out)]
    def ss_clean(o):
        """the outline of a set of triangles (keeps the hull)"""
        need(isinstance(o, seq.SymSeq) and o.ndim == 4)
        nm = ('outline', seq.gkey(o))
        h = seq.hull_of(o)

        def stub():
            v = seq.ghost(nm, 2, 6, may_none=False)
            seq.set_hull(v, h)
            return v
        return rel(lambda res: seq.is_ghost(res, nm, 'the outline of the triangles'), stub)
    Contract(q + 'surface_cleaner', ['C12', 'C18', 'C22'], s_clean, [Case('any face-to-face surface (sampled)', None, gen=g_surf, nosym=True, runs=25),
                                                                     Case('triangle in many slices (sampled)', None, gen=g_fan, nosym=True, runs=1),
                                                                     Case('triangle in very many slices (sampled)', None, gen=lambda rng, env: g_fan(rng, env, 38, 45), nosym=True, runs=0.4)], stub='seq', seqspec=ss_clean).nondet = True

    return dict(same=same, perp6=perp6, pkey=pkey, ikey=ikey, gset=gset, gvec=gvec, pair_sym=pair_sym, matchings=matchings, roweq=roweq, kadd=kadd, s_shift=s_shift, shift_cases=shift_cases,
                uniq_stub=uniq_stub, rows_of=rows_of, simp=simp, flat=flat, g_complex=g_complex, apart=apart, arr_rows=arr_rows, symrows_=symrows, s_ov6=s_ov6, s_v6=s_v6, Classes=Classes, planar6_sym=None if ico else planar6_sym, planar6_pts=None if ico else planar6_pts, k6=k6, k6s=k6s, ss_ov6=ss_ov6, gany=gany, s_clean=s_clean, ss_clean=ss_clean)


def gen_kernel(pkg):
    d = N.D
    N.set_field(5 if pkg == 'ico2' else 3)
    K = [[Num.const((x.p, x.q)) for x in r] for r in gen.kernel()]
    N.set_field(d)
    return K
