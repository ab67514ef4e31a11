"""Contracts of occupation_domain.py and of the decomposition functions of utils.py (both packages)."""
import itertools, re
from fractions import Fraction
import numpy as np
from . import num as N, logic, arr, gen, clip, text, seq
from .num import Num, sand, sor, tobool, TRUE, FALSE
from .core import *
from .core import vals, fl
from .arr import base, obj, mk
from .c_math1 import need
from .c_utils import B, aconst, canon_, symrows
from .gen import Q, to6, rnd_v6, rnd_simplex, disguise


def build(pkg, H):
    q = pkg + '.occupation_domain.'
    u = pkg + '.utils.'
    ico = pkg == 'ico2'
    nv = 4 if ico else 3
    dim = nv - 1
    perp1, qs, simp, arr_rows, ikey = H['perp1'], H['qs'], H['simp'], H['arr_rows'], H['ikey']
    s_ov6, Classes = H['s_ov6'], H['Classes']
    abstract = lambda: logic.CTX is not None and logic.CTX.abstract

    # ------------------------------------------------------------- thin wrappers
    Contract(q + 'shift', ['C10', 'C22'], H['s_shift'], H['shift_cases'](), stub=False, lift='map')
    Contract(q + 'volume', ['C09', 'C22'], s_ov6, [
        Case('one simplex', runs=10, **H['k6']()), Case('set of 2', bounded='2 simplices', runs=5, **H['k6'](2)),
        Case('any number n >= 1 of simplices', None, sym=seq.wrapped(H['k6s'](1), 'n'), gen=H['gany'](1), runs=0, abstract=True),
        Case('any set (sampled)', None, gen=H['gany'](1), nosym=True, runs=20)], stub=False, seqspec=H['ss_ov6'])
    Contract(q + 'symmetric', ['C08', 'C22'], H['s_gen'], H['gen_cases'], stub=False, lift=H['g_gen'])
    Contract(q + 'symmetric_0', ['C08', 'C22'], H['s_one'], H['one_cases'], stub=False, lift='map')
    if not ico:
        ms = OneOf(0, 1, -1, 2, -3)
        Contract(q + 'similarity', ['C21', 'C22'], H['s_sv'](4), [
            Case('any number n >= 1 of triangles', [seq.SeqKind('n', 3, 6), ms], bounded='m in 0,1,-1,2,-3', runs=0),
            Case('2 triangles', [Trips(2, 3, 6), ms], bounded='2 triangles', runs=10),
            Case('any number (sampled)', None, gen=lambda r, e: [Trips(r.randint(1, 5), 3, 6).conc(r, e), r.randint(-4, 4)], nosym=True, runs=10)] +
            [Case('any number n >= 1 of triangles, any ' + n, [seq.SeqKind('n', 3, 6), seq.Exponent(e)], runs=0) for n, e in (('m >= 1', 1), ('m <= -1', -1))], stub=False, lift='map')
        for nm in ('outline', 'generate_border_edges'):
            Contract(q + nm, ['C12', 'C22'], H['s_clean'], [Case('any number n >= 1 of triangles', None, sym=lambda: [seq.SeqKind('n', 3, 6).sym('a')], gen=lambda r, e: H['g_complex'](3, 0.15)(r, e), runs=0), Case('any face-to-face set of triangles (sampled)', None, gen=lambda r, e: H['g_complex'](3, 0.15)(r, e), nosym=True, runs=15)], stub=False, seqspec=H['ss_clean']).nondet = True

    if ico:
        def s_border(o):
            """the outline of the faces that belong to one tetrahedron only"""
            A = base(o)
            need(A.ndim == 4 and A.shape[1:] == (4, 6, 3) and len(A) > 0 and aconst(A))
            C, cnt = Classes(), {}
            for t in A:
                for f in itertools.combinations(range(4), 3):
                    k = frozenset(C.of(t[i]) for i in f)
                    need(len(k) == 3)
                    cnt.setdefault(k, []).append(np.stack([t[i] for i in f]))
            need(max(len(x) for x in cnt.values()) <= 2)
            return H['s_clean'](mk(np.stack([x[0] for x in cnt.values() if len(x) == 1]), 'int'))

        def ss_border(o):
            nm = ('outline', seq.gkey(seq.ghost(('surface', seq.gkey(o)), 3, 6, may_none=False)))
            return rel(lambda res: seq.is_ghost(res, nm, 'the outline of the surface'))
        Contract(q + 'generate_border_edges', ['C12', 'C22'], s_border, [
            Case('any number n >= 1 of tetrahedra', None, sym=lambda: [seq.SeqKind('n', 4, 6).sym('a')], gen=lambda r, e: H['g_complex'](4, 0.15)(r, e), runs=0),
            Case('any face-to-face domain (sampled)', None, gen=lambda r, e: H['g_complex'](4, 0.15)(r, e), nosym=True, runs=15)], stub=False, seqspec=ss_border).nondet = True

    # ------------------------------------------------------------- C18 decomposition of points
    pname = 'tetrahedralization_points' if ico else 'triangulation_points'

    def among(A, own):
        return all(ikey(v) in own for s in A for v in s)

    def hull_facts(P, own, V):
        """simplices over the given points (own: their exact coordinates), filling the hull (size V) once"""
        def f(res):
            A = arr_rows(res, nv)
            if A is None or len(A) == 0:
                return [('a set of simplices', FALSE)]
            R = [qs(s) for s in A]
            out = [('vertices are given points', B(among(A, own))), ('no degenerate simplex', B(all(clip.size(r) != Q(0) for r in R))),
                   ('total volume is that of the convex hull', B(clip.total(R) == V))]
            if len(R) <= 12:
                out.append(('no overlap', B(all(clip.common([x], [y]) == Q(0) for x, y in itertools.combinations(R, 2)))))
            return out
        return f

    def iszero(v):
        """a value is zero exactly if its canonical triple is (0,0,1) (sqrt irrational: lemma)"""
        t = logic.canon(v)
        return tobool(t[0] == 0) and tobool(t[1] == 0)

    def s_points(P):
        A = base(P)
        need(A.ndim == 3 and A.shape[1:] == (6, 3) and len(A) > 0)
        own = {ikey(v) for v in A}
        if not aconst(A):
            rec = logic.ctx().funs.get('delaunay')
            need(rec is not None)
            pts, S = rec
            pre = [('point %d handed to the triangulation is its perpendicular projection' % i, sand([Num.of(pts[i][k]) == x for k, x in enumerate(perp1(v)[:dim])]))
                   for i, v in enumerate(A)] if pts.shape == (len(A), dim) else [('one point per vertex', FALSE)]
            exp = [[A[i] for i in s] for s in (S or [])]
            exp = [s for s in exp if not iszero(simp(np.stack(s)).val)]

            def f(res):
                if not exp:
                    return pre + [('nothing', B(res is None))]
                R = arr_rows(res, nv)
                if R is None:
                    return pre + [('a set of simplices', FALSE)]
                key = lambda L: sorted([tuple(sorted((ikey(v) for v in s), key=repr)) for s in L], key=repr)
                return pre + [('exactly the non-degenerate simplices of the triangulation', B(key(R) == key(exp)))]
            return rel(f)
        pts = [[Q(*Num.of(x).cval()) for x in perp1(v)] for v in A]
        V = clip.hull_size(pts, dim)
        if V == Q(0):
            return none()
        need(clip.general(pts, dim, 1e-5))
        return rel(hull_facts(pts, own, V))

    def g_points(rng, env):
        k = rng.random()
        n = rng.randint(dim + 1, dim + 4)
        if k < 0.2:
            # flat
            a, b, c = (rnd_v6(rng) for _ in range(3))
            if ico:
                f = lambda: gen.add6(a, gen.add6(gen.mul6(b, Q(rng.randint(-3, 3))), gen.mul6(c, Q(rng.randint(-3, 3)))))
            else:
                f = lambda: gen.add6(a, gen.mul6(b, Q(rng.randint(-4, 4))))
            return [to6([disguise(rng, f(), 0.2) for _ in range(n)])]
        P = [rnd_v6(rng) for _ in range(n)]
        if k > 0.7:
            # a point slightly off a facet
            S = rnd_simplex(rng, nv)
            w = [Q(Fraction(rng.randint(1, 5), 8)) for _ in range(dim)]
            t = sum((float(x) for x in w), 0.0)
            w = [x * Q(1 / Fraction(t)) for x in w]
            e = Q(rng.choice([-1, 1]) * Fraction(1, rng.choice([200, 1000, 5000])))
            P = S + [gen.comb(S, [Q(1) * e] + [w[0] - e] + w[1:])]
            rng.shuffle(P)
        return [to6([disguise(rng, x, 0.2) for x in P])]

    pts_sym = (lambda n: lambda: [mk(symrows(n, 'p'), 'int')]) if ico else (lambda n: lambda: H['planar6_pts'](n))
    Contract(u + pname, ['C18', 'C16', 'C22'], s_points, [
        Case('%d points, any triangulation' % n, None, sym=pts_sym(n), gen=g_points, bounded='%d points, triangulations of up to %d simplices' % (n, min(3, max(1, n - dim))), runs=0, abstract=True) for n in (nv, nv + 1)] + [
        Case('any points in general position, flat sets (sampled)', None, gen=g_points, nosym=True, runs=60)], stub=False)

    # ------------------------------------------------------------- C18 convex hull, simplification
    def domain(o):
        A = base(o)
        need(A.ndim == 4 and A.shape[1:] == (nv, 6, 3) and len(A) > 0 and aconst(A))
        R = [qs(s) for s in A]
        need(all(float(clip.size(r)) > 0.005 for r in R))
        return A, R

    def s_hull(o):
        if abstract() and not aconst(o):
            f = logic.ctx().funs
            if 'hull' not in f:
                f['hull'] = base(symrows(nv, 'h')).reshape(1, nv, 6, 3) if ico else base(H['planar6_sym'](1)()[0])
            return rel(lambda r: [], lambda: mk(np.array(f['hull'], dtype=object), 'int'))
        A, R = domain(o)
        C = Classes()
        pts = {}
        for s, r in zip(A, R):
            for v, p in zip(s, r):
                pts.setdefault(C.of(v), p)
        P = list(pts.values())
        need(clip.general(corners(P), dim))
        return rel(hull_facts(P, {ikey(v) for s in A for v in s}, clip.hull_size(P, dim)))

    def corners(P):
        """corner points of the convex hull (floats)"""
        from scipy.spatial import ConvexHull
        X = np.array([[float(x) for x in p[:dim]] for p in P])
        return [P[i] for i in ConvexHull(X).vertices]

    def g_dom(rng, env):
        """face-to-face domains, convex and not"""
        k = rng.random()
        if k < 0.35:
            return H['g_complex'](nv, 0.1)(rng, env)
        if k < 0.5:
            # parallelepiped / parallelogram
            o = H['iv'](rng)
            for _ in range(50):
                e = [H['iv'](rng) for _ in range(dim)]
                if abs(float(clip.signed([gen.perp(x) for x in [o] + [gen.add6(o, y) for y in e]]))) > 0.1:
                    break
            else:
                raise ValueError
            S = []
            for p in itertools.permutations(range(dim)):
                v = [o]
                for i in p:
                    v.append(gen.add6(v[-1], e[i]))
                S.append(v)
        elif k < 0.75:
            # two simplices on a common facet or a common vertex
            a = H['isimplex'](rng)
            m = rng.choice([1, dim, dim])
            c = rng.sample(range(nv), m)
            o = [i for i in range(nv) if i not in c]
            foot = gen.comb([a[i] for i in c], [Q(Fraction(1, m))] * m)
            f = Q(rng.choice([1, 1, 2, Fraction(1, 2), Fraction(1, 20), Fraction(1, 60)]))
            if m == dim:
                foot = gen.comb([a[i] for i in c], gen.rnd_bary(rng, m, rng.choice(['in', 'out', 'vertex'])))
            b = [a[i] for i in c] + [gen.add6(foot, gen.mul6(gen.sub6(foot, a[i]), f)) for i in o]
            S = [a, b]
        elif k < 0.85:
            # a simplex with a shallow dent in one facet
            a = H['isimplex'](rng)
            e = Fraction(1, rng.choice([20, 100, 500]))
            w = [Fraction(rng.randint(1, 3)) for _ in range(dim)]
            w = [x / sum(w) * (1 - e) for x in w]
            p = gen.comb(a, [Q(e)] + [Q(x) for x in w])
            S = [[p if j == i else a[j] for j in range(nv)] for i in range(1, nv)]
        else:
            # cone over a polygon or a fan: vertices around an axis
            a = H['isimplex'](rng)
            p = gen.comb(a, [Q(Fraction(1, nv))] * nv)
            S = [[p if j == i else a[j] for j in range(nv)] for i in range(nv)]
            if rng.random() < 0.6:
                S = rng.sample(S, rng.randint(1, nv - 1))
        out = []
        for s in S:
            s = list(s)
            rng.shuffle(s)
            out.append([disguise(rng, x, 0.05) for x in s])
        rng.shuffle(out)
        return [to6(out)]

    def g_big(rng, env):
        """a convex domain with many corners, decomposed without further vertices"""
        return [to6(clip.many_corners(rng, ico))]

    def ss_fill(p):
        """simplices that fill the hull of the points"""
        need(isinstance(p, seq.SymSeq))
        nm = ('fill', seq.hull_of(p))
        return rel(lambda res: seq.is_ghost(res, nm, 'simplices filling the hull'), lambda: seq.ghost(nm, nv, 6))

    def ss_hullseq(o):
        """precondition: the domain is not flat"""
        need(isinstance(o, seq.SymSeq))
        nm = ('fill', seq.hull_of(o))
        return rel(lambda res: seq.is_ghost(res, nm, 'simplices filling the hull'), lambda: seq.ghost(nm, nv, 6, may_none=False, make=None if ico else lambda k: seq.wrapped(H['k6s'](1), k + '+')()[0]))
    CONTRACTS[u + pname].stub, CONTRACTS[u + pname].seqspec = 'seq', ss_fill
    Contract(u + 'generate_convex_hull', ['C18', 'C22'], s_hull, [Case('any number n >= 1 of simplices', None, sym=lambda: [seq.SeqKind('n', nv, 6).sym('a')], gen=g_dom, runs=0), Case('any domain (sampled)', None, gen=g_dom, nosym=True, runs=25), Case('domain with many corners (sampled)', None, gen=g_big, nosym=True, runs=0.5)], seqspec=ss_hullseq).nondet = True

    def s_simp(o, verbose=0):
        if o is None:
            return none()
        if abstract() and not aconst(o):
            V = s_ov6(o).val

            def fa(res):
                R = arr_rows(res, nv)
                if R is None:
                    return [('a set of simplices', FALSE)]
                h = logic.ctx().funs.get('hull')
                sameobj = ikey(R) == ikey(base(o))
                return [('the volume is kept', s_ov6(res).val == V), ('the domain itself or its convex hull', B(sameobj or (h is not None and ikey(R) == ikey(h))))]
            return rel(fa)
        A, R = domain(o)
        for x, y in itertools.combinations(R, 2):
            need(clip.common([x], [y]) == Q(0))
        V = clip.total(R)
        own = {ikey(v) for s in A for v in s}
        VH = clip.hull_size([p for r in R for p in r], dim)

        def f(res):
            Z = arr_rows(res, nv)
            if Z is None or len(Z) == 0:
                return [('a set of simplices', FALSE)]
            S = [qs(s) for s in Z]
            out = [('the volume is kept', B(clip.total(S) == V)), ('vertices of the domain', B(among(Z, own)))]
            if VH != V:
                out.append(('a non-convex domain is returned unchanged', B(Z.shape == A.shape and all(ikey(a) == ikey(b) for a, b in zip(A.reshape(-1, 6, 3), Z.reshape(-1, 6, 3))))))
            elif len(S) <= 24:
                out.append(('inside the domain', B(all(clip.common([s], R) == clip.size(s) for s in S))))
                out.append(('no overlap', B(all(clip.common([x], [y]) == Q(0) for x, y in itertools.combinations(S, 2)))))
            return out
        return rel(f)
    def ss_simp(o, verbose=0):
        """the hull when it has the volume of the domain, the domain itself otherwise"""
        nm = ('fill', seq.hull_of(o))

        def f(res):
            if not isinstance(res, seq.SymSeq):
                raise N.Unsupported('form of the result')
            v, w = H['ss_ov6'](o).val, H['ss_ov6'](res).val
            out = [('the volume is kept', Num.of(v) == Num.of(w))]
            if tuple(res.groups) == tuple(o.groups):
                return out + [('the domain itself', same_seq(res, o, o.groups))]
            return out + seq.is_ghost(res, nm, 'simplices filling the hull')
        return rel(f)
    Contract(q + 'simplification', ['C18', 'C22'], s_simp, [
        Case('%d simplices, any hull' % n, None, sym=(lambda n=n: [mk(symrows(n * nv, 'a').reshape(n, nv, 6, 3), 'int')]) if ico else (lambda n=n: H['planar6_sym'](n)()), gen=g_dom, bounded='%d simplices' % n, runs=0, abstract=True) for n in (1, 2)] + [
        Case('any number n >= 1 of simplices', None, sym=(lambda: [seq.SeqKind('n', nv, 6).sym('a')]) if ico else seq.wrapped(H['k6s'](1), 'n'), gen=g_dom, runs=0),
        Case('nothing', [Const(None)], runs=1),
        Case('any domain (sampled)', None, gen=g_dom, nosym=True, runs=40)], stub=False, seqspec=ss_simp).nondet = True

    # ------------------------------------------------------------- C16 asymmetric part (icosahedral)
    if ico:
        def s_asym(o, c, v):
            need(base(c).shape == (6, 3) and base(v).shape == (3, 6, 3))
            x, p = vals(v), vals(c)
            T = np.array([[canon_(a) for a in p]] + [[canon_(a + Num.of(5) * b) for a, b in zip(p, y)] for y in x], dtype=object)
            return H['obj_spec'](o, mk(T[None], 'int'))

        def g_asym(rng, env):
            a = H['isimplex'](rng)
            o = to6([a])
            if rng.random() < 0.5:
                o = H['split'](rng, o)
            c = rng.choice([a[0], gen.comb(a, [Q(Fraction(1, 4))] * 4), H['iv'](rng), [x * Q(Fraction(1, 2), Fraction(1, 2)) for x in H['iv'](rng)]])
            return [o, to6(c), to6([H['iv'](rng) for _ in range(3)])]
        def ss_asym(o, c, v):
            x, p = vals(v), vals(c)
            T = np.array([[canon_(a) for a in p]] + [[canon_(a + Num.of(5) * b) for a, b in zip(p, y)] for y in x], dtype=object)
            return H['ss_common'](o, mk(T[None], 'int'))
        Contract(q + 'asymmetric', ['C16', 'C22'], s_asym, [Case('any number n >= 1 of simplices, any wedge', None, sym=lambda: [seq.SeqKind('n', 4, 6).sym('a'), Trips(6).sym('c'), Trips(3, 6).sym('v')], gen=g_asym, runs=0), Case('any domain, any wedge (sampled)', None, gen=g_asym, nosym=True, runs=20)], stub=False, seqspec=ss_asym).nondet = True

    # ------------------------------------------------------------- C19 XYZ files
    unit = 'tetrahedron' if ico else 'triangle'
    from .seq import SeqKind as SeqK
    INT = re.compile(r'-?\d+$')

    def toks(line):
        return line.split()

    def asint(t):
        if isinstance(t, text.SymStr):
            return t.number('int')
        return Num.of(int(t))

    def asreal(t):
        if isinstance(t, text.SymStr):
            return t.number('float')
        return Num.of(Fraction(t))

    def isint_(t):
        try:
            asint(t)
            return True
        except Exception:
            return False

    def first(line):
        p = line.parts[0] if isinstance(line, text.SymStr) else line
        return p if isinstance(p, str) else ''

    HALF = Num.of(Fraction(6, 10 ** 7))

    def close(a, b):
        """the printed number is the value rounded to six decimals"""
        a, b = Num.of(a), Num.of(b)
        if a.is_const() and b.is_const():
            return B(abs(fl(a) - fl(b)) <= 6e-7 * (1 + 1e-3 * abs(fl(b))))
        return a == b

    def file_facts(L, V, S, nm=''):
        """L: lines of the file, V: vertices (n,6,3), S: simplices whose volumes are listed (or None)"""
        if L is None:
            return [(nm + 'a file is written', FALSE)]
        try:
            head = asint(toks(L[0])[0])
            atoms = [l for l in L[2:] if first(l).startswith('Xx')]
            out = [(nm + 'header count is the number of atoms', sand([head == len(atoms), B(len(atoms) == len(V))])), (nm + 'atoms follow the two header lines', B(all(first(l).startswith('Xx') for l in L[2:2 + len(V)])))]
            for i, (l, v) in enumerate(zip(atoms, V)):
                t = toks(l)
                for k, x in enumerate(perp1(v)):
                    out.append((nm + 'atom %d coordinate %d' % (i, k), close(asreal(t[1 + k]), x)))
            if S is not None:
                rest = L[2 + len(atoms):]
                vl = [l for l in rest if first(l).startswith('volume')]
                tl = [l for l in rest if not first(l).startswith('volume')]
                out.append((nm + 'one volume line', B(len(vl) == 1)))
                out.append((nm + 'one line per tetrahedron', B(len(tl) == len(S))))
                if len(vl) == 1 and len(tl) == len(S):
                    one = [simp(s).val for s in S]
                    tot = sum(one, Num.of(0))
                    for lab, l, e in [('whole domain', vl[0], tot)] + [('tetrahedron %d' % i, a, b) for i, (a, b) in enumerate(zip(tl, one))]:
                        t = [x for x in toks(l.split('(')[0]) if isint_(x)]
                        out.append((nm + 'volume of ' + lab, sand([B(len(t) >= 3), logic.tripval([asint(x) for x in t[-3:]]) == e])))
                        p = l.split('(')
                        out.append((nm + 'decimal volume of ' + lab, close(asreal(p[-1].split(')')[0]), e)))
            return out
        except (IndexError, ValueError, AttributeError) as e:
            return [(nm + 'readable file (%s)' % e, FALSE)]

    def seq_facts(L, o, m, vols):
        """the same for a domain of symbolic length: what is checked is the lines of an arbitrary simplex (m vertices each)"""
        if not isinstance(L, text.ConcatList):
            return [('lines for every element', FALSE)]
        d = o.groups[0][0]
        T = base(o.buf).reshape(m, 6, 3)
        it = L.items
        want = 3 + (2 if vols else 0)
        try:
            ok = len(it) == want and isinstance(it[2], text.LineBlock) and it[2].d is d and len(it[2].lines) == m and not any(isinstance(x, text.LineBlock) for x in it[:2])
            if not ok:
                return [('two header lines, then %d atoms per element' % m, FALSE)]
            out = [('header count is the number of atoms', asint(toks(it[0])[0]) == Num.of(m) * d.n), ('atoms follow the two header lines', B(all(first(l).startswith('Xx') for l in it[2].lines)))]
            for j, (l, v) in enumerate(zip(it[2].lines, T)):
                t = toks(l)
                out += [('atom %d of any element, coordinate %d' % (j, k), close(asreal(t[1 + k]), x)) for k, x in enumerate(perp1(v))]
            if vols:
                if isinstance(it[3], text.LineBlock) or not first(it[3]).startswith('volume') or not isinstance(it[4], text.LineBlock) or it[4].d is not d or len(it[4].lines) != 1:
                    return out + [('one volume line, then one line per tetrahedron', FALSE)]
                for lab, l, e in [('whole domain', it[3], H['ss_ov6'](o).val), ('any tetrahedron', it[4].lines[0], simp(T).val)]:
                    t = [x for x in toks(l.split('(')[0]) if isint_(x)]
                    out.append(('volume of ' + lab, sand([B(len(t) >= 3), logic.tripval([asint(x) for x in t[-3:]]) == e])))
                    out.append(('decimal volume of ' + lab, close(asreal(l.split('(')[-1].split(')')[0]), e)))
            return out
        except (IndexError, ValueError, AttributeError) as e:
            return [('readable file (%s)' % e, FALSE)]

    def same_seq(res, o, groups):
        from . import seq
        if not isinstance(res, seq.SymSeq) or tuple(res.groups) != tuple(groups):
            raise N.Unsupported('shape of the result')
        return sand([Num.of(x) == Num.of(y) for x, y in zip(base(res.buf).reshape(-1), base(o.buf).reshape(-1))])

    def ss_rt(o, select):
        d = o.groups[0][0]
        m = 1 if select == 'vertex' else o.groups[1][0]

        def f(res):
            ret, L, one, two = res
            out = [('reports success', B(ret == 0))] + seq_facts(L, o, m, ico and select == unit)
            if select == unit:
                out.append(('reading gives the identical domain', same_seq(one, o, o.groups)))
            out.append(('reading as vertices gives the identical vertices', same_seq(two, o, [(d, m) if m > 1 else (d,), (6,), (3,)])))
            return out
        return rel(f)

    def same_arr(res, A):
        if not isinstance(res, np.ndarray) or res.shape != A.shape:
            return FALSE
        if not isinstance(res, arr.SymArr) and res.dtype.kind == 'f' or getattr(res, 'tag', None) == 'float':
            return FALSE
        R_ = base(res) if isinstance(res, arr.SymArr) else obj(res)
        return sand([Num.of(x) == Num.of(y) for x, y in zip(R_.reshape(-1), A.reshape(-1))])

    def client_rt(M, o, select):
        od = M.mod('occupation_domain')
        d = M.scratch()
        chatty = {} if M.symbolic or len(o) % 2 else {'verbose': 1}
        if not M.symbolic and o.size:               # the file already exists (a longer or a shorter one)
            od.write_xyz(np.concatenate([o, o]) if len(o) < 20 else o[:1], d, 'a', select)
        ret = od.write_xyz(o, d, 'a', select, **chatty)
        L = M.lines(d + '/a.xyz')
        one = od.read_xyz(d, 'a') if select == unit else None
        two = od.read_xyz(d, 'a', 'vertex', **chatty)
        return [ret, L, one, two]

    def s_rt(o, select):
        A = base(o)
        need(A.ndim == (3 if select == 'vertex' else 4) and A.shape[-2:] == (6, 3) and len(A) > 0)
        need(select != unit or A.shape[1] == nv)
        need(select != 'edge' or A.shape[1] == 2)
        need(select != 'triangle' or A.shape[1] == 3)
        V = A.reshape(-1, 6, 3)

        def f(res):
            ret, L, one, two = res
            out = [('reports success', B(ret == 0))] + file_facts(L, V, A if ico and select == unit else None)
            if select == unit:
                out.append(('reading gives the identical domain', same_arr(one, A)))
            out.append(('reading as vertices gives the identical vertices', same_arr(two, V)))
            return out
        return rel(f)

    def big(rng, n):
        """integer triples of a few to many digits"""
        def t():
            m = rng.choice([5, 5, 50, 10 ** 4, 10 ** 6])
            return [rng.randint(-m, m), rng.randint(-m, m), rng.choice([1, 1, 2, 3, 7, 10 ** 3, -1])]
        return [[t() if rng.random() < 0.3 else [rng.randint(-3, 3), rng.randint(-3, 3), rng.choice([1, 1, 2, 3])] for _ in range(6)] for _ in range(n)]

    def g_rt(select, m, big_=True):
        def g(rng, env):
            n = rng.choice([1, 1, 2, 3, 5, 11])
            if select == 'vertex':
                return [np.array(big(rng, n), dtype=np.int64), select]
            if select == unit and rng.random() < 0.4:
                # simplices far out: long lines in the file
                far = [gen.Q(rng.choice([-1, 1]) * rng.randint(10 ** 4, 10 ** 5)) + gen.tau() * rng.randint(-10 ** 5, 10 ** 5) for _ in range(6)]
                return [np.array([to6([gen.add6(far, x) for x in rnd_simplex(rng, m)]) for _ in range(n)], dtype=np.int64), select]
            if select == unit or not big_:
                return [np.array([to6([disguise(rng, x, 0.3) for x in rnd_simplex(rng, m)]) for _ in range(n)], dtype=np.int64), select]
            return [np.array(big(rng, n * m), dtype=np.int64).reshape(n, m, 6, 3), select]
        return g

    def g_large(rng, env):
        T = [to6(rnd_simplex(rng, nv)) for _ in range(3)]
        return [np.array([T[(i * i) % 3] for i in range(1003)], dtype=np.int64), unit]

    def rt_sym(n, m, select):
        def f():
            if select == 'vertex':
                return [mk(symrows(n, 'p'), 'int'), select]
            if select == unit and not ico:
                return H['planar6_sym'](n)() + [select]
            return [mk(symrows(n * m, 'p').reshape(n, m, 6, 3), 'int'), select]
        return f
    sel = [(unit, nv), ('edge', 2), ('vertex', 1)] + ([('triangle', 3)] if ico else [])
    cases = []
    for s_, m in sel:
        cases += [Case('%s: %d' % (s_, n), None, sym=rt_sym(n, m, s_), gen=g_rt(s_, m), bounded='%d' % n, runs=0) for n in (1, 2)]
        cases += [Case('%s: any number n >= 1' % s_, None, sym=(lambda s_=s_, m=m: [SeqK('n+', 6).sym('p') if s_ == 'vertex' else SeqK('n+', m, 6).sym('p'), s_]), gen=g_rt(s_, m), runs=0)]
        cases += [Case('%s: any number (sampled)' % s_, None, gen=g_rt(s_, m), nosym=True, runs=25)]
    cases.append(Case('more than a thousand simplices', None, gen=g_large, nosym=True, runs=1))
    Contract(q + 'write_xyz', ['C19'], s_rt, cases, stub=False, client=client_rt, seqspec=ss_rt)

    def client_w(M, o):
        od = M.mod('occupation_domain')
        d = M.scratch()
        if not M.symbolic and o is not None and len(o) % 2 and o.size:
            od.write(np.concatenate([o, o]), d + '/new', 'a', 'xyz')
        od.write(o, d + '/new', 'a', 'xyz')
        L = M.lines(d + '/new/a.xyz')
        return [L, od.read_xyz(d + '/new', 'a') if L else None]

    def s_w(o):
        if o is None:
            return rel(lambda res: [('no domain is written', B(not res[0]))])
        A = base(o)
        need(A.ndim == 4 and A.shape[1:] == (nv, 6, 3))
        if len(A) == 0:
            return rel(lambda res: [('no domain is written', B(not res[0]))])
        return rel(lambda res: file_facts(res[0], A.reshape(-1, 6, 3), A if ico else None) + [('reading gives the identical domain', same_arr(res[1], A))])
    g1 = lambda r, e: g_rt(unit, nv)(r, e)[:1]
    Contract(q + 'write', ['C19'], s_w, [
        Case('any number n >= 1', None, sym=lambda: [SeqK('n+', nv, 6).sym('p')], gen=g1, runs=0),
        Case('1', None, sym=lambda: rt_sym(1, nv, unit)()[:1], gen=g1, bounded='1 simplex', runs=0),
        Case('nothing', [Const(None)], runs=1), Case('an empty set', [Const(np.zeros((0, nv, 6, 3), dtype=np.int64))], runs=1),
        Case('any number (sampled)', None, gen=g1, nosym=True, runs=15)], stub=False, client=client_w, seqspec=lambda o: rel(lambda res: seq_facts(res[0], o, nv, ico) + [('reading gives the identical domain', same_seq(res[1], o, o.groups))]))

    # file written by hand in the documented layout
    def client_r(M, o, how):
        od = M.mod('occupation_domain')
        d = M.scratch()
        if M.symbolic:
            dd = o.groups[0][0]
            rows = base(o.buf).reshape(nv, 18)
            line = lambda j: text.fmt('Xx 0.000000 0.000000 0.000000 # %3d-the ' + unit + ' %d-th vertex # ' + ' '.join(['%d'] * 18) + '\n', (dd.i, j) + tuple(rows[j]))
            M.w.fs[d + '/b.xyz'] = text.SymStr.of(text.fmt('%d\nwritten by hand\n', (dd.n * nv,))) + [text.Block(dd, [p for j in range(nv) for p in text.SymStr.of(line(j))])] + ['volume = 1 0 1 (1.0)\n'] * how
            return [od.read_xyz(d, 'b'), od.read_xyz(d, 'b', 'vertex'), od.read_xyz(path=d, basename='b', select=unit)]
        A = np.asarray(o).reshape(-1, 6, 3)
        with open(d + '/b.xyz', 'w') as f:
            f.write('%d\nwritten by hand\n' % len(A))
            for i, v in enumerate(A):
                f.write('Xx 0.000000 0.000000 0.000000 # %3d-the %s %d-th vertex # ' % (i // nv, unit, i % nv) + ' '.join(str(int(x)) for x in v.reshape(-1)) + '\n')
            if how:
                f.write('volume = 1 0 1 (1.0)\n' * how)
        return [od.read_xyz(d, 'b'), od.read_xyz(d, 'b', 'vertex'), od.read_xyz(path=d, basename='b', select=unit)]

    def s_r(o, how):
        A = base(o)
        need(A.ndim == 4 and A.shape[1:] == (nv, 6, 3) and len(A) > 0)
        return rel(lambda res: [('the domain in the file', same_arr(res[0], A)), ('its vertices', same_arr(res[1], A.reshape(-1, 6, 3))), ('the domain in the file (select)', same_arr(res[2], A))])

    def ss_r(o, how):
        d = o.groups[0][0]
        return rel(lambda res: [('the domain in the file', same_seq(res[0], o, o.groups)), ('its vertices', same_seq(res[1], o, [(d, nv), (6,), (3,)])), ('the domain in the file (select)', same_seq(res[2], o, o.groups))])
    g_r = lambda r, e: [np.array(big(r, nv * r.choice([1, 2, 5, 12])), dtype=np.int64).reshape(-1, nv, 6, 3), r.randint(0, 3)]
    Contract(q + 'read_xyz', ['C19'], s_r, [Case('any file of n >= 1 simplices', None, sym=lambda: [SeqK('n+', nv, 6).sym('p'), OneOf(0, 1, 3).sym('how')], gen=g_r, runs=0), Case('any file (sampled)', None, gen=g_r, nosym=True, runs=25)],
             stub=False, client=client_r, seqspec=ss_r)

    # ------------------------------------------------------------- C24 VESTA files
    WORD = re.compile(r'[A-Z][A-Z0-9]*$')

    def molecules(L):
        """the molecules of a VESTA file: {section: rows of tokens}"""
        out, sec = [], None
        for l in L:
            try:
                t = toks(l)
            except N.Unsupported:
                if sec in ('STRUC', 'THERI', 'SITET', 'SBOND'):
                    raise
                t = []                  # a title
            w = t[0] if t and isinstance(t[0], str) else ''
            if w == 'MOLECULE':
                out.append({})
                sec = None
            elif WORD.match(w):
                sec = w
                if out:
                    out[-1].setdefault(sec, [])
            elif out and sec and t:
                out[-1][sec].append(t)
        return out

    pk = lambda v: logic.akey([Num.of(x) for x in perp1(v)])

    def atoms_of(m):
        return [t for t in m.get('STRUC', []) if len(t) >= 8]

    def mol_facts(m, V, nm):
        """molecule m lists exactly the vertices V, in order, with every table of the same length"""
        A = atoms_of(m)
        out = [(nm + 'one atom per vertex', B(len(A) == len(V)))]
        if len(A) != len(V):
            return out
        out.append((nm + 'distinct labels', B(len({str(t[2]) for t in A}) == len(A))))
        for sec in ('THERI', 'SITET'):
            out.append((nm + 'as many entries in ' + sec, B(len([t for t in m.get(sec, []) if len(t) >= 3 and isinstance(t[1], str) and t[1][:1].isalpha()]) == len(A))))
        for i, (t, v) in enumerate(zip(A, V)):
            out += [(nm + 'atom %d coordinate %d' % (i, k), close(asreal(t[4 + k]), x)) for k, x in enumerate(perp1(v))]
        return out

    def normal_facts(L, A, nm):
        if not L:
            return [(nm + 'a file is written', FALSE)]
        try:
            ms = molecules(L)
            out = [(nm + 'one molecule per simplex', B(len(ms) == len(A)))]
            for i, (m, T) in enumerate(zip(ms, A)):
                out += mol_facts(m, T, nm + 'simplex %d: ' % i)
            return out
        except (IndexError, ValueError, AttributeError) as e:
            return [(nm + 'readable file (%s)' % e, FALSE)]

    def vesta_seq(L, o, nm):
        if not isinstance(L, text.ConcatList):
            return [(nm + 'lines for every element', FALSE)]
        d = o.groups[0][0]
        T = base(o.buf).reshape(nv, 6, 3)
        bl = [x for x in L.items if isinstance(x, text.LineBlock)]
        rest = [x for x in L.items if not isinstance(x, text.LineBlock)]
        try:
            if len(bl) != 1 or bl[0].d is not d or molecules(rest):
                raise N.Unsupported('another layout of the file')
            ms = molecules(bl[0].lines)
            return [(nm + 'one molecule per simplex', B(len(ms) == 1))] + (mol_facts(ms[0], T, nm + 'any simplex: ') if ms else [])
        except (IndexError, ValueError, AttributeError) as e:
            return [(nm + 'readable file (%s)' % e, FALSE)]

    def edge_facts(L, E, unique):
        """one atom per distinct vertex of the edges E, one bond per edge joining its end points;  unique: each geometric edge once"""
        if not L:
            return [('a file is written', FALSE)]
        try:
            ms = molecules(L)
            if len(ms) != 1:
                return [('one molecule', FALSE)]
            A = atoms_of(ms[0])
            pts = {}
            for v in E.reshape(-1, 6, 3):
                pts.setdefault(pk(v), v)
            out = [('one atom per vertex', B(len(A) == len(pts)))]
            pos = {str(t[2]): [fl(asreal(x)) for x in t[4:7]] for t in A}
            out.append(('distinct labels', B(len(pos) == len(A))))
            xyz = {k: [fl(x) for x in perp1(v)] for k, v in pts.items()}
            near = lambda a, b: all(abs(x - y) <= 6e-7 * (1 + 1e-3 * abs(y)) for x, y in zip(a, b))
            out.append(('every vertex is an atom', B(all(any(near(a, x) for a in pos.values()) for x in xyz.values()))))
            out.append(('every atom is a vertex', B(all(any(near(a, x) for x in xyz.values()) for a in pos.values()))))
            for sec in ('THERI', 'SITET'):
                out.append(('as many entries in ' + sec, B(len([t for t in ms[0].get(sec, []) if len(t) >= 3 and str(t[1])[:1].isalpha()]) == len(A))))
            want = [sorted([xyz[pk(a)], xyz[pk(b)]]) for a, b in E]
            if unique:
                want = [list(map(list, x)) for x in sorted({tuple(map(tuple, w)) for w in want})]
            bonds = [t for t in ms[0].get('SBOND', []) if len(t) >= 5 and str(t[1])[:1].isalpha()]
            out.append(('one bond per edge', B(len(bonds) == len(want))))
            got = []
            for t in bonds:
                if str(t[1]) not in pos or str(t[2]) not in pos:
                    return out + [('bonds between listed atoms', FALSE)]
                got.append((sorted([pos[str(t[1])], pos[str(t[2])]]), fl(asreal(t[3])), fl(asreal(t[4]))))
            match = lambda g, w: (near(g[0][0], w[0]) and near(g[0][1], w[1])) or (near(g[0][0], w[1]) and near(g[0][1], w[0]))
            if unique:
                out.append(('every edge is a bond', B(all(any(match(g, w) for g in got) for w in want))))
            else:
                out.append(('the bonds are the edges', B(all(match(g, w) for g, w in zip(got, want)))))
            ln = lambda g: sum((a - b) ** 2 for a, b in zip(*g[0])) ** 0.5
            out.append(('a bond spans its length', B(all(g[1] - 2e-3 <= ln(g) <= g[2] + 2e-3 and g[2] - g[1] < 0.5 for g in got))))
            return out
        except (IndexError, ValueError, AttributeError) as e:
            return [('readable file (%s)' % e, FALSE)]

    def client_v(M, o, select):
        od = M.mod('occupation_domain')
        d = M.scratch()
        ret = od.write_vesta(o, d, 'v', 'r', select)
        L = M.lines(d + '/v.vesta')
        K = None
        if select == 'normal':
            od.write(o, d + '/new', 'w', 'vesta')
            K = M.lines(d + '/new/w.vesta')
        return [ret, L, K]

    def s_v(o, select):
        if o is None:
            return rel(lambda res: [('no molecule is written', B(not res[1] or not molecules(res[1])))])
        A = base(o)
        need(A.ndim == 4 and A.shape[-2:] == (6, 3) and len(A) > 0 and A.shape[1] == (2 if select == 'egdes' else nv))
        if select == 'normal':
            return rel(lambda res: [('reports success', B(isinstance(res[0], (int, np.integer)) and res[0] == 0))] + normal_facts(res[1], A, '') + normal_facts(res[2], A, 'write: '))
        E = A if select == 'egdes' else np.array([[T[i], T[j]] for T in A for i, j in itertools.combinations(range(nv), 2)], dtype=object)

        def f(res):
            out = edge_facts(res[1], E, select != 'egdes')
            if select == 'podatm':
                ks = [pk(v) for v in obj(res[0])] if isinstance(res[0], np.ndarray) else []
                out.append(('returns every vertex once', B(len(ks) == len(set(ks)) and set(ks) == {pk(v) for v in A.reshape(-1, 6, 3)})))
            else:
                out.append(('reports success', B(isinstance(res[0], (int, np.integer)) and res[0] == 0)))
            return out
        return rel(f)

    def ss_v(o, select):
        need(select == 'normal')
        return rel(lambda res: [('reports success', B(res[0] == 0))] + vesta_seq(res[1], o, '') + vesta_seq(res[2], o, 'write: '))

    def g_v(select):
        def g(rng, env):
            if select == 'normal':
                n = rng.choice([1, 1, 2, 3, 5, 11])
                return [np.array([to6([disguise(rng, x, 0.3) for x in rnd_simplex(rng, nv)]) for _ in range(n)], dtype=np.int64), select]
            if rng.random() < 0.5:
                V, S = gen.grid_complex(rng, nv)
                T = [[V[i] for i in s] for s in S[:6]]
            else:
                T = [rnd_simplex(rng, nv) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.3:      # vertices close to each other
                d, w = [x * gen.Q(Fraction(1, rng.choice([8, 16, 40, 100]))) for x in rnd_v6(rng)], T[0][0]
                T.append([[x + y for x, y in zip(w, d)]] + list(T[0][1:]))
            if select == 'egdes':
                E = [[t[i], t[j]] for t in T for i, j in itertools.combinations(range(nv), 2)]
                rng.shuffle(E)
                T = E[:rng.randint(1, 7)]
            return [to6([[disguise(rng, x, 0.2) for x in t] for t in T]), select]
        return g
    vc = [Case('any number n >= 1 of simplices', None, sym=lambda: [SeqK('n+', nv, 6).sym('p'), 'normal'], gen=g_v('normal'), runs=0)]
    vc += [Case('%d simplices' % n, None, sym=lambda n=n: rt_sym(n, nv, unit)()[:1] + ['normal'], gen=g_v('normal'), bounded='%d simplices' % n, runs=0) for n in (1, 2)]
    vc += [Case('%s (sampled)' % s_, None, gen=g_v(s_), nosym=True, runs=20 if s_ == 'normal' else 12) for s_ in ('normal', 'egdes', 'simple', 'podatm')]
    vc.append(Case('nothing', [Const(None), OneOf('normal', 'egdes', 'simple')], runs=3))
    vc.append(Case('more than a hundred simplices', None, gen=lambda rng, env: [np.array([to6(rnd_simplex(rng, nv)) for _ in range(rng.randint(130, 260))], dtype=np.int64), 'normal'], nosym=True, runs=0.5))
    Contract(q + 'write_vesta', ['C24'], s_v, vc, stub=False, client=client_v, seqspec=ss_v)
    return {}
