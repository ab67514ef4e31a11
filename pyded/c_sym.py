"""Contracts of symmetry.py (both packages)."""
import itertools
from fractions import Fraction
import numpy as np
from . import num as N, logic, arr, gen, concrete, core
from .num import Num, sand, sor, tobool, TRUE, FALSE
from .core import *
from .core import vals, NOSTUB
from .arr import base, obj
from .c_math1 import proj_matrix, matvec, need
from .gen import Q

B = lambda b: TRUE if b else FALSE
_G = {}


def group(pkg):
    """the operations supplied by the real code (a closed term: no argument, no state), as integer matrices"""
    if pkg not in _G:
        f = concrete.real_func(pkg + ('.symmetry.icosasymop' if pkg == 'ico2' else '.symmetry.dodesymop'))
        with concrete.quiet():
            _G[pkg] = [np.array(np.asarray(m, dtype=float)) for m in f()]
    return _G[pkg]


def int_matrix(m):
    """6x6 nested tuple of ints, or None"""
    A = obj(base(m) if isinstance(m, arr.SymArr) else m)
    if A.shape != (6, 6):
        return None
    out = []
    for r in A:
        row = []
        for x in r:
            x = Num.of(x if isinstance(x, Num) else (x.item() if hasattr(x, 'item') else x))
            if not x.is_const():
                return None
            p, q = x.cval()
            if q != 0 or p.denominator != 1:
                return None
            row.append(int(p))
        out.append(tuple(row))
    return tuple(out)


def mm(a, b):
    return tuple(tuple(sum(x * y for x, y in zip(r, c)) for c in zip(*b)) for r in a)


def qmm(a, b):
    cols = list(zip(*b))
    return [[sum((x * y for x, y in zip(r, c)), Q(0)) for c in cols] for r in a]


def inv3(m):
    d = gen.det3(*m)
    c = lambda i, j: (m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3]) / d
    return [[c(j, i) for j in range(3)] for i in range(3)]


def action(P, R):
    """3x3 matrix M with P R = M P, or None when R does not preserve the kernel of P.  P: 3x6 of Q"""
    PT = [list(c) for c in zip(*P)]
    PR = qmm(P, [[Q(x) for x in r] for r in R])
    M = qmm(qmm(PR, PT), inv3(qmm(P, PT)))
    MP = qmm(M, P)
    if any(x != y for a, b in zip(MP, PR) for x, y in zip(a, b)):
        return None
    return M


def orthogonal(M):
    MT = [list(c) for c in zip(*M)]
    E = qmm(M, MT)
    return all(E[i][j] == Q(int(i == j)) for i in range(3) for j in range(3))


ID6 = tuple(tuple(int(i == j) for j in range(6)) for i in range(6))


def group_facts(order, ops):
    """facts C07 states about a list of operations"""
    try:
        n = len(ops)
    except TypeError:
        return [('a list of operations', FALSE)]
    out = [('exactly %d operations' % order, B(n == order))]
    ms = [int_matrix(m) for m in ops]
    ok = all(m is not None for m in ms)
    out.append(('integer 6x6 matrices', B(ok)))
    if not ok:
        return out
    S = set(ms)
    out.append(('pairwise distinct', B(len(S) == n)))
    out.append(('contains the identity', B(ID6 in S)))
    out.append(('closed under composition', B(all(mm(a, b) in S for a in S for b in S) if len(S) <= 200 else False)))
    out.append(('closed under inverse', B(all(any(mm(a, b) == ID6 for b in S) for a in S) if len(S) <= 200 else False)))
    cp = [action(gen.pm('par'), m) for m in S]
    cq = [action(gen.pm('perp'), m) for m in S]
    out.append(('preserves the parallel/perpendicular splitting', B(all(m is not None for m in cp + cq))))
    if all(m is not None for m in cp + cq):
        out.append(('orthogonal on the perpendicular space', B(all(orthogonal(m) for m in cq))))
        out.append(('orthogonal on the parallel space', B(all(orthogonal(m) for m in cp))))
    return out


def build(pkg, H):
    q = pkg + '.symmetry.'
    ico = pkg == 'ico2'
    nv = 4 if ico else 3
    gname = 'icosasymop' if ico else 'dodesymop'
    order = 120 if ico else 24
    perps = H['perps']

    def s_grp():
        def f(res):
            out = group_facts(order, res)
            try:
                ref = group(pkg)
                out.append(('same list, same order as the interpreter computes', B(len(res) == len(ref) and all(int_matrix(a) == int_matrix(b) for a, b in zip(res, ref)))))
            except Exception:
                pass
            return out
        return rel(f, lambda: [arr.arr_from(m) for m in group(pkg)])
    c = Contract(q + gname, ['C07', 'C08', 'C20', 'C22'], s_grp, [Case('the whole group', [], runs=2)])
    c.cost = 20

    # ------------------------------------------------------------- application
    def rot(M, x, c):
        """R(x-c)+c for arrays of values, last axis 6"""
        x = np.asarray(x, dtype=object)
        if x.ndim == 1:
            d = [a - b for a, b in zip(x, c)]
            y = matvec(M, d)
            out = np.empty(6, dtype=object)
            for i in range(6):
                out[i] = y[i] + c[i]
            return out
        out = np.empty(x.shape, dtype=object)
        for i in range(len(x)):
            out[i] = rot(M, x[i], c)
        return out

    def mat(m):
        A = obj(base(m) if isinstance(m, arr.SymArr) else m)
        need(A.shape == (6, 6))
        M = [[arr.N_(x) for x in r] for r in A]
        need(all(x.isint for r in M for x in r))
        return M

    def shp(o, *dims):
        b = base(o)
        need(b.ndim in dims and b.shape[-2:] == (6, 3))
        return b

    def cen(c):
        need(base(c).shape == (6, 3))
        return vals(c)

    def s_vec(m, v, c):
        shp(v, 2)
        return trips(rot(mat(m), vals(v), cen(c)))

    def s_vecs(m, v, c):
        shp(v, 3)
        return trips(rot(mat(m), vals(v), cen(c)))

    def s_obj(m, v, c):
        if base(v).ndim not in (2, 3, 4):
            return none()
        shp(v, 2, 3, 4)
        return trips(rot(mat(m), vals(v), cen(c)))
    I = Ints(6, 6, lo=-1, hi=1)
    If = Ints(6, 6, dtype=np.float64, lo=-1, hi=1)
    T6 = Trips(6)

    def gop(rng):
        return group(pkg)[rng.randrange(len(group(pkg)))]

    def gen_ap(*shape):
        def g(rng, env):
            sh = tuple(s() if callable(s) else s for s in [(lambda s=s: (s(rng) if callable(s) else s)) for s in shape])
            m = gop(rng)
            if rng.random() < 0.3:
                m = m.astype(np.int64)
            return [m, Trips(*sh, 6).conc(rng, env), Trips(6).conc(rng, env) if rng.random() < 0.8 else V0()]
        return g

    def V0():
        return np.array([[0, 0, 1]] * 6, dtype=np.int64)
    rl = lambda rng: rng.randint(1, 6)
    from . import seq
    SV = seq.SeqKind
    NN = 'any number n >= 1'
    Contract(q + 'symop_vec', ['C08', 'C22'], s_vec, [
        Case('any integer operation, vector, centre', [I, T6, T6], runs=30), Case('operations stored as floats', [If, T6, T6], runs=10),
        Case('group operations (sampled)', None, gen=gen_ap(), nosym=True, runs=30)])
    Contract(q + 'symop_vecs', ['C08', 'C22'], s_vecs, [Case('%d vertices' % n, [I, Trips(n, 6), T6], bounded='%d vertices' % n, runs=5) for n in (1, 2, nv)] +
             [Case(NN + ' of vertices', [I, SV('n', 6), T6], runs=0), Case('any number (sampled)', None, gen=gen_ap(rl), nosym=True, runs=30)], lift='map')
    Contract(q + 'symop_obj', ['C08', 'C22'], s_obj, [
        Case('a vector', [I, T6, T6], runs=10), Case('a simplex', [I, Trips(nv, 6), T6], bounded='%d vertices' % nv, runs=10),
        Case('2 simplices', [I, Trips(2, nv, 6), T6], bounded='2 simplices', runs=10),
        Case('wrong rank', [I, Trips(), T6], runs=3),
        Case(NN + ' of vertices', [I, SV('n', 6), T6], runs=0), Case(NN + ' of simplices of m >= 1 vertices', [I, SV('n', 'm', 6), T6], runs=0),
        Case('any number (sampled)', None, gen=gen_ap(rl, nv), nosym=True, runs=30)], lift='map')

    def blocks(idx, x, c):
        return [rot([[Num.of(int(e)) for e in r] for r in group(pkg)[i]], x, c) for i in idx]

    def s_gen(o, c):
        if base(o).ndim not in (3, 4):
            return none()
        shp(o, 3, 4)
        x = vals(o)
        bl = blocks(range(len(group(pkg))), x, cen(c))
        a = np.array([b for b in bl], dtype=object).reshape((len(bl),) + x.shape)
        if x.ndim == 3:
            a = a.reshape((len(bl) * x.shape[0],) + x.shape[1:])
        return trips(a)

    def gen_o(*shape):
        def g(rng, env):
            sh = tuple((s(rng) if callable(s) else s) for s in shape)
            return [Trips(*sh, 6).conc(rng, env), Trips(6).conc(rng, env) if rng.random() < 0.8 else V0()]
        return g
    gcases = [Case('one vertex', [Trips(1, 6), T6], bounded='1 vertex', runs=2), Case('one simplex of one vertex', [Trips(1, 1, 6), T6], bounded='1x1', runs=2),
              Case('2x2 vertices', [Trips(2, 2, 6), T6], bounded='2x2', runs=1),
              Case('wrong rank', [T6, T6], runs=2),
              Case(NN + ' of vertices', [SV('n', 6), T6], runs=0), Case(NN + ' of simplices', [SV('n', nv, 6), T6], runs=0),
              Case('any number (sampled)', None, gen=gen_o(lambda r: r.randint(1, 3), nv), nosym=True, runs=6),
              Case('any number of vertices (sampled)', None, gen=gen_o(lambda r: r.randint(1, 5)), nosym=True, runs=6)]

    def g_gen(o, *a):
        """lengths of the result: the blocks of the operations one after the other"""
        g = seq.lead(o)
        return [(order,)] + g if o.ndim == 3 else [(order,) + g[0]] + g[1:]
    Contract(q + 'generator_obj_symmetric_obj', ['C08', 'C22'], s_gen, gcases, lift=g_gen)
    small = [gcases[0], gcases[1]] + gcases[4:7]
    for nm in (['generator_obj_symmetric_surface', 'generator_obj_symmetric_tetrahedron'] if ico else ['generator_obj_symmetric_triangle']) + ['generator_obj_symmetric_vec']:
        Contract(q + nm, ['C08', 'C22'], s_gen, small, lift=g_gen)

    def s_one(o, c, i):
        need(base(o).ndim in (2, 3, 4))
        shp(o, 2, 3, 4)
        need(0 <= int(i) < order)
        return trips(blocks([int(i)], vals(o), cen(c))[0])
    idx = OneOf(*([0, 1, 7, 60, 119] if ico else [0, 1, 5, 12, 23]))
    anyi = lambda r: r.randrange(order)
    one_cases = [
        Case('every index', [Trips(1, 6), T6, OneOf(*range(order))], bounded='1 vertex', runs=10),
        Case('set of simplices', [Trips(1, 2, 6), T6, idx], bounded='1x2', runs=10),
        Case(NN + ' of simplices, every index', [SV('n', nv, 6), T6, OneOf(*range(order))], runs=0),
        Case('any number (sampled)', None, gen=lambda r, e: gen_o(rl, nv)(r, e) + [anyi(r)], nosym=True, runs=20)]
    Contract(q + ('generator_obj_symmetric_tetrahedron_0' if ico else 'generator_obj_symmetric_triangle_0'), ['C08', 'C22'], s_one, one_cases, lift='map')
    if not ico:
        def s_one_v(o, c, i):
            need(base(o).ndim == 2)
            return s_one(o, c, i)
        Contract(q + 'generator_symmetric_vec_0', ['C08', 'C22'], s_one_v, [Case('every index', [T6, T6, OneOf(*range(order))], runs=20)])

    def s_some(o, c, L):
        if base(o).ndim not in (3, 4):
            return none()
        shp(o, 3, 4)
        L = [int(i) for i in L]
        need(all(0 <= i < order for i in L))
        x = vals(o)
        bl = blocks(L, x, cen(c))
        return trips(np.array(bl, dtype=object).reshape((len(L),) + x.shape))
    Contract(q + ('generator_obj_symmetric_tetrahedron_specific_symop' if ico else 'generator_obj_symmetric_triangle_specific_symop'), ['C08', 'C22'], s_some, [
        Case('lists of up to 3 indices', [Trips(1, 6), T6, OneOf([0], [5, 2], [order - 1, 3, 3])], bounded='1 vertex, 3 index lists', runs=10),
        Case('set of simplices', [Trips(1, 2, 6), T6, OneOf([4, 1])], bounded='1x2', runs=10),
        Case(NN + ' of simplices', [SV('n', nv, 6), T6, OneOf([4, 1], [0], [2, 2, order - 1])], bounded='3 index lists', runs=0),
        Case('any list (sampled)', None, gen=lambda r, e: gen_o(rl, nv)(r, e) + [[anyi(r) for _ in range(r.randint(1, 7))]], nosym=True, runs=20)] + [
        Case(NN + ' of simplices, any list of indices', [SV('n', nv, 6), T6, seq.IndexList('l', order)], runs=0, max_paths=1000)],
        lift=lambda o, c, L: [L.groups[0] if isinstance(L, seq.SymSeq) else (len(L),)] + seq.lead(o))

    # orbits without repetition
    def s_orb(perp):
        def s(o, c):
            need(base(o).ndim in (3, 4) if perp else base(o).ndim in (3, 4))
            shp(o, 3, 4)
            x = vals(o)
            need(logic.isconst(x) and logic.isconst(cen(c)))
            pts = []
            for b in blocks(range(len(group(pkg))), x, cen(c)):
                pts += list(b.reshape(-1, 6))
            key = lambda v: tuple(Num.of(y).cval() for y in (matvec(H['qq'], v) if perp else v))
            want = {key(v) for v in pts}
            allv = {tuple(Num.of(y).cval() for y in v) for v in pts}

            def f(res):
                if res is None:
                    return [('returns the orbit', FALSE)]
                R_ = base(res) if isinstance(res, arr.SymArr) else obj(res)
                if R_.ndim != 3 or R_.shape[1:] != (6, 3):
                    return [('shape (n,6,3)', FALSE)]
                V = vals(res)
                ks = [key(v) for v in V]
                out = [('no point twice', B(len(set(ks)) == len(ks))), ('exactly the orbit', B(set(ks) == want)),
                       ('members are images of the input', B(all(tuple(Num.of(y).cval() for y in v) in allv for v in V)))]
                return out
            return rel(f)
        return s

    def gen_special(rng, env):
        c = Trips(6, mode='canon').conc(rng, env)
        o = Trips(rng.randint(1, 2), 6, mode='canon').conc(rng, env)
        if rng.random() < 0.5:
            o[0] = c
        if rng.random() < 0.6:
            # a special position
            k = rng.randrange(6)
            o[-1] = [[0, 0, 1]] * 6
            o[-1][k] = rng.choice([[1, 0, 1], [1, 0, 2], [0, 1, 1]])
            c = V0()
        return [o, c]

    def ss_orb(perp):
        """any number of vectors: representatives of the stacked images"""
        def s(o, c):
            from .c_utils import gen_kernel
            img = to_stub_value(CONTRACTS[q + 'generator_obj_symmetric_obj'].spec_of([o, c]))
            return seq.dedup(img, (lambda x: list(matvec(H['qq'], x))) if perp else list, gen_kernel(pkg) if perp else [])
        return s
    orbn = [Case(NN + ' of vectors', [SV('n', 6), T6], runs=0)]
    Contract(q + 'generator_equivalent_vectors', ['C08', 'C22'], s_orb(True), orbn + [Case('special and general positions (sampled)', None, gen=gen_special, nosym=True, runs=8)], stub=False, seqspec=ss_orb(True))
    Contract(q + 'generator_equivalent_vec', ['C08', 'C22'], s_orb(False), orbn + [Case('special and general positions (sampled)', None, gen=gen_special, nosym=True, runs=8)], stub=False, seqspec=ss_orb(False))

    out = dict(g_gen=g_gen, s_gen=s_gen, s_one=s_one, s_some=s_some, gen_cases=small, one_cases=one_cases)
    if not ico:
        out.update(build_dode(pkg, H))
    return out


# ---------------------------------------------------------------------------- dodecagonal: site symmetry, similarity
def subgroups():
    """all subgroups of the supplied group, as frozensets of indices"""
    G = [int_matrix(m) for m in group('dode2')]
    ix = {m: i for i, m in enumerate(G)}
    n = len(G)
    mul = [[ix.get(mm(a, b)) for b in G] for a in G]
    if any(x is None for r in mul for x in r):
        raise SpecError('not a group')
    e = ix[ID6]

    def close(s):
        s = set(s) | {e}
        while True:
            t = {mul[a][b] for a in s for b in s} - s
            if not t:
                return frozenset(s)
            s |= t
    subs = {close([a, b]) for a in range(n) for b in range(n)}
    return sorted(subs, key=lambda s: (len(s), sorted(s))), mul, e


_SUB = {}


def sub_table():
    if 'x' not in _SUB:
        _SUB['x'] = subgroups()
    return _SUB['x']


def build_dode(pkg, H):
    q = pkg + '.symmetry.'

    def s_tr(ndim):
        nd = 4 if int(ndim) == 4 else 5
        want = set(itertools.product((-1, 0, 1), repeat=nd))

        def f(res):
            got = []
            for t in res:
                A = obj(base(t) if isinstance(t, arr.SymArr) else t)
                if A.shape != (6, 3):
                    return [('6D vectors', FALSE)]
                v = vals(t)
                cv = [Num.of(x).cval() for x in v]
                if any(b != 0 or a.denominator != 1 for a, b in cv) or any(a != 0 for a, b in cv[nd:]):
                    return [('lattice vectors of the first %d axes' % nd, FALSE)]
                got.append(tuple(int(a) for a, b in cv[:nd]))
            return [('exactly the vectors with entries -1,0,1', B(set(got) == want))]
        return rel(f)
    Contract(q + 'translation', ['C20', 'C22'], s_tr, [Case('4 or 5 dimensions', [OneOf(4, 5)], runs=4)], stub=False)

    # lists of indices
    def s_ro(l):
        L = [int(x) for x in l]
        return exactlist(sorted(set(L)))

    def exactlist(want):
        def f(res):
            return [('the distinct elements in ascending order', B([int(x) for x in res] == want))]
        return rel(f, lambda: list(want))
    Contract(q + 'remove_overlaps', ['C20', 'C22'], s_ro, [Case('any list of indices (sampled)', None, gen=lambda r, e: [[r.randrange(24) for _ in range(r.randint(0, 30))]], nosym=True, runs=40)])

    def s_fo(a, b):
        A, C = [int(x) for x in a], [int(x) for x in b]
        need(len(set(A)) == len(A) and len(set(C)) == len(C))
        return boolean(B(bool(set(A) & set(C))))

    def g_fo(r, e):
        return [r.sample(range(24), r.randint(1, 10)), r.sample(range(24), r.randint(1, 10))]
    Contract(q + 'find_overlaps', ['C20', 'C22'], s_fo, [Case('any lists without repetition (sampled)', None, gen=g_fo, nosym=True, runs=40)])

    # site symmetry
    G = None

    def ints_of(site):
        v = vals(site)
        return [Q(*Num.of(x).cval()) for x in v]

    def stabiliser(site):
        """operations mapping the site to itself modulo a lattice translation of the first five axes"""
        return stabiliser6(ints_of(core.cval(site) if not isinstance(site, arr.SymArr) else site))

    def stabiliser6(v):
        out = []
        for i, R in enumerate(group(pkg)):
            w = [sum((Q(int(a)) * x for a, x in zip(r, v)), Q(0)) - y for r, y in zip(R, v)]
            if all(x.q == 0 and x.p.denominator == 1 for x in w) and w[5] == Q(0):
                out.append(i)
        return out

    def in_cell(site):
        v = ints_of(site)
        return all(Q(0) <= x and x < Q(1) for x in v[:5])

    def near_ok(site):
        """no operation moves the site by less than the resolution of the comparison without fixing it"""
        v = ints_of(site)
        for R in group(pkg):
            w = [sum((Q(int(a)) * x for a, x in zip(r, v)), Q(0)) - y for r, y in zip(R, v)]
            if not all(x.q == 0 and x.p.denominator == 1 for x in w):
                f = [float(x) for x in w]
                if sum((x - round(x)) ** 2 for x in f) ** 0.5 < 2e-6:
                    return False
        return True

    def s_ss(site, ndim=5):
        need(base(site).shape == (6, 3))
        if not logic.isconst(vals(site)):
            # callers: any group that occurs as a stabiliser (enumerated exactly)
            subs = site_groups()
            h = getattr(logic.ctx(), 'site_group', None)
            if h is None:
                h = list(subs[logic.ctx().choose(len(subs))])
                logic.ctx().site_group = h
            return exactlist(list(h))
        need(in_cell(site) and near_ok(site))
        return exactlist(stabiliser(site))

    def special_sites():
        """sites of the unit cell fixed by some operation modulo lattice translations: rational points solving (R-1)s in Z^4"""
        if 'sites' in _SUB:
            return _SUB['sites']
        pts = {(Fraction(0),) * 4}
        for R in group(pkg):
            A = np.array(R)[:4, :4].round().astype(int) - np.eye(4, dtype=int)
            det = int(round(np.linalg.det(A)))
            if det == 0:
                continue
            adj = np.round(np.linalg.inv(A) * det).astype(int)
            assert (A.dot(adj) == det * np.eye(4, dtype=int)).all()
            # all solutions of A s in Z^4 modulo Z^4: the group generated by the columns of A^-1
            cols = [tuple(Fraction(int(x), det) % 1 for x in adj[:, j]) for j in range(4)]
            grp, todo = {(Fraction(0),) * 4}, [(Fraction(0),) * 4]
            while todo:
                x = todo.pop()
                for c in cols:
                    y = tuple((u + v) % 1 for u, v in zip(x, c))
                    if y not in grp:
                        grp.add(y)
                        todo.append(y)
            assert len(grp) == abs(det)
            pts |= grp
        _SUB['sites'] = sorted(pts)
        return _SUB['sites']

    def site_groups():
        """every group that is the stabiliser of some site: an operation without fixed directions in the plane pair leaves finitely many
        points fixed (special_sites), all other stabilisers contain only the identity and at most one mirror"""
        if 'groups' not in _SUB:
            out = {tuple(stabiliser6([Q(x) for x in p] + [Q(0), Q(0)])) for p in special_sites()}
            subs, mul, e = sub_table()
            mir = [i for i, R in enumerate(group(pkg)) if i != e and round(np.linalg.det(np.array(R)[:4, :4].round() - np.eye(4))) == 0]
            assert all(mul[m][m] == e for m in mir) and all(mul[m][k] == e or mul[m][k] not in mir for m in mir for k in mir)
            out |= {(e,)} | {tuple(sorted((e, m))) for m in mir}
            _SUB['groups'] = sorted(out)
        return _SUB['groups']

    def gen_site(rng, env):
        from fractions import Fraction as F
        k = rng.random()
        if k < 0.35:
            s = [Q(x) for x in rng.choice(special_sites())]
        elif k < 0.75:
            # on a mirror: fixed points of an involution, possibly with irrational coordinates
            R = group(pkg)[rng.randrange(12, 24)]
            x = [rnd(rng) for _ in range(4)]
            s = [x[i] + sum((Q(int(R[i][j])) * x[j] for j in range(4)), Q(0)) for i in range(4)]
            if rng.random() < 0.3:
                h = [F(rng.randint(0, 1), 2) for _ in range(4)]
                s = [a + Q(b) for a, b in zip(s, h)]
        else:
            s = [rnd(rng) for _ in range(4)]
        s = [frac(x) for x in s]
        s += [frac(rnd(rng)) if rng.random() < 0.4 else Q(0), Q(0)]
        return [gen.to6(s), rng.choice([4, 5])]

    def site_pool():
        """sites of every kind of stabiliser (found by drawing), in a fixed order"""
        if 'pool' not in _SUB:
            import random
            r, d = random.Random(7), {}
            for _ in range(500):
                a = gen_site(r, {})[0]
                d.setdefault(tuple(stabiliser(a)), []).append(a)
            _SUB['pool'] = [d[k] for k in sorted(d, key=lambda k: (-len(k), k))]
        return _SUB['pool']

    def gen_kind(rng, env):
        """every kind of stabiliser in turn, then random sites; the dimension given or left to its default"""
        P = site_pool()
        k = env.get('i', 0) * 7 + rng.randrange(1000 if env.get('i') is None else 1)
        a = rng.choice(P[k % len(P)]) if rng.random() < 0.8 else gen_site(rng, env)[0]
        if rng.random() < 0.25:
            # almost, but not quite, a special site
            s = gen.q6(a)
            i = rng.randrange(4)
            s[i] = frac(s[i] + Q(Fraction(1, rng.choice([20, 300, 1000, 10 ** 4, 10 ** 5]))))
            a = gen.to6(s)
        return [a, rng.choice([4, 5])]

    def rnd(rng):
        from fractions import Fraction as F
        return Q(F(rng.randint(0, 5), 6)) if rng.random() < 0.6 else Q(F(rng.randint(-2, 2), 3), F(rng.randint(-2, 2), 2))

    def frac(x):
        import math
        f = math.floor(float(x) + 1e-12)
        return x - Q(f)
    Contract(q + 'site_symmetry', ['C20', 'C22'], s_ss, [Case('special and general sites of the unit cell (sampled)', None, gen=lambda r, e: gen_kind(r, e)[:r.choice([1, 2, 2])], nosym=True, runs=40)]).cost = 30

    def coset_facts(H_, res):
        subs, mul, e = sub_table()
        try:
            L = [int(x) for x in res]
        except TypeError:
            return [('a list', FALSE)]
        cos = [frozenset(mul[a][h] for h in H_) for a in L]
        allc = {frozenset(mul[a][h] for h in H_) for a in range(len(mul))}
        return [('starts with the identity', B(bool(L) and L[0] == e)), ('one operation from every left coset', B(set(cos) == allc and len(cos) == len(allc))),
                ('representatives times subgroup order is the group order', B(len(L) * len(H_) == len(mul)))]

    def s_cs(site, ndim=5):
        need(base(site).shape == (6, 3))
        if logic.isconst(vals(site)):
            need(in_cell(site) and near_ok(site))
            H_ = stabiliser(site)
        else:
            H_ = getattr(logic.ctx(), 'site_group', None)
            need(H_ is not None)
        return rel(lambda res: coset_facts(H_, res))
    c = Contract(q + 'coset', ['C20', 'C22'], s_cs, [
        Case('every site, by the contract of site_symmetry', [Trips(6), OneOf(4, 5)], runs=0, max_paths=200),
        Case('special and general sites of the unit cell (sampled)', None, gen=lambda r, e: gen_kind(r, e)[:r.choice([1, 2, 2])], nosym=True, runs=30)], stub=False)
    c.cost = 30

    def s_both(site, ndim, verbose):
        need(base(site).shape == (6, 3))
        need(in_cell(site) and near_ok(site))
        H_ = stabiliser(site)

        def f(res):
            try:
                ss, cs, s1, c1 = [[int(x) for x in r] for r in res]
            except (TypeError, ValueError):
                return [('lists of indices', FALSE)]
            return [('site symmetry', B(ss == H_))] + coset_facts(H_, cs) + [('the separate functions give the same lists', B(ss == s1 and cs == c1))]
        return rel(f)

    def client_both(M, site, ndim, verbose):
        m = M.mod('symmetry')
        r = m.site_symmetry_and_coset(site, ndim, verbose)
        return [r[0], r[1], m.site_symmetry(site, ndim), m.coset(site, ndim)]
    Contract(q + 'site_symmetry_and_coset', ['C20', 'C22'], s_both, [
        Case('special and general sites of the unit cell (sampled)', None, gen=lambda r, e: gen_kind(r, e) + [r.choice([0, 0, 1])], nosym=True, runs=27)], stub=False, client=client_both).cost = 30

    # ------------------------------------------------------------- C21 similarity
    from . import seq
    SV = seq.SeqKind
    EXPS = [('m >= 1', seq.Exponent(1)), ('m <= -1', seq.Exponent(-1))]
    def simpow(m):
        """exact m-th power of the inflation, from its defining property on the two planes"""
        S1 = SIM1
        M = S1 if m > 0 else SIMI
        r = ID6
        for _ in range(abs(m)):
            r = mm(r, M)
        return r

    # inflation by x -> x*(1+z) on the lattice Z[z], z the 12-fold rotation: matrix of the module generator action
    def sim_facts(m, res):
        M = int_matrix(res)
        if M is None:
            return [('an integer 6x6 matrix', FALSE)]
        out = []
        cp, cq = action(gen.pm('par'), M), action(gen.pm('perp'), M)
        if cp is None or cq is None:
            return [('preserves the parallel/perpendicular splitting', FALSE)]
        # planar blocks are similarities with reciprocal ratios; the two axes are fixed
        def blk(C):
            ok = all(C[i][2] == Q(0) and C[2][i] == Q(0) for i in range(2)) and C[2][2] == Q(1)
            a, b, c, d = C[0][0], C[0][1], C[1][0], C[1][1]
            sim = (a * a + c * c == b * b + d * d) and (a * b + c * d == Q(0))
            return ok, sim, a * a + c * c
        okp, simp, rp = blk(cp)
        okq, simq, rq = blk(cq)
        lam = Q(2, 1)                      # (2+sqrt3): squared ratio of one inflation step
        want = Q(1)
        for _ in range(abs(m)):
            want = want * (lam if m > 0 else lam.inv())
        out.append(('the two out-of-plane coordinates stay fixed', B(okp and okq)))
        out.append(('planar blocks are similarities', B(simp and simq)))
        out.append(('parallel ratio squared is (2+sqrt3)^m', B(rp == want)))
        out.append(('perpendicular ratio is the reciprocal', B(rq == want.inv())))
        return out

    def sympow(m):
        """m-th power of one step for a symbolic exponent"""
        one = _one_step()
        need(one is not None)
        M = one[0] if bool(m > 0) else one[1]
        return seq.matpow(np.array([[Num.of(e) for e in r] for r in M], dtype=object), m if bool(m > 0) else -m)

    def s_sim(m):
        if isinstance(m, Num) and not m.is_const():
            P = sympow(m)

            def g(res):
                if not isinstance(res, np.ndarray) or res.shape != (6, 6):
                    return [('a 6x6 matrix', FALSE)]
                out = [('entry %d,%d of the power of one step' % (i, j), Num.of(res[i, j]) == P[i, j]) for i in range(6) for j in range(6)]
                a, b = _one_step()
                for k, M in ((1, a), (-1, b)):
                    out += [('%s (m = %d)' % (n, k), c) for n, c in sim_facts(k, np.array(M, dtype=float))]
                return out + [('one step and its reverse cancel', B(mm(a, b) == ID6 and mm(b, a) == ID6))]
            return rel(g, lambda: mk(P, 'float'))
        m = int(m)
        need(abs(m) <= 24)
        one = _one_step()

        def f(res):
            out = sim_facts(m, res)
            M = int_matrix(res)
            if M is not None and one is not None:
                P = ID6
                for _ in range(abs(m)):
                    P = mm(P, one[0] if m > 0 else one[1])
                out.append(('m steps are m times one step', B(P == M)))
                out.append(('one step and its reverse cancel', B(mm(one[0], one[1]) == ID6)))
            return out
        def stub():
            if one is None:
                return NOSTUB
            P = ID6
            for _ in range(abs(m)):
                P = mm(P, one[0] if m > 0 else one[1])
            return arr.arr_from(np.array(P, dtype=float))
        return rel(f, stub)

    def _one_step():
        f = concrete.real_func(q + 'similarity')
        try:
            with concrete.quiet():
                a, b = int_matrix(np.asarray(f(1), float)), int_matrix(np.asarray(f(-1), float))
            return (a, b) if a is not None and b is not None else None
        except Exception:
            return None
    Contract(q + 'similarity', ['C21', 'C22'], s_sim, [Case('-6 <= m <= 6', [OneOf(*range(-6, 7))], bounded='|m|<=6', runs=13), Case('many steps (sampled)', None, gen=lambda r, e: [r.choice([-1, 1]) * r.randint(7, 24)], nosym=True, runs=30)] +
             [Case('any ' + n, [e], runs=0) for n, e in EXPS])

    def s_sv(nd):
        def s(v, m):
            need(base(v).ndim == nd and base(v).shape[-2:] == (6, 3))
            x = vals(v)
            if isinstance(m, Num) and not m.is_const():
                P = sympow(m)
            else:
                m = int(m)
                need(abs(m) <= 8)
                one = _one_step()
                need(one is not None)
                P = ID6
                for _ in range(abs(m)):
                    P = mm(P, one[0] if m > 0 else one[1])
            M = [[Num.of(e) for e in r] for r in P]
            f = lambda y: matvec(M, y) if y.ndim == 1 else np.array([f(z) for z in y], dtype=object)
            return trips(f(np.asarray(x, dtype=object)))
        return s
    ms = OneOf(0, 1, -1, 2, -3)
    Contract(q + 'similarity_vec', ['C21', 'C22'], s_sv(2), [Case('any vector', [Trips(6), ms], bounded='m in 0,1,-1,2,-3', runs=20)] +
             [Case('any vector, any ' + n, [Trips(6), e], runs=0) for n, e in EXPS])
    Contract(q + 'similarity_triangle', ['C21', 'C22'], s_sv(3), [Case('any number n >= 1 of vertices', [SV('n', 6), ms], bounded='m in 0,1,-1,2,-3', runs=0), Case('any triangle', [Trips(3, 6), ms], bounded='3 vertices', runs=20),
             Case('any number (sampled)', None, gen=lambda r, e: [Trips(r.randint(1, 5), 6).conc(r, e), r.randint(-4, 4)], nosym=True, runs=10)] +
             [Case('any number n >= 1 of vertices, any ' + n, [SV('n', 6), e], runs=0) for n, e in EXPS], lift='map')
    Contract(q + 'similarity_obj', ['C21', 'C22'], s_sv(4), [Case('any number n >= 1 of triangles', [SV('n', 3, 6), ms], bounded='m in 0,1,-1,2,-3', runs=0), Case('2 triangles', [Trips(2, 3, 6), ms], bounded='2 triangles', runs=20),
             Case('any number (sampled)', None, gen=lambda r, e: [Trips(r.randint(1, 5), 3, 6).conc(r, e), r.randint(-4, 4)], nosym=True, runs=10)] +
             [Case('any number n >= 1 of triangles, any ' + n, [SV('n', 3, 6), e], runs=0) for n, e in EXPS], lift='map')
    return dict(s_sv=s_sv)
