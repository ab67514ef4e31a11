"""Exact intersection of simplices in perpendicular space over Q(sqrt D) (oracle of the intersection contracts).
Points are lists of Q (3 coordinates; dodecagonal: the first 2 are used)."""
import math
from fractions import Fraction as F
from .gen import Q, sub3, dot, cross, det3
from . import num as N, gen


def signed(S):
    """signed volume*6 (tetrahedra) or area*2 (triangles, first two coordinates)"""
    if len(S) == 4:
        return det3(*[sub3(S[i], S[0]) for i in (1, 2, 3)])
    a, b = sub3(S[1], S[0]), sub3(S[2], S[0])
    return a[0] * b[1] - a[1] * b[0]


def size(S):
    return abs(signed(S))


def halfspaces(S):
    """functions p -> Q, >= 0 on the side of the simplex"""
    out = []
    n = len(S)
    for i in range(n):
        R = [S[j] for j in range(n) if j != i]
        if n == 4:
            nr = cross(sub3(R[1], R[0]), sub3(R[2], R[0]))
        else:
            d = sub3(R[1], R[0])
            nr = [-d[1], d[0], Q(0)]
        c = dot(nr, R[0])
        s = (dot(nr, S[i]) - c).sign()
        if s == 0:
            return None
        if s < 0:
            nr, c = [-x for x in nr], -c
        out.append((nr, c))
    return out


def at(a, b, fa, fb):
    t = fa / (fa - fb)
    return [x + (y - x) * t for x, y in zip(a, b)]


def clip1(S, h):
    """simplices of S cut with the half space h"""
    nr, c = h
    f = [dot(nr, p) - c for p in S]
    s = [x.sign() for x in f]
    if all(x >= 0 for x in s):
        return [S]
    if all(x <= 0 for x in s):
        return []
    I = [i for i in range(len(S)) if s[i] >= 0]
    O = [i for i in range(len(S)) if s[i] < 0]
    P = lambda i, o: at(S[i], S[o], f[i], f[o]) if s[i] > 0 else S[i]
    if len(S) == 3:
        if len(I) == 1:
            a, = I
            r = [[S[a], P(a, O[0]), P(a, O[1])]]
        else:
            a, b = I
            o, = O
            r = [[S[a], S[b], P(a, o)], [S[b], P(a, o), P(b, o)]]
    elif len(I) == 1:
        a, = I
        r = [[S[a], P(a, O[0]), P(a, O[1]), P(a, O[2])]]
    elif len(I) == 2:
        a, b = I
        o, u = O
        A, Bq = [S[a], P(a, o), P(a, u)], [S[b], P(b, o), P(b, u)]
        r = prism(A, Bq)
    else:
        a, b, e = I
        o, = O
        r = prism([S[a], S[b], S[e]], [P(a, o), P(b, o), P(e, o)])
    return [t for t in r if signed(t).sign() != 0]


def prism(A, B):
    return [[A[0], A[1], A[2], B[2]], [A[0], A[1], B[2], B[1]], [A[0], B[0], B[1], B[2]]]


def clip(S, T):
    """simplices filling S∩T"""
    hs = halfspaces(T)
    if hs is None:
        return []
    cur = [S]
    for h in hs:
        nxt = []
        for s in cur:
            nxt += clip1(s, h)
        cur = nxt
        if not cur:
            break
    return cur


def far(S, T):
    """bounding boxes disjoint (floats, safe margin)"""
    for k in range(3 if len(S) == 4 else 2):
        a, b = [float(p[k]) for p in S], [float(p[k]) for p in T]
        if max(a) < min(b) - 1e-9 or max(b) < min(a) - 1e-9:
            return True
    return False


def common(O1, O2):
    """exact size (6*volume or 2*area) of the common region of two sets of non-overlapping simplices"""
    s = Q(0)
    for S in O1:
        for T in O2:
            if not far(S, T):
                for c in clip(S, T):
                    s = s + size(c)
    return s


def total(O):
    s = Q(0)
    for S in O:
        s = s + size(S)
    return s


def hull_size(P, dim):
    """exact 6*volume (dim 3) or 2*area (dim 2) of the convex hull of points"""
    pts = []
    for p in P:
        if not any(all(x == y for x, y in zip(p[:dim], q[:dim])) for q in pts):
            pts.append(p)
    n = len(pts)
    if n <= dim:
        return Q(0)
    cen = [sum((p[k] for p in pts), Q(0)) * Q(F(1, n)) for k in range(3)]
    tot = Q(0)
    if dim == 2:
        for a, b in rim(pts, lambda u, v, w: u[0] * w[1] - u[1] * w[0]):
            tot = tot + size([cen, a, b])
        return tot
    seen = set()
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                if (i, j, k) in seen:
                    continue
                nr = cross(sub3(pts[j], pts[i]), sub3(pts[k], pts[i]))
                if all(x == Q(0) for x in nr):
                    continue
                s = [dot(nr, sub3(p, pts[i])).sign() for p in pts]
                on = [m for m in range(n) if s[m] == 0]
                for a in range(len(on)):
                    for b in range(a + 1, len(on)):
                        for c in range(b + 1, len(on)):
                            seen.add((on[a], on[b], on[c]))
                if any(x > 0 for x in s) and any(x < 0 for x in s):
                    continue
                if len(on) == n:
                    return Q(0)
                F_ = [pts[m] for m in on]
                fc = [sum((p[k2] for p in F_), Q(0)) * Q(F(1, len(F_))) for k2 in range(3)]
                for a, b in rim(F_, lambda u, v, w: dot(nr, cross(u, w))):
                    tot = tot + size([cen, fc, a, b])
    return tot


def rim(pts, turn):
    """edges of the convex hull of points of a plane; turn(u, _, w) is the signed area of two directions"""
    out = []
    n = len(pts)
    for i in range(n):
        for j in range(i + 1, n):
            d = sub3(pts[j], pts[i])
            s = [turn(d, None, sub3(p, pts[i])).sign() for p in pts]
            if any(x > 0 for x in s) and any(x < 0 for x in s):
                continue
            if all(x == 0 for x in s):
                continue
            on = [p for p, x in zip(pts, s) if x == 0]
            # only the extreme pair of a side
            if any(not (Q(0) <= dot(sub3(p, pts[i]), d) <= dot(d, d)) for p in on):
                continue
            out.append((pts[i], pts[j]))
    return out


def general(P, dim, eps=1e-3, eps2=1e-6):
    """no dim+1 points (nearly) in a hyperplane, no dim+2 points (nearly) on a sphere"""
    import itertools
    import numpy as np
    X = np.array([[float(x) for x in p[:dim]] for p in P])
    for c in itertools.combinations(range(len(X)), dim + 1):
        if abs(np.linalg.det(X[list(c[1:])] - X[c[0]])) < eps:
            return False
    for c in itertools.combinations(range(len(X)), dim + 2):
        Y = X[list(c)]
        M = np.hstack([Y, (Y ** 2).sum(1)[:, None], np.ones((dim + 2, 1))])
        if abs(np.linalg.det(M)) < eps2:
            return False
    return True


def many_corners(rng, ico):
    """simplices of a convex domain with many corners, without further vertices"""
    import numpy as np
    from scipy.spatial import ConvexHull, Delaunay
    dim = 3 if ico else 2
    for _ in range(60):
        L = [[Q(rng.randint(-3, 3)) for _ in range(6)] for _ in range(400)]
        for v in L:
            if not ico:
                v[4] = v[5] = Q(0)
        X = np.array([[float(x) for x in gen.perp(v)[:dim]] for v in L])
        r = np.linalg.norm(X, axis=1)
        R = sorted(r)[-60]
        keep = []
        for i in np.argsort(abs(r - R)):
            if all(np.linalg.norm(X[i] - X[j]) > 0.25 * R * (1 if ico else 0.9) for j in keep):
                keep.append(i)
            if len(keep) == 15:
                break
        Y = X[keep]
        if len(keep) < 14 or len(ConvexHull(Y).vertices) < 13:
            continue
        Pk = [L[i] for i in keep]
        if not general([gen.perp(v) for v in Pk], dim):
            continue
        S = [[Pk[i] for i in s] for s in Delaunay(Y).simplices]
        S = [s for s in S if signed([gen.perp(v) for v in s]) != Q(0)]
        rng.shuffle(S)
        return S
    raise ValueError


def cut_corner(rng, S, ico):
    """a simplex that contains every corner of the domain but one"""
    import numpy as np
    dim = 3 if ico else 2
    V = []
    for s in S:
        for v in s:
            if v not in V:
                V.append(v)
    f = lambda v: np.array([float(x) for x in gen.perp(v)[:dim]])
    X = [f(v) for v in V]
    for _ in range(40):
        k = rng.randrange(len(V))
        n = X[k]
        h = sorted(x @ n for x in X)
        if abs(h[-1] - n @ n) > 1e-9 or h[-1] - h[-2] < 0.02 * h[-1]:
            continue
        t = F(int(1000 * (h[-1] + h[-2]) / 2 / h[-1]), 1000)
        m = gen.mul6(V[k], Q(t))
        U = []
        for _ in range(dim - 1):
            e = [Q(rng.randint(-4, 4)) if ico or i < 4 else Q(0) for i in range(6)]
            c = F(round(100 * float(f(e) @ n) / float(n @ n)), 100)
            U.append(gen.sub6(e, gen.mul6(V[k], Q(c))))
        w = U[0] if dim == 2 else gen.add6(U[0], U[1])
        B = [gen.add6(m, gen.mul6(u, Q(8))) for u in U] + [gen.sub6(m, gen.mul6(w, Q(8))), gen.sub6(m, gen.mul6(V[k], Q(12)))]
        M = np.array([list(f(b)) + [1.0] for b in B]).T
        if abs(np.linalg.det(M)) < 1:
            continue
        out = [i for i, x in enumerate(X) if min(np.linalg.solve(M, np.append(x, 1.0))) < 1e-3]
        if out == [k]:
            return B
    raise ValueError
