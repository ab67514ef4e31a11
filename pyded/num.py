"""Exact symbolic scalars: rational functions over Q(sqrt d) in named atoms (Laurent normal form).

A Num is n/d with n,d polynomials (dict monomial -> coefficient).  A monomial is a sorted tuple of
(atom index, exponent), exponents may be negative (atoms with negative exponents are known non-zero).
A coefficient is a pair (p,q) of rationals meaning p+q*sqrt(D).
Machine arithmetic is treated as mathematical: int64 as Z, float64 as R (listed assumption).
"""
from fractions import Fraction
import math

D = 5            # set by set_field


class Unsupported(Exception):
    """The engine cannot represent this construct: the function falls back to its bounded stand-in."""


def set_field(d):
    global D, SQ, ONE_C
    D = d


def _r(x):
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


def cmul(a, b):
    p, q = a
    r, s = b
    if q == 0 and s == 0:
        return (_r(p * r), 0)
    return (_r(p * r + D * q * s), _r(p * s + q * r))


def cinv(a):
    p, q = a
    n = p * p - D * q * q
    return (_r(Fraction(p) / n), _r(Fraction(-q) / n))


def csign(a):
    p, q = a
    if q == 0:
        return (p > 0) - (p < 0)
    if p == 0:
        return (q > 0) - (q < 0)
    if p > 0 and q > 0:
        return 1
    if p < 0 and q < 0:
        return -1
    l = p * p - D * q * q
    if p > 0:            # q<0
        return 1 if l > 0 else -1
    return -1 if l > 0 else 1


def cfloat(a):
    return float(a[0]) + float(a[1]) * math.sqrt(D)


# ---------------------------------------------------------------- atoms
class Atoms:
    def __init__(self):
        self.name = []
        self.kind = []      # 'int' | 'real'
        self.sign = []      # 'pos' | 'nonneg' | 'nonzero' | None
        self.info = []      # definitional info
        self.sq = {}        # atom -> Num whose value is atom**2
        self.index = {}

    def new(self, name, kind='real', sign=None, info=None):
        i = len(self.name)
        base = name
        k = 0
        while name in self.index:
            k += 1
            name = '%s~%d' % (base, k)
        self.index[name] = i
        self.name.append(name)
        self.kind.append(kind)
        self.sign.append(sign)
        self.info.append(info)
        return i


AT = Atoms()


def reset_atoms():
    global AT
    AT.__init__()
    del FACTORS[:]


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        x = d.get(k, 0) + e
        if x:
            d[k] = x
        else:
            del d[k]
    return tuple(sorted(d.items()))


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            p = _r(o[0] + c[0])
            q = _r(o[1] + c[1])
            if p == 0 and q == 0:
                del r[m]
            else:
                r[m] = (p, q)
    return r


def pneg(a):
    return {m: (-c[0], -c[1]) for m, c in a.items()}


def pscale(a, c):
    if c == (1, 0):
        return a
    r = {}
    for m, k in a.items():
        r[m] = cmul(k, c)
    return r


MAXTERMS = 60000


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        if not m:
            return pscale(b, c)
    if len(b) == 1:
        (m, c), = b.items()
        if not m:
            return pscale(a, c)
    if len(a) * len(b) > 3000000:
        raise Unsupported('polynomial too large')
    r = {}
    red = False
    sq = AT.sq
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            if sq and not red:
                for k, e in m:
                    if k in sq and e >= 2:
                        red = True
                        break
            c = cmul(c1, c2)
            o = r.get(m)
            if o is None:
                r[m] = c
            else:
                p = _r(o[0] + c[0])
                q = _r(o[1] + c[1])
                if p == 0 and q == 0:
                    del r[m]
                else:
                    r[m] = (p, q)
    if red:
        r = reduce_sq(r)
    if len(r) > MAXTERMS:
        raise Unsupported('polynomial too large')
    return r


def reduce_sq(p):
    """rewrite R**2 -> radicand for square-root atoms."""
    sq = AT.sq
    while True:
        todo = None
        out = {}
        for m, c in p.items():
            hit = None
            for k, e in m:
                if k in sq and e >= 2:
                    hit = (k, e)
                    break
            if hit is None:
                o = out.get(m)
                if o is None:
                    out[m] = c
                else:
                    s = (_r(o[0] + c[0]), _r(o[1] + c[1]))
                    if s == (0, 0):
                        del out[m]
                    else:
                        out[m] = s
            else:
                k, e = hit
                rest = tuple((x, y) for x, y in m if x != k)
                if e % 2:
                    rest = mmul(rest, ((k, 1),))
                rad = sq[k]
                t = {rest: c}
                for _ in range(e // 2):
                    t2 = {}
                    for m1, c1 in t.items():
                        for m2, c2 in rad.items():
                            mm = mmul(m1, m2)
                            cc = cmul(c1, c2)
                            o = t2.get(mm)
                            t2[mm] = cc if o is None else (_r(o[0] + cc[0]), _r(o[1] + cc[1]))
                    t = {a: b for a, b in t2.items() if b != (0, 0)}
                todo = t if todo is None else padd(todo, t)
        if todo is None:
            return out
        p = padd(out, todo)


ONE = {(): (1, 0)}


def _const(x):
    """python/numpy number -> (p,q)"""
    t = type(x)
    if t is int:
        return (x, 0)
    if t is bool:
        return (int(x), 0)
    if t is Fraction:
        return (_r(x), 0)
    if t is float:
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('nan/inf')
        if x == int(x):
            return (int(x), 0)
        return (Fraction(repr(x)), 0)
    import numpy as np
    if isinstance(x, (np.integer, np.bool_)):
        return (int(x), 0)
    if isinstance(x, np.floating):
        return _const(float(x))
    return None


class Num:
    __slots__ = ('n', 'd', 'isint', 'trip', 'sqof', 'tag')

    def __init__(self, n, d=None, isint=False, trip=None, sqof=None):
        self.n = n
        self.d = d
        self.isint = isint
        self.trip = trip
        self.sqof = sqof
        self.tag = None

    # ---- construction
    @staticmethod
    def of(x):
        if isinstance(x, Num):
            return x
        c = _const(x)
        if c is None:
            if isinstance(x, SymBool):
                return Num.of(1) if bool(x) else Num.of(0)
            import numpy as np
            if isinstance(x, np.ndarray) and x.ndim == 0:
                return Num.of(x.item())
            return None
        return Num.const(c)

    @staticmethod
    def const(c):
        if c == (0, 0):
            return Num({}, None, True)
        return Num({(): c}, None, c[1] == 0 and type(c[0]) is int)

    @staticmethod
    def atom(i):
        return Num({((i, 1),): (1, 0)}, None, AT.kind[i] == 'int')

    def is_const(self):
        if self.d is not None:
            return False
        return not self.n or (len(self.n) == 1 and () in self.n)

    def cval(self):
        return self.n.get((), (0, 0))

    # ---- arithmetic
    def __add__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if not o.n:
            return self
        if not self.n:
            return o
        ii = self.isint and o.isint
        if self.d is None and o.d is None:
            r = Num(padd(self.n, o.n), None, ii or False)
            if (self.sqof is not None or self.tag == 'sos') and (o.sqof is not None or o.tag == 'sos'):
                r.tag = 'sos'
            return r
        d1 = self.d or ONE
        d2 = o.d or ONE
        if d1 == d2:
            return _mk(padd(self.n, o.n), d1)
        return _mk(padd(pmul(self.n, d2), pmul(o.n, d1)), pmul(d1, d2))
    __radd__ = __add__

    def __neg__(self):
        r = Num(pneg(self.n), self.d, self.isint)
        return r

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        ii = self.isint and o.isint
        n = pmul(self.n, o.n)
        if self.d is None and o.d is None:
            r = Num(n, None, ii)
        else:
            r = _mk(n, pmul(self.d or ONE, o.d or ONE))
        if o is self or (self.n == o.n and self.d == o.d and self.n):
            r.sqof = self
        return r
    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError('symbolic division by zero')
        if len(self.n) == 1:
            (m, c), = self.n.items()
            r = {tuple((k, -e) for k, e in m): cinv(c)}
            if self.d is not None:
                r = pmul(r, self.d)
            return Num(r, None)
        return _mk(self.d or ONE, self.n)

    def __truediv__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        from . import logic
        logic.require_nonzero(o, 'division')
        k = logic.gcd_quotient(self, o)
        if k is not None:
            return k
        r = self * o.inv()
        r.sqof = None
        if r.is_const():
            c = r.cval()
            r.isint = c[1] == 0 and type(c[0]) is int
        return r

    def __rtruediv__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return o.__truediv__(self)

    def __floordiv__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        q = self.__truediv__(o)
        if q.isint:
            return q
        if q.is_const():
            return Num.of(cfloor(q.cval()))
        raise Unsupported('floor division of symbolic values')

    def __rfloordiv__(self, o):
        o = Num.of(o)
        return o.__floordiv__(self)

    def __mod__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if self.is_const() and o.is_const():
            q = self.__truediv__(o)
            f = Num.of(cfloor(q.cval()))
            return self - f * o
        q = self.__truediv__(o)
        if q.isint:
            return Num.of(0)
        raise Unsupported('symbolic modulo')

    def __rmod__(self, o):
        return Num.of(o).__mod__(self)

    def __divmod__(self, o):
        return self.__floordiv__(o), self.__mod__(o)

    def __pow__(self, e):
        e = Num.of(e)
        if e is None or not e.is_const() or e.cval()[1] != 0:
            raise Unsupported('symbolic power')
        ev = e.cval()[0]
        if type(ev) is Fraction and ev == Fraction(1, 2):
            from . import logic
            return logic.sqrt(self)
        if type(ev) is not int:
            raise Unsupported('fractional power')
        if ev < 0:
            return Num.of(1) / (self ** (-ev))
        r = Num.of(1)
        b = self
        for _ in range(ev):
            r = r * b if r.n != ONE else b
        if ev == 0:
            return Num.of(1)
        if ev == 2:
            r = b * b
            r.sqof = b
            if b.isint:
                r.isint = True
        return r

    def __rpow__(self, o):
        return Num.of(o).__pow__(self)

    def __abs__(self):
        if self.sqof is not None or self.tag == 'sos':
            return self
        if self.is_const():
            return self if csign(self.cval()) >= 0 else -self
        from . import logic
        if logic.CTX is not None and logic.CTX.absatoms:
            return logic.abs_atom(self)
        if self.d is not None:
            if self >= 0:
                return self
            return -self
        return AbsNum(self)

    def sqrt(self):          # numpy calls this for object arrays
        from . import logic
        return logic.sqrt(self)

    def conjugate(self):
        return self

    # ---- comparison
    def __eq__(self, o):
        o = Num.of(o)
        if o is None:
            return False
        return trip_eq(self, o)

    def __ne__(self, o):
        o = Num.of(o)
        if o is None:
            return True
        return ~trip_eq(self, o)

    def __lt__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if self.isint and o.is_const() and o.cval() == (1, 0):
            return ~cmp_lt(-self)
        return cmp_lt(self - o)

    def __gt__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if self.isint and o.is_const() and o.cval() == (-1, 0):
            return ~cmp_lt(self)
        return cmp_lt(o - self)

    def __le__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if self.isint and o.is_const() and o.cval() == (-1, 0):
            return cmp_lt(self)
        return ~cmp_lt(o - self)

    def __ge__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if self.isint and o.is_const() and o.cval() == (1, 0):
            return cmp_lt(-self)
        return ~cmp_lt(self - o)

    def __hash__(self):
        if self.is_const():
            c = self.cval()
            if c[1] == 0:
                return hash(c[0])
            return hash(c)
        raise Unsupported('hash of a symbolic number')

    def __bool__(self):
        return bool(~cmp_eq(self, Num.of(0)))

    def __float__(self):
        if self.is_const():
            return cfloat(self.cval())
        raise Unsupported('float() of a symbolic number')

    def __int__(self):
        if self.is_const():
            return ctrunc(self.cval())
        raise Unsupported('int() of a symbolic number')

    def __index__(self):
        if self.is_const() and self.isint:
            return self.cval()[0]
        raise Unsupported('symbolic index')

    def __round__(self, nd=None):
        if self.is_const() and self.isint:
            return self
        raise Unsupported('round')

    def __repr__(self):
        return show(self)

    def __format__(self, spec):
        return show(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy scalar-ish API
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def item(self):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        return self.isint


def cfloor(c):
    p, q = c
    if q == 0:
        return math.floor(p)
    f = math.floor(cfloat(c))
    while csign((p - f, q)) < 0:
        f -= 1
    while csign((p - f - 1, q)) >= 0:
        f += 1
    return f


def ctrunc(c):
    if csign(c) >= 0:
        return cfloor(c)
    return -cfloor((-c[0], -c[1]))


def _mk(n, d):
    if not n:
        return Num.of(0)
    if d == ONE:
        return Num(n, None)
    if len(d) == 1:
        (m, c), = d.items()
        return Num(pmul(n, {tuple((k, -e) for k, e in m): cinv(c)}), None)
    # scalar multiple?
    if len(n) == len(d) and n.keys() == d.keys():
        m0 = next(iter(n))
        c = cmul(n[m0], cinv(d[m0]))
        if all(n[m] == cmul(d[m], c) for m in n):
            return Num.const(c)
    return Num(n, d)


def monname(m):
    return '*'.join('%s%s' % (AT.name[k], '' if e == 1 else '^%d' % e) for k, e in m)


def pshow(p):
    if not p:
        return '0'
    out = []
    for m, (a, b) in sorted(p.items()):
        c = '%s' % a if b == 0 else ('%s*s' % b if a == 0 else '(%s+%s*s)' % (a, b))
        out.append(c + ('*' + monname(m) if m else ''))
    s = ' + '.join(out)
    return s if len(s) < 400 else s[:400] + '...(%d terms)' % len(p)


def show(x):
    if x.d is None:
        return pshow(x.n)
    return '(%s)/(%s)' % (pshow(x.n), pshow(x.d))


# ---------------------------------------------------------------- comparisons
def clear_neg(p):
    """multiply by atoms to remove negative exponents (sign not preserved unless handled by the caller)"""
    mins = {}
    for m in p:
        for k, e in m:
            if e < 0 and e < mins.get(k, 0):
                mins[k] = e
    if not mins:
        return p
    f = tuple(sorted((k, -e) for k, e in mins.items()))
    return pmul(p, {f: (1, 0)})


def cmp_eq(a, b):
    x = a - b
    p = x.n
    if not p:
        return TRUE
    if x.is_const():
        return FALSE
    p = reduce_sq(clear_neg(p)) if AT.sq else clear_neg(p)
    if not p:
        return TRUE
    p = strip_common(p, eq=True)
    if len(p) == 1 and () in p:
        return FALSE
    if len(p) > 1 and any(c[1] != 0 for c in p.values()) and all(AT.kind[k] == 'int' for m in p for k, _ in m):
        # u + v*sqrt(D) == 0 with rational u,v  iff  u == v == 0   (irrationality lemma, see lemmas/)
        u = {m: (c[0], 0) for m, c in p.items() if c[0] != 0}
        v = {m: (c[1], 0) for m, c in p.items() if c[1] != 0}
        return sand([cmp_eq(Num(u, None), Num.of(0)), cmp_eq(Num(v, None), Num.of(0))])
    p = scale_lead(p, True)
    if len(p) <= 3:
        bf = binary_form(p)
        if bf is not None:
            return sand([cmp_eq(Num.atom(bf[0]), Num.of(0)), cmp_eq(Num.atom(bf[1]), Num.of(0))])
    if len(p) == 1:
        (m, c), = p.items()
        fs = [k for k, e in m if AT.sign[k] not in ('pos', 'nonzero')]
        if not fs:
            return FALSE
        if len(m) > 1 or m[0][1] > 1:
            return sor([SymBool('eq', frozen({((k, 1),): (1, 0)}), {((k, 1),): (1, 0)}) for k in fs])
    if FACTORS:
        q = refactor(p)
        if q is not None:
            return sor([cmp_eq(Num(x, None), Num.of(0)) for x in q])
    return SymBool('eq', frozen(p), p)


FACTORS = []        # registered (polynomial, atom): polynomial == atom


def pdivide(p, q):
    """exact division of polynomials (non-negative exponents), None when not exact"""
    def order(m):
        return tuple(sorted(m, reverse=True))
    def lead(x):
        return max(x, key=grlex)
    lq = lead(q)
    cq = cinv(q[lq])
    dq = dict(lq)
    rem = dict(p)
    quo = {}
    n = 0
    while rem:
        n += 1
        if n > 4000:
            return None
        lr = lead(rem)
        dr = dict(lr)
        for k, e in dq.items():
            if dr.get(k, 0) < e:
                return None
        m = mmul(lr, tuple((k, -e) for k, e in lq))
        c = cmul(rem[lr], cq)
        quo[m] = c
        rem = padd(rem, pneg(pmul_raw(q, {m: c})))
    return quo


def pmul_raw(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            c = cmul(c1, c2)
            o = r.get(m)
            if o is None:
                r[m] = c
            else:
                s = (_r(o[0] + c[0]), _r(o[1] + c[1]))
                if s == (0, 0):
                    del r[m]
                else:
                    r[m] = s
    return r


def grlex(m):
    # graded, ties by lexicographic order on atoms
    return (sum(e for _, e in m), tuple(sorted(((-k, e) for k, e in m), reverse=True)))


def refactor(p):
    """p = quotient * P for a registered factor -> [quotient, atom poly]"""
    for P, a in FACTORS:
        if len(p) < len(P) or frozen(p) == ((((a, 1),), (1, 0)),):
            continue
        q = pdivide(p, P)
        if q is not None:
            return [q, {((a, 1),): (1, 0)}]
    return None


def psqrt(p):
    """polynomial square root of p (non-negative exponents), None when p is not a perfect square"""
    if not p:
        return {}
    lead = lambda x: max(x, key=grlex)
    lp = lead(p)
    if any(e % 2 for _, e in lp):
        return None
    from . import logic
    r0 = logic.const_sqrt(p[lp]) if csign(p[lp]) > 0 else None
    if r0 is None:
        return None
    c0 = r0.cval()
    m0 = tuple((k, e // 2) for k, e in lp)
    r = {m0: c0}
    rem = padd(p, pneg(pmul_raw(r, r)))
    inv2 = cinv(cmul(c0, (2, 0)))
    n = 0
    while rem:
        n += 1
        if n > 200:
            return None
        lr = lead(rem)
        m = mmul(lr, tuple((k, -e) for k, e in m0))
        if any(e < 0 for _, e in m) or grlex(m) >= grlex(m0):
            return None
        t = {m: cmul(rem[lr], inv2)}
        rem = padd(rem, pneg(padd(pscale(pmul_raw(r, t), (2, 0)), pmul_raw(t, t))))
        r = padd(r, t)
    return r


def trip_eq(a, b):
    r = cmp_eq(a, b)
    ta, tb = a.trip, b.trip
    if r.op != 'eq':
        if ta is not None and tb is not None and ta.i == tb.i and r.op == 'true' and ta.key == tb.key:
            return r
        if ta is None and tb is None:
            return r
    if ta is not None and tb is not None:
        if ta.i == tb.i:
            if ta.key == tb.key:
                return TRUE
            if r.op == 'eq' or r.op == 'true':
                k = (min(ta.key, tb.key, key=repr), max(ta.key, tb.key, key=repr))
                r = SymBool(r.op, r.key, r.p)
                r.trip = ('tt', k, ta.i, ta.v, tb.v)
        return r
    if ta is not None and b.is_const() and r.op in ('eq', 'true'):
        r = SymBool(r.op, r.key, r.p)
        r.trip = ('tc', ta.key, ta.i, ta.v, b.cval())
    elif tb is not None and a.is_const() and r.op in ('eq', 'true'):
        r = SymBool(r.op, r.key, r.p)
        r.trip = ('tc', tb.key, tb.i, tb.v, a.cval())
    return r


def merge_trips(xs):
    """conjunction of component equalities of canonical triples -> equality of values"""
    if not any(x.trip is not None and not x.trip[0].startswith('n') for x in xs):
        return xs
    groups = {}
    out = []
    for x in xs:
        t = x.trip
        if t is None:
            out.append(x)
            continue
        groups.setdefault((t[0], t[1]), []).append(x)
    for (kind, key), g in groups.items():
        idx = {x.trip[2]: x for x in g}
        v = g[0].trip[3]
        if kind == 'tt' and set(idx) >= {0, 1, 2}:
            out.append(cmp_eq(v, g[0].trip[4]))
        elif kind == 'tc' and 0 in idx and 1 in idx:
            if len({x.trip[4] for x in g if x.trip[2] == 0}) > 1 or len({x.trip[4] for x in g if x.trip[2] == 1}) > 1:
                out.extend(g)
                continue
            c0, c1 = idx[0].trip[4], idx[1].trip[4]
            if c0 == (0, 0) and c1 == (0, 0):
                out.append(cmp_eq(v, Num.of(0)))
                if 2 in idx and idx[2].trip[4] != (1, 0):
                    return [FALSE]
            elif 2 in idx:
                from . import logic
                c2 = idx[2].trip[4]
                t = (Num.const(c0) + logic.unit() * Num.const(c1)) * Num.const(c2).inv() if c2 != (0, 0) else None
                if t is None or logic.const_triple(t.cval()) != (c0[0], c1[0], c2[0]):
                    return [FALSE]
                out.append(cmp_eq(v, t))
            else:
                out.extend(x for x in g)
        else:
            out.extend(g)
    return out


def binary_form(p):
    """p = a x^2 + b x y + c y^2 with integer atoms x,y and rational coefficients whose discriminant is not a
    square: p==0 iff x==y==0 (irrationality lemma, see lemmas/).  Returns (x,y) or None."""
    vs = set()
    for m, c in p.items():
        if c[1] != 0 or sum(e for _, e in m) != 2:
            return None
        for k, e in m:
            if e < 0 or AT.kind[k] != 'int':
                return None
            vs.add(k)
    if len(vs) != 2:
        return None
    x, y = sorted(vs)
    a = Fraction(p.get(((x, 2),), (0, 0))[0])
    b = Fraction(p.get(((x, 1), (y, 1)), (0, 0))[0])
    c = Fraction(p.get(((y, 2),), (0, 0))[0])
    disc = b * b - 4 * a * c
    if disc < 0:
        return x, y
    n = disc.numerator * disc.denominator
    r = math.isqrt(n)
    if r * r == n:
        return None
    return x, y


def strip_common(p, eq=False):
    """divide by the common monomial; for eq drop only atoms known nonzero; for ordering only positive ones or even powers."""
    it = iter(p)
    first = dict(next(it))
    for m in it:
        if not first:
            break
        md = dict(m)
        for k in list(first):
            e = md.get(k, 0)
            if e < first[k]:
                first[k] = e
            if first[k] <= 0:
                del first[k]
    if not first:
        return p
    f = {}
    for k, e in first.items():
        s = AT.sign[k]
        if s == 'pos':
            f[k] = e
        elif s == 'nonzero':
            if eq:
                f[k] = e
            elif e >= 2:
                f[k] = e - e % 2
    if not f:
        return p
    g = tuple(sorted((k, -e) for k, e in f.items()))
    return {mmul(m, g): c for m, c in p.items()}


def scale_lead(p, eq):
    m0 = min(p)
    c = p[m0]
    if eq:
        return pscale(p, cinv(c))
    if csign(c) < 0:
        c = (-c[0], -c[1])
    return pscale(p, cinv(c))


def frozen(p):
    return tuple(sorted(p.items()))


def cmp_lt(x):
    """x<0"""
    if not x.n:
        return FALSE
    if x.is_const():
        return TRUE if csign(x.cval()) < 0 else FALSE
    p = x.n
    if x.d is not None:
        p = pmul(p, x.d)
    mins = {}
    for m in p:
        for k, e in m:
            if e < 0 and e < mins.get(k, 0):
                mins[k] = e
    if mins:
        f = []
        for k, e in mins.items():
            e = -e
            if AT.sign[k] != 'pos' and e % 2:
                e += 1
            f.append((k, e))
        p = pmul(p, {tuple(sorted(f)): (1, 0)})
    if AT.sq:
        p = reduce_sq(p)
    if not p:
        return FALSE
    p = strip_common(p)
    if len(p) == 1 and () in p:
        return TRUE if csign(p[()]) < 0 else FALSE
    while FACTORS:
        q = refactor(p)
        if q is None:
            break
        p = pmul(q[0], q[1])
        p = strip_common(p)
        if len(p) == 1 and () in p:
            return TRUE if csign(p[()]) < 0 else FALSE
    p = scale_lead(p, False)
    return SymBool('lt', frozen(p), p)


class SymBool:
    """formula: eq/ne p==0, lt p<0, ge p>=0 (i.e. not lt), and/or of formulas, const."""
    __slots__ = ('op', 'key', 'p', 'args', 'trip')

    def __init__(self, op, key=None, p=None, args=None):
        self.trip = None
        self.op = op
        self.key = key
        self.p = p
        self.args = args

    def __invert__(self):
        o = self.op
        if o == 'true':
            return FALSE
        if o == 'false':
            return TRUE
        if o == 'eq':
            r = SymBool('ne', self.key, self.p)
            if self.trip is not None:
                r.trip = ('n' + self.trip[0],) + self.trip[1:]
            return r
        if o == 'ne':
            r = SymBool('eq', self.key, self.p)
            if self.trip is not None:
                r.trip = (self.trip[0][1:],) + self.trip[1:]
            return r
        if o == 'lt':
            return SymBool('ge', self.key, self.p)
        if o == 'ge':
            return SymBool('lt', self.key, self.p)
        if o == 'and':
            return sor([~a for a in self.args])
        if o == 'or':
            return sand([~a for a in self.args])
        if o == 'z3':
            return SymBool('nz3', self.key, self.p)
        if o == 'nz3':
            return SymBool('z3', self.key, self.p)
        raise Unsupported(o)

    def __and__(self, o):
        return sand([self, tobool(o)])
    __rand__ = __and__

    def __or__(self, o):
        return sor([self, tobool(o)])
    __ror__ = __or__

    def __xor__(self, o):
        o = tobool(o)
        return sor([sand([self, ~o]), sand([~self, o])])
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return ~(self ^ o)
        if o is None:
            return False
        return Num.of(self) == o

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return self ^ o
        if o is None:
            return True
        return Num.of(self) != o

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if self.op == 'true':
            return True
        if self.op == 'false':
            return False
        from . import logic
        return logic.decide(self)

    # behaves as 0/1 in arithmetic
    def __add__(self, o):
        return Num.of(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return Num.of(self) - o

    def __mul__(self, o):
        return Num.of(self) * o
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def all(self):
        return self

    def any(self):
        return self

    def __repr__(self):
        if self.op in ('true', 'false'):
            return self.op
        if self.op in ('and', 'or'):
            return '(' + (' %s ' % self.op).join(map(repr, self.args)) + ')'
        if self.op in ('z3', 'nz3'):
            return '%s%s' % ('' if self.op == 'z3' else 'not ', self.key)
        return '%s %s 0' % (pshow(self.p), {'eq': '==', 'ne': '!=', 'lt': '<', 'ge': '>='}[self.op])


class AbsNum(Num):
    """|x|: comparisons stay formulas, anything else decides the sign of x first"""
    __slots__ = ('x', '_r')

    def __init__(self, x):
        self.x = x
        self._r = None
        self.isint = x.isint
        self.trip = None
        self.sqof = None
        self.tag = None

    def force(self):
        if self._r is None:
            self._r = self.x if self.x >= 0 else -self.x
        return self._r

    @property
    def n(self):
        return self.force().n

    @property
    def d(self):
        return self.force().d

    def __abs__(self):
        return self

    def is_const(self):
        return False if self._r is None else self._r.is_const()

    def _cmp(self, o, f, join):
        if self._r is not None:
            return f(self._r, o)
        o2 = Num.of(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, AbsNum):
            o2 = o2.force()
        return join([f(self.x, o2), f(-self.x, o2)])

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, sand)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, sand)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, sor)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, sor)

    def __eq__(self, o):
        o2 = Num.of(o)
        if o2 is not None and o2.is_const() and not o2.n:
            return self.x == o2
        return self.force() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return id(self)


TRUE = SymBool('true')
FALSE = SymBool('false')


def tobool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Num):
        return ~cmp_eq(x, Num.of(0))
    return TRUE if x else FALSE


def sand(xs):
    out = []
    xs = [tobool(x) for x in xs]
    if len(xs) > 1:
        xs = merge_trips(xs)
    for x in xs:
        if x.op == 'false':
            return FALSE
        if x.op == 'true':
            continue
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return SymBool('and', args=out)


def sor(xs):
    out = []
    xs = [tobool(x) for x in xs]
    if len(xs) > 1 and any(x.trip is not None and x.trip[0].startswith('n') for x in xs):
        xs = [~x for x in merge_trips([~x for x in xs])]
    for x in xs:
        if x.op == 'true':
            return TRUE
        if x.op == 'false':
            continue
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return SymBool('or', args=out)


def simplies(a, b):
    return sor([~tobool(a), tobool(b)])


def siff(a, b):
    a = tobool(a)
    b = tobool(b)
    return sand([sor([~a, b]), sor([a, ~b])])
