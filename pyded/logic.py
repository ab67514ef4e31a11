"""Path contexts, decisions, axioms and the solver interface."""
import sys, math, time
from fractions import Fraction
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from . import num as N
from .num import (Num, SymBool, TRUE, FALSE, Unsupported, AT, sand, sor, tobool, cmp_eq, cmp_lt, csign, frozen,
                  pscale, cinv, pmul, padd, pneg, clear_neg, reduce_sq)


class DivZero(Exception):
    pass


class Infeasible(Exception):
    """the path condition became contradictory"""


class PathLimit(Exception):
    pass


STATS = {'decide': 0, 'z3': 0, 'z3_time': 0.0, 'unknown': 0, 'ident': 0, 'lin': 0, 'nra': 0}
BIG = 350            # larger polynomials are not sent to the solver (sound for proving: fewer facts)


class Ctx:
    def __init__(self, prefix=(), feas_ms=400):
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []          # decisions actually forked (True/False)
        self.alts = []           # alternative prefixes
        self.facts = []          # SymBool facts along the path
        self.signs = {}          # eq-key -> set of possible signs
        self.feas_ms = feas_ms
        self.lin = z3.SolverFor('QF_LRA')
        self.lin.set('timeout', 300)
        self.linmap = {}
        self.lins = None
        self.obls = []
        self.gcds = {}
        self.sqrts = {}
        self.fsq = {}
        self.soft = False
        self.trips = {}
        self.factors = []
        self.dec_limit = 4000
        self.notes = []
        self.concrete = False
        self.funs = {}
        self.notall = set()      # conjunctions of equalities known to be false
        self.writes = []
        self.flags_known = False # intersection verdicts of simplices are opaque constants
        self.memo = {}           # perpendicular components by identity of the coordinates
        self.absatoms = False    # |x| is an opaque non-negative value (sequences of symbolic length)
        self.abstract = False    # specifications may return opaque predicates (see opaque)

    # ---------------------------------------------------------------- facts
    def assume(self, sb):
        sb = tobool(sb)
        if sb.op == 'true':
            return
        if sb.op == 'false':
            raise Infeasible()
        k = self.known(sb)
        if k is True:
            return
        if k is False:
            raise Infeasible()
        if sb.op == 'and':
            for a in sb.args:
                self.assume(a)
            return
        if sb.op == 'or':
            rest = [a for a in sb.args if self.known(a) is not False]
            if not rest:
                raise Infeasible()
            if len(rest) == 1:
                return self.assume(rest[0])
            if any(self.known(a) is True for a in rest):
                return
        self.facts.append(sb)
        if sb.op == 'or' and all(a.op == 'ne' for a in sb.args):
            self.notall.add(frozenset(signset(a)[0] for a in sb.args))
        if sb.op in ('eq', 'ne', 'lt', 'ge'):
            key, sg = signset(sb)
            cur = self.signs.get(key, frozenset((-1, 0, 1))) & sg
            if not cur:
                raise Infeasible()
            self.signs[key] = cur
        f = self.linz(sb)
        if f is not None:
            self.lin.add(f)
        # atom-level consequences
        if sb.op in ('ne', 'lt', 'ge') and len(sb.p) == 1:
            (m, c), = sb.p.items()
            if len(m) == 1 and m[0][1] == 1:
                k = m[0][0]
                if sb.op == 'ne' and AT.sign[k] is None:
                    self.atom_sign(k, 'nonzero')
                elif sb.op == 'ne' and AT.sign[k] == 'nonneg':
                    self.atom_sign(k, 'pos')
                elif sb.op == 'lt' and csign(c) < 0:
                    self.atom_sign(k, 'pos')
                elif sb.op == 'lt' and AT.sign[k] is None:
                    self.atom_sign(k, 'nonzero')

    def atom_sign(self, k, s):
        AT.sign[k] = s

    def known(self, sb):
        """syntactic knowledge: True/False/None"""
        o = sb.op
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'and':
            r = True
            for a in sb.args:
                k = self.known(a)
                if k is False:
                    return False
                if k is None:
                    r = None
            if r is None and self.notall and all(a.op == 'eq' for a in sb.args) and frozenset(signset(a)[0] for a in sb.args) in self.notall:
                return False
            return r
        if o == 'or':
            r = False
            for a in sb.args:
                k = self.known(a)
                if k is True:
                    return True
                if k is None:
                    r = None
            if r is None and self.notall and all(a.op == 'ne' for a in sb.args) and frozenset(signset(a)[0] for a in sb.args) in self.notall:
                return True
            return r
        if o in ('z3', 'nz3'):
            for f in self.facts:
                if f.op in ('z3', 'nz3') and f.key == sb.key:
                    return f.op == o
            return None
        key, sg = signset(sb)
        cur = self.signs.get(key)
        if cur is not None:
            if cur <= sg:
                return True
            if not (cur & sg):
                return False
        s = possible_signs(sb.p)
        if s is not None:
            _, base = signset(SymBool('eq', sb.key, sb.p))
            mine = {'eq': {0}, 'ne': {-1, 1}, 'lt': {-1}, 'ge': {0, 1}}[o]
            if s <= mine:
                return True
            if not (s & mine):
                return False
        return None

    # ---------------------------------------------------------------- decisions
    def decide(self, sb):
        STATS['decide'] += 1
        sb = tobool(sb)
        k = self.known(sb)
        if k is not None:
            return k
        if sb.op in ('and', 'or'):
            args = []
            for a in sb.args:
                ka = self.known(a)
                if ka is None:
                    args.append(a)
            sb = (sand if sb.op == 'and' else sor)(args)
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            if c in ('T', 'F'):          # forced earlier by the solver
                c = c == 'T'
                self.trail.append('T' if c else 'F')
            else:
                self.trail.append(c)
            self.assume(sb if c else ~sb)
            return c
        if len(self.trail) > self.dec_limit:
            raise PathLimit('decision limit')
        t = self.feasible(sb)
        f = self.feasible(~sb) if t else True
        self.pos += 1
        if t and f:
            self.alts.append(self.trail + [False])
            self.trail.append(True)
            self.assume(sb)
            return True
        if t:
            self.trail.append('T')
            self.assume(sb)
            return True
        self.trail.append('F')
        self.assume(~sb)
        return False

    def feasible(self, sb):
        f = self.linz(sb)
        if f is not None:
            self.lin.push()
            self.lin.add(f)
            t = time.time()
            r = self.lin.check()
            STATS['z3'] += 1
            STATS['z3_time'] += time.time() - t
            self.lin.pop()
            if r == z3.unsat:
                return False
        if not self.feas_ms:
            return True
        r, _ = nra_check(self.facts + [sb], self.feas_ms, self)
        return r != 'unsat'

    # ---------------------------------------------------------------- linear abstraction
    def linz(self, sb):
        return lin_formula(sb, self.linmap, self)

    def choose(self, n, what=''):
        """non-deterministic choice of 0..n-1 (all explored)"""
        if n <= 0:
            raise Unsupported('empty choice')
        for i in range(n - 1):
            if self.pos < len(self.prefix):
                c = self.prefix[self.pos]
                self.pos += 1
                self.trail.append(c)
            else:
                self.pos += 1
                self.alts.append(self.trail + [False])
                self.trail.append(True)
                c = True
            if c:
                return i
        return n - 1


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('symbolic decision outside a proof')
    return CTX


def set_ctx(c):
    global CTX
    CTX = c
    return c


def decide(sb):
    return ctx().decide(sb)


def signset(sb):
    p = sb.p
    m0 = min(p)
    s = csign(p[m0])
    key = frozen(pscale(p, cinv(p[m0]))) if p[m0] != (1, 0) else sb.key
    o = sb.op
    if o == 'eq':
        return key, frozenset((0,))
    if o == 'ne':
        return key, frozenset((-1, 1))
    if o == 'lt':
        return key, frozenset((-s,))
    return key, frozenset((0, s))


SGN = {'pos': {1}, 'nonneg': {0, 1}, 'nonzero': {-1, 1}, None: {-1, 0, 1}}


def possible_signs(p):
    """set of possible signs of polynomial p from atom signs; None if anything is possible"""
    tot = None
    for m, c in p.items():
        s = {csign(c)}
        for k, e in m:
            a = SGN[AT.sign[k]]
            if e % 2 == 0:
                a = {x * x for x in a}
            s = {x * y for x in s for y in a}
        if tot is None:
            tot = s
        else:
            new = set()
            for x in tot:
                for y in s:
                    if x == 0:
                        new.add(y)
                    elif y == 0 or x == y:
                        new.add(x)
                    else:
                        return None
            tot = new
        if len(tot) == 3:
            return None
    return tot


# ---------------------------------------------------------------- z3 encodings
def zc(c):
    p, q = c
    r = z3.RealVal(str(p)) if q == 0 else None
    if r is not None:
        return r
    S = z3.Real('sqrtD')
    return z3.RealVal(str(p)) + z3.RealVal(str(q)) * S


def lin_formula(sb, cache, c=None):
    o = sb.op
    if o == 'true':
        return z3.BoolVal(True)
    if o == 'false':
        return z3.BoolVal(False)
    if o in ('and', 'or'):
        fs = []
        for a in sb.args:
            f = lin_formula(a, cache, c)
            if f is None:
                if o == 'or':
                    return None
                continue
            fs.append(f)
        return z3.And(*fs) if o == 'and' else z3.Or(*fs)
    if o in ('z3', 'nz3'):
        v = cache.get(('bool', sb.key))
        if v is None:
            v = cache[('bool', sb.key)] = z3.Bool('o%d' % len(cache))
            if c is not None:
                c.soft = True
        return v if o == 'z3' else z3.Not(v)
    if len(sb.p) > 3 * BIG:
        return None
    # linear abstraction: coefficients p+q*s with s split as separate variable per monomial
    terms = []
    for m, (p, q) in sb.p.items():
        if p != 0:
            terms.append(linvar(m, False, cache, c) * z3.RealVal(str(p)) if m else z3.RealVal(str(p)))
        if q != 0:
            terms.append(linvar(m, True, cache, c) * z3.RealVal(str(q)))
    e = z3.Sum(*terms) if len(terms) > 1 else terms[0]
    return {'eq': e == 0, 'ne': e != 0, 'lt': e < 0, 'ge': e >= 0}[o]


def linvar(m, s, cache, c):
    k = (m, s)
    v = cache.get(k)
    if v is None:
        v = z3.Real('m%d' % len(cache))
        cache[k] = v
        sg = possible_signs({m: (1, 0)}) if m else {1}
        if c is not None and sg is not None:
            if sg <= {0, 1}:
                c.lin.add(v >= 0)
            if 0 not in sg:
                c.lin.add(v != 0)
            if sg <= {1}:
                c.lin.add(v > 0)
        if s and c is not None:
            # s*m between lo*m and hi*m (rational bounds of sqrt(D))
            base = linvar(m, False, cache, c) if m else z3.RealVal(1)
            lo, hi = sqrt_bounds(N.D)
            lo = z3.RealVal(str(lo))
            hi = z3.RealVal(str(hi))
            c.lin.add(z3.Or(z3.And(base >= 0, v >= lo * base, v <= hi * base),
                            z3.And(base <= 0, v <= lo * base, v >= hi * base)))
    return v


def sqrt_bounds(d):
    k = math.isqrt(d * 10 ** 40)
    return Fraction(k, 10 ** 20), Fraction(k + 1, 10 ** 20)


def nra_formula(sb, atoms, ints=False):
    o = sb.op
    if o == 'true':
        return z3.BoolVal(True)
    if o == 'false':
        return z3.BoolVal(False)
    if o in ('and', 'or'):
        fs = []
        for a in sb.args:
            f = nra_formula(a, atoms, ints)
            if f is None:
                if o == 'or':
                    return None
                continue
            fs.append(f)
        return z3.And(*fs) if o == 'and' else z3.Or(*fs)
    if o in ('z3', 'nz3'):
        return None
    if len(sb.p) > BIG:
        return None
    terms = []
    for m, c in sb.p.items():
        t = zc(c)
        for k, e in m:
            v = atoms.get(k)
            if v is None:
                v = z3.Int('a%d' % k) if ints and AT.kind[k] == 'int' else z3.Real('a%d' % k)
                atoms[k] = v
            if z3.is_int(v):
                v = z3.ToReal(v)
            for _ in range(e):
                t = t * v
        terms.append(t)
    e = z3.Sum(*terms) if len(terms) > 1 else terms[0]
    return {'eq': e == 0, 'ne': e != 0, 'lt': e < 0, 'ge': e >= 0}[o]


def atom_axioms(atoms, out, done):
    """axioms of the atoms used so far (sign, square roots); closes under atoms they mention"""
    S = z3.Real('sqrtD')
    while True:
        todo = [k for k in list(atoms) if k not in done]
        if not todo:
            return
        for k in todo:
            done.add(k)
            v = atoms[k]
            s = AT.sign[k]
            if s == 'pos':
                out.append(v > 0)
            elif s == 'nonneg':
                out.append(v >= 0)
            elif s == 'nonzero':
                out.append(v != 0)
            if k in AT.sq:
                rad = AT.sq[k]
                f = nra_formula(SymBool('eq', None, padd({((k, 2),): (1, 0)}, pneg(rad))), atoms)
                if f is not None:
                    out.append(f)
            info = AT.info[k]
            if info and info[0] == 'axioms':
                for ax in info[1]:
                    f = nra_formula(ax, atoms)
                    if f is not None:
                        out.append(f)


def nra_check(formulas, ms, c=None, want_model=False, ints=False, partial_ok=True):
    """returns ('unsat'|'sat'|'unknown', model) ; model: dict atom index -> Fraction or None"""
    atoms = {}
    fs = []
    dropped = False
    for f in formulas:
        z = nra_formula(f, atoms, ints)
        if z is None:
            dropped = True
            continue
        fs.append(z)
    if c is not None:
        for ax in getattr(c, 'axioms', ()):
            z = nra_formula(ax, atoms, ints)
            if z is not None:
                fs.append(z)
    ax = []
    atom_axioms(atoms, ax, set())
    s = z3.Solver()
    s.set('timeout', int(ms))
    S = z3.Real('sqrtD')
    lo, hi = sqrt_bounds(N.D)
    s.add(S * S == N.D, S > z3.RealVal(str(lo)), S < z3.RealVal(str(hi)))
    s.add(*ax)
    s.add(*fs)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['z3'] += 1
    STATS['z3_time'] += time.time() - t
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.unknown:
        STATS['unknown'] += 1
        return 'unknown', None
    model = None
    if want_model:
        m = s.model()
        model = {}
        for k, v in atoms.items():
            val = m.eval(v, model_completion=True)
            try:
                if z3.is_int_value(val):
                    model[k] = Fraction(val.as_long())
                elif z3.is_rational_value(val):
                    model[k] = Fraction(val.numerator_as_long(), val.denominator_as_long())
                else:
                    a = val.approx(12)
                    model[k] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            except Exception:
                model[k] = None
    return ('sat' if not dropped else 'sat?'), model


def prove(goal, ms=4000):
    """-> ('proved'|'refuted'|'unknown', how, model)"""
    c = ctx()
    goal = tobool(goal)
    if goal.op == 'true':
        STATS['ident'] += 1
        return 'proved', 'normal form', None
    if goal.op == 'and':
        how = 'normal form'
        for a in goal.args:
            r = prove(a, ms)
            if r[0] != 'proved':
                return r
            how = r[1]
        return 'proved', how, None
    k = c.known(goal)
    if k is True:
        STATS['ident'] += 1
        return 'proved', 'path facts', None
    neg = ~goal
    f = c.linz(neg)
    if f is not None:
        c.lin.push()
        c.lin.add(f)
        t = time.time()
        r = c.lin.check()
        STATS['z3'] += 1
        STATS['z3_time'] += time.time() - t
        c.lin.pop()
        if r == z3.unsat:
            STATS['lin'] += 1
            return 'proved', 'z3 linear', None
    r, m = nra_check(c.facts + [neg], ms, c, want_model=True)
    if r == 'unsat':
        STATS['nra'] += 1
        return 'proved', 'z3 nonlinear', None
    if r == 'sat':
        # integer model preferred
        r2, m2 = nra_check(c.facts + [neg], 1500, c, want_model=True, ints=True)
        if r2 == 'unsat':
            return 'proved', 'z3 nonlinear', None
        return 'refuted', 'z3 model', (m2 or m)
    if r == 'sat?':
        return 'unknown', 'z3 partial model', m
    r2, m2 = nra_check(c.facts + [neg], 1500, c, want_model=True, ints=True)
    if r2 == 'unsat':
        return 'proved', 'z3 nonlinear', None
    return 'unknown', 'z3 unknown', m2


# ---------------------------------------------------------------- operations with axioms
def require_nonzero(x, what):
    if x.is_const():
        if not x.n:
            raise DivZero(what)
        return
    if len(x.n) == 1:
        (m, _), = x.n.items()
        if all(AT.sign[k] in ('pos', 'nonzero') for k, e in m):
            return
    if CTX is None:
        raise Unsupported('division outside a proof')
    if CTX.decide(cmp_eq(x, Num.of(0))):
        raise DivZero(what)


def nkey(x):
    return (frozen(x.n), None if x.d is None else frozen(x.d))


def gcd(args):
    """gcd of integer Nums (non-negative)"""
    xs = []
    for a in args:
        a = Num.of(a)
        if not a.isint:
            raise Unsupported('gcd of non-integers')
        if not a.n:
            continue
        if len(a.n) == 1 and a.d is None:
            (m, cc), = a.n.items()
            if cc in ((1, 0), (-1, 0)) and len(m) == 1 and m[0][1] == 1 and AT.info[m[0][0]] and AT.info[m[0][0]][0] == 'gcd':
                xs.extend(AT.info[m[0][0]][1])
                continue
        xs.append(a)
    if not xs:
        return Num.of(0)
    if all(x.is_const() for x in xs):
        return Num.of(math.gcd(*[int(x.cval()[0]) for x in xs]))
    c = ctx()
    allzero = sand([cmp_eq(x, Num.of(0)) for x in xs])
    if c.known(allzero) is not False:
        if c.decide(allzero):
            return Num.of(0)
    if any(x.is_const() and abs(x.cval()[0]) == 1 for x in xs):
        return Num.of(1)
    ks = []
    for x in xs:
        k1 = nkey(x)
        k2 = nkey(-x)
        ks.append(min(k1, k2, key=repr))
    key = tuple(sorted(set(ks), key=repr))
    if key in c.gcds:
        return Num.atom(c.gcds[key])
    i = AT.new('gcd%d' % len(c.gcds), 'int', 'pos', ('gcd', xs))
    c.gcds[key] = i
    return Num.atom(i)


def gcd_quotient(x, y):
    """x / y where y is a gcd atom of which x is an integer multiple by definition"""
    if y.d is not None or len(y.n) != 1:
        return None
    (m, cc), = y.n.items()
    if len(m) != 1 or m[0][1] != 1 or cc not in ((1, 0), (-1, 0)):
        return None
    g = m[0][0]
    info = AT.info[g]
    if not info or info[0] != 'gcd':
        return None
    if not x.n:
        return Num.of(0)
    nx = -x
    for a in info[1]:
        if nkey(a) in (nkey(x), nkey(nx)):
            inv = {((g, -1),): cc}
            r = Num(pmul(x.n, inv), x.d, True)
            return r
    # integer multiple of an argument
    for a in info[1]:
        if a.d is None and x.d is None and a.n.keys() == x.n.keys() and a.n:
            m0 = next(iter(a.n))
            q = N.cmul(x.n[m0], cinv(a.n[m0]))
            if q[1] == 0 and type(q[0]) is int and all(x.n[k] == N.cmul(a.n[k], q) for k in x.n):
                return Num(pmul(x.n, {((g, -1),): cc}), None, True)
    return None


def coprime(xs):
    """are these integer Nums provably coprime (gcd 1)?"""
    xs = [Num.of(x) for x in xs]
    nz = [x for x in xs if x.n]
    if any(x.is_const() and abs(x.cval()[0]) == 1 for x in nz):
        return True
    if all(x.is_const() for x in nz):
        return math.gcd(*[int(x.cval()[0]) for x in nz]) == 1
    for x in nz:
        for m in x.n:
            for k, e in m:
                if e == -1 and AT.info[k] and AT.info[k][0] == 'gcd':
                    g = Num.atom(k)
                    keys = set()
                    for y in nz:
                        z = Num(pmul(y.n, {((k, 1),): (1, 0)}), y.d)
                        keys.add(nkey(z))
                        keys.add(nkey(-z))
                    if all(nkey(a) in keys for a in AT.info[k][1] if a.n):
                        return True
        break
    return False


def sqrt(x):
    x = Num.of(x)
    if x.sqof is not None:
        return abs(x.sqof)
    if x.is_const():
        c = x.cval()
        s = csign(c)
        if s < 0:
            raise Unsupported('sqrt of a negative constant')
        r = const_sqrt(c)
        if r is not None:
            return r
    cx = ctx()
    if N.FACTORS and x.d is None and not x.is_const() and all(e > 0 for m in x.n for _, e in m):
        for P, a in N.FACTORS:
            q = {(): (1, 0)} if x.n == P else (N.pdivide(x.n, P) if len(x.n) >= len(P) else None)
            if q is None:
                continue
            r = N.psqrt(q)
            if r is not None:
                return abs(Num(r, None)) * factor_sqrt(a)
    if not x.is_const() and cx.known(cmp_lt(x)) is not False:
        if not sum_of_squares(x):
            if cx.decide(cmp_lt(x)):
                raise DivZero('sqrt of a negative number')
    if x.d is not None:
        # sqrt(n/d) = sqrt(n*d)/|d|
        return sqrt(Num(pmul(x.n, x.d), None)) / abs(Num(x.d, None))
    key = frozen(x.n)
    if key in cx.sqrts:
        return Num.atom(cx.sqrts[key])
    # negative exponents: sqrt(p*a^-2k) handled by leaving the radicand as is
    i = AT.new('sqrt%d' % len(cx.sqrts), 'real', 'nonneg', ('sqrt', x))
    cx.sqrts[key] = i
    AT.sq[i] = x.n
    return Num.atom(i)


def abs_atom(x):
    """|x| as a named value (the same for x and -x)"""
    if x.d is not None:
        return abs(Num(x.n, None)) / abs(Num(x.d, None))
    c = ctx()
    memo = c.__dict__.setdefault('absmemo', {})
    k = min(nkey(x), nkey(-x), key=repr)
    if k not in memo:
        memo[k] = AT.new('abs%d' % len(memo), 'real', 'nonneg', ('abs', x))
    return Num.atom(memo[k])


def factor_sqrt(a):
    """square root of a registered factor with a non-negative sign"""
    cx = ctx()
    if a not in cx.fsq:
        cx.fsq[a] = AT.new('sqrt_%s' % AT.name[a], 'real', 'pos' if AT.sign[a] == 'pos' else 'nonneg', ('sqrt', Num.atom(a)))
        AT.sq[cx.fsq[a]] = [P for P, b in N.FACTORS if b == a][0]
    return Num.atom(cx.fsq[a])


def factor(name, p, sign):
    """name a polynomial: every multiple of it is recognised, its sign is that of the atom"""
    a = AT.new(name, 'real', sign)
    ctx().soft = True           # the atom is not tied to the polynomial: countermodels need a replay to count
    N.FACTORS.append((clear_neg(Num.of(p).n), a))
    return Num.atom(a)


def sum_of_squares(x):
    return bool(getattr(x, 'tag', None) == 'sos')


def const_sqrt(c):
    p, q = c
    if q == 0:
        p = Fraction(p)
        for k in (1, N.D):
            f = p / k
            a = math.isqrt(f.numerator)
            b = math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                r = Fraction(a, b)
                return Num.const((N._r(r), 0) if k == 1 else (0, N._r(r)))
        return None
    # (u+v s)^2 = u^2 + D v^2 + 2uv s
    p = Fraction(p)
    q = Fraction(q)
    disc = p * p - N.D * q * q
    if disc < 0:
        return None
    a, b = math.isqrt(disc.numerator), math.isqrt(disc.denominator)
    if a * a != disc.numerator or b * b != disc.denominator:
        return None
    sd = Fraction(a, b)
    for u2 in ((p + sd) / 2, (p - sd) / 2):
        if u2 <= 0:
            continue
        a, b = math.isqrt(u2.numerator), math.isqrt(u2.denominator)
        if a * a == u2.numerator and b * b == u2.denominator:
            u = Fraction(a, b)
            v = q / (2 * u)
            r = (N._r(u), N._r(v))
            if csign(r) < 0:
                r = (N._r(-u), N._r(-v))
            return Num.const(r)
    return None


# ---------------------------------------------------------------- canonical triples
def unit():
    """the irrational unit: tau=(1+s)/2 for D=5, sin=s/2 for D=3"""
    if N.D == 5:
        return Num.const((Fraction(1, 2), Fraction(1, 2)))
    return Num.const((0, Fraction(1, 2)))


def const_triple(c):
    p, q = c
    if N.D == 5:
        b = 2 * Fraction(q)
        a = Fraction(p) - Fraction(q)
    else:
        b = 2 * Fraction(q)
        a = Fraction(p)
    l = a.denominator * b.denominator // math.gcd(a.denominator, b.denominator)
    A, B, C = a * l, b * l, l
    g = math.gcd(int(A), int(B), int(C))
    return int(A) // g, int(B) // g, int(C) // g


class TripTag:
    __slots__ = ('v', 'i', 'key')

    def __init__(self, v, i, key):
        self.v = v
        self.i = i
        self.key = key


def canon(v):
    """canonical triple (three Nums) of the value v"""
    v = Num.of(v)
    if v.d is None and v.is_const():
        t = const_triple(v.cval())
        key = nkey(v)
        out = []
        for i, x in enumerate(t):
            y = Num.of(x)
            y = Num(y.n, None, True)
            y.trip = TripTag(v, i, key)
            out.append(y)
        return out
    c = ctx()
    key = nkey(v)
    t = c.trips.get(key)
    if t is None:
        n = len(c.trips)
        b = AT.new('B%d' % n, 'int', None, ('tripB', v))
        d = AT.new('D%d' % n, 'int', 'pos', ('tripD', v))
        t = (b, d)
        c.trips[key] = t
    b, d = t
    B = Num.atom(b)
    Dn = Num.atom(d)
    A = v * Dn - unit() * B
    A = Num(A.n, A.d, True)
    out = [A, B, Dn]
    for i, x in enumerate(out):
        x.trip = TripTag(v, i, key)
    return out


def tripval(t):
    """value of a triple of Nums; checks the denominator is non-zero"""
    a, b, c = (Num.of(x) for x in t)
    if a.trip is not None and b.trip is not None and c.trip is not None and a.trip.key == b.trip.key == c.trip.key \
            and (a.trip.i, b.trip.i, c.trip.i) == (0, 1, 2):
        return a.trip.v
    require_nonzero(c, 'denominator')
    if c.is_const() and c.cval() == (1, 0):
        return a + unit() * b
    return (a + unit() * b) * c.inv()


def is_canon_trip(t):
    a, b, c = (Num.of(x) for x in t)
    return (a.trip is not None and b.trip is not None and c.trip is not None and a.trip.key == b.trip.key == c.trip.key
            and (a.trip.i, b.trip.i, c.trip.i) == (0, 1, 2))


def fresh(name, kind='real', sign=None, info=None):
    return Num.atom(AT.new(name, kind, sign, info))


def opaque(name, *args):
    """a named predicate of its arguments, used by callers instead of the formula it stands for"""
    return SymBool('z3', (name,) + args)


def akey(x):
    """hashable key of an array of Nums / triples"""
    import numpy as np
    if isinstance(x, Num):
        return nkey(x)
    if isinstance(x, (list, tuple, np.ndarray)):
        return tuple(akey(y) for y in x)
    return nkey(Num.of(x))


def isconst(x):
    import numpy as np
    if isinstance(x, Num):
        return x.is_const()
    if isinstance(x, (list, tuple, np.ndarray)):
        return all(isconst(y) for y in x)
    return True
