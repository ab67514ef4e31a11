"""Loop rule for sequences of symbolic length (see seq.py); loops over plain iterables run unchanged.

A loop over a symbolic length is executed once, at the arbitrary index of that length:
  * element-wise writes (a[i] = ... at exactly the loop index) are exact: no other iteration touches that slot;
  * a variable x that every iteration turns into x + t(i), t independent of x, leaves the loop as x0 + sum_i t(i)
    (checked on the executed body with x replaced by an arbitrary value; no decision may have been taken about the element);
  * a matrix that every iteration multiplies by the same A (x <- x A or A x) leaves the loop as x0 A^n (A^n opaque, determined by A, n);
  * a counter (x += c once per iteration) is x0 + c*i inside and x0 + c*n after the loop;
  * a list built by append becomes a sequence; when a decision was taken, the sequence of the selected elements;
  * `break` on a decision: either the element is one for which the loop stops, or the loop never stops (and the decision is
    known to be false of the arbitrary element);
  * every other variable assigned in the body is unusable afterwards, any other mutation makes the function unsupported.
"""
import ast
import itertools
import numpy as np
from . import num as N, logic, arr, seq, text
from .num import Num, Unsupported, AT
from .arr import SymArr, mk

KNT = itertools.count()


class Poison:
    """value of a variable that depends on the last iteration"""
    def __init__(self, name):
        object.__setattr__(self, 'nm', name)

    def _bad(self, *a, **k):
        raise Unsupported('variable %s after a loop of symbolic length' % object.__getattribute__(self, 'nm'))

    def __getattribute__(self, n):
        if n in ('__class__', '__dict__'):
            return object.__getattribute__(self, n)
        raise Unsupported('variable %s after a loop of symbolic length' % object.__getattribute__(self, 'nm'))

    __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = __call__ = __index__ = __int__ = __float__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _bad
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __mod__ = __str__ = __repr__ = __format__ = _bad
    __hash__ = None
    __array_ufunc__ = None


def is_poison(x):
    return type(x) in (Poison, Grown)


# ---------------------------------------------------------------------------- rewriting
def stores(stmts):
    """names bound anywhere in the statements (not in nested functions)"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)

        def visit_FunctionDef(self, n):
            out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    for s in stmts:
        V().visit(s)
    return out


def appends(stmts):
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ('append', 'extend', 'insert'):
                out.append(n.func.value.id)
    return out


def has_continue(stmts):
    for s in stmts:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if has_continue(getattr(s, f, []) or []):
                return True
        for h in getattr(s, 'handlers', []):
            if has_continue(h.body):
                return True
    return False


def has_break(stmts):
    for s in stmts:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if has_break(getattr(s, f, []) or []):
                return True
        for h in getattr(s, 'handlers', []):
            if has_break(h.body):
                return True
    return False


def free_stores(stmts, stops):
    """names bound on some way through the body that does not end with break"""
    if stmts and isinstance(stmts[-1], ast.Break) and not has_continue(stmts):
        return []
    out = []
    for s in stmts:
        if isinstance(s, ast.If):
            out += stores([ast.Expr(s.test)])
            out += free_stores(s.body, stops) + free_stores(s.orelse, stops)
        else:
            out += stores([s])
    return out


def rewrite_for(node, local):
    body_names = stores(node.body)
    tnames = stores([ast.Expr(node.target)])
    mod = sorted(n for n in set(body_names) - set(tnames) if not n.startswith('__L'))
    app = sorted(set(appends(node.body)) - set(mod) - set(tnames))
    outer = sorted(n for n in app if n not in local and n not in ('np', 'numpy'))       # a list of an enclosing scope
    app = [n for n in app if n in local]
    counters = {}
    if not has_continue(node.body):
        for s in node.body:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)) \
                    and isinstance(s.value, ast.Constant) and type(s.value.value) is int and body_names.count(s.target.id) == 1:
                counters[s.target.id] = s.value.value if isinstance(s.op, ast.Add) else -s.value.value
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and body_names.count(s.targets[0].id) == 1:
                v = s.value
                if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == s.targets[0].id \
                        and isinstance(v.right, ast.Constant) and type(v.right.value) is int:
                    counters[v.left.id] = v.right.value
    br = has_break(node.body)
    free = set(free_stores(node.body, False))
    bronly = sorted(n for n in mod if n not in free) if br else []
    L = '__L%d' % next(KNT)
    names = mod + app

    def load(n):
        return ast.Name(n, ast.Load())
    cond = ast.Attribute(load(L), 'sym', ast.Load())
    mk_ = ast.Assign([ast.Name(L, ast.Store())], ast.Call(load('__loop__'), [node.iter, ast.Constant(tuple(mod)), ast.Constant(tuple(app)),
                     ast.Constant(tuple(sorted(counters.items()))), ast.Constant(tuple(tnames)), ast.Constant(br), ast.Constant(tuple(bronly)), ast.Constant(tuple(outer))], []))

    def call(meth, *args):
        return ast.Call(ast.Attribute(load(L), meth, ast.Load()), list(args), [])
    loc = ast.Call(load('locals'), [], [])
    enter = [ast.Expr(call('enter', loc))] + [ast.Assign([ast.Name(n, ast.Store())], call('get', ast.Constant(n))) for n in mod]
    leave = [ast.Expr(call('leave', loc))] + [ast.Assign([ast.Name(n, ast.Store())], call('get', ast.Constant(n))) for n in names + sorted(set(tnames))]
    out = [mk_, ast.If(cond, enter, []), ast.For(node.target, load(L), node.body, []), ast.If(cond, leave, [])]
    if not names and not tnames:
        out[3] = ast.If(cond, [ast.Expr(call('leave', loc))], [])
    for o in out:
        ast.copy_location(o, node)
        ast.fix_missing_locations(o)
    return out


def forks(c):
    return sum(1 for t in c.trail if t is True or t is False)


class Loop:
    def __init__(self, it, mod, app, counters, tnames, br, bronly, outer=()):
        self.it = it
        self.sym = hasattr(it, 'sym_group') and bool(seq.gdims(it.sym_group()))
        if not self.sym:
            return
        if outer:
            raise Unsupported('list %s of an enclosing scope' % outer[0])
        self.mod, self.app, self.counters, self.tnames = mod, app, dict(counters), tnames
        self.has_break, self.bronly = br, bronly
        self.vals = {}
        self.broke = False
        self.done = False

    def __iter__(self):
        if not self.sym:
            return iter(self.it)
        return self.once()

    # ------------------------------------------------------------ symbolic
    def enter(self, loc):
        c = logic.ctx()
        self.c = c
        seq.dims()
        self.g = self.it.sym_group()
        self.ds = seq.gdims(self.g)
        if len(self.ds) != 1:
            raise Unsupported('loop over a product of symbolic lengths')
        d = self.d = self.ds[0]
        rt = seq.roots(d)
        if any(rt & seq.roots(x) for x in c.active):
            raise Unsupported('nested loops over the same symbolic length')
        self.rep = isinstance(d, seq.RepDim)
        if self.rep and self.g != d.group:
            raise Unsupported('loop over a part of the representatives')
        if any(x.spent for x in rt):
            raise Unsupported('loop over a length after an early exit')
        c.active.append(d)
        c.loops.append(self)
        self.forks0 = forks(c)
        self.kcount = seq.glen(self.g)
        self.dfirst = self.g[0] is d
        self.init = {n: loc[n] for n in self.mod + self.app if n in loc}
        self.hav = {}
        self.files = {k: len(v) for k, v in getattr(c, 'world').fs.items()} if getattr(c, 'world', None) is not None else {}
        self.snap = [(n, v, snapshot(v, d)) for n, v in loc.items() if not n.startswith('__L')]
        for n in self.mod:
            if n not in loc:
                self.vals[n] = Poison(n)
                continue
            v = loc[n]
            if n in self.bronly:
                self.vals[n] = v            # no earlier iteration has changed it
                continue
            if n in self.counters and not self.has_break and not self.rep and self.dfirst and isinstance(v, (int, np.integer, Num)) and not isinstance(v, bool):
                e = Num.of(v) + d.i * (self.counters[n] * self.kcount)
                self.vals[n] = Num(e.n, e.d, True)
                self.hav[n] = ('counter', self.vals[n])
                continue
            h = havoc(n, v, c)
            if h is None:
                self.vals[n] = Poison(n)
            else:
                self.hav[n] = ('fold',) + h
                self.vals[n] = h[0]

    def get(self, n):
        return self.vals[n]

    def once(self):
        d = self.d
        if d.parent is not None and not d.present:
            # the arbitrary element was not selected: no iteration concerns it
            self.skipped = True
            return
        self.skipped = False
        try:
            for k, idx, e in seq.positions(self.g):
                self.cur = e
                yield self.it.sym_item(idx, e)
            self.done = True
        except GeneratorExit:
            self.broke = True
            raise

    def leave(self, loc):
        c = self.c
        d = self.d
        if not c.loops or c.loops[-1] is not self:
            raise Unsupported('loop left by return or exception')
        c.loops.pop()
        c.active.remove(d)
        forked = forks(c) > self.forks0
        if forked:
            for x in seq.roots(d):
                x.forked = True
            if self.rep and self.has_break:
                raise Unsupported('early exit from a loop over representatives')
        if self.broke:
            if not forked:
                raise Unsupported('unconditional break')
            d.spent = 'exit'
        elif self.has_break and forked:
            d.spent = 'none'
        for n, v, s in self.snap:
            if n in self.app and isinstance(v, list):
                continue
            if not unchanged(v, s):
                raise Unsupported('%s is modified by a loop of symbolic length' % n)
        self.leave_files(forked)
        out = {}
        for n in self.app:
            out[n] = self.leave_list(n, loc[n], forked)
        for n in self.mod:
            new = loc.get(n)
            h = self.hav.get(n)
            if self.skipped:
                out[n] = Poison(n)
                if h is not None and h[0] == 'counter':
                    out[n] = self.after_counter(n)
                continue
            if isinstance(new, Grown):
                out[n] = self.after_grow(n, new, forked)
                continue
            if self.has_break and forked:
                # stopped: the values at the iteration that stops;  never stopped: what only a stopping iteration binds is unchanged
                if n in self.bronly:
                    out[n] = new if self.broke else self.init[n] if n in self.init else Poison(n)
                else:
                    out[n] = Poison(n)
                continue
            if h is None:
                out[n] = Poison(n)
            elif h[0] == 'counter':
                e = h[1] + self.counters[n] * self.kcount
                if not isinstance(new, (int, Num)) or not seq.same(new, e):
                    raise Unsupported('counter %s' % n)
                out[n] = self.after_counter(n)
            else:
                out[n] = self.after_fold(n, h, new, d, forked)
        for n in self.tnames:
            out[n] = Poison(n)
        self.vals = out

    def leave_files(self, forked):
        fs = self.c.world.fs if getattr(self.c, 'world', None) is not None else {}
        for k, parts in fs.items():
            k0 = self.files.get(k)
            if k0 is None or len(parts) < k0:
                raise Unsupported('file opened in a loop of symbolic length')
            new = parts[k0:]
            if new:
                if forked or self.broke or self.skipped or self.rep or self.d.parent is not None or not self.dfirst:
                    raise Unsupported('file written by a loop with decisions')
                parts[k0:] = [text.Block(self.d, new)]

    def after_grow(self, n, new, forked):
        """an array started at the first iteration and extended by np.append (flat) at the others"""
        if new.loop is not self or forked or self.rep or self.d.parent is not None or not self.dfirst or len(new.items) != self.kcount:
            return Poison(n)
        its = [arr.arr_from(x).reshape(-1) for x in new.items]
        k = its[0].shape[0]
        if any(x.shape != (k,) or x.tag != its[0].tag for x in its):
            return Poison(n)
        g = self.g + (k,)
        b = np.concatenate([x.view(np.ndarray) for x in its]).reshape([1 if isinstance(f, seq.Dim) else f for f in g])
        return seq.SymSeq(mk(b, its[0].tag), [g])

    def after_counter(self, n):
        e = Num.of(self.init[n]) + self.counters[n] * seq.gsize(self.g)
        return Num(e.n, e.d, True)

    def after_fold(self, n, h, new, d, forked):
        _, g, gv, kind = h
        if identical(new, g):
            return self.init[n] if not d.forked else Poison(n)
        if isinstance(new, seq.MaxAcc):
            if forked or d.forked or kind != 'scalar' or new.acc is not g:
                return Poison(n)
            try:
                return seq.bigmax(self.init[n], new.vals, self.g)
            except Unsupported:
                return Poison(n)
        if d.forked or d.parent is not None or self.rep:
            return Poison(n)
        try:
            nv = values(new, kind)
        except Unsupported:
            return Poison(n)
        if nv is None or nv.shape != gv.shape:
            return Poison(n)
        iv = values(self.init[n], kind)
        out = np.empty(gv.shape, dtype=object)
        gat = {k for x in gv.reshape(-1) for m in x.n for k, _ in m}
        for idx in np.ndindex(*gv.shape):
            t = Num.of(nv[idx]) - gv[idx]
            dd = seq.deps(t)
            if any(not isinstance(z, seq.Dim) for z in dd):
                r = recurrence(nv, gv, iv, d, len(self.g)) if kind == 'floats' else None
                return Poison(n) if r is None else rebuild(r, kind, self.init[n])
            out[idx] = iv[idx] + seq.bigsum(d, t)
        return rebuild(out, kind, self.init[n])

    def leave_list(self, n, lst, forked):
        init = self.init.get(n)
        if not isinstance(lst, list) or lst is not init:
            raise Unsupported('list %s' % n)
        s = next(s for m, v, s in self.snap if v is lst)
        k0 = len(s)
        if len(lst) < k0 or any(a is not b for a, b in zip(lst, s)):
            raise Unsupported('list %s is modified' % n)
        added = lst[k0:]
        c = self.c
        if self.skipped:
            raise Unsupported('list built over selected elements')
        if not added and not forked:
            return lst
        if k0:
            raise Unsupported('append to a non-empty list in a loop of symbolic length')
        if self.rep and forked:
            raise Unsupported('selection of representatives')
        if self.broke or self.d.spent:
            raise Unsupported('append in a loop with an early exit')
        lst.append(Poison(n))
        if not forked:
            if len(added) == self.kcount:
                return seq.SymList(self.g, added)
            if self.dfirst and len(added) % self.kcount == 0 and len(self.g) == 1 and not self.rep:
                g = (self.d, len(added))
                c.groups.append(g)
                return seq.SymList(g, added)
            raise Unsupported('list %s' % n)
        if len(self.g) != 1 or len(added) > 1:
            raise Unsupported('selection of several elements per iteration')
        sub = seq.Dim('sel%d_%s' % (len(c.__dict__.setdefault('subdims', [])), self.d.name), 0, self.d)
        sub.present = bool(added)
        sub.forked = True
        c.subdims.append(sub)
        return seq.SymList((sub,), added)


def recurrence(nv, gv, iv, d, k):
    """x <- x A (or A x) with a matrix A that does not depend on the iteration: x0 A^n (or A^n x0)"""
    if k != 1 or gv.ndim != 2 or gv.shape[0] != gv.shape[1]:
        return None
    n = gv.shape[0]
    atoms = {next(iter(x.n))[0][0]: idx for idx, x in np.ndenumerate(gv)}

    def coef(x, at):
        """coefficient of the accumulator entry `at` in x (x linear in the accumulator)"""
        x = Num.of(x)
        if isinstance(x, N.AbsNum) or (x.d is not None and any(k in atoms for m in x.d for k, _ in m)):
            return None
        out = {}
        for m, cc in x.n.items():
            if any(k == at for k, _ in m):
                if dict(m)[at] != 1:
                    return None
                out[tuple(t for t in m if t[0] != at)] = cc
        return Num(out, None) if x.d is None else Num(out, None) / Num(x.d, None)
    key = {idx: k for k, idx in atoms.items()}
    for right in (True, False):
        A = np.empty((n, n), dtype=object)
        for a in range(n):
            for b in range(n):
                A[a, b] = coef(nv[0, b], key[(0, a)]) if right else coef(nv[a, 0], key[(b, 0)])
        if any(x is None for x in A.reshape(-1)) or any(d in dd or any(not isinstance(z, seq.Dim) for z in dd) for dd in (seq.deps(x) for x in A.reshape(-1))):
            continue
        ok = True
        for i, j in np.ndindex(n, n):
            e = sum((gv[i, t] * A[t, j] if right else A[i, t] * gv[t, j] for t in range(n)), Num.of(0))
            z = Num.of(nv[i, j]) - e
            ok = ok and not z.n
        if ok:
            P = seq.matpow(A, d.n)
            out = np.empty((n, n), dtype=object)
            for i, j in np.ndindex(n, n):
                out[i, j] = sum((iv[i, t] * P[t, j] if right else P[i, t] * iv[t, j] for t in range(n)), Num.of(0))
            return out
    return None


def identical(a, b):
    return a is b


def havoc(n, v, c):
    """arbitrary value of the kind of v: (value, array of Num values, kind) or None"""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return None
    if isinstance(v, (int, float, np.integer, np.floating, Num)):
        g = logic.fresh('acc_' + n, 'real', None, ('havoc', 'acc'))
        return g, np.array([g], dtype=object), 'scalar'
    if isinstance(v, SymArr):
        if v.tag in ('int', 'int?') and v.ndim >= 1 and v.shape[-1] == 3:
            rows = v.view(np.ndarray).reshape(-1, 3)
            if all(canonical(t) for t in rows):
                out = np.empty(rows.shape, dtype=object)
                gv = np.empty(len(rows), dtype=object)
                for i in range(len(rows)):
                    gv[i] = logic.fresh('acc_%s%d' % (n, i), 'real', None, ('havoc', 'acc'))
                    for j, x in enumerate(logic.canon(gv[i])):
                        out[i, j] = x
                return mk(out.reshape(v.shape), 'int'), gv.reshape(v.shape[:-1]), 'trips'
            return None
        if v.tag == 'float' and v.size < 50:
            gv = np.empty(v.shape, dtype=object)
            for idx in np.ndindex(*v.shape):
                gv[idx] = logic.fresh('acc_%s' % n, 'real', None, ('havoc', 'acc'))
            return mk(gv.copy(), 'float'), gv, 'floats'
    return None


def canonical(t):
    if logic.is_canon_trip(t):
        return True
    xs = [arr.N_(x) for x in t]
    if all(x.is_const() for x in xs):
        import math
        k = [int(x.cval()[0]) for x in xs]
        return k[2] > 0 and math.gcd(*k) == 1
    return False


def values(v, kind):
    if is_poison(v):
        return None
    if kind == 'scalar':
        if isinstance(v, (int, float, np.integer, np.floating, Num)) and not isinstance(v, bool):
            return np.array([Num.of(v)], dtype=object)
        return None
    if not isinstance(v, SymArr):
        return None
    if kind == 'floats':
        return v.view(np.ndarray)
    if v.ndim < 1 or v.shape[-1] != 3:
        return None
    rows = v.view(np.ndarray).reshape(-1, 3)
    if not all(canonical(t) for t in rows):
        return None
    out = np.empty(len(rows), dtype=object)
    for i, t in enumerate(rows):
        out[i] = logic.tripval(t)
    return out.reshape(v.shape[:-1])


def rebuild(vals, kind, init):
    if kind == 'scalar':
        return vals[0]
    if kind == 'floats':
        return mk(vals, 'float')
    out = np.empty(vals.shape + (3,), dtype=object)
    for idx in np.ndindex(*vals.shape):
        for j, x in enumerate(logic.canon(vals[idx])):
            out[idx + (j,)] = x
    return mk(out, 'int')


def snapshot(v, d):
    if isinstance(v, seq.SymSeq):
        if any(f is d or (isinstance(f, seq.Dim) and (f.parent is d or d.parent is f)) for g in v.groups for f in g):
            return None
        return list(v.buf.view(np.ndarray).reshape(-1))
    if isinstance(v, np.ndarray):
        return list(v.view(np.ndarray).reshape(-1)) if v.dtype == object else v.tobytes()
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return list(v.items())
    if isinstance(v, set):
        return set(v)
    return None


def unchanged(v, s):
    if s is None:
        return True
    if isinstance(v, seq.SymSeq):
        now = list(v.buf.view(np.ndarray).reshape(-1))
    elif isinstance(v, np.ndarray):
        if v.dtype != object:
            return v.tobytes() == s
        now = list(v.view(np.ndarray).reshape(-1))
    elif isinstance(v, list):
        now = v
    elif isinstance(v, dict):
        return len(v) == len(s) and all(a is c and b is d_ for (a, b), (c, d_) in zip(v.items(), s))
    else:
        return v == s
    return len(now) == len(s) and all(a is b for a, b in zip(now, s))


def rewrite_max(node):
    """if a > x: x = a   (no other branch)   ->   x = __maxstep__(x, a)"""
    t = node.test
    if len(node.body) != 1 or any(not isinstance(s, ast.Pass) for s in node.orelse) or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    s = node.body[0]
    if not isinstance(s, ast.Assign) or len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name):
        return None
    x = s.targets[0].id
    a, b = t.left, t.comparators[0]
    if isinstance(t.ops[0], (ast.Lt, ast.LtE)):
        a, b = b, a
    elif not isinstance(t.ops[0], (ast.Gt, ast.GtE)):
        return None
    if not isinstance(b, ast.Name) or b.id != x or not isinstance(a, ast.Name) or not isinstance(s.value, ast.Name) or s.value.id != a.id or a.id == x:
        return None
    r = ast.Assign([ast.Name(x, ast.Store())], ast.Call(ast.Name('__maxstep__', ast.Load()), [ast.Name(x, ast.Load()), a], []))
    return ast.fix_missing_locations(ast.copy_location(r, node))


class Grown(Poison):
    """array grown by a loop of symbolic length, inside the loop"""
    def __init__(self, loop, items):
        object.__setattr__(self, 'nm', 'grown')
        object.__setattr__(self, 'loop', loop)
        object.__setattr__(self, 'items', items)

    def __getattribute__(self, n):
        return object.__getattribute__(self, n)


def grow(i, first, old, start, more):
    """if i == first: x = start() else: x = more(), where more() appends start() to x"""
    c = logic.ctx()
    L = c.loops[-1] if getattr(c, 'loops', None) else None
    if L is not None and isinstance(i, Num) and not i.is_const():
        if not seq.same(i - first, L.cur):
            raise Unsupported('start of a growing array')
        try:
            o = old()
        except NameError:
            o = None
        return Grown(L, (o.items if isinstance(o, Grown) and o.loop is L else []) + [start()])
    return start() if i == first else more()


def rewrite_grow(node):
    """if i == c: x = np.array(E) else: x = np.append(x, E)"""
    t = node.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant)):
        return None
    if len(node.body) != 1 or len(node.orelse) != 1 or not all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) for s in node.body + node.orelse):
        return None
    a, b = node.body[0], node.orelse[0]
    x, v = a.targets[0].id, b.value
    if b.targets[0].id != x or not (isinstance(v, ast.Call) and ast.dump(v.func) == ast.dump(ast.parse('np.append', mode='eval').body) and len(v.args) == 2 and not v.keywords
                                    and isinstance(v.args[0], ast.Name) and v.args[0].id == x):
        return None
    e = ast.dump(v.args[1])
    w = a.value
    if ast.dump(w) != e and not (isinstance(w, ast.Call) and ast.dump(w.func) == ast.dump(ast.parse('np.array', mode='eval').body) and len(w.args) == 1 and ast.dump(w.args[0]) == e):
        return None

    def lam(e):
        return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
    r = ast.Assign([ast.Name(x, ast.Store())], ast.Call(ast.Name('__grow__', ast.Load()), [t.left, t.comparators[0], lam(ast.Name(x, ast.Load())), lam(w), lam(v)], []))
    return ast.fix_missing_locations(ast.copy_location(r, node))


def rewrite_readlines(node, local):
    """while 1: a = f.readline(); if not a: break; L.append(E(a))   ->   L = __collect__(L, f, lambda a: E(a))"""
    b = node.body
    if not (isinstance(node.test, ast.Constant) and node.test.value and len(b) == 3 and not node.orelse):
        return None
    s, i, p = b
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) and not s.value.args and not s.value.keywords
            and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'readline' and isinstance(s.value.func.value, ast.Name)):
        return None
    a, f = s.targets[0].id, s.value.func.value.id
    if not (isinstance(i, ast.If) and not i.orelse and len(i.body) == 1 and isinstance(i.body[0], ast.Break)
            and ast.unparse(i.test) in ('not ' + a, a + " == ''", 'len(%s) == 0' % a)):
        return None
    if not (isinstance(p, ast.Expr) and isinstance(p.value, ast.Call) and isinstance(p.value.func, ast.Attribute) and p.value.func.attr == 'append'
            and isinstance(p.value.func.value, ast.Name) and len(p.value.args) == 1):
        return None
    L, e = p.value.func.value.id, p.value.args[0]
    if L not in local or any(isinstance(x, ast.Name) and (x.id in (L, f) or isinstance(x.ctx, ast.Store)) for x in ast.walk(e)):
        return None
    lam = ast.Lambda(ast.arguments([], [ast.arg(a)], None, [], [], None, []), e)
    r = ast.Assign([ast.Name(L, ast.Store())], ast.Call(ast.Name('__collect__', ast.Load()), [ast.Name(L, ast.Load()), ast.Name(f, ast.Load()), lam], []))
    return ast.fix_missing_locations(ast.copy_location(r, node))


BUILTINS = {'__grow__': grow, '__collect__': text.collect, '__loop__': Loop, '__maxstep__': seq.maxstep}
