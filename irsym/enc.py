"""Encodings to SMT (z3): order abstraction of doubles, exact doubles, reals."""
import time, math, random
from fractions import Fraction
import z3
from . import terms as t
from .terms import T, INF, NAN
from . import poly as pl

STATS = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0, 'exact': 0, 'max': 0.0}


def run_check(s, ms):
    s.set('timeout', int(ms))
    b = time.time()
    r = s.check()
    d = time.time() - b
    STATS['queries'] += 1
    STATS['time'] += d
    STATS['max'] = max(STATS['max'], d)
    STATS[str(r)] += 1
    return r


BIG = z3.RealVal(2 ** 1024)
NBIG = z3.RealVal(-2 ** 1024)
ZERO = z3.RealVal(0)


def qv(x):
    if x == INF:
        return BIG
    if x == -INF:
        return NBIG
    return z3.RealVal(Fraction(x))


class Abstract:
    """doubles as (place on the real line, is NaN); infinities are +-2^1024.

    Comparisons, selections, negation, absolute value and minimum / maximum are
    exact; the result of +, *, / is any double satisfying facts true of
    IEEE-754 (NaN rules, signs, monotonicity). What is proved with that holds
    for the doubles."""

    def __init__(self):
        self.num = {}      # T id -> (real, nan)
        self.bool = {}
        self.defs = {}     # T id -> list of constraints
        self.sgnv = {}

    # -------------------------------------------------- encoding
    def enc(self, x):
        if type(x) is float:
            if x != x:
                return ZERO, z3.BoolVal(True)
            return qv(x), z3.BoolVal(False)
        return self.num[x.id]

    def walk(self, roots):
        """encode every term below; returns the ids concerned"""
        seen = set()
        stack = [(r, 0) for r in roots if type(r) is T]
        while stack:
            u, done = stack.pop()
            if done:
                if u.id not in self.num and u.id not in self.bool:
                    self.make(u)
                continue
            if u.id in seen:
                continue
            seen.add(u.id)
            stack.append((u, 1))
            for a in u.args:
                if type(a) is T and a.id not in seen:
                    stack.append((a, 0))
        return seen

    def b(self, c):
        if type(c) is int:
            return z3.BoolVal(bool(c))
        return self.bool[c.id]

    def fresh(self, u):
        r = z3.Real('r%d' % u.id)
        n = z3.Bool('n%d' % u.id)
        self.num[u.id] = (r, n)
        d = [r <= BIG, r >= NBIG]
        self.defs[u.id] = d
        return r, n, d

    def make(self, u):
        op = u.op
        A = u.args
        if u.sort == 'b':
            if op == 'not':
                e = z3.Not(self.b(A[0]))
            elif op == 'and':
                e = z3.And(self.b(A[0]), self.b(A[1]))
            elif op == 'nan':
                e = self.enc(A[0])[1]
            elif op in ('flt', 'fle', 'feq'):
                (x, nx), (y, ny) = self.enc(A[0]), self.enc(A[1])
                c = x < y if op == 'flt' else x <= y if op == 'fle' else x == y
                e = z3.And(z3.Not(nx), z3.Not(ny), c)
            elif op == 'sgn':
                x, nx = self.enc(A[0])
                e = z3.Bool('sg%d' % A[0].id)
                self.defs[u.id] = [z3.Implies(z3.And(z3.Not(nx), x < 0), e),
                                   z3.Implies(z3.And(z3.Not(nx), x > 0), z3.Not(e))]
            else:
                e = z3.Bool('b%d' % u.id)
            self.bool[u.id] = e
            return
        if u.sort != 'f':
            self.num[u.id] = None
            return
        if op == 'neg':
            x, n = self.enc(A[0])
            self.num[u.id] = (-x, n)
        elif op == 'abs':
            x, n = self.enc(A[0])
            self.num[u.id] = (z3.If(x < 0, -x, x), n)
        elif op == 'ite':
            c = self.b(A[0])
            (x, n), (y, m) = self.enc(A[1]), self.enc(A[2])
            self.num[u.id] = (z3.If(c, x, y), z3.If(c, n, m))
        elif op == 'cps':
            (x, n), (y, m) = self.enc(A[0]), self.enc(A[1])
            s = z3.Bool('s%d' % u.id)
            ax = z3.If(x < 0, -x, x)
            self.num[u.id] = (z3.If(s, -ax, ax), n)
            self.defs[u.id] = [z3.Implies(z3.And(z3.Not(m), y < 0), s), z3.Implies(z3.And(z3.Not(m), y > 0), z3.Not(s))]
            if type(A[1]) is T:
                # the same sign for the same term
                v = z3.Bool('sg%d' % A[1].id)
                self.defs[u.id].append(v == s)
        elif op == 'sym':
            self.fresh(u)
        elif op == 'add':
            r, n, d = self.fresh(u)
            (x, nx), (y, ny) = self.enc(A[0]), self.enc(A[1])
            d.append(n == z3.Or(nx, ny, z3.And(x == BIG, y == NBIG), z3.And(x == NBIG, y == BIG)))
            ok = z3.Not(n)
            d.append(z3.Implies(ok, z3.And(
                z3.Implies(y >= 0, r >= x), z3.Implies(y <= 0, r <= x),
                z3.Implies(x >= 0, r >= y), z3.Implies(x <= 0, r <= y),
                (r > 0) == (x + y > 0), (r < 0) == (x + y < 0))))
        elif op == 'mul':
            r, n, d = self.fresh(u)
            (x, nx), (y, ny) = self.enc(A[0]), self.enc(A[1])
            ix, iy = z3.Or(x == BIG, x == NBIG), z3.Or(y == BIG, y == NBIG)
            same = A[0] is A[1]
            d.append(n == z3.Or(nx, ny, z3.And(x == 0, iy), z3.And(y == 0, ix)))
            ok = z3.Not(n)
            ax, ay, ar = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y), z3.If(r < 0, -r, r)
            pos = z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0))
            ng = z3.Or(z3.And(x > 0, y < 0), z3.And(x < 0, y > 0))
            d.append(z3.Implies(ok, z3.And(
                z3.Implies(z3.Or(x == 0, y == 0), r == 0),
                z3.Implies(pos, r >= 0), z3.Implies(ng, r <= 0),
                z3.Implies(z3.Or(ix, iy), z3.Or(r == BIG, r == NBIG)),
                z3.Implies(ay <= 1, ar <= ax), z3.Implies(ay >= 1, ar >= ax),
                z3.Implies(ax <= 1, ar <= ay), z3.Implies(ax >= 1, ar >= ay))))
        elif op == 'div':
            r, n, d = self.fresh(u)
            (x, nx), (y, ny) = self.enc(A[0]), self.enc(A[1])
            ix, iy = z3.Or(x == BIG, x == NBIG), z3.Or(y == BIG, y == NBIG)
            d.append(n == z3.Or(nx, ny, z3.And(x == 0, y == 0), z3.And(iy, ix)))
            ok = z3.Not(n)
            ax, ay, ar = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y), z3.If(r < 0, -r, r)
            pos = z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0))
            ng = z3.Or(z3.And(x > 0, y < 0), z3.And(x < 0, y > 0))
            d.append(z3.Implies(ok, z3.And(
                z3.Implies(z3.Or(x == 0, iy), r == 0),
                z3.Implies(pos, r >= 0), z3.Implies(ng, r <= 0),
                z3.Implies(z3.Or(ix, y == 0), z3.Or(r == BIG, r == NBIG)),
                z3.Implies(ay <= 1, ar >= ax), z3.Implies(ay >= 1, ar <= ax))))
        elif op == 'sqrt':
            r, n, d = self.fresh(u)
            x, nx = self.enc(A[0])
            d.append(n == z3.Or(nx, x < 0))
            d.append(z3.Implies(z3.Not(n), z3.And(r >= 0, (r == 0) == (x == 0))))
        elif op == 'rem':
            self.fresh(u)
        else:
            raise NotImplementedError(op)

    def solver(self, cs):
        s = z3.Solver()
        ids = self.walk(cs)
        mons = {}
        for i in ids:
            d = self.defs.get(i)
            if d:
                for x in d:
                    s.add(x)
        for c in cs:
            s.add(self.b(c))
        return s

    def monotone(self, cs):
        """facts about pairs of operations: rounding is monotone"""
        adds, muls = {}, {}
        seen = set()
        stack = [c for c in cs if type(c) is T]
        while stack:
            u = stack.pop()
            if u.id in seen:
                continue
            seen.add(u.id)
            if u.op in ('add', 'mul'):
                for k in (0, 1):
                    a = u.args[k]
                    dd = adds if u.op == 'add' else muls
                    dd.setdefault(t.akey(a), []).append((a, u.args[1 - k], u))
            for a in u.args:
                if type(a) is T:
                    stack.append(a)
        out = []
        for tab, ismul in ((adds, 0), (muls, 1)):
            for l in tab.values():
                l = l[:12]
                for i in range(len(l)):
                    for j in range(i):
                        (a, b, u), (_, c, v) = l[i], l[j]
                        (rb, nb), (rc, nc) = self.enc(b), self.enc(c)
                        (ru, nu), (rv, nv) = self.enc(u), self.enc(v)
                        ok = z3.And(z3.Not(nu), z3.Not(nv))
                        if not ismul:
                            out.append(z3.Implies(ok, z3.And(z3.Implies(rb <= rc, ru <= rv), z3.Implies(rb >= rc, ru >= rv))))
                        else:
                            ra, _ = self.enc(a)
                            out.append(z3.Implies(z3.And(ok, ra >= 0), z3.And(z3.Implies(rb <= rc, ru <= rv), z3.Implies(rb >= rc, ru >= rv))))
                            out.append(z3.Implies(z3.And(ok, ra <= 0), z3.And(z3.Implies(rb <= rc, ru >= rv), z3.Implies(rb >= rc, ru <= rv))))
        return out

    def check(self, cs, ms=3000, lemmas=False):
        cs = [c for c in cs if type(c) is T]
        s = self.solver(cs)
        if lemmas:
            for x in self.monotone(cs):
                s.add(x)
        r = run_check(s, ms)
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
        return 'unknown', None

    def value(self, m, x):
        """double closest to the value of a term in a model"""
        self.walk([x])
        r, n = self.num[x.id]
        if z3.is_true(m.eval(n, model_completion=True)):
            return NAN
        v = m.eval(r, model_completion=True)
        try:
            q = Fraction(v.numerator_as_long(), v.denominator_as_long())
        except Exception:
            return 0.0
        if q >= 2 ** 1024:
            return INF
        if q <= -2 ** 1024:
            return -INF
        try:
            return float(q)
        except OverflowError:
            return 1.7976931348623157e308 if q > 0 else -1.7976931348623157e308

    def truth(self, m, c):
        """True / False / None"""
        self.walk([c])
        v = m.eval(self.b(c), model_completion=True)
        return True if z3.is_true(v) else False if z3.is_false(v) else None


class Exact:
    """IEEE-754 doubles (z3 floating point theory, bit-blasted)"""
    S = z3.FPSort(11, 53)
    RM = z3.RNE()

    def __init__(self):
        self.m = {}

    def enc(self, x):
        if type(x) is float:
            return z3.fpNaN(self.S) if x != x else z3.fpBVToFP(z3.BitVecVal(t.fbits(x), 64), self.S)
        if type(x) is int:
            return z3.BoolVal(bool(x))
        stack = [x]
        while stack:
            u = stack[-1]
            if u.id in self.m:
                stack.pop()
                continue
            miss = [a for a in u.args if type(a) is T and a.id not in self.m]
            if miss:
                stack.extend(miss)
                continue
            stack.pop()
            self.m[u.id] = self.make(u)
        return self.m[x.id]

    def a(self, v):
        if type(v) is T:
            return self.m[v.id]
        return self.enc(v)

    def make(self, u):
        op = u.op
        if op == 'sym':
            return z3.FP('x%d' % u.args[0], self.S)
        A = [self.a(v) for v in u.args]
        if op == 'not':
            return z3.Not(A[0])
        if op == 'and':
            return z3.And(A[0], A[1])
        if op == 'nan':
            return z3.fpIsNaN(A[0])
        if op == 'flt':
            return z3.fpLT(A[0], A[1])
        if op == 'fle':
            return z3.fpLEQ(A[0], A[1])
        if op == 'feq':
            return z3.fpEQ(A[0], A[1])
        if op == 'sgn':
            return z3.If(z3.fpIsNaN(A[0]), z3.Bool('ns%d' % u.args[0].id), z3.fpIsNegative(A[0]))
        if op == 'neg':
            return z3.fpNeg(A[0])
        if op == 'abs':
            return z3.fpAbs(A[0])
        if op == 'add':
            return z3.fpAdd(self.RM, A[0], A[1])
        if op == 'mul':
            return z3.fpMul(self.RM, A[0], A[1])
        if op == 'div':
            return z3.fpDiv(self.RM, A[0], A[1])
        if op == 'sqrt':
            return z3.fpSqrt(self.RM, A[0])
        if op == 'ite':
            return z3.If(A[0], A[1], A[2])
        if op == 'cps':
            sg = z3.If(z3.fpIsNaN(A[1]), z3.Bool('ns%d' % (u.args[1].id if type(u.args[1]) is T else 0)), z3.fpIsNegative(A[1]))
            return z3.If(sg, z3.fpNeg(z3.fpAbs(A[0])), z3.fpAbs(A[0]))
        raise NotImplementedError(op)

    def check(self, cs, ms):
        s = z3.SolverFor('QF_FP')
        try:
            for c in cs:
                if type(c) is T:
                    s.add(self.enc(c))
        except NotImplementedError:
            return 'unknown', None
        STATS['exact'] += 1
        r = run_check(s, ms)
        return str(r), (s.model() if r == z3.sat else None)

    def value(self, m, x):
        v = m.eval(self.enc(x), model_completion=True)
        if z3.is_true(z3.simplify(z3.fpIsNaN(v))):
            return NAN
        b = z3.simplify(z3.fpToIEEEBV(v))
        return t.bitsf(b.as_long())


class Reals:
    """polynomial atoms over the rationals"""

    def __init__(self):
        self.m = {}
        self.vars = {}
        self.polys = {}

    def var(self, v):
        x = self.vars.get(v)
        if x is None:
            x = self.vars[v] = z3.Real('x%d' % v)
        return x

    def poly(self, p):
        k = pl.pkey(p)
        e = self.polys.get(k)
        if e is None:
            ts = []
            for m, c in p.items():
                fs = [z3.RealVal(c)] if c != 1 or not m else []
                for v, n in m:
                    fs += [self.var(v)] * n
                ts.append(fs[0] if len(fs) == 1 else z3.Product(fs))
            e = ts[0] if len(ts) == 1 else z3.Sum(ts)
            self.polys[k] = e
        return e

    def enc(self, c):
        if type(c) is int:
            return z3.BoolVal(bool(c))
        r = self.m.get(c.id)
        if r is None:
            if c.op == 'not':
                r = z3.Not(self.enc(c.args[0]))
            elif c.op == 'and':
                r = z3.And(self.enc(c.args[0]), self.enc(c.args[1]))
            elif c.op == 'rneg':
                r = self.poly(c.aux) < 0
            elif c.op == 'rzero':
                r = self.poly(c.aux) == 0
            else:
                raise NotImplementedError(c.op)
            self.m[c.id] = r
        return r

    def check(self, cs, ms=3000, lemmas=False):
        cs = [c for c in cs if type(c) is T]
        s = z3.Solver()
        for c in cs:
            s.add(self.enc(c))
        r = run_check(s, ms)
        return str(r), (s.model() if r == z3.sat else None)

    def truth(self, m, c):
        v = m.eval(self.enc(c), model_completion=True)
        return True if z3.is_true(v) else False if z3.is_false(v) else None
