"""Arithmetic domains of the numbers met during the execution.

FP:   IEEE-754 doubles, terms kept as they are built
Real: exact arithmetic over the rationals, normal form of rational functions;
      comparisons, absolute values and selections split the paths
"""
import math
from fractions import Fraction
from . import terms as t
from .terms import T, INF, NAN
from . import poly as pl


class Excluded(Exception):
    """path outside of what the domain covers (e.g. a division by zero over the reals)"""


class FP:
    name = 'fp'

    def sym(self, st, i):
        return t.sym(i)

    def add(self, st, a, b):
        return t.fadd(a, b)

    def sub(self, st, a, b):
        return t.fsub(a, b)

    def mul(self, st, a, b):
        return t.fmul(a, b)

    def div(self, st, a, b):
        return t.fdiv(a, b)

    def rem(self, st, a, b):
        return t.frem(a, b)

    def neg(self, st, a):
        return t.fneg(a)

    def abs(self, st, a):
        return t.fabs_(a)

    def cps(self, st, a, b):
        return t.fcps(a, b)

    def sqrt(self, st, a):
        return t.fsqrt(a)

    def cmp(self, st, pred, a, b):
        return t.fcmp(pred, a, b)

    def select(self, st, c, a, b):
        return t.fite(c, a, b)

    def minmax(self, st, a, b, mx):
        # IEEE minimumNumber: a NaN operand is ignored
        if mx:
            r = t.fite(t.flt(a, b), b, a)
        else:
            r = t.fite(t.flt(b, a), b, a)
        return t.fite(t.fnan(a), b, t.fite(t.fnan(b), a, r))


class Real:
    name = 'real'

    def wrap(self, r):
        if not r.num:
            return 0.0
        if not r.den and pl.isconst(r.num):
            c = r.num[pl.ONE]
            try:
                f = float(c)
            except OverflowError:
                f = 0.0
            if Fraction(f) == c:
                return f
        x = t.mk('rf', 'f', r.key())
        x.aux = r
        return x

    def rf(self, a):
        if type(a) is float:
            return pl.RF(pl.pconst(Fraction(a)), {})
        return a.aux

    def sym(self, st, i):
        return self.wrap(pl.RF(pl.pvar(i), {}))

    def special(self, a):
        return type(a) is float and (a != a or a in (INF, -INF))

    def add(self, st, a, b):
        if self.special(a) or self.special(b):
            if type(a) is float and type(b) is float:
                return a + b
            return a if type(a) is float else b
        return self.wrap(pl.radd(self.rf(a), self.rf(b)))

    def neg(self, st, a):
        if type(a) is float:
            return -a
        return self.wrap(pl.rneg(self.rf(a)))

    def sub(self, st, a, b):
        return self.add(st, a, self.neg(st, b))

    def sgn(self, st, a):
        """-1, 0, 1 (splits the path)"""
        if type(a) is float:
            return (a > 0) - (a < 0)
        if st.decide(self.zero(a)):
            return 0
        return -1 if st.decide(self.negative(a)) else 1

    def mul(self, st, a, b):
        if self.special(b):
            a, b = b, a
        if self.special(a):
            if type(b) is float:
                return a * b
            if a != a:
                return NAN
            s = self.sgn(st, b)
            return a * s if s else NAN
        return self.wrap(pl.rmul(self.rf(a), self.rf(b)))

    def div(self, st, a, b):
        if self.special(b):
            if b != b or self.special(a):
                return NAN
            return 0.0
        s = 1
        if type(b) is not float or b == 0.0:
            z = 1 if type(b) is float else st.decide(self.zero(b))
            if z:
                raise Excluded('division by zero over the reals')
        if self.special(a):
            return a * self.sgn(st, b)
        return self.wrap(pl.rmul(self.rf(a), pl.rinv(self.rf(b))))

    def rem(self, st, a, b):
        if type(a) is float and type(b) is float:
            return t.frem(a, b)
        raise Excluded('remainder over the reals')

    def abs(self, st, a):
        if type(a) is float:
            return abs(a)
        return self.neg(st, a) if st.decide(self.negative(a)) else a

    def cps(self, st, a, b):
        m = self.abs(st, a)
        if type(b) is float:
            return m if math.copysign(1.0, b) > 0 else self.neg(st, m)
        return self.neg(st, m) if st.decide(self.negative(b)) else m

    def sqrt(self, st, a):
        if type(a) is float and a >= 0 and math.isqrt(int(a)) ** 2 == a:
            return math.sqrt(a)
        raise Excluded('square root over the reals')

    # atoms on primitive polynomials
    def pneg(self, p):
        x = t.mk('rneg', 'b', pl.pkey(p))
        x.aux = p
        return x

    def pzero(self, p):
        x = t.mk('rzero', 'b', pl.pkey(p))
        x.aux = p
        return x

    def zero(self, a):
        if type(a) is float:
            return 1 if a == 0 else 0
        r = self.rf(a)
        _, odd, zero = pl.sign_poly(r)
        c = 0
        for p in zero:
            c = t.bor(c, self.pzero(p))
        return c

    def negative(self, a):
        if type(a) is float:
            return 1 if a < 0 else 0
        r = self.rf(a)
        s, odd, zero = pl.sign_poly(r)
        neg = 1 if s < 0 else 0
        for p in odd:
            neg = t.bxor(neg, self.pneg(p))
        nz = 1
        for p in zero:
            nz = t.band(nz, t.bnot(self.pzero(p)))
        return t.band(neg, nz)

    def cmp(self, st, pred, a, b):
        if pred in ('true', 'false'):
            return 1 if pred == 'true' else 0
        if self.special(a) or self.special(b):
            # a real number compares like 0 with the special values
            x = a if type(a) is float else 0.0
            y = b if type(b) is float else 0.0
            return t.fcmp(pred, x, y)
        if pred == 'uno':
            return 0
        if pred == 'ord':
            return 1
        p = pred[1:]
        d = self.sub(st, a, b)
        if p == 'eq':
            return self.zero(d)
        if p == 'ne':
            return t.bnot(self.zero(d))
        if p == 'lt':
            return self.negative(d)
        if p == 'ge':
            return t.bnot(self.negative(d))
        d = self.neg(st, d)
        if p == 'gt':
            return self.negative(d)
        return t.bnot(self.negative(d))

    def select(self, st, c, a, b):
        if a is b:
            return a
        return a if st.decide(c) else b

    def minmax(self, st, a, b, mx):
        if type(a) is float and a != a:
            return b
        if type(b) is float and b != b:
            return a
        c = self.cmp(st, 'olt', a, b)
        return self.select(st, c, b if mx else a, a if mx else b)
