"""Multivariate polynomials over Q and rational functions in normal form."""
from fractions import Fraction
from math import gcd

# polynomial: dict {monomial: Fraction}, monomial: tuple of (variable, exponent), sorted
ONE = ()


def pconst(c):
    return {ONE: Fraction(c)} if c != 0 else {}


def pvar(v):
    return {((v, 1),): Fraction(1)}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def padd(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + k * c
        if x == 0:
            r.pop(m, None)
        else:
            r[m] = x
    return r


class TooBig(Exception):
    pass


LIMIT = 40000


def pmul(a, b):
    if len(a) * len(b) > 4000000:
        raise TooBig()
    if len(a) == 1 and ONE in a:
        k = a[ONE]
        return {m: c * k for m, c in b.items()} if k != 1 else b
    if len(b) == 1 and ONE in b:
        return pmul(b, a)
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            x = mmul(m, n)
            r[x] = r.get(x, 0) + c * d
    r = {m: c for m, c in r.items() if c != 0}
    if len(r) > LIMIT:
        raise TooBig()
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def isconst(p):
    return not p or (len(p) == 1 and ONE in p)


def mkey(m):
    return (sum(e for _, e in m), m)


def lead(p):
    return max(p, key=lm)


def lm(m):
    # lexicographic order, compatible with multiplication: compare exponent vectors
    return LexKey(m)


class LexKey:
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        a, b = self.m, o.m
        i = 0
        while True:
            if i >= len(b):
                return False
            if i >= len(a):
                return True
            if a[i] == b[i]:
                i += 1
                continue
            (v, e), (w, f) = a[i], b[i]
            if v == w:
                return e < f
            # smaller variable first = more significant
            return v > w

    def __eq__(self, o):
        return self.m == o.m

    def __gt__(self, o):
        return o < self


def mdiv(a, b):
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            del d[v]
        else:
            d[v] = x
    return tuple(sorted(d.items()))


def pvars(p):
    return {v for m in p for v, _ in m}


def degs(p):
    d = {}
    for m in p:
        for v, e in m:
            if e > d.get(v, 0):
                d[v] = e
    return d


def pdivexact(a, b):
    """a / b when exact, else None"""
    if not a:
        return {}
    da = degs(a)
    for v, e in degs(b).items():
        if da.get(v, 0) < e:
            return None
    lb = lead(b)
    cb = b[lb]
    q = {}
    r = dict(a)
    n = 0
    while r:
        l = lead(r)
        m = mdiv(l, lb)
        n += 1
        if m is None or n > 3000:
            return None
        c = r[l] / cb
        q[m] = c
        for k, x in b.items():
            y = mmul(m, k)
            z = r.get(y, 0) - c * x
            if z == 0:
                r.pop(y, None)
            else:
                r[y] = z
    return q


def primitive(p):
    """-> (content, primitive part with positive leading coefficient)"""
    den = 1
    for c in p.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.values():
        g = gcd(g, int(c * den))
    s = 1 if p[lead(p)] > 0 else -1
    k = Fraction(s * g, den)
    return k, {m: c / k for m, c in p.items()}


def pkey(p):
    return tuple(sorted(p.items()))


class RF:
    """num / product of factors; factors: dict {key: (poly, exponent)}"""
    __slots__ = ('num', 'den', '_key')

    def __init__(self, num, den):
        self.num = num
        self.den = den
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (pkey(self.num), tuple(sorted((k, e) for k, (p, e) in self.den.items())))
        return self._key


def reduce(num, den):
    if not num:
        return RF({}, {})
    out = {}
    for k, (p, e) in den.items():
        while e > 0:
            if len(num) < len(p) and len(p) > 1 and len(num) == 1:
                break
            q = pdivexact(num, p)
            if q is None:
                break
            num = q
            e -= 1
        if e > 0:
            out[k] = (p, e)
    return RF(num, out)


def ppow(p, e):
    r = pconst(1)
    for _ in range(e):
        r = pmul(r, p)
    return r


def radd(a, b):
    if not a.den and not b.den:
        return RF(padd(a.num, b.num), {})
    den = dict(a.den)
    for k, (p, e) in b.den.items():
        if k not in den or den[k][1] < e:
            den[k] = (p, e)
    na, nb = a.num, b.num
    for k, (p, e) in den.items():
        ea = a.den[k][1] if k in a.den else 0
        eb = b.den[k][1] if k in b.den else 0
        if e > ea:
            na = pmul(na, ppow(p, e - ea))
        if e > eb:
            nb = pmul(nb, ppow(p, e - eb))
    return reduce(padd(na, nb), den)


def rneg(a):
    return RF(pneg(a.num), a.den)


def rmul(a, b):
    if not a.num or not b.num:
        return RF({}, {})
    # cross reduction keeps the products small
    x = reduce(a.num, b.den) if b.den else RF(a.num, {})
    y = reduce(b.num, a.den) if a.den else RF(b.num, {})
    den = dict(x.den)
    for k, (p, e) in y.den.items():
        den[k] = (p, den[k][1] + e) if k in den else (p, e)
    return RF(pmul(x.num, y.num), den)


def rinv(a):
    """1 / a, a not null"""
    k, p = primitive(a.num)
    num = pconst(1 / k)
    for q, e in a.den.values():
        num = pmul(num, ppow(q, e))
    den = {}
    if not isconst(p):
        # split monomial factors
        for v, e in common_monomial(p):
            x = pvar(v)
            den[pkey(x)] = (x, e)
        m = common_monomial(p)
        if m:
            p = {mdiv(n, m): c for n, c in p.items()}
        if not isconst(p):
            den[pkey(p)] = (p, 1)
    return RF(num, den)


def common_monomial(p):
    it = iter(p)
    d = dict(next(it))
    for m in it:
        e = dict(m)
        d = {v: min(x, e[v]) for v, x in d.items() if v in e}
    return tuple(sorted(d.items()))


def sign_poly(a):
    """-> (s, list of primitive polynomials) whose product has the sign of a"""
    k, p = primitive(a.num)
    s = 1 if k > 0 else -1
    out = []
    m = common_monomial(p)
    if m:
        p = {mdiv(n, m): c for n, c in p.items()}
    exps = {}
    for v, e in m:
        x = pvar(v)
        exps[pkey(x)] = [x, e]
    if not isconst(p):
        exps.setdefault(pkey(p), [p, 0])[1] += 1
    zero = [x for x, e in exps.values()]
    for k2, (q, e) in a.den.items():
        exps.setdefault(k2, [q, 0])[1] += e
    odd = [x for x, e in exps.values() if e % 2]
    return s, odd, zero
