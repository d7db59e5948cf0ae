"""Hash-consed terms: numbers ('f'), booleans ('b') and machine integers (width).

Concrete values are plain Python: float for numbers, int for integers, 0/1 for
booleans. Simplifications are exact for IEEE-754 doubles, except that the sign
and payload of a NaN are not represented.
"""
import math, struct

INF = float('inf')
NAN = float('nan')


class T:
    __slots__ = ('op', 'args', 'id', 'sort', 'aux', '__weakref__')

    def __repr__(self):
        return show(self, 4)


_table = {}
_count = [0]


def fbits(x):
    if x != x:
        return 0x7ff8000000000000
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bitsf(b):
    return struct.unpack('<d', struct.pack('<Q', b & ((1 << 64) - 1)))[0]


def akey(a):
    t = type(a)
    if t is T:
        return ('t', a.id)
    if t is float:
        return ('f', fbits(a))
    return a


def mk(op, sort, *args):
    k = (op, sort) + tuple(map(akey, args))
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.sort = sort
        t.args = args
        t.aux = None
        _count[0] += 1
        t.id = _count[0]
        _table[k] = t
    return t


def show(t, d=6):
    if type(t) is not T:
        return repr(t)
    if d == 0:
        return '..'
    if t.op == 'sym':
        return 's%d' % t.args[0]
    return '%s(%s)' % (t.op, ', '.join(show(a, d - 1) for a in t.args))


# ------------------------------------------------------------ booleans

def bnot(c):
    if type(c) is int:
        return 1 - c
    if c.op == 'not':
        return c.args[0]
    return mk('not', 'b', c)


def band(a, b):
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    if a is b:
        return a
    if bnot(a) is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk('and', 'b', a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if type(a) is int:
        return bnot(b) if a else b
    if type(b) is int:
        return bnot(a) if b else a
    if a is b:
        return 0
    return bor(band(a, bnot(b)), band(bnot(a), b))


def bite(c, a, b):
    if type(c) is int:
        return a if c else b
    return bor(band(c, a), band(bnot(c), b))


# ------------------------------------------------------------ numbers (IEEE)

def sym(i):
    return mk('sym', 'f', i)


def fneg(a):
    if type(a) is float:
        return -a
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', 'f', a)


def fabs_(a):
    if type(a) is float:
        return abs(a)
    if a.op in ('neg', 'abs'):
        return fabs_(a.args[0]) if a.op == 'neg' else a
    if a.op == 'cps':
        return fabs_(a.args[0])
    return mk('abs', 'f', a)


def key(a):
    return (1, a.id) if type(a) is T else (0, fbits(a))


def fadd(a, b):
    if type(a) is float and type(b) is float:
        return a + b
    if type(a) is float:
        if a != a:
            return NAN
        if a == 0.0 and math.copysign(1, a) < 0:
            return b
    if type(b) is float:
        if b != b:
            return NAN
        if b == 0.0 and math.copysign(1, b) < 0:
            return a
    if key(a) > key(b):
        a, b = b, a
    return mk('add', 'f', a, b)


def fsub(a, b):
    return fadd(a, fneg(b))


def fmul(a, b):
    if type(a) is float and type(b) is float:
        return a * b
    if type(b) is float:
        a, b = b, a
    if type(a) is float:
        if a != a:
            return NAN
        if a == 1.0:
            return b
        if a == -1.0:
            return fneg(b)
        if math.copysign(1.0, a) < 0:
            return fneg(fmul(-a, b))
    elif a.op == 'neg':
        return fneg(fmul(a.args[0], b))
    if type(b) is T and b.op == 'neg':
        return fneg(fmul(a, b.args[0]))
    if key(a) > key(b):
        a, b = b, a
    return mk('mul', 'f', a, b)


def pydiv(a, b):
    if b == 0.0:
        if a != a or a == 0.0:
            return NAN
        return math.copysign(INF, a) * math.copysign(1.0, b)
    return a / b


def fdiv(a, b):
    if type(a) is float and type(b) is float:
        return pydiv(a, b)
    if type(b) is float:
        if b != b:
            return NAN
        if b == 1.0:
            return a
        if b == -1.0:
            return fneg(a)
        if b != 0.0 and not math.isinf(b) and math.frexp(b)[0] in (0.5, -0.5):
            r = 1.0 / b
            if not math.isinf(r) and r != 0.0 and 1.0 / r == b:
                return fmul(r, a)
        if math.copysign(1.0, b) < 0:
            return fneg(fdiv(a, -b))
    elif b.op == 'neg':
        return fneg(fdiv(a, b.args[0]))
    if type(a) is float:
        if a != a:
            return NAN
        if math.copysign(1.0, a) < 0:
            return fneg(fdiv(-a, b))
    elif a.op == 'neg':
        return fneg(fdiv(a.args[0], b))
    return mk('div', 'f', a, b)


def frem(a, b):
    if type(a) is float and type(b) is float:
        if math.isinf(a) or b == 0.0 or a != a or b != b:
            return NAN
        return math.fmod(a, b)
    return mk('rem', 'f', a, b)


def fcps(a, s):
    """copysign"""
    if type(s) is float:
        m = fabs_(a)
        return m if math.copysign(1.0, s) > 0 else fneg(m)
    if type(a) is float:
        a = abs(a)
    else:
        a = fabs_(a)
        if a.op == 'abs':
            a = a.args[0]
            if a is s:
                return a
            a = fabs_(a)
    if s.op == 'neg':
        return fneg(fcps(a, s.args[0]))
    if s.op == 'cps':
        return fcps(a, s.args[1])
    if s.op == 'abs':
        return a
    return mk('cps', 'f', a, s)


def fsqrt(a):
    if type(a) is float:
        return math.sqrt(a) if a >= 0 else (a if a == 0 else NAN)
    return mk('sqrt', 'f', a)


def fite(c, a, b):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is float and type(b) is float and fbits(a) == fbits(b)):
        return a
    if c.op == 'not':
        return fite(c.args[0], b, a)
    return mk('ite', 'f', c, a, b)


def fnan(a):
    if type(a) is float:
        return 1 if a != a else 0
    if a.op in ('neg', 'abs', 'cps'):
        return fnan(a.args[0])
    if a.op == 'ite':
        x, y = fnan(a.args[1]), fnan(a.args[2])
        return bite(a.args[0], x, y)
    return mk('nan', 'b', a)


def feq(a, b):
    if type(a) is float and type(b) is float:
        return 1 if a == b else 0
    if a is b:
        return bnot(fnan(a))
    if type(a) is float and a != a or type(b) is float and b != b:
        return 0
    if type(a) is T and a.op == 'neg' and type(b) is T and b.op == 'neg':
        return feq(a.args[0], b.args[0])
    if type(a) is float and type(b) is T and b.op == 'neg':
        return feq(-a, b.args[0])
    if type(b) is float and type(a) is T and a.op == 'neg':
        return feq(-b, a.args[0])
    if type(a) is float and a == 0.0:
        a = 0.0
    if type(b) is float and b == 0.0:
        b = 0.0
    if key(a) > key(b):
        a, b = b, a
    return mk('feq', 'b', a, b)


def fcmp_(op, a, b):
    if type(a) is float and type(b) is float:
        return 1 if (a < b if op == 'flt' else a <= b) else 0
    if a is b:
        return 0 if op == 'flt' else bnot(fnan(a))
    if type(a) is float and a != a or type(b) is float and b != b:
        return 0
    na = type(a) is T and a.op == 'neg'
    nb = type(b) is T and b.op == 'neg'
    if na and nb:
        return fcmp_(op, b.args[0], a.args[0])
    if na and type(b) is float:
        return fcmp_(op, -b, a.args[0])
    if nb and type(a) is float:
        return fcmp_(op, b.args[0], -a)
    if op == 'flt':
        if type(a) is float and a == INF or type(b) is float and b == -INF:
            return 0
    else:
        if type(a) is float and a == -INF:
            return bnot(fnan(b))
        if type(b) is float and b == INF:
            return bnot(fnan(a))
    if type(a) is float and a == 0.0:
        a = 0.0
        if type(b) is T and b.op == 'abs' and op == 'fle':
            return bnot(fnan(b))
    if type(b) is float and b == 0.0:
        b = 0.0
        if type(a) is T and a.op == 'abs':
            return 0 if op == 'flt' else feq(a.args[0], 0.0)
    return mk(op, 'b', a, b)


def flt(a, b):
    return fcmp_('flt', a, b)


def fle(a, b):
    return fcmp_('fle', a, b)


def fcmp(pred, a, b):
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    if pred == 'uno':
        return bor(fnan(a), fnan(b))
    if pred == 'ord':
        return bnot(bor(fnan(a), fnan(b)))
    if pred == 'oeq':
        return feq(a, b)
    if pred == 'une':
        return bnot(feq(a, b))
    if pred == 'olt':
        return flt(a, b)
    if pred == 'ogt':
        return flt(b, a)
    if pred == 'ole':
        return fle(a, b)
    if pred == 'oge':
        return fle(b, a)
    if pred == 'ult':
        return bnot(fle(b, a))
    if pred == 'ugt':
        return bnot(fle(a, b))
    if pred == 'ule':
        return bnot(flt(b, a))
    if pred == 'uge':
        return bnot(flt(a, b))
    if pred == 'one':
        return bor(flt(a, b), flt(b, a))
    if pred == 'ueq':
        return bnot(bor(flt(a, b), flt(b, a)))
    raise NotImplementedError('fcmp ' + pred)


def fsign(a):
    """sign bit"""
    if type(a) is float:
        return 1 if math.copysign(1.0, a) < 0 else 0
    if a.op == 'neg':
        return bnot(fsign(a.args[0]))
    if a.op == 'abs':
        return 0
    if a.op == 'cps':
        return fsign(a.args[1])
    return mk('sgn', 'b', a)


# ------------------------------------------------------------ integers

def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def iop(op, w, a, b):
    """on concrete integers"""
    m = (1 << w) - 1
    if op == 'add':
        return (a + b) & m
    if op == 'sub':
        return (a - b) & m
    if op == 'mul':
        return (a * b) & m
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a << b) & m if b < w else 0
    if op == 'lshr':
        return a >> b if b < w else 0
    if op == 'ashr':
        return (sgn(a, w) >> min(b, w - 1)) & m
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    if op == 'sdiv':
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & m
    if op == 'srem':
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & m
    raise NotImplementedError(op)


def icmp_c(pred, w, a, b):
    if pred == 'eq':
        return 1 if a == b else 0
    if pred == 'ne':
        return 1 if a != b else 0
    if pred[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    p = pred[1:]
    return 1 if (a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b) else 0


def iite(c, w, a, b):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == 'not':
        return iite(c.args[0], w, b, a)
    return mk('ite', w, c, a, b)


# substitution / evaluation ---------------------------------------------------

BUILD = {}


def rebuild(t, sub, memo):
    """t with symbols replaced after sub {sym id: float}; folds constants"""
    if type(t) is not T:
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in memo:
            stack.pop()
            continue
        miss = [a for a in u.args if type(a) is T and a.id not in memo]
        if miss:
            stack.extend(miss)
            continue
        stack.pop()
        args = [memo[a.id] if type(a) is T else a for a in u.args]
        memo[u.id] = build(u, args, sub)
    return memo[t.id]


def build(u, a, sub):
    op = u.op
    if op == 'sym':
        return sub.get(a[0], u)
    if op in ('not',):
        return bnot(a[0])
    if op == 'and':
        return band(a[0], a[1])
    if op == 'neg':
        return fneg(a[0])
    if op == 'abs':
        return fabs_(a[0])
    if op == 'add':
        return fadd(a[0], a[1])
    if op == 'mul':
        return fmul(a[0], a[1])
    if op == 'div':
        return fdiv(a[0], a[1])
    if op == 'rem':
        return frem(a[0], a[1])
    if op == 'cps':
        return fcps(a[0], a[1])
    if op == 'sqrt':
        return fsqrt(a[0])
    if op == 'nan':
        return fnan(a[0])
    if op == 'feq':
        return feq(a[0], a[1])
    if op == 'flt':
        return flt(a[0], a[1])
    if op == 'fle':
        return fle(a[0], a[1])
    if op == 'sgn':
        return fsign(a[0])
    if op == 'ite':
        if u.sort == 'f':
            return fite(a[0], a[1], a[2])
        return iite(a[0], u.sort, a[1], a[2])
    return mk(op, u.sort, *a)


def syms_of(ts):
    seen = set()
    out = []
    stack = [t for t in reversed(list(ts)) if type(t) is T]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'sym':
            out.append(t)
        for a in t.args:
            if type(a) is T and a.id not in seen:
                stack.append(a)
    return sorted(out, key=lambda s: s.args[0])
