"""What is explored for each property.

A job is one symbolic execution of one harness (harness/src) with concrete
structure (sizes, method, iterations, faults allowed) and symbolic values.
"""

NAMES = dict(method=0, damp=1, jac=2, iters=3, faults=4, stop=5, upd=6, n=7, lim=8, rhs=9, mem=10, dyn=11, val=12, pos=13, lin=14, case=15)
METHODS = ['NR', 'SN', 'BROY1', 'BROY2', 'GRST1', 'GRST2', 'BROY1_INV', 'BROY2_INV', 'GRST1_INV', 'GRST2_INV']

LABELS = dict(
    C02=[1, 2, 3, 4, 5, 6, 7, 900],
    C04=[60, 61, 63, 64],
    C06=[10, 11, 12, 13],
    C09=[20, 21, 25, 26, 27, 34],
    C11=[26, 30, 31, 32, 33, 34, 35, 36, 37, 38],
    C12=[50, 53, 54, 55],
)


def job(entry, domain='fp', labels=None, fixed=None, choices=None, time=None, **k):
    params = {}
    opts = {}
    for a, v in k.items():
        if a in NAMES:
            params[NAMES[a]] = v
        else:
            opts[a] = v
    params.setdefault(NAMES['n'], 1)
    if fixed:
        opts['fixed'] = fixed
    if choices:
        opts['choices'] = choices
    if time:
        opts['time'] = time
    return dict(entry='hx_' + entry, domain=domain, labels=labels, params=params, opts=opts)


# Values given to a part of the symbols, for the jobs that go far (iterations,
# size): what is left symbolic comes last, or is one among many.

def jac(n, k=0, base=10000, diag=4.0):
    """the k-th jacobian of the model"""
    at = lambda i, j: k * 20 + i * 3 + j if i < 3 and j < 3 else 3000 + k * 30 + i * 5 + j if i < 5 and j < 5 else 5000 + k * 100 + i * 10 + j
    return {base + 3000 + at(i, j):
            diag if i == j else float((i * 2 + j * 3 + k) % 3 - 1) for i in range(n) for j in range(n)}


def res(n, free=(), k=0, base=10000, s=1.0):
    """the left residuals of the k-th evaluation, but those of `free`"""
    return {base + 1000 + k * 10 + i: s * (1.0 + i * 0.5) * (-1) ** i for i in range(n) if i not in free}


def measures(n, free=()):
    """the residuals of the n evaluations of the first jacobian, but those of `free` (i of evaluation k)"""
    return {11010 + 10 * k + i: 4. if k == i else -1. for k in range(n) for i in range(n) if (k, i) not in free}


def params(n, free=()):
    """the parameters of the variables, but those of `free`"""
    f = {}
    for i in range(n):
        if i not in free:
            f.update({100 + 10 * i + k: v for k, v in enumerate((0.5 + i, 0.25, -2.0 - i, 3.0 + i, 0.125, 0.0625))})
    return f


def rights(n, free=()):
    """the right residuals of the n + 1 first evaluations, but those of `free`"""
    return {12000 + 10 * k + i: 0.25 + i for k in range(n + 1) for i in range(n) if (k, i) not in free}


def sides(kmax=30, n=3):
    """the right residuals of the kmax first evaluations and the right jacobians"""
    f = {12000 + 10 * k + i: 3.25 + i / 2 + (k % 3) / 4 - k / 16 for k in range(kmax) for i in range(n)}
    for k in range(kmax):
        f.update({a + 1000: v / 4 for a, v in jac(n, k).items()})
    return f


def limited(n):
    """steps and bounds, different from a variable to another"""
    f = {}
    for i in range(n):
        f.update({100 + 10 * i: 4.0 - i / 4, 101 + 10 * i: 2.0 + i, 102 + 10 * i: -1.0 - 2 * i, 103 + 10 * i: 3.0 + i, 104 + 10 * i: .5, 105 + 10 * i: .25})
    return f


def gu(n, free=()):
    """the initial guess"""
    return {10 + i: (0.5, -3.0, 2.0, 1.25, -0.75, 1.5, -2.0, 0.25, 4.0, -1.0)[i] for i in range(n) if i not in free}


def falling(upto, but=(), base=10000, up=()):
    """residuals of one equation, halved by each evaluation (doubled by those of `up`)"""
    f = {}
    v = 1.0
    for k in range(upto):
        if k:
            v = v * 2 if k in up else v / 2
        if k not in but:
            f[base + 1000 + 10 * k] = v
    return f


def far(n=52, up=40, free=4, jacs=60):
    """n iterations of one equation with a given course, but for the last evaluations"""
    f = {1: 0.0, **gu(1), **falling(min(99, n + 12), up=(up,), but=range(n - free + 3, n + 12))}
    for k in range(jacs):
        f.update(jac(1, k))
    return f


def calm(k, base=10000, but=()):
    """the first k evaluations and jacobians are accurate"""
    f = {base + 200 + i: 0 for i in range(k)}
    f.update({base + 100 + i: 0 for i in range(k) if i not in but})
    return f


def course(prop, domain='fp', **k):
    return job('course', domain, LABELS[prop], **k)


def jobs(prop, tier):
    deep = tier == 'thorough'
    r = []
    add = lambda *a, **k: r.append(job(*a, **k))
    # values are followed over the reals, with a null tolerance (any
    # resolution stopping earlier is a prefix of it) unless it matters
    T0 = {1: 0.0}
    NRS = (0,)
    QNS = (2, 3, 4, 5, 6, 7, 8, 9)

    if prop == 'C01':
        add('c01', method=0, damp=1, iters=2, faults=2)
        add('c01', method=0, damp=0, iters=2, faults=1, jac=1)
        for s in (1, 2):
            add('c01', method=0, damp=1, iters=1, faults=1, stop=s, upd=3 - s, rhs=1)
        add('c01', method=0, damp=1, iters=1, faults=1, jac=1, n=2)
        add('c01', method=0, damp=0, iters=1, faults=0, jac=1, n=2, stop=5, rhs=1)
        add('c01', method=1, damp=0, iters=2, faults=1)
        for m in QNS:
            add('c01', method=m, damp=m % 2, iters=2, faults=1, jac=m // 2 % 2)
        add('c01', method=0, iters=1, faults=1, lim=2)
        add('c01', method=0, iters=1, faults=1, n=2, jac=1, dyn=1)
        add('c01', method=0, iters=0, faults=1, n=3, jac=1, stop=5, rhs=1)
        # far
        for m in (0, 1, 6):
            add('c01', method=m, iters=16, jac=1)
        add('c01', method=0, iters=10, jac=0)
        add('c01', method=2, iters=6, jac=1)
        for m in (0, 2, 6, 9):
            add('c01', method=m, iters=12, jac=1, damp=1, faults=1, fixed=falling(11), choices=calm(11, but=(4,)))
        add('c01', method=0, iters=12, jac=1, damp=1, fixed=falling(11, up=(3, 6, 7)))
        # large
        add('c01', method=0, iters=0, n=5, stop=5, rhs=1, jac=1)
        add('c01', method=0, iters=1, n=4, stop=5, jac=1, fixed={**jac(4), **res(4)})
        add('c01', method=0, iters=1, n=5, stop=5, jac=1, fixed={**jac(5), **res(5)})
        add('c01', method=0, iters=1, n=8, stop=1, jac=1, fixed={**jac(8), **res(8)})
        for m in (0, 1) + QNS:
            add('c01', method=m, iters=53 if m else 50, jac=1, damp=0 if m == 1 else 1, faults=1, fixed=far(), choices=calm(51))
        if deep:
            add('c01', method=0, damp=1, iters=3, faults=2)
            add('c01', method=0, damp=1, iters=1, faults=2, n=2)
            for m in QNS:
                add('c01', method=m, damp=1, iters=3, faults=1, jac=1)
                add('c01', method=m, damp=1, iters=2, faults=1, jac=1, n=2, time=900)
            add('c01', method=0, damp=0, iters=1, faults=1, jac=1, n=3, time=900)

    elif prop == 'C02':
        c = lambda **k: r.append(course('C02', **k))
        c(method=0, iters=3)
        c(method=0, iters=3, jac=1)
        c(method=0, damp=1, iters=1, faults=1)
        c(method=0, damp=1, iters=2)
        c(method=0, damp=0, iters=2, rhs=1, stop=1, upd=2)
        c(method=0, damp=1, iters=1, rhs=1, stop=2, upd=1, jac=1)
        c(method=0, iters=0, n=2, jac=1)
        c(method=0, iters=1, n=2, stop=5, rhs=1, jac=1)
        c(method=0, iters=2, n=2, jac=1)
        c(method=0, iters=0, n=3, faults=1)
        c(method=1, iters=2)
        for m in QNS:
            c(method=m, damp=m % 2, iters=3, jac=1)
            c(method=m, damp=1 - m % 2, iters=2)
        c(method=6, iters=1, n=2, dyn=1)
        c(method=0, iters=2, lim=2, jac=1)
        # far
        for m in (0, 1, 6):
            c(method=m, iters=20, jac=1)
        c(method=0, iters=8)
        c(method=2, iters=6, jac=1)
        # inaccurate evaluations, damping
        for m in (0, 2, 6):
            c(method=m, damp=1, iters=2, faults=1, jac=1)
        if deep:
            c(method=0, damp=1, iters=2, faults=1, time=900)
            for m in (0, 3, 6, 9):
                c(method=m, iters=13, jac=1, damp=1, faults=1, fixed={**T0, **falling(40, up=(4, 5), but=range(11, 18))}, choices=calm(10), time=1200)
        for m in (0, 3, 7):
            c(method=m, iters=53, jac=1, damp=1, faults=1, fixed=far(), choices=calm(50 if m else 52))
        for m in (0,) + QNS if deep else (0, 2, 6, 7, 8, 9):
            c(method=m, iters=13, jac=1, damp=1, fixed={**T0, **falling(40, up=(4, 5), but=range(11, 22))})
        for m in (0, 2, 6):
            c(method=m, iters=8, damp=1, fixed={**T0, **falling(40, up=(4, 5), but=range(12, 20))})
        # large
        c(method=0, iters=1, n=5, stop=5, jac=1, fixed={**jac(5), **res(5)})
        c(method=0, iters=1, n=8, stop=5, jac=1, fixed={**jac(8), **res(8)})
        c(method=0, iters=1, n=4, fixed={**res(4), **gu(4), **measures(4)})
        for m in (0, 1) + QNS:
            c(method=m, iters=53, jac=1, damp=0 if m == 1 else 1, fixed=far())
            c(method=m, iters=53 if m else 25, damp=0 if m == 1 else 1, fixed=far(jacs=0))
        if deep:
            for m in (0,) + QNS:
                c(method=m, damp=1, iters=4, jac=1)
                c(method=m, damp=1, iters=3, faults=1)
                c(method=m, damp=1, iters=2, n=2, jac=1, time=900)

    elif prop == 'C03':
        for m in (0, 2, 6):
            for j in (0, 1):
                add('c03', method=m, damp=1, iters=2, faults=2, jac=j)
        add('c03', method=0, damp=0, iters=2, faults=2, rhs=1, stop=1)
        for m in (1, 3, 4, 5, 7, 8, 9):
            add('c03', method=m, damp=m % 2, iters=2, faults=2, jac=1)
        add('c03', method=0, damp=0, iters=1, faults=2, n=2)
        add('c03', method=0, damp=0, iters=1, faults=2, n=2, jac=1, dyn=1)
        add('c03', method=0, damp=1, iters=1, faults=2, mem=1, lim=2)
        for m in (0,) + QNS if deep else (0, 2, 6, 7, 8, 9):
            for j in (0, 1):
                if j or m in (0, 2, 6, 9):
                    add('c03', method=m, iters=12, jac=j, damp=1, faults=2, fixed={**T0, **falling(40)},
                        choices=calm(20 if j == 0 and m == 0 else 10, but=(3,)))
        add('c03', method=0, iters=12, jac=1, damp=0, faults=2, choices=calm(10))
        add('c03', method=0, iters=1, jac=0, n=4, damp=0, faults=2, fixed={**T0, **res(4), **gu(4), **measures(4)})
        add('c03', method=0, iters=1, jac=1, n=5, damp=0, faults=2, fixed={**T0, **res(5), **jac(5)})
        add('c03', method=0, iters=1, jac=0, n=6, damp=0, faults=2, fixed={**T0, **res(6), **gu(6), **measures(6)})
        for m in (0, 1) + QNS:
            add('c03', method=m, iters=52 if m else 50, jac=1, damp=0 if m == 1 else 1, faults=2, fixed=far(), choices=calm(50))
        if deep:
            for m in (0, 2, 6):
                add('c03', method=m, damp=1, iters=3, faults=2, jac=1)
            for m in range(10):
                add('c03', method=m, damp=1, iters=2, faults=2, jac=1, n=2, time=900)
            add('c03', method=0, damp=1, iters=1, faults=2, n=2, time=900)
            add('c03', method=0, damp=0, iters=1, faults=2, n=3, jac=1, time=900)

    elif prop == 'C04':
        c = lambda **k: r.append(course('C04', **k))
        # floats: the bounds of the undamped iterates
        for m in (0, 2, 6):
            for j in (0, 1):
                c(method=m, iters=2, lim=2, jac=j)
        c(method=0, iters=1, lim=2, jac=1, n=2)
        # reals: bounds and limits, damping included; jacobian fixed (the
        # step is anything since the residuals are)
        J = dict(T0)
        J[13000] = 1.0
        for m in (0, 6):
            c(domain='real', method=m, iters=1, lim=2, jac=1, val=1, fixed=J)
            c(domain='real', method=m, iters=1, lim=1, jac=1, val=1, fixed=J)
            c(domain='real', method=m, iters=1, lim=2, jac=1, val=1, damp=1, fixed=J)
        c(domain='real', method=2, iters=1, lim=2, jac=1, val=1, damp=1, fixed=J)
        c(domain='real', method=0, iters=1, lim=1, jac=1, val=1, damp=1, fixed=J)
        F = dict(T0)
        F.update({104: 0.5, 105: 0.25})
        c(domain='real', method=0, iters=1, lim=2, jac=0, val=1, damp=1, fixed={**F, 100: 4.0, 101: 4.0}, choices={106: 0}, rtol=1e-9, pos=1)
        c(domain='real', method=0, iters=1, lim=1, jac=0, val=1, fixed=F, choices={106: 0}, rtol=1e-9, pos=1)
        c(domain='real', method=0, iters=1, lim=1, jac=0, val=1, damp=1, fixed=F, choices={106: 0}, rtol=1e-9, pos=1)
        for m in (0, 6):
            c(method=m, iters=8, jac=1, lim=2, fixed={**T0, **falling(7)})
        c(method=0, iters=1, jac=1, lim=2, n=5, fixed={**T0, **res(5), **jac(5)})
        c(method=0, iters=1, jac=1, lim=2, n=8, fixed={**T0, **res(8), **jac(8), **gu(8), **params(8, (6,))}, choices={106 + 10 * i: i % 2 for i in range(8)})
        # every variable has its own limits
        L = {}
        for i in range(5):
            L.update({100 + 10 * i: 4.0 - i / 2, 101 + 10 * i: 2.0 + i, 102 + 10 * i: -1.0 - 2 * i, 103 + 10 * i: 3.0 + i})
        V = dict(domain='real', lim=2, jac=1, val=1)
        c(method=0, iters=1, n=3, fixed={**T0, **L, **jac(3), **res(3, (1,)), **gu(3), **res(3, k=1)}, **V)
        c(method=0, iters=1, n=2, damp=1, fixed={**T0, **L, **jac(2), **res(2, (1,)), **gu(2), **res(2, (0,), k=1)}, **V)
        c(method=6, iters=2, damp=1, fixed={**T0, **jac(1), **jac(1, 1), **falling(1), **L, 10: 2.0}, **V)
        c(method=0, iters=3, damp=1, fixed={**T0, **jac(1), **jac(1, 1), **jac(1, 2), **falling(2), **L, 10: 2.0}, **V)
        for m in (2, 6):
            c(method=m, iters=24, jac=1, damp=1, lim=1, domain='real', val=1, fixed={**far(24, 12), 100: 0.125, 101: 0.25})
        if deep:
            c(method=0, iters=1, n=2, fixed={**T0, **jac(2), **res(2)}, time=1200, **V)
            c(method=6, iters=3, damp=1, fixed={**T0, **jac(1), **jac(1, 1), **jac(1, 2), **falling(2), 10: 2.0}, time=1200, **V)
            c(method=0, iters=2, n=2, damp=1, fixed={**T0, **jac(2), **jac(2, 1), **L, **res(2), **gu(2)}, time=1200, **V)
            c(method=0, iters=3, jac=1, lim=2, n=3, fixed={**T0, **res(3), **res(3, k=1, s=.5), **jac(3), **jac(3, 1), **jac(3, 2)}, time=1200)

    elif prop == 'C05':
        for n in (1, 2, 3):
            add('c05', n=n)
        add('c05', n=4, fixed=gu(4, (3,)))
        add('c05', n=9, fixed={**gu(9, (6,)), **params(9, (7,)), **{20 + i: (-1.0)**i * i / 2 for i in range(9) if i != 7}})
        add('c05', n=9, fixed={**gu(9, (7,)), **params(9, (7,)), **{20 + i: (-1.0)**i * i / 2 for i in range(9) if i != 7}})
        if deep:
            add('c05', n=5, fixed=gu(5, (3,)))
            add('c05', n=4)
        add('c15', case=7, labels=[2, 4])

    elif prop == 'C06':
        add('c06p')
        for n in (1, 2, 3):
            add('c06j', 'real', n=n, faults=2, mem=n % 2)
            add('c06j', 'real', n=n, faults=1, mem=1 - n % 2, dyn=1)
        for s in (1, 2):
            add('c06j', 'real', n=1, faults=1, rhs=1, upd=s, stop=3 - s, mem=1)
        add('c06j', 'real', n=2, rhs=1, upd=7, mem=1)
        # to the last bit
        for n in (2, 3, 8):
            add('c06j', n=n, mem=n % 2, faults=2 if n < 8 else 0, labels=[10, 12, 13, 14, 15, 17, 20])
        for n in (4, 5):
            add('c06j', 'real', n=n, mem=1, faults=0)
        add('c06j', 'real', n=4, mem=1, faults=1)
        R4 = rights(4, ((0, 1), (2, 3)))
        add('c06j', 'real', n=4, mem=1, rhs=1, upd=70, fixed={**res(4), **measures(4, ((1, 1), (2, 3))), **R4})
        add('c06j', 'real', n=9, mem=1, rhs=1, upd=2187 + 2 * 6561, fixed={**res(9), **gu(9, (7,)), **{20 + i: .125 * (1 + i) for i in range(8)}, **measures(9, ((8, 7), (2, 8))), **rights(9, ((0, 7), (3, 8)))})
        if deep:
            add('c06j', 'real', n=4, mem=1, rhs=1, upd=70, fixed=res(4), time=1200)
        c = lambda **k: r.append(course('C06', **k))
        X2 = {1: 0.0, 10: 0.5, 11: -3.0}
        for m in (0, 2, 6):
            c(method=m, damp=1, iters=2 if m == 6 else 1, n=2, fixed={**T0, **res(2), **measures(2), **gu(2)})
        c(method=0, damp=1, iters=1, n=3, lim=2, mem=1, fixed={**T0, **res(3), **measures(3), **gu(3, (1,)), **params(3, (1,))}, choices={106: 0, 116: 1, 126: 0})
        c(domain='real', method=0, iters=1, val=1, fixed=X2, n=2, mem=1, pos=1, lim=3, choices={106: 0, 116: 1})
        c(domain='real', method=0, iters=2, val=1, fixed=T0, n=1, mem=1, lim=3, pos=1)
        if deep:
            c(domain='real', method=0, iters=1, val=1, fixed=T0, n=2, mem=1, lim=3, pos=1, time=1500)
            c(domain='real', method=0, iters=2, val=1, fixed=T0, n=1, mem=1, lim=3)
        c(domain='real', method=2, iters=2, val=1, fixed=T0, n=1, mem=1, pos=1)

    elif prop == 'C07':
        for m in (0, 1, 2):
            add('c07', 'real', case=m)
            add('c07d', 'real', case=m)

    elif prop == 'C08':
        for s in range(9):
            u = (s * 4 + 1) % 9
            add('c08', 'real', n=2, stop=s, upd=u, case=1)
        add('c08', 'real', n=3, stop=5, upd=21, case=1)
        add('c08', 'real', n=3, stop=21, upd=5, dyn=1, case=1)
        add('c08', 'real', n=4, stop=151, upd=59, case=1)
        add('c08', 'real', n=5, stop=1, upd=162, case=1)
        add('c08', 'real', n=5, stop=81, upd=6, case=1)
        add('c08', 'real', n=9, stop=6561 + 2 * 243, upd=2187 + 2 * 729, case=1, fixed={**{10 + i: 1.5 + i for i in range(9) if i not in (5, 8)}, **{20 + i: .5 - i for i in range(9) if i not in (6, 7)}})
        if deep:
            add('c08', 'real', n=5, stop=59, upd=193, case=1)
        # every mix of methods, with given values
        given = lambda n: {**{10 + i: 1.5 + i for i in range(n)}, **{20 + i: .5 - 4 * i for i in range(n)}}
        add('c08', 'real', n=4, mem=1, lim=1, fixed=given(4), dyn=1)
        add('c08', 'real', n=3, mem=1, lim=1, case=1, fixed=given(3))
        add('c08', 'real', n=3, stop=5, lim=1, case=1, fixed={**given(3), **jac(3)})
        add('c08', 'real', n=6, mem=1, upd=700, fixed=given(6), dyn=1)
        add('c08', 'real', n=6, stop=461, lim=1, fixed=given(6), dyn=1)
        add('c08v', n=2)
        add('c08v', n=3)
        add('c08v', n=1)
        if deep:
            for s in range(27):
                add('c08', 'real', n=3, stop=s, upd=(s * 7 + 5) % 27, case=1, dyn=s % 2)

    elif prop == 'C09':
        c = lambda **k: r.append(course('C09', domain='real', val=1, **k))
        c(method=0, iters=1, n=1, jac=1, fixed=T0)
        c(method=0, iters=2, n=1, jac=1, fixed=T0, pos=1)
        c(method=0, iters=1, n=2, jac=1, fixed=T0, pos=1)
        c(method=0, iters=2, n=1, fixed=T0, pos=1)
        c(method=0, iters=1, n=2, fixed={1: 0.0, 10: 0.5, 11: -3.0}, pos=1)
        for m in (0, 1) + QNS:
            c(method=m, iters=24, jac=1, fixed=far(24))
        c(method=0, iters=10, fixed=far(20), rtol=1e-9)
        if deep:
            c(method=0, iters=1, n=2, fixed=T0, pos=1, time=1500)
        c(method=0, iters=1, n=1, jac=1, upd=1, rhs=1, fixed=T0)
        c(method=0, iters=1, n=1, jac=1, upd=2, rhs=1, fixed=T0)
        # limited, both sides
        c(method=0, iters=2, n=2, jac=1, upd=5, rhs=1, fixed={**T0, **sides(), **jac(2), **jac(2, 1), **res(2), **res(2, (1,), k=1, s=.5), **gu(2), **res(2, k=2)})
        c(method=0, iters=2, n=3, jac=1, upd=15, stop=1, rhs=1, fixed={**T0, **sides(), **jac(3), **jac(3, 1), **res(3), **res(3, (1,), k=1, s=.5), **gu(3), **res(3, k=2)})
        c(method=0, iters=2, n=3, jac=1, lim=2, fixed={**T0, **limited(3), **jac(3), **jac(3, 1), **res(3), **res(3, (1,), k=1, s=.5), **gu(3), **res(3, k=2)})
        c(method=0, iters=24, jac=1, damp=1, lim=1, fixed={**far(24, 12, 3), 100: 0.125, 101: 0.25})
        c(method=0, iters=2, n=2, lim=2, rtol=1e-9, fixed={**T0, **limited(2), **res(2), **measures(2), **res(2, (1,), k=3, s=.5), **gu(2), **{11040: 4., 11041: -1., 11050: -1., 11051: 4.}, **res(2, k=6)}, choices={106: 0, 116: 0})
        c(method=0, iters=1, n=1, lin=1, jac=1)
        c(method=0, iters=1, n=2, lin=1, jac=1)
        c(method=0, iters=1, n=1, lin=1, jac=0)
        # large, and far
        for n, a, b in ((4, (1, 3), ()), (5, (0, 4), (2,))):
            c(method=0, iters=1, n=n, jac=1, fixed={**T0, **jac(n), **res(n, a), **gu(n, b), **res(n, k=1)})
        c(method=0, iters=2, n=5, jac=1, fixed={**T0, **jac(5), **jac(5, 1), **res(5), **gu(5), **res(5, (4,), k=1)})
        if deep:
            c(method=0, iters=2, n=5, jac=1, fixed={**T0, **jac(5), **jac(5, 1), **res(5), **gu(5, (2,)), **res(5, (4,), k=1)}, time=1200)
        c(method=0, iters=1, n=5, lin=1, jac=1, fixed={**jac(5), **res(5, (1,)), **gu(5)})
        c(method=0, iters=1, n=8, jac=1, fixed={**T0, **jac(8), **res(8, (5,)), **gu(8), **res(8, k=1)})
        c(method=0, iters=1, n=3, lin=1, jac=1, fixed={**jac(3), **res(3, (1,)), **gu(3)})
        c(method=0, iters=2, n=2, jac=1, fixed={**T0, **jac(2), **jac(2, 1)}, pos=1)
        c(method=0, iters=10, n=1, jac=1, fixed={**T0, **falling(20, but=(8, 9)), **{k: v for i in range(10) for k, v in jac(1, i, diag=3.0 + i).items()}, 10: 0.5})
        c(method=0, iters=1, n=4, jac=0, fixed={**T0, **res(4), **gu(4, (2,)), **measures(4, ((3, 2),))}, rtol=1e-9)

    elif prop == 'C10':
        for m in range(4):
            for case in (0, 1):
                add('c10', 'real', n=1, method=m, case=case)
                J = {}
                if m == 3 and case == 0:
                    # the inverse in the formula: some jacobians only
                    J = {40: 2.0, 41: 1.0, 50: 0.0, 51: 3.0}
                    add('c10', 'real', n=2, method=m, case=case, fixed={40: 1.0, 41: 2.0, 50: 3.0, 51: 4.0})
                add('c10', 'real', n=2, method=m, case=case, fixed=J)
            add('c10', 'real', n=1, method=m, case=2)
            fx = {40: 2.0, 41: 1.0, 50: 0.0, 51: 3.0, 30: 1.0, 31: 2.0}
            gx = {40: 1.0, 41: 2.0, 50: 3.0, 51: 4.0, 30: 2.0, 31: -1.0}
            if not deep:
                # the step or the change of the residuals
                k = 10 if m in (0, 2) else 20
                fx.update({k: 1.0, k + 1: 3.0})
                gx.update({k: -1.0, k + 1: 3.0})
            add('c10', 'real', n=2, method=m, case=2, fixed=fx)
            add('c10', 'real', n=2, method=m, case=2, fixed=gx)
        for m in range(7):
            add('c10f', 'real', n=1, method=m)
            add('c10f', 'real', n=2, method=m)
        # large
        M = lambda n: {40 + 10 * i + j: 4.0 if i == j else float((i * 2 + j * 3) % 3 - 1) for i in range(n) for j in range(n)}
        W = lambda b, n, free=(): {b + i: (1.0 + i * .5) * (-1) ** (i + b // 10) for i in range(n) if i not in free}
        for m in range(4):
            for case in (0, 1, 2):
                if case == 2:
                    if m < 3 or deep:
                        add('c10', 'real', n=3, method=m, case=case, fixed={**M(3), **W(10, 3), **W(20, 3, (2,)), **W(30, 3)})
                    continue
                add('c10', 'real', n=3, method=m, case=case, fixed={**M(3), **W(10, 3, (1,)), **W(20, 3, (2,)), **W(30, 3)})
                add('c10', 'real', n=6, method=m, case=case, fixed={**M(6), **W(10, 6), **W(20, 6, (2,)), **W(30, 6)})
                if deep:
                    add('c10', 'real', n=7, method=m, case=case, fixed={**M(7), **W(10, 7, (1,)), **W(20, 7, (2,)), **W(30, 7)}, time=1200)
        for m in range(7):
            add('c10f', 'real', n=7, method=m, fixed={**M(7), **W(10, 7, (1,)), **W(20, 7, (2,)), **W(30, 7)})

    elif prop == 'C11':
        c = lambda **k: r.append(course('C11', **k))
        for m in range(10):
            c(method=m, iters=3, jac=1, damp=0 if m == 1 else 1)
            c(method=m, iters=2, damp=0 if m == 1 else 1, jac=0)
        R = dict(domain='real', val=1, fixed=T0)
        for m in QNS:
            c(method=m, iters=2, jac=1, pos=1, **R)
            c(method=m, iters=2, jac=0, pos=1, rtol=1e-9, **R)
        c(method=1, iters=2, jac=1, pos=1, **R)
        # far, large, and after a damped iterate
        G = {**T0, **jac(1), **jac(1, 1, diag=3.), **jac(1, 2, diag=5.), 10: 0.5}
        V = dict(domain='real', val=1)
        for m in (1,) + QNS:
            c(method=m, iters=6, jac=1, fixed={**G, **falling(40, but=(4, 5))}, **V)
            c(method=m, iters=5, jac=1, damp=0 if m == 1 else 1, fixed={**G, **falling(40, up=(2,), but=(3, 4))}, **V)
            c(method=m, iters=2, jac=0, damp=0 if m == 1 else 1, fixed={**T0, 10: 2.0, 11000: 4.0, 11010: 3.0}, rtol=1e-9, **V)
            c(method=m, iters=4, jac=1, n=2, fixed={**T0, **gu(2), **jac(2), **res(2), **res(2, k=1, s=.5), **res(2, k=2, s=.25), **res(2, (1,), k=3, s=.125)}, **V)
            c(method=m, iters=3, jac=1, n=3, fixed={**T0, **gu(3), **jac(3), **res(3), **res(3, k=1, s=.5), **res(3, (1,), k=2, s=.25)}, **V)
        for m in (2, 4, 6, 9):
            c(method=m, iters=2, jac=1, n=5, fixed={**T0, **gu(5), **jac(5), **res(5), **res(5, (1,), k=1, s=.5), **res(5, k=2, s=.25)}, **V)
        for m in QNS:
            c(method=m, iters=2, jac=1, n=6 if m < 6 else 8, fixed={**T0, **gu(8), **jac(8), **res(8), **res(8, (1,), k=1, s=.5), **res(8, k=2, s=.25)}, **V)
        for m in QNS:
            c(method=m, iters=24, jac=1, damp=1, fixed=far(24, 12), domain='real', val=1)
            c(method=m, iters=53, jac=1, damp=1, fixed=far())
            c(method=m, iters=53, damp=1, fixed=far(jacs=0))
        # each iterate limited
        V = dict(domain='real', val=1, lim=2)
        for m in (1,) + QNS:
            c(method=m, iters=4, jac=1, damp=0 if m == 1 else 1, fixed={**T0, **jac(1), **jac(1, 1), **falling(20, up=(2,), but=(3, 4)), **params(1), 10: 1.0}, **V)
            c(method=m, iters=2, n=2, rtol=1e-9, fixed={**T0, **limited(2), **jac(2), **res(2), **measures(2), **res(2, (1,), k=3, s=.5), **gu(2), **res(2, k=4)}, choices={106: 0, 116: 0}, **V)
        for m in (1, 2, 3, 6, 9):
            c(method=m, iters=2, jac=1, n=3, fixed={**T0, **limited(3), **jac(3), **res(3), **res(3, (1,), k=1, s=.5), **gu(3), **res(3, k=2)}, **V)
        # both sides, every normalisation
        V = dict(domain='real', val=1, jac=1, rhs=1)
        for m in (1,) + QNS:
            for u in (1, 2):
                c(method=m, iters=4, damp=0 if m == 1 else 1, upd=u, stop=2 - u, fixed={**T0, **sides(), **jac(1), **jac(1, 1), **falling(20, up=(2,), but=(3, 4)), 10: 1.0}, **V)
            c(method=m, iters=2, n=2, upd=5, stop=1, fixed={**T0, **sides(), **jac(2), **jac(2, 1), **res(2), **res(2, (1,), k=1, s=.5), **gu(2), **res(2, k=2)}, **V)

    elif prop == 'C12':
        c = lambda **k: r.append(course('C12', **k))
        for m in (0,) + QNS:
            c(method=m, iters=2, damp=1, jac=1)
            c(method=m, iters=1 if m else 2, damp=1, jac=0)
        R = dict(domain='real', val=1, fixed=T0)
        c(method=0, iters=1, damp=1, jac=1, n=1, **R)
        c(method=2, iters=1, damp=1, jac=1, n=1, **R)
        c(method=0, iters=1, damp=1, jac=0, n=1, rtol=1e-9, **R)
        for m in (0, 2, 6, 9):
            c(method=m, iters=2, damp=1, jac=1, faults=1)
            c(method=m, iters=2, damp=1, jac=1, n=2, stop=5, upd=3, rhs=1, fixed={**T0, **sides(), **jac(2), **res(2), **res(2, (1,), k=1, s=.5), **res(2, (0,), k=2)})
            c(method=m, iters=1 if m == 0 else 2, damp=1, jac=1, n=3, stop=7, upd=11, rhs=1, lim=2 if m in (0, 9) else 0, fixed={**T0, **sides(), **gu(3), **limited(3), **jac(3), **res(3), **res(3, (2,), k=1, s=.5), **res(3, (0,), k=2)})
        for m in (0,) + QNS:
            c(method=m, iters=10, jac=1, damp=1, fixed={**T0, **falling(40, up=(2, 5), but=(9, 10, 11, 12))})
        for m in (0, 2, 9):
            c(method=m, iters=8, jac=0, damp=1, fixed={**T0, **falling(40, but=(9, 12, 13, 14, 15))})
        V = dict(domain='real', val=1, damp=1, jac=1)
        for m in (0, 2):
            c(method=m, iters=2, n=2, fixed={**T0, **jac(2), **jac(2, 1), **gu(2), **res(2), **res(2, (1,), k=1), **res(2, (0,), k=2)}, **V)
        c(method=0, iters=1, n=4, fixed={**T0, **jac(4), **gu(4), **res(4, (2,)), **res(4, (1,), k=1), **res(4, k=2)}, **V)
        c(method=0, iters=1, n=8, fixed={**T0, **jac(8), **gu(8), **res(8, (2,)), **res(8, (1,), k=1), **res(8, k=2)}, **V)
        c(method=0, iters=3, n=1, fixed={**T0, **jac(1), **jac(1, 1), **jac(1, 2), **falling(2)}, **V)
        for m in QNS:
            c(method=m, iters=24, jac=1, damp=1, fixed=far(24, 12), domain='real', val=1)
        c(method=0, iters=22, jac=1, damp=1, fixed=far(24, 12), domain='real', val=1)

    elif prop == 'C13':
        for m in (0, 2, 6):
            for j in (0, 1):
                add('c13', method=m, damp=1, iters=1, faults=2, jac=j)
        for m in (1, 3, 4, 5, 7, 8, 9):
            add('c13', method=m, damp=0 if m == 1 else 1, iters=1, faults=1, jac=1)
        add('c13', method=6, damp=0, iters=2, faults=0, jac=1)
        add('c13', method=2, damp=0, iters=2, faults=0, jac=1)
        add('c13', method=0, damp=0, iters=1, n=2, jac=1)
        for m in (0,) + QNS:
            add('c13', method=m, damp=1, iters=6, jac=1, fixed={**T0, **falling(12, base=20000, up=(2,)), **falling(4)})
        for m in (0, 6):
            add('c13', method=m, damp=1, iters=4, faults=2, jac=1, fixed={**T0, **falling(3, base=20000, up=(2,)), **falling(4)},
                choices={**calm(5), **calm(3, base=20000)})
        add('c13', method=0, iters=1, n=4, jac=1, fixed={**T0, **res(4), **res(4, base=20000), **jac(4), **jac(4, base=20000)})
        add('c13', method=0, iters=1, n=8, jac=1, fixed={**T0, **res(8), **res(8, base=20000), **jac(8), **jac(8, base=20000)})
        # after several resolutions, after a long one
        for m in (0, 1) + QNS:
            add('c13', method=m, damp=0 if m == 1 else 1, iters=1, faults=1, jac=1, case=5)
            add('c13', method=m, damp=0 if m == 1 else 1, iters=51, jac=1, fixed={**far(), **falling(99, base=20000), **{k + 10000: v for k, v in far(jacs=52).items() if k >= 13000}})

    elif prop == 'C14':
        for m in range(10):
            add('c14', method=m, damp=0 if m == 1 else 1, iters=2, faults=1, jac=m % 2)
        add('c14', method=0, damp=1, iters=1, faults=2, n=1, jac=1)
        add('c14', method=0, damp=0, iters=1, n=2, jac=1)
        for m in (0,) + QNS:
            add('c14', method=m, damp=1, iters=8, jac=1, fixed={**T0, **falling(7, up=(2, 5))})
        add('c14', method=0, iters=8, jac=0)
        add('c14', method=0, iters=8, jac=1, faults=2, choices=calm(7))
        add('c14', method=0, iters=1, n=4, jac=1, fixed={**T0, **res(4), **jac(4)})
        add('c14', method=0, iters=1, n=8, jac=1, fixed={**T0, **res(8), **jac(8)})
        for m in (0, 1) + QNS:
            add('c14', method=m, iters=53 if m else 50, jac=1, damp=0 if m == 1 else 1, fixed=far())

    elif prop == 'C15':
        for case in range(10):
            add('c15', case=case)

    elif prop == 'C16':
        SOLVER, DEF, CHILD, IDS, SHAPE, RDEF, RCHILD, BAD = (1 << k for k in range(8))
        x = lambda focus, **k: add('c16', method=focus, damp=k.pop('child', 0), jac=k.pop('fd', 0), **k)
        for fd in (0, 1):
            x(SOLVER, fd=fd, n=1)
            x(SOLVER | BAD, fd=fd, n=1)
            x(SHAPE, fd=fd, n=2)
            x(DEF | BAD, fd=fd, n=0)
            for b in (0, BAD):
                x(CHILD | b, fd=fd, n=1)
                x(RDEF | b, fd=fd, n=1)
                x(RCHILD | b, fd=fd, n=2, child=1)
            x(IDS, fd=fd, n=3, child=1)
            for c in range(3):
                x(CHILD, fd=fd, n=3, child=c)

    elif prop == 'C17':
        for case in range(4):
            for n in (1, 2):
                add('c17', n=n, iters=3, case=case)
            add('c17', n=3, iters=4, case=case)
            add('c17', n=8, iters=3, case=case)
            add('c17', n=1, iters=14, case=case, choices={i: (0, 1, 1, 0, 1, 2, 0, 0, 1, 1, 2)[i] for i in range(11)})
            add('c17', n=1, iters=40, case=case, choices={i: i % 2 for i in range(37)})

    elif prop == 'C18':
        add('c18', n=2, iters=1, method=0)
        add('c18', n=2, iters=1, method=0, jac=1, faults=2)
        add('c18', n=1, iters=1, method=0, damp=1, faults=2)
        add('c18', n=1, iters=2, method=0, damp=1, jac=1)
        for m in (2, 6):
            add('c18', 'real', n=1, iters=2, method=m, jac=1, fixed=T0)
        add('c18', method=0, iters=2, n=3, jac=1, fixed={**T0, **res(3), **jac(3)})
        for m in (0, 6, 9):
            add('c18', method=m, damp=1, iters=8, jac=1, fixed={**T0, **falling(10, up=(2, 5))})
        for m in QNS:
            add('c18', 'real', method=m, iters=2, n=2, jac=1, fixed={**T0, **res(2), **res(2, (1,), k=1, s=.5), **jac(2), **gu(2)})
        for m in (3, 8):
            add('c18', 'real', method=m, iters=2, n=3, jac=1, fixed={**T0, **res(3), **res(3, (1,), k=1, s=.5), **jac(3), **gu(3)})
        for m in (0, 1) + QNS:
            add('c18', method=m, iters=51, jac=1, damp=0 if m == 1 else 1, fixed=far())
        add('c18', method=0, iters=1, n=6, jac=1, fixed={**T0, **res(6), **jac(6)})
        for m in (2, 5, 6, 9):
            add('c18', 'real', method=m, iters=2, n=6, jac=1, fixed={**T0, **res(6), **jac(6), **gu(6), **res(6, k=1, s=.5), **res(6, (1,), k=2, s=.25)})
        if deep:
            for m in QNS:
                add('c18', 'real', method=m, iters=3, n=2, jac=1, fixed={**T0, **res(2), **res(2, (1,), k=1, s=.5), **jac(2), **gu(2)}, time=1200)

    elif prop == 'C19':
        for d in (0, 1):
            add('c19', 'real', n=1, iters=3, dyn=d)
            add('c19', 'real', n=2, iters=2, dyn=d)
        add('c19', 'real', n=3, iters=1)
        # large, and long
        M = lambda n, k, free=(): {100 + 100 * k + 10 * i + j: 4.0 if i == j else float((i * 2 + j * 3 + k) % 3 - 1) for i in range(n) for j in range(n) if (i, j) not in free}
        add('c19', 'real', n=6, iters=1, dyn=1, fixed=M(6, 0, ((2, 3),)))
        add('c19', 'real', n=7, iters=2, dyn=1, fixed={**M(7, 0), **M(7, 1, ((2, 3),))})
        add('c19', 'real', n=3, iters=2, dyn=1, fixed={**M(3, 0), **M(3, 1, ((2, 1), (0, 2)))})
        for s in ((0, 1, 3, 2, 0, 4, 1, 1), (2, 2, 0, 3, 4, 1, 0, 1), (1, 1, 1, 1, 1, 1, 1, 1), (2, 2, 2, 2, 2, 2, 2, 3), (0, 0, 0, 0, 0, 0, 0, 0)):
            for n in (1, 2):
                add('c19', 'real', n=n, iters=10, fixed={k: v for i in range(8 + n // 2) for k, v in M(n, i).items()}, choices=dict(enumerate(s)))
        for s in ((0,), (1, 3), (0, 1, 2), (1,), (2,)):
            add('c19', 'real', n=1, iters=52, fixed={k: v for i in range(51) for k, v in M(1, i).items()}, choices={i: s[i % len(s)] for i in range(50)})

    elif prop == 'C20':
        for j in (0, 1):
            add('c20', iters=0, jac=j)
            add('c20', iters=4 if deep else 3, jac=j)
            add('c20', 'real', iters=3 if deep else 2, jac=j, val=1)

    elif prop == 'C21':
        for case in range(8):
            add('c21', 'real', n=0, case=case)
        for case in range(2, 6):
            add('c21', 'real', n=3, case=case)

    elif prop == 'C22':
        for m in range(10):
            add('c22', method=m, damp=0 if m == 1 else 1, iters=3 if deep else 2, jac=1)
        for m in (0, 2, 6):
            add('c22', method=m, damp=1, iters=2 if deep else 1, jac=0, faults=1)
            add('c22', method=m, damp=1, iters=2 if deep or m else 1, jac=1, faults=2)
        add('c22', method=6, damp=1, iters=1, jac=0, n=2, lim=2, choices={106: 0, 116: 1})
        add('c22', method=0, damp=1, iters=1, jac=1, n=2, rhs=1, stop=5, upd=7)
        add('c22', method=0, iters=1, jac=1, n=2, rhs=1, stop=1, upd=3, dyn=1, fixed=jac(2))
        add('c22', method=0, iters=0, jac=1, n=3, lim=1, choices={106: 1, 116: 0, 126: 1})
        add('c22', method=0, iters=1, jac=1, n=5, fixed={**T0, **res(5, (2,)), **jac(5)})
        add('c22', method=0, iters=1, jac=1, n=8, fixed={**T0, **res(8, (2,)), **jac(8)})
        for m in (0, 2, 7):
            add('c22', method=m, damp=1, iters=12, jac=1, fixed={**T0, **falling(11, up=(2, 5))})
        add('c22', method=0, damp=1, iters=12, jac=1, faults=2, fixed={**T0, **falling(14, up=(2, 5))}, choices=calm(11))
        add('c22', method=0, iters=11, fixed={**T0, **falling(22)})
        for c in (1, 2):
            add('c22', method=0, damp=1, iters=1, jac=1, case=c)
            add('c22', method=2, damp=1, iters=1, jac=1, case=c, fixed={**T0, 20001: 0.0, **falling(4, base=20000)})
            add('c22', method=6, damp=1, iters=2, jac=1, faults=2, case=c, fixed={**T0, **falling(2), **falling(4, base=20000)},
                choices=calm(4, base=20000, but=(2,)))
        for n in (1, 2, 3):
            for lim in (0, 1, 2):
                k = n * 3 + lim
                add('c22t', n=n, lim=lim, case=1)
                add('c22t', n=n, lim=lim, method=k % 10, damp=k % 2, iters=k * 7, stop=(k * 5) % 27, upd=(k * 11 + 3) % 27)
        for m in range(10):
            add('c22t', method=m, damp=m % 2, iters=m * 37, stop=m % 3, upd=(m + 1) % 3)
        for m in (0, 2, 6):
            add('c22', method=m, iters=51, jac=1, damp=1, fixed=far())

    elif prop == 'C23':
        for m in range(10):
            for j in (0, 1):
                add('c23', method=m, damp=0 if m == 1 else 1, iters=2 if deep or m in (0, 2, 6) else 1, jac=j, faults=2)
        add('c23', method=0, iters=1, n=2, faults=2)
        add('c23', method=0, iters=12, jac=1, faults=2, choices=calm(10))
        add('c23', method=0, iters=2, n=3, jac=1, dyn=1, faults=2, fixed={**T0, **jac(3), **res(3), **jac(3, 1)})

    return r


# properties decided by the crate harness_xml
XML = ('C16',)
