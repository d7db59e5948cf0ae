"""Functions whose body is not in the IR, and the interface of the harnesses."""
import math, re
from . import terms as t
from .terms import T
from .vm import Unsupported, Panic, PathEnd, CALLED, SHIFT, OFFM

# functions of the formatting machinery, replaced by IR of the harness crate
REDIRECT = [
    (r'<core::fmt::Formatter>::write_str$', 'rt_write_str'),
    (r'<core::fmt::Formatter>::pad$', None),
    (r'core::fmt::write$', 'rt_fmt_write'),
    (r'alloc::fmt::format::format_inner$', 'rt_format'),
    (r'<str as core::fmt::(Display|Debug)>::fmt$', 'rt_str_fmt'),
    (r'<(f32|char) as core::fmt::\w+>::fmt$', 'rt_any_fmt'),
    (r'core::fmt::float::\w+', 'rt_any_fmt'),
]

NORETURN = re.compile(r'(core::panicking::|core::option::(unwrap|expect)_failed|core::result::unwrap_failed|std::panicking::|'
                      r'core::slice::index::\w*(fail|panic)|core::str::slice_error_fail|alloc::raw_vec::(handle_error|capacity_overflow)|'
                      r'alloc::alloc::handle_alloc_error|core::cell::panic_|std::process::abort|core::slice::copy_from_slice_impl::|alloc::vec::.*assert_failed)')


def redirect(target):
    def f(vm, st, a, rt):
        code = vm.compile(target)
        if code is None:
            raise Unsupported('no %s' % target)
        vm.push(st, code, a[:len(code.f.params)], None)
        return CALLED
    return f


def panic_stub(what):
    def f(vm, st, a, rt):
        raise Panic(what)
    return f


def find(vm, name, has_body):
    if name.startswith('llvm.'):
        return intrinsic(name)
    if name in API:
        return API[name]
    d = vm.pretty(name)
    if vm.overrides:
        for r, f in vm.overrides:
            if r.search(d):
                return f
    if has_body:
        return None
    m = re.search(r'__rust_(\w+)$', d)
    if m:
        return ALLOC.get(m.group(1))
    m = SCALAR.match(d)
    if m:
        return scalar_fmt(m.group(1), m.group(2) is not None)
    for r, target in REDIRECT:
        if re.match(r, d):
            if target:
                return redirect(target)
    if NORETURN.match(d) or vm.prog.noreturn(name):
        return panic_stub(d)
    for r, f in MISC:
        if re.match(r, d):
            return f
    if name in LIBC:
        return LIBC[name]
    lib = vm.prog.lib.get(d)
    return redirect(lib) if lib else None


def stubbed(d):
    return bool(SCALAR.match(d) or NORETURN.match(d) or any(re.match(r, d) for r, x in REDIRECT if x) or any(re.match(r, d) for r, _ in MISC))


# ------------------------------------------------------------ allocation

def s_alloc(vm, st, a, rt):
    n = a[0] if type(a[0]) is int else vm.force(st, a[0])
    return st.alloc(n)


def s_realloc(vm, st, a, rt):
    p, old, al, new = a
    q = st.alloc(new)
    vm.copy(st, q, p, min(old, new))
    return q


def s_dealloc(vm, st, a, rt):
    st.mem.pop(a[0] >> SHIFT, None)


def nop(vm, st, a, rt):
    return 0


ALLOC = {'alloc': s_alloc, 'alloc_zeroed': s_alloc, 'realloc': s_realloc, 'dealloc': s_dealloc,
         'no_alloc_shim_is_unstable_v2': nop, 'no_alloc_shim_is_unstable': nop}


# ------------------------------------------------------------ intrinsics

def intrinsic(name):
    p = name.split('.')
    k = p[1]
    if k in ('lifetime', 'assume', 'experimental', 'dbg', 'invariant', 'prefetch'):
        return nop
    if k == 'expect':
        return lambda vm, st, a, rt: a[0]
    if k in ('memcpy', 'memmove'):
        def f(vm, st, a, rt):
            d, s, n = (vm.concrete_addr(st, x) if i < 2 else x for i, x in enumerate(a[:3]))
            if type(n) is not int:
                n = vm.force(st, n)
            vm.copy(st, d, s, n)
        return f
    if k == 'memset':
        def f(vm, st, a, rt):
            d = vm.concrete_addr(st, a[0])
            v, n = a[1], a[2]
            if type(v) is not int:
                v = vm.force(st, v)
            vm.memset(st, d, v, n)
        return f
    if k == 'fabs':
        return lambda vm, st, a, rt: vm.dom.abs(st, a[0])
    if k == 'copysign':
        return lambda vm, st, a, rt: vm.dom.cps(st, a[0], a[1])
    if k == 'sqrt':
        return lambda vm, st, a, rt: vm.dom.sqrt(st, a[0])
    if k in ('maxnum', 'maximumnum', 'minnum', 'minimumnum'):
        mx = k.startswith('max')
        return lambda vm, st, a, rt: vm.dom.minmax(st, a[0], a[1], mx)
    if k in ('fmuladd',):
        return lambda vm, st, a, rt: vm.dom.add(st, vm.dom.mul(st, a[0], a[1]), a[2])
    if k == 'fma':
        def f(vm, st, a, rt):
            if vm.dom.name == 'real':
                return vm.dom.add(st, vm.dom.mul(st, a[0], a[1]), a[2])
            raise Unsupported('fma')
        return f
    if k == 'powi':
        def f(vm, st, a, rt):
            n = t.sgn(a[1], 32)
            if abs(n) > (16 if vm.dom.name == 'real' else 4):
                raise Unsupported('powi')
            r = 1.0
            for _ in range(abs(n)):
                r = vm.dom.mul(st, r, a[0])
            return r if n >= 0 else vm.dom.div(st, 1.0, r)
        return f
    if k in ('umax', 'umin', 'smax', 'smin'):
        w = int(p[2][1:])

        def f(vm, st, a, rt):
            x, y = (v if type(v) is int else vm.force(st, v) for v in a)
            u, v = (x, y) if k[0] == 'u' else (t.sgn(x, w), t.sgn(y, w))
            return x if (u > v) == (k[1:] == 'max') else y
        return f
    if k == 'abs':
        w = int(p[2][1:])
        return lambda vm, st, a, rt: abs(t.sgn(a[0], w)) & t.mask(w)
    if len(p) > 3 and p[2] == 'with':
        op = k[1:]
        w = int(p[4][1:])

        def f(vm, st, a, rt):
            x, y = (v if type(v) is int else vm.force(st, v) for v in a)
            if k[0] == 's':
                x, y = t.sgn(x, w), t.sgn(y, w)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            m = r & t.mask(w)
            o = (m if k[0] == 'u' else t.sgn(m, w)) != r
            return [m, 1 if o else 0]
        return f
    if p[-2:-1] == ['sat'] or k.endswith('sat') or (len(p) > 2 and p[2] == 'sat'):
        w = int(p[-1][1:])

        def f(vm, st, a, rt):
            x, y = (v if type(v) is int else vm.force(st, v) for v in a)
            if k[0] == 's':
                x, y = t.sgn(x, w), t.sgn(y, w)
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            else:
                lo, hi = 0, t.mask(w)
            r = x + y if k[1:] == 'add' else x - y
            return max(lo, min(hi, r)) & t.mask(w)
        return f
    if k == 'ctpop':
        return lambda vm, st, a, rt: bin(a[0]).count('1')
    if k in ('ctlz', 'cttz'):
        w = int(p[2][1:])

        def f(vm, st, a, rt):
            x = a[0] if type(a[0]) is int else vm.force(st, a[0])
            if x == 0:
                return w
            return w - x.bit_length() if k == 'ctlz' else (x & -x).bit_length() - 1
        return f
    if k in ('fshl', 'fshr'):
        w = int(p[2][1:])

        def f(vm, st, a, rt):
            x, y, s = a
            s %= w
            v = (x << w) | y
            return ((v << s) >> w) & t.mask(w) if k == 'fshl' else (v >> s) & t.mask(w)
        return f
    if k == 'bswap':
        w = int(p[2][1:])
        return lambda vm, st, a, rt: int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
    if k == 'load' and p[2] == 'relative':
        def f(vm, st, a, rt):
            base, off = a
            c = vm.read(st, base + t.sgn(off, 64), 4)
            if type(c) is not int:
                raise Unsupported('relative load')
            # (constants are not truncated: differences of addresses of two objects)
            return (base + (c if c >> 32 else t.sgn(c, 32))) & t.mask(64)
        return f
    if k == 'ucmp' or k == 'scmp':
        w = int(p[-1][1:])
        rw = int(p[2][1:])

        def f(vm, st, a, rt):
            x, y = (v if type(v) is int else vm.force(st, v) for v in a)
            if k == 'scmp':
                x, y = t.sgn(x, w), t.sgn(y, w)
            return ((x > y) - (x < y)) & t.mask(rw)
        return f
    if k == 'is':   # llvm.is.fpclass
        def f(vm, st, a, rt):
            x, m = a
            c = 0
            dom = vm.dom
            nan = dom.cmp(st, 'uno', x, x)
            if m & 3 == 3:
                c = t.bor(c, nan)
            elif m & 3:
                raise Unsupported('fpclass')
            sg = (lambda: t.fsign(x)) if dom.name == 'fp' else (lambda: dom.cmp(st, 'olt', x, 0.0))
            if m & 4:
                c = t.bor(c, dom.cmp(st, 'oeq', x, -t.INF))
            if m & 0x200:
                c = t.bor(c, dom.cmp(st, 'oeq', x, t.INF))
            MIN = 2.2250738585072014e-308
            for bit, lo, hi in ((8, -1.7976931348623157e308, -MIN), (0x100, MIN, 1.7976931348623157e308)):
                if m & bit:
                    c = t.bor(c, t.band(dom.cmp(st, 'oge', x, lo), dom.cmp(st, 'ole', x, hi)))
            if m & 0x10:
                c = t.bor(c, t.band(dom.cmp(st, 'ogt', x, -MIN), dom.cmp(st, 'olt', x, 0.0)))
            if m & 0x80:
                c = t.bor(c, t.band(dom.cmp(st, 'olt', x, MIN), dom.cmp(st, 'ogt', x, 0.0)))
            if m & 0x60:
                z = dom.cmp(st, 'oeq', x, 0.0)
                if m & 0x60 == 0x20:
                    z = t.band(z, sg())
                elif m & 0x60 == 0x40:
                    z = t.band(z, t.bnot(sg()))
                c = t.bor(c, z)
            return c
        return f
    if k == 'trap':
        return panic_stub('trap')
    if k in ('floor', 'ceil', 'rint', 'round', 'trunc', 'roundeven', 'nearbyint'):
        def f(vm, st, a, rt):
            x = a[0]
            if type(x) is float:
                if x != x or math.isinf(x):
                    return x
                return float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(k, round)(x))
            raise Unsupported(name)
        return f
    return None


# ------------------------------------------------------------ libc and std

def s_memcmp(vm, st, a, rt):
    n = a[2]
    if n == 0:
        return 0
    x, y = vm.read_bytes(st, a[0], n), vm.read_bytes(st, a[1], n)
    return ((x > y) - (x < y)) & t.mask(32)


def s_bcmp(vm, st, a, rt):
    return s_memcmp(vm, st, a, rt)


def s_strlen(vm, st, a, rt):
    n = 0
    while vm.read_bytes(st, a[0] + n, 1) != b'\0':
        n += 1
    return n


LIBC = {'memcmp': s_memcmp, 'bcmp': s_bcmp, 'strlen': s_strlen, 'close': nop}


def s_ok(vm, st, a, rt):
    return 0


def s_charcount(vm, st, a, rt):
    b = vm.read_bytes(st, a[0], a[1])
    return sum(1 for x in b if x & 0xC0 != 0x80)


# The files: env['fs'] is { path: content }, env['fd'] the opened ones
# (path, append, position), their index + 7 being the descriptor.

def s_file_write(vm, st, a, rt):
    """io::Result<usize>: everything is written"""
    fd = vm.read(st, a[0], 4)
    path, append, pos = st.env['fd'][fd - 7]
    fs = st.env['fs'] = dict(st.env['fs'])
    text = fs.get(path, b'')
    if append:
        pos = len(text)
    new = vm.read_bytes(st, a[1], a[2])
    fs[path] = text[:pos].ljust(pos, b'\0') + new + text[pos + len(new):]
    st.env['fd'] = st.env['fd'][:fd - 7] + ((path, append, pos + len(new)),) + st.env['fd'][fd - 6:]
    # returned as { i64 tag, ptr }
    return [0, a[2]]


def s_ref_file_write(vm, st, a, rt):
    return s_file_write(vm, st, [vm.read(st, a[0], 8)] + a[1:], rt)


def s_fs_write(vm, st, a, rt):
    """std::fs::write::inner(path, contents) -> io::Result<()>"""
    fs = st.env['fs'] = dict(st.env.get('fs', {}))
    fs[vm.read_bytes(st, a[0], a[1])] = vm.read_bytes(st, a[2], a[3])
    return 0


def s_open(vm, st, a, rt):
    """OpenOptions::_open(&self, path) -> io::Result<File>
    (std::sys::fs::unix::OpenOptions: custom_flags, mode, read, write, append,
    truncate, create, create_new)"""
    out, o = a[0], vm.read_bytes(st, a[1] + 8, 6)
    path = vm.read_bytes(st, a[2], a[3])
    read, write, append, truncate, create, new = o
    fs = st.env['fs'] = dict(st.env.get('fs', {}))
    if (path not in fs and not (create or new)) or (new and path in fs) or not (write or append):
        # Err(io::Error: os error)
        vm.write(st, out, 4, 1)
        vm.write(st, out + 8, 8, 2 << 32 | 2)
        return
    if truncate or path not in fs:
        fs[path] = b''
    st.env['fd'] = st.env.get('fd', ()) + ((path, append, 0),)
    vm.write(st, out, 4, 0)
    vm.write(st, out + 4, 4, 6 + len(st.env['fd']))


# Text of scalars. A number which is not concrete has no text: it is written as
# #k, k being its index in vm.texts; the harness gets the number back by
# log_number. (A precision or another format loses digits: no number there.)
SCALAR = re.compile(r'<(f64|[iu](?:8|16|32|64|128|size)|bool) as core::fmt::(?:(Display|Debug|LowerExp|UpperExp)|\w+)>::fmt$')
PRECISION = 1 << 28


def scalar_fmt(kind, exact):
    w = 8 if kind == 'f64' else 1 if kind == 'bool' else 8 if kind[1:] == 'size' else int(kind[1:]) // 8

    def f(vm, st, a, rt):
        v = vm.load(st, a[0], ('f', 64)) if kind == 'f64' else vm.read(st, a[0], w)
        if kind == 'f64':
            flags = vm.read(st, a[1] + 16, 4)
            text = '~' if not exact or flags & PRECISION else '#%d' % vm.text_of(v)
        elif type(v) is not int:
            text = '0'
        elif kind == 'bool':
            text = 'true' if v & 1 else 'false'
        else:
            text = str(t.sgn(v, 8 * w) if kind[0] == 'i' else v)
        p = st.alloc(len(text))
        vm.write_bytes(st, p, text.encode())
        code = vm.compile('rt_write_str')
        vm.push(st, code, [a[1], p, len(text)], None)
        return CALLED
    return f


def s_read_to_string(vm, st, a, rt):
    """io::Result<String>: a file written before or the empty text (the
    documents come from doc.rs)"""
    text = st.env.get('fs', {}).get(vm.read_bytes(st, a[1], a[2]), b'')
    p = 1
    if text:
        p = st.alloc(len(text))
        vm.write_bytes(st, p, text)
    for i, v in enumerate((len(text), p, len(text))):
        vm.write(st, a[0] + 8 * i, 8, v)


FLOAT = re.compile(rb'[+-]?(inf|infinity|nan|([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]+)?)$', re.I)


def s_float_parse(vm, st, a, rt):
    """Result<f64, ParseFloatError>; the text @k stands for the symbol k"""
    b = vm.read_bytes(st, a[1], a[2])
    if b[:1] == b'@':
        v = API['__sym_f64'](vm, st, [int(b[1:])], None)
    elif FLOAT.match(b):
        v = float(b)
    else:
        vm.write(st, a[0], 1, 1)
        vm.write(st, a[0] + 1, 1, 1 if b else 0)
        return
    vm.write(st, a[0], 1, 0)
    vm.write(st, a[0] + 8, 8, v)


def s_debug_struct(vm, st, a, rt):
    """builders: { fmt, result, has_fields }; only the success matters"""
    return None


def s_ret_self(vm, st, a, rt):
    return a[0]


def s_int_fmt(vm, st, a, rt):
    """decimal digits in a buffer"""
    x = str(a[0]).encode() if type(a[0]) is int else b'0'
    for i, c in enumerate(x):
        vm.write(st, a[1] + i, 1, c)
    return [a[1], len(x)]


def s_dgemm(vm, st, a, rt):
    """matrixmultiply::gemm::dgemm: c = alpha * a * b + beta * c, by its
    definition (nalgebra calls it from 6 rows on); the order of the sums of the
    kernels, which depends on the processor, is not modelled"""
    m, k, n, alpha, A, rsa, csa, B, rsb, csb, beta, C, rsc, csc = a
    F, d = ('f', 64), vm.dom
    rsa, csa, rsb, csb, rsc, csc = (8 * t.sgn(x, 64) for x in (rsa, csa, rsb, csb, rsc, csc))
    for i in range(m):
        for j in range(n):
            s = 0.0
            for l in range(k):
                s = d.add(st, s, d.mul(st, vm.load(st, A + i * rsa + l * csa, F), vm.load(st, B + l * rsb + j * csb, F)))
            s = d.mul(st, alpha, s)
            if type(beta) is not float or beta != 0.0:
                s = d.add(st, s, d.mul(st, beta, vm.load(st, C + i * rsc + j * csc, F)))
            vm.store(st, C + i * rsc + j * csc, F, s)


MISC = [
    (r'matrixmultiply::gemm::dgemm$', s_dgemm),
    (r'<[iu](8|16|32|64|128|size)>::_fmt$', s_int_fmt),
    (r'<core::fmt::Formatter>::debug_\w+_finish$', s_ok),
    (r'<core::fmt::Formatter>::debug_(struct|tuple|list|set|map)$', s_debug_struct),
    (r'<core::fmt::builders::\w+>::(field|entry|entries)$', s_ret_self),
    (r'<core::fmt::builders::\w+>::finish$', s_ok),
    (r'core::str::count::', s_charcount),
    (r'std::fs::read_to_string::inner$', s_read_to_string),
    (r'<f64 as core::str::traits::FromStr>::from_str$', s_float_parse),
    (r'<std::fs::File as core::io::write::Write>::write$', s_file_write),
    (r'<&std::fs::File as core::io::write::Write>::write$', s_ref_file_write),
    (r'<&?std::fs::File as core::io::write::Write>::flush$', s_ok),
    (r'<std::fs::File>::sync_(all|data)$', s_ok),
    (r'std::fs::write::inner$', s_fs_write),
    (r'<std::fs::OpenOptions>::_open$', s_open),
]

# ------------------------------------------------------------ the harness

API = {}


def api(f):
    API['__' + f.__name__] = f
    return f


@api
def sym_f64(vm, st, a, rt):
    i = vm.force(st, a[0])
    f = vm.fixed.get(i)
    if f is not None:
        return f
    vm.syms.add(i)
    return vm.dom.sym(st, i)


class NeedChoice(Exception):
    def __init__(self, i, n):
        self.i = i
        self.n = n


@api
def choice(vm, st, a, rt):
    i, n = vm.force(st, a[0]), vm.force(st, a[1])
    v = st.choices.get(i)
    if v is None:
        if n <= 1:
            return 0
        if i in vm.fixed_choices:
            v = st.choices[i] = vm.fixed_choices[i]
        else:
            raise NeedChoice(i, n)
    return v


@api
def param(vm, st, a, rt):
    return vm.params.get(vm.force(st, a[0]), 0)


class AssumeFalse(Exception):
    pass


@api
def assume(vm, st, a, rt):
    vm.h.assume(st, a[0])


@api
def check(vm, st, a, rt):
    vm.h.check(st, a[0], vm.force(st, a[1]))


@api
def check_kf(vm, st, a, rt):
    vm.h.check(st, a[0], vm.force(st, a[3]), known=a[1], kf=vm.force(st, a[2]))


@api
def check_eq(vm, st, a, rt):
    vm.h.check(st, vm.h.equal(st, a[0], a[1]), vm.force(st, a[3]))


@api
def check_eq_alt(vm, st, a, rt):
    label, kf = vm.force(st, a[6]), vm.force(st, a[5])
    e = vm.h.equal(st, a[0], a[1])
    if type(e) is int and e:
        vm.h.check(st, 1, label)
    else:
        vm.h.check(st, e, label, known=vm.h.equal(st, a[2], a[3]), kf=kf)


@api
def near(vm, st, a, rt):
    return vm.h.equal(st, a[0], a[1])


@api
def same(vm, st, a, rt):
    return vm.h.equal(st, a[0], a[1])


@api
def panic_mode(vm, st, a, rt):
    st.env['panic'] = (vm.force(st, a[0]), vm.force(st, a[1]))


@api
def reach(vm, st, a, rt):
    vm.h.reach(st, vm.force(st, a[0]))


@api
def log_text(vm, st, a, rt):
    """the content of the file of that name, in a buffer; its length"""
    text = st.env.get('fs', {}).get(vm.read_bytes(st, a[0], a[1]), b'')
    if vm.debug_log:
        print(text.decode())
    if len(text) > a[3]:
        raise Unsupported('long log')
    vm.write_bytes(st, a[2], text)
    return len(text)


@api
def number(vm, st, a, rt):
    """the number that text is"""
    b = vm.read_bytes(st, a[0], a[1])
    if b[:1] == b'#':
        vm.write(st, a[2], 8, vm.texts[int(b[1:])])
    elif FLOAT.match(b):
        vm.write(st, a[2], 8, float(b))
    else:
        return 0
    return 1


# ------------------------------------------------ the configuration files

@api
def document(vm, st, a, rt):
    return None


def s_try(vm, st, a, rt):
    name = vm.fname.get(a[0])
    code = vm.compile(name)
    st.env['try'] = (len(st.frames), code.name)
    vm.push(st, code, [], None)
    return CALLED


API['__try'] = s_try
