"""Symbolic executor of LLVM IR."""
import math, re, struct, subprocess
from . import llparse as ll
from . import terms as t
from .terms import T, INF, NAN
from .doms import Excluded


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    """normal end of the harness"""


class Panic(Exception):
    def __init__(self, what):
        self.what = what


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ('size', 'base', 'cells', 'owner')

    def __init__(self, size, base, cells, owner):
        self.size = size
        self.base = base      # bytes (None: zeros)
        self.cells = cells    # off -> (size, value)
        self.owner = owner


class Frame:
    __slots__ = ('fn', 'code', 'ip', 'R', 'dst', 'block')


SHIFT = 40
OFFM = (1 << SHIFT) - 1
FNBASE = 1 << 62
GBASE = 1 << 16     # object numbers below: globals


class State:
    __slots__ = ('frames', 'mem', 'next', 'pc', 'decided', 'choices', 'env', 'steps', 'model', 'token', 'exc')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.next = GBASE
        self.pc = ()
        self.decided = {}
        self.choices = {}
        self.env = {}
        self.steps = 0
        self.model = None
        self.token = object()

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.next = self.next
        s.pc = self.pc
        s.decided = dict(self.decided)
        s.choices = dict(self.choices)
        s.env = dict(self.env)
        s.steps = self.steps
        s.model = self.model
        # both must copy the objects they write from now on
        self.token = object()
        for f in self.frames:
            g = Frame()
            g.fn = f.fn; g.code = f.code; g.ip = f.ip; g.R = list(f.R); g.dst = f.dst; g.block = f.block
            s.frames.append(g)
        return s

    # ------------------------------------------------ path condition
    def known(self, c):
        """1 / 0 when decided by the path, else None"""
        if type(c) is int:
            return c
        op = c.op
        if op == 'not':
            k = self.known(c.args[0])
            return None if k is None else 1 - k
        k = self.decided.get(c.id)
        if k is not None:
            return k
        if op == 'and':
            a = self.known(c.args[0])
            if a == 0:
                return 0
            b = self.known(c.args[1])
            if b == 0:
                return 0
            if a == 1 and b == 1:
                return 1
        return None

    def decide(self, c):
        k = self.known(c)
        if k is None:
            raise Fork(c)
        return k

    def learn(self, c, v):
        """c has the truth value v on this path"""
        if type(c) is int:
            return
        while c.op == 'not':
            c = c.args[0]
            v = 1 - v
        self.decided[c.id] = v
        if c.op == 'and':
            a, b = c.args
            if v:
                self.learn(a, 1)
                self.learn(b, 1)
            else:
                ka, kb = self.known(a), self.known(b)
                if ka == 1:
                    self.learn(b, 0)
                elif kb == 1:
                    self.learn(a, 0)
        elif v and c.op == 'rzero':
            n = t.mk('rneg', 'b', *c.args)
            if n.aux is None:
                n.aux = c.aux
            self.decided[n.id] = 0
        elif v and c.op == 'rneg':
            n = t.mk('rzero', 'b', *c.args)
            if n.aux is None:
                n.aux = c.aux
            self.decided[n.id] = 0

    def assume(self, c):
        if type(c) is int:
            return
        self.pc = self.pc + (c,)
        self.learn(c, 1)

    # ------------------------------------------------ memory
    def alloc(self, size, base=None):
        i = self.next
        self.next += 1
        self.mem[i] = Obj(size, base, {}, self.token)
        return i << SHIFT


class VM:
    def __init__(self, prog, dom, stubs=None):
        self.prog = prog
        self.dom = dom
        self.code = {}
        self.gaddr = {}
        self.gobj = {}       # number -> name
        self.gmem = {}       # materialised
        self.faddr = {}
        self.fname = {}
        self.dem = None
        self.used = set()
        self.max_steps = 20000000
        self.stub_cache = {}
        self.stubs = stubs or []
        self.owner0 = object()
        self.texts = []
        self.debug_log = False
        self.text_no = {}

    # ------------------------------------------------ names
    def demangle_all(self):
        names = list(self.prog.functions) + list(self.prog.declares)
        names = [n.strip('"') for n in names]
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = {n: re.sub(r'\[[0-9a-f]{8,}\]', '', d) for n, d in zip(names, r)}

    def pretty(self, n):
        return self.dem.get(n, n)

    # ------------------------------------------------ globals
    def addr(self, name, mod=None):
        if mod is not None:
            name = self.prog.gname(name, mod)
        a = self.gaddr.get(name)
        if a is None:
            if name in self.prog.globals:
                k, ty, c = self.prog.global_init(name)
                if k == 'alias':
                    a = self.const(c, self.prog.globals[name][1])
                else:
                    i = len(self.gobj) + 16
                    self.gobj[i] = name
                    a = i << SHIFT
            else:
                a = FNBASE + 16 * (len(self.faddr) + 1)
                self.faddr[name] = a
                self.fname[a] = name
            self.gaddr[name] = a
        return a

    def const(self, c, mod):
        if type(c) is tuple:
            if c[0] == 'g':
                return self.addr(c[1], mod) + c[2]
            if c[0] == 'cexpr':
                a, b = self.const(c[2], mod), self.const(c[3], mod)
                return (a - b if c[1] == 'sub' else a + b) & t.mask(c[4][1])
            if c[0] == 'bytes':
                return list(c[1])
        if type(c) is list:
            return [self.const(x, mod) for x in c]
        return c

    def materialise(self, i):
        o = self.gmem.get(i)
        if o is None:
            name = self.gobj[i]
            k, ty, c = self.prog.global_init(name)
            mod = self.prog.globals[name][1]
            size = ll.size_align(ty)[0]
            if k == 'extern':
                o = Obj(1 << 16, None, {}, None)
            else:
                base = bytearray(size)
                cells = {}
                self.fill(ty, c, 0, base, cells, mod)
                o = Obj(size, bytes(base), cells, None)
            self.gmem[i] = o
        return o

    def fill(self, ty, c, off, base, cells, mod):
        k = ty[0]
        if k == 'a' and type(c) is tuple and c[0] == 'bytes':
            base[off:off + len(c[1])] = c[1]
        elif k in 'ax':
            s = ll.size_align(ty[2])[0]
            for i, x in enumerate(c):
                self.fill(ty[2], x, off + i * s, base, cells, mod)
        elif k == 's':
            for i, x in enumerate(c):
                self.fill(ty[2][i], x, off + ll.field_off(ty, i), base, cells, mod)
        else:
            v = self.const(c, mod)
            s = ll.size_align(ty)[0]
            if type(v) is float:
                cells[off] = (s, v)
            elif v:
                cells[off] = (s, v)

    def obj(self, st, a):
        i = a >> SHIFT
        o = st.mem.get(i)
        if o is None:
            if i in self.gobj:
                return self.materialise(i)
            raise Unsupported('access to %x' % a)
        return o

    def wobj(self, st, a):
        i = a >> SHIFT
        o = st.mem.get(i)
        if o is None:
            if i not in self.gobj:
                raise Unsupported('write to %x' % a)
            o = self.materialise(i)
        if o.owner is not st.token:
            o = Obj(o.size, o.base, dict(o.cells), st.token)
            st.mem[i] = o
        return o

    def concrete_addr(self, st, a):
        while type(a) is T:
            if a.op == 'ite':
                a = a.args[1] if st.decide(a.args[0]) else a.args[2]
            else:
                raise Unsupported('symbolic address')
        return a

    def load(self, st, a, ty):
        k = ty[0]
        if type(a) is T:
            a = self.concrete_addr(st, a)
        if k == 's':
            return [self.load(st, a + ll.field_off(ty, i), x) for i, x in enumerate(ty[2])]
        if k in 'ax':
            s = ll.size_align(ty[2])[0]
            return [self.load(st, a + s * i, ty[2]) for i in range(ty[1])]
        s = ll.store_size(ty)
        v = self.read(st, a, s)
        return self.typed(v, ty)

    def typed(self, v, ty):
        """cell content as a register of that type"""
        k = ty[0]
        if k == 'f':
            if type(v) is int:
                return t.bitsf(v) if ty[1] == 64 else struct.unpack('<f', struct.pack('<I', v))[0]
            if type(v) is T and v.sort != 'f':
                return self.bits2f(v)
            return v
        if type(v) is float:
            if ll.store_size(ty) != 8:
                raise Unsupported('float cell')
            return t.fbits(v)
        if type(v) is T and v.sort == 'f':
            return t.mk('bits', 64, v)
        if k == 'i' and ty[1] == 1:
            if type(v) is int:
                return v & 1
            if v.sort != 'b':
                return self.trunc1(v)
            return v
        if type(v) is T and v.sort == 'b':
            return t.iite(v, 8 * ll.store_size(ty), 1, 0)
        if type(v) is int and k == 'i':
            return v & t.mask(ty[1])
        return v

    def trunc1(self, v):
        if v.op == 'ite':
            return t.bite(v.args[0], *(x & 1 if type(x) is int else self.trunc1(x) for x in v.args[1:]))
        raise Unsupported('trunc')

    def bits2f(self, v):
        if v.op == 'bits':
            return v.args[0]
        if v.op == 'cat':
            v = self.join(self.tobytes(v, 8))
            if v.op == 'bits':
                return v.args[0]
        if v.op == 'ite':
            return t.fite(v.args[0], *(t.bitsf(x) if type(x) is int else self.bits2f(x) for x in v.args[1:]))
        raise Unsupported('bits to double of %s' % v.op)

    def read(self, st, a, s):
        o = self.obj(st, a)
        off = a & OFFM
        c = o.cells.get(off)
        if c is not None and c[0] == s:
            return c[1]
        if off + s > o.size:
            raise Unsupported('read out of bounds %d+%d of %d' % (off, s, o.size))
        cells = o.cells
        hit = False
        for x in range(max(0, off - 15), off + s):
            c = cells.get(x)
            if c is not None and x + c[0] > off:
                hit = True
                break
        if not hit:
            if o.base is None:
                return 0
            return int.from_bytes(o.base[off:off + s], 'little')
        b = self.bytes_of(o, off, s)
        # a float cell read in halves etc.
        v = 0
        for i, x in enumerate(b):
            if type(x) is not int:
                return self.join(b)
            v |= x << (8 * i)
        return v

    def bytes_of(self, o, off, s):
        out = []
        i = off
        while i < off + s:
            for x in range(i, i - 16, -1):
                c = o.cells.get(x)
                if c is not None and x + c[0] > i:
                    v = c[1]
                    if type(v) is float:
                        v = t.fbits(v) if c[0] == 8 else struct.unpack('<I', struct.pack('<f', v))[0]
                    if type(v) is int:
                        out.append((v >> (8 * (i - x))) & 255)
                    else:
                        out.append(self.tobytes(v, c[0])[i - x])
                    break
            else:
                out.append(o.base[i] if o.base is not None else 0)
            i += 1
        return out

    @staticmethod
    def tobytes(v, n):
        """bytes of a value: integers or (term, its size, index of the byte)"""
        if type(v) is int:
            return [(v >> (8 * i)) & 255 for i in range(n)]
        if v.op == 'bits':
            v = v.args[0]
        if v.op == 'cat':
            a = v.args
            r = [a[i] if a[i + 1] == 0 else (a[i], a[i + 1], a[i + 2]) for i in range(0, len(a), 3)]
        elif v.sort == 'b':
            r = [(v, 1, 0)]
        elif v.sort == 'f':
            r = [(v, 8, i) for i in range(8)]
        else:
            # a case distinction between integers
            w = (v.sort + 7) // 8
            r = [(v, w, i) for i in range(w)]
        return (r + [0] * n)[:n]

    def join(self, b):
        """the value made of these bytes"""
        if all(type(x) is int for x in b):
            return int.from_bytes(bytes(b), 'little')
        n = len(b)
        f = b[0]
        if type(f) is tuple and f[2] == 0 and f[1] <= n and all(type(x) is tuple and x[0] is f[0] and x[2] == i for i, x in enumerate(b[:f[1]])):
            v = f[0]
            if all(type(x) is int and x == 0 for x in b[f[1]:]):
                if v.sort == 'f':
                    if f[1] == n:
                        return t.mk('bits', 64, v)
                elif v.sort == 'b':
                    return t.iite(v, 8 * n, 1, 0)
                else:
                    return self.imap(v, lambda x: x, 8 * n)
        vals = set(x[0] for x in b if type(x) is tuple)
        if len(vals) == 1:
            v = vals.pop()
            if v.sort != 'f' and (v.sort == 'b' or v.op == 'ite') and self.intite(v):
                def at(leaf):
                    r = 0
                    for i, x in enumerate(b):
                        r |= (x if type(x) is int else (leaf >> (8 * x[2])) & 255) << (8 * i)
                    return r
                if v.sort == 'b':
                    return t.iite(v, 8 * n, at(1), at(0))
                return self.imap(v, at, 8 * n)
        flat = []
        for x in b:
            flat += [x, 0, 0] if type(x) is int else list(x)
        return t.mk('cat', 8 * n, *flat)

    def intite(self, v):
        if type(v) is int or v.sort == 'b':
            return True
        return v.op == 'ite' and self.intite(v.args[1]) and self.intite(v.args[2])

    def imap(self, v, f, w):
        if type(v) is int:
            return f(v)
        if v.op != 'ite':
            raise Unsupported('integer operation on %s %s' % (v.op, f.__qualname__))
        a = self.imap(v.args[1], f, w)
        b = self.imap(v.args[2], f, w)
        return t.bite(v.args[0], a, b) if w == 1 else t.iite(v.args[0], w, a, b)

    def store(self, st, a, ty, v):
        k = ty[0]
        if type(a) is T:
            a = self.concrete_addr(st, a)
        if k == 's':
            for i, x in enumerate(ty[2]):
                self.store(st, a + ll.field_off(ty, i), x, v[i])
            return
        if k in 'ax':
            s = ll.size_align(ty[2])[0]
            for i in range(ty[1]):
                self.store(st, a + s * i, ty[2], v[i])
            return
        self.write(st, a, ll.store_size(ty), v)

    def write(self, st, a, s, v):
        o = self.wobj(st, a)
        off = a & OFFM
        if type(v) is T:
            if v.op == 'bits':
                v = v.args[0]
            elif v.op == 'cat' and s > 8 and s % 8 == 0:
                b = self.tobytes(v, s)
                for i in range(0, s, 8):
                    self.write(st, a + i, 8, self.join(b[i:i + 8]))
                return
        c = o.cells.get(off)
        if c is not None and c[0] == s:
            o.cells[off] = (s, v)
            return
        if off + s > o.size:
            raise Unsupported('write out of bounds %d+%d of %d' % (off, s, o.size))
        self.clear(o, off, s)
        o.cells[off] = (s, v)

    def clear(self, o, off, s):
        """remove the cells overlapping [off, off+s), keeping the rest of them"""
        cells = o.cells
        for x in range(max(0, off - 15), off + s):
            c = cells.get(x)
            if c is not None and x + c[0] > off:
                del cells[x]
                if x < off or x + c[0] > off + s:
                    v = c[1]
                    if type(v) is float:
                        v = t.fbits(v)
                    for i in range(c[0]):
                        if not off <= x + i < off + s:
                            if type(v) is not int:
                                cells[x + i] = (1, self.join([self.tobytes(v, c[0])[i]]))
                            else:
                                cells[x + i] = (1, (v >> (8 * i)) & 255)

    def copy(self, st, d, s, n):
        if n == 0:
            return
        so = self.obj(st, s)
        off = s & OFFM
        if off + n > so.size:
            raise Unsupported('copy out of bounds')
        got = []
        i = off
        end = off + n
        scells = so.cells
        if n > 64 and len(scells) * 4 < n:
            xs = sorted(x for x in scells if off - 15 <= x < end)
        else:
            xs = [x for x in range(max(0, off - 15), end) if x in scells]
        base = so.base
        covered = []
        for x in xs:
            c = scells[x]
            if x + c[0] <= off:
                continue
            if x >= off and x + c[0] <= end:
                got.append((x - off, c))
            else:
                lo, hi = max(x, off), min(x + c[0], end)
                for j, b in enumerate(self.bytes_of(so, lo, hi - lo)):
                    if type(b) is not int:
                        b = self.join([b])
                    got.append((lo + j - off, (1, b)))
        b = base[off:end] if base is not None else None
        do = self.wobj(st, d)
        doff = d & OFFM
        if doff + n > do.size:
            raise Unsupported('copy out of bounds')
        self.clear(do, doff, n)
        # bytes without cells
        if b is None:
            if do.base is not None:
                x = bytearray(do.base)
                x[doff:doff + n] = bytes(n)
                do.base = bytes(x)
        else:
            x = bytearray(do.base) if do.base is not None else bytearray(do.size)
            x[doff:doff + n] = b
            do.base = bytes(x)
        for k, c in got:
            do.cells[doff + k] = c

    def memset(self, st, d, v, n):
        if n == 0:
            return
        o = self.wobj(st, d)
        off = d & OFFM
        if off + n > o.size:
            raise Unsupported('memset out of bounds')
        self.clear(o, off, n)
        if v == 0 and o.base is None:
            return
        x = bytearray(o.base) if o.base is not None else bytearray(o.size)
        x[off:off + n] = bytes([v]) * n
        o.base = bytes(x)

    def write_bytes(self, st, a, b):
        if not b:
            return
        o = self.wobj(st, a)
        off = a & OFFM
        if off + len(b) > o.size:
            raise Unsupported('write out of bounds')
        self.clear(o, off, len(b))
        x = bytearray(o.base) if o.base is not None else bytearray(o.size)
        x[off:off + len(b)] = b
        o.base = bytes(x)

    def text_of(self, v):
        """the number of the text of v"""
        k = v if type(v) is T else struct.pack('<d', v)
        if k not in self.text_no:
            self.text_no[k] = len(self.texts)
            self.texts.append(v)
        return self.text_no[k]

    def read_bytes(self, st, a, n):
        """concrete bytes"""
        if n == 0:
            return b''
        o = self.obj(st, a)
        b = self.bytes_of(o, a & OFFM, n)
        if any(type(x) is not int for x in b):
            raise Unsupported('symbolic bytes')
        return bytes(b)

    # ------------------------------------------------ compilation
    def compile(self, name):
        c = self.code.get(name)
        if c is None:
            f = self.prog.function(name)
            if f is None:
                return None
            f.parse()
            c = self.code[name] = Code(self, f)
        return c

    # ------------------------------------------------ run
    def start(self, name, st):
        self.push(st, self.compile(name), [], None)

    def push(self, st, code, args, dst):
        self.used.add(code.name)
        fr = Frame()
        fr.fn = code
        fr.block = code.entry
        fr.code = code.blocks[code.entry]
        fr.ip = 0
        R = code.proto[:]
        for i, v in enumerate(args):
            R[i] = v
        fr.R = R
        fr.dst = dst
        st.frames.append(fr)
        if len(st.frames) > 300:
            raise Unsupported('call depth')

    def run(self, st):
        """runs until an exception"""
        frames = st.frames
        while True:
            fr = frames[-1]
            R = fr.R
            code = fr.code
            ip = fr.ip
            st.steps += len(code) - ip
            if st.steps > self.max_steps:
                raise Unsupported('too many steps')
            try:
                n = len(code)
                while ip < n:
                    if code[ip](st, R):
                        # control left this block
                        break
                    ip += 1
            except Fork:
                fr.ip = ip
                raise

    # a terminator or call closure sets up the frame itself and returns True


class Code:
    def __init__(self, vm, f):
        self.vm = vm
        self.f = f
        self.name = f.name
        self.mod = f.module
        self.slots = {}
        self.consts = []
        for ty, nm in f.params:
            self.slot(nm)
        for b in f.order:
            for i in f.blocks[b]:
                if i.dst is not None:
                    self.slot(i.dst)
        self.n = len(self.slots)
        self.entry = f.order[0]
        self.blocks = {}
        self.phis = {}
        for b in f.order:
            ph = [i for i in f.blocks[b] if i.op == 'phi']
            if ph:
                d = {}
                for i in ph:
                    for a, l in i.a:
                        d.setdefault(l, []).append((self.slots[i.dst], self.opnd(a, i.ty)))
                self.phis[b] = d
        for b in f.order:
            self.blocks[b] = []
        # entry label may be unnamed: predecessors name it %N or %start
        for b in f.order:
            ins = f.blocks[b]
            code = self.blocks[b]
            for k, i in enumerate(ins):
                if i.op == 'phi':
                    continue
                g = self.instr(i, b, len(code))
                if g is not None:
                    code.append(g)
        self.proto = [None] * self.n + self.consts

    def slot(self, nm):
        i = self.slots.get(nm)
        if i is None:
            i = self.slots[nm] = len(self.slots)
        return i

    def opnd(self, o, ty=None):
        """-> index in the registers"""
        if o[0] == 'r':
            return self.slots[o[1]]
        v = self.vm.const(o[1], self.mod)
        self.consts.append(v)
        return self.n_regs() + len(self.consts) - 1

    def n_regs(self):
        return self.n if hasattr(self, 'n') else None

    # ------------------------------------------------ jumps
    def jump(self, src, dst):
        """-> f(st, R) moving to block dst"""
        blocks = self.blocks
        ph = self.phis.get(dst)
        moves = None
        if ph:
            moves = ph.get(src)
            if moves is None:
                # unnamed entry block
                moves = next(v for k, v in ph.items() if k not in blocks)
        if not moves:
            def go(st, R):
                fr = st.frames[-1]
                fr.code = blocks[dst]
                fr.block = dst
                fr.ip = 0
                return True
        elif len(moves) == 1:
            (d, s), = moves

            def go(st, R):
                R[d] = R[s]
                fr = st.frames[-1]
                fr.code = blocks[dst]
                fr.block = dst
                fr.ip = 0
                return True
        else:
            ds = [m[0] for m in moves]
            ss = [m[1] for m in moves]

            def go(st, R):
                vs = [R[s] for s in ss]
                for d, v in zip(ds, vs):
                    R[d] = v
                fr = st.frames[-1]
                fr.code = blocks[dst]
                fr.block = dst
                fr.ip = 0
                return True
        return go

    # ------------------------------------------------ instructions
    def instr(self, i, blk, pos):
        vm = self.vm
        dom = vm.dom
        op = i.op
        d = self.slots.get(i.dst) if i.dst is not None else None
        A = i.a
        ty = i.ty
        if op == 'jmp':
            return self.jump(blk, A[0])
        if op == 'br':
            c = self.opnd(A[0])
            a = self.jump(blk, A[1])
            b = self.jump(blk, A[2])

            def br(st, R):
                v = R[c]
                if type(v) is not int:
                    v = st.decide(v)
                return a(st, R) if v else b(st, R)
            return br
        if op == 'switch':
            c = self.opnd(A[0])
            dj = self.jump(blk, A[1])
            tab = {k: self.jump(blk, l) for k, l in A[2]}

            def switch(st, R):
                v = R[c]
                if type(v) is not int:
                    v = vm.force(st, v)
                return tab.get(v, dj)(st, R)
            return switch
        if op == 'ret':
            s = self.opnd(A[0]) if A[0] is not None else None

            def ret(st, R):
                fr = st.frames.pop()
                if not st.frames:
                    raise PathEnd()
                if fr.dst is not None:
                    st.frames[-1].R[fr.dst] = R[s]
                return True
            return ret
        if op == 'unreachable':
            def unreachable(st, R):
                raise Panic('unreachable')
            return unreachable
        if op == 'call':
            return self.call(i, d, pos)
        if op in ll.BIN:
            a, b = self.opnd(A[0]), self.opnd(A[1])
            if ty[0] == 'x':
                return self.vecbin(op, ty, d, a, b)
            if op[0] == 'f' and op != 'freeze':
                f = {'fadd': dom.add, 'fsub': dom.sub, 'fmul': dom.mul, 'fdiv': dom.div, 'frem': dom.rem}[op]
                if ty[1] != 64:
                    return self.unsupported('float type')

                def fop(st, R):
                    R[d] = f(st, R[a], R[b])
                return fop
            w = ty[1]
            m = t.mask(w)
            if w == 1:
                g = {'and': t.band, 'or': t.bor, 'xor': t.bxor, 'add': t.bxor, 'sub': t.bxor, 'mul': t.band}[op]

                def bop(st, R):
                    R[d] = g(R[a], R[b])
                return bop
            if op == 'add':
                def add(st, R):
                    x, y = R[a], R[b]
                    if type(x) is int and type(y) is int:
                        R[d] = (x + y) & m
                    else:
                        R[d] = vm.isym(st, op, w, x, y)
                return add
            if op == 'sub':
                def sub(st, R):
                    x, y = R[a], R[b]
                    if type(x) is int and type(y) is int:
                        R[d] = (x - y) & m
                    else:
                        R[d] = vm.isym(st, op, w, x, y)
                return sub

            def gen(st, R):
                x, y = R[a], R[b]
                if type(x) is int and type(y) is int:
                    R[d] = t.iop(op, w, x, y)
                else:
                    R[d] = vm.isym(st, op, w, x, y)
            return gen
        if op == 'icmp':
            pred = A[0]
            a, b = self.opnd(A[1]), self.opnd(A[2])
            w = 64 if ty[0] == 'p' else ty[1] if ty[0] == 'i' else None
            if w is None:
                return self.unsupported('icmp %s' % (ty,))
            if pred == 'eq':
                def ieq(st, R):
                    x, y = R[a], R[b]
                    if type(x) is int and type(y) is int:
                        R[d] = 1 if x == y else 0
                    else:
                        R[d] = vm.icmp_sym(st, pred, w, x, y)
                return ieq

            def icmp(st, R):
                x, y = R[a], R[b]
                if type(x) is int and type(y) is int:
                    R[d] = t.icmp_c(pred, w, x, y)
                else:
                    R[d] = vm.icmp_sym(st, pred, w, x, y)
            return icmp
        if op == 'fcmp':
            pred = A[0]
            a, b = self.opnd(A[1]), self.opnd(A[2])

            def fcmp(st, R):
                R[d] = dom.cmp(st, pred, R[a], R[b])
            return fcmp
        if op == 'select':
            c, a, b = self.opnd(A[0]), self.opnd(A[1]), self.opnd(A[2])
            k = ty[0]

            def select(st, R):
                v = R[c]
                if type(v) is int:
                    R[d] = R[a] if v else R[b]
                else:
                    q = st.known(v)
                    if q is not None:
                        R[d] = R[a] if q else R[b]
                    elif k == 'f':
                        R[d] = dom.select(st, v, R[a], R[b])
                    elif k == 'i':
                        R[d] = t.bite(v, R[a], R[b]) if ty[1] == 1 else t.iite(v, ty[1], R[a], R[b])
                    else:
                        R[d] = R[a] if st.decide(v) else R[b]
            return select
        if op == 'load':
            a = self.opnd(A[0])
            if ty == ('f', 64) or ty == ll.PTR or ty == ('i', 64):
                isf = ty[0] == 'f'

                def load8(st, R):
                    p = R[a]
                    if type(p) is int:
                        o = st.mem.get(p >> SHIFT)
                        if o is not None:
                            c = o.cells.get(p & OFFM)
                            if c is not None and c[0] == 8:
                                v = c[1]
                                tv = type(v)
                                if isf:
                                    if tv is float:
                                        R[d] = v
                                        return
                                elif tv is int:
                                    R[d] = v
                                    return
                                R[d] = vm.typed(v, ty)
                                return
                    R[d] = vm.load(st, p, ty)
                return load8

            def load(st, R):
                R[d] = vm.load(st, R[a], ty)
            return load
        if op == 'store':
            v, a = self.opnd(A[0]), self.opnd(A[1])
            if ty[0] in 'pi' or ty == ('f', 64):
                s = ll.store_size(ty)

                def store1(st, R):
                    p = R[a]
                    if type(p) is T:
                        p = vm.concrete_addr(st, p)
                    vm.write(st, p, s, R[v])
                return store1

            def store(st, R):
                vm.store(st, R[a], ty, R[v])
            return store
        if op == 'alloca':
            n = self.opnd(A[0])
            s = ll.size_align(ty)[0]

            def alloca(st, R):
                R[d] = st.alloc(s * R[n])
            return alloca
        if op == 'getelementptr':
            return self.gep(i, d)
        if op in ll.CAST:
            ft, a0 = A
            a = self.opnd(a0)
            return self.cast(op, ft, ty, a, d)
        if op == 'freeze':
            a = self.opnd(A[0])

            def freeze(st, R):
                R[d] = R[a]
            return freeze
        if op == 'fneg':
            a = self.opnd(A[0])

            def fneg(st, R):
                R[d] = dom.neg(st, R[a])
            return fneg
        if op == 'extractvalue':
            a = self.opnd(A[0])
            idx = A[1]

            def extract(st, R):
                v = R[a]
                for k in idx:
                    v = v[k]
                R[d] = v
            return extract
        if op == 'insertvalue':
            a, b = self.opnd(A[0]), self.opnd(A[1])
            idx = A[2]

            def insert(st, R):
                v = R[a]
                R[d] = ins(v, idx, R[b])
            return insert
        if op == 'extractelement':
            a, b = self.opnd(A[0]), self.opnd(A[1])

            def ee(st, R):
                R[d] = R[a][R[b]]
            return ee
        if op == 'insertelement':
            a, b, c = self.opnd(A[0]), self.opnd(A[1]), self.opnd(A[2])

            def ie(st, R):
                v = list(R[a])
                v[R[c]] = R[b]
                R[d] = v
            return ie
        if op == 'shufflevector':
            a, b = self.opnd(A[0]), self.opnd(A[1])
            m = A[2]

            def sv(st, R):
                v = list(R[a]) + list(R[b])
                R[d] = [v[k] for k in m]
            return sv
        if op == 'nop':
            return None
        return self.unsupported('%s in %s: %s' % (op, self.name, i.text[:80]))

    def unsupported(self, what):
        def f(st, R):
            raise Unsupported(what)
        return f

    def vecbin(self, op, ty, d, a, b):
        vm = self.vm
        dom = vm.dom
        et = ty[2]
        if et == ('f', 64):
            f = {'fadd': dom.add, 'fsub': dom.sub, 'fmul': dom.mul, 'fdiv': dom.div, 'frem': dom.rem}[op]

            def vf(st, R):
                R[d] = [f(st, x, y) for x, y in zip(R[a], R[b])]
            return vf
        w = et[1]

        def vi(st, R):
            R[d] = [t.iop(op, w, x, y) if type(x) is int and type(y) is int else vm.isym(st, op, w, x, y)
                    for x, y in zip(R[a], R[b])]
        return vi

    def gep(self, i, d):
        vm = self.vm
        base = self.opnd(i.a[0])
        ct = i.ty
        off = 0
        dyn = []
        first = True
        for it, o in i.a[1]:
            if first:
                sc = ll.size_align(ct)[0]
                first = False
                nt = ct
            elif ct[0] == 's':
                k = o[1]
                off += ll.field_off(ct, k)
                ct = ct[2][k]
                continue
            else:
                nt = ct[2]
                sc = ll.size_align(nt)[0]
            if o[0] == 'c':
                off += t.sgn(o[1], it[1]) * sc
            else:
                dyn.append((self.opnd(o), sc, it[1]))
            ct = nt
        M = t.mask(64)
        if not dyn:
            def gep0(st, R):
                p = R[base]
                if type(p) is T:
                    p = vm.concrete_addr(st, p)
                R[d] = (p + off) & M
            return gep0

        def gepn(st, R):
            p = R[base]
            if type(p) is T:
                p = vm.concrete_addr(st, p)
            p += off
            for x, sc, w in dyn:
                v = R[x]
                if type(v) is not int:
                    v = vm.force(st, v)
                p += t.sgn(v, w) * sc
            R[d] = p & M
        return gepn

    def cast(self, op, ft, ty, a, d):
        vm = self.vm
        dom = vm.dom
        if ft[0] == 'x':
            return self.unsupported('vector cast')
        if op in ('zext', 'sext', 'trunc'):
            fw, tw = ft[1], ty[1]

            def ext(st, R):
                v = R[a]
                if type(v) is int:
                    if op == 'sext':
                        v = t.sgn(v, fw) & t.mask(tw)
                    elif op == 'trunc':
                        v &= t.mask(tw)
                    R[d] = v
                elif v.op == 'cat' or v.op == 'bits':
                    if op == 'sext' or tw % 8 or fw % 8:
                        raise Unsupported('%s of the bits of a double' % op)
                    R[d] = vm.join(vm.tobytes(v, tw // 8))
                elif v.sort == 'b':
                    R[d] = t.iite(v, tw, t.mask(tw) if op == 'sext' else 1, 0)
                elif op == 'zext':
                    R[d] = vm.imap(v, lambda x: x, tw)
                elif op == 'sext':
                    R[d] = vm.imap(v, lambda x: t.sgn(x, fw) & t.mask(tw), tw)
                elif tw == 1:
                    R[d] = vm.trunc1(v)
                else:
                    R[d] = vm.imap(v, lambda x: x & t.mask(tw), tw)
            return ext
        if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr', 'addrspacecast'):
            def p2i(st, R):
                R[d] = R[a]
            return p2i
        if op == 'bitcast':
            def bc(st, R):
                v = R[a]
                R[d] = vm.typed(v, ty)
            return bc
        if op in ('uitofp', 'sitofp'):
            w = ft[1]

            def itof(st, R):
                v = R[a]
                if type(v) is not int:
                    v = vm.force(st, v)
                R[d] = float(t.sgn(v, w) if op == 'sitofp' else v)
            return itof
        return self.unsupported('%s %s' % (op, ty))

    def call(self, i, d, pos):
        vm = self.vm
        callee, args = i.a
        idx = [self.opnd(o) for ty, o in args]
        nxt = pos + 1
        if callee[0] == 'g':
            name = callee[1]
            if name not in vm.prog.functions and name in vm.prog.globals:
                # an alias
                name = vm.fname.get(vm.addr(name), name)
            f = vm.prog.functions.get(name)
            stub = vm.find_stub(name, f is not None)
            if stub is None and f is not None:
                code = []

                def callf(st, R):
                    if not code:
                        code.append(vm.compile(name))
                    st.frames[-1].ip = nxt
                    vm.push(st, code[0], [R[k] for k in idx], d)
                    return True
                return callf
            if stub is None:
                return self.unsupported('external %s' % vm.pretty(name))
            rt = i.ty
            atys = [ty for ty, _ in args]

            def callstub(st, R):
                r = stub(vm, st, [R[k] for k in idx], rt)
                if r is CALLED:
                    # the stub pushed a frame itself
                    st.frames[-2].ip = nxt
                    st.frames[-1].dst = d
                    return True
                if d is not None:
                    R[d] = r
            return callstub
        p = self.opnd(callee)
        rt = i.ty

        def callp(st, R):
            a = R[p]
            if type(a) is T:
                a = vm.concrete_addr(st, a)
            name = vm.fname.get(a)
            if name is None:
                raise Unsupported('indirect call of %x' % a)
            stub = vm.find_stub(name, name in vm.prog.functions)
            argv = [R[k] for k in idx]
            if stub is not None:
                r = stub(vm, st, argv, rt)
                if r is CALLED:
                    st.frames[-2].ip = nxt
                    st.frames[-1].dst = d
                    return True
                if d is not None:
                    R[d] = r
                return
            code = vm.compile(name)
            if code is None:
                raise Unsupported('external %s' % vm.pretty(name))
            st.frames[-1].ip = nxt
            vm.push(st, code, argv, d)
            return True
        return callp


CALLED = object()


def ins(v, idx, x):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = x
    else:
        v[idx[0]] = ins(v[idx[0]], idx[1:], x)
    return v


def _force(self, st, v):
    """concrete value of an integer (splits the path)"""
    while type(v) is T:
        if v.sort == 'b':
            return st.decide(v)
        if v.op == 'ite':
            v = v.args[1] if st.decide(v.args[0]) else v.args[2]
        else:
            raise Unsupported('symbolic integer %s' % v.op)
    return v


def leaves(v):
    if type(v) is int:
        return 1
    if v.op == 'ite':
        return leaves(v.args[1]) + leaves(v.args[2])
    return 1


SIGN = 1 << 63


def _isym(self, st, op, w, x, y):
    if type(x) is T and x.op == 'cat' or type(y) is T and y.op == 'cat' or \
            w > 64 and (type(x) is T and x.op == 'bits' or type(y) is T and y.op == 'bits'):
        n = w // 8
        if op in ('shl', 'lshr') and type(y) is int and y % 8 == 0 and w % 8 == 0:
            k = y // 8
            ps = self.tobytes(x, n)
            return self.join(([0] * k + ps)[:n] if op == 'shl' else (ps[k:] + [0] * n)[:n])
        if op in ('or', 'add', 'xor', 'and') and w % 8 == 0:
            r = []
            for a, b in zip(self.tobytes(x, n), self.tobytes(y, n)):
                if type(b) is not int:
                    a, b = b, a
                if type(a) is int and op != 'add':
                    r.append(t.iop(op, 8, a, b))
                elif type(b) is int and (op != 'and' and b == 0 or op == 'and' and b == 255):
                    r.append(a)
                elif type(b) is int and op == 'and' and b == 0:
                    r.append(0)
                else:
                    raise Unsupported('%s on wide integers' % op)
            return self.join(r)
        raise Unsupported('%s on wide integers' % op)
    xb = type(x) is T and x.op == 'bits'
    yb = type(y) is T and y.op == 'bits'
    if yb and not xb and op in ('and', 'or', 'xor', 'add', 'mul'):
        x, y, xb, yb = y, x, yb, xb
    if xb:
        f = x.args[0]
        dom = self.dom
        if op == 'and' and y == SIGN - 1:
            return t.mk('bits', 64, dom.abs(st, f))
        if op == 'and' and y == SIGN:
            return t.iite(t.fsign(f), 64, SIGN, 0)
        if op == 'xor' and y == SIGN:
            return t.mk('bits', 64, dom.neg(st, f))
        if op == 'or' and y == SIGN:
            return t.mk('bits', 64, dom.neg(st, dom.abs(st, f)))
        if op == 'lshr' and y == 63:
            return t.iite(t.fsign(f), 64, 1, 0)
        if op == 'ashr' and y == 63:
            return t.iite(t.fsign(f), 64, t.mask(64), 0)
        raise Unsupported('%s on the bits of a double' % op)
    if leaves(x) * leaves(y) > 8:
        if type(x) is T:
            x = _force(self, st, x)
        if type(y) is T:
            y = _force(self, st, y)
        return t.iop(op, w, x, y)

    def f(a, b):
        if type(a) is T:
            if a.op != 'ite':
                raise Unsupported('%s on %s' % (op, a.op))
            return t.iite(a.args[0], w, f(a.args[1], b), f(a.args[2], b))
        if type(b) is T:
            if b.op != 'ite':
                raise Unsupported('%s on %s' % (op, b.op))
            return t.iite(b.args[0], w, f(a, b.args[1]), f(a, b.args[2]))
        return t.iop(op, w, a, b)
    return f(x, y)


FLIP = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'eq': 'eq', 'ne': 'ne'}


def _icmp_sym(self, st, pred, w, x, y):
    if x is y:
        return t.icmp_c(pred, w, 0, 0)
    xs = type(x) is T and x.sort == 'b'
    ys = type(y) is T and y.sort == 'b'
    if w == 1 or xs or ys:
        if pred == 'eq':
            return t.bnot(t.bxor(x, y))
        if pred == 'ne':
            return t.bxor(x, y)
        if pred in ('ult', 'sgt'):
            return t.band(t.bnot(x), y)
        if pred in ('ugt', 'slt'):
            return t.band(x, t.bnot(y))
        if pred in ('ule', 'sge'):
            return t.bor(t.bnot(x), y)
        return t.bor(x, t.bnot(y))
    if type(y) is T and y.op == 'bits' and type(x) is int:
        x, y, pred = y, x, FLIP[pred]
    if type(x) is T and x.op == 'bits':
        f = x.args[0]
        if type(y) is int:
            INFB = 0x7ff0000000000000
            g = t.bitsf(y)
            if pred in ('eq', 'ne'):
                if g != g:
                    raise Unsupported('bits of a NaN')
                c = self.dom.cmp(st, 'oeq', f, g)
                if g == 0.0:
                    s = t.fsign(f)
                    c = t.band(c, s if y else t.bnot(s))
                return c if pred == 'eq' else t.bnot(c)
            nonneg = type(f) is T and f.op in ('abs',) or t.fsign(f) == 0 if type(f) is T and f.op != 'rf' else False
            if pred in ('slt',) and y == 0:
                return t.fsign(f)
            if pred == 'sgt' and y == t.mask(64):
                return t.bnot(t.fsign(f))
            if nonneg and pred[0] in 'us' and y <= INFB:
                c = {'lt': lambda: self.dom.cmp(st, 'olt', f, g), 'le': lambda: self.dom.cmp(st, 'ole', f, g),
                     'gt': lambda: self.dom.cmp(st, 'ugt', f, g), 'ge': lambda: self.dom.cmp(st, 'uge', f, g)}[pred[1:]]()
                return c
        if type(y) is T and y.op == 'bits' and pred in ('eq', 'ne'):
            g = y.args[0]
            c = t.bor(t.band(t.feq(f, g), t.bnot(t.bxor(t.fsign(f), t.fsign(g)))), t.band(t.fnan(f), t.fnan(g)))
            return c if pred == 'eq' else t.bnot(c)
        raise Unsupported('comparison of the bits of a double')
    if leaves(x) * leaves(y) > 16:
        if type(x) is T:
            x = _force(self, st, x)
        if type(y) is T:
            y = _force(self, st, y)
        return t.icmp_c(pred, w, x, y)

    def f(a, b):
        if type(a) is T:
            if a.op != 'ite':
                raise Unsupported('icmp on %s' % a.op)
            return t.bite(a.args[0], f(a.args[1], b), f(a.args[2], b))
        if type(b) is T:
            if b.op != 'ite':
                raise Unsupported('icmp on %s' % b.op)
            return t.bite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
        return t.icmp_c(pred, w, a, b)
    return f(x, y)


VM.force = _force
VM.isym = _isym
VM.icmp_sym = _icmp_sym


def _find_stub(self, name, has_body):
    k = name
    s = self.stub_cache.get(k, 0)
    if s == 0:
        from . import stubs
        s = stubs.find(self, name, has_body)
        self.stub_cache[k] = s
    return s


VM.find_stub = _find_stub
