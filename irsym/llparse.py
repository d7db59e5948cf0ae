"""Parser of the textual LLVM IR emitted by rustc (the subset it uses)."""
import re, struct, lzma

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"])*")
 | (?P<gid>@(?:"[^"]*"|[-\w.$]+))
 | (?P<lid>%(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>![-\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>[-+]?\d+\.\d+(?:e[-+]?\d+)?|[-+]?(?:inf|qnan|nan|snan)(?:\([^)]*\))?|f?0x[0-9A-Fa-fKLMHR]+|-?\d+)
 | (?P<word>[A-Za-z_][-\w.]*)
 | (?P<str>"[^"]*")
 | (?P<p>\.\.\.|[(){}\[\]<>,=*:|^;])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ParseError('token at %r' % s[i:i + 60])
        k = m.lastgroup
        if k == 'p' and m.group() == ';':
            # comment
            j = s.find('\n', i)
            if j < 0:
                break
            i = j
            continue
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


# ---- types: ('i',n) ('f',64|32) ('p',) ('v',) ('a',n,t) ('s',packed,(t..)) ('x',n,t) ('fn',)
PTR = ('p',)
VOID = ('v',)


class TypeTable(dict):
    pass


def size_align(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        s = 1
        while s < b:
            s *= 2
        return s, min(s, 16)
    if k == 'f':
        return t[1] // 8, t[1] // 8
    if k == 'p':
        return 8, 8
    if k == 'a':
        s, a = size_align(t[2])
        return s * t[1], a
    if k == 'x':
        s, a = size_align(t[2])
        return s * t[1], s * t[1]
    if k == 's':
        off = 0
        al = 1
        for x in t[2]:
            s, a = size_align(x)
            if not t[1]:
                off = (off + a - 1) // a * a
                al = max(al, a)
            off += s
        off = (off + al - 1) // al * al
        return off, al
    raise ParseError('size of %r' % (t,))


def store_size(t):
    if t[0] == 'i':
        return (t[1] + 7) // 8
    return size_align(t)[0]


def field_off(t, idx):
    off = 0
    for i, x in enumerate(t[2]):
        s, a = size_align(x)
        if not t[1]:
            off = (off + a - 1) // a * a
        if i == idx:
            return off
        off += s
    raise ParseError('field')


class P:
    """Token stream."""
    __slots__ = ('t', 'i', 'types')

    def __init__(self, toks, types):
        self.t = toks
        self.i = 0
        self.types = types

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('end', '')

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def need(self, s):
        x = self.next()
        if x[1] != s:
            raise ParseError('expected %r got %r in %r' % (s, x, ' '.join(a[1] for a in self.t[:40])))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace':
                    self.next(); self.need('('); self.next(); self.need(')')
            elif v == 'void':
                t = VOID
            elif v == 'double':
                t = ('f', 64)
            elif v == 'float':
                t = ('f', 32)
            elif v == 'metadata':
                t = ('m',)
            elif v == 'half':
                t = ('f', 16)
            elif v == 'fp128':
                t = ('f', 128)
            elif v == 'label':
                t = ('l',)
            elif re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            else:
                raise ParseError('type %r' % v)
        elif v == '[':
            n = int(self.next()[1]); self.need('x'); e = self.type(); self.need(']')
            t = ('a', n, e)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = ('s', True, tuple(self.types_until('}')))
                self.need('>')
            else:
                n = int(self.next()[1]); self.need('x'); e = self.type(); self.need('>')
                t = ('x', n, e)
        elif v == '{':
            t = ('s', False, tuple(self.types_until('}')))
        elif k == 'lid':
            t = self.types[v]
        else:
            raise ParseError('type %r' % v)
        while self.peek()[1] == '(' and False:
            pass
        return t

    def types_until(self, end):
        r = []
        if self.eat(end):
            return r
        while True:
            r.append(self.type())
            if self.eat(end):
                return r
            self.need(',')


PARAM_ATTR_ARGS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'range',
                   'initializes', 'nofpclass', 'elementtype', 'dead_on_return', 'preallocated', 'inalloca', 'memory'}
PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'writable', 'signext',
               'zeroext', 'inreg', 'nofree', 'nest', 'returned', 'immarg', 'swiftself', 'dead_on_unwind', 'noext', 'allocptr', 'allocalign'} | PARAM_ATTR_ARGS


def skip_attrs(p):
    while p.peek()[0] == 'word' and p.peek()[1] in PARAM_ATTRS:
        w = p.next()[1]
        if p.peek()[1] == '(':
            d = 0
            while True:
                v = p.next()[1]
                if v == '(':
                    d += 1
                elif v == ')':
                    d -= 1
                    if d == 0:
                        break
        elif w == 'align' and p.peek()[0] == 'num':
            p.next()


# ---- constants: python int / float / ('g',name,off) lazily / list / ('undef',)
UNDEF = ('undef',)


def parse_num(t, v):
    if t[0] == 'f':
        if v.startswith('f0x'):
            b = int(v[3:], 16)
            return struct.unpack('<d', struct.pack('<Q', b))[0] if t[1] == 64 else struct.unpack('<f', struct.pack('<I', b))[0]
        if v.startswith('0x'):
            return struct.unpack('<d', struct.pack('<Q', int(v[2:], 16)))[0]
        w = v.lstrip('+-')
        neg = v.startswith('-')
        if w.startswith('inf'):
            x = float('inf')
        elif 'nan' in w:
            x = float('nan')
        else:
            x = float(w)
        return -x if neg else x
    if t[0] == 'i':
        return int(v) & ((1 << t[1]) - 1)
    raise ParseError('num %r %r' % (t, v))


def parse_const(p, t):
    """constant of type t; globals are ('g', name, offset)"""
    k, v = p.peek()
    if k == 'num':
        p.next()
        return parse_num(t, v)
    if k == 'gid':
        p.next()
        return ('g', v[1:].strip('"'), 0)
    if k == 'cstr':
        p.next()
        return ('bytes', unescape(v[2:-1]))
    if k == 'word':
        if v == 'true':
            p.next(); return 1
        if v == 'false':
            p.next(); return 0
        if v == 'null':
            p.next(); return 0
        if v in ('undef', 'poison'):
            p.next(); return zero_of(t)
        if v == 'zeroinitializer':
            p.next(); return zero_of(t)
        if v == 'none':
            p.next(); return 0
        if v == 'splat':
            p.next(); p.need('('); et = p.type(); x = parse_const(p, et); p.need(')')
            return [x] * t[1]
        if v == 'getelementptr':
            p.next()
            while p.peek()[0] == 'word' and p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            if p.peek()[1] == 'inrange':
                p.next(); skip_par(p)
            p.need('(')
            et = p.type(); p.need(',')
            bt = p.type(); base = parse_const(p, bt)
            off = 0
            first = True
            ct = et
            while p.eat(','):
                it = p.type(); idx = parse_const(p, it)
                if idx >= 1 << (it[1] - 1):
                    idx -= 1 << it[1]
                if first:
                    off += idx * size_align(et)[0]
                    first = False
                else:
                    if ct[0] == 's':
                        off += field_off(ct, idx); ct = ct[2][idx]
                    else:
                        off += idx * size_align(ct[2])[0]; ct = ct[2]
            p.need(')')
            if isinstance(base, int):
                return base + off
            return ('g', base[1], base[2] + off)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'ptrtoaddr'):
            p.next(); p.need('('); ft = p.type(); x = parse_const(p, ft); p.need('to'); p.type(); p.need(')')
            return x
        if v in ('sub', 'add'):
            p.next()
            while p.peek()[1] in ('nuw', 'nsw'):
                p.next()
            p.need('('); at = p.type(); a = parse_const(p, at); p.need(','); bt = p.type(); b = parse_const(p, bt); p.need(')')
            return ('cexpr', v, a, b, at)
        if v in ('dso_local_equivalent', 'no_cfi'):
            p.next()
            return parse_const(p, t)
    if v == '[':
        p.next()
        r = []
        if p.eat(']'):
            return r
        while True:
            et = p.type(); r.append(parse_const(p, et))
            if p.eat(']'):
                return r
            p.need(',')
    if v == '{':
        p.next()
        return const_list(p, '}')
    if v == '<':
        p.next()
        if p.eat('{'):
            r = const_list(p, '}')
            p.need('>')
            return r
        return const_list(p, '>')
    raise ParseError('const %r of %r' % (p.peek(), t))


def const_list(p, end):
    r = []
    if p.eat(end):
        return r
    while True:
        et = p.type(); r.append(parse_const(p, et))
        if p.eat(end):
            return r
        p.need(',')


def skip_par(p):
    p.need('(')
    d = 1
    while d:
        v = p.next()[1]
        if v == '(':
            d += 1
        elif v == ')':
            d -= 1


def zero_of(t):
    k = t[0]
    if k == 'i' or k == 'p':
        return 0
    if k == 'f':
        return 0.0
    if k in 'ax':
        return [zero_of(t[2]) for _ in range(t[1])]
    if k == 's':
        return [zero_of(x) for x in t[2]]
    return 0


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text')

    def __init__(self, op, dst, ty, a, text=''):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.text = text

    def __repr__(self):
        return 'Instr(%s,%s,%s,%s)' % (self.op, self.dst, self.ty, self.a)


class Function:
    def __init__(self, name, ret, params, lines, module):
        self.name = name; self.ret = ret; self.params = params; self.lines = lines; self.module = module
        self.blocks = None
        self.order = None

    def parse(self):
        if self.blocks is not None:
            return
        self.blocks = {}
        self.order = []
        cur = None
        lines = self.lines
        i = 0
        types = self.module.types
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l.strip() or l.startswith(';'):
                continue
            if not l.startswith(' '):
                m = re.match(r'("(?:[^"]*)"|[-\w.$]+):', l)
                if not m:
                    raise ParseError('label %r' % l)
                cur = []
                nm = '%' + m.group(1)
                self.blocks[nm] = cur
                self.order.append(nm)
                continue
            if cur is None:
                cur = []
                self.blocks['%entry?'] = cur
                self.order.append('%entry?')
            s = l.strip()
            if s.startswith('switch') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip(); i += 1
                s += ' ]'; i += 1
            if s.startswith('#dbg') or s.startswith(';'):
                continue
            cur.append(parse_instr(s, types))


FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'inbounds', 'nusw', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
         'contract', 'afn', 'reassoc', 'volatile', 'tail', 'musttail', 'notail', 'atomic', 'same_sign'}
CC = {'fastcc', 'ccc', 'coldcc', 'cold', 'preserve_mostcc', 'rustcc'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext',
        'fptrunc', 'addrspacecast', 'ptrtoaddr'}


def operand(p, t):
    k, v = p.peek()
    if k == 'lid':
        p.next()
        return ('r', v)
    return ('c', parse_const(p, t))


def parse_instr(s, types):
    p = P(tokenize(s), types)
    dst = None
    if p.peek()[0] == 'lid' and p.peek(1)[1] == '=':
        dst = p.next()[1]
        p.next()
    op = p.next()[1]
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    flags = []
    if op != 'call':
        while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
            flags.append(p.next()[1])
    if op in BIN:
        t = p.type(); a = operand(p, t); p.need(','); b = operand(p, t)
        return Instr(op, dst, t, (a, b, flags), s)
    if op == 'fneg' or op == 'freeze':
        t = p.type(); a = operand(p, t)
        return Instr(op, dst, t, (a, flags), s)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        t = p.type(); a = operand(p, t); p.need(','); b = operand(p, t)
        return Instr(op, dst, t, (pred, a, b), s)
    if op in CAST:
        t = p.type(); a = operand(p, t); p.need('to'); t2 = p.type()
        return Instr(op, dst, t2, (t, a), s)
    if op == 'load':
        t = p.type(); p.need(','); p.type(); a = operand(p, PTR)
        return Instr(op, dst, t, (a,), s)
    if op == 'store':
        t = p.type(); v = operand(p, t); p.need(','); p.type(); a = operand(p, PTR)
        return Instr(op, None, t, (v, a), s)
    if op == 'alloca':
        t = p.type()
        n = ('c', 1)
        if p.peek()[1] == ',' and p.peek(1)[1] != 'align' and p.peek(1)[0] != 'meta':
            p.next(); it = p.type(); n = operand(p, it)
        return Instr(op, dst, t, (n,), s)
    if op == 'getelementptr':
        et = p.type(); p.need(','); p.type(); base = operand(p, PTR)
        idx = []
        while p.peek()[1] == ',' and p.peek(1)[0] != 'meta':
            p.next(); it = p.type(); idx.append((it, operand(p, it)))
        return Instr(op, dst, et, (base, idx), s)
    if op == 'select':
        p.type(); c = operand(p, ('i', 1)); p.need(','); t = p.type(); a = operand(p, t); p.need(','); p.type(); b = operand(p, t)
        return Instr(op, dst, t, (c, a, b), s)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.need('['); a = operand(p, t); p.need(','); l = p.next()[1]; p.need(']')
            inc.append((a, l))
            if not (p.peek()[1] == ',' and p.peek(1)[1] == '['):
                break
            p.next()
        return Instr(op, dst, t, inc, s)
    if op == 'br':
        if p.eat('label'):
            return Instr('jmp', None, None, (p.next()[1],), s)
        p.type(); c = operand(p, ('i', 1)); p.need(','); p.need('label'); a = p.next()[1]; p.need(','); p.need('label'); b = p.next()[1]
        return Instr('br', None, None, (c, a, b), s)
    if op == 'switch':
        t = p.type(); v = operand(p, t); p.need(','); p.need('label'); d = p.next()[1]; p.need('[')
        cases = []
        while not p.eat(']'):
            ct = p.type(); c = parse_const(p, ct); p.need(','); p.need('label'); cases.append((c, p.next()[1]))
        return Instr(op, None, t, (v, d, cases), s)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return Instr(op, None, t, (None,), s)
        return Instr(op, None, t, (operand(p, t),), s)
    if op == 'unreachable':
        return Instr(op, None, None, (), s)
    if op == 'extractvalue':
        t = p.type(); a = operand(p, t)
        idx = []
        while p.peek()[1] == ',' and p.peek(1)[0] == 'num':
            p.next(); idx.append(int(p.next()[1]))
        return Instr(op, dst, t, (a, idx), s)
    if op == 'insertvalue':
        t = p.type(); a = operand(p, t); p.need(','); t2 = p.type(); b = operand(p, t2)
        idx = []
        while p.peek()[1] == ',' and p.peek(1)[0] == 'num':
            p.next(); idx.append(int(p.next()[1]))
        return Instr(op, dst, t, (a, b, idx), s)
    if op == 'extractelement':
        t = p.type(); a = operand(p, t); p.need(','); it = p.type(); i = operand(p, it)
        return Instr(op, dst, t, (a, i), s)
    if op == 'insertelement':
        t = p.type(); a = operand(p, t); p.need(','); et = p.type(); b = operand(p, et); p.need(','); it = p.type(); i = operand(p, it)
        return Instr(op, dst, t, (a, b, i), s)
    if op == 'shufflevector':
        t = p.type(); a = operand(p, t); p.need(','); p.type(); b = operand(p, t); p.need(','); mt = p.type(); m = parse_const(p, mt)
        return Instr(op, dst, t, (a, b, m), s)
    if op == 'call':
        while p.peek()[0] == 'word' and (p.peek()[1] in FLAGS or p.peek()[1] in CC):
            p.next()
        skip_attrs(p)
        rt = p.type()
        if p.peek()[1] == '(':   # function type
            skip_par(p)
        k, v = p.peek()
        if k == 'gid':
            p.next(); callee = ('g', v[1:].strip('"'), 0)
        elif k == 'word' and v == 'asm':
            return Instr('asm', dst, rt, (), s)
        else:
            callee = operand(p, PTR)
        p.need('(')
        args = []
        while not p.eat(')'):
            at = p.type()
            if at == ('m',):
                while p.peek()[1] not in (',', ')'):
                    if p.peek()[1] == '(':
                        skip_par(p)
                    else:
                        p.next()
                args.append((at, ('c', 0)))
            else:
                skip_attrs(p)
                args.append((at, operand(p, at)))
            if not p.eat(','):
                p.need(')')
                break
        return Instr(op, dst, rt, (callee, args), s)
    if op == 'fence':
        return Instr('nop', None, None, (), s)
    if op in ('atomicrmw', 'cmpxchg'):
        return Instr(op, dst, None, (s,), s)
    raise ParseError('instr %r' % s)


class Module:
    def __init__(self, path, program):
        self.path = path
        self.types = {}
        self.prog = program
        self.attrs = {}
        self.load()

    def load(self):
        prog = self.prog
        op = lzma.open if self.path.endswith('.xz') else open
        lines = op(self.path, 'rt', encoding='utf-8', errors='replace').read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l:
                continue
            c = l[0]
            if c == '@':
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
                name = m.group(1).strip('"')
                self.prog.add_global(name, m.group(2), self)
            elif c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)', l)
                if m and m.group(2) != 'opaque':
                    self.types[m.group(1)] = P(tokenize(m.group(2)), self.types).type()
            elif l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                prog.add_function(l, lines[i:j], self)
                i = j + 1
            elif l.startswith('declare'):
                prog.add_declare(l, self)
            elif l.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrs[m.group(1)] = m.group(2)


NAME = re.compile(r'@("[^"]*"|[-\w.$]+)\(')


class Program:
    def __init__(self):
        self.functions = {}
        self.globals = {}
        self.declares = {}
        self.modules = []
        # the standard library: functions used for the names without a body
        self.library = set()
        self.lib = {}

    def add_module(self, path):
        self.modules.append(Module(path, self))

    def add_library(self, path):
        before = set(self.functions)
        self.add_module(path)
        self.library.update(n for n in self.functions if n not in before)

    def index_library(self, dem, stubbed):
        for n in self.library:
            d = dem.get(n, n)
            if stubbed(d):
                h, lines, mod = self.functions.pop(n)
                self.add_declare('declare' + h[6:], mod)
            else:
                self.lib[d] = n

    def add_global(self, name, text, mod):
        if re.match(r'(private|internal)\b', text):
            name = name + '\0' + mod.path
        self.globals.setdefault(name, (text, mod))

    def gname(self, name, mod):
        l = name + '\0' + mod.path
        return l if l in self.globals else name

    def add_function(self, header, lines, mod):
        m = NAME.search(header)
        name = m.group(1).strip('"')
        if name in self.functions:
            return
        self.functions[name] = (header, lines, mod)

    def add_declare(self, l, mod):
        m = NAME.search(l)
        if not m:
            return
        name = m.group(1).strip('"')
        a = re.findall(r'#\d+', l[m.end():])
        self.declares.setdefault(name, (l, a, mod))

    def noreturn(self, name):
        d = self.declares.get(name)
        if not d:
            return False
        l, a, mod = d
        return 'noreturn' in l or any('noreturn' in mod.attrs.get(x, '') for x in a)

    def function(self, name):
        f = self.functions.get(name)
        if f is None:
            return None
        if isinstance(f, tuple):
            header, lines, mod = f
            m = NAME.search(header)
            params, ret = self.parse_header(header, m, mod)
            f = Function(name, ret, params, lines, mod)
            self.functions[name] = f
        return f

    def parse_header(self, header, m, mod):
        # parameters
        toks = tokenize(header[m.end():].rsplit('{', 1)[0] if header.endswith('{') else header[m.end():])
        p = P(toks, mod.types)
        params = []
        while not p.eat(')'):
            if p.eat('...'):
                continue
            t = p.type()
            skip_attrs(p)
            nm = None
            if p.peek()[0] == 'lid':
                nm = p.next()[1]
            else:
                nm = '%%%d' % len(params)
            params.append((t, nm))
            if not p.eat(','):
                p.need(')')
                break
        return params, None

    def global_init(self, name):
        """-> (kind, type, const) kind in var/alias/extern"""
        text, mod = self.globals[name]
        p = P(tokenize(text), mod.types)
        ext = False
        while True:
            k, v = p.peek()
            if v in ('global', 'constant'):
                p.next()
                break
            if v == 'alias':
                p.next()
                # type , type const
                d = 0
                while True:
                    x = p.next()[1]
                    if x in '([{<':
                        d += 1
                    elif x in ')]}>':
                        d -= 1
                    elif x == ',' and d == 0:
                        break
                t = p.type()
                return ('alias', t, parse_const(p, t))
            if v in ('external', 'extern_weak'):
                ext = True
            if v == '(':
                skip_par(p)
            else:
                p.next()
        t = p.type()
        if ext:
            return ('extern', t, None)
        return ('var', t, parse_const(p, t))
