"""Exploration of the paths of one harness and decision of its checks."""
import os, random, subprocess, time
from fractions import Fraction
from . import terms as t
from . import poly as pl
from .terms import T
from .vm import VM, State, Fork, PathEnd, Panic, Unsupported
from .doms import FP, Real, Excluded
from .enc import Abstract, Exact, Reals, STATS
from .stubs import NeedChoice, AssumeFalse

NICE = [1.0, 0.0, -1.0, 2.0, 0.5, -2.0, 3.0, 0.25, 10.0, 1e-3, 100.0, t.INF, -t.INF, t.NAN]


class Stop(Exception):
    pass


class Explorer:
    def __init__(self, prog, dem, entry, params, domain='fp', labels=None, opts=None):
        self.opts = dict(time=600, paths=200000, query_ms=4000, exact_ms=20000, replay=None, entry=entry, workdir='/tmp',
                         rtol=1e-6, tag='job', stop_first=True, validate=0, seed=1)
        self.opts.update(opts or {})
        self.domain = domain
        self.dom = FP() if domain == 'fp' else Real()
        self.enc = Abstract() if domain == 'fp' else Reals()
        self.vm = VM(prog, self.dom)
        self.vm.dem = dem
        self.vm.h = self
        self.vm.params = params
        self.vm.syms = set()
        self.vm.fixed = {k: float(v) for k, v in (self.opts.get('fixed') or {}).items()}
        self.vm.fixed_choices = self.opts.get('choices') or {}
        self.vm.overrides = None
        self.params = params
        self.entry = entry
        self.labels = labels      # None: every label
        self.r = dict(paths=0, ends={}, reach={}, checks=0, trivial=0, discharged=0, violations=[], known=[], undecided=[],
                      unsupported={}, excluded={}, panics={}, forks=0, spurious=0, exact_used=0, lemma_used=0, steps=0, validated=0,
                      validation_failures=[])
        self.work = []
        self.rng = random.Random(self.opts['seed'])
        self.cache = {}
        self.nfile = 0
        self.kf_done = set()
        self.t0 = time.time()

    # ------------------------------------------------ solver
    def sat(self, cs, ms=None, lemmas=False):
        r = self.enc.check(cs, ms or self.opts['query_ms'], lemmas)
        return r

    def feasible(self, st, c):
        """-> (possible, model)"""
        if type(c) is int:
            return bool(c), st.model
        if st.model is not None and self.enc_truth(st.model, c):
            return True, st.model
        r, m = self.sat(st.pc + (c,))
        return r != 'unsat', m

    def enc_truth(self, m, c):
        try:
            return self.enc.truth(m, c)
        except Exception:
            return None

    # ------------------------------------------------ main loop
    def run(self):
        st = State()
        self.vm.start(self.entry, st)
        self.work = [st]
        r = self.r
        try:
            while self.work:
                if time.time() - self.t0 > self.opts['time']:
                    raise Stop('time limit of the job')
                if r['paths'] > self.opts['paths']:
                    raise Stop('too many paths')
                st = self.work.pop()
                self.go(st)
        except Stop as e:
            r['stopped'] = str(e)
        r['time'] = time.time() - self.t0
        r['functions'] = sorted(self.vm.pretty(n) for n in self.vm.used)
        r['solver'] = dict(STATS)
        r['left'] = len(self.work)
        return r

    def end(self, st, kind):
        r = self.r
        r['paths'] += 1
        r['steps'] += st.steps
        r['ends'][kind] = r['ends'].get(kind, 0) + 1

    def go(self, st):
        r = self.r
        try:
            while True:
                try:
                    self.vm.run(st)
                except Fork as f:
                    r['forks'] += 1
                    c = f.cond
                    ft, mt = self.feasible(st, c)
                    nc = t.bnot(c)
                    ff, mf = self.feasible(st, nc)
                    if ft and ff:
                        s2 = st.clone()
                        s2.assume(nc)
                        s2.model = mf
                        self.work.append(s2)
                        st.assume(c)
                        st.model = mt
                    elif ft:
                        st.learn(c, 1)
                    elif ff:
                        st.learn(c, 0)
                    else:
                        self.end(st, 'infeasible')
                        return
                except NeedChoice as n:
                    for v in range(n.n - 1, 0, -1):
                        s2 = st.clone()
                        s2.choices[n.i] = v
                        self.work.append(s2)
                    st.choices[n.i] = 0
                except Panic as p:
                    # caught by the harness?
                    m = st.env.get('try')
                    if m is None or len(st.frames) <= m[0] or st.frames[m[0]].fn.name != m[1]:
                        raise
                    dst = st.frames[m[0]].dst
                    del st.frames[m[0]:]
                    st.frames[-1].R[dst] = 1
                    r['caught'] = r.get('caught', 0) + 1
                if time.time() - self.t0 > self.opts['time']:
                    raise Stop('time limit of the job')
        except PathEnd:
            self.end(st, 'return')
            mode, label = st.env.get('panic', (0, 0))
            if mode == 1 and self.wants(label):
                self.candidate(st, (), label, 'no-panic')
            else:
                if r.get('sample') is None and st.model is not None and r['paths'] > 3:
                    self.sample(st)
            if mode == 1 and self.wants(label):
                pass
            elif self.opts['validate'] and r['validated'] < self.opts['validate']:
                self.validate(st)
        except Panic as p:
            mode, label = st.env.get('panic', (0, 0))
            self.end(st, 'panic')
            r['panics'][p.what[:80]] = r['panics'].get(p.what[:80], 0) + 1
            if mode == 0 and self.wants(label):
                r['checks'] += 1
                self.candidate(st, (), label, 'panic: ' + p.what)
        except AssumeFalse:
            self.end(st, 'assumption')
        except Excluded as e:
            self.end(st, 'excluded')
            r['excluded'][str(e)] = r['excluded'].get(str(e), 0) + 1
        except pl.TooBig:
            self.end(st, 'too big')
            r['unsupported']['polynomial too big'] = r['unsupported'].get('polynomial too big', 0) + 1
        except Unsupported as e:
            self.end(st, 'unsupported')
            k = str(e)[:160]
            if self.opts.get('debug'):
                k += ' @ ' + ' < '.join(self.vm.pretty(f.fn.name)[-60:] for f in reversed(st.frames[-4:]))
            r['unsupported'][k] = r['unsupported'].get(k, 0) + 1

    # ------------------------------------------------ interface of the harnesses
    def wants(self, label):
        return label < 900 if self.labels is None else label in self.labels

    def assume(self, st, c):
        if type(c) is int:
            if not c:
                raise AssumeFalse()
            return
        k = st.known(c)
        if k == 1:
            return
        if k == 0:
            raise AssumeFalse()
        ok, m = self.feasible(st, c)
        if not ok:
            raise AssumeFalse()
        st.assume(c)
        st.model = m

    def reach(self, st, label):
        self.r['reach'][label] = self.r['reach'].get(label, 0) + 1

    def equal(self, st, a, b):
        if self.domain == 'fp':
            return t.bor(t.feq(a, b), t.band(t.fnan(a), t.fnan(b)))
        d = self.dom
        if d.special(a) or d.special(b):
            if type(a) is float and type(b) is float:
                return 1 if a == b or (a != a and b != b) else 0
            return 0
        e = d.sub(st, a, b)
        z = d.zero(e)
        if type(z) is T and type(e) is T:
            self.margins = getattr(self, 'margins', {})
            self.margins[z.id] = e.aux
        return z

    def check(self, st, c, label, known=0, kf=0):
        r = self.r
        if not self.wants(label):
            return
        r['checks'] += 1
        if type(c) is int and c:
            r['trivial'] += 1
            return
        if type(c) is T:
            k = st.known(c)
            if k == 1:
                r['discharged'] += 1
                return
        nc = t.bnot(c)
        nk = t.bnot(known)
        # 1. a failure which is not the known finding
        bad = t.band(nc, nk)
        if not (type(bad) is int and not bad):
            key = (tuple(x.id for x in st.pc), bad.id if type(bad) is T else bad)
            if self.cache.get(key) == 'unsat':
                r['discharged'] += 1
            else:
                extra = (bad,) if type(bad) is T else ()
                q, m = self.decide_bad(st, extra, c)
                if q == 'unsat':
                    self.cache[key] = 'unsat'
                    r['discharged'] += 1
                else:
                    self.candidate(st, extra, label, 'check', hint=c, model=m, verdict=q)
        # 2. the known finding itself
        if kf and (kf, label) not in self.kf_done:
            kn = t.band(nc, known)
            if not (type(kn) is int and not kn):
                q, m = self.sat(st.pc + ((kn,) if type(kn) is T else ()), lemmas=True)
                if q != 'unsat':
                    if self.confirm(st, (kn,) if type(kn) is T else (), label, m, c, known=kf):
                        self.kf_done.add((kf, label))
        # go on where it holds, or fails as known
        if kf:
            c = t.bor(c, known)
        if type(c) is int:
            if not c:
                raise AssumeFalse()
            return
        ok, m = self.feasible(st, c)
        if not ok:
            raise AssumeFalse()
        st.assume(c)
        st.model = m

    # ------------------------------------------------ failures
    def decide_bad(self, st, extra, c):
        cs = st.pc + extra
        q, m = self.sat(cs)
        if q == 'unsat':
            return q, None
        if self.domain == 'fp':
            self.r['lemma_used'] += 1
            q2, m2 = self.sat(cs, self.opts['query_ms'] * 3, lemmas=True)
            if q2 == 'unsat':
                return q2, None
            return q2, m2 or m
        return q, m

    def candidate(self, st, extra, label, what, hint=None, model=None, verdict='sat'):
        r = self.r
        f = self.confirm(st, extra, label, model, hint, verdict=verdict)
        if f:
            r['violations'].append(dict(label=label, what=what, input=f, job=self.opts['tag']))
            if self.opts['stop_first']:
                raise Stop('violation')
            return
        if f is None:
            r['discharged'] += 1
            return
        r['undecided'].append(dict(label=label, what=what, verdict=verdict, job=self.opts['tag']))
        if os.environ.get('IRSYM_DEBUG'):
            print('UNDECIDED', self.opts['tag'], label, what, verdict)
            for x in st.pc + extra:
                print('   ', t.show(x, 9)[:300])
        if len(r['undecided']) >= self.opts.get('max_undecided', 6):
            raise Stop('undecided')

    def confirm(self, st, extra, label, model, hint, known=None, verdict='sat'):
        """path of the input when reproduced, None when proved impossible, False otherwise"""
        cs = st.pc + tuple(x for x in extra if type(x) is T)
        if self.domain == 'fp':
            n = 0
            for sub in self.concretise(cs, model):
                f = self.replay(st, sub, label, known)
                if f:
                    return f
                n += 1
                if n >= 8:
                    break
            if known:
                return False
            self.r['exact_used'] += 1
            ex = Exact()
            q, m = ex.check(cs, self.opts['exact_ms'])
            if q == 'unsat':
                self.r['spurious'] += 1
                return None
            if q == 'sat':
                sub = {s.args[0]: ex.value(m, s) for s in t.syms_of(cs)}
                f = self.replay(st, sub, label, known)
                if f:
                    return f
            return False
        for sub in self.real_models(cs, hint, model):
            if verdict == 'unknown' and not all(self.exactly(c, sub) for c in cs):
                # only rounding could make such a run fail
                continue
            f = self.replay(st, sub, label, known)
            if f:
                return f
        return False

    def concretise(self, cs, model):
        enc = self.enc
        if model is None:
            q, model = self.sat(cs, lemmas=True)
            if q == 'unsat':
                return
        syms = t.syms_of(cs)
        if not syms:
            yield {}
            return
        if model is not None:
            sub = {s.args[0]: enc.value(model, s) for s in syms}
            if self.holds(cs, sub):
                yield sub
        for trial in range(3):
            order = list(syms)
            if trial == 1:
                order.reverse()
            elif trial == 2:
                self.rng.shuffle(order)
            cur = cs
            sub = {}
            m = model
            if m is None:
                return
            ok = True
            for s in order:
                cand = []
                try:
                    cand.append(enc.value(m, s))
                except Exception:
                    pass
                cand += NICE if trial < 2 else [self.rng.choice([-1, 1]) * self.rng.random() * 10 ** self.rng.randint(-3, 3) for _ in range(4)] + NICE
                found = False
                for v in cand[:10]:
                    memo = {}
                    new = []
                    bad = False
                    for c in cur:
                        x = t.rebuild(c, {s.args[0]: v}, memo)
                        if type(x) is int:
                            if not x:
                                bad = True
                                break
                        else:
                            new.append(x)
                    if bad:
                        continue
                    q, m2 = self.sat(tuple(new), lemmas=True) if new else ('sat', m)
                    if q == 'sat':
                        found = True
                        cur = tuple(new)
                        m = m2
                        sub[s.args[0]] = v
                        break
                if not found:
                    ok = False
                    break
                rest = [x for x in order if x.args[0] not in sub]
                full = dict(sub)
                for x in rest:
                    full[x.args[0]] = enc.value(m, x) if m is not None else 1.0
                if self.holds(cs, full):
                    yield full
                    break
                if time.time() - self.t0 > self.opts['time'] + 60:
                    return

    def holds(self, cs, sub):
        memo = {}
        for c in cs:
            x = t.rebuild(c, sub, memo)
            if type(x) is T:
                # sign of a NaN and the like: let the replay tell
                continue
            if not x:
                return False
        return True

    def real_models(self, cs, hint, model):
        d = self.dom
        enc = self.enc
        vs = set()
        for c in cs:
            st = [c]
            while st:
                x = st.pop()
                if type(x) is T:
                    if x.aux is not None:
                        vs |= pl.pvars(x.aux)
                    else:
                        st.extend(x.args)
        vs = sorted(vs)
        margin = []
        z = hint
        if type(z) is T:
            e = getattr(self, 'margins', {}).get(z.id)
            if e is not None and e.num:
                # |a - b| > 1/50
                den = pl.pconst(1)
                for p, k in e.den.values():
                    den = pl.pmul(den, pl.ppow(p, k))
                try:
                    q = pl.padd(pl.pmul(den, den), pl.pmul(pl.pconst(2500), pl.pmul(e.num, e.num)), -1)
                    if not pl.isconst(q):
                        k, pp = pl.primitive(q)
                        a = d.pneg(pp)
                        margin = [a if k > 0 else t.band(t.bnot(a), t.bnot(d.pzero(pp)))]
                except pl.TooBig:
                    pass
        box = []
        for v in vs:
            x = pl.pvar(v)
            lo = d.pneg(pl.padd(x, pl.pconst(8), 1))          # v + 8 < 0
            hi = d.pneg(pl.padd(x, pl.pconst(8), -1))         # v - 8 < 0
            box += [t.bnot(lo), hi]
        nz = [t.bnot(d.pzero(pl.pvar(v))) for v in vs]
        for extra in (margin + box + nz, margin + box, margin, box, []):
            if extra or model is None:
                q, m = self.sat(tuple(cs) + tuple(extra), 3000)
            else:
                q, m = 'sat', model
            if q == 'sat' and m is not None:
                yield {v: self.rval(m, v) for v in vs}
        # random points, the solver completing them
        for _ in range(6):
            fx = []
            for v in vs:
                if self.rng.random() < 0.6:
                    val = Fraction(self.rng.randint(-24, 24), 8)
                    p = pl.padd(pl.pvar(v), pl.pconst(val), -1)
                    fx.append(d.pzero(pl.primitive(p)[1]))
            q, m = self.sat(tuple(cs) + tuple(margin) + tuple(fx), 2000)
            if q == 'sat' and m is not None:
                yield {v: self.rval(m, v) for v in vs}

    def exactly(self, c, sub):
        """truth of a condition over the reals at a point"""
        if type(c) is not T:
            return bool(c)
        if c.op in ('rneg', 'rzero'):
            x = Fraction(0)
            for m, k in c.aux.items():
                for v, e in m:
                    k *= Fraction(sub.get(v, 0.0)) ** e
                x += k
            return x < 0 if c.op == 'rneg' else x == 0
        if c.op == 'not':
            return not self.exactly(c.args[0], sub)
        if c.op == 'and':
            return all(self.exactly(a, sub) for a in c.args)
        if c.op == 'or':
            return any(self.exactly(a, sub) for a in c.args)
        return False

    def rval(self, m, v):
        x = m.eval(self.enc.var(v), model_completion=True)
        try:
            return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        except Exception:
            try:
                a = x.approx(30)
                return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            except Exception:
                return 0.0

    # ------------------------------------------------ native replay
    def input_text(self, st, sub):
        ls = []
        for k, v in sorted(self.params.items()):
            ls.append('p %d %d' % (k, v))
        for k, v in sorted(self.vm.fixed.items()):
            ls.append('s %d %016x' % (k, t.fbits(v)))
        for k, v in sorted(sub.items()):
            ls.append('s %d %016x' % (k, t.fbits(v)))
        for k, v in sorted(st.choices.items()):
            ls.append('c %d %d' % (k, v))
        if self.domain == 'real':
            ls.append('rtol %g' % self.opts['rtol'])
        return '\n'.join(ls) + '\n'

    def native(self, text, path=None):
        rp = self.opts['replay']
        self.nfile += 1
        path = path or os.path.join(self.opts['workdir'], '%s-%d-%d.in' % (self.opts['tag'], os.getpid(), self.nfile))
        with open(path, 'w') as f:
            f.write(text)
        # (its own folder: the solver writes a log)
        cwd = os.path.join(self.opts['workdir'], 'run-%d' % os.getpid())
        os.makedirs(cwd, exist_ok=True)
        try:
            p = subprocess.run([rp, self.entry, path], capture_output=True, text=True, timeout=20, cwd=cwd)
            return p.stdout.split('\n'), path
        except subprocess.TimeoutExpired:
            return ['TIMEOUT'], path

    def replay(self, st, sub, label, known):
        if not self.opts['replay']:
            return False
        out, path = self.native(self.input_text(st, sub))
        if os.environ.get('IRSYM_DEBUG'):
            print('REPLAY', label, known, sub, [l for l in out if not l.startswith(('PASS', 'REACH'))][:5])
        for l in out:
            f = l.split()
            if not f:
                continue
            if f[0] == 'ASSUME':
                break
            if known is None and f[0] == 'FAIL' and self.wants(int(f[1])):
                return path
            if known is not None and f[0] == 'KNOWN' and int(f[2]) == known and int(f[1]) == label:
                self.r['known'].append(dict(kf=known, label=int(f[1]), input=path, job=self.opts['tag']))
                return path
            if f[0] == 'FAIL' and known is None:
                pass
        os.unlink(path)
        return False

    def sample(self, st):
        """one input of this path, written out"""
        try:
            if self.domain == 'fp':
                for sub in self.concretise(st.pc, st.model):
                    self.r['sample'] = dict(params={str(k): v for k, v in self.params.items()}, choices={str(k): v for k, v in st.choices.items()},
                                            symbols={str(k): repr(v) for k, v in sub.items()}, branches=len(st.pc))
                    return
            else:
                for sub in self.real_models(st.pc, None, st.model):
                    self.r['sample'] = dict(params={str(k): v for k, v in self.params.items()}, choices={str(k): v for k, v in st.choices.items()},
                                            symbols={str(k): repr(v) for k, v in sub.items()}, branches=len(st.pc))
                    return
        except Exception:
            pass

    def validate(self, st):
        """the native run on an input of this path meets the same points"""
        if self.domain != 'fp':
            return
        for sub in self.concretise(st.pc, st.model):
            out, path = self.native(self.input_text(st, sub))
            self.r['validated'] += 1
            before = out[:out.index('ASSUME')] if 'ASSUME' in out else out
            bad = [int(l.split()[1]) for l in before if l.startswith('FAIL') and self.wants(int(l.split()[1]))]
            if bad:
                # the real code fails on the values the solver gave for this
                # path: the executor should have said so
                self.r['violations'].append(dict(label=bad[0], what='native run of the path', input=path, job=self.opts['tag']))
                if self.opts['stop_first']:
                    raise Stop('violation')
                return
            os.unlink(path)
            if not any(l.startswith('END return') for l in out):
                self.r['validation_failures'].append(dict(job=self.opts['tag'], out=out[-3:], input=self.input_text(st, sub)))
            return
