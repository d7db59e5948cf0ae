#!/usr/bin/env python3-vt
"""run.py PROPERTY [quick|thorough] [-v] [-j N]: decides one property.

Builds the harnesses with the sources of /repo (LLVM IR for the symbolic
executor, native code for the replay of the counterexamples), explores the jobs
of the property and writes evidence/<property>.json.
"""
import glob, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, time, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks.jobs import jobs, METHODS, NAMES, XML
from checks import meta

RUSTFLAGS = ('--emit=llvm-ir -C panic=abort -C no-vectorize-loops -C no-vectorize-slp -C codegen-units=1 '
             '-C debug-assertions=off -C overflow-checks=off')
TARGET = 'x86_64-unknown-linux-gnu'


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ build

class Build:
    def __init__(self, crate, where):
        self.crate = crate
        src = os.path.join(VERIF, crate)
        # harness_xml has a package for each of the two builds
        split = not os.path.exists(os.path.join(src, 'Cargo.toml'))
        dirs = [os.path.join(src, x) for x in ('native', 'ir')] if split else [src, src]
        self.t = os.path.join(where, crate + '-native')
        self.i = os.path.join(where, crate + '-ir')
        env = dict(os.environ, RUSTUP_TOOLCHAIN='stable')
        for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'):
            env.pop(k, None)
        self.locks = []
        for d in sorted(set(dirs)):
            lock = os.path.join(d, 'Cargo.lock')
            self.locks.append((lock, open(lock, 'rb').read() if os.path.exists(lock) else None))
        self.native = self.start(dirs[0], ['--profile', 'replay', '--features', 'native', '--bin', 'replay'], dict(env, CARGO_TARGET_DIR=self.t))
        self.ir = self.start(dirs[1], ['--release', '--target', TARGET, '--lib'], dict(env, CARGO_TARGET_DIR=self.i, RUSTFLAGS=RUSTFLAGS))

    def start(self, cwd, args, env):
        out = tempfile.TemporaryFile('w+')
        p = subprocess.Popen(['cargo', 'build', '--offline'] + args, cwd=cwd, env=env, stdout=out, stderr=subprocess.STDOUT)
        return p, out

    def wait(self):
        ok = True
        for p, out in (self.ir, self.native):
            if p.wait() != 0:
                out.seek(0)
                say('BUILD FAILED (%s)' % self.crate)
                say(out.read()[-4000:])
                ok = False
        for path, text in self.locks:
            if text is not None and open(path, 'rb').read() != text:
                open(path, 'wb').write(text)
        if not ok:
            sys.exit(2)
        self.replay = os.path.join(self.t, 'replay', 'replay')
        deps = os.path.join(self.i, TARGET, 'release', 'deps')
        newest = {}
        for f in glob.glob(os.path.join(deps, '*.ll')):
            k = os.path.basename(f).rsplit('-', 1)[0]
            if k not in newest or os.path.getmtime(f) > os.path.getmtime(newest[k]):
                newest[k] = f
        want = ['harness', 'newton_rootfinder', 'util', 'nalgebra', 'harness_xml', 'minidom']
        self.ll = [newest[k] for k in want if k in newest]


def load(files):
    from irsym.llparse import Program
    from irsym.vm import VM
    from irsym.stubs import stubbed
    from irsym.doms import FP
    pr = Program()
    for f in files:
        pr.add_module(f)
    std = os.path.join(VERIF, 'irsym', 'std')
    v = subprocess.run(['rustc', '-vV'], capture_output=True, text=True, env=dict(os.environ, RUSTUP_TOOLCHAIN='stable')).stdout
    if open(os.path.join(std, 'version')).read().strip() == v.split('\n')[0]:
        for f in ('core', 'alloc'):
            pr.add_library(os.path.join(std, f + '.ll.xz'))
    vm = VM(pr, FP())
    vm.demangle_all()
    pr.index_library(vm.dem, stubbed)
    return pr, vm.dem


# ------------------------------------------------------------------ jobs

def title(j):
    p = {v: k for k, v in NAMES.items()}
    d = {p[k]: v for k, v in j['params'].items()}
    if j['entry'] in ('hx_c01', 'hx_c03', 'hx_course', 'hx_c13', 'hx_c14', 'hx_c18', 'hx_c22', 'hx_c23'):
        d['method'] = METHODS[d.get('method', 0)]
    if j['entry'] == 'hx_c16':
        names = ('solver', 'iteratives', 'iterative', 'ids', 'shape', 'residuals', 'residual', 'bad')
        d = dict(n=d['n'], fd=d['jac'], child=d['damp'], varies='+'.join(x for k, x in enumerate(names) if d['method'] >> k & 1))
    s = '%s[%s] %s' % (j['entry'][3:], j['domain'], ' '.join('%s=%s' % x for x in sorted(d.items())))
    f = j['opts'].get('fixed')
    if f:
        s += ' fixed=%s' % (f if len(f) < 7 else '%d values (%08x)' % (len(f), zlib.crc32(repr(sorted(f.items())).encode())))
    return s


def cost(j):
    g = lambda k: j['params'].get(NAMES[k], 0)
    c = (1 + g('n')) ** 2 * (3 + g('faults') + g('damp')) ** g('iters')
    return c * (4 if j['domain'] == 'real' else 1) * (3 if g('lim') else 1) * j['opts'].get('cost', 1)


def worker(conn, prog, dem, j, k, opts):
    from irsym import enc
    from irsym.explore import Explorer
    for x in enc.STATS:
        enc.STATS[x] = 0
    o = dict(opts, tag='job%d' % k, **j['opts'])
    try:
        e = Explorer(prog, dem, j['entry'], j['params'], j['domain'], j['labels'], o)
        r = e.run()
    except MemoryError:
        r = dict(error='out of memory')
    except Exception as x:
        import traceback
        r = dict(error='%s: %s' % (type(x).__name__, x), trace=traceback.format_exc()[-1500:])
    conn.send(r)
    conn.close()


def explore(prog, dem, js, opts, deadline, ncpu, verbose):
    order = sorted(range(len(js)), key=lambda k: -cost(js[k]))
    running = {}
    res = [None] * len(js)
    ctx = mp.get_context('fork')
    stop = False
    while (order and not stop) or running:
        while order and len(running) < ncpu and not stop and time.time() < deadline - 5:
            k = order.pop(0)
            a, b = ctx.Pipe(False)
            left = deadline - time.time()
            o = dict(opts)
            j = dict(js[k], opts=dict(js[k]['opts']))
            j['opts']['time'] = min(j['opts'].get('time', 600), max(5, left - 5))
            p = ctx.Process(target=worker, args=(b, prog, dem, j, k, o))
            p.start()
            b.close()
            running[k] = (p, a, time.time())
        if order and time.time() >= deadline - 5:
            order = []
        mp.connection.wait([a for p, a, t in running.values()], 1)
        for k, (p, a, t) in list(running.items()):
            done = False
            if a.poll():
                try:
                    res[k] = a.recv()
                except EOFError:
                    res[k] = dict(error='the process ended (exit %s)' % p.exitcode)
                done = True
            elif not p.is_alive():
                res[k] = dict(error='the process ended (exit %s)' % p.exitcode)
                done = True
            elif time.time() > deadline + 20 or stop:
                p.kill()
                res[k] = dict(error='stopped' if stop else 'out of time')
                done = True
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                a.close()
                del running[k]
                if verbose:
                    r = res[k]
                    say('%7.1fs %s: %s' % (time.time() - t, title(js[k]), r.get('error') or 'paths %d checks %d (trivial %d discharged %d) reach %s%s%s' % (
                        r['paths'], r['checks'], r['trivial'], r['discharged'], sorted(r['reach']),
                        ''.join(' %s=%s' % (x, r[x]) for x in ('undecided', 'unsupported', 'excluded', 'stopped', 'known', 'validation_failures') if r.get(x)),
                        ' VIOLATION %s' % r['violations'] if r['violations'] else '')))
                if res[k].get('violations'):
                    stop = True
    return res


# ------------------------------------------------------------------ known findings

def known_findings():
    r = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) finding=(\d+) label=(\d+) (.*)', l)
            if m:
                r[(m[1], int(m[2]), int(m[3]))] = m[4].strip()
    return r


def main():
    args = sys.argv[1:]
    verbose = '-v' in args
    args = [a for a in args if a != '-v']
    ncpu = min(8, os.cpu_count() or 1)
    if '-j' in args:
        i = args.index('-j')
        ncpu = int(args[i + 1])
        del args[i:i + 2]
    only = None
    if '-k' in args:
        i = args.index('-k')
        only = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', 420 if tier == 'quick' else 3000))
    where = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
    os.makedirs(where, exist_ok=True)
    js = jobs(prop, tier)
    if only:
        js = [j for j in js if only in title(j)]
    crate = 'harness_xml' if prop in XML else 'harness'
    b = Build(crate, where)
    b.wait()
    t1 = time.time()
    say('%s %s: built in %.0f s, %d jobs' % (prop, tier, t1 - t0, len(js)))
    prog, dem = load(b.ll)
    work = tempfile.mkdtemp(prefix='nrf-verif-')
    try:
        code = decide(prop, tier, seed, js, prog, dem, b, work, t0, budget, ncpu, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def native(b, entry, v):
    """what the native run of a counterexample says"""
    try:
        o = subprocess.run([b.replay, entry, v['input']], capture_output=True, text=True, timeout=20, cwd=os.path.dirname(v['input'])).stdout
        f = [l for l in o.split('\n') if l.startswith('FAIL %s' % v['label'])] or [l for l in o.split('\n') if l.startswith('FAIL')]
        return f[0] if f else v.get('what', '')
    except Exception as x:
        return str(x)


def decide(prop, tier, seed, js, prog, dem, b, work, t0, budget, ncpu, verbose):
    opts = dict(replay=b.replay, workdir=work, seed=seed, validate=2, debug=1)
    res = explore(prog, dem, js, opts, time.time() + budget, ncpu, verbose)
    kf = known_findings()
    violations, known, undecided, notes = [], {}, [], []
    tot = dict(paths=0, forks=0, steps=0, checks=0, trivial=0, discharged=0, validated=0, spurious=0)
    solver = dict(queries=0, sat=0, unsat=0, unknown=0, exact=0, time=0.0, max=0.0)
    reach, excluded, unsupported, functions, samples, ends = {}, {}, {}, set(), [], {}
    incomplete = 0
    for k, (j, r) in enumerate(zip(js, res)):
        if r is None or 'error' in r:
            incomplete += 1
            notes.append('%s: %s' % (title(j), r['error'] if r else 'not run'))
            continue
        for x in tot:
            tot[x] += r[x]
        for x in ('queries', 'sat', 'unsat', 'unknown', 'exact', 'time'):
            solver[x] += r['solver'][x]
        solver['max'] = max(solver['max'], r['solver']['max'])
        for d, x in ((reach, 'reach'), (excluded, 'excluded'), (unsupported, 'unsupported'), (ends, 'ends')):
            for a, c in r[x].items():
                d[a] = d.get(a, 0) + c
        functions |= set(r['functions'])
        if r.get('sample') and len(samples) < 12:
            samples.append(dict(job=title(j), input=r['sample']))
        for v in r['violations']:
            violations.append((j, v))
        for v in r['known']:
            if (prop, v['kf'], v['label']) in kf:
                known.setdefault((v['kf'], v['label']), title(j))
            else:
                violations.append((j, v))
        for v in r['undecided']:
            undecided.append('%s: assertion %s (%s), %s' % (title(j), v['label'], v['what'], v['verdict']))
        for v in r['validation_failures']:
            notes.append('%s: the native run differs from the executor: %s' % (title(j), v['out']))
        if r.get('stopped') and not r['violations']:
            incomplete += 1
            notes.append('%s: %s, %d paths done' % (title(j), r['stopped'], r['paths']))
        if not r['checks'] and not r['violations'] and j['entry'] != 'hx_c15':
            notes.append('%s: no assertion reached' % title(j))
        if r['unsupported']:
            notes.append('%s: unsupported %s' % (title(j), r['unsupported']))
    for l in sorted(known):
        say('KNOWN-FINDING: property=%s %s' % (prop, kf[(prop,) + l]))
    code = 0
    if violations:
        code = 1
        out = os.path.join(VERIF, 'replays')
        os.makedirs(out, exist_ok=True)
        seen = set()
        for n, (j, v) in enumerate(violations):
            if (j['entry'], v['label']) in seen:
                continue
            seen.add((j['entry'], v['label']))
            where = native(b, j['entry'], v)
            path = os.path.join(out, '%s-%d.in' % (prop, n))
            text = open(v['input']).read()
            with open(path, 'w') as f:
                f.write('# crate %s\n# harness %s\n# job %s\n# assertion %s (%s)\n' % (b.crate, j['entry'], title(j), v['label'], v.get('what', '')))
                f.write(text)
            say('  assertion %s of %s fails: %s' % (v['label'], title(j), where))
            say('VIOLATION property=%s replay=%s' % (prop, path))
    for u in sorted(set(undecided))[:20]:
        say('UNDECIDED', u)
    for u in notes[:20]:
        if not violations or not u.endswith((': not run', ': stopped')):
            say('INCOMPLETE', u)
    if not violations and tot['paths'] == 0:
        code = 2
    wall = time.time() - t0
    lib = sorted(f for f in functions if 'newton_rootfinder' in f and 'harness::' not in f.split('newton_rootfinder')[0])
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot['paths'],
            transitions=tot['forks'],
            traces_validated_against_impl=tot['validated'],
            samples=samples or [title(j) for j in js[:3]],
            rule='states: symbolic paths run to their end, each deciding its assertions for every value of the symbols on it; '
                 'transitions: branch decisions on symbolic values (feasibility asked to the solver); '
                 'traces validated: solver models of explored paths run natively with the same outcome',
            jobs=len(js), jobs_incomplete=incomplete,
            bounds=[title(j) for j in js],
            assertions=tot['checks'], assertions_by_simplification=tot['trivial'], assertions_by_solver=tot['discharged'],
            undecided=sorted(set(undecided)), spurious_refuted=tot['spurious'],
            instructions=tot['steps'], path_ends=ends,
            reach={str(a): c for a, c in sorted(reach.items(), key=lambda x: int(x[0]))},
            excluded=excluded, unsupported=unsupported,
            queries=solver['queries'], queries_sat=solver['sat'], queries_unsat=solver['unsat'], queries_unknown=solver['unknown'],
            queries_bit_exact=solver['exact'], solver_s=round(solver['time'], 3), solver_max_s=round(solver['max'], 3),
            functions_encoded=len(functions), functions_of_the_library=lib,
            known_findings=['finding %d, assertion %d: %s' % (a[0], a[1], t) for a, t in sorted(known.items())],
            notes=notes[:50],
            exhaustive=False),
        assumptions=meta.ASSUMPTIONS + meta.PROPERTY_ASSUMPTIONS.get(prop, []),
        wall_s=round(wall, 1), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    say('%s %s: %d jobs (%d incomplete), %d paths, %d assertions (%d by simplification, %d by the solver, %d undecided), '
        '%d queries %.1f s, %d known, %d violations, %.0f s' % (
            prop, tier, len(js), incomplete, tot['paths'], tot['checks'], tot['trivial'], tot['discharged'], len(set(undecided)),
            solver['queries'], solver['time'], len(known), len(violations), wall))
    return code


if __name__ == '__main__':
    main()
