#!/usr/bin/env python3
"""Decides properties of /repo by symbolic execution of its real code.

  check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep]

For each harness of the property (see harnesses.py): compile /repo's current
sources and the harness to LLVM bitcode, execute symbolically with build/sx
(Z3 decides every branch, check and memory access), replay every
counterexample and a sample of completed paths against a native sanitizer
build of the same sources, and write evidence/PROPERTY.json.
Exit 0: held; exit 1: VIOLATION printed; exit 2: no verdict.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FBLE_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import a64
from harnesses import HARNESSES, PROPS, UNITS

CLANG = ['clang', '-O1', '-std=c99', '-D_DEFAULT_SOURCE', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin',
         '-fno-strict-aliasing', '-fno-pic', '-fno-pie', '-U_FORTIFY_SOURCE', '-D__NO_CTYPE', '-D__NO_INLINE__', '-emit-llvm', '-c', '-w']
GCC = ['gcc', '-O1', '-g', '-std=c99', '-D_DEFAULT_SOURCE', '-fsanitize=address', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE', '-c', '-w']
HGCC = ['clang', '-O1', '-g', '-std=c99', '-D_DEFAULT_SOURCE', '-fsanitize=address', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE', '-c', '-w']
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'rand', 'exit', 'fopen', 'fclose', 'access', 'getenv']
JOBS = int(os.environ.get('SX_JOBS', '8'))
T0 = time.time()


class Broken(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode != 0:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def engine():
    exe = os.path.join(VERIF, 'build', 'sx')
    src = os.path.join(VERIF, 'engine', 'sx.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        sh([os.path.join(VERIF, 'engine', 'build.sh'), exe])
    return exe


class GeneratorFailed(Broken):
    pass


class Build:
    """Bitcode and native objects of /repo's current sources, in a scratch directory."""
    def __init__(self, work):
        self.work = work
        self.pool = ThreadPoolExecutor(JOBS)
        self.futs = {}
        gen = os.path.join(work, 'gen')
        os.makedirs(gen)
        with open(gen + '/config.h', 'w') as f:
            f.write('#ifndef _FBLE_CONFIG_H_\n#define _FBLE_CONFIG_H_\n')
            for k in ['BINDIR', 'BUILDDIR', 'DATADIR', 'DOCDIR', 'INCLUDEDIR', 'LIBDIR', 'MANDIR', 'PREFIX', 'SRCDIR']:
                f.write('#define FBLE_CONFIG_%s "/sx/%s"\n' % (k, k.lower()))
            f.write('#endif\n')
        for t in ['fble-deps', 'fble-compile', 'fble-disassemble', 'fble-test', 'fble-perf-profile', 'fble-stdio', 'fble-profiles-test', 'fble-mem-test', 'fbld']:
            with open('%s/%s.usage.h' % (gen, t), 'w') as f:
                f.write('static const char* fbldUsageHelpText = "help for %s";\n' % t)
        with open(gen + '/corefiles.h', 'w') as f:      # the fble sources of the core package
            f.write('static const struct { const char* path; size_t n; const char* text; } core_files[] = {\n')
            root = REPO + '/pkgs/core/Core'
            for p in sorted(glob.glob(root + '/**/*.fble', recursive=True)):
                b = open(p, 'rb').read()
                f.write('  { "%s", %d, "%s" },\n' % (p[len(root) + 1:], len(b), ''.join('\\%03o' % c for c in b)))
            f.write('};\n')
        with open(gen + '/pkgfiles.h', 'w') as f:       # the fble sources of the packages
            f.write('static const struct { const char* path; size_t n; const char* text; } pkg_files[] = {\n')
            for p in sorted(glob.glob(REPO + '/pkgs/*/*/**/*.fble', recursive=True)):
                b = open(p, 'rb').read()
                f.write('  { "%s", %d, "%s" },\n' % (p[len(REPO + '/pkgs/'):].split('/', 1)[1], len(b), ''.join('\\%03o' % c for c in b)))
            f.write('};\n')
        self.gen = gen
        self.incs = ['-I' + REPO + '/include', '-I' + REPO + '/lib', '-I' + gen, '-I' + VERIF + '/rt', '-I' + VERIF + '/h', '-I' + REPO]
        self.bison = None
        self.gens = {}

    def generated(self, target, args):
        """What the real code generator writes for the programs of h/x_gen.c."""
        key = (target, args)
        if key not in self.gens:
            d = os.path.join(self.work, 'gen%d' % len(self.gens))
            os.makedirs(d)
            fs = [self.compile(s, fl, True) for s, fl in self.sources('lib')]
            fs.append(self.compile(VERIF + '/h/x_gen.c', [a for a in args if a != 'special'], True))
            exe = d + '/x_gen'
            sh(['gcc', '-fsanitize=address', '-Wl,--wrap=fopen,--wrap=access'] + [f.result() for f in fs] + ['-o', exe])
            r = subprocess.run([exe, d, target] + [a for a in args if a == 'special'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                               env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99'))
            if r.returncode == 4:
                raise GeneratorFailed(r.stdout)
            if r.returncode != 0:
                raise Broken('x_gen: status %d: %s' % (r.returncode, r.stdout[-3000:]))
            if target == 'aarch64':
                protos = a64.prototypes(REPO)
                def one(f):
                    try:
                        return f, a64.lift(f, f + '.c', protos)
                    except a64.LiftError as e:
                        raise Broken('cannot lift %s: %s' % (f, e))
                for f, msg in self.pool.map(one, sorted(glob.glob(d + '/g*.s'))):
                    if msg:
                        raise GeneratorFailed('the assembly does not assemble: %s\n%s' % (msg, self.program_of(d, f)))
            gs = sorted(glob.glob(d + '/g*.c'))
            bcs = [self.compile(f, [], False) for f in gs]
            for f, b in zip(gs, bcs):
                try:
                    b.result()
                except Broken as e:
                    if target != 'c':
                        raise
                    raise GeneratorFailed('the code does not compile: %s\n%s' % (e, self.program_of(d, f)))
            r = subprocess.run(['llvm-link'] + [b.result() for b in bcs] + ['-o', d + '/all.bc'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if r.returncode != 0:
                raise GeneratorFailed('the modules do not link: ' + r.stdout[-2000:])
            undef = [l.split()[-1] for l in sh(['llvm-nm', '--undefined-only', d + '/all.bc']).split('\n') if l.strip()]
            undef = [u for u in undef if u.startswith('_Fble')]
            if undef:
                raise GeneratorFailed('the modules do not link: undefined ' + ' '.join(undef))
            self.gens[key] = d
        d = self.gens[key]
        return d, sorted(glob.glob(d + '/g*.c'))

    def program_of(self, d, f):
        return open(f + '.src', errors='replace').read() if os.path.exists(f + '.src') else f

    def allsources(self, h):
        return [(s, fl) for u in h['units'] for s, fl in self.sources(u)] + [(f, []) for f in h.get('generated', [])]

    def sources(self, unit):
        out = []
        for s in UNITS[unit]:
            flags = []
            if isinstance(s, tuple):
                s, flags = s
            if s == '@parse':
                if not self.bison:
                    sh(['bison', '-Wnone', '-o', self.gen + '/parse.tab.c', REPO + '/lib/parse.y'])
                    self.bison = True
                out.append((self.gen + '/parse.tab.c', flags))
                continue
            neg = None
            if '!' in s:
                s, neg = s.split('!')
            p = s if s.startswith('/') else os.path.join(REPO, s)
            if s.startswith('rt/') or s.startswith('h/'):
                p = os.path.join(VERIF, s)
            fs = sorted(glob.glob(p))
            if not fs:
                raise Broken('no source matches ' + s)
            for f in fs:
                if neg and os.path.basename(f) in neg.split(','):
                    continue
                out.append((f, flags))
        return out

    def compile(self, src, flags, native):
        key = (src, tuple(flags), native)
        if key not in self.futs:
            name = '%s-%s' % (os.path.basename(src), hashlib.md5(repr(key).encode()).hexdigest()[:8])
            out = os.path.join(self.work, name + ('.o' if native else '.bc'))
            base = GCC if native else CLANG
            if native and src.startswith(VERIF + '/h/'):
                base = HGCC     # same evaluation order of arguments as in the bitcode
            cmd = base + self.incs + list(flags) + [src, '-o', out]
            self.futs[key] = self.pool.submit(lambda: (sh(cmd), out)[1])
        return self.futs[key]

    def module(self, h, defs):
        fs = [self.compile(s, fl, False) for s, fl in self.allsources(h)]
        fs.append(self.compile(os.path.join(VERIF, 'h', h['src']), defs, False))
        fs.append(self.compile(VERIF + '/rt/libc.c', [], False))
        out = os.path.join(self.work, 'm-' + h['name'] + '.bc')
        sh(['llvm-link'] + [f.result() for f in fs] + ['-o', out])
        return out

    def native(self, h, defs):
        fs = [self.compile(s, fl, True) for s, fl in self.allsources(h)]
        fs.append(self.compile(os.path.join(VERIF, 'h', h['src']), defs, True))
        fs.append(self.compile(VERIF + '/rt/native.c', [], True))
        out = os.path.join(self.work, 'n-' + h['name'])
        sh(['gcc', '-fsanitize=address', '-Wl,' + ','.join('--wrap=' + w for w in WRAP)] + [f.result() for f in fs] + ['-o', out])
        return out

    def plain(self, h, defs):
        """Without sanitizers, for valgrind (uninitialised memory)."""
        srcs = self.allsources(h)
        srcs += [(os.path.join(VERIF, 'h', h['src']), list(defs)), (VERIF + '/rt/native.c', [])]
        objs = []
        def one(i, s, fl):
            o = os.path.join(self.work, 'p-%s-%d.o' % (h['name'], i))
            sh([c for c in (HGCC if s.startswith(VERIF + '/h/') else GCC) if not c.startswith('-fsanitize')] + self.incs + list(fl) + [s, '-o', o])
            return o
        objs = [f.result() for f in [self.pool.submit(one, i, s, fl) for i, (s, fl) in enumerate(srcs)]]
        out = os.path.join(self.work, 'p-' + h['name'])
        sh(['gcc', '-Wl,' + ','.join('--wrap=' + w for w in WRAP)] + objs + ['-o', out])
        return out


def parse_trace(path):
    d = {'inputs': [], 'stack': []}
    for line in open(path, errors='replace'):
        line = line.rstrip('\n')
        k, _, v = line.partition(' ')
        if k == 'in':
            w, val, nm = v.split(' ', 2)
            d['inputs'].append((nm, int(val)))
        elif k == 'stack':
            d['stack'].append(v)
        else:
            d[k] = v
    return d


def summarize(inputs):
    """Compact text of an input assignment; byte runs become strings."""
    out, i = [], 0
    while i < len(inputs):
        nm, v = inputs[i]
        j = i
        while j < len(inputs) and inputs[j][0] == nm:
            j += 1
        vals = [x for _, x in inputs[i:j]]
        out.append('%s=%s' % (nm, vals[0] if len(vals) == 1 else vals))
        i = j
    return ' '.join(out)


def replay(exe, trace, timeout=60, valgrind=False, arena=False):
    env = dict(os.environ, SX_REPLAY=trace,
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0')
    if arena:
        env['SX_ARENA'] = '1'
    cmd = [exe]
    if valgrind:
        cmd = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', exe]
        timeout *= 4
    try:
        r = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired:
        return 'hang', ''
    err = r.stderr.decode(errors='replace')
    if r.returncode == 0 and 'SX-DONE' in err:
        return 'ok', err
    if r.returncode in (78, 79):
        return 'diverged', err
    return 'fail', err + '\n[exit status %d]' % r.returncode


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                m = re.match(r'known: property=(\S+) harness=(\S+) match=/(.*)/ what=(.*)$', line)
                if not m:
                    raise Broken('bad line in known_findings.txt: ' + line)
                out.append(m.groups())
    return out


def run_harness(exe, b, pid, h, tier, outroot):
    spec = h.get(tier) or h['thorough']
    defs = ['-D' + d for d in spec.get('defs', [])] + ['-DTHOROUGH=%d' % (tier == 'thorough')]
    if 'gen' in spec:
        d, h['generated'] = b.generated(spec['gen'][0], tuple(spec['gen'][1:]))
        defs.append('-I' + d)
    bc = b.module(h, defs)
    nat = b.pool.submit(b.native, h, defs)
    od = os.path.join(outroot, h['name'])
    shutil.rmtree(od, ignore_errors=True)
    os.makedirs(od)
    tmo = spec.get('timeout', 240 if tier == 'quick' else 3600)
    cmd = [exe, '-o', od, '-j', str(JOBS), *(['-n', str(h['limit'])] if 'limit' in h else []), '-t', str(tmo)]
    if 'insts' in spec:
        cmd += ['-n', str(spec['insts'])]
    r = subprocess.run(cmd + [bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    with open(od + '/log.txt', 'w') as f:
        f.write(r.stdout)
    if r.returncode == 3 or not os.path.exists(od + '/stats.json'):
        raise Broken('%s: engine: %s' % (h['name'], r.stdout[-2000:]))
    st = json.load(open(od + '/stats.json'))
    viols = sorted(glob.glob(od + '/viol-*.txt'))
    if not viols and r.returncode != 0:
        raise Broken('%s: exploration incomplete: %s' % (h['name'], r.stdout[-500:]))
    nexe = nat.result()
    reached = set(os.listdir(od + '/reach'))
    res = {'stats': st, 'confirmed': [], 'known': [], 'unconfirmed': [], 'validated': 0, 'samples': [], 'reach': sorted(reached)}
    kf = [k for k in known_findings() if k[0] == pid and k[1] == h['name']]
    pexe = None
    for v in viols:
        t = parse_trace(v)
        status, err = replay(nexe, v, h.get('replay_timeout', 30))
        if status != 'fail' and t['kind'] == 'uninit':
            if pexe is None:
                pexe = b.plain(h, defs)
            status, err = replay(pexe, v, valgrind=True)
        elif status == 'ok':
            # once more with blocks laid out as the executor lays them out
            status, err = replay(nexe, v, h.get('replay_timeout', 30), arena=True)
        elif status == 'hang' and t['kind'] == 'hang':
            status = 'fail'
        t['file'], t['status'], t['native'] = v, status, err[-3000:]
        with open(v, 'a') as f:
            f.write('native %s\n' % status + ''.join('# ' + l + '\n' for l in err[-3000:].splitlines()))
        desc = '%s | %s | %s | %s' % (t['kind'], t['msg'], t['at'], summarize(t['inputs']))
        t['desc'] = desc
        if status in ('fail', 'hang'):
            k = next((k for k in kf if re.search(k[2], desc)), None)
            if k:
                res['known'].append((k[3], t))
            else:
                res['confirmed'].append(t)
        else:
            res['unconfirmed'].append(t)
    for s in sorted(glob.glob(od + '/sample-*.txt'))[:16]:
        t = parse_trace(s)
        status, err = replay(nexe, s)
        if status == 'ok':
            res['validated'] += 1
        elif not res['confirmed'] and not res['known']:
            # the engine saw this path complete without an error
            t.update(file=s, status=status, native=err[-3000:], desc='path accepted by the engine fails natively: ' + err[-300:])
            res['unconfirmed'].append(t)
        if len(res['samples']) < 3:
            res['samples'].append(summarize(t['inputs'])[:400])
    if not res['confirmed'] and not res['unconfirmed']:
        missing = set(h.get('reach', [])) - reached
        if missing:
            raise Broken('%s: vacuous: witness not reached: %s' % (h['name'], ', '.join(sorted(missing))))
        if st['paths_ok'] == 0 and not res['known']:
            raise Broken('%s: vacuous: no path completes' % h['name'])
    res['bounds'] = h.get('bounds', '')
    res['defs'] = defs
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    outroot = os.path.join(VERIF, 'build', 'out', a.pid)
    os.makedirs(outroot, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='sx-' + a.pid + '-')
    rc, results, broken, genfail = 0, {}, [], []
    try:
        exe = engine()
        b = Build(work)
        names = [a.only] if a.only else PROPS[a.pid]
        for n in names:
            h = dict(HARNESSES[n], name=n)
            if tier == 'quick' and 'quick' not in h and not a.only:
                continue
            t0 = time.time()
            try:
                results[n] = run_harness(exe, b, a.pid, h, tier, outroot)
            except GeneratorFailed as e:
                os.makedirs(os.path.join(outroot, n), exist_ok=True)
                f = os.path.join(outroot, n, 'viol-generator.txt')
                with open(f, 'w') as out:
                    out.write(str(e))
                genfail.append((n, {'desc': 'code generator fails: ' + str(e)[:1200], 'file': f}))
                break
            except Broken as e:
                broken.append(str(e))
                print('NO-VERDICT property=%s harness=%s: %s' % (a.pid, n, e))
                continue
            s = results[n]['stats']
            print('%s: paths %d, branch decisions %d, queries %d (solver %.1fs), checks %d, memory accesses %d, natively replayed %d, %.1fs%s' % (
                n, s['paths'], s['branch_decisions'], s['queries'], s['solver_s'], s['checks_symbolic'] + s['checks_concrete'],
                s['memory_checks'], results[n]['validated'], time.time() - t0, '' if s['complete'] else ' (stopped early)'))
            for what, t in results[n]['known']:
                print('KNOWN-FINDING: property=%s %s' % (a.pid, what))
            if results[n]['confirmed']:
                break       # one confirmed violation is enough
    except Broken as e:
        broken.append(str(e))
        print('NO-VERDICT property=%s: %s' % (a.pid, e))
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work directory', work)
    conf = [(n, t) for n, r in results.items() for t in r['confirmed']] + genfail
    unconf = [(n, t) for n, r in results.items() for t in r['unconfirmed']]
    ev_stats = lambda k: sum(r['stats'][k] for r in results.values())
    funcs = sorted({f for r in results.values() for f in r['stats']['functions'] if '/repo' in f or REPO in f or '/gen/' in f})
    funcs = [re.sub(r'^.*/gen/', 'gen/', f.replace(REPO + '/', '')) for f in funcs]
    samples = [{'harness': n, 'inputs': s} for n, r in results.items() for s in r['samples']]
    samples += [{'harness': n, 'violation': t['desc'][:600]} for n, t in conf]
    ev = {
        'property': a.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': ev_stats('paths') + ev_stats('forks'), 'transitions': ev_stats('branch_decisions') + ev_stats('forks'),
            'traces_validated_against_impl': sum(r['validated'] for r in results.values()),
            'samples': samples or [{'note': 'no completed path'}],
            'functions_encoded': funcs,
            'harnesses': {n: {'bounds': r['bounds'], 'defines': r['defs'], 'witnesses_reached': r['reach'],
                              'paths': r['stats']['paths'], 'paths_completed': r['stats']['paths_ok'],
                              'solver_queries': r['stats']['queries'], 'solver_seconds': r['stats']['solver_s'],
                              'sat': r['stats']['sat'], 'unsat': r['stats']['unsat'],
                              'checks_decided': r['stats']['checks_symbolic'] + r['stats']['checks_concrete'],
                              'memory_accesses_checked': r['stats']['memory_checks'],
                              'instructions': r['stats']['instructions'], 'exploration_complete': r['stats']['complete'],
                              'wall_s': r['stats']['wall_s']} for n, r in results.items()},
            'exhaustive': bool(results) and all(r['stats']['complete'] for r in results.values()),
        },
        'assumptions': ['clang 18 -O1 LLVM IR of /repo stands for the code; x86-64, malloc never fails',
                        'rt/libc.c stands for the C library (strings, stdio in memory, rand)',
                        'inputs beyond the stated bounds are not explored'],
        'wall_s': round(time.time() - T0, 2), 'violations': len(conf),
    }
    if broken:
        ev['coverage']['no_verdict'] = broken
    with open(os.path.join(VERIF, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if conf:
        for n, t in conf:
            print('  %s: %s' % (n, t['desc'][:1500]))
        print('VIOLATION property=%s replay=%s' % (a.pid, conf[0][1]['file']))
        return 1
    if unconf:
        for n, t in unconf:
            print('UNCONFIRMED %s: %s (native: %s; %s)' % (n, t['desc'][:1500], t['status'], t['native'][-300:]))
        return 2
    return 2 if broken else 0


if __name__ == '__main__':
    sys.exit(main())
