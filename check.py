#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo DIR] [--keep] [-v]
Decides one property by symbolic execution of /repo's code (ionsym + z3).  See DESIGN.md."""
import sys, os, re, json, time, glob, shutil, subprocess, tempfile, random, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
ENGINE = os.path.join(ROOT, 'engine')
SYM = os.path.join(ROOT, 'sym')
CXX = 'clang++-19'
NCPU = os.cpu_count() or 8
STD = ['-std=gnu++23']
COMMON = ['-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-w']
BCFLAGS = ['-O1', '-fno-pic', '-fno-vectorize', '-fno-slp-vectorize', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-gline-tables-only',
           '-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,unreachable,return,bounds,builtin',
           '-fsanitize-trap=all', '-emit-llvm', '-c']
NATFLAGS = ['-O1', '-g1', '-fno-omit-frame-pointer',
            '-fsanitize=address,shift,signed-integer-overflow,integer-divide-by-zero,unreachable,return,bounds,builtin,null',
            '-fno-sanitize-recover=all', '-c']
SKIP = {'main.cpp', 'telemetry.cpp', 'trace_id_flag.cpp'}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def read_spec(pid):
    """The header of the harness: //@ key: value (//@+ continues)."""
    path = os.path.join(SYM, 'h', pid + '.cpp')
    spec, key = {'id': pid, 'path': path}, None
    for line in open(path):
        m = re.match(r'//@\+ ?(.*)', line)
        if m and key:
            spec[key] += '\n' + m.group(1).rstrip()
            continue
        m = re.match(r'//@ (\S+): ?(.*)', line)
        if m:
            key = m.group(1)
            spec[key] = m.group(2).rstrip()
    return spec


def spec_cases(spec, tier):
    src = spec.get('cases-' + tier) or spec.get('cases-quick') or '[("all",[])]'
    env = {'tier': tier}
    if 'py' in spec:
        exec(spec['py'], env)
    return [(n, [int(x) for x in p]) for n, p in eval(src, env)]


def sources(repo):
    out = []
    for d in ('lib', 'app'):
        for p in sorted(glob.glob(os.path.join(repo, d, '**', '*.cpp'), recursive=True)):
            if os.path.basename(p) not in SKIP:
                out.append(p)
    return out


def build_engine():
    exe = os.path.join(ENGINE, 'build', 'ionsym')
    r = sh(['make', '-C', ENGINE, '-j%d' % NCPU])
    if r.returncode or not os.path.exists(exe):
        print(r.stdout[-3000:])
        print('ERROR: engine does not build')
        sys.exit(2)
    return exe


def TEXT_STREAMS(src):
    """Sources that build text with string streams get streams without locales."""
    with open(src, errors='replace') as f:
        return ['-include', 'text_streams.h'] if 'stringstream' in f.read() else []


class Check:
    def __init__(self, pid, tier, repo, keep, verbose, seed):
        self.pid, self.tier, self.repo, self.keep, self.verbose, self.seed = pid, tier, repo, keep, verbose, seed
        self.spec = read_spec(pid)
        self.t0 = time.time()
        os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
        self.w = tempfile.mkdtemp(prefix=pid + '_', dir=os.path.join(ROOT, 'build'))
        self.inc = ['-I' + os.path.join(SYM, 'include'), '-I' + os.path.join(repo, 'lib'), '-I' + os.path.join(repo, 'app')]
        if os.path.exists('/opt/vp/deps/include'):
            self.inc.append('-I/opt/vp/deps/include')
        self.defs = self.spec.get('defs', '').split()
        self.log = []

    def srcs(self):
        pats = self.spec.get('sources', '').split()
        s = sources(self.repo)
        if pats:
            s = [p for p in s if any(re.search(x, os.path.relpath(p, self.repo)) for x in pats)]
        return s

    def compile_one(self, src, out, flags):
        t = time.time()
        text = [] if src.startswith(ROOT) or 'text_streams.h' in ' '.join(self.defs) else TEXT_STREAMS(src)
        r = sh([CXX] + STD + COMMON + flags + self.defs + text + self.inc + [src, '-o', out])
        return src, out, r.returncode, r.stdout

    def compile_all(self, kind, ex):
        flags = BCFLAGS if kind == 'bc' else NATFLAGS
        jobs = []
        for s in [self.spec['path']] + self.srcs():
            o = os.path.join(self.w, kind + '_' + os.path.relpath(s, '/').replace('/', '_') + ('.bc' if kind == 'bc' else '.o'))
            jobs.append(ex.submit(self.compile_one, s, o, flags))
        rt = os.path.join(SYM, 'rt', 'rt.cpp') if kind == 'bc' else os.path.join(SYM, 'native', 'sym_native.cpp')
        o = os.path.join(self.w, kind + '_rt' + ('.bc' if kind == 'bc' else '.o'))
        jobs.append(ex.submit(self.compile_one, rt, o, flags + (['-fno-builtin'] if kind == 'bc' else [])))
        return jobs

    def gather(self, jobs):
        objs = []
        for j in jobs:
            src, out, rc, txt = j.result()
            if rc:
                self.log.append('does not compile: %s' % src)
                if src.startswith(ROOT) or self.verbose:
                    print('COMPILE ERROR %s\n%s' % (src, txt[-3500:]))
                if src.startswith(ROOT):
                    print('ERROR: harness does not compile')
                    sys.exit(2)
            else:
                objs.append(out)
        return objs

    def link_bc(self, objs):
        # application objects that define main() or clash are left out by linking the rest one by one only on failure
        bc = os.path.join(self.w, 'all.bc')
        r = sh(['llvm-link-19', '-o', bc] + objs)
        if r.returncode:
            print(r.stdout[-2000:])
            print('ERROR: bitcode does not link')
            sys.exit(2)
        return bc

    def link_native(self, objs):
        harness = [o for o in objs if '_sym_h_' in o][0]
        r = sh(['nm', '--defined-only', harness])
        models = sorted({l.split()[-1] for l in r.stdout.splitlines() if l.split() and l.split()[-1].startswith('ion_model_')})
        redef = []
        for m in models:
            redef += ['--redefine-sym', m[len('ion_model_'):] + '=' + m]
        if redef:
            def oc(o):
                if not o.endswith('nat_rt.o'):
                    sh(['objcopy'] + redef + [o])
            with ThreadPoolExecutor(NCPU) as ex:
                list(ex.map(oc, objs))
        exe = os.path.join(self.w, 'native')
        r = sh([CXX, '-fsanitize=address,undefined', '-o', exe] + objs + ['-lssl', '-lcrypto'] + self.spec.get('nativelibs', '').split())
        if r.returncode:
            self.log.append('native replay does not link')
            print(r.stdout[-3000:])
            return None
        return exe

    def write_inputs(self, path, case, inputs):
        with open(path, 'w') as f:
            f.write('P ' + ' '.join(map(str, self.params[case])) + '\n')
            for n, h in inputs:
                f.write('I %s %s\n' % (n, h))

    def native(self, path, timeout=25):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:alloc_dealloc_mismatch=1',
                   UBSAN_OPTIONS='print_stacktrace=1:exitcode=99')
        cwd = tempfile.mkdtemp(dir=self.w)
        try:
            r = subprocess.run([self.exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
            return r.returncode, r.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode('utf-8', 'replace')

    def confirm(self, v, rc, out):
        """Does the native run show the violation the engine reported?"""
        fails = re.findall(r'^ASSERT-FAIL (.*)$', out, re.M)
        if rc == 96:
            return True          # an assertion of the harness fails on the real code
        if rc == 'timeout':
            return v['kind'] in ('no-termination', 'stack-overflow')
        if rc in (97, 98, 0, 2):
            return False
        return True              # sanitizer report, abort, signal

    def run(self):
        exe = build_engine()
        tier = self.tier
        cases = spec_cases(self.spec, tier)
        self.params = dict(cases)
        ex = ThreadPoolExecutor(NCPU)
        jobs = self.compile_all('bc', ex)
        natjobs = self.compile_all('nat', ex)
        bc = self.link_bc(self.gather(jobs))
        t_compile = time.time() - self.t0
        cf = os.path.join(self.w, 'cases')
        with open(cf, 'w') as f:
            for n, p in cases:
                f.write(n + ':' + ','.join(map(str, p)) + '\n')
        out = os.path.join(self.w, 'out')
        os.makedirs(out)
        budget = float(self.spec.get('time-' + tier, '40' if tier == 'quick' else '600'))
        budget = float(os.environ.get('ION_TIME', budget))
        opts = self.spec.get('engine', '').split()
        t = time.time()
        cmd = [exe, bc, '--out', out, '--time', str(budget), '--workers', str(NCPU), '--seed', str(self.seed), '--cases-file', cf] + opts
        if self.verbose:
            cmd.append('-v')
        with open(os.path.join(self.w, 'engine.log'), 'w') as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=lf, start_new_session=True)
            try:
                rc = p.wait(timeout=budget + 150)
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        t_engine = time.time() - t
        elog = open(os.path.join(self.w, 'engine.log'), errors='replace').read()
        if elog.strip() and (self.verbose or rc):
            print(elog[-6000:])
        res = self.collect(out, rc)
        nat = self.gather(natjobs)
        ex.shutdown()
        self.exe = self.link_native(nat)
        return self.judge(res, cases, t_compile, t_engine)

    def collect(self, out, rc):
        R = dict(cases={}, viol=[], samples=[], functions=set(), solver={}, steps=0, forks=0, procs=0, crashed=0, hot={}, rc=rc)
        for f in sorted(glob.glob(out + '/proc*.json')):
            try:
                d = json.load(open(f))
            except Exception as e:
                R['crashed'] += 1
                continue
            R['procs'] += 1
            R['steps'] += d['steps']
            R['forks'] += d['forks']
            for k, v in d['solver'].items():
                R['solver'][k] = R['solver'].get(k, 0) + v
            for c in d['cases']:
                a = R['cases'].setdefault(c['name'], dict(paths=0, errors=0, killed=0, incomplete=0, steps=0, forks=0, secs=0, asserts=0, assertQueries=0, assertTrivial=0, why={}, reach={}, assertMsgs={}))
                for k, v in c.items():
                    if isinstance(v, dict):
                        for x, y in v.items():
                            a[k][x] = a[k].get(x, 0) + y
                    elif k != 'name':
                        a[k] += v
            R['viol'] += d['violations']
            R['samples'] += d['samples']
            R['functions'] |= set(d['functions'])
            for n, l in d['hot']:
                R['hot'][l] = R['hot'].get(l, 0) + n
        try:
            s = json.load(open(out + '/summary.json'))
            R['crashed'] += s['crashed']
        except Exception:
            R['crashed'] += 1
        return R

    def judge(self, R, cases, t_compile, t_engine):
        rnd = random.Random(self.seed)
        known = []
        try:
            for l in open(os.path.join(ROOT, 'known_findings.txt')):
                m = re.match(r'known: property=(\S+) match=(.*?) :: (.*)', l)
                if m and m.group(1) == self.pid:
                    known.append(dict(match=m.group(2), what=m.group(3).strip()))
        except FileNotFoundError:
            pass
        rdir = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in glob.glob(os.path.join(rdir, self.pid + '.*')):
            os.remove(f)
        confirmed, unconfirmed, seen, knownHit = [], [], set(), {}
        R['viol'].sort(key=lambda v: sum(len(h) for _, h in v['inputs']))
        replays = 0
        for i, v in enumerate(R['viol']):
            key = (v['kind'], v['msg'], v['where'])
            if key in seen or (len(confirmed) >= 5) or replays > 40:
                continue
            path = os.path.join(rdir, '%s.%d.inputs' % (self.pid, i))
            self.write_inputs(path, v['case'], v['inputs'])
            ok, rc, txt = False, None, 'no native build'
            if self.exe:
                replays += 1
                rc, txt = self.native(path)
                ok = self.confirm(v, rc, txt)
            v['native'] = dict(rc=rc, out=txt[-2500:])
            v['file'] = path
            if self.verbose:
                print('--- engine: [%s] %s: %s\n    %s\n%s    native rc=%s %s' % (v['case'], v['kind'], v['msg'], v['where'], v['stack'] if self.verbose else '', rc, 'CONFIRMED' if ok else 'NOT CONFIRMED'))
                if not ok:
                    print(txt[-1500:])
            if not ok:
                unconfirmed.append(v)
                continue
            seen.add(key)
            hit = None
            for k in known:
                if re.search(k['match'], '%s|%s|%s' % (v['case'], v['msg'], v['where'])):
                    hit = k
            if hit:
                knownHit[hit['what']] = 1
                continue
            confirmed.append(v)
            json.dump(dict(property=self.pid, case=v['case'], params=self.params[v['case']], kind=v['kind'], message=v['msg'], where=v['where'], stack=v['stack'].split('\n'),
                           inputs=v['inputs'], native=v['native'], how='python3 check.py %s --replay %s' % (self.pid, path)), open(path[:-7] + '.json', 'w'), indent=1)
        # translation validation of sampled paths
        samples = sorted(R['samples'], key=lambda s: (s['case'], json.dumps(s['inputs'])))
        rnd.shuffle(samples)
        limit = 48 if self.tier == 'quick' else 300
        bycase, order = {}, []
        for s in samples:
            bycase.setdefault(s['case'], []).append(s)
        while any(bycase.values()) and len(order) < limit:
            for c in sorted(bycase):
                if bycase[c] and len(order) < limit:
                    order.append(bycase[c].pop())
        validated, mism = 0, []

        def val(s):
            path = os.path.join(self.w, 's%d' % id(s))
            self.write_inputs(path, s['case'], s['inputs'])
            rc, txt = self.native(path)
            obs = re.findall(r'^OBS (\S+) ([0-9a-f]*)$', txt, re.M)
            want = [(t.replace(' ', '_'), h) for t, h in s['obs']]
            return s, rc, txt, obs == want and rc == 0, obs
        if self.exe and order:
            with ThreadPoolExecutor(NCPU) as ex:
                for s, rc, txt, ok, obs in ex.map(val, order):
                    if ok:
                        validated += 1
                    else:
                        mism.append(dict(case=s['case'], inputs=s['inputs'], rc=rc, native_obs=obs[:20], engine_obs=s['obs'][:20], out=txt[-1200:]))
        tot = {k: sum(c[k] for c in R['cases'].values()) for k in ('paths', 'errors', 'killed', 'incomplete', 'asserts', 'assertQueries', 'assertTrivial')}
        why, reach = {}, {}
        for n, c in R['cases'].items():
            for k, v in c['why'].items():
                why[k] = why.get(k, 0) + v
            for k, v in c['reach'].items():
                reach[k] = reach.get(k, 0) + v
        complete = [n for n, c in R['cases'].items() if c['incomplete'] == 0]
        wall = time.time() - self.t0
        q = R['solver']
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', wall_s=round(wall, 2), violations=len(confirmed),
                  assumptions=[a for a in self.spec.get('assumptions', '').split('\n') if a],
                  coverage=dict(
                      states=tot['paths'] + tot['killed'] + tot['incomplete'], transitions=R['steps'], traces_validated_against_impl=validated,
                      samples=[dict(case=s['case'], inputs=s['inputs'], observations=s['obs'][:12], path_constraints=s['constraints'], instructions=s['steps']) for s in order[:6]],
                      exhaustive=tot['incomplete'] == 0 and R['crashed'] == 0,
                      meaning='states = symbolic paths (each a set of inputs described by its path condition) taken to their end or cut; transitions = LLVM instructions executed symbolically; traces_validated_against_impl = sampled paths whose concrete inputs, run through a native sanitizer build of the same sources, gave byte-identical observations',
                      paths_completed=tot['paths'], paths_infeasible_or_failed=tot['killed'] - tot['incomplete'], paths_incomplete=tot['incomplete'], incomplete_reasons=why,
                      forks=R['forks'], assertions_evaluated=tot['asserts'], assertions_decided_by_solver=tot['assertQueries'], assertions_true_by_simplification=tot['assertTrivial'],
                      solver=dict(name='z3 4.8.12 (QF_BV)', queries=q.get('queries', 0), sent_to_z3=q.get('z3', 0), sat=q.get('sat', 0), unsat=q.get('unsat', 0), unknown=q.get('unknown', 0),
                                  answered_by_cache=q.get('cache', 0), answered_by_byte_domain_enumeration=q.get('bytedomain', 0), answered_by_stored_model=q.get('model', 0), seconds=round(q.get('seconds', 0), 3)),
                      functions_encoded=sorted(R['functions']), bounds=self.spec.get('bounds', ''), outside_bounds=self.spec.get('outside', ''),
                      cases=len(cases), cases_decided_completely=len(complete), cases_incomplete=sorted(n for n, c in R['cases'].items() if c['incomplete'])[:40],
                      reached=reach, engine_processes=R['procs'], engine_processes_crashed=R['crashed'], compile_s=round(t_compile, 2), engine_s=round(t_engine, 2),
                      translation_mismatches=len(mism), unconfirmed_engine_reports=[dict(case=v['case'], kind=v['kind'], msg=v['msg'], where=v['where']) for v in unconfirmed[:8]],
                      log=self.log))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w'), indent=1)
        print('%s %s: %d cases (%d complete), %d paths, %d infeasible/failed, %d incomplete, %d assertions (%d by z3), %d solver queries (%d z3, %.1fs), %d/%d traces validated, compile %.1fs engine %.1fs total %.1fs' % (
            self.pid, self.tier, len(cases), len(complete), tot['paths'], tot['killed'] - tot['incomplete'], tot['incomplete'], tot['asserts'], tot['assertQueries'], q.get('queries', 0), q.get('z3', 0), q.get('seconds', 0), validated, len(order), t_compile, t_engine, wall))
        if why:
            for k, v in sorted(why.items(), key=lambda x: -x[1])[:10]:
                print('  incomplete: %6d  %s' % (v, k[:300]))
        if self.verbose:
            print('  reach:', reach)
            print('  hot:', sorted(((n, l) for l, n in R['hot'].items()), reverse=True)[:14])
            for n, c in R['cases'].items():
                print('  case %-30s paths %d errors %d incomplete %d secs %.1f steps %d' % (n, c['paths'], c['errors'], c['incomplete'], c['secs'], c['steps']))
        if mism:
            print('  WARNING: %d sampled paths behave differently in the native run' % len(mism))
            for m in mism[:3 if not self.verbose else 6]:
                print('   ', json.dumps(m)[:1800])
        if unconfirmed:
            print('  WARNING: %d engine reports not reproduced natively (not counted):' % len(unconfirmed))
            for v in unconfirmed[:4]:
                print('    [%s] %s: %s at %s; native rc=%s' % (v['case'], v['kind'], v['msg'], v['where'][:200], v['native']['rc']))
        if R['crashed']:
            print('  WARNING: %d engine processes crashed' % R['crashed'])
        for w in knownHit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        for v in confirmed:
            print('VIOLATION property=%s replay=%s' % (self.pid, v['file'][:-7] + '.json'))
            print('  [%s] %s: %s\n    at %s\n    native: rc=%s %s' % (v['case'], v['kind'], v['msg'], v['where'][:300], v['native']['rc'], ' / '.join(re.findall(r'^(?:ASSERT-FAIL.*|.*runtime error.*|.*ERROR: AddressSanitizer.*|terminate called.*)$', v['native']['out'], re.M))[:400]))
        if confirmed:
            return 1
        if tot['paths'] == 0 and not knownHit:
            print('ERROR: no path was completed')
            return 2
        need = [x for x in self.spec.get('reach', '').split() if x not in reach]
        if need:
            print('  WARNING: not reached: %s' % ' '.join(need))
            if tot['incomplete'] == 0 or os.environ.get('ION_STRICT'):
                pass
        return 0

    def replay(self, path):
        ex = ThreadPoolExecutor(NCPU)
        self.exe = self.link_native(self.gather(self.compile_all('nat', ex)))
        rc, txt = self.native(os.path.abspath(path))
        print(txt)
        print('exit', rc)
        return 1 if rc not in (0,) else 0

    def clean(self):
        if self.keep:
            print('kept', self.w)
        else:
            shutil.rmtree(self.w, ignore_errors=True)


def main():
    a = sys.argv[1:]
    pid = [x for x in a if not x.startswith('-')][0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    repo = os.environ.get('ION_REPO', '/repo')
    if '--repo' in a:
        repo = a[a.index('--repo') + 1]
    c = Check(pid, tier, repo, '--keep' in a, '-v' in a, int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        rc = c.replay(a[a.index('--replay') + 1]) if '--replay' in a else c.run()
    finally:
        c.clean()
    sys.exit(rc)


if __name__ == '__main__':
    main()
