#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--keep].

Compiles /repo's current sources to LLVM IR, links them with the property's harness and the library models, and lets
the symbolic executor (engine/) and its SMT solver decide every job of the property.  Counterexamples are replayed
against a native build of the same sources (ordinary compiler, ordinary C++ library, AddressSanitizer); only those that
reproduce are reported.  Exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('X1_REPO', '/repo') # a scratch copy while trying planted bugs (tools/tryseed.py); never set by the registered commands
sys.path.insert(0, V)
import specs

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = 760 if TIER == 'quick' else 7200    # seconds for the solver jobs
SIM = ['x1_arch', 'machine', 'processor', 'opcodes', 'trace', 'virtual_stack', 'encoding', 'input']


class CheckError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode:
        raise CheckError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def engine():
    d = V + '/engine'
    out = V + '/build/engine-' + sha([d + '/' + f for f in os.listdir(d)])
    if not os.path.exists(out + '/symx'):
        tmp = out + '.%d' % os.getpid()
        run(['bash', d + '/build.sh', tmp])
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out + '/symx'


IRF = ['-O1', '-fwrapv', '-Xclang', '-disable-llvm-passes', '-g1', '-emit-llvm', '-c']
CXX_IR = ['clang++-18', '-std=c++17', '-DNDEBUG', '-fno-threadsafe-statics'] + IRF + ['-I', V + '/models/include']
NAT = ['-std=c++17', '-fwrapv', '-O1', '-g', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address', '-fno-omit-frame-pointer', '-w']


class Build:
    """Compiles each thing once; safe to call from several threads."""
    def __init__(self, work):
        self.work, self.repo, self.v, self.run, self.irf, self.cxx_ir, self.nat = work, REPO, V, run, IRF, CXX_IR, NAT
        self.locks = {}
        self.done = {}
        self.lock = threading.Lock()

    def once(self, key, fn):
        with self.lock:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.done:
                try:
                    self.done[key] = (fn(), None)
                except Exception as e:
                    self.done[key] = (None, e)
            r, e = self.done[key]
            if e:
                raise e
            return r

    # ---- IR
    def model(self):
        def f():
            o = self.work + '/model.bc'
            run(CXX_IR[:1] + CXX_IR[1:] + ['-fno-builtin', V + '/models/model.cpp', '-o', o])
            return o
        return self.once('model', f)

    def libc(self):
        def f():
            o = self.work + '/libc.bc'
            run(['clang-18', '-fno-builtin'] + IRF + [V + '/models/libc.c', '-o', o])
            return o
        return self.once('libc', f)

    def sim_bc(self, tu):
        def f():
            o = '%s/%s.bc' % (self.work, tu)
            run(CXX_IR + ['-DVERSION_STRING="test"', '-I', REPO + '/simulator', '%s/simulator/%s.cpp' % (REPO, tu), '-o', o])
            return o
        return self.once('sim:' + tu, f)

    def ts_stub(self):
        """virtual_stack without the body of Stack_Cell::to_string (trace text only), and its stand-in."""
        def f():
            vs = self.sim_bc('virtual_stack')
            sym = '_ZNK10Stack_Cell9to_stringB5cxx11Ev'
            if not any(re.search(r' [Tt] ' + sym + '$', l) for l in run(['llvm-nm-18', vs]).splitlines()):
                return [vs]
            o = self.work + '/virtual_stack_nots.bc'
            run(['llvm-extract-18', '--delete', '--func=' + sym, vs, '-o', o])
            s = self.work + '/stub_tostring.bc'
            run(CXX_IR + [V + '/harness/stub_tostring.cpp', '-o', s])
            return [o, s]
        return self.once('ts', f)

    def harness_bc(self, h, spec):
        def f():
            o = '%s/h_%s.bc' % (self.work, h)
            src = V + '/harness/' + spec.get('src', h + '.cpp')
            run(CXX_IR + ['-fno-access-control', '-I', V + '/harness', '-I', V + '/models', '-I', self.work, '-I', REPO + '/simulator']
                + spec.get('cflags', []) + [src, '-o', o])
            return o
        return self.once('h:' + h, f)

    def linked(self, h):
        spec = specs.HARNESSES[h]

        def f():
            for g in spec.get('gen', []):
                self.once('gen:' + g.__name__, lambda: g(self))
            with cf.ThreadPoolExecutor(12) as ex:
                fs = [ex.submit(self.harness_bc, h, spec), ex.submit(self.model), ex.submit(self.libc)]
                if spec.get('kind', 'sim') == 'sim':
                    tus = spec.get('tus', SIM)
                    for t in tus:
                        if t == 'virtual_stack' and spec.get('tostring_stub', True):
                            fs.append(ex.submit(self.ts_stub))
                        else:
                            fs.append(ex.submit(self.sim_bc, t))
                for e in spec.get('extra_bc', []):
                    fs.append(ex.submit(self.once, 'x:' + e.__name__, lambda e=e: e(self)))
                objs = []
                for x in fs:
                    r = x.result()
                    objs += r if isinstance(r, list) else [r]
            allbc, opt = '%s/all_%s.bc' % (self.work, h), '%s/opt_%s.bc' % (self.work, h)
            run(['llvm-link-18'] + objs + ['-o', allbc])
            run(['opt-18', '-passes=internalize,globaldce,default<O1>', '-internalize-public-api-list=harness', allbc, '-o', opt])
            return opt
        return self.once('link:' + h, f)

    # ---- native
    def nat_obj(self, key, cmd, o):
        def f():
            run(cmd + ['-c', '-o', o])
            return o
        return self.once('nat:' + key, f)

    def native(self, h):
        spec = specs.HARNESSES[h]

        def f():
            for g in spec.get('gen', []):
                self.once('gen:' + g.__name__, lambda: g(self))
            w = self.work
            with cf.ThreadPoolExecutor(12) as ex:
                fs = [ex.submit(self.nat_obj, 'native', ['g++'] + NAT + ['-I', V + '/models', V + '/native/native.cpp'], w + '/n_native.o'),
                      ex.submit(self.nat_obj, 'h:' + h, ['g++'] + NAT + ['-fno-access-control', '-DNATIVE', '-I', V + '/harness', '-I', V + '/models', '-I', w, '-I', REPO + '/simulator']
                                + spec.get('cflags', []) + [V + '/harness/' + spec.get('src', h + '.cpp')], '%s/n_h_%s.o' % (w, h))]
                if spec.get('kind', 'sim') == 'sim':
                    for t in spec.get('tus', SIM):
                        fs.append(ex.submit(self.nat_obj, 'sim:' + t, ['g++'] + NAT + ['-DVERSION_STRING="test"', '-I', REPO + '/simulator', '%s/simulator/%s.cpp' % (REPO, t)], '%s/n_%s.o' % (w, t)))
                for e in spec.get('extra_native', []):
                    fs.append(ex.submit(self.once, 'xn:' + e.__name__, lambda e=e: e(self)))
                objs = []
                for x in fs:
                    r = x.result()
                    objs += r if isinstance(r, list) else [r]
            exe = '%s/native_%s' % (w, h)
            run(['g++', '-fsanitize=address'] + spec.get('ldflags', []) + objs + ['-o', exe])
            return exe
        return self.once('native:' + h, f)


def write_inputs(path, rep):
    with open(path, 'w') as f:
        for n, v in rep['inputs']:
            f.write('I %s %s\n' % (n.split(':')[0] if False else n, v))
        for rn, es in rep.get('regions', {}).items():
            for i, v in es:
                f.write('R %s %s %s\n' % (rn, i, v))


def native_run(exe, arg, inp):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='halt_on_error=1')
    d = inp + '.cwd'
    os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run([exe, str(arg), inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                           timeout=60, env=env, stdin=subprocess.DEVNULL, cwd=d)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Job:
    def __init__(self, pid, j):
        self.pid = pid
        self.h = j['h']
        self.arg = j.get('arg', 0)
        self.reach = j.get('reach', [])
        self.time = j.get('time', 300)
        self.opts = j.get('opts', [])
        self.bound = j.get('bound', '')
        self.desc = j.get('desc', '')
        self.weight = j.get('weight', 1)
        self.name = '%s/%s' % (self.h, self.arg)


def run_job(b, symx, job):
    bc = b.linked(job.h)
    out = '%s/out_%s_%s.json' % (b.work, job.h, job.arg)
    left = BUDGET - (time.time() - T0)
    tl = max(5, min(job.time if TIER == 'quick' else job.time * 6, left))
    cmd = [symx, '-entry', 'harness', '-arg', str(job.arg), '-o', out, '-time', str(tl), '-repo', REPO] + \
          (['-slow', '600', '-branch', '30'] if TIER == 'thorough' else []) + job.opts + [bc]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=tl + 60)
        err = p.stdout[-2000:] if p.returncode else ''
    except subprocess.TimeoutExpired:
        err = 'engine did not stop at its time limit'
    if os.path.exists(out):
        r = json.load(open(out))
    else:
        r = None
    if r is None:
        r = {'complete': False, 'why': 'engine failed: ' + err, 'paths': 0, 'forks': 0, 'steps': 0, 'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0,
             'solver_time': 0, 'reach': {}, 'limits': {}, 'violations': [], 'samples': [], 'functions': {}, 'asserts': 0, 'assert_count': {}, 'ends': {}}
    r['wall'] = time.time() - t
    return r


def known_findings():
    res = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) job=(\S+) label="([^"]*)" (.*)', l.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    if '--setup' in sys.argv:
        engine()
        return 0
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    pid = args[0]
    only = args[1:]
    keep = '--keep' in sys.argv
    prop = specs.PROPS[pid]
    work = V + '/build/work-%s-%d' % (pid, os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(V + '/evidence', exist_ok=True)
    for f in os.listdir(V + '/evidence'):
        if f.startswith('replay-%s-' % pid):
            os.unlink(V + '/evidence/' + f)
    rc = 2
    try:
        rc = check(pid, prop, work, only)
    except CheckError as e:
        print('ERROR: ' + str(e))
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return rc


def check(pid, prop, work, only):
    b = Build(work)
    jobs = [Job(pid, j) for j in prop['jobs'] if TIER == 'thorough' or not j.get('thorough')]
    if only:
        jobs = [j for j in jobs if j.name in only or j.h in only]
    eng = cf.ThreadPoolExecutor(1).submit(engine)
    hs = sorted(set(j.h for j in jobs))
    # IR first; the native builds follow while the solver works.
    with cf.ThreadPoolExecutor(len(hs) or 1) as ex:
        for f in [ex.submit(b.linked, h) for h in hs]:
            f.result()
    symx = eng.result()
    results = {}
    pool = cf.ThreadPoolExecutor(8)
    futs = {}
    for j in sorted(jobs, key=lambda j: -j.weight):
        futs[j.name] = pool.submit(run_job, b, symx, j)
    natf = {h: cf.ThreadPoolExecutor(1).submit(b.native, h) for h in hs}
    for n, f in futs.items():
        results[n] = f.result()
    exes = {h: f.result() for h, f in natf.items()}

    known = known_findings()
    violations, unconfirmed, knownhits, incomplete, mismatches = [], [], [], [], []
    validated, samples, functions = 0, [], {}
    obligations = discharged = 0
    tot = dict(paths=0, steps=0, queries=0, solver=0.0, sat=0, unsat=0, unknown=0, asserts=0)
    jobev = []
    for j in jobs:
        r = results[j.name]
        for k, kk in (('paths', 'paths'), ('steps', 'steps'), ('queries', 'queries'), ('solver', 'solver_time'), ('sat', 'sat'), ('unsat', 'unsat'), ('unknown', 'unknown'), ('asserts', 'asserts')):
            tot[k] += r.get(kk, 0)
        for f, n in r['functions'].items():
            functions[f] = functions.get(f, 0) + n
        obligations += 1
        missing = [l for l in j.reach if not r['reach'].get(l)]
        confirmed_here = 0
        for i, v in enumerate(r['violations']):
            inp = '%s/viol_%s_%s_%d.txt' % (work, j.h, j.arg, i)
            write_inputs(inp, v)
            code, so, se = native_run(exes[j.h], j.arg, inp)
            if v['kind'] == 'assert':
                ok = ('FAIL ' + v['label']) in so.splitlines() or code == 99 or (isinstance(code, int) and code < 0)
            else:
                ok = code not in (0, 77, 78)
            ent = {'job': j.name, 'kind': v['kind'], 'label': v['label'], 'where': v.get('loc', ''), 'inputs': v['inputs'], 'regions': v.get('regions', {}),
                   'native_exit': code, 'native_output': so[-1500:], 'native_stderr': se[-1500:]}
            if not ok:
                unconfirmed.append(ent)
                continue
            confirmed_here += 1
            kf = [k for k in known if k[0] == pid and k[1] == j.name and k[2] == v['label']]
            if kf:
                knownhits.append(kf[0])
                continue
            path = '%s/evidence/replay-%s-%d.json' % (V, pid, len(violations))
            json.dump(ent, open(path, 'w'), indent=1)
            ent['path'] = path
            violations.append(ent)
        for i, s in enumerate(r['samples']):
            inp = '%s/sample_%s_%s_%d.txt' % (work, j.h, j.arg, i)
            write_inputs(inp, s)
            code, so, se = native_run(exes[j.h], j.arg, inp)
            obs = [l[4:].rsplit(' ', 1) for l in so.splitlines() if l.startswith('OBS ')]
            want = [[str(a), str(x)] for a, x in s['observes']]
            if code == 0 and obs == want and 'FAIL' not in so:
                validated += 1
            else:
                mismatches.append({'job': j.name, 'inputs': s['inputs'], 'engine': want[:40], 'native': obs[:40], 'exit': code, 'out': so[-600:], 'err': se[-600:]})
            if len(samples) < 12 and (i == 0 or len(jobs) < 3):
                samples.append({'job': j.name, 'inputs': s['inputs'][:24], 'observed': s['observes'][:24], 'end': s['label']})
        ok = r['complete'] and not missing and not r['violations']
        if ok:
            discharged += 1
        else:
            why = r['why'] or '; '.join('%s (%s)' % x for x in r['limits'].items())
            if missing and not r['violations']:
                why += ' not reached: ' + ', '.join(missing)
            if why:
                incomplete.append('%s: %s' % (j.name, why))
        jobev.append({'job': j.name, 'what': j.desc, 'bound': j.bound, 'complete': bool(ok), 'paths': r['paths'], 'queries': r['queries'],
                      'assertions_checked': r['asserts'], 'solver_s': round(r['solver_time'], 2), 'wall_s': round(r['wall'], 2), 'reach': r['reach']})

    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['steps'],
            'traces_validated_against_impl': validated, 'samples': samples,
            'explanation': 'states: symbolic paths explored (each stands for all inputs satisfying its path condition); transitions: IR instructions '
                           'executed symbolically; obligations: jobs (harness/argument) and how many of them the solver discharged completely',
            'obligations': obligations, 'discharged': discharged,
            'assertions_checked': tot['asserts'], 'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_unknown': tot['unknown'],
            'solver_s': round(tot['solver'], 2), 'functions_encoded': sorted(functions), 'bounds': prop.get('bounds', ''), 'outside': prop.get('outside', ''),
            'jobs': jobev, 'undischarged': incomplete, 'unconfirmed_counterexamples': unconfirmed[:5], 'sample_mismatches': mismatches[:5],
        },
        'assumptions': specs.COMMON_ASSUMPTIONS + prop.get('assumptions', []),
        'wall_s': round(time.time() - T0, 2), 'violations': len(violations),
    }
    if not only:
        json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1, ensure_ascii=False)
    print('%s: %d/%d obligations discharged, %d paths, %d queries, solver %.1f s, %d samples validated natively, %.1f s' %
          (pid, discharged, obligations, tot['paths'], tot['queries'], tot['solver'], validated, time.time() - T0))
    for x in incomplete:
        print('UNDISCHARGED ' + x)
    for u in unconfirmed:
        print('UNCONFIRMED %s %s at %s inputs %s exit %s %s %s' % (u['job'], u['label'], u['where'], u['inputs'][:8], u['native_exit'], u['native_output'][-300:], u['native_stderr'][-300:]))
    for m in mismatches:
        print('MISMATCH %s inputs %s\n  engine %s\n  native %s exit %s\n%s%s' % (m['job'], m['inputs'][:10], m['engine'], m['native'], m['exit'], m['out'], m['err']))
    for k in sorted(set(knownhits)):
        print('KNOWN-FINDING: property=%s %s' % (k[0], k[3]))
    for v in violations:
        print('  %s: %s at %s with %s' % (v['job'], v['label'], v['where'], ' '.join('%s=%s' % (a, x) for a, x in v['inputs'][:12])))
    if violations:
        print('VIOLATION property=%s replay=%s' % (pid, violations[0]['path']))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
