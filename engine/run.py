"""Runs a suite: extraction from /repo, proof units in parallel, native harness, verdict, evidence."""
import os, sys, time, json, subprocess, tempfile, shutil, importlib, multiprocessing as mp, hashlib, signal, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def load_known(prop):
    """known findings of this property: {key: text}"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key = rest.split(' ', 1)[0].split('=', 1)[1]
                out[key] = rest.split(' ', 1)[1] if ' ' in rest else key
    return out


def _worker(conn, suite, unit, prog):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    except Exception:
        pass
    try:
        r = unit.run(prog, suite)
    except BaseException as e:
        r = {'unit': unit.name, 'fn': unit.qual, 'claim': unit.claim, 'obls': [], 'error': 'internal: %r' % (e,), 'inlined': [], 'contracts': [], 'assumptions': [], 'time': 0, 'stats': {}}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_units(suite, units, prog, jobs, deadline):
    ctx = mp.get_context('fork')
    todo = sorted(units, key=lambda u: -u.weight)
    running = []
    results = []
    def empty(u, err):
        return {'unit': u.name, 'fn': u.qual, 'claim': u.claim, 'obls': [], 'error': err, 'inlined': [], 'contracts': [], 'assumptions': [], 'time': u.timeout, 'stats': {}}
    while todo or running:
        while todo and len(running) < jobs and time.time() < deadline:
            u = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(b, suite, u, prog))
            p.start()
            b.close()
            running.append((p, a, u, time.time()))
        if time.time() >= deadline:
            for u in todo:
                results.append(empty(u, 'time budget exhausted'))
            todo = []
        still = []
        for p, a, u, t0 in running:
            if a.poll(0):
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append(empty(u, 'worker died'))
                p.join()
                continue
            if not p.is_alive():
                results.append(empty(u, 'worker died'))
                p.join()
                continue
            if time.time() - t0 > u.timeout or time.time() > deadline + 5:
                p.kill()
                p.join()
                results.append(empty(u, 'timeout after %ds' % u.timeout))
                continue
            still.append((p, a, u, t0))
        running = still
        if running:
            time.sleep(0.02)
    return results


def link_set(suite):
    """what the harness is linked from: the verified sources and what they need (globs relative to /repo/source)"""
    import glob
    out = [s for s in suite.sources if s.endswith('.cpp') and s not in suite.nolink]
    for g in suite.link:
        for f in sorted(glob.glob(os.path.join(REPO, 'source', g))):
            f = os.path.relpath(f, os.path.join(REPO, 'source'))
            if f not in out:
                out.append(f)
    return out


class HarnessBuild:
    """compile the native harness with the real sources, in a scratch directory"""

    def __init__(self, name, sources, log, san=True):
        self.name = name
        self.dir = tempfile.mkdtemp(prefix='vh_', dir='/tmp')
        self.exe = os.path.join(self.dir, name)
        self.ok = False
        self.err = ''
        self.sources = sources
        self.log = log
        self.san = san

    def build(self, jobs=8):
        flags = ['-std=c++17', '-O1', '-g0', '-w', '-include', 'cstdint', '-I/opt/vp/deps/rapidjson-shim', '-I' + REPO + '/source', '-I' + VERIF + '/replay',
                 '-DJSON_SCHEMA_PATH="' + self.dir + '"', '-fno-access-control', '-D_GLIBCXX_ASSERTIONS']
        if self.san:
            flags += ['-fsanitize=address,undefined', '-fno-sanitize=vptr,float-cast-overflow,float-divide-by-zero,alignment,shift', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
        procs = []
        objs = []
        srcs = [os.path.join(VERIF, 'replay', self.name + '.cpp')] + [os.path.join(REPO, 'source', s) for s in self.sources]
        pend = list(srcs)
        run = []
        while pend or run:
            while pend and len(run) < jobs:
                s = pend.pop(0)
                o = os.path.join(self.dir, hashlib.md5(s.encode()).hexdigest()[:10] + '.o')
                objs.append(o)
                run.append((s, subprocess.Popen(['g++'] + flags + ['-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
            s, p = run.pop(0)
            _, e = p.communicate()
            if p.returncode != 0:
                self.err = '%s: %s' % (s, e.decode(errors='replace')[-1500:])
                for _, q in run:
                    q.kill(); q.wait()
                return False
        r = subprocess.run(['g++'] + (['-fsanitize=address,undefined'] if self.san else []) + objs + ['-o', self.exe, '-lstdc++fs'], capture_output=True)
        if r.returncode != 0:
            self.err = r.stderr.decode(errors='replace')[-1500:]
            return False
        self.ok = True
        return True

    def run(self, seed, budget, extra=(), jobs=4):
        """-> (fails: {key: text}, cases, inconclusive)"""
        fails = {}
        cases = 0
        inconc = []
        procs = []
        for j in range(jobs):
            d = os.path.join(self.dir, 'run%d' % j)
            os.makedirs(d, exist_ok=True)
            out = open(os.path.join(d, 'out'), 'wb')
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=77')
            def lim():
                import resource
                if not self.san:
                    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            p = subprocess.Popen([self.exe, str(seed * 1000 + j), str(budget)] + list(extra), cwd=d, stdout=out, stderr=open(os.path.join(d, 'err'), 'wb'), env=env, preexec_fn=lim, start_new_session=True)
            procs.append((p, d))
        t0 = time.time()
        for p, d in procs:
            try:
                p.wait(timeout=max(1, budget + 60 - (time.time() - t0)))
                hung = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                hung = True
            done = False
            cur = None
            for l in open(os.path.join(d, 'out'), errors='replace'):
                l = l.rstrip('\n')
                if l.startswith('FAIL '):
                    k, _, txt = l[5:].partition(' ')
                    fails.setdefault(k, txt)
                elif l.startswith('CASES '):
                    cases += int(l.split()[1])
                    done = True
                elif l.startswith('AT '):
                    cur = l[3:]
            if not done:
                cf = os.path.join(d, 'current')
                if os.path.exists(cf):
                    cur = open(cf, errors='replace').read()[:4000]
                err = open(os.path.join(d, 'err'), errors='replace').read()
                summ = [x for x in err.split('\n') if 'SUMMARY' in x or 'runtime error' in x or 'ERROR: AddressSanitizer' in x or 'Assertion' in x or 'terminate' in x or 'what()' in x]
                if cur is not None:
                    ck = cur.split(' ', 1)[0]
                    fails.setdefault(('hang:' if hung else 'crash:') + ck, '%s rc=%s %s | %s' % ('no termination within the budget' if hung else 'abnormal end', p.returncode, cur, '; '.join(summ)[:600]))
                else:
                    inconc.append('harness ended rc=%s %s' % (p.returncode, err[-300:]))
        return fails, cases, inconc

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def check(prop, tier, seed):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('contracts.' + prop.lower())
    suite = mod.suite
    budget = 780 if tier == 'quick' else 3300
    lines = []
    known = load_known(prop)
    evid = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'), 'violations': 0, 'assumptions': list(suite.assumptions)}
    # the native harness builds while the proofs run
    hb = None
    hpid = None
    hres = None
    import threading
    hstate = {}
    if suite.harness:
        hb = HarnessBuild(suite.harness, getattr(mod, 'HARNESS_SOURCES', link_set(suite)), None, getattr(mod, 'HARNESS_SAN', True))
        def hrun():
            try:
                if hb.build(jobs=4):
                    hb_budget = getattr(mod, 'HARNESS_QUICK', 20) if tier == 'quick' else getattr(mod, 'HARNESS_THOROUGH', 240)
                    hstate['res'] = hb.run(seed, hb_budget, suite.harness_args, jobs=3 if tier == 'quick' else 4)
                else:
                    hstate['err'] = hb.err
            except Exception as e:
                hstate['err'] = repr(e)
    results = []
    extract_err = None
    prog = None
    from . import ast as A
    # extraction first (fork of units must happen without other threads holding locks)
    try:
        srcs = suite.sources
        if suite.units or suite.generators:
            prog = A.load(srcs, cache=os.environ.get('VERIF_AST_CACHE'))
            suite.expand(prog)
        units = [u for u in suite.units if tier == 'thorough' or u.tier == 'quick']
    except Exception as e:
        extract_err = 'extraction failed: %s' % (str(e)[:500],)
    th = None
    if hb:
        th = threading.Thread(target=hrun)
        th.start()
    if prog is not None:
        results = run_units(suite, units, prog, 6 if hb else 8, t0 + budget * 0.8)
    if th:
        th.join()
    # ---------------------------------------------------------------- verdict
    nobl = ndis = 0
    refuted = []
    notproved = []
    backends = {}
    solver_s = 0.0
    perfn = {}
    for r in results:
        fn = perfn.setdefault(r['unit'], {'function': r['fn'], 'claim': r['claim'], 'obligations': 0, 'discharged': 0})
        for name, status, info, ctx in r['obls']:
            nobl += 1
            fn['obligations'] += 1
            if status == 'proved':
                ndis += 1
                fn['discharged'] += 1
                b = info.split(' ')[0]
                backends[b] = backends.get(b, 0) + 1
            elif status == 'refuted' and not r['error']:
                refuted.append((r['unit'], name, info))
            else:
                notproved.append('%s: %s (%s)' % (r['unit'], name, status))
        fn['time_s'] = round(r['time'], 2)
        if r['error']:
            fn['not_decided'] = r['error']
            notproved.append('%s: %s' % (r['unit'], r['error']))
        solver_s += r['stats'].get('z3_s', 0) + r['stats'].get('cvc5_s', 0)
    viol = []
    seen_known = set()
    h = hstate.get('res')
    hfails = dict(h[0]) if h else {}
    for k, txt in sorted(hfails.items()):
        if k in known:
            seen_known.add(k)
            continue
        viol.append(('input', k, txt))
    for unit, name, info in refuted:
        k = 'proof:%s:%s' % (unit, name.replace(' ', '_'))
        if k in known:
            seen_known.add(k)
            continue
        viol.append(('obligation', '%s: %s' % (unit, name), info))
    for k, txt in known.items():
        print('KNOWN-FINDING: property=%s %s %s' % (prop, k, txt))
    rc = 0
    if viol:
        rc = 1
        inputs = [v for v in viol if v[0] == 'input']
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.txt' % (prop, tier))
        with open(rp, 'w') as f:
            for kind, k, txt in viol:
                if kind == 'input':
                    f.write('FAILING INPUT [%s]\n%s\n(harness %s, seed %d; rebuild: /verif/check.py --property %s --tier %s)\n\n' % (k, txt, suite.harness, seed, prop, tier))
                else:
                    f.write('FAILED OBLIGATION %s\nverifier counterexample (symbolic):\n%s\n\n' % (k, txt))
        first = viol[0]
        print('failed: %s' % '; '.join('%s %s' % (v[0], v[1][:160]) for v in viol[:6]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if inputs else ' no-failing-input-found'))
        evid['violations'] = len(viol)
        evid['violation_details'] = [{'what': v[1][:300], 'detail': v[2][:600]} for v in viol[:20]]
    if hb:
        hb.close()
    stand = {}
    if suite.harness:
        stand = {'what': suite.stand_in, 'harness': 'replay/%s.cpp' % suite.harness, 'cases': h[1] if h else 0, 'label': 'bounded: sampled inputs, never counted as proved'}
        if hstate.get('err'):
            stand['not_run'] = hstate['err'][:400]
        if h and h[2]:
            stand['inconclusive'] = h[2][:3]
    assum = set(evid['assumptions'])
    for r in results:
        assum.update(r['assumptions'])
    assum.update(BASE_ASSUMPTIONS)
    if extract_err:
        notproved.append(extract_err)
    evid['assumptions'] = sorted(assum)
    evid['coverage'] = {
        'obligations': nobl, 'discharged': ndis,
        'checker_cmd': 'python3-vt /verif/check.py --property %s --tier %s' % (prop, tier),
        'trusted_base': ['clang 18 AST of /repo/source (-ast-dump=json), regenerated on every run', 'the VC generator in /verif/engine (C++ semantics, STL models)', 'z3 5.3.2 (cvc5 1.1.2 for obligations z3 leaves open)'] + [b + ' (bounded stand-in only)' for b, _ in suite.bounded_fns],
        'functions_under_contract': [dict(unit=k, **v) for k, v in sorted(perfn.items())],
        'inlined_functions': sorted(set(q for r in results for q in r['inlined'])),
        'callee_contracts_used': sorted(set(q for r in results for q in r['contracts'])),
        'backends': backends, 'solver_time_s': round(solver_s, 2),
        'not_proved': notproved[:60],
        'bounded_stand_in': stand,
        'bounded_functions': [{'function': a, 'reason': b} for a, b in suite.bounded_fns],
    }
    if evid['level'] not in ('proof',):
        evid['coverage']['what_ran'] = 'proof units and bounded stand-in'
    evid['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
    print('%s %s: %d obligations, %d discharged, %d refuted, %d undecided; harness cases %s; %.1fs' % (prop, tier, nobl, ndis, len(refuted), len(notproved), stand.get('cases', '-'), evid['wall_s']))
    if os.environ.get('VERIF_VERBOSE'):
        for k, v in sorted(perfn.items()):
            print('   %-90s %d/%d %.1fs %s' % (k, v['discharged'], v['obligations'], v['time_s'], v.get('not_decided', '')))
        for x in notproved:
            print('   NOT PROVED', x[:1500])
        for x in refuted:
            print('   REFUTED', x[0], x[1], x[2][:1200])
        print('   stand-in', stand)
    return rc


BASE_ASSUMPTIONS = [
    'containers, strings and loop trip counts stay below 2^31 elements',
    'float/double arithmetic is treated as exact real arithmetic; conversion to integer truncates',
    'signed integer overflow does not occur (mathematical integers); unsigned wrap-around and narrowing conversions are modelled',
    'standard library containers, algorithms, optional and streams behave as their models in engine/lib.py; allocation does not fail',
    'reference parameters do not alias each other or the object',
]
