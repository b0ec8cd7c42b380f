"""Runs the contracts of one property, decides, replays failures on the real code, writes evidence."""
import os, sys, time, json, subprocess, tempfile, shutil, importlib, multiprocessing, hashlib, re, signal, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
sys.setrecursionlimit(20000)
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
OPT = '/usr/bin/opt-18' if os.path.exists('/usr/bin/opt-18') else 'opt'
CXXFLAGS = ['-std=c++11', '-DHAVE_PTHREADS']


class Task:
    """one function under contract"""

    def __init__(self, name, tu, fn, kind='proof', timeout=120, bound='', api=True, opts=None, fallback=None):
        self.name, self.tu, self.fn, self.kind, self.timeout, self.bound, self.api = name, tu, fn, kind, timeout, bound, api
        self.opts = opts or {}
        self.fallback = fallback      # bounded stand-in: fn(E)


def compile_tu(src, outdir):
    base = os.path.join(outdir, os.path.basename(src).replace('.cpp', ''))
    ll, ll2 = base + '.0.ll', base + '.ll'
    cmd = [CLANG, '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/rx', '-I' + os.path.join(VERIF, 'harness'), '-O0', '-Xclang',
           '-disable-O0-optnone', '-fno-exceptions', '-Wno-everything', '-S', '-emit-llvm', src, '-o', ll] + CXXFLAGS
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, 'extraction of %s failed: %s' % (src, r.stderr[-1500:])
    r = subprocess.run([OPT, '-S', '-passes=function(mem2reg)', ll, '-o', ll2], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-1500:]
    return ll2, None


def run_task(task, mod, q, tier, seed):
    import sym
    t0 = time.time()
    E = sym.Engine(mod)
    E.deadline = t0 + task.timeout
    E.tier, E.seed = tier, seed
    for k, v in task.opts.items():
        setattr(E, k, v)
    err = None
    try:
        task.fn(E)
    except (sym.Unsupported, sym.PathLimit) as x:
        err = '%s: %s' % (type(x).__name__, x)
    except Exception as x:
        err = 'engine: %s' % ''.join(traceback.format_exception_only(type(x), x)).strip() + ' @ ' + traceback.format_exc().strip().split('\n')[-3].strip()
    ob = {}
    fails = []
    for o in E.obls:
        d = ob.setdefault(o.status, 0)
        ob[o.status] = d + 1
        if o.status != 'proved' and len(fails) < 200:
            fails.append({'name': o.name, 'status': o.status, 'secs': round(o.secs, 3), 'inputs': o.inputs, 'where': o.where})
    names = {}
    for o in E.obls:
        names[o.name] = names.get(o.name, 0) + 1
    q.put({'task': task.name, 'counts': ob, 'trivial': sum(1 for o in E.obls if o.trivial), 'fails': fails, 'err': err,
           'secs': time.time() - t0, 'solver': E.solver_secs, 'executed': sorted(E.executed), 'used': sorted(E.called_contracts),
           'names': names, 'notes': E.notes[:20], 'paths': E.paths, 'sumloops': E.sumloops, 'trusted': sorted(E.trusted), 'by': E.by})


def run_all(tasks, mods, tier, seed, jobs=8):
    """each task in its own forked process with a hard time limit"""
    pend = list(tasks)
    run = []
    out = {}
    ctx = multiprocessing.get_context('fork')
    stop = time.time() + (600 if tier != 'thorough' else 7200)      # the check must give an answer in time
    while pend or run:
        if time.time() > stop:
            for t in pend + [r[0] for r in run]:
                out[t.name] = {'task': t.name, 'counts': {}, 'fails': [], 'err': 'time budget of the check used up', 'secs': 0, 'solver': 0,
                               'executed': [], 'used': [], 'names': {}, 'notes': [], 'trivial': 0, 'paths': 0, 'sumloops': 0, 'trusted': []}
            for r in run:
                r[1].kill()
                r[1].join()
            break
        while pend and len(run) < jobs:
            t = pend.pop(0)
            if mods.get(t.tu) is None:
                out[t.name] = {'task': t.name, 'counts': {}, 'fails': [], 'err': 'extraction failed', 'secs': 0, 'solver': 0,
                               'executed': [], 'used': [], 'names': {}, 'notes': [], 'trivial': 0, 'paths': 0, 'sumloops': 0, 'trusted': []}
                continue
            q = ctx.SimpleQueue()
            p = ctx.Process(target=run_task, args=(t, mods[t.tu], q, tier, seed))
            p.start()
            run.append((t, p, q, time.time()))
        time.sleep(0.01)
        for r in list(run):
            t, p, q, st = r
            res = None
            if not q.empty():
                res = q.get()
                p.join()
            elif not p.is_alive():
                res = {'err': 'verifier process ended (exit %s)' % p.exitcode}
            elif time.time() - st > t.timeout + 30:
                p.kill()
                p.join()
                res = {'err': 'time limit'}
            if res is not None:
                run.remove(r)
                base = {'task': t.name, 'counts': {}, 'fails': [], 'err': None, 'secs': time.time() - st, 'solver': 0,
                        'executed': [], 'used': [], 'names': {}, 'notes': [], 'trivial': 0, 'paths': 0, 'sumloops': 0, 'trusted': []}
                base.update(res)
                out[t.name] = base
    return out


def build_replay(prop, mod, outdir, san=True):
    src = os.path.join(VERIF, 'replay', mod.REPLAY)
    exe = os.path.join(outdir, 'replay_' + prop)
    cmd = ['g++', '-g', '-O1', '-w', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/rx', '-I' + REPO, '-I' + os.path.join(VERIF, 'replay')]
    if san:
        cmd += ['-fsanitize=address', '-fno-omit-frame-pointer']
    cmd += CXXFLAGS + [src] + [REPO + '/' + s for s in getattr(mod, 'REPLAY_SRCS', [])] + ['-o', exe, '-lpthread']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-2000:]
    return exe, None


def run_replay(exe, hints, seed, budget, outdir):
    """returns (found, text)"""
    hf = os.path.join(outdir, 'hints.txt')
    with open(hf, 'w') as f:
        for h in hints:
            f.write(h + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1')
    try:
        r = subprocess.run([exe, hf, str(seed), str(budget)], capture_output=True, text=True, errors='replace', timeout=budget * 2 + 60, env=env, cwd=outdir)
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b''
        if isinstance(o, bytes):
            o = o.decode('latin1')
        last = [l for l in o.split('\n') if l.startswith('CASE ')]
        return (True if last else None), 'the real code did not terminate within the time limit; last case: %s' % (last[-1] if last else '?')
    txt = r.stdout[-4000:] + '\n' + r.stderr[-3000:]
    if r.returncode == 0:
        return False, txt
    if r.returncode == 3:
        return None, txt
    return True, 'exit %d\n%s' % (r.returncode, txt)


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                out.append(l)
    return out


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import ir
    mod = importlib.import_module(prop.lower())
    outdir = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    try:
        return _main(prop, tier, seed, mod, outdir, rdir, t0, ir)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def _main(prop, tier, seed, mod, outdir, rdir, t0, ir):
    tasks = mod.tasks(tier)
    mods, exterr = {}, {}
    for tu in sorted(set(t.tu for t in tasks)):
        ll, e = compile_tu(os.path.join(VERIF, 'harness', tu + '.cpp'), outdir)
        if ll is None:
            mods[tu] = None
            exterr[tu] = e
            print('extraction problem: ' + e)
        else:
            mods[tu] = ir.parse_module(ll)
    scale = float(os.environ.get('VERIF_TSCALE', '1'))
    for t in tasks:
        t.timeout *= scale * (4 if tier == 'thorough' else 1)
    res = run_all(tasks, mods, tier, seed)
    total = disch = failed = unknown = 0
    btotal = 0
    problems = []     # (task, obligation name or error, status, inputs)
    proved_fns, bounded_fns = set(), set()
    used, trusted = set(), set()
    names = {}
    for t in tasks:
        r = res[t.name]
        c = r['counts']
        n = sum(c.values())
        if t.kind == 'bounded':
            btotal += n
        else:
            total += n
            disch += c.get('proved', 0)
        for f in r['fails']:
            problems.append((t, f['name'], f['status'], f['inputs']))
        if r['err']:
            problems.append((t, 'undecided: ' + r['err'], 'undecided', None))
        elif n == 0:
            problems.append((t, 'vacuous: no obligation was generated', 'undecided', None))
        ok = not r['fails'] and not r['err'] and n
        if ok:
            (proved_fns if t.kind != 'bounded' else bounded_fns).update(r['executed'])
        used |= set(r['used'])
        trusted |= set(r['trusted'])
        for k, v in r['names'].items():
            names[k] = names.get(k, 0) + v
        status = 'ok' if ok else 'FAILED'
        if os.environ.get('VERIF_V') or not ok:
            print('%-7s %-60s obligations %d (failed %d, undecided %d) paths %d loops %d %.1fs %s' % (
                status, t.name[:60], n, c.get('failed', 0), c.get('unknown', 0), r['paths'], r['sumloops'], r['secs'], r['err'] or ''))
            if os.environ.get('VERIF_V'):
                for nn in r['notes']:
                    print('    note: ' + nn)
                for f in r['fails'][:12]:
                    print('    %s: %s %s' % (f['status'], f['name'], json.dumps(f['inputs'])[:300]))
    bounded_used = []
    violations = 0
    rc = 0
    kf = [l for l in known_findings() if ('property=%s ' % prop) in l]
    explored = {}
    if hasattr(mod, 'extra_checks'):
        problems += mod.extra_checks(mods)
    search_txt = None
    if True:
        # failing obligations: their counterexamples are replayed and searched around on the real code;
        # otherwise a short conformance run of the contracts' executable form against the g++ build (bounded, never counted as proved)
        hints = []
        for t, n, s, inp in problems:
            if inp and hasattr(mod, 'hint'):
                try:
                    h = mod.hint(t, n, inp)
                    if h:
                        hints.extend(h if isinstance(h, list) else [h])
                except Exception:
                    pass
        budget = (60 if tier == 'thorough' else 20 if problems else getattr(mod, 'CONFORM', 3))
        found, txt = None, 'no replay harness'
        if getattr(mod, 'REPLAY', None):
            exe, e = build_replay(prop, mod, outdir)
            if exe is None:
                txt = 'the replay harness does not build against this tree: ' + e
            else:
                found, txt = run_replay(exe, hints, seed, budget, outdir)
        explored['role'] = 'replay and search after failed obligations' if problems else 'conformance run of the executable contracts on the g++ build; bounded, not part of the proof'
        explored['budget_s'] = budget
        if found is None:
            print('note: ' + txt.strip()[:600])
        explored['replay'] = txt.strip()[:1500]
        genuine = [p for p in problems if p[2] == 'failed' and p[0].kind != 'lemma-aid']
        if found:
            violations = 1
            path = os.path.join(rdir, '%s.txt' % prop)
            with open(path, 'w') as f:
                f.write('property %s violated by the real code\n\n' % prop)
                f.write('failed obligations:\n')
                for t, n, s, inp in problems[:40]:
                    f.write('  [%s] %s: %s  inputs=%s\n' % (s, t.name, n, json.dumps(inp)))
                f.write('\nreplay on the real code (%s, seed %d):\n%s\n' % (mod.REPLAY, seed, txt))
            print(txt.strip()[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
        elif genuine:
            violations = 1
            path = os.path.join(rdir, '%s.txt' % prop)
            with open(path, 'w') as f:
                f.write('property %s: obligations the verifier refutes, no failing input found on the real code\n\n' % prop)
                for t, n, s, inp in problems[:60]:
                    f.write('  [%s] %s: %s  model=%s\n' % (s, t.name, n, json.dumps(inp)))
                f.write('\nreplay: %s\n' % txt)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
            rc = 1
        elif problems:
            # undecided (timeouts, unattachable loops, extraction): the concrete search stands in, labelled bounded
            for t, n, s, inp in problems:
                bounded_used.append('%s: %s (stand-in: %s)' % (t.name, n, txt.strip()[:200]))
            print('property %s: %d obligations or functions undecided; bounded stand-in on the real code found no violation' % (prop, len(problems)))
    for l in kf:
        print('KNOWN-FINDING: ' + l[l.index('property='):])
    level = 'proof' if not bounded_used else 'other'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof') if not bounded_used else 'other',
        'coverage': {
            'obligations': total, 'discharged': disch,
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (prop, tier),
            'trusted_base': ['clang 18 front end and mem2reg (C++ -> LLVM IR)', 'the VC generator /verif/engine (sym.py, loops.py, ir.py)',
                             'z3 %s and cvc5 (back ends)' % z3v()] + list(getattr(mod, 'TRUSTED', [])) + sorted(trusted),
            'functions_under_contract': sorted(proved_fns),
            'contracts_used_at_call_sites': sorted(used),
            'bounded_functions': sorted(bounded_fns - proved_fns),
            'bounded_obligations': btotal,
            'bounds': sorted(set(t.bound for t in tasks if t.kind == 'bounded' and t.bound)),
            'tasks': [{'name': t.name, 'kind': t.kind, 'obligations': sum(res[t.name]['counts'].values()),
                       'discharged': res[t.name]['counts'].get('proved', 0), 'trivially': res[t.name]['trivial'], 'paths': res[t.name]['paths'],
                       'secs': round(res[t.name]['secs'], 2), 'solver_secs': round(res[t.name]['solver'], 2),
                       'error': res[t.name]['err']} for t in tasks],
            'solver_secs': round(sum(r['solver'] for r in res.values()), 2),
            'back_end': 'z3, with cvc5 (--solve-bv-as-int=bitwise) for what z3 leaves open',
            'solver_calls': {'z3': sum(r.get('by', {}).get('z3', 0) for r in res.values()), 'cvc5': sum(r.get('by', {}).get('cvc5', 0) for r in res.values())},
            'obligation_names': len(names),
            'samples': sorted(names)[:12],
            'explanation': 'contracts on the IR of the real functions; every obligation re-generated and re-discharged on this run'
                           + ('' if not bounded_used else '; some functions undecided, bounded stand-in used: ' + '; '.join(bounded_used)[:2000]),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    if explored:
        ev['coverage']['replay'] = explored
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged (+%d bounded), %d tasks, %.1fs%s' % (
        prop, tier, disch, total, btotal, len(tasks), time.time() - t0, '' if rc == 0 else '  VIOLATED'))
    return rc


def z3v():
    import z3
    return z3.get_version_string()
