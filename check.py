#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property on /repo's current tree with the symbolic executor.
Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=<id> replay=<path>': broken."""
import sys, os, json, subprocess, time, tempfile, shutil, hashlib, re, concurrent.futures as cf, threading
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'harness'))
import jobs as J

CLANG = 'clang++-18'
BASE = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-w']
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = os.cpu_count() or 8

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd, start_new_session=True)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace') if e.stdout else ''

def ensure_engine():
    exe = os.path.join(V, 'build', 'vfse')
    srcs = [os.path.join(V, 'engine', f) for f in os.listdir(os.path.join(V, 'engine'))]
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs if s.endswith(('.cpp', '.h'))):
        import fcntl
        os.makedirs(os.path.join(V, 'build'), exist_ok=True)
        with open(os.path.join(V, 'build', '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs if s.endswith(('.cpp', '.h'))):
                rc, o = sh(['bash', os.path.join(V, 'engine', 'build.sh')])
                if rc: print(o); raise SystemExit('engine build failed')
    return exe

def flags(job):
    return ['-std=' + job.get('std', 'c++17')] + ['-D' + d for d in job.get('defs', [])] + job.get('flags', []) + ['-I' + os.path.join(V, 'harness'), '-I' + REPO]

def compile_bc(job, out):
    src = os.path.join(V, 'harness', job['src'])
    t = time.time()
    rc, o = sh([CLANG] + BASE + flags(job) + ['-emit-llvm', '-c', src, '-o', out], timeout=300)
    return rc, o, time.time() - t

def compile_native(job, out, cxx, extra):
    src = os.path.join(V, 'harness', job['src'])
    fl = [f for f in flags(job) if not f.startswith(('-fsanitize', '-fno-sanitize'))]
    return sh([cxx, '-O1', '-g', '-w'] + extra + fl + [src, os.path.join(V, 'harness', 'replay.cpp'), '-o', out], timeout=300)

def parse_inputs(s):
    return [x for x in s.split() if '=' in x]

def run_native(exe, inputs, tmp, fill=None):
    f = tempfile.NamedTemporaryFile('w', dir=tmp, suffix='.in', delete=False)
    f.write('\n'.join(inputs) + '\n'); f.close()
    env = dict(os.environ, VF_INPUTS=f.name, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=78:print_stacktrace=0')
    if fill is not None: env['VF_FILL'] = str(fill)
    rc, o = sh([exe], timeout=60, env=env, cwd=tmp)
    return rc, o

VARIANTS = [('g++', ['-fsanitize=address,undefined', '-fno-sanitize=object-size', '-fno-sanitize-recover=undefined'], 'g++ with address and undefined behaviour sanitizers'),
            ('clang++-18', ['-fsanitize=address,undefined', '-fno-sanitize=object-size', '-fno-sanitize-recover=undefined'], 'clang++ with address and undefined behaviour sanitizers'),
            ('clang++-18', [], 'clang++'), ('g++', [], 'g++'),
            ('clang++-18', ['-ftrivial-auto-var-init=pattern'], 'clang++ with pattern-initialised automatic variables')]

def describe_fail(rc, o):
    if rc == 42:
        m = re.findall(r'REPLAY-FAIL (.*)', o); return 'assertion: ' + (m[-1] if m else '?')
    if rc == 77:
        m = re.findall(r'ERROR: AddressSanitizer: (\S+)', o); return 'AddressSanitizer: ' + (m[0] if m else '?')
    if rc == 78 or 'runtime error:' in o:
        m = re.findall(r'runtime error: (.*)', o); return 'UBSan: ' + (m[0] if m else '?')
    if rc in (-14, 124): return 'does not terminate (20 s)'
    if rc < 0: return 'killed by signal %d' % -rc
    return None if rc == 0 else 'exit status %d' % rc

def replay(job, viol, tmp):
    """Run the solver's counterexample on the real code; returns (confirmed, log, variant)."""
    inputs = parse_inputs(viol['inputs']); log = []
    for i, (cxx, extra, name) in enumerate(VARIANTS):
        exe = os.path.join(tmp, 'rp%d_%d' % (abs(hash(job['name'])) % 100000, i))
        if not os.path.exists(exe):
            rc, o = compile_native(job, exe, cxx, extra)
            if rc: log.append('%s: does not compile: %s' % (name, o[:300])); continue
        for fill in (None, 0, 255):
            rc, o = run_native(exe, inputs, tmp, fill)
            d = describe_fail(rc, o)
            log.append('%s fill=%s: rc=%d %s' % (name, fill, rc, d or 'no failure'))
            if d: return True, log, (cxx, extra, fill, d, o[-4000:])
            if 'REPLAY-ASSUME' in o: break
            if viol['kind'] in ('assert',) and fill is None and not any(x.startswith('undef') for x in inputs): break
    return False, log, None

def known_findings(pid):
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) job=(\S+) tag=(.*?) where=(\S*) -- (.*)', l.strip())
            if m and m.group(1) == pid: out.append(m.groups())
    return out

def main():
    pid = sys.argv[1]; t0 = time.time()
    only = sys.argv[2] if len(sys.argv) > 2 else None
    exe = ensure_engine()
    prop = J.PROPS[pid]; jobs = [dict(j) for j in prop['jobs'](TIER)]
    if only: jobs = [j for j in jobs if re.search(only, j['name'])]
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    evd = os.path.join(V, 'evidence'); os.makedirs(evd, exist_ok=True)
    budget = float(os.environ.get('VERIF_BUDGET', prop.get('budget', {}).get(TIER, 240 if TIER == 'quick' else 3000)))
    res = {}; notes = []; viols = []; knowns = []
    try:
        # compile in parallel, explore in a pool
        width = prop.get('width', 4); per = max(1, NCPU // width)
        lock = threading.Lock()
        def one(job):
            bc = os.path.join(tmp, job['name'] + '.bc')
            rc, o, ct = compile_bc(job, bc)
            if rc: return job, {'compile_error': o, 'rc': rc}
            left = budget - (time.time() - t0)
            tl = max(5.0, min(job.get('time', {}).get(TIER, 1e9) if isinstance(job.get('time'), dict) else job.get('time', 1e9), left))
            out = os.path.join(tmp, job['name'] + '.json')
            cmd = [exe, bc, '-o', out, '-j', str(per), '--time', '%.0f' % tl, '--query-ms', str(job.get('query_ms', 20000)), '--max-steps', str(job.get('max_steps', 3000000)), '--max-violations', '6']
            rc, o = sh(cmd, timeout=tl + 120)
            if rc not in (0, 1) or not os.path.exists(out): return job, {'engine_error': o[-2000:], 'rc': rc}
            r = json.load(open(out)); r['rc'] = rc; r['compile_s'] = ct
            return job, r
        with cf.ThreadPoolExecutor(width) as ex:
            for job, r in ex.map(one, jobs): res[job['name']] = (job, r)
        # ---- judge
        nat_ok = nat_bad = 0; t_judge = time.time()
        for name, (job, r) in res.items():
            if 'compile_error' in r and job.get('internal'):
                # this harness looks at internal names; when they are gone the job says nothing about behaviour
                notes.append('%s: internal interface has changed, job skipped: %s' % (name, r['compile_error'][:400])); continue
            if 'compile_error' in r:
                # the harness uses the documented interface only: if it does not compile the interface is broken,
                # provided that the same harness without the code under test (a syntax problem of ours) does
                rc2, o2 = compile_native(job, os.path.join(tmp, name + '.cc'), 'g++', ['-O0'])
                if rc2:
                    path = os.path.join(evd, '%s_%s_compile.txt' % (pid, name))
                    open(path, 'w').write('Interface use that no longer compiles (clang++ and g++)\nflags: %s\nsource: harness/%s\n\n%s\n\n%s\n' % (' '.join(flags(job)), job['src'], r['compile_error'][:6000], o2[:3000]))
                    viols.append((name, {'kind': 'compile', 'tag': 'interface use does not compile', 'where': '', 'inputs': ''}, path))
                else: notes.append('%s: clang cannot compile the harness, g++ can: %s' % (name, r['compile_error'][:400]))
                continue
            if 'engine_error' in r:
                notes.append('%s: engine error: %s' % (name, r['engine_error'])); continue
            for k, v in enumerate(r['violations']):
                if len(viols) >= 3 or time.time() - t_judge > 240:
                    notes.append('%s: further solver counterexample, not replayed: %s %s at %s' % (name, v['kind'], v['tag'], v['where'][:160])); continue
                ok, log, var = replay(job, v, tmp)
                if not ok:
                    notes.append('%s: solver counterexample not reproduced natively (not reported): %s %s at %s [%s]; %s' % (name, v['kind'], v['tag'], v['where'][:200], v['inputs'], '; '.join(log))); continue
                kf = [f for f in known_findings(pid) if re.fullmatch(f[1], name) and f[2] == v['tag'] and (not f[3] or f[3] in v['where'])]
                if kf:
                    knowns.append(kf[0]); continue
                path = os.path.join(evd, '%s_%s_%d.txt' % (pid, name, k))
                cxx, extra, fill, d, o = var
                with open(path, 'w') as f:
                    f.write('property %s violated: %s\nharness: harness/%s  job: %s\nkind: %s  tag: %s\nwhere: %s\nnative replay: %s\n\ninputs chosen by the solver (save to a file, pass as VF_INPUTS):\n%s\n\nto replay:\n  %s -O1 -g -w %s %s harness/%s harness/replay.cpp -o /tmp/rp && VF_INPUTS=<inputs> %s/tmp/rp\n\noutput:\n%s\n' % (
                        pid, d, job['src'], name, v['kind'], v['tag'], v['where'], '; '.join(log), '\n'.join(parse_inputs(v['inputs'])), cxx, ' '.join(extra), ' '.join(x for x in flags(job)), job['src'], '' if fill is None else 'VF_FILL=%d ' % fill, o))
                viols.append((name, v, path))
                break
        # ---- validate the engine: re-run sampled paths natively, both must agree
        samp = []
        if not viols:
            cand = [(n, j, r) for n, (j, r) in res.items() if r.get('samples')]
            lim = 2 if TIER == 'quick' else 6
            cand = [c for i, c in enumerate(cand) if i % max(1, len(cand) // lim) == 0][:lim]
            def val(c):
                n, j, r = c; out = []
                ex2 = os.path.join(tmp, n + '.nat')
                rc, o = compile_native(j, ex2, 'clang++-18' if 'clangonly' in j else 'g++', [])
                if rc: return [(n, '', 'does not compile natively: ' + o[:300])]
                for s in r['samples'][:8]:
                    rc, o = run_native(ex2, parse_inputs(s), tmp); d = describe_fail(rc, o)
                    out.append((n, s, d))
                return out
            with cf.ThreadPoolExecutor(4) as ex:
                for l in ex.map(val, cand):
                    for n, s, d in l:
                        if d is None: nat_ok += 1
                        else: nat_bad += 1; notes.append('%s: sampled path differs natively: %s [%s]' % (n, d, s))
                        if s and len(samp) < 6: samp.append({'job': n, 'inputs': s, 'native': d or 'ok'})
        # ---- evidence
        good = [(j, r) for j, r in res.values() if 'paths' in r]
        tot = lambda k: sum(r.get(k, 0) for _, r in good)
        covers = {}
        for j, r in good:
            for k, n in r['covers'].items(): covers[k] = covers.get(k, 0) + n
        missing = [c for c in prop.get('covers', []) if not covers.get(c)]
        if missing: notes.append('reachability witnesses not reached: %s' % missing)
        fnset = sorted({f for _, r in good for f in r['functions']})
        ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 1), 'violations': len(viols),
              'coverage': {
                  'explanation': 'Bounded symbolic execution of the real headers (LLVM IR compiled from /repo on this run). states = explored paths (each a set of inputs given by a path condition), transitions = symbolic branch decisions; traces_validated_against_impl = sampled paths re-run natively with the solver\'s model and found to agree.',
                  'states': tot('paths'), 'transitions': tot('forks'), 'instructions_executed': tot('instrs'), 'traces_validated_against_impl': nat_ok, 'native_disagreements': nat_bad,
                  'solver_queries': tot('queries'), 'answered_from_cache': tot('cache_hits'), 'z3_calls': tot('z3calls'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'),
                  'solver_seconds': round(sum(r['solver_seconds'] for _, r in good), 2), 'truncated_paths': tot('truncated'), 'exhaustive': tot('truncated') == 0 and len(good) == len(res),
                  'property_assertions_checked': sum(sum(r['asserts'].values()) for _, r in good),
                  'reachability_witnesses': covers, 'missing_witnesses': missing,
                  'bounds': prop.get('bounds', ''), 'outside_bounds': prop.get('outside', J.OUTSIDE),
                  'jobs': [{'name': j['name'], 'harness': j['src'], 'config': ' '.join([j.get('std', 'c++17')] + j.get('defs', []) + j.get('flags', [])), 'paths': r.get('paths'), 'truncated': r.get('truncated'), 'wall': r.get('wall'), 'z3': r.get('z3calls'), 'error': (r.get('compile_error') or r.get('engine_error') or '')[:300]} for j, r in res.values()],
                  'functions_encoded': fnset, 'library_lines_executed': len({l for _, r in good for l in r['lines']}),
                  'stubs': sorted({x for _, r in good for x in r['externs']}),
                  'samples': samp or [{'job': n, 'inputs': r['samples'][0] if r.get('samples') else ''} for n, (j, r) in list(res.items())[:2] if 'paths' in r],
                  'notes': notes, 'known_findings_seen': [' '.join(k) for k in knowns]},
              'assumptions': J.ASSUME + prop.get('assume', [])}
        json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
        seen = set()
        for k in knowns:
            if k not in seen: print('KNOWN-FINDING: property=%s %s' % (pid, k[4])); seen.add(k)
        print('%s %s: %d jobs, %d paths, %d forks, %d queries (%d z3, %.1fs), truncated %d, native agree %d/%d, wall %.1fs' % (pid, TIER, len(res), tot('paths'), tot('forks'), tot('queries'), tot('z3calls'), ev['coverage']['solver_seconds'], tot('truncated'), nat_ok, nat_ok + nat_bad, time.time() - t0))
        for n in notes: print('note:', n[:700])
        if viols:
            for n, v, path in viols[:5]: print('  %s: %s %s at %s' % (n, v['kind'], v['tag'], v['where'][:160]))
            print('VIOLATION property=%s replay=%s' % (pid, viols[0][2]))
            return 1
        if not good:
            print('no job could be explored'); return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
