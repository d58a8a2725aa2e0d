#!/usr/bin/env python3
# dev helper: run every job of the given properties (tier from VERIF_TIER) with a cap, print wall time, paths and truncation per job
import sys, os, subprocess, json, tempfile, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + '/harness']
import jobs as J, check as C
cap = float(os.environ.get('CAP', 60)); tier = os.environ.get('VERIF_TIER', 'quick')
tmp = tempfile.mkdtemp(); exe = C.ensure_engine()
def one(a):
    p, job = a; b = '%s/%s_%s' % (tmp, p, job['name']); t = time.time()
    rc, o, ct = C.compile_bc(job, b + '.bc')
    if rc: return p, job, 'COMPILE ' + o[:600]
    subprocess.run([exe, b + '.bc', '-o', b + '.json', '-j', '2', '--time', str(cap), '--query-ms', '20000', '--max-steps', '3000000', '--max-violations', '4'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.remove(b + '.bc')
    try: r = json.load(open(b + '.json')); os.remove(b + '.json')
    except Exception as e: return p, job, 'ENGINE %s' % e
    return p, job, r
props = [p for p in (sys.argv[1:] or J.PROPS)]
work = [(p, x) for p in props for x in J.PROPS[p]['jobs'](tier)]
tot = {}
with cf.ThreadPoolExecutor(4) as ex:
    for p, job, r in ex.map(one, work):
        if isinstance(r, str): print(p, job['name'], r, flush=True); continue
        tot[p] = tot.get(p, 0) + r['wall']
        print('%s %-38s %6.1f paths=%d trunc=%d z3=%d/%.1fs viol=%d %s' % (p, job['name'], r['wall'], r['paths'], r['truncated'], r['z3calls'], r['solver_seconds'], len(r['violations']), ' '.join('%s %s %s [%s]' % (v['kind'], v['tag'], v['where'][:100], v['inputs']) for v in r['violations'][:1])), flush=True)
for p in tot: print(p, 'total/4 = %.0f' % (tot[p] / 4))
