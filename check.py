#!/usr/bin/env python3-vt
"""check.py <property>: decide one property on the current /repo tree.

1. every contract task of the property is run (verification conditions are
   regenerated from the current sources and discharged);
2. the native driver of the property is built from the current sources and
   swept (bounded stand-in, witness search and validation of the assumed
   contracts);
3. a failed obligation is replayed on the real code; the verdict is printed."""
import sys, os, json, time, subprocess, multiprocessing as mp, tempfile, shutil, importlib, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
from props import PROPS, DRIVERS

SLOW = 10      # how much more time a solver call gets when a refutation is re-examined
HARD = 700     # seconds: everything is over by then

def runner(t, budget, conn):
    from lvc import task
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception: pass
    try: r = task.run_task(t, budget)
    except BaseException as e:
        r = dict(task=t.name, prop=t.prop, mode=t.mode, error=None, tool_limit='engine: %r' % e, obls=[], covers=[], funcs=[], ext=[], queries=0,
                 solver_secs=0, paths=0, loops=[], secs=0, assumptions=[], feas_unknown=0)
    conn.send(json.loads(json.dumps(r, default=str))); conn.close()

def run_tasks(tasks, t_end):
    """fork one process per task, 8 at a time"""
    todo = sorted(tasks, key=lambda t: -t.opts.get('cost', 1)); live = []; out = []
    def dead(t, why): return dict(task=t.name, prop=t.prop, mode=t.mode, error=None, tool_limit=why, obls=[], covers=[], funcs=[], ext=[], queries=0,
                                 solver_secs=0, paths=0, loops=[], secs=0, assumptions=[], feas_unknown=0)
    ncpu = min(8, os.cpu_count() or 4)
    while todo or live:
        while todo and len(live) < ncpu:
            t = todo.pop(0)
            left = t_end - time.time()
            if left < 2: out.append(dead(t, 'check budget exhausted')); continue
            b = min(t.budget * (4 if TIER == 'thorough' else 1) * t.opts.get('more', 1), left)
            r, w = mp.Pipe(False)
            p = mp.Process(target=runner, args=(t, b, w)); p.start(); w.close()
            live.append((t, p, r, time.time() + b + 25))
        again = []
        for t, p, r, lim in live:
            if r.poll(0.005):
                try: out.append(r.recv())
                except EOFError: out.append(dead(t, 'engine process died (exit %s)' % p.exitcode))
                p.join(); continue
            if not p.is_alive() and not r.poll(0.05):
                out.append(dead(t, 'engine process died (exit %s)' % p.exitcode)); continue
            if time.time() > lim:
                p.kill(); p.join(); out.append(dead(t, 'solver did not return within the budget')); continue
            again.append((t, p, r, lim))
        live = again
        if live: time.sleep(0.01)
    return out

# ------------------------------------------------------------- native driver
class Driver:
    def __init__(s, name, workdir):
        s.name, s.dir, s.bin, s.err = name, workdir, None, None
        spec = DRIVERS[name]
        s.spec = spec
        exe = os.path.join(workdir, name)
        cxx = spec['main'].endswith('.cpp')
        san = spec.get('san', '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=shift-base,null,object-size').split()
        inc = ['-I', os.path.join(HERE, 'stub'), '-I', os.path.join(HERE, 'drivers'), '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src')]
        objs = []; procs = []
        for i, src in enumerate([os.path.join(HERE, 'drivers', spec['main'])] + [os.path.join(REPO, x) for x in spec['src']]):
            o = os.path.join(workdir, '%s%d.o' % (name, i)); objs.append(o)
            cc = ['clang++-18', '-std=c++17'] if src.endswith('.cpp') else ['clang-18', '-std=gnu11']
            procs.append(subprocess.Popen(cc + ['-O1', '-g', '-w', '-U_FORTIFY_SOURCE', '-fno-builtin', '-D_GNU_SOURCE'] + san + inc + spec.get('cflags', []) + ['-c', src, '-o', o],
                                          stderr=subprocess.PIPE, text=True))
        for p in procs:
            e = p.communicate()[1]
            if p.returncode: s.err = e[-3000:]; return
        r = subprocess.run((['clang++-18'] if cxx or any(x.endswith('.cpp') for x in spec['src']) else ['clang-18']) + san + objs + ['-o', exe] +
                           ['-Wl,--wrap=' + w for w in spec.get('wrap', [])] + spec.get('libs', []) + ['-lpthread', '-lm'], capture_output=True, text=True)
        if r.returncode: s.err = r.stderr[-3000:]; return
        s.bin = exe
    def run(s, args, timeout=200):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=77',
                   LSAN_OPTIONS='exitcode=78', TZ='UTC')
        scratch = tempfile.mkdtemp(dir=s.dir)
        try:
            r = subprocess.run([s.bin] + [str(a) for a in args], capture_output=True, timeout=timeout, env=env, cwd=scratch)
            out = (r.stdout + b'\n' + r.stderr).decode('utf-8', 'replace')
            return r.returncode, out
        except subprocess.TimeoutExpired as e:
            return 'hang', ((e.stdout or b'') + (e.stderr or b'')).decode('utf-8', 'replace')
        finally: shutil.rmtree(scratch, ignore_errors=True)

def failtext(rc, out):
    m = re.search(r'^FAIL (.*)$', out, re.M)
    if m: return m.group(1)
    m = re.search(r'(ERROR: \w+Sanitizer.*|runtime error: .*)', out)
    if m: return m.group(1)
    if rc == 'hang': return 'the real code does not terminate'
    return 'driver exit %s' % rc

def main():
    t0 = time.time()
    prop = sys.argv[1]
    P = PROPS[prop]
    t_end = t0 + HARD * (1 if TIER == 'quick' else 1.1)
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try: rc = decide(prop, P, t0, t_end, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

# functions of /repo that some task calls through their contract, and the tasks that prove that contract
PROVED = dict(parse_num='C13 parse_num', parse_mon='C13 parse_mon', parse_wday='C13 parse_wday', parse_date='C13 parse_date', parse_date_rfc1123='C13 parse_date_rfc1123',
  parse_date_time='C13 parse_date_time', parse_time='C13 parse_time', chacha_block='C17 chacha_block', rand_fetch='C19 fetch', pool_get='C17 futils_random (no more than an address)',
  pool_rand='C17 request_small and request_large_*', pool_rand_size_maximum='C15 maximum_size', futils_random='C17 futils_random',
  list_del='C04 and C05', do_push='C21 push', fd_add_flags='C27 fd_add_flags', fd_set_close_on_exec='C27 fd_set_close_on_exec', time_timespec_add_us='C08 add_us', time_timespec_add_ns='C08 add_ns',
  time_timeval_to_timespec='C09', crc_from_fhd='C24 crc', futils_fs_dir_size='C26 dir_size (recursive call: induction on the depth of the directory tree)',
  **{'futils_randomr%d' % b: 'C15 whole_%d' % b for b in (8, 16, 32, 64)}, **{'futils_randomr%d_maximum' % b: 'C15 maximum_%d' % b for b in (8, 16, 32, 64)})
NOT_TRUSTED = {'__assert_fail': 'reaching it is a failed obligation', 'abort': 'reaching it ends the path as the property says', 'body': 0, 'body_item': 0, 'visit': 0, 'visit_item': 0}
def callee(e):
    if e in PROVED: return 'proved'
    if e in NOT_TRUSTED or e.startswith('llvm.') or re.fullmatch(r'[abc]_(u?int\d+_t|float|double|text_t)|the_offset|the_array', e): return 'none'
    return 'assumed'

def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def decide(prop, P, t0, t_end, work):
    from lvc import task
    for m in P['specs']: importlib.import_module('specs.' + m)
    tasks = [t for t in task.REG.get(prop, []) if TIER == 'thorough' or t.tier == 'quick']
    # the drivers are compiled while the tasks run
    ctx = mp.get_context('fork')
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(4)
    # build sources once in the parent so that forked tasks share the parsed modules
    pre_err = None
    from lvc import build
    for src in P.get('mods', []):
        try: build.module(src if not src.startswith('harness/') else os.path.join(HERE, src))
        except build.BuildError as e: pre_err = str(e)
        except Exception as e: pre_err = 'parse: %s' % e
    fdrv = [pool.submit(Driver, n, work) for n in P.get('drivers', [])]
    res = run_tasks(tasks, t_end - 150)
    # a refutation from a run in which some solver call ran out of time (and the engine went on with less: a loop invariant
    # candidate dropped, a case not excluded) says nothing yet: that task is run again with ten times the time per call
    again = {r['task'] for r in res if r.get('lossy') and any(o['status'] == 'refuted' for o in r['obls'])}
    extra = []      # their counterexamples are still replayed on the real code
    if again:
        extra = [o for r in res if r['task'] in again for o in r['obls'] if o['status'] == 'refuted' and o.get('replay')]
        red = run_tasks([task.again(t, SLOW) for t in tasks if t.name in again], t_end - 130)
        for r in red:
            was = [x for x in res if x['task'] == r['task']][0]
            print('  run again with more time: %s (%d answers missing, %d refuted; now %d and %d)' % (r['task'], was['lossy'],
                  sum(o['status'] == 'refuted' for o in was['obls']), r.get('lossy', 0), sum(o['status'] == 'refuted' for o in r['obls'])))
        res = [r for r in res if r['task'] not in again] + red
    drivers = [f.result() for f in fdrv]
    obls = [dict(o, task=r['task']) for r in res for o in r['obls']]
    refuted = [o for o in obls if o['status'] == 'refuted']
    unknown = [o for o in obls if o['status'] not in ('proved', 'refuted')]
    limits = [(r['task'], r['tool_limit'] or r['error']) for r in res if r['tool_limit'] or r['error']]
    uncovered = [(r['task'], c[0]) for r in res for c in r['covers'] if c[1] not in ('sat', 'unknown')]
    # native drivers: replay counterexamples, then sweep
    fails = []      # (kind, text, driver, args, output)
    evals = 0; sweeps = []; drv_err = []
    for d in drivers:
        if d.bin is None: drv_err.append((d.name, d.err)); continue
        tried = set()
        for o in refuted + extra:
            a = o.get('replay')
            if not a: continue
            k = tuple(map(str, a))
            if k in tried or len(tried) > 20: continue
            tried.add(k)
            rc, out = d.run([prop, 'replay'] + list(a), 60)
            if rc != 0 and rc != 3: fails.append(('counterexample of ' + o['name'], failtext(rc, out), d.name, [prop, 'replay'] + list(a), out))
        n = d.spec.get('n', {}).get(prop, d.spec.get('count', 2000)) * (10 if TIER == 'thorough' else 1)
        s0 = time.time()
        rc, out = d.run([prop, 'sweep', SEED, n], max(30, min(300, t_end - time.time())))
        m = re.findall(r'^EVALS (\d+)', out, re.M); evals += sum(map(int, m))
        sweeps.append(dict(driver=d.name, args=[prop, 'sweep', SEED, n], rc=rc, evaluations=sum(map(int, m)), secs=round(time.time() - s0, 2)))
        if rc != 0: fails.append(('sweep', failtext(rc, out), d.name, [prop, 'sweep', SEED, n], out))
    # ---------------------------------------------------------------- verdict
    kf = known_findings(prop)
    def key_of(text): return re.sub(r'\W+', '_', text)
    seen_known = set(); new_fails = []; new_ref = []
    for f in fails:
        k = [x for x in kf if x[0] in key_of(f[1])]
        if k: seen_known.add(k[0])
        else: new_fails.append(f)
    for o in refuted:
        k = [x for x in kf if x[0] in key_of(o['name'])]
        if k: seen_known.add(k[0])
        else: new_ref.append(o)
    for k, txt in sorted(seen_known): print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    violated = bool(new_fails or new_ref)
    nob = len(obls); ndis = sum(o['status'] == 'proved' for o in obls)
    by = {}
    for o in obls:
        if o['status'] == 'proved': by[o['backend']] = by.get(o['backend'], 0) + 1
    used = sorted({e for r in res for e in r['ext']})
    trusted = ['assumed contract of ' + ('the caller\'s callback' if e == '@cb' else e) for e in used if callee(e) == 'assumed'] + P.get('trusted', [])
    proved_callees = ['%s: proved by %s' % (e, PROVED[e]) for e in used if callee(e) == 'proved']
    ev = dict(property=prop, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level=P['level'], wall_s=0, violations=len(new_fails) + len(new_ref),
        coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt check.py ' + prop, trusted_base=trusted + [
              'clang-18 front end, mem2reg and loop-simplify; lvc VC generator (/verif/lvc); z3 and cvc5'],
          evaluations=evals, distinct_nontrivial=evals,
          rule='native runs of the real code by the property\'s driver (bounded stand-in and witness search, never counted as proved); each evaluation is a distinct generated case compared with an independent oracle',
          samples=[dict(task=r['task'], obligations=len(r['obls']), first=r['obls'][0]['name'] if r['obls'] else None) for r in res[:4]] or [s for s in sweeps[:1]],
          explanation=P['note'],
          callee_contracts_proved_elsewhere=proved_callees,
          functions_under_contract=sorted({f for r in res for f in r['funcs']}),
          backends=by, solver_secs=round(sum(r['solver_secs'] for r in res), 2), solver_queries=sum(r['queries'] for r in res),
          paths=sum(r['paths'] for r in res), loop_invariants=sorted({'%s/%s: %s' % (l[0], l[1], ' ; '.join(l[2])[:400]) for r in res for l in r['loops']})[:60],
          covers_reached=sum(c[1] == 'sat' for r in res for c in r['covers']), covers_not_reached=uncovered,
          undecided=[dict(name=o['name'], detail=(o['detail'] or '')[:300]) for o in unknown][:40], tool_limits=limits[:20], driver_errors=[(a, (b or '')[:400]) for a, b in drv_err],
          bounded=P.get('bounded', []), native_sweeps=sweeps,
          tasks=[dict(task=r['task'], mode=r['mode'], obligations=len(r['obls']), discharged=sum(o['status'] == 'proved' for o in r['obls']), secs=round(r['secs'], 2)) for r in res]),
        assumptions=P.get('assumptions', []) + sorted({a for r in res for a in r['assumptions']}))
    rc = 0
    print('%s: %d/%d obligations discharged, %d refuted, %d undecided, %d tool limits, %d native evaluations, %d native failures' %
          (prop, ndis, nob, len(refuted), len(unknown), len(limits), evals, len(fails)))
    for a, b in limits[:10]: print('  limit: %s: %s' % (a, str(b)[:300].replace('\n', ' | ')))
    for o in unknown[:10]: print('  undecided: ' + o['name'])
    for a, b in uncovered[:10]: print('  not reached: %s: %s' % (a, b))
    for a, b in drv_err: print('  driver %s did not build: %s' % (a, (b or '')[:600].replace('\n', ' | ')))
    if violated:
        rd = os.path.join(HERE, 'replay'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, prop + '.json')
        json.dump(dict(property=prop, failed_obligations=[{k: o.get(k) for k in ('name', 'kind', 'func', 'line', 'status', 'backend', 'detail', 'inputs', 'model', 'replay')} for o in new_ref][:20],
                       failing_runs=[dict(found_by=f[0], what=f[1], driver=f[2], args=[str(x) for x in f[3]], output=f[4][-4000:]) for f in new_fails][:10],
                       how_to_replay='build the named driver as check.py does (see props.py DRIVERS) and run it with args'), open(path, 'w'), indent=1)
        for o in new_ref[:8]: print('  failed obligation: %s %s' % (o['name'], ('inputs %s' % o.get('inputs')) if o.get('inputs') else ''))
        for f in new_fails[:4]: print('  failing run: %s: %s' % (f[0], f[1]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if new_fails else ' no-failing-input-found'))
        rc = 1
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    return rc
if __name__ == '__main__': main()
