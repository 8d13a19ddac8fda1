#!/usr/bin/env python3
"""seedpar.py [-j N] [-r] [ids]: in scratch copies, confirm each planted bug (demo 0 clean / nonzero patched, all repository tests
still passing) and run its property's check on the patched copy.  -r: harmless refactorings (tools/refactors/*.py) instead: every
property of the touched file must stay quiet.  -m: quick mutants without demonstration (tools/mutants/*.py), each to be caught."""
import sys, os, subprocess, json, shutil, glob, runpy, tempfile, time, re
from concurrent.futures import ThreadPoolExecutor
V = '/verif'; J = 3
a = sys.argv[1:]; ref = '-r' in a; mut = '-m' in a; a = [x for x in a if x not in ('-r', '-m')]
if '-j' in a: i = a.index('-j'); J = int(a[i + 1]); del a[i:i + 2]
nochk = '-n' in a; a = [x for x in a if x != '-n']
root = tempfile.mkdtemp(prefix='seedpar')
def sh(cmd, cwd, to=900, env=None):
    try: r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=to, env=dict(os.environ, **(env or {})), errors='replace'); return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired: return 'timeout', ''
def copy(d): os.makedirs(d); subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
vc = root + '/verif'; os.makedirs(vc); subprocess.run('cp -a /verif/check.py /verif/props.py /verif/known-findings.txt /verif/lvc /verif/specs /verif/stub /verif/drivers /verif/harness ' + vc, shell=True, check=True)
FILES = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); FILES[p['id']] = json.dumps(p)
def tests(d, out):
    c = 'mkdir -p %s; ' % out + '''for f in tests/*.c src/*.c; do case $f in *futils_random.c) continue;; esac; echo gcc -c -D_GNU_SOURCE -w -I/verif/stub -Iinclude -Itests $f -o %s/$(echo $f | tr / _).o; done > %s/l; for f in tests/*.cpp src/*.cpp; do echo g++ -c -D_GNU_SOURCE -w -I/verif/stub -Iinclude -Itests $f -o %s/$(echo $f | tr / _).o; done >> %s/l; xargs -P4 -I{} sh -c "{}" < %s/l && g++ %s/*.o -o %s/t -lcunit -lpthread -lm && cd %s && timeout 250 ./t''' % ((out,) * 8)
    r, o = sh(c, d, 300)
    m = re.findall(r'(?m)^\s*tests\s+(\d+)\s+(\d+)\s+(\d+)\s+(\d+)', o)
    return m[-1][1:] if m else 'tests: %s %s' % (r, o[-300:])
def one(id, s=None):
    t0 = time.time(); d = root + '/' + id; copy(d); o = [id]
    if s is None:
        sd = V + '/seeded/' + id; meta = json.load(open(sd + '/meta.json')); props = [meta['property']]
        o.append(props[0]); r0, x0 = sh('bash %s/demo.sh' % sd, d, 300)
        r, x = sh('git apply --unsafe-paths --directory=%s %s/patch.diff || patch -p1 < %s/patch.diff' % (d, sd, sd), d) if 0 else sh('patch -p1 -s < %s/patch.diff' % sd, d)
        if r: return id + ' NOAPPLY ' + x
        r1, x1 = sh('bash %s/demo.sh' % sd, d, 300); o.append('demo %s/%s' % (r0, r1))
        if r0: o.append(x0[-300:])
    else:
        props = s.get('props')
        for f, old, new in s['edits']:
            t = open(d + '/' + f).read()
            if t.count(old) != 1: return '%s: %s: text occurs %d times: %r' % (id, f, t.count(old), old)
            open(d + '/' + f, 'w').write(t.replace(old, new))
        if not props: fs = {e[0] for e in s['edits']}; props = [p for p in FILES if any(f in FILES[p] for f in fs)]
    o.append('tests %s' % (tests(d, d + '.t'),))
    for p in props:
        if nochk: break
        t1 = time.time(); r, x = sh('python3-vt check.py ' + p, vc, 900, dict(VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'))
        v = re.findall(r'VIOLATION.*', x); l = [y for y in x.splitlines() if y.strip()]
        o.append('%s:%s %s %ds %s' % (p, r, (v[0][:90] if v else ''), time.time() - t1, (l[-1][:150] if r or s is None else [y for y in l if 'undecided' in y][:1]) if l else ''))
        if v: o.append(' '.join(y for y in l if y.startswith(('  ', 'FAILED', 'failed')))[:300])
    shutil.rmtree(d); shutil.rmtree(d + '.t', ignore_errors=True)
    return ' | '.join(o)
S = {}
if ref:
    for f in sorted(glob.glob(V + '/tools/refactors/*.py')): S.update(runpy.run_path(f)['REF'])
    ids = a or list(S)
elif mut:
    for f in sorted(glob.glob(V + '/tools/mutants/*.py')): S.update(runpy.run_path(f)['REF'])
    ids = a or list(S)
else: ids = a or sorted(os.listdir(V + '/seeded'))
try:
    with ThreadPoolExecutor(J) as ex:
        for r in ex.map(lambda i: one(i, S.get(i)), ids): print(r, flush=True)
finally: shutil.rmtree(root, ignore_errors=True)
