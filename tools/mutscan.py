#!/usr/bin/env python3-vt
"""mutscan.py [-j N] [-n MAX] [-s SEED] FILE...: systematic single-token mutations of the given source files (in scratch copies);
stage 1 runs the native drivers only, stage 2 the whole checks on the survivors.  Prints what neither catches, for review."""
import sys, os, re, random, subprocess, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif')
a = sys.argv[1:]
def opt(k, d):
    if k in a: i = a.index(k); v = a[i + 1]; del a[i:i + 2]; return int(v)
    return d
J = opt('-j', 4); MAX = opt('-n', 60); SEED = opt('-s', 1)
PR = {}
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); PR[p['id']] = json.dumps(p)
root = tempfile.mkdtemp(prefix='mutscan')
SUB = [(r'<(?![<=])(?![\w ]*>)', '<='), (r'<=', '<'), (r'(?<![->])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<![+\w])\+(?![+=])', '-'), (r'(?<![-])-(?![->=])', '+'), (r'\+=', '-='), (r'-=', '+='), (r'\+\+', '--'), (r'--', '++'), (r'(?<![&])&(?![&=])', '|'), (r'(?<![|])\|(?![|=])', '&'),
       (r'<<', '>>'), (r'>>', '<<'), (r'\* ', '/ '), (r' / ', ' * '), (r'!(?!=)', ''), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\bNULL\b', '((void *)1)')]
def mutants(f, src):
    out = []; lines = src.split('\n'); com = False
    for i, l in enumerate(lines):
        s = l.strip()
        if '/*' in s and '*/' not in s: com = True
        if com:
            if '*/' in s: com = False
            continue
        if not s or s.startswith(('*', '/*', '//', '#', 'ULOG', '"')) or 'ULOG' in s or i < 28: continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '\0' * len(m.group(0)), l)
        for rx, to in SUB:
            for m in re.finditer(rx, code): out.append((i, l[:m.start()] + to + l[m.end():]))
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)([uUlL]*)(?![\w.])', code):
            v = int(m.group(1), 0)
            for d in (1, -1):
                if v + d >= 0: out.append((i, l[:m.start()] + str(v + d) + m.group(2) + l[m.end():]))
        if re.fullmatch(r'[\w\[\]>.*()-]+\s*[-+|&]?=[^=].*;', s) or re.fullmatch(r'[\w]+\(.*\);', s) or re.fullmatch(r'(\+\+|--)?[\w>.-]+(\+\+|--)?;', s):
            if not s.startswith('return'): out.append((i, re.match(r'\s*', l).group(0) + ';'))
        if re.fullmatch(r'goto \w+;', s) or re.fullmatch(r'return .*;', s): out.append((i, re.match(r'\s*', l).group(0) + ';'))
        m = re.fullmatch(r'(\s*)return (.+);', l)
        if m: out.append((i, m.group(1) + 'return 0;')); out.append((i, m.group(1) + 'return -1;'))
        m = re.search(r'\bif \((.*)\)( \{)?$', l)
        if m: out.append((i, l[:m.start(1)] + '1' + l[m.end(1):])); out.append((i, l[:m.start(1)] + '0' + l[m.end(1):]))
        m = re.search(r'-(E[A-Z]+)\b', code)
        if m: out.append((i, l[:m.start()] + ('-EIO' if m.group(1) != 'EIO' else '-EINVAL') + l[m.end():]))
    return out
HX = {'futils.h': 'macros.c', 'list.h': 'list.c'}
def hp(path):
    b = os.path.basename(path); return '/verif/harness/' + HX[b] if b in HX else path
def ir(path, repo):
    path = hp(path)
    r = subprocess.run(['clang++-18' if path.endswith('pp') else 'clang-18', '-w', '-O1', '-S', '-emit-llvm', '-D_GNU_SOURCE', '-I/verif/stub', '-I' + repo + '/include', '-I' + repo + '/src', path, '-o', '-'], capture_output=True, text=True)
    return None if r.returncode else '\n'.join(x for x in r.stdout.split('\n') if not x.startswith(('source_filename', '; ModuleID')))
def gcc(path, repo):
    path = hp(path); return subprocess.run(['gcc', '-w', '-D_GNU_SOURCE', '-I/verif/stub', '-I' + repo + '/include', '-c', path, '-o', '/dev/null'], capture_output=True).returncode == 0
STAGE1 = r'''
import sys, os, tempfile, shutil
sys.path.insert(0, %r); import check
from props import PROPS, DRIVERS
w = tempfile.mkdtemp()
try:
    ds = {}
    for p in sys.argv[1:]:
        for n in PROPS[p].get('drivers', []):
            d = ds.get(n) or ds.setdefault(n, check.Driver(n, w))
            if d.bin is None: continue
            rc, out = d.run([p, 'sweep', 1, d.spec.get('n', {}).get(p, d.spec.get('count', 2000)) // 4 + 1], 120)
            if rc != 0: print('CAUGHT', p, check.failtext(rc, out)[:80]); sys.exit(0)
finally: shutil.rmtree(w)
'''
def one(job):
    k, f, i, new = job; d = '%s/r%d' % (root, k); os.makedirs(d)
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
        p = d + '/' + f; L = open(p).read().split('\n'); old = L[i]; L[i] = new; open(p, 'w').write('\n'.join(L))
        tag = '%s:%d: %s  =>  %s' % (f, i + 1, old.strip(), new.strip())
        x = ir(p, d)
        if x is None: return None
        if x == BASE[f] : return None
        props = [q for q in PR if f in PR[q]]
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run(['python3-vt', '-c', STAGE1 % vc] + props, cwd=vc, env=env, capture_output=True, text=True, errors='replace')
        if 'CAUGHT' in r.stdout: return 'native'
        for q in props:
            try: c = subprocess.run(['python3-vt', 'check.py', q], cwd=vc, env=env, capture_output=True, text=True, timeout=900, errors='replace')
            except subprocess.TimeoutExpired: continue
            if c.returncode == 1: return 'proof %s %s %s' % (q, tag, 'no-failing-input' if 'no-failing-input' in c.stdout else '')
        return 'SURVIVES ' + tag
    finally: shutil.rmtree(d, ignore_errors=True)
vc = root + '/verif'; os.makedirs(vc)
subprocess.run('cp -a /verif/check.py /verif/props.py /verif/known-findings.txt /verif/lvc /verif/specs /verif/stub /verif/drivers /verif/harness ' + vc, shell=True, check=True)
BASE = {}; jobs = []; R = random.Random(SEED)
for f in a:
    src = open('/repo/' + f).read(); BASE[f] = ir('/repo/' + f, '/repo'); ms = mutants(f, src); R.shuffle(ms); n0 = len(ms); ms = ms[:MAX]
    jobs += [(f,) + m for m in ms]; print(f, n0, 'mutants,', len(ms), 'taken', flush=True)
cnt = {}
try:
    with ThreadPoolExecutor(J) as ex:
        for r in ex.map(one, [(k,) + j for k, j in enumerate(jobs)]):
            if r is None: cnt['skip'] = cnt.get('skip', 0) + 1; continue
            cnt[r.split()[0]] = cnt.get(r.split()[0], 0) + 1
            if r != 'native': print(r, flush=True)
    print(cnt)
finally: shutil.rmtree(root, ignore_errors=True)
