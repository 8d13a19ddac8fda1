#!/usr/bin/env python3
"""write seeded/<id>/ (patch.diff, demo.sh, demo source, meta.json) from tools/seeds/*.py"""
import sys, os, json, subprocess, shutil, glob, runpy
R = '/verif/seeded'
SEEDS = {}
for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + '/seeds/*.py')):
    SEEDS.update(runpy.run_path(f)['SEEDS'])
want = sys.argv[1:] or list(SEEDS)
DEMO = '''#!/bin/bash
# builds the demonstration against the sources in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
%(comp)s -w -g -D_GNU_SOURCE -I"$here" -I"$PWD/include" %(cflags)s "$here/%(demo)s" %(src)s -o "$tmp/demo" %(libs)s || exit 2
cd "$tmp" || exit 2
timeout %(to)d ./demo
'''
for i in want:
    s = SEEDS[i]; d = f'{R}/{i}'
    w = f'/tmp/mkseed.{os.getpid()}'
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w); 
    a = subprocess.run(['git', '-C', '/repo', 'archive', 'HEAD'], capture_output=True, check=True).stdout
    subprocess.run(['tar', 'x', '-C', w], input=a, check=True)
    subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=w, check=True)
    for f, old, new in s['edits']:
        t = open(f'{w}/{f}').read()
        if t.count(old) != 1: sys.exit(f'{i}: {f}: text occurs {t.count(old)} times: {old!r}')
        open(f'{w}/{f}', 'w').write(t.replace(old, new))
    p = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True, check=True).stdout
    shutil.rmtree(w)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f'{d}/patch.diff', 'w').write(p)
    cpp = s.get('cpp')
    demo = 'demo.cpp' if cpp else 'demo.c'
    open(f'{d}/{demo}', 'w').write(s['demo'].lstrip('\n'))
    src = ' '.join(x for x in s.get('src', []))
    comp = s.get('comp') or ('g++ -std=c++17' if cpp else 'gcc')
    open(f'{d}/demo.sh', 'w').write(DEMO % dict(comp=comp, demo=demo, src=src, cflags=s.get('cflags', ''), libs=s.get('libs', '-lpthread'), to=s.get('timeout', 60)))
    os.chmod(f'{d}/demo.sh', 0o755)
    shutil.copy('/verif/stub/ulog.h', f'{d}/ulog.h')
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
    print('wrote', i)
