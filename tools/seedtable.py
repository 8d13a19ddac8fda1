#!/usr/bin/env python3
"""seedtable.py LOG...: rewrite the table of planted bugs in DESIGN.md from seedpar.py output"""
import sys, re, json, os
V = '/verif'; res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'([\w-]+) \| (C\d\d) \|', l)
        if not m: continue
        c = re.search(r'%s:(\S+) ' % m[2], l); ob = re.search(r'failed obligation: ([^ ].*?)(?: inputs|  |$)', l); nf = 'no-failing-input-found' in l
        run = 'failing run' in l or 'lost run' in l or (c and c[1] == '1' and not nf)
        res[m[1]] = 'missed' if not c or c[1] != '1' else ('obligation only' if nf else 'obligation and failing run' if ob else 'failing run') + (': `%s`' % ob[1].strip() if ob else '')
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i))); rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), res.get(i, '?').replace('|', '/')))
d = open(V + '/DESIGN.md').read()
if '<!-- seedtable -->' not in d: d = d.replace('SEEDTABLE', '<!-- seedtable -->\n<!-- /seedtable -->')
d = re.sub(r'<!-- seedtable -->.*?<!-- /seedtable -->', lambda x: '<!-- seedtable -->\n' + '\n'.join(rows) + '\n<!-- /seedtable -->', d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
