import os, sys, importlib, time
sys.path.insert(0, '/verif'); import re
from lvc import task
def main():
    mods = sys.argv[1].split(','); pat = sys.argv[2] if len(sys.argv) > 2 else ''
    for m in mods: importlib.import_module('specs.' + m)
    seen = set()
    for p in sorted(task.REG):
        for t in task.REG[p]:
            if pat not in (p + '/' + t.name) or id(t.fn) in seen: continue
            seen.add(id(t.fn))
            r = task.run_task(t)
            bad = [o for o in r['obls'] if o['status'] != 'proved']
            print('%s %-32s obl=%d bad=%d paths=%d q=%d %.1fs (solver %.1fs) %s %s' % (p, t.name, len(r['obls']), len(bad), r['paths'], r['queries'], r['secs'], r['solver_secs'], r['tool_limit'] or r['error'] or '', [c for c in r['covers'] if c[1] != 'sat'] or ''))
            for o in bad[:int(os.environ.get('DN','5'))]: print('    ', o['status'], o['name'], (o['detail'] or '').replace('\n',' ')[:int(os.environ.get('DW','150'))], o.get('inputs'), o.get('replay'))
            if '-l' in sys.argv:
                for l in r['loops']: print('   loop', l[0], l[1], l[2])
main()
