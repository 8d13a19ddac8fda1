"""C26: src/fs.c"""
from lvc.task import *
from lvc import ext
from . import posix as X
SRC = 'src/fs.c'
I = z3.IntVal; IS = z3.IntSort(); T_ = z3.BoolVal(True)
REG, DIR, LNK = 8, 4, 10
class Names:
    """what is known about path buffers; nothing after an arbitrary number of iterations"""
    def __init__(s, d={}): s.d = d
    def put(s, k, v): return Names({**s.d, k: v})
    def get(s, k): return s.d.get(k)
    def havoc(s, E, st): return Names()
class Dir:
    """a directory with entries 0..n-1 in the order they are read; their names, kinds and sizes are arbitrary"""
    def __init__(s, t, st, m, rec):
        s.t, s.E, s.m = t, t.E, m; E = t.E; s.rec = rec
        if str(m.types.get('struct.stat', '')).split(', ')[:9] != '{i64, i64, i64, i32, i32, i32, i32, i64, i64'.split(', ') or str(m.types.get('struct.dirent')) != '{i64, i64, i16, i8, [256 x i8]}': raise Unsupported('layout of struct stat / dirent')
        s.n = z3.Int('entries'); t.inputs['entries'] = s.n; st.assume(s.n >= 0)
        F = lambda nm, k=1: z3.Function(nm, *([IS] * (k + 1)))
        s.K, s.lo, s.size, s.recs, s.NB, s.SUM, s.tK = F('kind'), F('perm'), F('size'), F('below'), F('name', 2), F('sum'), F('target_kind')
        st.assume(s.SUM(0) == 0)
        st.g['i'] = I(0); st.g['open'] = False; st.g['ever'] = False; st.g['failed'] = z3.BoolVal(False); st.g['buf'] = Names(); st.g['end'] = False; st.g['dp'] = None
        for k in ('opendir', 'readdir', 'closedir', 'strcmp', 'strncmp', 'snprintf', 'lstat', 'stat', 'futils_fs_dir_size'): E.handlers[k] = getattr(s, 'h_' + k)
        E.handlers['readdir64'], E.handlers['lstat64'], E.handlers['stat64'] = s.h_readdir, s.h_lstat, s.h_stat
        s.path, s.L, _ = X.cstring(t, st, 'path'); st.mem[s.path.blk].ro = True
        s.dirent = t.struct_obj(st, m, 'struct.dirent', 'dirent', kind='glob'); s.DIR = E.new_obj(st, 'DIR', 8, 'glob')
    def dots(s, i): return z3.And(s.NB(i, I(0)) == 46, z3.Or(s.NB(i, I(1)) == 0, z3.And(s.NB(i, I(1)) == 46, s.NB(i, I(2)) == 0)))
    def part(s, i): return z3.If(s.dots(i), 0, z3.If(s.K(i) == REG, s.size(i), z3.If(z3.And(s.K(i) == DIR, s.rec), s.recs(i), 0)))
    def wf(s, st, i):
        b = [z3.And(s.NB(i, I(k)) >= 0, s.NB(i, I(k)) < 256) for k in range(3)]
        st.assume(z3.And(s.NB(i, I(0)) != 0, *b)); st.assume(z3.And(s.K(i) >= 0, s.K(i) < 16, s.lo(i) >= 0, s.lo(i) < 4096, s.size(i) >= 0, s.recs(i) >= 0))
        st.assume(s.SUM(i + 1) == s.SUM(i) + s.part(i)); st.assume(z3.And(s.SUM(i) >= 0, s.SUM(i + 1) >= 0, s.SUM(i + 1) < 1 << 62, s.size(i) < 1 << 62, s.recs(i) < 1 << 62))
        st.assume(z3.Implies(s.dots(i), s.K(i) == DIR))
    def cur(s, st): return z3.simplify(st.g['i'] - 1)
    def fail(s, st, e=None):
        f = st.copy(); f.g['failed'] = z3.BoolVal(True)
        if e: ext.set_errno(s.E, f, e)
        else: ext.fresh_errno(s.E, f)
        return f
    def h_opendir(s, E, st, a):
        if a[0].blk != s.path.blk or a[0].off != 0 or st.g['ever']: raise Unsupported('opendir of another directory')
        st.g['open'] = st.g['ever'] = True; f = s.fail(st); f.g['open'] = f.g['ever'] = False; f.g['noopen'] = True
        return [(st, s.DIR), (f, NULL)]
    def isopen(s, E, st, p, what):
        ok = p.blk == s.DIR.blk and st.g['open']; E.oblige(st, ok, 'bad-handle', what + ' of a directory that is not open'); st.dead = st.dead or not ok; return ok
    def h_readdir(s, E, st, a):
        if not s.isopen(E, st, a[0], 'readdir'): return []
        i = st.g['i']; out = [(s.fail(st), NULL)]; e = st.copy(); e.assume(i == s.n); e.g['end'] = True; st.assume(i < s.n)
        if E.feasible(e, T_): out.append((e, NULL))
        if E.feasible(st, T_):
            s.wf(st, i); st.g['i'] = z3.simplify(i + 1); nb = s.NB
            E.set_range(st, Ptr(s.dirent.blk, 19), 256, lambda k: INT.mku(8, nb(i, E.A.oterm(k)), 0, 255))
            ty = E.A.fresh(8, 'd_type', st); E.flush_facts(st); st.assume(z3.Or(t0(s, ty) == 0, t0(s, ty) == s.K(i))); t_set(s, st, 18, ty)
            out.append((st, s.dirent))
        return out
    def h_closedir(s, E, st, a):
        if not s.isopen(E, st, a[0], 'closedir'): return []
        st.g['open'] = False; f = st.copy(); ext.fresh_errno(E, f); return [(st, const(32, 0)), (f, const(32, -1))]
    def cmp(s, E, st, a, n):
        x, y = a[0], a[1]; b = ext.str_bytes(E, st, y)
        if b is None: x, y = y, x; b = ext.str_bytes(E, st, y)
        if b is None: raise Unsupported('strcmp')
        w = list(b + b'\0')[:n]; rd = E.byte_reader(st, x)
        c = z3.And(*[s.t.u(rd(k)) == v for k, v in enumerate(w)]); E.flush_facts(st); o = []
        f = st.copy(); st.assume(c); f.assume(z3.Not(c))
        if E.feasible(st, T_): o.append((st, const(32, 0)))
        if E.feasible(f, T_): v = E.A.fresh(32, 'cmp', f); E.flush_facts(f); f.assume(s.t.u(v) != 0); o.append((f, v))
        return o
    def h_strcmp(s, E, st, a): return s.cmp(E, st, a, None)
    def h_strncmp(s, E, st, a):
        if a[2].c is None: raise Unsupported('strncmp')
        return s.cmp(E, st, a, a[2].c)
    def h_snprintf(s, E, st, a):
        fmt = ext.str_bytes(E, st, a[2]); size = a[1].c
        if fmt != b'%s/%s' or size is None or a[3].blk != s.path.blk or a[3].off != 0 or a[4].blk != s.dirent.blk or a[4].off != 19: raise Unsupported('entry path')
        nl = z3.FreshInt('namelen'); st.assume(z3.And(nl >= 1, nl < 256)); tot = s.L + 1 + nl; f = st.copy(); st.assume(tot < size); f.assume(tot >= size); i = s.cur(st); o = []
        for x, cnt, what in ((st, tot + 1, i), (f, I(size), 'cut')):
            if not E.feasible(x, T_): continue
            E.chk_access(x, a[0], cnt, 'store'); x.g['buf'] = x.g['buf'].put(str((a[0].blk, str(a[0].off))), what)
            if isinstance(what, str): x.g['failed'] = z3.BoolVal(True)
            o.append((x, INT.mks(32, tot)))
        return o
    def entry(s, E, st, p, what):
        k = str((p.blk, str(p.off))) if isinstance(p, Ptr) else None; v = st.g['buf'].get(k)
        if v is None: raise Unsupported('%s of an unknown path' % what)
        ok = not isinstance(v, str) and E.entails(st, v == s.cur(st))
        E.oblige(st, ok, 'post', '%s names the entry just read' % what); st.dead = st.dead or not ok; return ok
    def status(s, E, st, a, kind, what):
        if not s.entry(E, st, a[0], what): return []
        f = s.fail(st); i = s.cur(st); sz = s.size(i)
        if not E.chk_access(st, a[1], 144, 'store'): return []
        # a followed link shows its target
        mode = INT.mku(32, z3.If(kind, s.tK(i), s.K(i)) * 4096 + s.lo(i) if not z3.is_false(kind) else s.K(i) * 4096 + s.lo(i), 0, 65535)
        st.assume(z3.And(s.tK(i) >= 0, s.tK(i) < 16))
        for off in (0, 8, 16, 56, 64, 72, 80, 88, 96, 104, 112): E.store(st, Ptr(a[1].blk, E.oadd(a[1].off, off)), E.A.fresh(64, 'st%d' % off, st), 8)
        for off in (28, 32): E.store(st, Ptr(a[1].blk, E.oadd(a[1].off, off)), E.A.fresh(32, 'st%d' % off, st), 4)
        E.flush_facts(st)
        E.store(st, Ptr(a[1].blk, E.oadd(a[1].off, 24)), mode, 4); z = z3.If(kind, z3.Function('target_size', IS, IS)(i), sz) if not z3.is_false(kind) else sz
        E.store(st, Ptr(a[1].blk, E.oadd(a[1].off, 48)), INT.mks(64, z, -(1 << 63), (1 << 62)), 8)
        return [(st, const(32, 0)), (f, const(32, -1))]
    def h_lstat(s, E, st, a): return s.status(E, st, a, z3.BoolVal(False), 'lstat')
    def h_stat(s, E, st, a): return s.status(E, st, a, s.K(s.cur(st)) == LNK, 'stat')
    def h_futils_fs_dir_size(s, E, st, a):
        """the function by its own contract, for the directory below"""
        if a[0].blk == s.path.blk: raise Unsupported('recursion on the same directory')
        if not s.entry(E, st, a[0], 'the walk below'): return []
        i = s.cur(st); E.oblige(st, s.K(i) == DIR, 'post', 'only directories are entered, never links')
        E.oblige(st, z3.Not(s.dots(i)), 'post', 'the walk never climbs'); E.oblige(st, boolof(a[1]) if not isinstance(boolof(a[1]), bool) else z3.BoolVal(boolof(a[1])), 'post', 'the walk below is recursive too')
        f = s.fail(st); e = E.A.fresh(64, 'err', f, True); E.flush_facts(f); f.assume(s.t.s_(e) < 0)
        return [(st, INT.mks(64, s.recs(i), 0, 1 << 62)), (f, e)]
def t0(s, v): return s.t.u(v)
def t_set(s, st, off, v): s.t.setcell(st, s.dirent, off, v)
@task('C26', 'dir_size', 'int', budget=300)
def dirsize(t):
    m = t.mod(SRC); st = t.state(); E = t.E
    rec = t.sym(st, 1, 'recursive'); R = boolof(rec); d = Dir(t, st, m, R)
    t.replay = lambda M, i: ['tree']
    def inv(ctx):
        s = ctx.st; i = s.g['i']; o = [('i', z3.And(i >= 0, i <= d.n)), ('N', z3.Or(i == ctx.N, i >= 0)), ('nothing failed', z3.Not(s.g['failed'])), ('bounded', z3.And(d.SUM(i) >= 0, d.SUM(i) < 1 << 62))]
        for l in ctx.locs:
            v = ctx.getloc(l)
            if isinstance(v, V) and v.bits == 64: o += [('sum %s' % (l,), t.s_(v) == d.SUM(i)), ('pos %s' % (l,), t.s_(v) >= 0), ('sum before %s' % (l,), z3.And(i > 0, t.s_(v) == d.SUM(i - 1)))]
        # values carried by an enclosing loop
        for k, v in s.frames[-1].env.items():
            if isinstance(v, V) and v.bits == 64 and v.c is None and ('phi', k) not in ctx.locs: o += [('kept %s' % k, t.s_(v) == d.SUM(i))]
        return o
    E.inv = inv; E.opts['policy'] = 'cut'
    fin = t.call(st, m, 'futils_fs_dir_size', [d.path, rec]); ok = 0
    for f in fin:
        r = t.s_(f.ret); bad = f.g['failed']
        if f.g.get('alloc_failed'): bad = T_
        t.prove(f, not f.g['open'], 'the directory is closed'); t.prove(f, not X.leaks(f), 'no memory leaked')
        t.prove(f, z3.Implies(bad, r < 0), 'a failing call at any depth is reported')
        t.prove(f, z3.Or(bad, z3.And(f.g['i'] == d.n, T_ if f.g['end'] else d.n == -1)), 'every entry is read')
        t.prove(f, z3.Or(bad, r == d.SUM(d.n)), 'the exact sum is returned')
    t.cover_any(fin, lambda f: z3.And(t.s_(f.ret) > 5, d.n == 3), 'sum'); t.cover_any(fin, lambda f: f.g['failed'], 'failure')
