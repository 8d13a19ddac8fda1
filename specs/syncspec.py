"""C27 (src/fdutils.c) and C28 (src/synctools.c)"""
from lvc.task import *
from lvc import ext
from . import posix as X
F_GETFD, F_SETFD, F_GETFL, F_SETFL, FD_CLOEXEC = 1, 2, 3, 4, 1

# --------------------------------------------------------------- C27, bit-precise
def fdsetup(t):
    m = t.mod('src/fdutils.c'); st = t.state(); E = t.E
    fd = t.sym(st, 32, 'fd'); fl = {0: t.sym(st, 32, 'fdflags'), 1: t.sym(st, 32, 'status')}
    for v in fl.values(): st.assume(t.u(v) >= 0)
    st.g['flags'] = dict(fl); st.g['fail'] = []; st.g['ncall'] = {}
    def fcntl(E, s, a):
        E.oblige(s, t.u(a[0]) == t.u(fd), 'descriptor', 'the given descriptor is used')
        c = a[1].c
        if c not in (1, 2, 3, 4): E.oblige(s, False, 'fcntl-command'); s.dead = True; return None
        f = s.copy(); e = ext.fresh_errno(E, f); f.g['fail'] = f.g['fail'] + [(c, t.u(e))]
        k = (c - 1) // 2; d = s.g['flags']
        if c in (1, 3): return [(s, d[k]), (f, const(32, -1))]
        d[k] = a[2]
        return [(s, const(32, 0)), (f, const(32, -1))]
    E.handlers['fcntl'] = fcntl; E.handlers['fcntl64'] = fcntl
    def ioctl(E, s, a):
        if a[1].c not in (0x5451, 0x5450): raise Unsupported('ioctl request')
        E.oblige(s, t.u(a[0]) == t.u(fd), 'descriptor', 'the given descriptor is used')
        f = s.copy(); e = ext.fresh_errno(E, f); f.g['fail'] = f.g['fail'] + [(a[1].c, t.u(e))]
        d = s.g['flags'] = dict(s.g['flags']); v = E.A.fresh(32, 'newflags', s)
        s.assume(t.u(v) == (t.u(d[0]) | FD_CLOEXEC if a[1].c == 0x5451 else t.u(d[0]) & 0xfffffffe)); d[0] = v
        return [(s, const(32, 0)), (f, const(32, -1))]
    E.handlers['ioctl'] = ioctl
    return m, st, fd, fl
def flagtask(fn, k, bits_of):
    @task('C27', fn, 'bv')
    def ft(t):
        m, st, fd, fl = fdsetup(t); flags = t.sym(st, 32, 'flags'); st.assume(t.u(flags) >= 0)
        args = [fd] if k == 0 else [fd, flags]
        want = t.u(fl[k]) | (FD_CLOEXEC if k == 0 else t.u(flags))
        t.replay = lambda M, i: [fn, i['fdflags'], i['status'], i['flags']]
        fin = t.call(st, m, fn, args)
        for f in fin:
            r = t.u(f.ret); d = f.g['flags']
            if f.g['fail']:
                t.prove(f, r == -f.g['fail'][-1][1], 'the error of the failing call is reported'); t.prove(f, t.u(d[k]) == t.u(fl[k]), 'nothing changed')
            else:
                t.prove(f, r == 0, 'success'); t.prove(f, t.u(d[k]) == want, 'exactly the requested flags are added')
                for g in t.call(f, m, fn, args):
                    if not g.g['fail']: t.prove(g, t.u(g.g['flags'][k]) == want, 'setting twice is setting once')
            t.prove(f, t.u(d[1 - k]) == t.u(fl[1 - k]), 'the other flag set is untouched')
        t.cover_any(fin, lambda f: t.u(f.ret) == 0, 'success'); t.cover_any(fin, lambda f: t.u(f.ret) < 0, 'failure')
flagtask('fd_set_close_on_exec', 0, None); flagtask('fd_add_flags', 1, None)
@task('C27', 'has_close_on_exec', 'bv')
def hasc(t):
    m, st, fd, fl = fdsetup(t); t.replay = lambda M, i: ['fd_has_close_on_exec', i['fdflags'], i['status'], 0]
    fin = t.call(st, m, 'fd_has_close_on_exec', [fd])
    for f in fin:
        r = t.u(f.ret)
        if f.g['fail']: t.prove(f, r == 0, 'a failing call reads as not set')
        else: t.prove(f, r == z3.If((t.u(fl[0]) & FD_CLOEXEC) != 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), 'exactly the close-on-exec flag')
        t.prove(f, z3.And(*[t.u(f.g['flags'][k]) == t.u(fl[k]) for k in (0, 1)]), 'nothing changed')
    t.cover_any(fin, lambda f: t.u(f.ret) == 1, 'set'); t.cover_any(fin, lambda f: t.u(f.ret) == 0, 'not set')

# ------------------------------------------------------------------------- C28
def setup(t):
    m = t.mod('src/synctools.c'); st = t.state(); X.init(st); E = t.E
    E.handlers.update(open=X.h_open, open64=X.h_open, openat=X.h_openat, openat64=X.h_openat, close=X.h_close, fsync=X.h_fsync, fdatasync=X.h_fsync)
    p, L, rd = X.cstring(t, st, 'path'); st.mem[p.blk].ro = True
    pos, k = z3.Int('slash'), z3.Int('k'); has = z3.Bool('has_slash'); t.inputs.update(slash=pos)
    st.assume(z3.Implies(has, z3.And(pos >= 0, pos < L, t.u(rd(pos)) == 47)))
    def strdup(E, s, a):
        f = s.copy(); ext.set_errno(E, f, ext.ENOMEM); f.g['alloc_failed'] = True
        E.oblige(s, a[0].blk == p.blk and isinstance(a[0].off, int) and a[0].off == 0, 'strdup', 'the path is copied')
        d = E.new_obj(s, 'copy', L + 1, 'heap'); E.memcpy(s, d, a[0], L + 1)
        s.g[('strlen', d.blk)] = INT.mku(64, L)
        return [(s, d), (f, NULL)]
    def strrchr(E, s, a):
        E.oblige(s, t.u(a[1]) == 47, 'strrchr', 'looks for a slash')
        f = s.copy(); s.assume(has); f.assume(z3.Not(has))
        return [(s, Ptr(a[0].blk, E.oadd(a[0].off, pos))), (f, NULL)]
    E.handlers.update(strdup=strdup, strrchr=strrchr)
    return m, st, p, L, rd, pos, has, k
def right_object(t, f, o, p, folder, rd=None, pos=None, k=None):
    """open event o names the right object"""
    fl = t.u(o['flags']); bad = (X.O_CREAT, X.O_TRUNC, X.O_PATH)
    if o['flags'].c is None: t.prove(f, False, 'constant open flags'); return
    c = o['flags'].c & 0xffffffff
    t.prove(f, not any(c & b for b in bad), 'opened without creating, truncating or path-only access')
    t.prove(f, bool(c & X.O_DIRECTORY) == bool(folder), 'opened as a folder' if folder else 'opened as a file')
    if rd is None: t.prove(f, o['path'].blk == p.blk and isinstance(o['path'].off, int) and o['path'].off == 0, 'the given path is opened')
    else:
        r2 = o['rd']
        if r2 is None: t.prove(f, False, 'parent folder path'); return
        a, b = r2(k), r2(pos + 1); t.E.flush_facts(f)
        t.prove(f, z3.Implies(z3.And(k >= 0, k <= pos), t.u(a) == t.u(rd(k))), 'the parent folder path is the path up to its last slash')
        t.prove(f, t.u(b) == 0, 'the parent folder path ends after the slash')
for fn, folder in (('sync_file', 0), ('sync_folder', 1)):
    def mk(fn=fn, folder=folder):
        @task('C28', fn)
        def sf(t):
            m, st, p, L, rd, pos, has, k = setup(t)
            fin = t.call(st, m, fn, [p])
            for f in fin:
                r = t.ret(f); op, sy = X.evs(f, 'open'), X.evs(f, 'fsync'); X.noleak(t, f)
                t.prove(f, len(op) == 1, 'one object opened')
                for o in op: right_object(t, f, o, p, folder)
                good = len(op) == 1 and op[0]['ok'] and any(s['ok'] for s in sy)
                t.prove(f, (r == 0) if good else (r < 0), 'success exactly when the flush succeeded')
                if not good: t.prove(f, z3.Or(*[r == -x['err'] for x in op + sy if not x['ok']] + [z3.BoolVal(False)]), 'errno of the failing step')
            t.cover_any(fin, lambda f: t.ret(f) == 0, 'success'); t.cover_any(fin, lambda f: t.ret(f) < 0, 'failure')
            st2 = t.state(); X.init(st2)
            for f in t.call(st2, m, fn, [NULL]): t.prove(f, t.ret(f) < 0, 'missing path rejected'); X.noleak(t, f)
    mk()
@task('C28', 'sync_file_and_folder')
def sff(t):
    m, st, p, L, rd, pos, has, k = setup(t)
    fin = t.call(st, m, 'sync_file_and_folder', [p])
    for f in fin:
        r = t.ret(f); op, sy = X.evs(f, 'open'), X.evs(f, 'fsync'); X.noleak(t, f)
        # which opened descriptor is which: the first names the path, the second the folder
        files = [o for o in op if o['path'].blk == p.blk]; dirs = [o for o in op if o['path'].blk != p.blk]
        for o in files: right_object(t, f, o, p, 0)
        for o in dirs: right_object(t, f, o, p, 1, rd, pos, k)
        def flushed(os): return any(o['ok'] and any(s['ok'] and s['fd'] is o['fd'] for s in sy) for o in os)
        both = flushed(files) and flushed(dirs)
        t.prove(f, (r == 0) if both else (r < 0), 'success exactly when file and folder are flushed')
        if not both: t.prove(f, z3.Or(*[r == -x['err'] for x in op + sy if not x['ok']] + [z3.And(z3.Not(has), r < 0), z3.And(bool(f.g.get('alloc_failed')), r < 0)]), 'errno of a failing step')
    t.cover_any(fin, lambda f: t.ret(f) == 0, 'success'); t.cover_any(fin, z3.Not(has), 'no slash')
    st2 = t.state(); X.init(st2)
    for f in t.call(st2, m, 'sync_file_and_folder', [NULL]): t.prove(f, t.ret(f) < 0, 'missing path rejected'); X.noleak(t, f)
