"""C29: src/inotify.c"""
from lvc.task import *
from lvc import ext
from . import posix as X
SRC = 'src/inotify.c'
I = z3.IntVal; IS = z3.IntSort(); T_ = z3.BoolVal(True)
HDR = 16; FIONREAD = 0x541B
@task('C29', 'process', 'int', budget=300)
def process(t):
    m = t.mod(SRC); st = t.state(); E = t.E
    if str(m.types.get('struct.inotify_event')) != '{i32, i32, i32, i32, [0 x i8]}': raise Unsupported('struct inotify_event')
    n = z3.Int('events'); C = z3.Int('bytes'); t.inputs.update(events=n, bytes=C)
    OFF, LEN, D = (z3.Function(x, IS, IS) for x in ('offset', 'namelen', 'byte'))
    st.assume(z3.And(n >= 1, OFF(0) == 0, OFF(n) == C, C >= HDR, C < 1 << 31))
    st.g.update(i=I(0), buf=None, ran=False, read=False, none=False)
    fdv = t.sym(st, 32, 'fd'); data = E.new_obj(st, 'data', 8, 'glob'); cb = FnPtr('@cb')
    def wf(s, i):
        """event i: header and name, inside the batch"""
        o = OFF(i) + 12; E.ctx
        for k in range(4): s.assume(z3.And(D(o + k) >= 0, D(o + k) < 256))
        s.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(LEN(i) >= 0, LEN(i) == D(o) + 256 * D(o + 1) + 65536 * D(o + 2) + 16777216 * D(o + 3), OFF(i + 1) == OFF(i) + HDR + LEN(i), OFF(i) >= 0, OFF(i + 1) <= C)))
        s.assume(z3.Implies(z3.And(i >= 0, i < n, i + 1 < n), OFF(i + 1) + HDR <= C)); s.assume(z3.Implies(i >= n, z3.BoolVal(True)))
    def samefd(s, v): E.oblige(s, t.u(v) == t.u(fdv), 'bad-descriptor', 'the given descriptor is used')
    def ioctl(E, s, a):
        if a[1].c != FIONREAD: raise Unsupported('ioctl')
        samefd(s, a[0]); f = s.copy(); ext.fresh_errno(E, f); z = s.copy(); z.g['none'] = True; f.g['none'] = True
        zv = E.A.fresh(32, 'avail', z, True); E.flush_facts(z); z.assume(t.s_(zv) <= 0); E.store(z, a[2], zv, 4)
        E.store(s, a[2], INT.mks(32, C, 0, (1 << 31) - 1), 4); return [(s, const(32, 0)), (z, const(32, 0)), (f, const(32, -1))]
    def read(E, s, a):
        samefd(s, a[0])
        if s.g['read'] is not False: raise Unsupported('more than one read')
        if not E.entails(s, t.u(a[2]) == C): raise Unsupported('read of another size')
        if not E.chk_access(s, a[1], C, 'store'): return []
        f = s.copy(); ext.fresh_errno(E, f); f.g['none'] = True; f.g['read'] = 'failed'
        E.set_range(s, a[1], C, lambda k: INT.mku(8, D(E.A.oterm(k)), 0, 255)); s.g['read'] = 'done'; s.g['buf'] = (a[1].blk, a[1].off); wf(s, I(0)); 
        return [(s, INT.mks(64, C, 0, 1 << 31)), (f, const(64, -1))]
    def call(E, s, p, a):
        if not (isinstance(p, FnPtr) and p.name == cb.name): raise Unsupported('call of another function')
        i = s.g['i']; E.oblige(s, s.g['read'] == 'done', 'post', 'callbacks run only after a successful read')
        if s.g['read'] != 'done': s.dead = True; return []
        E.oblige(s, i < n, 'post', 'no callback beyond the last event'); wf(s, i)
        ev = a[0]; ok = isinstance(ev, Ptr) and ev.blk == s.g['buf'][0] and s.mem[ev.blk].alive
        E.oblige(s, ok and E.oeq(E.osub(ev.off, s.g['buf'][1]), OFF(i)), 'post', 'callback i gets event i')
        E.oblige(s, isinstance(a[1], Ptr) and a[1].blk == data.blk and a[1].off == 0, 'post', 'and the pointer of the user')
        k = z3.Int('k'); s2 = s.copy(); s2.assume(z3.And(k >= 0, k < HDR + LEN(i)))
        if ok: E.oblige(s2, t.u(t.rd(s2, Ptr(ev.blk, E.oadd(ev.off, k)), 8)) == D(OFF(i) + k) if E.feasible(s2, T_) else True, 'post', 'whose data is intact')
        s.g['i'] = z3.simplify(i + 1); wf(s, z3.simplify(i + 1)); return None
    E.handlers.update(ioctl=ioctl, read=read); E.handlers[cb.name] = lambda E, s, a: call(E, s, cb, a)
    t.replay = lambda M, i: ['events', str(min(i['events'], 40)), str(min(i['bytes'], 1 << 16))]
    st0 = st
    def inv(ctx):
        s = ctx.st; i = s.g['i']; o = [('i', z3.And(i >= 0, i <= n)), ('off', z3.And(OFF(i) >= 0, OFF(i) <= C, z3.Implies(i < n, OFF(i) + HDR <= C), z3.Implies(i == n, OFF(i) == C)))]
        wf(s, i)
        if s.g['buf'] is None: return o
        blk, b0 = s.g['buf']
        for l in ctx.locs:
            v = ctx.getloc(l)
            if isinstance(v, Ptr) and v.blk == blk: o.append(('ev %s' % (l,), E.A.oterm(E.osub(v.off, b0)) == OFF(i)))
            elif isinstance(v, V) and v.bits in (32, 64): o += [('left %s' % (l,), t.s_(v) == C - OFF(i)), ('pos %s' % (l,), t.s_(v) == OFF(i))]
        return o
    E.inv = inv; E.opts['policy'] = 'cut'
    fin = t.call(st, m, 'inotify_process_fd', [fdv, cb, data])
    for f in fin:
        t.prove(f, not X.leaks(f), 'temporary memory is released')
        if f.g['none'] or f.g.get('alloc_failed'): t.prove(f, z3.BoolVal(f.g['i'].eq(I(0))), 'no callback without a batch'); continue
        t.prove(f, f.g['i'] == n, 'every event of the batch is reported')
    t.cover_any(fin, lambda f: z3.And(f.g['i'] == n, n == 3, C > 600), 'large batch'); t.cover_any(fin, lambda f: z3.And(f.g['i'] == n, n == 2, C == 48), 'small batch')
@task('C29', 'create and destroy', 'int')
def create(t):
    m = t.mod(SRC); st = t.state(); E = t.E; X.init(st); path, L, _ = X.cstring(t, st, 'path'); mask = t.sym(st, 32, 'mask')
    def init(E, s, a):
        if a and a[0].c is None: raise Unsupported('flags')
        f, e = X.fail(E, s); v = X.newfd(E, s, dict(cloexec=bool(a) and bool(a[0].c & X.O_CLOEXEC))); return [(s, v), (f, const(32, -1))]
    def cloexec(E, s, a):
        i = X.needfd(E, s, a[0], 'close-on-exec')
        if i is None: return []
        f = s.copy(); e = E.A.fresh(32, 'err', f, True); E.flush_facts(f); f.assume(t.s_(e) < 0); f.g['nocloexec'] = True; X.ev(s, 'cloexec', ix=i); return [(s, const(32, 0)), (f, e)]
    def watch(E, s, a):
        i = X.needfd(E, s, a[0], 'watch')
        if i is None: return []
        E.oblige(s, a[1].blk == path.blk and a[1].off == 0, 'post', 'the given path is watched'); E.oblige(s, t.u(a[2]) == t.u(mask), 'post', 'with the given mask')
        f, e = X.fail(E, s); w = E.A.fresh(32, 'wd', s); E.flush_facts(s); s.assume(t.s_(w) >= 0); X.ev(s, 'watch', ix=i); return [(s, w), (f, const(32, -1))]
    E.handlers.update(inotify_init=init, inotify_init1=init, fd_set_close_on_exec=cloexec, inotify_add_watch=watch, close=X.h_close)
    t.replay = lambda M, i: ['create']
    fin = t.call(st, m, 'inotify_create', [path, mask])
    for f in fin:
        r = t.s_(f.ret); op = [(k, v, me) for k, (v, o, me) in enumerate(f.g['fds']) if o]
        if not op: t.prove(f, r == -1, 'without a descriptor -1 is returned'); continue
        t.prove(f, len(op) == 1, 'one descriptor stays open'); k, v, me = op[0]
        t.prove(f, z3.And(r == t.s_(v), r >= 0), 'the open descriptor is returned: nothing stays open on failure')
        t.prove(f, any(e['ix'] == k for e in X.evs(f, 'watch')), 'with the watch added')
        t.prove(f, me['cloexec'] or f.g.get('nocloexec', False) or any(e['ix'] == k for e in X.evs(f, 'cloexec')), 'and close-on-exec requested')
    t.cover_any(fin, lambda f: t.s_(f.ret) >= 0, 'created'); t.cover_any(fin, lambda f: t.s_(f.ret) == -1, 'failed')
    st = t.state(); X.init(st); fd = t.sym(st, 32, 'fd'); neg = st.copy(); neg.assume(t.s_(fd) < 0)
    calls = []
    E.handlers['close'] = lambda E, s, a: (s.g.update(n=s.g.get('n', 0) + 1, v=a[0]), const(32, 0))[1]
    t.replay = lambda M, i: ['destroy', str(i.get('fd', 0))]
    for f in t.call(st, m, 'inotify_destroy', [fd]):
        k = f.g.get('n', 0); F = t.s_(fd)
        t.prove(f, z3.If(F >= 0, k == 1, k == 0), 'exactly a descriptor is closed, once')
        if k: t.prove(f, t.s_(f.g['v']) == F, 'the given one')
