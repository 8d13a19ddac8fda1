"""C34: time_local_set, time_local_get, time_local_ms_get (src/systimetools.c)
over assumed contracts of the clock calls.  Every reading of the clock is a
fresh instant; the offset of the local zone is a function of the instant."""
from lvc.task import *
from lvc.ext import fresh_errno
from specs.timetools import get
SRC = 'src/systimetools.c'
OFF = z3.Function('zone_offset', z3.IntSort(), z3.IntSort())      # seconds east of UTC in force at an instant
def failing(E, st): f = st.copy(); f.g['err'] = E.A.u(fresh_errno(E, f)); return f
def reading(E, st):
    n = len(st.g['rd']); s, u = z3.Int('clk%d_sec!%d' % (n, next(E.nid))), z3.Int('clk%d_ns!%d' % (n, next(E.nid)))
    st.assume(z3.And(s >= 0, s < 1 << 40, u >= 0, u < 10**9))
    st.g['rd'] = st.g['rd'] + [(s, u)]; return s, u
def v64(E, st, x): v = INT.mks(64, x, -(1 << 62), 1 << 62); return v
def clocks(t, st):
    E = t.E; st.g['rd'] = []; st.g['set'] = []
    def gtod(E, s, a):
        f = failing(E, s); x, u = reading(E, s)
        E.store(s, a[0], v64(E, s, x), 8); E.store(s, Ptr(a[0].blk, E.oadd(a[0].off, 8)), v64(E, s, u / 1000), 8)
        return [(f, const(32, -1)), (s, const(32, 0))]
    def cgt(E, s, a):
        E.oblige(s, E.A.u(a[0]) == 0, 'clock', 'the system clock is read')
        f = failing(E, s); x, u = reading(E, s)
        E.store(s, a[1], v64(E, s, x), 8); E.store(s, Ptr(a[1].blk, E.oadd(a[1].off, 8)), v64(E, s, u), 8)
        return [(f, const(32, -1)), (s, const(32, 0))]
    def tim(E, s, a):
        x, u = reading(E, s); v = v64(E, s, x)
        if not isnull(a[0]): E.store(s, a[0], v, 8)
        return v
    def localtime_r(E, s, a):
        x = E.A.s(E.load(s, a[0], 64)); p = a[1]
        for k in range(9): E.store(s, Ptr(p.blk, E.oadd(p.off, 4 * k)), E.A.fresh(32, 'tm%d' % k, s), 4)
        s.assume(z3.And(OFF(x) >= -360000, OFF(x) <= 360000))
        E.store(s, Ptr(p.blk, E.oadd(p.off, 40)), INT.mks(64, OFF(x), -360000, 360000), 8)
        return p
    def setter(k):
        def h(E, s, a):
            p = a[0] if k == 1000 else a[1]
            if k == 1: E.oblige(s, E.A.u(a[0]) == 0, 'clock', 'the system clock is set')
            else: E.oblige(s, isnull(a[1]), 'clock', 'no time zone is passed')
            x, u = E.A.s(E.load(s, p, 64)), E.A.s(E.load(s, Ptr(p.blk, E.oadd(p.off, 8)), 64))
            s.g['set'] = s.g['set'] + [(x, u)]
            f = failing(E, s); return [(f, const(32, -1)), (s, const(32, 0))]
        return h
    E.handlers.update(gettimeofday=gtod, clock_gettime=cgt, time=tim, localtime_r=localtime_r, settimeofday=setter(1000), clock_settime=setter(1), tzset=lambda E, s, a: None)
@task('C34', 'set')
def set_(t):
    m = t.mod(SRC); st = t.state(); clocks(t, st); e, o = t.sym(st, 64, 'epoch'), t.sym(st, 32, 'offset', True)
    t.replay = lambda M, i: ['set', i['epoch'], i['offset']]
    fin = t.call(st, m, 'time_local_set', [e, o])
    for f in fin:
        s = f.g['set']; r = t.ret(f)
        t.prove(f, len(s) == 1, 'the clock is set once')
        if s: t.prove(f, z3.And((s[0][0] - t.u(e)) % (1 << 64) == 0, s[0][1] == 0), 'set to exactly the requested second')
        t.prove(f, r == (-f.g['err'] if 'err' in f.g else 0), 'the result of the system call is reported')
    t.cover_any(fin, lambda f: t.ret(f) == 0, 'success'); t.cover_any(fin, lambda f: t.ret(f) < 0, 'failure')
for fn in ('time_local_get', 'time_local_ms_get'):
    def mk(fn=fn):
        @task('C34', fn)
        def getter(t):
            m = t.mod(SRC); ms = 'ms' in fn
            for want in [(a, b, c) for a in (0, 1) for b in ((0, 1) if ms else (0,)) for c in (0, 1)]:
                st = t.state(); clocks(t, st); outs = []
                for w, bits, nm in zip(want, (64, 16, 32), ('epoch', 'ms', 'offset')): outs.append(t.cells_obj(st, nm, bits // 8, {0: t.sym(st, bits, 'old_' + nm)}) if w else NULL)
                t.replay = lambda M, i, want=want: ['get', int(ms)] + list(want)
                fin = t.call(st, m, fn, outs if ms else [outs[0], outs[2]])
                rq = ' (outputs %s)' % (want,)
                for f in fin:
                    r = t.ret(f); same = [t.unchanged(st, f, p) for p in outs if not isnull(p)]
                    if not want[0] and not want[2]: t.prove(f, z3.And(r < 0, all(same)), 'a request without second and offset is rejected' + rq); continue
                    if 'err' in f.g: t.prove(f, r == -f.g['err'], 'a failing clock is reported' + rq); t.prove(f, all(same), 'nothing is stored on failure' + rq); continue
                    t.prove(f, r == 0, 'success' + rq); rd = f.g['rd']; c = []
                    if want[0]: c.append(lambda s, u: t.u(t.rd(f, outs[0], 64)) == s)
                    if want[1]: c.append(lambda s, u: t.u(t.rd(f, outs[1], 16)) == u / 1000000)
                    if c: t.prove(f, z3.Or(*[z3.And(*[g(s, u) for g in c]) for s, u in rd]), 'second and millisecond of one reading of the clock' + rq)
                    if want[2]: t.prove(f, z3.Or(*[t.s_(t.rd(f, outs[2], 32)) == OFF(s) for s, u in rd]), 'offset of the local zone now' + rq)
                if want[0] or want[2]: t.cover_any(fin, lambda f: t.ret(f) == 0, 'success' + rq); t.cover_any(fin, lambda f: t.ret(f) < 0, 'failure' + rq)
    mk()
