"""C08, C09, C10 and the sleep part of C33: src/timetools.c, mathematical
integers with exact wrap-around (INT mode), no loops."""
from lvc.task import *
from lvc.ext import fresh_errno
SRC = 'src/timetools.c'
G = 10**9
U64 = 1 << 64

def tspec(t, st, name, lo=-(1 << 61), hi=1 << 61, norm=True):
    s = t.sym(st, 64, name + '_sec', signed=True); n = t.sym(st, 64, name + '_nsec', signed=True)
    S, N = t.s_(s), t.s_(n)
    st.assume(z3.And(S >= lo, S <= hi))
    if norm: st.assume(z3.And(N >= 0, N < G))
    return t.cells_obj(st, name, 16, {0: s, 8: n}), S * G + N, S, N
def outspec(t, st, name='out'):
    return t.cells_obj(st, name, 16, {0: t.sym(st, 64, name + '_old_sec', True), 8: t.sym(st, 64, name + '_old_nsec', True)})
def out64(t, st, name='out', bits=64): return t.cells_obj(st, name, bits // 8, {0: t.sym(st, bits, name + '_old')})
def get(t, f, p): return t.s_(t.rd(f, p, 64, 0)), t.s_(t.rd(f, p, 64, 8))
def normal(n): return z3.And(n >= 0, n < G)

@task('C08', 'diff')
def diff(t):
    m = t.mod(SRC); st = t.state()
    a, A, _, _ = tspec(t, st, 'start'); b, B, _, _ = tspec(t, st, 'end'); o = outspec(t, st)
    t.replay = lambda M, i: ['diff', i['start_sec'], i['start_nsec'], i['end_sec'], i['end_nsec']]
    fin = t.call(st, m, 'time_timespec_diff', [a, b, o])
    for f in fin:
        r = t.s_(f.ret); s, n = get(t, f, o)
        t.prove(f, (r == 0) == (B >= A), 'success exactly when end is not before start')
        t.prove(f, z3.Or(r == 0, r < 0), 'error is negative')
        t.prove(f, z3.Implies(r == 0, s * G + n == B - A), 'difference is exact')
        t.prove(f, z3.Implies(r == 0, normal(n)), 'difference is normalised')
    t.cover_any(fin, lambda f: t.s_(f.ret) == 0, 'success'); t.cover_any(fin, lambda f: t.s_(f.ret) < 0, 'rejection')
@task('C08', 'cmp')
def cmp(t):
    m = t.mod(SRC); st = t.state()
    a, A, _, _ = tspec(t, st, 't1', -(1 << 63), (1 << 63) - 1); b, B, _, _ = tspec(t, st, 't2', -(1 << 63), (1 << 63) - 1)
    t.replay = lambda M, i: ['cmp', i['t1_sec'], i['t1_nsec'], i['t2_sec'], i['t2_nsec']]
    fin = t.call(st, m, 'time_timespec_cmp', [a, b])
    for f in fin: t.prove(f, t.s_(f.ret) == z3.If(A > B, z3.IntVal(1), z3.If(A < B, z3.IntVal(-1), z3.IntVal(0))), 'order of the instants')
    for k in (1, 0, -1): t.cover_any(fin, lambda f: t.s_(f.ret) == k, 'result %d' % k)
    for args in ([NULL, b], [a, NULL]):
        for f in t.call(st, m, 'time_timespec_cmp', args): t.prove(f, t.s_(f.ret) == 0, 'missing argument compares as equal')
def mkadd(nm, k):
    @task('C08', 'add_' + nm)
    def add(t):
        m = t.mod(SRC); st = t.state()
        a, A, _, _ = tspec(t, st, 'ts'); o = outspec(t, st); d = t.sym(st, 64, 'delta', True); D = t.s_(d)
        t.replay = lambda M, i: ['add_' + nm, i['ts_sec'], i['ts_nsec'], i['delta']]
        fin = t.call(st, m, 'time_timespec_add_' + nm, [a, d, o])
        for f in fin:
            s, n = get(t, f, o)
            t.prove(f, t.s_(f.ret) == 0, 'succeeds')
            t.prove(f, s * G + n == A + D * k, 'exact sum')
            t.prove(f, normal(n), 'sum is normalised')
        for args in ([NULL, d, o], [a, d, NULL]):
            for f in t.call(st, m, 'time_timespec_add_' + nm, args):
                t.prove(f, t.s_(f.ret) < 0, 'missing argument rejected'); t.prove(f, t.unchanged(st, f, o), 'nothing written')
        t.cover_any(fin, D < 0, 'negative delta'); t.cover_any(fin, D > 0, 'positive delta')
mkadd('ns', 1); mkadd('us', 1000)
@task('C08', 'diff_us')
def diff_us(t):
    for sg in (True, False):
        m = t.mod(SRC); st = t.state()
        a, A, _, _ = tspec(t, st, 't1'); b, B, _, _ = tspec(t, st, 't2')
        D = z3.If(A >= B, A - B, B - A); st.assume(D / 1000 < U64)
        o = out64(t, st); s = t.cells_obj(st, 'sign', 4, {0: t.sym(st, 32, 'old_sign')})
        t.replay = lambda M, i: ['diff_us', i['t1_sec'], i['t1_nsec'], i['t2_sec'], i['t2_nsec']]
        fin = t.call(st, m, 'time_timespec_diff_us', [a, b, o, s if sg else NULL])
        for f in fin:
            t.prove(f, t.s_(f.ret) == 0, 'succeeds')
            t.prove(f, t.u(t.cell(f, o)) == D / 1000, 'absolute distance in us')
            if sg:
                v = t.s_(t.cell(f, s))
                t.prove(f, z3.And(z3.Implies(A > B, v == 1), z3.Implies(A < B, v == -1)), 'sign')
        for args in ([NULL, b, o, s], [a, NULL, o, s], [a, b, NULL, s]):
            for f in t.call(st, m, 'time_timespec_diff_us', args): t.prove(f, t.s_(f.ret) < 0, 'missing argument rejected')
        t.cover_any(fin, A > B, 'positive'); t.cover_any(fin, A < B, 'negative'); t.cover_any(fin, A == B, 'equal')
@task('C08', 'diff_in_range')
def in_range(t):
    for out in (True, False):
        m = t.mod(SRC); st = t.state()
        a, A, _, _ = tspec(t, st, 't1'); b, B, _, _ = tspec(t, st, 't2')
        D = z3.If(A >= B, A - B, B - A); st.assume(D / 1000 < U64)
        rg = t.sym(st, 64, 'range'); o = out64(t, st)
        t.replay = lambda M, i: ['in_range', i['t1_sec'], i['t1_nsec'], i['t2_sec'], i['t2_nsec'], i['range']]
        fin = t.call(st, m, 'time_timespec_diff_in_range', [a, b, rg, o if out else NULL])
        for f in fin:
            r = t.s_(f.ret)
            t.prove(f, r == z3.If(z3.Or(A == B, D / 1000 < t.u(rg)), z3.IntVal(1), z3.IntVal(0)), 'in range exactly when the distance is below the range')
            if out: t.prove(f, t.u(t.cell(f, o)) == D / 1000, 'distance is reported')
        t.cover_any(fin, lambda f: t.s_(f.ret) == 1, 'in range'); t.cover_any(fin, lambda f: t.s_(f.ret) == 0, 'out of range')
        for args in ([NULL, b, rg, o], [a, NULL, rg, o]):
            for f in t.call(st, m, 'time_timespec_diff_in_range', args): t.prove(f, t.s_(f.ret) == 0, 'missing argument is not in range')

# ---------------------------------------------------------------- C09
for nm, k in (('ns', 1), ('us', 1000), ('ms', 10**6)):
    def mk(nm=nm, k=k):
        @task('C09', 'timespec_to_' + nm)
        def to(t):
            m = t.mod(SRC); st = t.state()
            a, A, S, N = tspec(t, st, 'ts', 0); st.assume(A / k < U64); o = out64(t, st)
            t.replay = lambda M, i: ['to_' + nm, i['ts_sec'], i['ts_nsec']]
            fin = t.call(st, m, 'time_timespec_to_' + nm, [a, o])
            for f in fin:
                t.prove(f, t.s_(f.ret) == 0, 'succeeds'); t.prove(f, t.u(t.cell(f, o)) == A / k, 'truncated count')
                t.prove(f, t.unchanged(st, f, a), 'argument untouched')
            t.cover_any(fin, S > 1 << 33, 'large')
            for args in ([NULL, o], [a, NULL]):
                for f in t.call(st, m, 'time_timespec_to_' + nm, args):
                    t.prove(f, t.s_(f.ret) < 0, 'missing argument rejected'); t.prove(f, t.unchanged(st, f, o), 'nothing written')
        @task('C09', nm + '_to_timespec')
        def frm(t):
            m = t.mod(SRC); st = t.state()
            v = t.sym(st, 64, 'count'); a = t.cells_obj(st, 'count', 8, {0: v}); o = outspec(t, st)
            t.replay = lambda M, i: ['from_' + nm, i['count']]
            fin = t.call(st, m, 'time_%s_to_timespec' % nm, [a, o])
            for f in fin:
                s, n = get(t, f, o)
                t.prove(f, t.s_(f.ret) == 0, 'succeeds'); t.prove(f, normal(n), 'normalised'); t.prove(f, s * G + n == t.u(v) * k, 'exact instant')
                back = out64(t, f, 'back')
                for g in t.call(f, m, 'time_timespec_to_' + nm, [o, back]):
                    t.prove(g, z3.And(t.s_(g.ret) == 0, t.u(t.cell(g, back)) == t.u(v)), 'count to timestamp to count is the identity')
            t.cover_any(fin, True, 'reached')
            for args in ([NULL, o], [a, NULL]):
                for f in t.call(st, m, 'time_%s_to_timespec' % nm, args):
                    t.prove(f, t.s_(f.ret) < 0, 'missing argument rejected'); t.prove(f, t.unchanged(st, f, o), 'nothing written')
    mk()
def tval(t, st, lo=-(1 << 61), hi=1 << 61):
    s = t.sym(st, 64, 'tv_sec', True); u = t.sym(st, 64, 'tv_usec', True)
    st.assume(z3.And(t.s_(s) >= lo, t.s_(s) <= hi, t.s_(u) >= 0, t.s_(u) < 10**6))
    return t.cells_obj(st, 'tv', 16, {0: s, 8: u}), t.s_(s), t.s_(u)
@task('C09', 'timeval_to_timespec')
def tv_ts(t):
    m = t.mod(SRC); st = t.state(); a, S, U = tval(t, st); o = outspec(t, st)
    t.replay = lambda M, i: ['tv_ts', i['tv_sec'], i['tv_usec']]
    for f in t.call(st, m, 'time_timeval_to_timespec', [a, o]):
        s, n = get(t, f, o)
        t.prove(f, z3.And(t.s_(f.ret) == 0, s == S, n == U * 1000), 'exact')
        t.cover(f, U > 5, 'reached')
    for args in ([NULL, o], [a, NULL]):
        for f in t.call(st, m, 'time_timeval_to_timespec', args):
            t.prove(f, t.s_(f.ret) < 0, 'missing argument rejected'); t.prove(f, t.unchanged(st, f, o), 'nothing written')
@task('C09', 'timeval_to_ms')
def tv_ms(t):
    m = t.mod(SRC); st = t.state(); a, S, U = tval(t, st, 0); o = out64(t, st, 'out', 32)
    st.assume(S * 1000 + U / 1000 < 1 << 32)
    t.replay = lambda M, i: ['tv_ms', i['tv_sec'], i['tv_usec']]
    for f in t.call(st, m, 'time_timeval_to_ms', [a, o]):
        t.prove(f, z3.And(t.s_(f.ret) == 0, t.u(t.cell(f, o)) == S * 1000 + U / 1000), 'truncated count')
        t.cover(f, S > 10**6, 'reached')
    for args in ([NULL, o], [a, NULL]):
        for f in t.call(st, m, 'time_timeval_to_ms', args):
            t.prove(f, t.s_(f.ret) < 0, 'missing argument rejected'); t.prove(f, t.unchanged(st, f, o), 'nothing written')

# ---------------------------------------------------------------- C10
LIM = 1 << 43
def clock(E, st, a):
    """clock_gettime: any normalised non-negative reading, or failure"""
    f = st.copy(); e = fresh_errno(E, f); f.g.setdefault('clk_fail', []); f.g['clk_fail'] = f.g['clk_fail'] + [e]
    s = E.A.fresh(64, 'clk_sec', st, True); n = E.A.fresh(64, 'clk_nsec', st, True)
    st.assume(z3.And(E.A.s(s) >= 0, E.A.s(s) < LIM, E.A.s(n) >= 0, E.A.s(n) < G))
    E.store(st, a[1], s); E.store(st, Ptr(a[1].blk, E.oadd(a[1].off, 8)), n)
    st.g['clk'] = st.g.get('clk', []) + [(a[0].c, E.A.s(s) * G + E.A.s(n))]
    return [(f, const(32, -1)), (st, const(32, 0))]
ASM_CLK = 'clock_gettime returns a normalised reading with 0 <= tv_sec < 2^43, or -1 with errno set (1..4095)'
def readings(t, f):
    """(m1, rt, m2) in us"""
    ck = f.g.get('clk', [])
    t.prove(f, [c[0] for c in ck] == [1, 0, 1], 'real time is read between two monotonic readings')
    if [c[0] for c in ck] != [1, 0, 1]: return None
    return [c[1] / 1000 for c in ck]
@task('C10', 'monotonic_to_realtime_us')
def m2r(t):
    m = t.mod(SRC); st = t.state(); t.E.handlers['clock_gettime'] = clock; t.assumptions.append(ASM_CLK)
    mt = t.sym(st, 64, 'mt_us'); o = out64(t, st)
    fin = t.call(st, m, 'time_monotonic_to_realtime_us', [mt, o])
    for f in fin:
        r = t.s_(f.ret)
        if f.g.get('clk_fail'):
            t.prove(f, r == -t.u(f.g['clk_fail'][0]), 'clock failure is reported'); t.prove(f, t.unchanged(st, f, o), 'no result on failure')
            continue
        ck = readings(t, f)
        if ck is None: continue
        m1, rt, m2 = ck
        t.prove(f, r == 0, 'succeeds')
        t.prove(f, (t.u(t.cell(f, o)) - (t.u(mt) + rt - (m1 + m2 + 1) / 2)) % U64 == 0, 'offset between the real-time reading and the rounded midpoint')
    t.cover_any(fin, lambda f: t.s_(f.ret) == 0, 'success'); t.cover_any(fin, lambda f: t.s_(f.ret) < 0, 'failure')
    for f in t.call(st, m, 'time_monotonic_to_realtime_us', [mt, NULL]): t.prove(f, t.s_(f.ret) < 0, 'missing argument rejected')
@task('C10', 'monotonic_to_realtime_ms')
def m2rms(t):
    m = t.mod(SRC); st = t.state(); t.E.handlers['clock_gettime'] = clock
    mt = t.sym(st, 64, 'mt_ms'); o = out64(t, st)
    st.assume(t.u(mt) * 1000 < U64)
    fin = t.call(st, m, 'time_monotonic_to_realtime_ms', [mt, o])
    for f in fin:
        r = t.s_(f.ret)
        if f.g.get('clk_fail'):
            t.prove(f, r == -t.u(f.g['clk_fail'][0]), 'clock failure is reported'); t.prove(f, t.unchanged(st, f, o), 'no result on failure')
            continue
        ck = readings(t, f)
        if ck is None: continue
        m1, rt, m2 = ck
        us = t.u(mt) * 1000 + rt - (m1 + m2 + 1) / 2
        t.prove(f, r == 0, 'succeeds')
        t.prove(f, z3.Implies(z3.And(us >= 0, us + 500 < U64), t.u(t.cell(f, o)) == (us + 500) / 1000), 'microsecond result rounded to nearest')
    t.cover_any(fin, lambda f: t.s_(f.ret) == 0, 'success')
    for f in t.call(st, m, 'time_monotonic_to_realtime_ms', [mt, NULL]): t.prove(f, t.s_(f.ret) < 0, 'missing argument rejected')
@task('C10', 'get_clocks')
def getclk(t):
    m = t.mod(SRC); t.E.handlers['clock_gettime'] = clock
    for fn, id in (('time_get_monotonic', 1), ('time_get_realtime', 0)):
        st = t.state(); o = outspec(t, st)
        fin = t.call(st, m, fn, [o])
        for f in fin:
            r = t.s_(f.ret)
            if f.g.get('clk_fail'): t.prove(f, r == -t.u(f.g['clk_fail'][0]), fn + ': failure is reported'); continue
            ck = f.g.get('clk', [])
            t.prove(f, len(ck) == 1 and ck[0][0] == id, fn + ': reads the right clock')
            s, n = get(t, f, o)
            if ck: t.prove(f, z3.And(r == 0, s * G + n == ck[0][1]), fn + ': stores the reading')
@task('C10', 'diff_now')
def diffnow(t):
    m = t.mod(SRC); t.E.handlers['clock_gettime'] = clock
    st = t.state(); a, A, _, _ = tspec(t, st, 'value'); o = outspec(t, st)
    for f in t.call(st, m, 'time_timespec_diff_now', [a, o]):
        r = t.s_(f.ret)
        if f.g.get('clk_fail'): t.prove(f, z3.And(r == -t.u(f.g['clk_fail'][0])), 'failure is reported'); t.prove(f, t.unchanged(st, f, o), 'no result on failure'); continue
        ck = f.g['clk']; s, n = get(t, f, o)
        t.prove(f, len(ck) == 1 and ck[0][0] == 1, 'reads the monotonic clock once')
        t.prove(f, (r == 0) == (ck[0][1] >= A), 'rejected when the instant is in the future')
        t.prove(f, z3.Implies(r == 0, z3.And(s * G + n == ck[0][1] - A, normal(n))), 'elapsed time is exact')

# ---------------------------------------------------------------- C33 sleep
@task('C33', 'msleep')
def msleep(t):
    def nanosleep(E, st, a):
        st.g['slept'] = st.g.get('slept', []) + [(E.load(st, a[0], 64), E.load(st, Ptr(a[0].blk, E.oadd(a[0].off, 8)), 64))]
        f = st.copy(); e = fresh_errno(E, f); f.g['sl_err'] = e
        return [(f, const(32, -1)), (st, const(32, 0))]
    m = t.mod(SRC); st = t.state(); t.E.handlers['nanosleep'] = nanosleep
    ms = t.sym(st, 32, 'ms')
    t.replay = lambda M, i: ['msleep', i['ms']]
    fin = t.call(st, m, 'time_msleep', [ms])
    for f in fin:
        sl = f.g.get('slept', [])
        t.prove(f, len(sl) >= 1, 'sleeps')
        if sl:
            s, n = t.s_(sl[0][0]), t.s_(sl[0][1])
            t.prove(f, s * G + n == t.u(ms) * 10**6, 'requests exactly the duration'); t.prove(f, normal(n), 'request is normalised')
        r = t.s_(f.ret)
        if 'sl_err' in f.g: t.prove(f, r == -t.u(f.g['sl_err']), 'failure is reported')
        else: t.prove(f, r == 0, 'success is reported')
    t.cover_any(fin, lambda f: t.s_(f.ret) == 0, 'success')
