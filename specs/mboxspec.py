"""C20 (src/mbox.c), C21, C22 and the blocking pushes of C33 (src/dynmbox.c, src/mbox.c)"""
from lvc.task import *
from lvc import ext
from lvc.ext import EINTR, EINVAL, EAGAIN, ETIMEDOUT, EPIPE
from . import posix as X
SRC = 'src/dynmbox.c'
N = 65536; HDR = 4; MAXMSG = N - HDR
LAYOUT = '{[2 x i32], i64, ptr, i64, i64, i64, %union.pthread_mutex_t, %union.pthread_cond_t}'
O_MAX, O_MEM, O_W, O_R, O_U, O_LOCK, O_COND = 8, 16, 24, 32, 40, 48, 88
I = z3.IntVal
wrap = lambda a: z3.If(a >= N, a - N, a)
F = lambda n: z3.Function(n, z3.IntSort(), z3.IntSort())

class Box:
    """a dynamic mailbox holding any history: c messages, message j starts at logical byte start(j), has
    len(j) bytes C(j, k); logical byte i is ring byte (read + i) mod N"""
    def __init__(s, t, st, m, tag=''):
        if str(m.types.get('struct.dynmbox')) != LAYOUT: raise Unsupported('struct dynmbox changed: %s' % m.types.get('struct.dynmbox'))
        s.t = t; E = t.E
        s.p = t.struct_obj(st, m, 'struct.dynmbox', 'box', kind='heap')
        s.mem = E.new_obj(st, 'ring', N, 'heap', init='fresh')
        t.setcell(st, s.p, O_MEM, s.mem)
        s.max = t.sym(st, 64, 'max_msg_size'); s.r = t.sym(st, 64, 'read_idx'); s.u = t.sym(st, 64, 'used')
        s.M, s.R, s.U = t.u(s.max), t.u(s.r), t.u(s.u)
        st.assume(z3.And(s.M <= MAXMSG, s.R < N, s.U <= N))
        s.max = INT.mku(64, s.M, 0, MAXMSG); s.r = INT.mku(64, s.R, 0, N - 1); s.u = INT.mku(64, s.U, 0, N)
        s.w = INT.mku(64, wrap(s.R + s.U), 0, N - 1)
        for o, v in ((O_MAX, s.max), (O_R, s.r), (O_W, s.w), (O_U, s.u)): t.setcell(st, s.p, o, v)
        s.start, s.len = F('start'), F('len'); s.C = z3.Function('C', z3.IntSort(), z3.IntSort(), z3.IntSort())
        s.c = z3.Int('count'); st.assume(z3.And(s.c >= 0, s.start(0) == 0, s.start(s.c) == s.U)); t.inputs['count'] = s.c
        st.g['count'] = s.c; st.g['bytes'] = s.c        # invariant: one notification byte per message
        st.g['held'] = False
        s.pre = st.copy()
    def idx(s, f): return tuple(s.t.u(s.t.rd(f, s.p, 64, o)) for o in (O_R, O_W, O_U))
    def log(s, f, i):
        R, W, U = s.idx(f); return s.t.u(s.t.rd(f, Ptr(s.mem.blk, wrap(R + i)), 8))
    def wf(s, st, j, k=None, q=None):
        """message j of the former history"""
        ok = z3.And(j >= 0, j < s.c); S, L = s.start(j), s.len(j)
        st.assume(z3.Implies(ok, z3.And(L >= 0, L <= s.M, S >= 0, s.start(j + 1) == S + HDR + L, S + HDR + L <= s.U)))
        lb = [s.log(st, S + x) for x in range(4)]
        st.assume(z3.Implies(ok, sum(lb[x] * (1 << 8 * x) for x in range(4)) == L))
        if k is not None: st.assume(z3.Implies(z3.And(ok, k >= 0, k < L), s.log(st, S + HDR + k) == s.C(j, k)))
    def well(s, f, nm=''):
        R, W, U = s.idx(f); t = s.t
        t.prove(f, z3.And(R < N, W < N, U <= N, W == wrap(R + U)), nm + 'ring indices stay consistent')
        t.prove(f, t.u(t.rd(f, s.p, 64, O_MAX)) == s.M, nm + 'the maximum size does not change')
    def holds(s, f, c, start, ln, C, j, k, nm):
        """state f holds the history (c, start, ln, C)"""
        t = s.t; ok = z3.And(j >= 0, j < c); R, W, U = s.idx(f); S, L = start(j), ln(j)
        t.prove(f, z3.And(start(I(0)) == 0, start(c) == U), nm + 'used space is header plus payload of the queued messages')
        t.prove(f, z3.Implies(ok, z3.And(L >= 0, L <= s.M, start(j + 1) == S + HDR + L)), nm + 'sizes of the queued messages')
        t.prove(f, z3.Implies(ok, sum(s.log(f, S + x) * (1 << 8 * x) for x in range(4)) == L), nm + 'the size of each queued message')
        t.prove(f, z3.Implies(z3.And(ok, k >= 0, k < L), s.log(f, S + HDR + k) == C(j, k)), nm + 'the content of each queued message')
    def same(s, f, nm):
        """nothing changed"""
        t = s.t; i = z3.Int('any')
        a, b = s.idx(s.pre), s.idx(f)
        t.prove(f, z3.And(*[x == y for x, y in zip(a, b)]), nm + ': indices unchanged')
        t.prove(f, z3.Implies(z3.And(i >= 0, i < s.U), s.log(f, i) == s.log(s.pre, i)), nm + ': queued bytes unchanged')
        t.prove(f, z3.And(f.g['count'] == s.c, f.g['bytes'] == s.c), nm + ': notifications unchanged')

def threads(t, st, B, wr_fail=False):
    """mutex, condition and notification pipe by assumed contracts over ghost state: held, number of queued
    messages (count, updated by the contract when the ring changes) and notification bytes"""
    E = t.E; box = B.p.blk; c0 = [0]
    def islock(E, s, p, off, what):
        E.oblige(s, isinstance(p, Ptr) and p.blk == box and p.off == off, 'lock-protocol', what + ' of this box')
    def lock(E, s, a):
        islock(E, s, a[0], O_LOCK, 'lock'); E.oblige(s, not s.g['held'], 'lock-protocol', 'lock is not taken twice')
        s.g['held'] = True; s.g['locks'] = s.g.get('locks', 0) + 1
        E.oblige(s, s.g['locks'] == 1, 'lock-protocol', 'one critical section per operation')
        return const(32, 0)
    def unlock(E, s, a):
        islock(E, s, a[0], O_LOCK, 'unlock'); E.oblige(s, s.g['held'], 'lock-protocol', 'only the holder releases the lock')
        s.g['held'] = False
        B.at_release(s)
        return const(32, 0)
    def signal(E, s, a):
        islock(E, s, a[0], O_COND, 'signal'); s.g['woken'] = True; return const(32, 0)
    fd = [E.A.u(t.rd(st, Ptr(box, 4 * k), 32)) for k in (0, 1)]
    def write(E, s, a):
        E.oblige(s, t.u(a[0]) == fd[1], 'descriptor', 'the notification goes to the write end')
        E.oblige(s, a[2].c == 1, 'post', 'one notification byte is written'); E.chk_access(s, a[1], 1, 'load')
        E.oblige(s, s.g['held'], 'lock-protocol', 'notification bytes change only with the lock held')
        s.g['bytes'] = z3.simplify(s.g['bytes'] + 1); return const(64, 1)
    def read(E, s, a):
        E.oblige(s, t.u(a[0]) == fd[0], 'descriptor', 'the notification is taken from the read end')
        E.oblige(s, a[2].c == 1, 'post', 'one notification byte is taken'); E.chk_access(s, a[1], 1, 'store')
        E.oblige(s, s.g['held'], 'lock-protocol', 'notification bytes change only with the lock held')
        out = []; none = s.copy(); none.assume(s.g['bytes'] <= 0)        # nothing to read: the end is non-blocking
        if E.feasible(none, z3.BoolVal(True)): ext.set_errno(E, none, 11); out.append((none, const(64, -1)))
        s.assume(s.g['bytes'] >= 1)
        if E.feasible(s, z3.BoolVal(True)): E.store_nochk(s, a[1], const(8, 0x55), 1); s.g['bytes'] = z3.simplify(s.g['bytes'] - 1); out.append((s, const(64, 1)))
        return out
    E.handlers.update(pthread_mutex_lock=lock, pthread_mutex_unlock=unlock, pthread_cond_signal=signal, pthread_cond_broadcast=signal, write=write, read=read)
    def acc(E, s, p, n, what):
        if s.g['held'] or not isinstance(p, Ptr): return
        if p.blk == B.mem.blk: E.oblige(s, False, 'lock-protocol', 'the ring is used only with the lock held')
        if p.blk == box and isinstance(p.off, int) and p.off + (n if isinstance(n, int) else 1) > O_MEM and p.off < O_LOCK: E.oblige(s, False, 'lock-protocol', 'ring state is used only with the lock held')
    E.acc_hook = acc

def push_setup(t):
    m = t.mod(SRC); st = t.state(); B = Box(t, st, m); n = t.sym(st, 64, 'msg_size'); L = t.u(n)
    msg = t.bytes_obj(st, 'msg', L); st.mem[msg.blk].ro = True; rdm = st.mem[msg.blk].regs[0].base
    j, k = z3.Ints('j k'); B.wf(st, j, k); B.wf(st, B.c - 1); st.assume(L <= 1 << 62)
    B.pre = st.copy(); threads(t, st, B); t.E.opts['byte_allocas'] = True
    t.E.opts['policy'] = 'unroll'; t.E.opts['unroll'] = 4
    return m, st, B, n, L, msg, rdm, j, k
@task(('C21', 'C22'), 'push', 'int', budget=400)
def push(t):
    m, st, B, n, L, msg, rdm, j, k = push_setup(t)
    t.replay = lambda M, i: ['push', i['read_idx'], i['used'], i['msg_size'], i['max_msg_size']]
    def rel(s):
        R, W, U = B.idx(s)
        # the ring holds one more message exactly when its used space grew
        cnt = z3.If(U > B.U, B.c + 1, B.c); s.g['count'] = cnt
        t.E.oblige(s, s.g['bytes'] == cnt, 'lock-invariant', 'one notification byte per queued message whenever the lock is released')
    B.at_release = rel
    fin = t.call(st, m, 'dynmbox_push', [B.p, msg, n])
    fits = B.U + HDR + L <= N
    for f in fin:
        r = t.ret(f)
        t.prove(f, not f.g['held'], 'the lock is released')
        t.prove(f, (r == 0) == z3.And(L <= B.M, fits), 'accepted exactly when it is small enough and fits')
        t.prove(f, z3.Implies(L > B.M, r == -EINVAL), 'too large is invalid'); t.prove(f, z3.Implies(z3.And(L <= B.M, z3.Not(fits)), r == -EAGAIN), 'full is reported as would-block')
        B.well(f)
        if f.g.get('locks') and t.E.valid(f.pc, r == 0)[0] == 'proved':
            R, W, U = B.idx(f)
            t.prove(f, z3.And(R == B.R, U == B.U + HDR + L), 'the message is appended')
            c = B.c + 1
            B.holds(f, c, lambda x: z3.If(x <= B.c, B.start(x), B.U + HDR + L), lambda x: z3.If(x < B.c, B.len(x), L), lambda x, y: z3.If(x < B.c, B.C(x, y), t.u(rdm(y))), j, k, '')
            t.prove(f, f.g['bytes'] == B.c + 1, 'readable')
        else: t.prove(f, r < 0, 'refused'); B.same(f, 'refused')
    t.cover_any(fin, lambda f: t.ret(f) == 0, 'accepted'); t.cover_any(fin, lambda f: t.ret(f) == -EAGAIN, 'full')
    t.cover_any(fin, lambda f: z3.And(t.ret(f) == 0, B.idx(f)[1] < t.u(B.w), B.idx(f)[1] > 10), 'wrapped')
@task(('C21', 'C22'), 'push_args', 'int')
def push_args(t):
    for which in (0, 1):
        m, st, B, n, L, msg, rdm, j, k = push_setup(t)
        t.replay = lambda M, i: ['args', '0']
        B.at_release = lambda s: t.E.oblige(s, z3.Implies(B.idx(s)[2] == B.U, s.g['bytes'] == B.c), 'lock-invariant', 'nothing notified')
        for fn, args in (('dynmbox_push', []), ('dynmbox_push_block', [const(32, 0)])):
            t.E.handlers['pthread_cond_wait'] = lambda E, s, a: None
            if which: st.assume(L > 0)
            if fn == 'dynmbox_push_block':
                st.assume(z3.BoolVal(True))
            for f in t.call(st.copy(), m, fn, [B.p if which else NULL, NULL if which else msg, n] + args):
                t.prove(f, t.ret(f) == -EINVAL, fn + ': a missing %s is refused' % ('message' if which else 'box')); B.same(f, fn + ' refused'); t.prove(f, not f.g['held'], 'lock released')
@task(('C21', 'C22'), 'peek', 'int', budget=400)
def peek(t):
    m = t.mod(SRC); st = t.state(); B = Box(t, st, m)
    out = t.bytes_obj(st, 'out', B.M); j, k, e = z3.Ints('j k e')
    # message j of the remaining history is message j + 1 of the former one
    B.wf(st, j + 1, k); B.wf(st, I(0), e); B.pre = st.copy(); threads(t, st, B); t.E.opts['byte_allocas'] = True
    st.assume(z3.Implies(B.c > 0, B.len(0) <= B.M)); st.assume(z3.Implies(z3.And(j >= 0, j + 1 < B.c), B.start(j + 1) >= B.start(1)))
    t.E.opts['policy'] = 'unroll'; t.E.opts['unroll'] = 4
    t.replay = lambda M, i: ['peek', i['read_idx'], i['used'], i['count'], i['max_msg_size']]
    def rel(s):
        R, W, U = B.idx(s); cnt = z3.If(U < B.U, B.c - 1, B.c)
        t.E.oblige(s, s.g['bytes'] == cnt, 'lock-invariant', 'one notification byte per queued message whenever the lock is released')
        s.g['count'] = cnt
    B.at_release = rel
    rd = lambda s: t.u(t.rd(s, Ptr(out.blk, e), 8))
    st.assume(z3.And(e >= 0, e < z3.If(B.M > 0, B.M, 1)))
    st0 = st.copy()
    fin = t.call(st, m, 'dynmbox_peek', [B.p, out])
    for f in fin:
        r = t.ret(f)
        t.prove(f, not f.g['held'], 'the lock is released'); B.well(f)
        t.prove(f, (r >= 0) == (B.c > 0), 'a message is returned exactly when one is queued')
        if t.E.valid(f.pc, r >= 0)[0] == 'proved':
            t.prove(f, r == B.len(0), 'the size of the oldest message is returned')
            t.prove(f, z3.Implies(z3.And(B.M > 0, e < r), rd(f) == B.C(I(0), e)), 'the content of the oldest message is returned')
            t.prove(f, z3.Implies(z3.And(B.M > 0, e >= r), rd(f) == rd(st0)), 'nothing is written after it')
            d = B.start(1)
            B.holds(f, B.c - 1, lambda x: B.start(x + 1) - d, lambda x: B.len(x + 1), lambda x, y: B.C(x + 1, y), j, k, 'rest: ')
            t.prove(f, z3.And(B.idx(f)[2] == B.U - HDR - B.len(0)), 'its space is released')
            t.prove(f, bool(f.g.get('woken')), 'a waiting pusher is woken'); t.prove(f, f.g['bytes'] == B.c - 1, 'its notification is taken')
        else:
            t.prove(f, r == -EAGAIN, 'an empty box is reported as would-block'); B.same(f, 'empty')
            t.prove(f, z3.Implies(B.M > 0, rd(f) == rd(st0)), 'nothing is written')
    t.cover_any(fin, lambda f: t.ret(f) > 3, 'message'); t.cover_any(fin, lambda f: t.ret(f) == -EAGAIN, 'empty'); t.cover_any(fin, lambda f: z3.And(t.ret(f) > 3, B.idx(f)[0] > 5, B.idx(f)[0] < B.R), 'wrapped')
    for args in ([NULL, out], [B.p, NULL]):
        s2 = st0.copy()
        for f in t.call(s2, m, 'dynmbox_peek', args): t.prove(f, t.ret(f) == -EINVAL, 'missing argument refused'); B.same(f, 'missing argument')

@task(('C21', 'C22', 'C33'), 'push_block', 'int', budget=400)
def push_block(t):
    """while waiting, other threads change the ring in any way that keeps the invariant"""
    m, st, B, n, L, msg, rdm, j, k = push_setup(t); E = t.E
    tm = t.sym(st, 32, 'timeout_ms'); T = t.u(tm); m2 = t.mod('src/timetools.c')
    t.replay = lambda M, i: ['block', i['read_idx'], i['used'], i['msg_size'], i['max_msg_size'], i['timeout_ms']]
    if 'do_push' not in m.funcs or len(m.funcs['do_push'].params) != 3: raise Unsupported('do_push is not there: the contract boundary moved')
    st.g['waits'] = z3.IntVal(0); st.g['timed'] = z3.BoolVal(False); st.g['pushed'] = z3.IntVal(0)
    def now(E, s, a):
        sec, us = E.A.fresh(64, 'now_sec', s), E.A.fresh(64, 'now_usec', s)
        s.assume(z3.And(t.u(sec) < 1 << 40, t.u(us) < 10**6)); sec, us = INT.mks(64, t.u(sec), 0, 1 << 40), INT.mks(64, t.u(us), 0, 10**6 - 1)
        f = s.copy(); er = ext.fresh_errno(E, f); f.g['now_err'] = t.u(er)
        E.store(s, a[0], sec, 8); E.store(s, Ptr(a[0].blk, E.oadd(a[0].off, 8)), us, 8); s.g['now'] = t.s_(sec) * 10**9 + t.s_(us) * 1000
        return [(s, const(32, 0)), (f, const(32, -1))]
    def clk(E, s, a):
        # a deadline from clock_gettime must be of the clock the condition uses (realtime by default)
        E.oblige(s, t.u(a[0]) == 0, 'post', 'deadline on the clock of the condition')
        sec, ns = E.A.fresh(64, 'now_sec', s), E.A.fresh(64, 'now_nsec', s); s.assume(z3.And(t.u(sec) < 1 << 40, t.u(ns) < 10**9)); sec, ns = INT.mks(64, t.u(sec), 0, 1 << 40), INT.mks(64, t.u(ns), 0, 10**9 - 1)
        f = s.copy(); er = ext.fresh_errno(E, f); f.g['now_err'] = t.u(er)
        E.store(s, a[1], sec, 8); E.store(s, Ptr(a[1].blk, E.oadd(a[1].off, 8)), ns, 8); s.g['now'] = t.s_(sec) * 10**9 + t.s_(ns)
        return [(s, const(32, 0)), (f, const(32, -1))]
    E.handlers.update(gettimeofday=now, clock_gettime=clk)
    for fn in ('time_timeval_to_timespec', 'time_timespec_add_us', 'time_timespec_add_ns'):
        E.handlers[fn] = (lambda fn: lambda E, s, a: [(x, x.ret) for x in E.call(s, m2, fn, a)])(fn)
    def others(s, a):
        """the lock is released, other threads run, the lock is taken again"""
        E.oblige(s, s.g['held'], 'lock-protocol', 'waiting with the lock held')
        E.oblige(s, isinstance(a[0], Ptr) and a[0].blk == B.p.blk and a[0].off == O_COND and isinstance(a[1], Ptr) and a[1].blk == B.p.blk and a[1].off == O_LOCK, 'lock-protocol', 'waiting on the condition and lock of this box')
        E.oblige(s, z3.And(s.g['bytes'] == s.g['count'], s.g['pushed'] == 0), 'lock-invariant', 'one notification byte per queued message when the lock is released to wait')
        R, U, c = (z3.FreshConst(z3.IntSort(), x) for x in ('R', 'U', 'c')); s.assume(z3.And(R >= 0, R < N, U >= 0, U <= N, c >= 0))
        for o, v in ((O_R, INT.mku(64, R, 0, N - 1)), (O_U, INT.mku(64, U, 0, N)), (O_W, INT.mku(64, wrap(R + U), 0, N - 1))): t.setcell(s, B.p, o, v)
        s.g['count'] = c; s.g['bytes'] = c; s.g['waits'] = s.g['waits'] + 1
    def wait(E, s, a):
        E.oblige(s, T == 0, 'post', 'an endless wait only without a timeout'); others(s, a); return const(32, 0)
    def twait(E, s, a):
        E.oblige(s, T > 0, 'post', 'a wait that gives up only with a timeout')
        sec, ns = t.s_(E.load(s, a[2], 64)), t.s_(E.load(s, Ptr(a[2].blk, E.oadd(a[2].off, 8)), 64))
        E.oblige(s, z3.And(ns >= 0, ns < 10**9), 'post', 'the deadline is a normalised time')
        E.oblige(s, sec * 10**9 + ns == s.g['now'] + T * 10**6 if 'now' in s.g else False, 'post', 'the deadline is the time of the call plus the timeout')
        others(s, a); f = s.copy(); f.g['timed'] = z3.BoolVal(True)
        return [(s, const(32, 0)), (f, const(32, ETIMEDOUT))]
    E.handlers.update(pthread_cond_wait=wait, pthread_cond_timedwait=twait)
    def dopush(E, s, a):
        """contract of do_push, proved inside push above"""
        E.oblige(s, s.g['held'], 'lock-protocol', 'pushed with the lock held')
        E.oblige(s, isinstance(a[0], Ptr) and a[0].blk == B.p.blk and isinstance(a[1], Ptr) and a[1].blk == msg.blk and a[1].off == 0, 'post', 'the given message is pushed'); E.oblige(s, t.u(a[2]) == L, 'post', 'with its size')
        R, W, U = B.idx(s); f = s.copy(); s.assume(U + HDR + L <= N); f.assume(z3.Not(U + HDR + L <= N))
        for o, v in ((O_U, INT.mku(64, U + HDR + L, 0, N)), (O_W, INT.mku(64, wrap(wrap(R + U) + HDR + L), 0, N - 1))): t.setcell(s, B.p, o, v)
        s.g['pushed'] = s.g['pushed'] + 1; s.g['count'] = s.g['count'] + 1
        return [(s, const(32, 0)), (f, const(32, -EAGAIN))]
    E.handlers['do_push'] = dopush
    def rel(s): E.oblige(s, s.g['bytes'] == s.g['count'], 'lock-invariant', 'one notification byte per queued message whenever the lock is released')
    B.at_release = rel
    def inv(ctx):
        s = ctx.st; R, W, U = B.idx(s)
        o = [('ring', z3.And(R >= 0, R < N, U >= 0, U <= N, W == wrap(R + U))), ('bytes', s.g['bytes'] == s.g['count']), ('not pushed', s.g['pushed'] == 0), ('not timed out', z3.Not(s.g['timed']))]
        return o
    E.inv = inv; E.opts['policy'] = 'cut'
    fin = t.call(st, m, 'dynmbox_push_block', [B.p, msg, n, tm])
    for f in fin:
        r = t.ret(f)
        t.prove(f, not f.g['held'], 'the lock is released')
        t.prove(f, (r == 0) == (f.g['pushed'] == 1), 'success exactly when the message is queued once'); t.prove(f, f.g['pushed'] <= 1, 'never queued twice')
        if f.g.get('locks'):
            t.prove(f, (r == -ETIMEDOUT) == f.g['timed'], 'a timeout is reported exactly when the wait timed out')
            t.prove(f, z3.Or(r == 0, r == -ETIMEDOUT), 'the message is queued or the timeout is reported')
            t.prove(f, z3.Implies(T == 0, r == 0), 'without a timeout it never gives up')
        elif 'now_err' in f.g: t.prove(f, z3.And(r == -f.g['now_err'], T > 0), 'a clock failure is reported')
        else: t.prove(f, z3.And(r == -EINVAL, L > B.M), 'too large is invalid')
    t.cover_any(fin, lambda f: z3.And(t.ret(f) == 0, f.g['waits'] > 0), 'queued after waiting'); t.cover_any(fin, lambda f: t.ret(f) == -ETIMEDOUT, 'timed out')

@task(('C21', 'C22'), 'lifecycle', 'int')
def life(t):
    m = t.mod(SRC); E = t.E
    pipe_handlers(t)
    E.handlers.update(pthread_mutex_init=lambda E, s, a: note(s, 'mutex', a), pthread_cond_init=lambda E, s, a: note(s, 'cond', a),
                      pthread_cond_destroy=lambda E, s, a: note(s, 'cond-', a), pthread_mutex_destroy=lambda E, s, a: note(s, 'mutex-', a))
    def note(s, k, a): s.g[k] = s.g.get(k, 0) + 1; return const(32, 0)
    st = t.state(); X.init(st); n = t.sym(st, 64, 'max_msg_size'); st.g['flags'] = {}
    t.replay = lambda M, i: ['life', i['max_msg_size']]
    fin = t.call(st, m, 'dynmbox_new', [n])
    for f in fin:
        if isnull(f.ret):
            X.noleak(t, f, 'creation refused: ')
            t.prove(f, z3.Or(t.u(n) > MAXMSG, z3.BoolVal(bool(f.g.get('alloc_failed') or any(not e['ok'] for e in X.evs(f, 'pipe'))))), 'refused only for its size or a failing call')
            continue
        t.prove(f, t.u(n) <= MAXMSG, 'the size limit is enforced')
        b = f.ret; rd = lambda o: t.u(t.rd(f, b, 64, o))
        t.prove(f, z3.And(rd(O_MAX) == t.u(n), rd(O_W) == 0, rd(O_R) == 0, rd(O_U) == 0), 'starts empty')
        mem = f.mem[b.blk].cells[O_MEM]
        t.prove(f, isinstance(mem, Ptr) and f.mem[mem.blk].size == N and f.mem[mem.blk].alive and mem.off == 0, 'the ring has its full size')
        both_flags(t, f, b)
        t.prove(f, f.g.get('mutex') == 1 and f.g.get('cond') == 1, 'lock and condition initialised')
        g = f.copy(); v = t.call(g, m, 'dynmbox_get_max_size', [b])
        for x in v: t.prove(x, t.ret(x) == t.u(n), 'maximum size as created')
        for x in t.call(f.copy(), m, 'dynmbox_get_read_fd', [b]): t.prove(x, t.u(x.ret) == t.u(f.g['pipe'][0]), 'the read end is given out')
        for x in t.call(f.copy(), m, 'dynmbox_destroy', [b]): X.noleak(t, x, 'destroy: '); t.prove(x, x.g.get('mutex-') == 1 and x.g.get('cond-') == 1, 'lock and condition released')
    t.cover_any([f for f in fin if not isnull(f.ret)], True, 'created'); t.cover_any([f for f in fin if isnull(f.ret)], lambda f: t.u(n) <= MAXMSG, 'creation failure')
    st = t.state(); X.init(st)
    for f in t.call(st.copy(), m, 'dynmbox_get_read_fd', [NULL]): t.prove(f, t.ret(f) == -1, 'no box, no descriptor')
    for f in t.call(st.copy(), m, 'dynmbox_get_max_size', [NULL]): t.prove(f, t.ret(f) == -EINVAL, 'no box, no size')
    for f in t.call(st.copy(), m, 'dynmbox_destroy', [NULL]): X.noleak(t, f)
def pipe_handlers(t):
    E = t.E
    def mkpipe(E, s, p, fl):
        f, e = X.fail(E, s); X.ev(f, 'pipe', ok=False, err=e)
        v = [X.newfd(E, s), X.newfd(E, s)]
        for k in (0, 1): E.store(s, Ptr(p.blk, E.oadd(p.off, 4 * k)), v[k], 4)
        s.g['pipe'] = tuple(v); s.g['flags'] = {k: set(fl) for k in (0, 1)}; X.ev(s, 'pipe', ok=True)
        return [(s, const(32, 0)), (f, const(32, -1))]
    def pipe(E, s, a): return mkpipe(E, s, a[0], ())
    def pipe2(E, s, a):
        fl = a[1].c
        if fl is None: raise Unsupported('pipe2 flags')
        return mkpipe(E, s, a[0], [x for x, b in (('cloexec', X.O_CLOEXEC), ('nonblock', X.O_NONBLOCK)) if fl & b])
    def end(E, s, v):
        for k in (0, 1):
            if 'pipe' in s.g and E.valid(s.pc, t.u(v) == t.u(s.g['pipe'][k]))[0] == 'proved': return k
        E.oblige(s, False, 'descriptor', 'flags of an own descriptor'); return 0
    # contracts of fd_add_flags and fd_set_close_on_exec (C27); here the kernel accepts
    def addf(E, s, a):
        k = end(E, s, a[0]); d = dict(s.g['flags'])
        if a[1].c is not None and a[1].c & X.O_NONBLOCK: d[k] = d[k] | {'nonblock'}
        s.g['flags'] = d; return const(32, 0)
    def cloex(E, s, a):
        k = end(E, s, a[0]); d = dict(s.g['flags']); d[k] = d[k] | {'cloexec'}; s.g['flags'] = d; return const(32, 0)
    E.handlers.update(pipe=pipe, pipe2=pipe2, fd_add_flags=addf, fd_set_close_on_exec=cloex, close=X.h_close)
def both_flags(t, f, b):
    for k in (0, 1):
        t.prove(f, 'nonblock' in f.g['flags'].get(k, ()), 'descriptor %d is non-blocking' % k); t.prove(f, 'cloexec' in f.g['flags'].get(k, ()), 'descriptor %d is close-on-exec' % k)
        t.prove(f, t.u(t.rd(f, Ptr(b.blk, 4 * k), 32)) == t.u(f.g['pipe'][k]), 'the pipe is kept')

# ------------------------------------------------------------------------ mbox
MSRC = 'src/mbox.c'; PIPE_BUF = 4096
MLAYOUT = '{[2 x i32], i64}'
@task('C20', 'lifecycle', 'int')
def mlife(t):
    m = t.mod(MSRC); pipe_handlers(t); st = t.state(); X.init(st); n = t.sym(st, 64, 'msg_size'); st.g['flags'] = {}; ok = z3.And(t.u(n) > 0, t.u(n) < PIPE_BUF)
    t.replay = lambda M, i: ['mlife', i['msg_size']]
    fin = t.call(st, m, 'mbox_new', [n])
    for f in fin:
        if isnull(f.ret):
            X.noleak(t, f, 'creation refused: ')
            t.prove(f, z3.Or(z3.Not(ok), z3.BoolVal(bool(f.g.get('alloc_failed') or any(not e['ok'] for e in X.evs(f, 'pipe'))))), 'refused only for its size or a failing call'); continue
        b = f.ret; t.prove(f, ok, 'sizes outside 1 to PIPE_BUF-1 are refused')
        if str(m.types.get('struct.mbox')) == MLAYOUT:
            t.prove(f, t.u(t.rd(f, b, 64, 8)) == t.u(n), 'the size is kept'); both_flags(t, f, b)
        else: raise Unsupported('struct mbox changed')
        for x in t.call(f.copy(), m, 'mbox_get_read_fd', [b]): t.prove(x, t.u(x.ret) == t.u(f.g['pipe'][0]), 'the read end is given out')
        for x in t.call(f.copy(), m, 'mbox_destroy', [b]): X.noleak(t, x, 'destroy: ')
    t.cover_any([f for f in fin if not isnull(f.ret)], True, 'created'); t.cover_any([f for f in fin if isnull(f.ret)], lambda f: ok, 'creation failure')
    st = t.state(); X.init(st)
    for f in t.call(st.copy(), m, 'mbox_get_read_fd', [NULL]): t.prove(f, t.ret(f) == -1, 'no box, no descriptor')
    for f in t.call(st.copy(), m, 'mbox_destroy', [NULL]): X.noleak(t, f)
def mbox(t):
    """the pipe is a kernel FIFO by its assumed contract: a write of at most PIPE_BUF bytes to a non-blocking
    pipe is taken whole or not at all; a read returns the oldest bytes"""
    m = t.mod(MSRC); st = t.state(); X.init(st)
    if str(m.types.get('struct.mbox')) != MLAYOUT: raise Unsupported('struct mbox changed')
    b = t.struct_obj(st, m, 'struct.mbox', 'box', kind='heap'); n = t.sym(st, 64, 'msg_size'); L = t.u(n); st.assume(z3.And(L > 0, L < PIPE_BUF)); n = INT.mku(64, L, 1, PIPE_BUF - 1); t.setcell(st, b, 8, n)
    fd = [t.u(t.rd(st, Ptr(b.blk, 4 * k), 32)) for k in (0, 1)]; st.assume(z3.And(fd[0] < 1 << 31, fd[1] < 1 << 31, fd[0] != fd[1]))
    msg = t.bytes_obj(st, 'msg', L); e = z3.Int('e'); st.assume(z3.And(e >= 0, e < L))
    q = z3.Int('queued'); st.assume(q >= 0); t.inputs['queued'] = q; old = z3.Int('oldest_byte')
    st.g['q'] = q; st.g['in'] = z3.IntVal(-1); st.g['err'] = z3.IntVal(0); E = t.E
    rde = lambda s: t.u(t.rd(s, Ptr(msg.blk, e), 8))
    H = F('head')
    def write(E, s, a):
        E.oblige(s, t.u(a[0]) == fd[1], 'descriptor', 'written to the write end'); E.oblige(s, t.u(a[2]) == L, 'post', 'the whole message is written at once')
        if not (isinstance(a[1], Ptr) and a[1].blk == msg.blk and a[1].off == 0): E.oblige(s, False, 'post', 'the given message is written'); s.dead = True; return []
        E.chk_access(s, a[1], L, 'load')
        f = s.copy(); er = ext.fresh_errno(E, f); f.g['err'] = t.u(er)
        s.g['in'] = rde(s); s.g['q'] = s.g['q'] + 1; s.g['err'] = z3.IntVal(0)
        return [(s, INT.mks(64, L, 1, PIPE_BUF)), (f, const(64, -1))]
    def read(E, s, a):
        E.oblige(s, t.u(a[0]) == fd[0], 'descriptor', 'read from the read end'); E.oblige(s, t.u(a[2]) == L, 'post', 'exactly one message is read')
        if not (isinstance(a[1], Ptr) and a[1].blk == msg.blk and a[1].off == 0): E.oblige(s, False, 'post', 'read into the given message'); s.dead = True; return []
        E.chk_access(s, a[1], L, 'store')
        f = s.copy(); er = ext.fresh_errno(E, f); f.g['err'] = t.u(er)
        z = s.copy(); z.g['eof'] = True
        s.assume(s.g['q'] >= 1); f.assume(z3.Or(f.g['q'] == 0, f.g['err'] != EAGAIN))
        def rd(k): E.range_fact(H(E.A.oterm(k)), 8); return INT.mku(8, H(E.A.oterm(k)))
        E.set_range(s, a[1], L, rd); s.g['q'] = s.g['q'] - 1; s.g['err'] = z3.IntVal(0)
        z.assume(z.g['q'] == 0)
        return [(s, INT.mks(64, L, 1, PIPE_BUF)), (f, const(64, -1)), (z, const(64, 0))]
    E.handlers.update(write=write, read=read)
    st.g['polls'] = z3.IntVal(0); st0 = st.copy()
    def inv(ctx):
        s = ctx.st
        return [('no effect yet', z3.And(s.g['q'] == q, s.g['in'] == -1)), ('message untouched', rde(s) == rde(st0)), ('only interrupted so far', z3.Or(ctx.N == 0, s.g['err'] == EINTR, z3.And(s.g['err'] == EAGAIN, z3.Not(s.g['pollerr'])) if 'pollerr' in s.g else False))]
    E.inv = inv; E.opts['policy'] = 'cut'
    return m, st, st0, b, n, L, msg, q, H, e, rde
def pushed(t, f, st0, q, rde, r):
    done = f.g['q'] == q + 1
    t.prove(f, (r == 0) == done, 'success exactly when the message is queued, once')
    t.prove(f, z3.Implies(r == 0, f.g['in'] == rde(st0)), 'the queued bytes are those of the message'); t.prove(f, rde(f) == rde(st0), 'the message is not changed')
    t.prove(f, z3.Implies(r != 0, f.g['q'] == q), 'a refused message leaves no trace')
@task('C20', 'push', 'int')
def mpush(t):
    m, st, st0, b, n, L, msg, q, H, e, rde = mbox(t)
    t.replay = lambda M, i: ['mbox', i['msg_size'], '200']
    fin = t.call(st, m, 'mbox_push', [b, msg])
    for f in fin:
        r = t.ret(f); pushed(t, f, st0, q, rde, r)
        t.prove(f, z3.Implies(r != 0, z3.And(r == -f.g['err'], f.g['err'] != EINTR)), 'an error is the error of the write, interruptions being retried')
    t.cover_any(fin, lambda f: t.ret(f) == 0, 'queued'); t.cover_any(fin, lambda f: t.ret(f) == -EAGAIN, 'full')
    for fn, ex in (('mbox_push', []), ('mbox_push_block', [const(32, 5)]), ('mbox_peek', [])):
        for args in ([NULL, msg], [b, NULL]):
            for f in t.call(st0.copy(), m, fn, args + ex): t.prove(f, z3.And(t.ret(f) == -EINVAL, f.g['q'] == q), fn + ': missing argument refused')
@task('C20', 'peek', 'int')
def mpeek(t):
    m, st, st0, b, n, L, msg, q, H, e, rde = mbox(t)
    t.replay = lambda M, i: ['mbox', i['msg_size'], '200']
    fin = t.call(st, m, 'mbox_peek', [b, msg])
    for f in fin:
        r = t.ret(f)
        t.prove(f, (r == 0) == (f.g['q'] == q - 1), 'success exactly when one message is taken')
        t.prove(f, z3.Implies(r == 0, rde(f) == H(e)), 'the oldest message is returned whole')
        t.prove(f, z3.Implies(r != 0, z3.And(f.g['q'] == q, rde(f) == rde(st0))), 'otherwise nothing is taken and nothing is written')
        if f.g.get('eof'): t.prove(f, r == -EPIPE, 'end of file is reported')
        else: t.prove(f, z3.Implies(r != 0, z3.And(r == -f.g['err'], f.g['err'] != EINTR)), 'an error is the error of the read, interruptions being retried')
    t.cover_any(fin, lambda f: t.ret(f) == 0, 'taken'); t.cover_any(fin, lambda f: t.ret(f) == -EAGAIN, 'empty')
@task(('C20', 'C33'), 'mbox_push_block', 'int')
def mpushb(t):
    m, st, st0, b, n, L, msg, q, H, e, rde = mbox(t); E = t.E
    tm = t.sym(st, 32, 'timeout_ms'); T = t.u(tm)
    t.replay = lambda M, i: ['mblock', i['msg_size'], i['timeout_ms']]
    fd1 = t.u(t.rd(st, Ptr(b.blk, 4), 32)); st.g['poll0'] = z3.BoolVal(False); st.g['pollerr'] = z3.BoolVal(False)
    def poll(E, s, a):
        p = a[0]; E.oblige(s, t.u(a[1]) == 1, 'post', 'one descriptor is polled')
        fdv, evt = E.load(s, p, 32), E.load(s, Ptr(p.blk, E.oadd(p.off, 4)), 16)
        E.oblige(s, z3.And(t.u(fdv) == fd1, t.u(evt) == 4), 'post', 'waiting for the write end to be writable')
        to = t.s_(a[2])
        E.oblige(s, z3.If(T == 0, to < 0, to == T), 'post', 'the wait lasts exactly the timeout; endless without one')
        f = s.copy(); er = ext.fresh_errno(E, f); f.g['err'] = t.u(er); f.g['pollerr'] = z3.BoolVal(True)
        z = s.copy(); z.assume(to >= 0); z.g['poll0'] = z3.BoolVal(True); s.g['err'] = z3.IntVal(0); s.g['pollerr'] = z3.BoolVal(False)
        return [(s, const(32, 1)), (z, const(32, 0)), (f, const(32, -1))]
    E.handlers['poll'] = poll
    inv0 = E.inv
    E.inv = lambda ctx: inv0(ctx) + [('no timeout yet', z3.Not(ctx.st.g['poll0']))]
    fin = t.call(st, m, 'mbox_push_block', [b, msg, tm])
    for f in fin:
        r = t.ret(f); pushed(t, f, st0, q, rde, r)
        t.prove(f, z3.Implies(f.g['poll0'], r == -ETIMEDOUT), 'a timeout is reported')
        t.prove(f, z3.Implies(z3.And(r == -ETIMEDOUT, z3.Not(f.g['poll0'])), f.g['err'] == ETIMEDOUT), 'only a timeout is reported as one')
        t.prove(f, z3.Implies(z3.And(r != 0, z3.Not(f.g['poll0'])), z3.Or(z3.And(r == -f.g['err'], f.g['err'] != EINTR, z3.Or(f.g['pollerr'], f.g['err'] != EAGAIN)), z3.And(r == -EINVAL, T > 2**31 - 1))), 'otherwise the error of the failing call; room taken by another producer is no reason to give up')
        t.prove(f, z3.Implies(T == 0, z3.Not(f.g['poll0'])), 'without a timeout it never gives up')
    t.cover_any(fin, lambda f: t.ret(f) == 0, 'queued'); t.cover_any(fin, lambda f: t.ret(f) == -ETIMEDOUT, 'timed out')
