"""Assumed contracts of the C library (the trusted base).  Each handler is
fn(E, st, args) -> value  or  [(state, value), ...] for several outcomes."""
import z3
from .ir import Unsupported
from .num import V, const, from_bool, boolof, BV, INT
from . import eng
from .eng import Ptr, NULL, FnPtr, isnull, Obj, Region

EINTR, EAGAIN, ENOMEM, EEXIST, EINVAL, ENOENT, EPIPE, EPROTO, ENOSYS, ETIMEDOUT, E2BIG, EILSEQ, EIO, EINPROGRESS, ENOSPC, ENOBUFS = \
    4, 11, 12, 17, 22, 2, 32, 71, 38, 110, 7, 84, 5, 115, 28, 105

def offarg(E, v):
    """size_t argument as offset"""
    if v.c is not None: return v.c
    return INT.u(v) if E.A is INT else BV.t(v)

def h_nop(E, st, a): return None
def h_zero(E, st, a): return const(32, 0)
def h_memcpy(E, st, a):
    E.memcpy(st, a[0], a[1], offarg(E, a[2])); return a[0]
def h_memcpy_strict(E, st, a):
    d, q, n = a[0], a[1], offarg(E, a[2])
    if isinstance(d, Ptr) and isinstance(q, Ptr) and d.blk == q.blk and d.blk not in (None, 'H'):
        A = E.A; x, y = A.oterm(d.off), A.oterm(q.off); N = A.oterm(n)
        if A is INT: ok = z3.Or(x == y, x + N <= y, y + N <= x)
        else: ok = z3.Or(x == y, z3.ULE(x + N, y), z3.ULE(y + N, x))
        E.oblige(st, z3.simplify(ok), 'overlap', 'memcpy between overlapping ranges of %s' % st.mem[d.blk].name)
    return h_memcpy(E, st, a)
def h_memset(E, st, a):
    b = E.A.cast(E, st, 'trunc', a[1], 8) if a[1].bits > 8 else a[1]
    E.memset(st, a[0], b, offarg(E, a[2])); return a[0]

def errno_obj(E, st):
    b = st.g.get('errno_blk')
    if b is None:
        p = E.new_obj(st, 'errno', 4, 'glob')
        st.mem[p.blk].regs = ()
        st.mem[p.blk].cells[0] = E.A.fresh(32, 'errno', st)
        st.g['errno_blk'] = p.blk
        b = p.blk
    return Ptr(b, 0)
def h_errno(E, st, a): return errno_obj(E, st)
def set_errno(E, st, e):
    p = errno_obj(E, st); o = E.wobj(st, p.blk)
    o.cells[0] = const(32, e) if isinstance(e, int) else e
def fresh_errno(E, st, excl=()):
    v = E.A.fresh(32, 'errno', st)
    t = E.A.u(v)
    st.assume(z3.And(t >= 1, t < 4096) if E.A is INT else z3.And(z3.UGE(t, 1), z3.ULT(t, 4096)))
    for x in excl: st.assume(t != x)
    set_errno(E, st, v)
    return v
def get_errno(E, st):
    p = errno_obj(E, st)
    return st.mem[p.blk].cells[0]

def alloc(E, st, size, zero, name='heap'):
    p = E.new_obj(st, name, size, 'heap', init='zero' if zero else 'undef')
    return p
def h_malloc(E, st, a, zero=False):
    n = offarg(E, a[0])
    f = st.copy()
    set_errno(E, f, ENOMEM)
    f.g['alloc_failed'] = True
    out = [(f, NULL)]
    if not (isinstance(n, int)): st.assume(E.A.ole(n, (1 << 63) - 1) if E.A is INT else z3.ULE(n, z3.BitVecVal((1 << 63) - 1, 64)))
    out.append((st, alloc(E, st, n, zero)))
    return out
def h_calloc(E, st, a):
    n, m = offarg(E, a[0]), offarg(E, a[1])
    if isinstance(n, int): sz = E.omul(m, n)
    elif isinstance(m, int): sz = E.omul(n, m)
    elif E.A is INT: sz = n * m
    else: raise Unsupported('calloc symbolic product')
    f = st.copy(); set_errno(E, f, ENOMEM); f.g['alloc_failed'] = True
    if not isinstance(sz, int):
        if E.A is not INT:
            raise Unsupported('calloc symbolic size')
        st.assume(sz < (1 << 63))
    return [(f, NULL), (st, alloc(E, st, sz, True))]
def h_free(E, st, a):
    p = a[0]
    if isnull(p): return None
    if p.blk is None or p.blk == 'H': raise Unsupported('free of linked-heap pointer')
    o = st.mem[p.blk]
    E.oblige(st, o.alive and o.kind == 'heap' and isinstance(p.off, int) and p.off == 0, 'invalid-free', o.name)
    o = E.wobj(st, p.blk); o.alive = False
    return None
def h_abort(E, st, a):
    st.dead = True
    return None
def h_assert_fail(E, st, a):
    E.oblige(st, False, 'assertion')
    st.dead = True
    return None
def h_expect(E, st, a): return a[0]
def h_assume(E, st, a):
    E.oblige(st, boolof(a[0]), 'llvm.assume'); return None
def h_str_opaque(E, st, a):
    """strerror etc.: returns some valid string that is never inspected"""
    p = E.new_obj(st, 'str', 64, 'glob'); return p

def minmax(pr):
    def h(E, st, a):
        c = boolof(E.A.icmp(E, st, pr, a[0], a[1]))
        return E.A.ite(E, c, a[0], a[1])
    return h
def h_sat_sub(E, st, a):
    c = boolof(E.A.icmp(E, st, 'uge', a[0], a[1]))
    if E.A is BV: d = E.A.bin(E, st, 'sub', (), a[0], a[1])
    else: d = INT.mku(a[0].bits, z3.If(c if not isinstance(c, bool) else z3.BoolVal(c), INT.u(a[0]) - INT.u(a[1]), 0))
    return E.A.ite(E, c, d, const(a[0].bits, 0))
def h_abs(E, st, a):
    c = boolof(E.A.icmp(E, st, 'slt', a[0], const(a[0].bits, 0)))
    return E.A.ite(E, c, E.A.bin(E, st, 'sub', ('nsw',), const(a[0].bits, 0), a[0]), a[0])

def h_ctlz(E, st, a):
    x = a[0]; w = x.bits
    if x.c is not None:
        return const(w, w - x.c.bit_length())
    if len(a) > 1 and a[1].c == 1:
        E.oblige(st, boolof(E.A.icmp(E, st, 'ne', x, const(w, 0))), 'ctlz-zero')
    r = const(w, w)
    for k in range(w):
        r = E.A.ite(E, boolof(E.A.icmp(E, st, 'uge', x, const(w, 1 << k))), const(w, w - 1 - k), r)
    return r
def h_cttz(E, st, a):
    x = a[0]; w = x.bits
    if x.c is not None:
        return const(w, (x.c & -x.c).bit_length() - 1 if x.c else w)
    if E.A is not BV: raise Unsupported('cttz (int mode)')
    if len(a) > 1 and a[1].c == 1:
        E.oblige(st, BV.t(x) != 0, 'cttz-zero')
    r = z3.BitVecVal(w, w)
    for k in reversed(range(w)): r = z3.If(z3.Extract(k, k, BV.t(x)) == 1, z3.BitVecVal(k, w), r)
    return BV.mk(w, r)
def h_ctpop(E, st, a):
    x = a[0]; w = x.bits
    if x.c is not None: return const(w, bin(x.c).count('1'))
    if E.A is not BV: raise Unsupported('ctpop (int mode)')
    r = z3.BitVecVal(0, w)
    for k in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, BV.t(x)))
    return BV.mk(w, r)
def h_bswap(E, st, a):
    x = a[0]; w = x.bits
    if x.c is not None: return const(w, int.from_bytes(x.c.to_bytes(w // 8, 'little'), 'big'))
    if E.A is not BV: raise Unsupported('bswap (int mode)')
    return BV.mk(w, z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, BV.t(x)) for k in range(w // 8)]))

def h_memcmp(E, st, a):
    n = offarg(E, a[2])
    if not isinstance(n, int): raise Unsupported('memcmp of symbolic length')
    for p in (a[0], a[1]):
        if not E.chk_access(st, p, n, 'memcmp'): return None
    A = E.A
    r1, r2 = E.byte_reader(st, a[0]), E.byte_reader(st, a[1])
    val = const(32, 0)
    for k in reversed(range(n)):
        x, y = r1(k), r2(k)
        lt = boolof(A.icmp(E, st, 'ult', x, y)); gt = boolof(A.icmp(E, st, 'ugt', x, y))
        val = A.ite(E, lt, const(32, -1), A.ite(E, gt, const(32, 1), val))
    return val

def str_bytes(E, st, p):
    """concrete C string content (python bytes) or None"""
    if p.blk in (None, 'H') or not isinstance(p.off, int): return None
    o = st.mem[p.blk]
    if not isinstance(o.size, int): return None
    out = []
    for k in range(p.off, o.size):
        try: v = E.load_bytes(st, o, k, 8)
        except Unsupported: return None
        if v.c is None: return None
        if v.c == 0: return bytes(out)
        out.append(v.c)
    return None
def h_strlen(E, st, a):
    h = st.g.get('strlen_hook')
    b = str_bytes(E, st, a[0])
    if b is not None: return const(64, len(b))
    p = a[0]
    if p.blk in (None, 'H'):
        E.oblige(st, False, 'null-deref', 'strlen'); st.dead = True; return None
    o = st.mem[p.blk]
    L = st.g.get(('strlen', p.blk))
    if L is not None and p.off == 0: return L
    if isinstance(o.size, int) and o.size <= 128 and isinstance(p.off, int):
        # fork on the position of the terminator
        out = []
        cur = st
        for k in range(p.off, o.size):
            v = E.load_bytes(cur, cur.mem[p.blk], k, 8)
            E.flush_facts(cur)
            c = boolof(E.A.icmp(E, cur, 'eq', v, const(8, 0)))
            if c is False: continue
            if c is True: out.append((cur, const(64, k - p.off))); cur = None; break
            t, f = E.fork(cur, c)
            if t is not None: out.append((t, const(64, k - p.off)))
            cur = f
            if cur is None: break
        if cur is not None:
            E.oblige(cur, False, 'bounds', 'string not terminated inside %s' % o.name)
        return out
    raise Unsupported('strlen of symbolic string')

DEFAULT = {
 'memcpy': h_memcpy_strict, 'memmove': h_memcpy, 'memset': h_memset, 'memcmp': h_memcmp,
 '__errno_location': h_errno,
 'malloc': h_malloc, 'calloc': h_calloc, 'free': h_free, 'abort': h_abort, '__assert_fail': h_assert_fail,
 'strerror': h_str_opaque, 'strlen': h_strlen, 'abs': h_abs, 'labs': h_abs, 'llabs': h_abs,
}
PREFIX = [
 ('llvm.memcpy', h_memcpy), ('llvm.memmove', h_memcpy), ('llvm.memset', h_memset), ('llvm.lifetime', h_nop), ('llvm.dbg', h_nop),
 ('llvm.expect', h_expect), ('llvm.assume', h_assume), ('llvm.stacksave', lambda E, st, a: NULL), ('llvm.stackrestore', h_nop),
 ('llvm.umin', minmax('ult')), ('llvm.umax', minmax('ugt')), ('llvm.smin', minmax('slt')), ('llvm.smax', minmax('sgt')),
 ('llvm.ctlz', h_ctlz), ('llvm.cttz', h_cttz), ('llvm.ctpop', h_ctpop), ('llvm.bswap', h_bswap),
 ('llvm.usub.sat', h_sat_sub), ('llvm.va_', h_nop),
 ('llvm.threadlocal.address', lambda E, st, a: a[0]),
]
