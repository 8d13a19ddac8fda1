"""Assumed contracts of the system calls: descriptors as ghost state, every
call may succeed or fail in every way its manual page allows; each call is
appended to an event log st.g['ev'] as (name, dict)."""
import z3
from lvc.task import *
from lvc import ext
O_CREAT, O_TRUNC, O_DIRECTORY, O_PATH, O_NONBLOCK, O_CLOEXEC, O_APPEND, O_EXCL, O_WRONLY, O_RDWR = 0o100, 0o1000, 0o200000, 0o10000000, 0o4000, 0o2000000, 0o2000, 0o200, 1, 2

def init(st):
    st.g['fds'] = []; st.g['ev'] = []
def ev(st, name, **k): st.g['ev'] = st.g['ev'] + [(name, k)]
def evs(st, name): return [k for n, k in st.g['ev'] if n == name]
def newfd(E, st, meta=None):
    v = E.A.fresh(32, 'fd', st); t = E.A.u(v)
    st.assume(z3.And(t >= 0, t < 1 << 31) if E.A is INT else z3.And(t >= 0))
    for w, o, m in st.g['fds']:
        if o: st.assume(t != E.A.u(w))
    st.g['fds'] = st.g['fds'] + [(v, True, meta)]
    return v
def findfd(E, st, v):
    """index of the newest open descriptor equal to v, else of a closed one, else None"""
    t = E.A.u(v); fds = st.g['fds']; c = None
    for i in reversed(range(len(fds))):
        w = E.A.u(fds[i][0])
        if t.eq(w) or (v.c is None and E.entails(st, t == w)):
            if fds[i][1]: return i
            if c is None: c = i
    return c
def needfd(E, st, v, what):
    i = findfd(E, st, v)
    ok = i is not None and st.g['fds'][i][1]
    E.oblige(st, ok, 'bad-descriptor', what + ' on a descriptor that is not open')
    if not ok: st.dead = True; return None
    return i
def fail(E, st, excl=()):
    """a failing copy of st: -1 with a fresh errno"""
    f = st.copy(); e = ext.fresh_errno(E, f, excl)
    return f, E.A.u(e)
def err(E, s, bits=32): return const(bits, -1)
def h_open(E, st, a):
    f, e = fail(E, st); ev(f, 'open', ok=False, err=e, path=a[0], flags=a[1], rd=snap(E, st, a[0]))
    v = newfd(E, st, dict(path=a[0], flags=a[1])); ev(st, 'open', ok=True, fd=v, path=a[0], flags=a[1], rd=snap(E, st, a[0]))
    return [(st, v), (f, err(E, f))]
def h_openat(E, st, a):
    E.oblige(st, a[0].c is not None and a[0].c & 0xffffffff == 0xffffff9c, 'openat', 'relative to the working directory')
    return h_open(E, st, a[1:])
def snap(E, st, p):
    """content of the string now"""
    if isinstance(p, Ptr) and p.blk not in (None, 'H'): return E.byte_reader(st, p)
    return None
def h_close(E, st, a):
    i = needfd(E, st, a[0], 'close')
    if i is None: return []
    fds = list(st.g['fds']); v, o, m = fds[i]; fds[i] = (v, False, m); st.g['fds'] = fds
    f, e = fail(E, st); ev(f, 'close', ok=False, err=e, fd=a[0]); ev(st, 'close', ok=True, fd=a[0])
    return [(st, const(32, 0)), (f, err(E, f))]
def h_fsync(E, st, a):
    i = needfd(E, st, a[0], 'fsync')
    if i is None: return []
    f, e = fail(E, st); ev(f, 'fsync', ok=False, err=e, fd=a[0], ix=i); ev(st, 'fsync', ok=True, fd=a[0], ix=i)
    return [(st, const(32, 0)), (f, err(E, f))]
def openfds(st): return [w for w, o, m in st.g['fds'] if o]
def leaks(st): return [o.name for o in st.mem.values() if o.kind == 'heap' and o.alive]
def noleak(t, f, nm='', keep=()):
    t.prove(f, not openfds(f), nm + 'no descriptor leaked')
    t.prove(f, not [o for i, o in f.mem.items() if o.kind == 'heap' and o.alive and i not in keep], nm + 'no memory leaked')
def cstring(t, st, name, maxlen=1 << 30):
    """a NUL terminated string of any length -> (ptr, length term)"""
    L = z3.Int('len_' + name); st.assume(z3.And(L >= 0, L < maxlen)); t.inputs['len_' + name] = L
    p = t.bytes_obj(st, name, L + 1); o = st.mem[p.blk]
    rd = o.regs[0].base
    st.assume(t.u(rd(L)) == 0)
    st.g[('strlen', p.blk)] = INT.mku(64, L)
    return p, L, rd
def nonzero(t, st, rd, L, k):
    st.assume(z3.Implies(z3.And(k >= 0, k < L), t.u(rd(k)) != 0))
