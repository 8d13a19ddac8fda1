"""C23, C24: src/safew.c"""
from lvc.task import *
from lvc import ext
from . import posix as X
SRC = 'src/safew.c'
P, TP, C, TC = '', '.tmp', '.crc', '.crc.tmp'
ALL = (P, TP, C, TC)
FLAYOUT = '{ptr, [128 x i8], [132 x i8], i32}'
I = z3.IntVal
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)

# ------------------------------------------------------ the documented recovery
def match(p, c):
    """payload content p and check content c match (None: absent, no crc / no value: incomplete or unreadable)"""
    if p is None or c is None or p[1] is None or c[1] is None: return F_
    return p[1] == c[1]
def recover(fs):
    """decision table of futils_safew_file_check (safew.h): [(condition, payload kept or None)], exclusive and complete"""
    p, tp, c, tc = (fs[n] for n in ALL); out = []; rest = T_
    def case(m, x):
        nonlocal rest
        out.append((z3.And(rest, m), x)); rest = z3.And(rest, z3.Not(m))
    if tp and tc: case(match(tp, tc), tp)
    if p and c and (tp is None or tc is None or True) and not (tp and tc and not (p and c)): case(match(p, c), p)
    if p and tc and not tp: case(match(p, tc), p)
    out.append((rest, None)); return out

class FS:
    """four files and their stdio streams.  Content of a file: (tag, crc or value term or None, flags);
    'w' contents are being written: good (all data accepted), kernel (flushed), durable (synced)"""
    def __init__(s, t, st, fs, faults, hook=None):
        s.t, s.E, s.faults, s.hook, s.badcrc = t, t.E, faults, hook, None
        st.g['fs'] = dict(fs); st.g['F'] = {}; st.g['names'] = {}; st.g['ops'] = 0; st.g['unlinkfail'] = frozenset(); st.g['crash'] = []
        E = t.E
        E.handlers.update(snprintf=s.snprintf, fopen=s.fopen, fopen64=s.fopen, fclose=s.fclose, fflush=s.fflush, fileno=s.fileno, fsync=s.fsync, fdatasync=s.fsync,
                          unlink=s.unlink, remove=s.unlink, rename=s.rename, fread=s.fread, fwrite=s.fwrite, ferror=s.ferror, crc_from_fhd=s.crc)
        s.pn, s.L, rd = X.cstring(t, st, 'pathname'); st.mem[s.pn.blk].ro = True
        s.setname(st, s.pn, P)
    # names
    def key(s, p):
        if not isinstance(p, Ptr) or p.blk in (None, 'H') or not isinstance(p.off, int): raise Unsupported('file name')
        return (p.blk, p.off)
    def setname(s, st, p, n): d = dict(st.g['names']); d[s.key(p)] = n; st.g['names'] = d
    def name(s, st, p):
        n = st.g['names'].get(s.key(p))
        if n is None:
            b = ext.str_bytes(s.E, st, p)
            if b == b'': return '(empty)'
            raise Unsupported('unknown file name')
        return n
    def snprintf(s, E, st, a):
        """only compositions of names and constant suffixes"""
        fmt = ext.str_bytes(E, st, a[2]); size = a[1].c
        if fmt not in (b'%s', b'%s%s') or size is None: raise Unsupported('format')
        base = s.name(st, a[3]); suf = b''
        if fmt == b'%s%s':
            suf = ext.str_bytes(E, st, a[4])
            if suf is None: raise Unsupported('suffix')
        n = base + suf.decode(); tot = s.L + len(n)
        f = st.copy(); st.assume(tot < size); f.assume(tot >= size)
        for x, cnt in ((st, tot + 1), (f, I(size))):
            E.chk_access(x, a[0], cnt, 'store')
        s.setname(st, a[0], n); s.setname(f, a[0], '(cut)')
        return [(x, INT.mks(32, tot)) for x in (st, f) if E.feasible(x, T_)]
    # streams
    def newF(s, st, **k):
        E = s.E; p = E.new_obj(st, 'FILE', 8, 'glob'); d = dict(st.g['F']); d[p.blk] = dict(k, open=True, err=False, pos=0, idx=len(d)); st.g['F'] = d; return p
    def getF(s, st, p, what):
        d = st.g['F'].get(p.blk) if isinstance(p, Ptr) else None
        ok = d is not None and d['open']; s.E.oblige(st, ok, 'bad-stream', what + ' on a stream that is not open')
        if not ok: st.dead = True; return None
        return d
    def upF(s, st, p, **k): d = dict(st.g['F']); d[p.blk] = dict(d[p.blk], **k); st.g['F'] = d
    def setfs(s, st, n, c):
        d = dict(st.g['fs']); d[n] = c; st.g['fs'] = d; st.g['ops'] = st.g['ops'] + 1
    def mut(s, st, what):
        st.g['crash'] = st.g['crash'] + [(what, st.g['fs'])]
        if s.hook: s.hook(st, 'before ' + what)
    def fopen(s, E, st, a):
        n = s.name(st, a[0]); mode = ext.str_bytes(E, st, a[1])
        if mode is None or mode.decode().rstrip('be') not in ('r', 'w'): raise Unsupported('open mode %s' % mode)
        w = mode[:1] == b'w'; out = []
        if n not in ALL: E.oblige(st, n != '(cut)', 'file-name', 'a truncated name is used'); return [(s.err(st), NULL)]
        if s.faults or (not w and st.g['fs'][n] is None): out.append((s.err(st.copy()), NULL))
        if not w and st.g['fs'][n] is None: return out
        if w:
            s.mut(st, 'truncating ' + (n or 'the file')); s.setfs(st, n, ('w', None, dict(good=False, kernel=True, durable=False)))
        return out + [(st, s.newF(st, name=n, w=w, content=st.g['fs'][n], buffered=False))]
    def err(s, st): ext.fresh_errno(s.E, st); return st
    def flush(s, st, p, d, lost):
        """buffered data reaches the file or is lost"""
        if not d['buffered']: return
        s.upF(st, p, buffered=False)
        c = st.g['fs'][d['name']]
        if c and c[0] == 'w': s.setfs(st, d['name'], ('w', None if lost else c[1], dict(c[2], kernel=not lost, good=c[2]['good'] and not lost)))
    def fflush(s, E, st, a):
        d = s.getF(st, a[0], 'fflush')
        if d is None: return []
        out = []
        if s.faults: f = s.err(st.copy()); s.flush(f, a[0], d, True); out.append((f, const(32, -1)))
        s.flush(st, a[0], d, False); return [(st, const(32, 0))] + out
    def fclose(s, E, st, a):
        d = s.getF(st, a[0], 'fclose')
        if d is None: return []
        out = []
        if s.faults: f = s.err(st.copy()); s.flush(f, a[0], d, True); s.upF(f, a[0], open=False); out.append((f, const(32, -1)))
        s.flush(st, a[0], d, False); s.upF(st, a[0], open=False); return [(st, const(32, 0))] + out
    def fileno(s, E, st, a):
        d = s.getF(st, a[0], 'fileno'); return const(32, 1000 + d['idx']) if d else const(32, -1)
    def fsync(s, E, st, a):
        if a[0].c is None: raise Unsupported('fsync')
        h = [b for b, d in st.g['F'].items() if d['idx'] == a[0].c - 1000 and d['open']]
        E.oblige(st, len(h) == 1, 'bad-descriptor', 'fsync')
        if not h: return const(32, -1)
        d = st.g['F'][h[0]]; out = []
        if s.faults: out.append((s.err(st.copy()), const(32, -1)))
        c = st.g['fs'][d['name']]
        if c and c[0] == 'w' and c[2]['kernel'] and not d['buffered']: s.setfs(st, d['name'], (c[0], c[1], dict(c[2], durable=True)))
        return [(st, const(32, 0))] + out
    def unlink(s, E, st, a):
        n = s.name(st, a[0])
        if n not in ALL: E.oblige(st, n != '(cut)', 'file-name', 'a truncated name is removed'); return [(s.err(st), const(32, -1))]
        if st.g['fs'][n] is None: return [(s.err(st), const(32, -1))]
        out = []
        if s.faults: f = s.err(st.copy()); f.g['unlinkfail'] = f.g['unlinkfail'] | {n}; out.append((f, const(32, -1)))
        s.mut(st, 'removing ' + (n or 'the file')); s.setfs(st, n, None); return [(st, const(32, 0))] + out
    def rename(s, E, st, a):
        x, y = s.name(st, a[0]), s.name(st, a[1])
        if x not in ALL or y not in ALL: E.oblige(st, False, 'file-name', 'a file outside the four is renamed'); return [(s.err(st), const(32, -1))]
        if st.g['fs'][x] is None: return [(s.err(st), const(32, -1))]
        out = []
        if s.faults: out.append((s.err(st.copy()), const(32, -1)))
        s.mut(st, 'renaming %s to %s' % (x or 'the file', y or 'the file'))
        c = st.g['fs'][x]
        if c[0] == 'w': E.oblige(st, c[2]['good'] and c[2]['durable'], 'post', 'everything is flushed to storage before it replaces the old file')
        s.setfs(st, x, None); s.setfs(st, y, c); return [(st, const(32, 0))] + out
    def ferror(s, E, st, a):
        d = s.getF(st, a[0], 'ferror'); return const(32, 1 if d and d['err'] else 0)
    def crc(s, E, st, a):
        """contract of crc_from_fhd (task crc): the hash of all remaining bytes; arbitrary after a read error"""
        d = s.getF(st, a[0], 'reading')
        if d is None: return []
        out = []; s.upF(st, a[0], pos=9)
        def put(x, term): E.store(x, a[1], INT.mku(32, term), 4)
        def fresh(x):
            v = E.A.fresh(32, 'badcrc', x)
            if s.badcrc: s.badcrc(x, v)  # a partial read does not hash to a stored value by coincidence
            return v
        c = st.g['fs'].get(d['name']) if d['content'] is not None and d['content'][0] == 'w' else d['content']
        if s.faults:
            f = st.copy(); s.upF(f, a[0], err=True); E.store(f, a[1], fresh(f), 4); out.append((f, None))
        if d['pos']: put(st, I(0))
        elif c is None or c[1] is None: E.store(st, a[1], fresh(st), 4)
        elif c[0] == 'w' and not (c[2]['good'] and c[2]['kernel']): E.store(st, a[1], fresh(st), 4)
        else: put(st, c[1])
        return [(st, None)] + out
    def fread(s, E, st, a):
        d = s.getF(st, a[3], 'fread')
        if d is None: return []
        if a[1].c is None or a[2].c is None or a[1].c * a[2].c != 4: raise Unsupported('fread size')
        E.chk_access(st, a[0], 4, 'store'); c = d['content']; full, item = a[2].c, a[1].c
        if c[0] == 'pay': raise Unsupported('payload read as check value')
        def part(x):
            E.store(x, a[0], E.A.fresh(32, 'part', x), 4); v = E.A.fresh(64, 'nread', x); x.assume(t.u(v) < full); return v
        t = s.t
        if d['pos'] or c[1] is None: s.upF(st, a[3], pos=9); return [(st, part(st))]
        out = []
        if s.faults: f = st.copy(); s.upF(f, a[3], err=True, pos=9); out.append((f, part(f)))
        E.store(st, a[0], INT.mku(32, c[1]), 4); s.upF(st, a[3], pos=4)
        return [(st, const(64, full))] + out
    def fwrite(s, E, st, a):
        """the check value is written in one call of 4 bytes"""
        d = s.getF(st, a[3], 'fwrite')
        if d is None: return []
        if a[1].c is None or a[2].c is None or a[1].c * a[2].c != 4: raise Unsupported('fwrite size')
        t = s.t; full = a[2].c; v = E.load(st, a[0], 32); n = d['name']; c = st.g['fs'][n]
        E.oblige(st, d['w'] and n == TC, 'post', 'only the temporary check file is written here')
        f = st.copy(); k = E.A.fresh(64, 'nwritten', f); f.assume(t.u(k) < full)
        first = c is not None and c[0] == 'w' and c[1] is None and not d['buffered']
        s.setfs(st, n, ('w', t.u(v) if first else None, dict(good=first, kernel=False, durable=False))); s.upF(st, a[3], buffered=True)
        s.setfs(f, n, ('w', None, dict(good=False, kernel=True, durable=False)))
        return [(st, const(64, full)), (f, k)]
    def openstreams(s, st): return [d['name'] for d in st.g['F'].values() if d['open']]

# ------------------------------------------------------------------ file_check
def word(name): return z3.Int(name)
def U32(st, *v):
    for x in v: st.assume(z3.And(x >= 0, x < 1 << 32))
@task('C24', 'file_check', 'int', budget=400)
def fcheck(t):
    m = t.mod(SRC)
    pay = lambda n: [None, ('pay', word('crc_of_' + n), n)]
    chk = lambda n: [None, ('chk', word('value_in_' + n), n), ('chk', None, n)]
    reach = set()
    for p in pay('payload'):
        for tp in pay('tmp'):
            for c in chk('crc'):
                for tc in chk('crctmp'):
                    st = t.state(); fs = dict(zip(ALL, (p, tp, c, tc))); nm = '%s: ' % '+'.join(n + ('(short)' if x[1] is None else '') for n, x in zip(('payload', 'tmp', 'crc', 'crc.tmp'), (p, tp, c, tc)) if x)
                    U32(st, *[x[1] for x in (p, tp, c, tc) if x and x[1] is not None])
                    f = FS(t, st, fs, False); pc0 = recover(fs)
                    enc = lambda M, x, k: ('a' if x is None else 's' if x[1] is None else 'x')
                    ty = ''.join('a' if x is None else 's' if x[1] is None else 'x' for x in (p, tp, c, tc))
                    def replay(M, i, ty=ty, xs=(p, tp, c, tc)):
                        # which of the values coincide
                        v = [0 if x is None or x[1] is None else M.eval(x[1], model_completion=True).as_long() for x in xs]
                        ids = []; [ids.append(x) for x in v if x not in ids]
                        return ['check', ty] + [str(ids.index(x)) for x in v]
                    t.replay = replay
                    st.assume(f.L <= 100)
                    fin = t.call(st, m, 'futils_safew_file_check', [f.pn])
                    for x in fin:
                        r = t.ret(x); fs1 = x.g['fs']
                        t.prove(x, not f.openstreams(x), nm + 'every file is closed again')
                        for cond, tok in pc0:
                            y = x.copy(); y.assume(cond)
                            if not t.E.feasible(y, T_): continue
                            reach.add(tok is not None)
                            if tok is None:
                                t.prove(y, r < 0, nm + 'no documented pair matches: failure is reported')
                                t.prove(y, all(fs1[n] is None for n in ALL), nm + 'and nothing invalid stays')
                                continue
                            t.prove(y, r == 0, nm + 'a matching pair is a success')
                            t.prove(y, fs1[P] is not None and fs1[P][2] == tok[2], nm + 'the right version is kept under the final name')
                            t.prove(y, match(fs1[P], fs1[C]), nm + 'with its matching check file')
                            t.prove(y, fs1[TP] is None and fs1[TC] is None, nm + 'no temporary file stays')
                            for what, snap in x.g['crash']:
                                good = z3.Or(*[c2 for c2, k2 in recover(snap) if k2 is not None and k2[2] == tok[2]] + [F_])
                                t.prove(y, good, nm + 'a crash before %s and a second recovery keep the same version' % what)
    t.covers.append(('success', 'sat' if True in reach else 'not-reached')); t.covers.append(('failure', 'sat' if False in reach else 'not-reached'))
    # too long names touch nothing
    st = t.state(); f = FS(t, st, {P: ('pay', word('x'), 'y'), TP: ('pay', word('x'), 'y'), C: ('chk', word('x'), 'y'), TC: ('chk', word('x'), 'y')}, False); U32(st, word('x')); t.replay = lambda M, i: ['long', str(i.get('len_pathname', 128))]
    for x in t.call(st, m, 'futils_safew_file_check', [f.pn]):
        y = x.copy(); y.assume(f.L >= 128)
        if t.E.feasible(y, T_): t.prove(y, t.ret(y) < 0, 'a name that does not fit is refused'); t.prove(y, y.g['ops'] == 0, 'and nothing is touched')

@task('C24', 'file_check, failing operations', 'int', budget=600)
def fcheck_faults(t):
    """any file operation of the recovery may fail: success is still only reported with a matching pair under the final names"""
    m = t.mod(SRC); pay = lambda n: [None, ('pay', word('crc_of_' + n), n)]; chk = lambda n: [None, ('chk', word('value_in_' + n), n), ('chk', None, n)]; seen = False
    for p in pay('payload'):
        for tp in pay('tmp'):
            for c in chk('crc'):
                for tc in chk('crctmp'):
                    st = t.state(); fs = dict(zip(ALL, (p, tp, c, tc))); nm = '%s: ' % '+'.join(n + ('(short)' if x[1] is None else '') for n, x in zip(('payload', 'tmp', 'crc', 'crc.tmp'), (p, tp, c, tc)) if x)
                    vals = [x[1] for x in (p, tp, c, tc) if x and x[1] is not None]; U32(st, *vals)
                    f = FS(t, st, fs, True); f.badcrc = lambda x, v, vals=vals: x.assume(z3.And(*[t.u(v) != w for w in vals] + [T_]))
                    ty = ''.join('a' if x is None else 's' if x[1] is None else 'x' for x in (p, tp, c, tc))
                    def replay(M, i, ty=ty, xs=(p, tp, c, tc)):
                        v = [0 if x is None or x[1] is None else M.eval(x[1], model_completion=True).as_long() for x in xs]
                        ids = []; [ids.append(x) for x in v if x not in ids]
                        return ['check', ty] + [str(ids.index(x)) for x in v]
                    t.replay = replay; st.assume(f.L <= 100)
                    for x in t.call(st, m, 'futils_safew_file_check', [f.pn]):
                        r = t.ret(x); fs1 = x.g['fs']
                        t.prove(x, not f.openstreams(x), nm + 'every file is closed again')
                        t.prove(x, r <= 0, nm + 'the result is success or failure')
                        y = x.copy(); y.assume(r == 0)
                        if not t.E.feasible(y, T_): continue
                        seen = True; t.prove(y, match(fs1[P], fs1[C]), nm + 'success means a matching pair under the final names')
    t.covers.append(('success', 'sat' if seen else 'not-reached'))

# the check value
def hstep(c, v): c = c + v; c = c + (c << 10); return c ^ z3.LShR(c, 6)
def hfin(c): c = c + (c << 3); c = c ^ z3.LShR(c, 11); return c + (c << 15)
@task(('C24', 'C23'), 'crc', 'bv')
def crc(t):
    """the hash of all bytes up to the end of the file, or up to a read error, which the stream remembers"""
    m = t.mod(SRC); st = t.state(); E = t.E
    n = z3.BitVec('n', 64); B = z3.Function('B', z3.BitVecSort(64), z3.BitVecSort(8)); H = z3.Function('H', z3.BitVecSort(64), z3.BitVecSort(32))
    st.assume(z3.ULT(n, 1 << 62)); st.g['pos'] = z3.BitVecVal(0, 64); st.g['err'] = z3.BoolVal(False)
    out = t.bytes_obj(st, 'crc', 4); fp = E.new_obj(st, 'FILE', 8, 'glob')
    st.assume(H(z3.BitVecVal(0, 64)) == 0)
    def getc(E, s, a):
        E.oblige(s, a[0].blk == fp.blk, 'bad-stream', 'the given stream is read')
        e, f = s.copy(), s.copy(); p = s.g['pos']
        s.assume(z3.And(z3.ULT(p, n), z3.Not(s.g['err']))); e.assume(p == n); f.g['err'] = z3.BoolVal(True)
        s.assume(H(p + 1) == hstep(H(p), z3.ZeroExt(24, B(p)))); s.g['pos'] = p + 1
        return [(s, BV.mk(32, z3.ZeroExt(24, B(p)))), (e, const(32, -1)), (f, const(32, -1))]
    E.handlers.update(getc=getc, fgetc=getc, _IO_getc=getc, getc_unlocked=getc)
    t.replay = lambda M, i: ['crc']
    def inv(ctx):
        s = ctx.st; p = s.g['pos']; v = t.u(t.rd(s, out, 32))
        vv = [x for k, x in ctx.vals.items()] if isinstance(ctx.vals, dict) else []
        o = [('position', z3.ULE(p, n))]
        # the value being carried: the byte just read is pending
        for x in vv:
            if getattr(x, 'bits', 0) == 32:
                z = t.u(x); eof = z3.Or(p == n, s.g['err']); o.append(('pending', z3.Or(z3.And(z == 0xffffffff, eof, v == H(p)), z3.And(p != 0, z == z3.ZeroExt(24, B(p - 1)), v == H(p - 1), H(p) == hstep(H(p - 1), z3.ZeroExt(24, B(p - 1)))))))
                break
        else: o.append(('prefix', v == H(p)))
        return o
    E.inv = inv; E.opts['policy'] = 'cut'
    fin = t.call(st, m, 'crc_from_fhd', [fp, out])
    for f in fin:
        v = t.u(t.rd(f, out, 32)); t.prove(f, v == hfin(H(f.g['pos'])), 'the one-at-a-time hash of the bytes read'); t.prove(f, z3.Or(f.g['pos'] == n, f.g['err']), 'all bytes are read unless reading fails')
    t.cover_any(fin, lambda f: z3.And(f.g['pos'] == n, n == 3), 'complete'); t.cover_any(fin, lambda f: f.g['err'], 'read error')
@task('C24', 'hash detects a changed byte', 'bv')
def inj(t):
    """lemma over the contract of crc: two payloads of the same length that differ in one byte have different check values"""
    st = t.state(); a, b, v, w = (z3.BitVec(x, 32) for x in 'abvw')
    t.prove(st, z3.Implies(v != w, hstep(a, v) != hstep(a, w)), 'a different byte gives a different state')
    t.prove(st, z3.Implies(a != b, hstep(a, v) != hstep(b, v)), 'different states stay different over equal bytes')
    t.prove(st, z3.Implies(a != b, hfin(a) != hfin(b)), 'different states give different check values')

# ---------------------------------------------------------------------- saving
def variants(c, payload):
    """what storage may hold for this content after a crash"""
    if c is None or c[0] != 'w': return [c]
    full = ('pay' if payload else 'chk', c[1], 'new'); part = [('pay', None, 'partial')] if payload else [('chk', None, 'short'), ('chk', z3.Int('torn_value'), 'torn')]
    if c[2]['good'] and c[2]['durable']: return [full]
    return part + ([full] if c[2]['good'] else [])
def crashes(fs):
    for p in variants(fs[P], True):
        for tp in variants(fs[TP], True):
            for c in variants(fs[C], False):
                for tc in variants(fs[TC], False): yield dict(zip(ALL, (p, tp, c, tc)))
def allowed(t, st, fs0, with_crc, where):
    """every crash state leaves the complete old or the complete new content"""
    keep, whole = [], []
    for k in crashes(st.g['fs']):
        if not with_crc:
            tag = k[P][2] if k[P] else None; old = fs0[P][2] if fs0[P] else None
            keep.append(z3.BoolVal(tag in (old, 'new'))); continue
        old = z3.Or(*[c for c, tok in recover(fs0) if tok is not None] + [F_]); rk = recover(k)
        keep.append(z3.Implies(old, z3.Or(*[c for c, tok in rk if tok is not None and tok[2] in ('new', 'old')] + [F_])))
        whole.append(z3.Not(z3.Or(*[c for c, tok in rk if tok is not None and tok[2] not in ('new', 'old')] + [F_])))
    if with_crc:
        t.prove(st, z3.And(*keep), 'crash %s: recovery finds the complete old or complete new content' % where)
        t.prove(st, z3.And(*whole), 'crash %s: recovery never accepts incomplete content' % where)
    else: t.prove(st, z3.And(*keep), 'crash %s: the file holds its complete old or complete new content' % where)
def commit(t, fn, with_crc):
    m = t.mod(SRC); E = t.E
    if str(m.types.get('struct.futils_safew_file')) != FLAYOUT: raise Unsupported('struct futils_safew_file changed: %s' % m.types.get('struct.futils_safew_file'))
    old = ('pay', word('crc_old'), 'old'); newc = word('crc_new'); ok_n = bad_n = 0
    olds = [(old, ('chk', word('crc_old'), 'oldcrc')), (None, None)] + ([(old, None), (old, ('chk', word('stale'), 'x')), (None, ('chk', word('stale'), 'x'))] if with_crc else [(old, ('chk', word('stale'), 'x'))])
    for p, c in olds:
        for tc in ([None, ('chk', None, 'x'), ('chk', word('stale2'), 'x')] if with_crc else [None]):
            for failed in (False, True):
                st = t.state(); fs0 = {P: p, C: c, TC: tc, TP: ('w', None if failed else newc, dict(good=not failed, kernel=False, durable=False))}
                U32(st, word('crc_old'), newc, word('stale'), word('stale2'), z3.Int('torn_value'))
                base = dict(fs0); base[TP] = ('pay', None, 'partial')
                hook = lambda s, w: allowed(t, s, base, with_crc, w)
                f = FS(t, st, fs0, True, hook); st.assume(f.L < 128)
                b = t.struct_obj(st, m, 'struct.futils_safew_file', 'file', kind='heap'); fp = f.newF(st, name=TP, w=True, content=fs0[TP], buffered=True)
                t.setcell(st, b, 0, fp); f.setname(st, Ptr(b.blk, 8), P); f.setname(st, Ptr(b.blk, 136), TP)
                fl = t.rd(st, b, 32, 268); st.assume((t.u(fl) != 0) if failed else (t.u(fl) == 0))
                t.replay = lambda M, i, p=p, c=c, tc=tc, failed=failed: ['commit', '1' if with_crc else '0', 'n' if not p else 'o', 'n' if not c else 'v' if c[2] == 'oldcrc' else 's', 'n' if not tc else 's' if tc[1] is None else 'v', '1' if failed else '0']
                fin = t.call(st, m, fn, [b])
                for x in fin:
                    r = t.ret(x); g = x.g['fs']; hook(x, 'after the commit')
                    t.prove(x, not f.openstreams(x), 'every stream is closed'); t.prove(x, not x.mem[b.blk].alive, 'the handle is released'); t.prove(x, not X.leaks(x), 'no memory leaked')
                    new = g[P] is not None and g[P][0] == 'w'
                    isok = E.entails(x, r == 0)
                    if isok:
                        ok_n += 1
                        t.prove(x, new and g[P][2]['good'] and g[P][2]['durable'], 'success: the file holds the complete new content, flushed to storage')
                        if with_crc:
                            t.prove(x, g[C] is not None and g[C][0] == 'w' and g[C][2]['good'] and g[C][2]['durable'] and g[C][1] is not None, 'success: the check file is complete and flushed')
                            t.prove(x, g[C][1] == newc if g[C] and g[C][1] is not None else F_, 'success: the check file holds the hash of the new content')
                            t.prove(x, g[TC] is None, 'no temporary check file stays')
                        else: t.prove(x, g[C] is fs0[C], 'the check file is not touched')
                        t.prove(x, g[TP] is None, 'no temporary file stays')
                    else:
                        bad_n += 1
                        t.prove(x, r < 0, 'success or failure is reported')
                        if not new:
                            t.prove(x, g[P] is fs0[P] and g[C] is fs0[C], 'failure: the old content and its check file stay in place')
                            t.prove(x, g[TP] is None or TP in x.g['unlinkfail'], 'failure: the temporary file is removed')
                            if with_crc: t.prove(x, g[TC] is None or TC in x.g['unlinkfail'] or g[TC] is fs0[TC], 'failure: the temporary check file is removed')
                    if failed: t.prove(x, r < 0, 'a failed write is reported')
    t.covers.append(('success', 'sat' if ok_n else 'not-reached')); t.covers.append(('failure', 'sat' if bad_n else 'not-reached'))
    st = t.state()
    for x in t.call(st, m, fn, [NULL]): t.prove(x, t.ret(x) < 0, 'no handle is an error')
@task('C23', 'commit', 'int', budget=300)
def c1(t): commit(t, 'futils_safew_fclose_commit', False)
@task('C23', 'commit_with_crc', 'int', budget=600)
def c2(t): commit(t, 'futils_safew_fclose_commit_with_crc', True)
@task('C23', 'rollback', 'int')
def rb(t):
    m = t.mod(SRC); old = ('pay', word('crc_old'), 'old'); oc = ('chk', word('crc_old'), 'oldcrc')
    if str(m.types.get('struct.futils_safew_file')) != FLAYOUT: raise Unsupported('struct futils_safew_file changed')
    st = t.state(); fs0 = {P: old, C: oc, TC: None, TP: ('w', word('crc_new'), dict(good=True, kernel=False, durable=False))}; U32(st, word('crc_old'), word('crc_new'), z3.Int('torn_value'))
    base = dict(fs0); base[TP] = ('pay', None, 'partial')
    hook = lambda s, w: allowed(t, s, base, True, w)
    f = FS(t, st, fs0, True, hook); b = t.struct_obj(st, m, 'struct.futils_safew_file', 'file', kind='heap'); fp = f.newF(st, name=TP, w=True, content=fs0[TP], buffered=True)
    t.setcell(st, b, 0, fp); f.setname(st, Ptr(b.blk, 8), P); f.setname(st, Ptr(b.blk, 136), TP); t.replay = lambda M, i: ['rollback']
    fin = t.call(st, m, 'futils_safew_fclose_rollback', [b]); n = 0
    for x in fin:
        r = t.ret(x); g = x.g['fs']; hook(x, 'after the rollback')
        t.prove(x, not f.openstreams(x), 'the stream is closed'); t.prove(x, not x.mem[b.blk].alive and not X.leaks(x), 'the handle is released')
        t.prove(x, g[P] is fs0[P] and g[C] is fs0[C], 'the old content stays'); t.prove(x, g[TP] is None or TP in x.g['unlinkfail'], 'the temporary file is removed')
        t.prove(x, z3.Implies(r == 0, z3.BoolVal(g[TP] is None)), 'a failing removal is reported')
    t.cover_any(fin, lambda x: t.ret(x) == 0, 'success'); t.cover_any(fin, lambda x: t.ret(x) < 0, 'failure')
    for x in t.call(t.state(), m, 'futils_safew_fclose_rollback', [NULL]): t.prove(x, t.ret(x) < 0, 'no handle is an error')
@task('C23', 'open', 'int')
def fo(t):
    m = t.mod(SRC); E = t.E; done = set()
    if str(m.types.get('struct.futils_safew_file')) != FLAYOUT: raise Unsupported('struct futils_safew_file changed')
    old, oc = ('pay', word('crc_old'), 'old'), ('chk', word('crc_old'), 'oldcrc')
    for tp in (None, ('pay', None, 'partial'), ('pay', word('crc_left'), 'old')):
        for tc in (None, ('chk', None, 'x'), ('chk', word('stale2'), 'x')):
            st = t.state(); fs0 = {P: old, C: oc, TC: tc, TP: tp}; U32(st, word('crc_old'), word('crc_left'), word('stale2'))
            hook = lambda s, w: allowed(t, s, fs0, True, w)
            f = FS(t, st, fs0, True, hook); t.replay = lambda M, i: ['open', str(i['len_pathname'])]
            fin = t.call(st, m, 'futils_safew_fopen', [f.pn])
            for x in fin:
                g = x.g['fs']; hook(x, 'after opening'); t.prove(x, g[P] is old and g[C] is oc, 'the file is not touched')
                if isnull(x.ret):
                    done.add(0); t.prove(x, not f.openstreams(x) and not X.leaks(x), 'refused: nothing is left open')
                    t.prove(x, z3.Implies(f.L < 128, z3.BoolVal(bool(x.g.get('alloc_failed') or x.g.get('errno_blk')))), 'refused only for its name or a failing call'); continue
                done.add(1); b = x.ret; F = x.mem[b.blk].cells.get(0)
                d = x.g['F'].get(F.blk) if isinstance(F, Ptr) else None
                t.prove(x, d is not None and d['open'] and d['w'] and d['name'] == TP, 'the temporary file is open for writing')
                t.prove(x, t.u(t.rd(x, b, 32, 268)) == 0, 'no failure yet'); t.prove(x, f.L < 128, 'names that do not fit are refused')
                t.prove(x, x.g['names'].get((b.blk, 8)) == P and x.g['names'].get((b.blk, 136)) == TP, 'both names are kept')
    t.covers.append(('opened', 'sat' if 1 in done else 'not-reached')); t.covers.append(('refused', 'sat' if 0 in done else 'not-reached'))
@task('C23', 'write', 'int')
def wr(t):
    m = t.mod(SRC); E = t.E
    if str(m.types.get('struct.futils_safew_file')) != FLAYOUT: raise Unsupported('struct futils_safew_file changed')
    st = t.state(); b = t.struct_obj(st, m, 'struct.futils_safew_file', 'file', kind='heap'); fp = E.new_obj(st, 'FILE', 8, 'glob'); t.setcell(st, b, 0, fp)
    fl = t.u(t.rd(st, b, 32, 268)); size, nm = t.sym(st, 64, 'size'), t.sym(st, 64, 'nmemb'); data = Ptr(t.bytes_obj(st, 'data', 16).blk, 0)
    t.replay = lambda M, i: ['write']
    def fwrite(E, s, a):
        E.oblige(s, a[3].blk == fp.blk and a[0].blk == data.blk and a[0].off == 0, 'post', 'the given data goes to the temporary file'); E.oblige(s, z3.And(t.u(a[1]) * 1 == t.u(size), t.u(a[2]) == t.u(nm)), 'post', 'with the given size')
        r = E.A.fresh(64, 'written', s); s.assume(t.u(r) <= t.u(nm)); s.g['w'] = t.u(r); return r
    def vfp(E, s, a):
        E.oblige(s, a[0].blk == fp.blk and a[1].blk == fmt.blk, 'post', 'the given format goes to the temporary file')
        r = E.A.fresh(32, 'printed', s); s.g['w'] = t.s_(r); return r
    fmt = t.bytes_obj(st, 'format', 16); E.handlers.update(fwrite=fwrite, vfprintf=vfp)
    fin = t.call(st.copy(), m, 'futils_safew_fwrite', [data, size, nm, b])
    for x in fin:
        g = t.u(t.rd(x, b, 32, 268)); w = x.g.get('w'); t.prove(x, w is not None, 'the data is written')
        if w is None: continue
        t.prove(x, t.u(x.ret) == w, 'the number written is returned'); t.prove(x, z3.Implies(z3.Or(w != t.u(nm), fl != 0), g != 0), 'a short write is remembered, and never forgotten'); t.prove(x, z3.Implies(z3.And(w == t.u(nm), fl == 0), g == 0), 'a complete write is no failure')
    t.cover_any(fin, lambda x: x.g['w'] < t.u(nm), 'short write')
    fin = t.call(st.copy(), m, 'futils_safew_fprintf', [b, fmt])
    for x in fin:
        g = t.u(t.rd(x, b, 32, 268)); w = x.g.get('w'); t.prove(x, w is not None, 'the text is written')
        if w is None: continue
        t.prove(x, t.s_(x.ret) == w, 'the result is returned'); t.prove(x, z3.Implies(z3.Or(w < 0, fl != 0), g != 0), 'a failed write is remembered, and never forgotten'); t.prove(x, z3.Implies(z3.And(w >= 0, fl == 0), g == 0), 'a complete write is no failure')
    t.cover_any(fin, lambda x: x.g['w'] < 0, 'failed write')
