"""C11..C14: src/systimetools.c, mathematical integers with exact wrap-around"""
import re, ctypes
from lvc.task import *
from lvc import ext
from . import posix as X
SRC = 'src/systimetools.c'
D400 = 146097
# struct tm of x86-64 glibc
SEC, MIN, HOUR, MDAY, MON, YEAR, WDAY, YDAY, ISDST, GMTOFF, ZONE = 0, 4, 8, 12, 16, 20, 24, 28, 32, 40, 48
WD = ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat']
MN = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def leap(y): return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
def pick(i, tab, base=1):
    e = z3.IntVal(tab[-1])
    for k in range(len(tab) - 2, -1, -1): e = z3.If(i == k + base, z3.IntVal(tab[k]), e)
    return e
def days(y, m, d):
    """days since 1970-01-01 of the proleptic Gregorian date (the specification)"""
    L = (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 - 477
    return 365 * (y - 1970) + L + pick(m, CUM) + z3.If(z3.And(m > 2, leap(y)), 1, 0) + d - 1
def validdate(y, m, d): return z3.And(m >= 1, m <= 12, d >= 1, d <= pick(m, LEN) + z3.If(z3.And(m == 2, leap(y)), 1, 0))
def instant(y, m, d, H, M, S): return days(y, m, d) * 86400 + H * 3600 + M * 60 + S
# ---------------------------------------------------------------- assumed contracts
_tab = None
def ctab():
    global _tab
    if _tab is None:
        l = ctypes.CDLL(None); l.__ctype_b_loc.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_uint16))
        p = l.__ctype_b_loc()[0]; _tab = [p[i] for i in range(-128, 256)]
    return _tab
def h_ctype(E, st, a):
    q = st.g.get('ctype')
    if q is None:
        tb = E.new_obj(st, 'ctype', 768, 'glob', init='zero', es=2); o = st.mem[tb.blk]
        o.regs = (o.regs[0].with_layer(E.table_layer(ctab(), 0, 2)),); o.ro = True
        q = E.new_obj(st, 'ctype_loc', 8, 'glob'); st.mem[q.blk].regs = (); st.mem[q.blk].cells[0] = Ptr(tb.blk, 256)
        st.g['ctype'] = q.blk
        return q
    return Ptr(q, 0)
def isdig(b): return z3.And(b >= 48, b <= 57)
def isws(b): return z3.Or(b == 32, z3.And(b >= 9, b <= 13))
def h_strtol(E, st, a):
    """exact for strings inside small objects (values cannot overflow)"""
    p = a[0]; E.oblige(st, a[2].c == 10, 'strtol-base'); o = st.mem[p.blk]
    if not (isinstance(p.off, int) and isinstance(o.size, int) and o.size - p.off <= 12): raise Unsupported('strtol of a long string')
    # bytes up to the terminator
    bs = []; dig = True
    for k in range(p.off, o.size):
        v = E.load_bytes(st, o, k, 8); E.flush_facts(st)
        if v.c == 0 or v.c is None and not v.lo and E.entails(st, INT.u(v) == 0): break
        bs.append(INT.u(v)); dig = dig and (v.c is not None and 48 <= v.c <= 57 or v.c is None and v.lo is not None and v.lo >= 48 and v.hi <= 57)
    else: E.oblige(st, False, 'bounds', 'number text not terminated')
    n = len(bs); known = st.g.get('digits', {}).get(tuple(b.get_id() for b in bs))
    if known is not None:      # the digits snprintf produced for this very value: they denote it
        if not isnull(a[1]): E.store(st, a[1], Ptr(p.blk, p.off + n), 8)
        return INT.mks(64, known[0], known[1], known[2])
    if n and (dig or E.entails(st, z3.And(*[isdig(b) for b in bs]))):
        val, end = z3.Sum(*[(b - 48) * 10 ** (n - 1 - i) for i, b in enumerate(bs)]), p.off + n
        val = z3.simplify(val)
    else:
        val, end = z3.IntVal(0), z3.IntVal(p.off)
        for w in range(n):
            for sg in (0, 1):
                for d in range(1, n - w - sg + 1):
                    i = w + sg; j = i + d
                    c = [isws(b) for b in bs[:w]] + ([z3.Or(bs[w] == 43, bs[w] == 45)] if sg else []) + [isdig(b) for b in bs[i:j]] + ([z3.Not(isdig(bs[j]))] if j < n else [])
                    c = z3.And(*c); v = z3.Sum(*[(b - 48) * 10 ** (d - 1 - k) for k, b in enumerate(bs[i:j])]) if d > 1 else bs[i] - 48
                    if sg: v = z3.If(bs[w] == 45, -v, v)
                    val = z3.If(c, v, val); end = z3.If(c, z3.IntVal(p.off + j), end)
    if not isnull(a[1]): E.store(st, a[1], Ptr(p.blk, end), 8)
    r = V(64); r._s = val; r.lo, r.hi = -10 ** 12, 10 ** 12
    return INT.mks(64, val) if hasattr(INT, 'mks') else r
def h_strncmp(E, st, a):
    n = a[2].c; b = ext.str_bytes(E, st, a[1]); x, y = a[0], a[1]
    if b is None: b = ext.str_bytes(E, st, a[0]); x, y = a[1], a[0]
    if b is None or n is None or x.blk in (None, 'H'): raise Unsupported('strncmp')
    b = (b + b'\0')[:n]; pre = z3.BoolVal(True); rd = E.byte_reader(st, x); size = st.mem[x.blk].size
    for k, ch in enumerate(b):
        E.oblige(st, z3.Implies(pre, E.A.inrange(E.oadd(x.off, k), 1, size)), 'bounds', 'strncmp reads past the end')
        v = rd(k); E.flush_facts(st); pre = z3.And(pre, INT.u(v) == ch)
    r = E.A.fresh(32, 'strncmp', st, True); st.assume((INT.s(r) == 0) == pre)
    return r
def gm(E, s, T, p):
    """assumed contract of gmtime_r: the unique valid calendar date of the instant, or EOVERFLOW"""
    y, mo, d, H, M, S, wd, yd = (z3.FreshConst(z3.IntSort(), n) for n in ('gy', 'gmo', 'gd', 'gH', 'gM', 'gS', 'gwd', 'gyd'))
    dd = z3.FreshConst(z3.IntSort(), 'gdays')
    ok = z3.And(validdate(y, mo, d), H >= 0, H < 24, M >= 0, M < 60, S >= 0, S < 60, dd == days(y, mo, d), T == dd * 86400 + H * 3600 + M * 60 + S, wd >= 0, wd < 7, (dd + 4 - wd) % 7 == 0, yd >= 0, yd < 366)
    f = s.copy(); f.assume(ok); f.assume(z3.Or(y > (1 << 31) - 1 + 1900, y < -(1 << 31) + 1900)); ext.set_errno(E, f, 75)
    s.assume(ok); s.assume(z3.And(y <= (1 << 31) - 1 + 1900, y >= -(1 << 31) + 1900))
    out = [(f, NULL)]
    for ylo, yhi in ((0, None), (None, -1)):
        for k in range(1, 13):
            g = s.copy(); g.assume(y >= 1900 if ylo == 0 else y < 1900); g.assume(mo == k)
            if not E.feasible(g, z3.BoolVal(True)): continue
            fill(E, g, p, (y, z3.IntVal(k), d, H, M, S, wd, yd), ylo, yhi); out.append((g, p))
    return out
def fill(E, s, p, v, ylo, yhi):
    y, mo, d, H, M, S, wd, yd = v
    put = lambda off, v, lo, hi: E.store(s, Ptr(p.blk, E.oadd(p.off, off)), INT.mks(32, v, lo, hi))
    for off, v, lo, hi in ((SEC, S, 0, 59), (MIN, M, 0, 59), (HOUR, H, 0, 23), (MDAY, d, 1, 31), (MON, mo - 1, 0, 11), (YEAR, y - 1900, ylo, yhi), (WDAY, wd, 0, 6), (YDAY, yd, 0, 365), (ISDST, z3.IntVal(0), 0, 0)): put(off, v, lo, hi)
    E.store(s, Ptr(p.blk, E.oadd(p.off, GMTOFF)), const(64, 0))
    z = E.new_obj(s, 'GMT', 4, 'glob'); E.store(s, Ptr(p.blk, E.oadd(p.off, ZONE)), z, 8)
    s.g['gm'] = (y, mo, d, H, M, S, wd)
def h_gmtime_r(E, s, a):
    return gm(E, s, INT.s(E.load(s, a[0], 64)), a[1])
def h_snprintf(E, st, a):
    """bounded formatting: %c %s %u with optional zero padding; one path per number of digits"""
    fmt = ext.str_bytes(E, st, a[2])
    if fmt is None: raise Unsupported('snprintf format')
    fmt = fmt.decode(); n = ext.offarg(E, a[1]); work = [(st, [])]; ai = 3
    for tok in re.findall(r'%[0-9]*l*[a-z%]|[^%]', fmt):
        if tok[0] != '%' or tok == '%%': work = [(s, o + [const(8, ord(tok[-1]))]) for s, o in work]; continue
        m = re.match(r'%(0?)([0-9]*)(l*)([a-z])$', tok); arg = a[ai]; ai += 1; nw = []
        for s, o in work:
            if m.group(4) == 'c': nw.append((s, o + [E.A.cast(E, s, 'trunc', arg, 8)]))
            elif m.group(4) == 's':
                b = ext.str_bytes(E, s, arg)
                if b is None: raise Unsupported('snprintf %s')
                nw.append((s, o + [const(8, c) for c in b]))
            elif m.group(4) in 'ud':
                u = INT.u(arg) if m.group(4) == 'u' else INT.s(arg); w = int(m.group(2) or 1)
                if m.group(2) and not m.group(1): raise Unsupported('space padding')
                if m.group(4) == 'd': E.oblige(s, u >= 0, 'format', 'negative number formatting is outside the model')
                for d in range(w, 11):
                    c = z3.And(u < 10 ** d, u >= (10 ** (d - 1) if d > w else 0))
                    if not E.feasible(s, c): continue
                    x = s.copy(); x.assume(c)
                    ds = [INT.mku(8, z3.simplify(48 + (u / 10 ** (d - 1 - i)) % 10), 48, 57) for i in range(d)]
                    D = dict(x.g.get('digits', {})); D[tuple(INT.u(v).get_id() for v in ds)] = (u, INT.uiv(arg)[0], 10 ** d - 1, ds); x.g['digits'] = D
                    nw.append((x, o + ds))
            else: raise Unsupported('snprintf ' + tok)
        work = nw
    out = []
    for s, o in work:
        fits = E.A.inrange(0, len(o) + 1, n); L = len(o)
        big, small = E.fork(s.copy(), fits if not isinstance(fits, bool) else fits)
        if big is not None:
            if E.chk_access(big, a[0], L + 1, 'snprintf'):
                for i, v in enumerate(o + [const(8, 0)]): E.store_nochk(big, Ptr(a[0].blk, E.oadd(a[0].off, i)), v, 1)
                if isinstance(a[0].off, int) and a[0].off == 0: big.g[('strlen', a[0].blk)] = const(64, L)
                out.append((big, const(32, L)))
        if small is not None:
            # truncated: at most n bytes of the destination written
            E.oblige(small, E.A.inrange(a[0].off, n, small.mem[a[0].blk].size), 'bounds', 'snprintf size argument exceeds the buffer')
            g = small.copy(); ok = E.new_obj(small, 'trunc', 1, 'glob'); F = E.base_fn('trunc', 8); E.set_range(small, a[0], n, lambda k: F(k)) if not isinstance(n, int) or n else None
            small.g['truncated'] = True
            out.append((small, const(32, L)))
    return out
def initglob(E, st, mod, name, ty, init, cst):
    """file-static tables that no instruction of the module stores to keep their initial value"""
    if name in ('wday_str', 'mon_str') and init is not None and not cst:
        for f in mod.funcs.values():
            for B in f.blocks.values():
                for i in B.ins:
                    if i.op == 'store' and ('glob', name) in (i.a[1], i.a[2]): return None
        p = E.new_obj(st, '@' + name, mod.size(ty), 'glob', ty, mod, 'zero'); E.init_const(st, mod, p.blk, 0, ty, init); st.mem[p.blk].ro = True
        return p
    return None
def setup(t):
    t.E.handlers.update(strtol=h_strtol, strncmp=h_strncmp, gmtime_r=h_gmtime_r, snprintf=h_snprintf, __ctype_b_loc=h_ctype); t.E.glob_hook = initglob
    return t.mod(SRC), t.state()
def need(m, name, n):
    """a function used by contract must exist with the expected arity"""
    f = m.funcs.get(name)
    if f is None or len(f.params) != n: raise Unsupported('contract of %s does not apply' % name)
def tmobj(t, st, name, vals, gmtoff=None, ylo=0):
    """struct tm with (y, m, d, H, M, S) int terms"""
    y, mo, d, H, M, S = vals
    c = {YEAR: INT.mks(32, y - 1900, ylo), MON: INT.mks(32, mo - 1, 0, 11), MDAY: INT.mks(32, d, 1, 31), HOUR: INT.mks(32, H, 0, 23), MIN: INT.mks(32, M, 0, 59), SEC: INT.mks(32, S, 0, 60), WDAY: t.sym(st, 32, 'wday', True), YDAY: t.sym(st, 32, 'yday', True), ISDST: t.sym(st, 32, 'isdst', True), GMTOFF: gmtoff if gmtoff is not None else t.sym(st, 64, 'gmtoff', True), ZONE: NULL}
    return t.cells_obj(st, name, 56, c)
def caldate(t, st, y0=1900, y1=(1 << 31) - 1 + 1900):
    v = [z3.Int(n) for n in ('year', 'month', 'day', 'hour', 'minute', 'second')]; y, mo, d, H, M, S = v
    for x, n in zip(v, ('year', 'month', 'day', 'hour', 'minute', 'second')): t.inputs[n] = x
    st.assume(z3.And(y >= y0, y <= y1, validdate(y, mo, d), H >= 0, H < 24, M >= 0, M < 60, S >= 0, S < 60))
    return v
def s64(e):
    return z3.If(e >= 1 << 63, e - (1 << 64), e)
# ------------------------------------------------------------------------ C11
@task('C11', 'from_tm', fresh_first=True)
def from_tm(t):
    m, st = setup(t); v0 = caldate(t, st); off = t.sym(st, 32, 'off', True); o64 = t.E.A.cast(t.E, st, 'sext', off, 64)
    tm = tmobj(t, st, 'tm', v0, o64); ep = t.cells_obj(st, 'epoch', 8, {0: t.sym(st, 64, 'old_epoch')}); uo = t.cells_obj(st, 'uoff', 4, {0: t.sym(st, 32, 'old_off')})
    t.replay = lambda M, i: ['from_tm', i['year'], i['month'], i['day'], i['hour'], i['minute'], i['second'], i['off']]
    for k in range(1, 13):
        s = st.copy(); s.assume(v0[1] == k); v = list(v0); v[1] = z3.IntVal(k); tm = tmobj(t, s, 'tm', v, o64); fin = t.call(s, m, 'time_local_from_tm', [tm, ep, uo])
        for f in fin:
            t.prove(f, t.s_(f.ret) == 0, 'succeeds')
            t.prove(f, t.s_(t.cell(f, ep)) == instant(*v) - t.s_(off), 'epoch is the Gregorian day count times 86400 plus the time of day minus the offset (month %d)' % k)
            t.prove(f, t.s_(t.cell(f, uo)) == t.s_(off), 'offset is reported')
            t.prove(f, t.unchanged(s, f, tm), 'argument untouched')
        t.cover_any(fin, v[0] > 1 << 30, 'large year'); t.cover_any(fin, v[0] == 2000, 'century leap year')
    for f in t.call(st, m, 'time_local_from_tm', [NULL, ep, uo]): t.prove(f, t.s_(f.ret) < 0, 'missing tm'); t.prove(f, z3.BoolVal(t.unchanged(st, f, ep) and t.unchanged(st, f, uo)), 'nothing written')
    for f in t.call(st, m, 'time_local_from_tm', [tm, NULL, NULL]): t.prove(f, t.s_(f.ret) < 0, 'no output')
    s = st.copy(); tm = tmobj(t, s, 'tm', v, o64)
    for f in t.call(s, m, 'time_local_from_tm', [tm, NULL, uo]): t.prove(f, z3.And(t.s_(f.ret) == 0, t.s_(t.cell(f, uo)) == t.s_(off)), 'offset alone')
@task('C11', 'to_tm_and_back', fresh_first=True)
def to_tm(t):
    m, st = setup(t); e = t.sym(st, 64, 'epoch'); off = t.sym(st, 32, 'off', True)
    t.replay = lambda M, i: ['to_tm', i['epoch'], i['off']]
    T = z3.Int('local'); st.assume(t.u(e) < (1 << 63)); st.assume(T == t.u(e) + t.s_(off)); st.assume(z3.And(T < 1 << 63))
    tm = t.struct_obj(st, m, 'struct.tm', 'tm'); ep = t.cells_obj(st, 'e2', 8, {0: t.sym(st, 64, 'old_epoch')}); uo = t.cells_obj(st, 'o2', 4, {0: t.sym(st, 32, 'old_off')})
    fin = t.call(st, m, 'time_local_to_tm', [e, off, tm]); good = 0
    for f in fin:
        r = t.s_(f.ret)
        if 'gm' not in f.g: t.prove(f, r < 0, 'out of range instants are reported'); continue
        y, mo, d, H, M, S, wd = f.g['gm']
        c = lambda k: t.s_(t.rd(f, tm, 32, k))
        t.prove(f, r == 0, 'succeeds')
        t.prove(f, z3.And(c(YEAR) == y - 1900, c(MON) == mo - 1, c(MDAY) == d, c(HOUR) == H, c(MIN) == M, c(SEC) == S, c(WDAY) == wd), 'calendar fields are those of the local time')
        t.prove(f, instant(y, mo, d, H, M, S) == T, 'they denote the instant shifted by the offset')
        t.prove(f, t.s_(t.rd(f, tm, 64, GMTOFF)) == t.s_(off), 'offset is stored')
        if not t.E.feasible(f, y >= 1900): continue
        for g in t.call(f, m, 'time_local_from_tm', [tm, ep, uo]):
            t.prove(g, z3.And(t.s_(g.ret) == 0, t.u(t.cell(g, ep)) == t.u(e), t.s_(t.cell(g, uo)) == t.s_(off)), 'conversion and back is the identity')
    t.cover_any(fin, lambda f: 'gm' in f.g, 'success')
    for f in t.call(st, m, 'time_local_to_tm', [e, off, NULL]): t.prove(f, t.s_(f.ret) < 0, 'missing tm')

# ------------------------------------------------------------------------ C12
def fvars(e, seen, out):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(str(x))
        st += x.children()
    return out
def local_facts(pc, names):
    """the conjuncts that speak about these variables only (fewer hypotheses: sound)"""
    return [c for c in pc if fvars(c, set(), set()) <= names]
FMT = dict(short=0, long=1, rfc=2)
def dec(x, w): return [z3.simplify(48 + (x / 10 ** (w - 1 - i)) % 10) for i in range(w)]
def lit(s): return [z3.IntVal(ord(c)) for c in s]
def rendering(f, fmt, gm, sign, oh, om, zero, wdk, mk, dw):
    """the standard text of a local time (the specification)"""
    y, mo, d, H, M, S, wd = gm; sg = lit('-' if sign < 0 else '+')
    if fmt == 'short': return dec(y, 4) + dec(mo, 2) + dec(d, 2) + lit('T') + dec(H, 2) + dec(M, 2) + dec(S, 2) + sg + dec(oh, 2) + dec(om, 2)
    if fmt == 'long': return dec(y, 4) + lit('-') + dec(mo, 2) + lit('-') + dec(d, 2) + lit('T') + dec(H, 2) + lit(':') + dec(M, 2) + lit(':') + dec(S, 2) + sg + dec(oh, 2) + lit(':') + dec(om, 2)
    r = lit(WD[wdk] + ', ') + dec(d, dw) + lit(' ' + MN[mk] + ' ') + dec(y, 4) + lit(' ') + dec(H, 2) + lit(':') + dec(M, 2) + lit(':') + dec(S, 2)
    return r + (lit(' GMT') if zero else lit(' ') + sg + dec(oh, 2) + dec(om, 2))
def roundtrip(t, fmt, sg, mon):
    m, st = setup(t); e = t.sym(st, 64, 'epoch'); off = t.sym(st, 32, 'off', True); n = t.sym(st, 64, 'bufsize'); q = z3.Int('offmin')
    st.assume(z3.And(t.u(e) < 253402300800, t.s_(off) == 60 * q, q >= -900, q <= 900, q >= 0 if sg > 0 else q < 0, t.u(n) >= 40, t.u(n) < 1 << 40))
    t.replay = lambda M, i: ['roundtrip', fmt, i['epoch'], i['off']]
    E = t.E
    def gmt(E, s, a):
        out = []
        for g, r in h_gmtime_r(E, s, a):
            if 'gm' in g.g:
                if not (z3.is_int_value(g.g['gm'][1]) and g.g['gm'][1].as_long() in mon): continue
                g.assume(g.g['gm'][0] <= 9999)      # the text form has four year digits
            out.append((g, r))
        return out
    E.handlers['gmtime_r'] = gmt
    b = t.bytes_obj(st, 'buf', t.u(n)); ep = t.cells_obj(st, 'e2', 8, {0: t.sym(st, 64, 'old_epoch')}); uo = t.cells_obj(st, 'o2', 4, {0: t.sym(st, 32, 'old_off')})
    fin = t.call(st, m, 'time_local_format', [e, off, const(32, FMT[fmt]), b, n])
    for f in fin:
        if 'gm' not in f.g: continue      # gmtime_r out of range: impossible here
        t.prove(f, t.s_(f.ret) == 0, 'formatting succeeds')
        gm_ = f.g['gm']; y, mo, d, H, M, S, wd = gm_; t.prove(f, instant(*gm_[:6]) == t.u(e) + t.s_(off), 'fields of the local time')
        a = z3.If(t.s_(off) < 0, -t.s_(off), t.s_(off)); cases = [(None, None, None)]
        if fmt == 'rfc': cases = [(w, int(str(mo)) - 1, k) for w in range(7) for k in (1, 2)]
        for w, mk, dw in cases:
            g = f.copy()
            if w is not None: g.assume(wd == w); g.assume(d < 10 if dw == 1 else d >= 10)
            if w is not None and not E.feasible(g, z3.BoolVal(True)): continue
            for zero in ((False, True) if fmt == 'rfc' and sg > 0 else (False,)):
                h = g.copy()
                if fmt == 'rfc': h.assume((q == 0) if zero else (q != 0))
                if fmt == 'rfc' and not E.feasible(h, z3.BoolVal(True)): continue
                want = rendering(h, fmt, gm_, sg, a / 3600, (a / 60) % 60, zero, w, mk, dw)
                got = [t.u(t.byte(h, b, i)) for i in range(len(want) + 1)]
                t.prove(h, z3.And(*[x == z for x, z in zip(got, want + [z3.IntVal(0)])]), 'text is the standard rendering of the local time')
        for g in t.call(f, m, 'time_local_parse', [b, ep, uo]):
            t.prove(g, t.s_(g.ret) == 0, 'the text is parsed')
            o2, e2 = t.s_(t.cell(g, uo)), t.s_(t.cell(g, ep))
            if not t.prove(g, o2 == t.s_(off), 'parsing the text gives back the offset'): continue
            # cut: the date part on its own, then the shift
            loc = g.copy(); loc.pc = local_facts(g.pc, set(str(x) for x in gm_[:6]) | {str(t.s_(off)), 'offmin'})
            if t.E.valid(loc.pc, e2 + o2 == instant(*gm_[:6]), big=False)[0] != 'proved': loc = g
            if t.prove(loc, e2 + o2 == instant(*gm_[:6]), 'the parsed local time is the formatted one'):
                g = g.copy(); g.pc = [z3.BoolVal(True), e2 + o2 == instant(*gm_[:6]), o2 == t.s_(off), instant(*gm_[:6]) == t.u(e) + t.s_(off)]
            t.prove(g, e2 == t.u(e), 'parsing the text gives back the epoch')
    t.cover_any(fin, lambda f: 'gm' in f.g, 'formatted')
for fmt in FMT:
    for sg in (1, -1):
        for mon in ([tuple(range(1, 13))] if fmt != 'rfc' else [(1, 2), (3, 4), (5, 6), (7, 8), (9, 10), (11, 12)]):
            def mk(fmt=fmt, sg=sg, mon=mon):
                @task('C12', 'roundtrip_%s_%s_%s' % (fmt, 'east' if sg > 0 else 'west', '%d_%d' % (mon[0], mon[-1])), budget=400, feas_ms=500, select_fork=True, fresh_first=True)
                def rt(t): roundtrip(t, fmt, sg, mon)
            mk()

# ------------------------------------------------------------------------ C13
def text(t, st, name='text'):
    p, L, rd = X.cstring(t, st, name); st.mem[p.blk].ro = True
    return p, L, rd
def field(b):
    """meaning of a number field given as byte terms -> (is a number, value): blanks, an optional sign, digits to the end"""
    n = len(b); ok = z3.BoolVal(False); val = z3.IntVal(0)
    for w in range(n):
        for sg in (0, 1):
            i = w + sg
            if i >= n: continue
            c = z3.And(*[isws(x) for x in b[:w]] + ([z3.Or(b[w] == 43, b[w] == 45)] if sg else []) + [isdig(x) for x in b[i:]])
            v = z3.Sum(*[(x - 48) * 10 ** (n - 1 - i - k) for k, x in enumerate(b[i:])]) if n - i > 1 else b[i] - 48
            if sg: v = z3.If(b[w] == 45, -v, v)
            ok = z3.Or(ok, c); val = z3.If(c, v, val)
    return z3.And(ok, val >= 0), val
def bytesat(t, st, p, k, n):
    r = [t.u(t.byte(st, p, k + i)) for i in range(n)]
    return r
def outs(t, st, names):
    return [t.cells_obj(st, n, 4, {0: t.sym(st, 32, 'old_' + n, True)}) for n in names]
def iv(t, f, p): return t.s_(t.cell(f, p))
def vals_at(b, names): return None
@task('C13', 'parse_num')
def pnum(t):
    m, st = setup(t); need(m, 'parse_num', 2)
    for k in (1, 2, 4):
        s = st.copy(); p = t.bytes_obj(s, 'num', k + 1); rd = s.mem[p.blk].regs[0].base; b = [rd(i) for i in range(k + 1)]; t.E.flush_facts(s); o, = outs(t, s, ['num'])
        for v in b[:k]: s.assume(t.u(v) != 0)
        s.assume(t.u(b[k]) == 0); b = b[:k]
        ok, val = field([t.u(v) for v in b]); fin = t.call(s, m, 'parse_num', [p, o])
        for f in fin:
            t.prove(f, (t.s_(f.ret) == 0) == ok, 'exactly the number fields of %d characters are accepted' % k)
            t.prove(f, z3.And(t.s_(f.ret) <= 0, z3.Implies(ok, iv(t, f, o) == val)), 'value of the field')
        t.cover_any(fin, lambda f: z3.And(t.s_(f.ret) == 0, t.u(b[0]) == 32) if k > 1 else t.s_(f.ret) == 0, 'accepted'); t.cover_any(fin, lambda f: t.s_(f.ret) < 0, 'rejected')
def nametask(fn, tab, base):
    @task('C13', fn)
    def nm(t):
        m, st = setup(t); need(m, fn, 2); L = t.u(t.sym(st, 64, 'size')); st.assume(z3.And(L >= 3, L < 1 << 40)); p = t.bytes_obj(st, 'text', L); st.mem[p.blk].ro = True; rd = st.mem[p.blk].regs[0].base
        o, = outs(t, st, ['num']); b = [t.u(rd(i)) for i in range(3)]; t.E.flush_facts(st)
        is_ = lambda w: z3.And(*[x == ord(c) for x, c in zip(b, w)])
        for q in ([o, NULL] if fn == 'parse_wday' else [o]):
            fin = t.call(st, m, fn, [p, q])
            for f in fin:
                r = t.s_(f.ret); t.prove(f, (r == 0) == z3.Or(*[is_(w) for w in tab]), 'exactly the names are recognised'); t.prove(f, z3.Or(r == 0, r == -2), 'not found otherwise')
                if not isnull(q): t.prove(f, z3.Implies(r == 0, z3.And(*[z3.Implies(is_(w), iv(t, f, o) == base + i) for i, w in enumerate(tab)])), 'number of the name')
            t.cover_any(fin, lambda f: t.s_(f.ret) == 0, 'found'); t.cover_any(fin, b[0] == 0, 'empty text')
nametask('parse_wday', WD, 0); nametask('parse_mon', MN, 1)
def numcontract(t, m):
    """parse_num by its contract (task parse_num)"""
    need(m, 'parse_num', 2)
    def h(E, st, a):
        p = a[0]; o = st.mem[p.blk]; bs = []
        for k in range(p.off, o.size):
            v = E.load_bytes(st, o, k, 8); E.flush_facts(st)
            if v.c == 0: break
            E.oblige(st, INT.u(v) != 0, 'precondition', 'no NUL inside a field'); bs.append(INT.u(v))
        else: E.oblige(st, False, 'precondition', 'field text not terminated')
        if not bs: raise Unsupported('empty field')
        ok, val = field(bs); f = st.copy(); f.assume(z3.Not(ok)); st.assume(ok)
        j = E.A.fresh(32, 'badnum', f, True); E.store(f, a[1], j); e = E.A.fresh(32, 'err', f, True); f.assume(INT.s(e) < 0)
        v = z3.FreshConst(z3.IntSort(), 'field'); st.assume(v == val); E.store(st, a[1], INT.mks(32, v, 0, 10 ** len(bs) - 1))
        return [(st, const(32, 0)), (f, e)]
    t.E.handlers['parse_num'] = h
def moncontract(t, m):
    need(m, 'parse_mon', 2); need(m, 'parse_wday', 2)
    def mk(tab, base):
        def h(E, st, a):
            b = []; ok = z3.BoolVal(True)
            rd = E.byte_reader(st, a[0]); size = st.mem[a[0].blk].size
            for k in range(3):
                E.oblige(st, E.A.inrange(E.oadd(a[0].off, k), 1, size), 'precondition', 'three characters readable'); b.append(INT.u(rd(k))); E.flush_facts(st)
            is_ = [z3.And(*[x == ord(c) for x, c in zip(b, w)]) for w in tab]; f = st.copy(); f.assume(z3.Not(z3.Or(*is_))); st.assume(z3.Or(*is_))
            if not isnull(a[1]):
                v = z3.FreshConst(z3.IntSort(), 'name'); st.assume(z3.And(*[z3.Implies(c, v == base + i) for i, c in enumerate(is_)])); E.store(st, a[1], INT.mks(32, v, base, base + len(tab) - 1))
            return [(st, const(32, 0)), (f, const(32, -2))]
        return h
    t.E.handlers['parse_mon'] = mk(MN, 1); t.E.handlers['parse_wday'] = mk(WD, 0)
# specification of the three text parts: -> (denotes, values) over byte terms
def date_spec(b, n):
    """b: at least n byte terms"""
    ys, ms, ds = (b[0:4], b[5:7], b[8:10]) if n == 10 else (b[0:4], b[4:6], b[6:8])
    (a, y), (c, mo), (e, d) = field(ys), field(ms), field(ds); ok = z3.And(a, c, e, mo >= 1, mo <= 12)
    if n == 10: ok = z3.And(ok, b[4] == 45, b[7] == 45)
    return ok, (y, mo, d)
def rfc_spec(b):
    """-> list of (ok, (y, mo, d), length): weekday, day and month in either order"""
    out = []
    comma = b[3] == 44
    def mon(x): return z3.Or(*[z3.And(*[p == ord(c) for p, c in zip(x, w)]) for w in MN]), pickname(x)
    for inv in (0, 1):
        for one in (0, 1):
            i = 5
            if inv: ms = b[i:i + 3]; i += 4
            dsb = b[i:i + (1 if one else 2)]; sp = b[i + 1] == 32; i += 2 if one else 3
            if not inv: ms = b[i:i + 3]; i += 4
            ys = b[i:i + 4]; i += 4
            okm, mo = mon(ms); okd, d = field(dsb); oky, y = field(ys)
            out.append((z3.And(comma, isdig(b[5]) if not inv else z3.Not(isdig(b[5])), sp if one else z3.Not(sp), okm, okd, oky), (y, mo, d), i))
    return out
def pickname(x):
    e = z3.IntVal(0)
    for i, w in enumerate(MN): e = z3.If(z3.And(*[p == ord(c) for p, c in zip(x, w)]), z3.IntVal(i + 1), e)
    return e
@task('C13', 'parse_date')
def pdate(t):
    m, st = setup(t); need(m, 'parse_date', 5); numcontract(t, m); n = t.sym(st, 64, 'n'); L = t.u(n)
    p = t.bytes_obj(st, 'text', L); st.mem[p.blk].ro = True; rd = st.mem[p.blk].regs[0].base
    b = [t.u(rd(i)) for i in range(10)]; t.E.flush_facts(st)
    for i in range(10): st.assume(z3.Implies(L > i, b[i] != 0))
    st.assume(L < 1 << 40); y, mo, d = outs(t, st, ['y', 'm', 'd'])
    fin = t.call(st, m, 'parse_date', [p, n, y, mo, d])
    for f in fin:
        r = t.s_(f.ret); got = (iv(t, f, y), iv(t, f, mo), iv(t, f, d)); alts = []
        for k in (8, 10):
            ok, v = date_spec(b, k); alts.append(z3.And(L == k, ok, *[x == z for x, z in zip(got, v)]))
        t.prove(f, z3.Implies(r >= 0, z3.Or(*alts)), 'an accepted date text denotes the returned date'); t.prove(f, z3.Implies(r >= 0, r == 0), 'success is 0')
    t.cover_any(fin, lambda f: z3.And(t.s_(f.ret) == 0, L == 8), 'short'); t.cover_any(fin, lambda f: z3.And(t.s_(f.ret) == 0, L == 10), 'long'); t.cover_any(fin, lambda f: t.s_(f.ret) < 0, 'rejected')
@task('C13', 'parse_date_rfc1123')
def prfc(t):
    m, st = setup(t); need(m, 'parse_date_rfc1123', 5); numcontract(t, m); moncontract(t, m)
    p = t.bytes_obj(st, 'text', 16); st.mem[p.blk].ro = True; rd = st.mem[p.blk].regs[0].base
    b = [t.u(rd(i)) for i in range(16)]; t.E.flush_facts(st)
    for x in b: st.assume(x != 0)
    y, mo, d = outs(t, st, ['y', 'm', 'd'])
    fin = t.call(st, m, 'parse_date_rfc1123', [p, const(64, 16), y, mo, d])
    for f in fin:
        r = t.s_(f.ret); got = (iv(t, f, y), iv(t, f, mo), iv(t, f, d))
        t.prove(f, z3.Implies(r >= 0, z3.Or(*[z3.And(ok, r == ln, *[x == z for x, z in zip(got, v)]) for ok, v, ln in rfc_spec(b)])), 'an accepted RFC 1123 date denotes the returned date and consumes exactly its text')
    for k in range(4): t.cover_any(fin, lambda f: z3.And(t.s_(f.ret) >= 0, rfc_spec(b)[k][0]), 'form %d' % k)
    t.cover_any(fin, lambda f: t.s_(f.ret) < 0, 'rejected')
ZONES = ['Z', 'GMT', 'UT', 'UTC']
def time_specs(rd, t, st, L):
    """all forms of a time text of L characters: -> list of (ok, (h, m, s, off))"""
    out = []
    B = lambda i: t.u(rd(i))
    for T in (0, 1):
        for long in (0, 1):
            for sp in (0, 1):
                i = T; c = [B(0) == 84] if T else [B(0) != 84]
                if long: c += [B(i + 2) == 58, B(i + 5) == 58, L >= i + 8]; h, mi, s = [[B(i + k), B(i + k + 1)] for k in (0, 3, 6)]; i += 8
                else: h, mi, s = [[B(i + k), B(i + k + 1)] for k in (0, 2, 4)]; i += 6
                fs = [field(x) for x in (h, mi, s)]; c += [f[0] for f in fs]
                if sp: c.append(B(i) == 32); i += 1
                for z in ZONES: out.append((z3.And(L == i + len(z), *c, *[B(i + k) == ord(q) for k, q in enumerate(z)]), tuple(f[1] for f in fs) + (z3.IntVal(0),)))
                for zl in (0, 1):
                    zh, zm = [B(i + 1), B(i + 2)], [B(i + 3 + zl), B(i + 4 + zl)]; (a, x), (e, w) = field(zh), field(zm)
                    ok = z3.And(L == i + 5 + zl, *c, z3.Or(B(i) == 43, B(i) == 45), a, e, *([B(i + 3) == 58] if zl else []))
                    out.append((ok, tuple(f[1] for f in fs) + ((x * 60 + w) * 60 * z3.If(B(i) == 45, -1, 1),)))
    t.E.flush_facts(st)
    return out
@task('C13', 'parse_time', budget=300, select_fork=True)
def ptime(t):
    m, st = setup(t); need(m, 'parse_time', 6); numcontract(t, m); n = t.sym(st, 64, 'n'); L = t.u(n)
    p = t.bytes_obj(st, 'text', L); st.mem[p.blk].ro = True; rd = st.mem[p.blk].regs[0].base; st.assume(L < 1 << 40)
    for i in range(18): x = t.u(rd(i)); t.E.flush_facts(st); st.assume(z3.Implies(L > i, x != 0))
    o = outs(t, st, ['H', 'M', 'S', 'off'])
    specs = time_specs(rd, t, st, L)
    fin = t.call(st, m, 'parse_time', [p, n] + o)
    for f in fin:
        r = t.s_(f.ret); got = [iv(t, f, q) for q in o]
        if not t.E.feasible(f, r >= 0): t.prove(f, r < 0, 'rejected'); continue
        alts = [z3.And(ok, *[x == z for x, z in zip(got, v)]) for ok, v in specs if t.E.feasible(f, ok)]
        t.prove(f, z3.Implies(r >= 0, z3.Or(*alts + [z3.BoolVal(False)])), 'an accepted time text denotes the returned time and offset'); t.prove(f, z3.Implies(r >= 0, r == 0), 'success is 0')
    for k in (0, len(specs) // 2, len(specs) - 1): t.cover_any(fin, lambda f: z3.And(t.s_(f.ret) == 0, specs[k][0]), 'form %d' % k)
    t.cover_any(fin, lambda f: t.s_(f.ret) < 0, 'rejected')
# the whole text, against the contracts of its parts: what a part denotes is a ghost function of (start, length)
GD = {k: z3.Function('date_' + k, z3.IntSort(), z3.IntSort(), z3.IntSort()) for k in 'ymd'}; GDok = z3.Function('date_ok', z3.IntSort(), z3.IntSort(), z3.BoolSort())
GR = {k: z3.Function('rfc_' + k, z3.IntSort(), z3.IntSort()) for k in 'ymdl'}; GRok = z3.Function('rfc_ok', z3.IntSort(), z3.BoolSort())
GT = {k: z3.Function('time_' + k, z3.IntSort(), z3.IntSort(), z3.IntSort()) for k in 'HMSo'}; GTok = z3.Function('time_ok', z3.IntSort(), z3.IntSort(), z3.BoolSort())
def parts(t, m, blk, L):
    E = t.E; need(m, 'parse_date', 5); need(m, 'parse_date_rfc1123', 5); need(m, 'parse_time', 6); moncontract(t, m)
    I = lambda x: z3.IntVal(x) if isinstance(x, int) else x
    def here(st, p, n, what):
        E.oblige(st, p.blk == blk, 'precondition', what + ' works on the text'); E.oblige(st, z3.And(I(p.off) >= 0, I(p.off) + n <= L), 'precondition', what + ' stays inside the text')
    def err(st, ps):
        for q in ps: E.store(st, q, E.A.fresh(32, 'junk', st, True))
        e = E.A.fresh(32, 'err', st, True); st.assume(z3.And(INT.s(e) < 0, INT.s(e) >= -4095)); return e
    def pd(E, st, a):
        o, n = I(a[0].off), INT.u(a[1]); here(st, a[0], n, 'parse_date'); f = st.copy();
        st.assume(z3.And(GDok(o, n), GD['m'](o, n) >= 1, GD['m'](o, n) <= 12, GD['y'](o, n) >= 0, GD['y'](o, n) <= 9999, GD['d'](o, n) >= 0, GD['d'](o, n) <= 99))
        for q, k, hi in zip(a[2:], 'ymd', (9999, 12, 99)): E.store(st, q, INT.mks(32, GD[k](o, n), 1 if k == 'm' else 0, hi))
        return [(st, const(32, 0)), (f, err(f, a[2:]))]
    def pr(E, st, a):
        o = I(a[0].off); here(st, a[0], 16, 'parse_date_rfc1123'); f = st.copy()
        st.assume(z3.And(GRok(o), GR['m'](o) >= 1, GR['m'](o) <= 12, GR['y'](o) >= 0, GR['y'](o) <= 9999, GR['d'](o) >= 0, GR['d'](o) <= 99, GR['l'](o) >= 15, GR['l'](o) <= 16))
        for q, k, hi in zip(a[2:], 'ymd', (9999, 12, 99)): E.store(st, q, INT.mks(32, GR[k](o), 1 if k == 'm' else 0, hi))
        return [(st, INT.mks(32, GR['l'](o), 15, 16)), (f, err(f, a[2:]))]
    def pt(E, st, a):
        o, n = I(a[0].off), INT.u(a[1]); here(st, a[0], n, 'parse_time'); f = st.copy(); st.assume(GTok(o, n))
        for q, k, hi in zip(a[2:], 'HMSo', (99, 99, 99, 99 * 3660)):
            v = GT[k](o, n); st.assume(z3.And(v <= hi, v >= (0 if k != 'o' else -hi))); E.store(st, q, INT.mks(32, v, 0 if k != 'o' else -hi, hi))
        return [(st, const(32, 0)), (f, err(f, a[2:]))]
    E.handlers.update(parse_date=pd, parse_date_rfc1123=pr, parse_time=pt)
def whole(rd, t, st, L):
    """what a date-and-time text denotes -> list of (ok, (y, mo, d, H, M, S, off))"""
    out = []; B = lambda i: t.u(rd(i)); b3 = [B(0), B(1), B(2)]
    wday = z3.Or(*[z3.And(*[x == ord(c) for x, c in zip(b3, w)]) for w in WD])
    for sp in (0, 1):
        for kind in ('rfc', 10, 8):
            if kind == 'rfc': ln = GR['l'](0); c = z3.And(L >= 16, wday, GRok(0), z3.Or(ln == 15, ln == 16)); v = (GR['y'](0), GR['m'](0), GR['d'](0)); bt = z3.If(ln == 15, B(15), B(16))
            else: ln = z3.IntVal(kind); c = z3.And(L >= kind, GDok(0, kind)); v = tuple(GD[k](0, kind) for k in 'ymd'); bt = B(kind)
            c = z3.And(c, bt == 32 if sp else z3.BoolVal(True)); o = ln + sp
            out.append((z3.And(c, L >= o, GTok(o, L - o)), v + tuple(GT[k](o, L - o) for k in 'HMSo')))
    t.E.flush_facts(st)
    return out
@task('C13', 'parse_date_time')
def pdt(t):
    m, st = setup(t); need(m, 'parse_date_time', 9); p, L, rd = text(t, st); parts(t, m, p.blk, L)
    for i in range(18): X.nonzero(t, st, rd, L, i)
    o = outs(t, st, ['y', 'm', 'd', 'H', 'M', 'S', 'off']); specs = whole(rd, t, st, L)
    fin = t.call(st, m, 'parse_date_time', [p, INT.mku(64, L)] + o)
    for f in fin:
        r = t.s_(f.ret); got = [iv(t, f, q) for q in o]
        t.prove(f, z3.Implies(r >= 0, z3.Or(*[z3.And(ok, *[x == z for x, z in zip(got, v)]) for ok, v in specs])), 'an accepted text is a date part and a time part up to its end'); t.prove(f, z3.Implies(r >= 0, r == 0), 'success is 0')
    for k, nm in ((0, 'rfc'), (1, 'long'), (2, 'short')): t.cover_any(fin, lambda f: z3.And(t.s_(f.ret) == 0, specs[k][0]), nm)
    t.cover_any(fin, lambda f: t.s_(f.ret) < 0, 'rejected')
GW = {k: z3.Function('whole_' + k, z3.IntSort(), z3.IntSort()) for k in 'ymdHMSo'}; GWok = z3.Function('whole_ok', z3.IntSort(), z3.BoolSort())
RNG = dict(y=(0, 9999), m=(1, 12), d=(0, 99), H=(0, 99), M=(0, 99), S=(0, 99), o=(-99 * 3660, 99 * 3660))
def wholecontract(t, m, ptr, L, months=None):
    E = t.E; need(m, 'parse_date_time', 9)
    def h(E, st, a):
        E.oblige(st, a[0].blk == ptr.blk and isinstance(a[0].off, int) and a[0].off == 0, 'precondition', 'the text itself is parsed'); E.oblige(st, INT.u(a[1]) == L, 'precondition', 'the whole text is parsed')
        f = st.copy()
        for q in a[2:]: E.store(f, q, E.A.fresh(32, 'junk', f, True))
        e = E.A.fresh(32, 'err', f, True); f.assume(z3.And(INT.s(e) < 0, INT.s(e) >= -4095)); out = [(f, e)]
        for k in months or [None]:
            g = st.copy(); g.assume(GWok(0)); g.g['ok'] = True
            for q, x in zip(a[2:], 'ymdHMSo'):
                v = GW[x](0); g.assume(z3.And(v >= RNG[x][0], v <= RNG[x][1]))
                if x == 'm' and k: g.assume(v == k); E.store(g, q, const(32, k))
                else: E.store(g, q, INT.mks(32, v, *RNG[x]))
            g.g['month'] = k; out.append((g, const(32, 0)))
        return out
    E.handlers['parse_date_time'] = h
@task('C13', 'local_parse', fresh_first=True)
def lparse(t):
    m, st = setup(t); p, L, rd = text(t, st); wholecontract(t, m, p, L, range(1, 13)); ep = t.cells_obj(st, 'epoch', 8, {0: t.sym(st, 64, 'old_epoch')}); uo = t.cells_obj(st, 'uoff', 4, {0: t.sym(st, 32, 'old_off', True)})
    fin = t.call(st, m, 'time_local_parse', [p, ep, uo]); G = {k: GW[k](0) for k in 'ymdHMSo'}
    for f in fin:
        r = t.s_(f.ret)
        if not f.g.get('ok'): t.prove(f, r < 0, 'rejection is passed on'); continue
        v = [G['y'], z3.IntVal(f.g['month'])] + [G[k] for k in 'dHMS']
        t.prove(f, r == 0, 'success'); t.prove(f, t.s_(t.cell(f, uo)) == G['o'], 'offset'); t.prove(f, t.s_(t.cell(f, ep)) == instant(*v) - G['o'], 'epoch of the denoted local time (month %d)' % f.g['month'])
    t.cover_any(fin, lambda f: t.s_(f.ret) == 0, 'accepted'); t.cover_any(fin, lambda f: t.s_(f.ret) < 0, 'rejected')
    for a in ([NULL, ep, uo], [p, NULL, uo], [p, ep, NULL]):
        for f in t.call(st, m, 'time_local_parse', a): t.prove(f, t.s_(f.ret) < 0, 'missing argument rejected')
# ------------------------------------------------------------------------ C14
def ctxobj(t, st, k=None):
    """time context: fields symbolic in 0..3; constant month k"""
    c = {0: t.sym(st, 32, 'fields', True)}; F = t.s_(c[0]); st.assume(z3.And(F >= 0, F <= 3))
    for o, n, lo, hi in ((SEC, 'S', 0, 99), (MIN, 'M', 0, 99), (HOUR, 'H', 0, 99), (MDAY, 'd', 0, 99), (YEAR, 'y', -1900, 8099), (WDAY, 'wday', None, None), (YDAY, 'yday', None, None), (ISDST, 'isdst', None, None)):
        v = z3.Int('ctx_' + n); t.inputs['ctx_' + n] = v
        if lo is not None: st.assume(z3.And(v >= lo, v <= hi))
        else: st.assume(z3.And(v >= -(1 << 31), v < 1 << 31))
        if n == 'y': v0 = z3.Int('ctx_year'); st.assume(z3.And(v0 >= 0, v0 <= 9999, v == v0 - 1900)); v = v0 - 1900
        c[8 + o] = INT.mks(32, v, lo, hi)
    mo = z3.Int('ctx_mon'); t.inputs['ctx_mon'] = mo
    if k: st.assume(mo == k - 1); c[8 + MON] = const(32, k - 1)
    else: st.assume(z3.And(mo >= 0, mo <= 11)); c[8 + MON] = INT.mks(32, mo, 0, 11)
    c[8 + GMTOFF] = t.sym(st, 64, 'tm_gmtoff', True); c[8 + ZONE] = NULL
    g = z3.Int('ctx_off'); t.inputs['ctx_off'] = g; st.assume(z3.And(g >= -99 * 3660, g <= 99 * 3660)); c[64] = INT.mks(32, g, -99 * 3660, 99 * 3660)
    return t.cells_obj(st, 'ctx', 72, c), F
def dcells(t, f, p): return [t.s_(t.rd(f, p, 32, 8 + k)) for k in (YEAR, MON, MDAY)]
def tcells(t, f, p): return [t.s_(t.rd(f, p, 32, 8 + k)) for k in (HOUR, MIN, SEC)] + [t.s_(t.rd(f, p, 32, 64))]
def same(a, b): return z3.And(*[x == y for x, y in zip(a, b)])
EEXIST, EINPROGRESS = 17, 115
for fn, bit in (('time_ctx_set_date', 1), ('time_ctx_set_hour', 2), ('time_ctx_set_time', 3)):
    def mk(fn=fn, bit=bit):
        @task('C14', fn)
        def sd(t):
            m, st = setup(t); p, L, rd = text(t, st); c, F = ctxobj(t, st)
            if bit == 3: wholecontract(t, m, p, L)
            else: parts(t, m, p.blk, L)
            have = {1: z3.Or(F == 1, F == 3), 2: F >= 2, 3: F != 0}[bit]; d0, t0 = dcells(t, st, c), tcells(t, st, c)
            D = [GD['y'](0, L) - 1900, GD['m'](0, L) - 1, GD['d'](0, L)]; Tm = [GT[k](0, L) for k in 'HMSo']
            if bit == 3: D = [GW['y'](0) - 1900, GW['m'](0) - 1, GW['d'](0)]; Tm = [GW[k](0) for k in 'HMSo']
            okp = {1: GDok(0, L), 2: GTok(0, L), 3: GWok(0)}[bit]
            fin = t.call(st, m, fn, [c, p])
            for f in fin:
                r = t.s_(f.ret); F1 = t.s_(t.cell(f, c)); d1, t1 = dcells(t, f, c), tcells(t, f, c); inprog = r == -EINPROGRESS
                # the code of a parse failure could coincide with "in progress": tell by the fields
                acc = F1 != F
                t.prove(f, z3.Implies(have, z3.And(r == -EEXIST, F1 == F, same(d1, d0), same(t1, t0))), 'a half already present is refused and nothing changes')
                t.prove(f, z3.Implies(z3.And(z3.Not(have), z3.Not(acc)), r < 0), 'a rejected text is reported')
                t.prove(f, z3.Implies(z3.And(z3.Not(have), z3.Not(acc)), z3.And(*([same(t1, t0)] if bit == 1 else [same(d1, d0)] if bit == 2 else []) + [F1 == F])), 'a rejected text leaves the other half and the state alone')
                want = {1: z3.And(same(d1, D), same(t1, t0)), 2: z3.And(same(t1, Tm), same(d1, d0)), 3: z3.And(same(d1, D), same(t1, Tm))}[bit]
                t.prove(f, z3.Implies(acc, z3.And(z3.Not(have), okp, F1 == (3 if bit == 3 else F + bit), want)), 'an accepted setting stores what the text denotes and keeps the other half')
                t.prove(f, z3.Implies(acc, r == z3.If(F1 == 3, 0, -EINPROGRESS)), 'result tells whether both halves are present')
            t.cover_any(fin, lambda f: t.s_(f.ret) == 0, 'complete'); t.cover_any(fin, lambda f: t.s_(f.ret) == -EEXIST, 'refused')
            for a in ([NULL, p], [c, NULL]):
                for f in t.call(st, m, fn, a): t.prove(f, t.s_(f.ret) == -22, 'missing argument'); t.prove(f, t.unchanged(st, f, c), 'nothing changed')
    mk()
def getmk(k):
    @task('C14', 'get_local_%d' % k, budget=200, fresh_first=True)
    def getl(t):
        m, st = setup(t); c, F = ctxobj(t, st, k); ep = t.cells_obj(st, 'epoch', 8, {0: t.sym(st, 64, 'old_epoch')}); uo = t.cells_obj(st, 'uoff', 4, {0: t.sym(st, 32, 'old_off', True)})
        d0, t0 = dcells(t, st, c), tcells(t, st, c); fin = t.call(st, m, 'time_ctx_get_local', [c, ep, uo])
        t.replay = lambda M, i: ['get', i['fields'], i['ctx_y'], k - 1, i['ctx_d'], i['ctx_H'], i['ctx_M'], i['ctx_S'], i['ctx_off']]
        for f in fin:
            r = t.s_(f.ret); t.prove(f, r == z3.If(F == 3, 0, -EINPROGRESS), 'available exactly when both halves have been given')
            if t.E.feasible(f, F == 3):
                t.prove(f, z3.Implies(F == 3, t.s_(t.cell(f, uo)) == t0[3]), 'offset of the stored time')
                t.prove(f, z3.Implies(F == 3, t.s_(t.cell(f, ep)) == instant(d0[0] + 1900, z3.IntVal(k), d0[2], t0[0], t0[1], t0[2]) - t0[3]), 'instant of the stored date and time (month %d)' % k)
            if t.E.feasible(f, F != 3): t.prove(f, z3.Implies(F != 3, z3.BoolVal(t.unchanged(st, f, ep) and t.unchanged(st, f, uo))), 'nothing written before')
            t.prove(f, z3.And(t.s_(t.cell(f, c)) == F, same(dcells(t, f, c), d0), same(tcells(t, f, c), t0)), 'reading does not change the context')
        t.cover_any(fin, lambda f: t.s_(f.ret) == 0, 'available'); t.cover_any(fin, lambda f: t.s_(f.ret) < 0, 'not yet')
        for a in ([NULL, ep, uo], [c, NULL, uo], [c, ep, NULL]):
            for f in t.call(st, m, 'time_ctx_get_local', a): t.prove(f, t.s_(f.ret) < 0, 'missing argument')
for _k in range(1, 13): getmk(_k)
@task('C14', 'init')
def cinit(t):
    m, st = setup(t); c, F = ctxobj(t, st)
    for f in t.call(st, m, 'time_ctx_init', [c]):
        t.prove(f, t.s_(f.ret) == 0, 'succeeds')
        bs = [t.u(t.byte(f, c, i)) for i in list(range(0, 4)) + list(range(8, 8 + 36)) + list(range(64, 68))]; t.prove(f, z3.And(*[b == 0 for b in bs]), 'initial state: nothing set, all fields zero')
    for f in t.call(st, m, 'time_ctx_init', [NULL]): t.prove(f, t.s_(f.ret) < 0, 'missing argument')
