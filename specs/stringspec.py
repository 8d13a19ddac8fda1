"""C25: src/string.c"""
from lvc.task import *
from lvc import ext
from lvc.ext import EINVAL, ENOMEM
from . import posix as X
SRC = 'src/string.c'
I = z3.IntVal; IS = z3.IntSort()
ENOSYS, EILSEQ, E2BIG, EPROTO = 38, 84, 7, 71
class Conv:
    """assumed contracts of the C library converter: decoding the whole text (length n) gives the wide characters w(0..W-1),
    none of them NUL, or is refused; encoding stores whole characters as long as they fit"""
    def __init__(s, t, st, inp, n):
        s.t, s.E, s.inp, s.n = t, t.E, inp, n; E = t.E
        s.w = z3.Function('w', IS, IS); s.F = z3.Function('forbidden', IS, z3.BoolSort()); s.W = z3.Int('W'); s.head = None; s.need = False; s.some = z3.Bool('some_character_is_forbidden')
        t.inputs['W'] = s.W
        st.assume(z3.And(s.W >= 0, s.W <= n, (s.W == 0) == (n == 0)))
        st.g['conv'] = {}; st.g['wbuf'] = None; st.g['dec'] = None; st.g['enc'] = None; st.g['hit'] = I(-1); st.g['last'] = I(0); st.g['wlen'] = None
        for k in ('iconv_open', 'iconv', 'iconv_close', 'wcschr', 'wcslen'): E.handlers[k] = getattr(s, 'h_' + k)
        E.acc_hook = s.acc; E.handlers['calloc'] = s.h_calloc; E.handlers['malloc'] = s.h_malloc
    def h_calloc(s, E, st, a):
        """an array of wide characters"""
        if a[1].c != 4: return ext.h_calloc(E, st, a)
        f = st.copy(); ext.set_errno(E, f, ENOMEM); f.g['alloc_failed'] = True; n = ext.offarg(E, a[0])
        return [(f, NULL), (st, E.new_obj(st, 'wide', E.omul(n, 4), 'heap', init='zero', es=4))]
    def h_malloc(s, E, st, a):
        n = ext.offarg(E, a[0]); q = None if isinstance(n, int) else E.odiv_s(n, 4)
        if q is None: return ext.h_malloc(E, st, a)
        f = st.copy(); ext.set_errno(E, f, ENOMEM); f.g['alloc_failed'] = True
        return [(f, NULL), (st, E.new_obj(st, 'wide', E.omul(q, 4), 'heap', init='fresh', es=4))]
    def wf(s, st, j): st.assume(z3.And(s.w(j) >= 0, s.w(j) < 1 << 31, z3.Implies(z3.And(j >= 0, j < s.W), s.w(j) != 0)))
    def h_iconv_open(s, E, st, a):
        to, fr = (ext.str_bytes(E, st, x) for x in a)
        k = {(b'WCHAR_T', b'UTF-8'): 'dec', (b'UTF-8', b'WCHAR_T'): 'enc'}.get((to, fr))
        if k is None: raise Unsupported('conversion %s to %s' % (fr, to))
        f = st.copy(); ext.fresh_errno(E, f); f.g['open_failed'] = True
        p = E.new_obj(st, 'iconv', 8, 'glob'); st.g['conv'] = dict(st.g['conv'], **{str(p.blk): k})
        st.assume(E.A.oterm(E.ptr_addr(st, p)) != (1 << 64) - 1)
        return [(st, p), (f, Ptr('H', I((1 << 64) - 1)))]
    def need_(s, E, st, p, what):
        k = st.g['conv'].get(str(p.blk)) if isinstance(p, Ptr) else None
        E.oblige(st, k is not None, 'bad-handle', what + ' on a converter that is not open')
        if k is None: st.dead = True
        return k
    def h_iconv_close(s, E, st, a):
        if s.need_(E, st, a[0], 'iconv_close') is None: return []
        d = dict(st.g['conv']); del d[str(a[0].blk)]; st.g['conv'] = d; return const(32, 0)
    def content(s, st, j, name='wbuf'):
        """wide character j of the buffer, with the loop invariant instantiated at j"""
        if s.head is not None: st.assume(s.head(j)); s.need = True
        s.wf(st, j); v = s.t.u(s.t.rd(st, Ptr(st.g['wbuf'], s.E.omul(j, 4)), 32)); return v
    def acc(s, E, st, p, n, kind):
        if isinstance(p, Ptr) and p.blk == st.g.get('wbuf') and p.blk is not None and n == 4 and 'load' in kind:
            j = E.odiv_s(p.off, 4)
            if j is None: raise Unsupported('index')
            st.g['last'] = j if not isinstance(j, int) else I(j)
            s.wf(st, st.g['last'])
            if s.head is not None: st.assume(s.head(st.g['last'])); s.need = True
    def ptrs(s, E, st, a):
        ip, il, op, ol = E.load(st, a[1], 'ptr'), E.load(st, a[2], 64), E.load(st, a[3], 'ptr'), E.load(st, a[4], 64)
        return ip, s.t.u(il), op, s.t.u(ol)
    def setp(s, E, st, a, ip, il, op, ol):
        E.store(st, a[1], ip, 8); E.store(st, a[2], INT.mku(64, il), 8); E.store(st, a[3], op, 8); E.store(st, a[4], INT.mku(64, ol), 8)
    def h_iconv(s, E, st, a):
        k = s.need_(E, st, a[0], 'iconv')
        if k is None: return []
        if any(isnull(x) for x in a[1:]): raise Unsupported('iconv with missing arguments')
        ip, il, op, ol = s.ptrs(E, st, a); out = []; t = s.t
        if any(not isinstance(x, Ptr) or x.blk in (None, 'H') for x in (ip, op)): raise Unsupported('iconv buffers')
        def bad(x, e, dec=None): ext.set_errno(E, x, e); x.g['iconv_err'] = e; return (x, const(64, -1))
        if k == 'dec':
            if ip.blk != s.inp.blk or ip.off != 0 or st.g['dec'] is not None or not E.entails(st, il == s.n): raise Unsupported('the text is not converted at once')
            E.oblige(st, ol >= 4 * s.W, 'post', 'there is room for every decoded character')
            for e in (EILSEQ, EINVAL):
                f = st.copy(); f.assume(s.n > 0); f.g['dec'] = 'bad'; p = z3.FreshInt('p'); f.assume(z3.And(p >= 0, p < s.n))
                if not E.chk_access(f, op, E.omul(p, 4), 'store'): continue
                junk = z3.Function('junk', IS, IS); E.set_range(f, op, p, lambda j: INT.mku(32, junk(E.A.oterm(j)), 0, (1 << 32) - 1), 4)
                u = z3.FreshInt('used'); f.assume(z3.And(u >= 0, u <= s.n)); s.setp(E, f, a, Ptr(ip.blk, u), il - u, Ptr(op.blk, E.oadd(op.off, E.omul(p, 4))), ol - 4 * p)
                out.append(bad(f, e))
            if not E.chk_access(st, op, E.omul(s.W, 4), 'store'): return out
            E.set_range(st, op, s.W, lambda j: INT.mku(32, s.w(E.A.oterm(j)), 0, (1 << 31) - 1), 4)
            if op.off != 0: raise Unsupported('decoded into the middle of a buffer')
            st.g['wbuf'] = op.blk; st.g['dec'] = 'ok'
            s.setp(E, st, a, Ptr(ip.blk, s.n), I(0), Ptr(op.blk, E.omul(s.W, 4)), ol - 4 * s.W)
            return out + [(st, const(64, 0))]
        K = st.g['wlen']
        if ip.blk != st.g['wbuf'] or ip.off != 0 or K is None or st.g['enc'] is not None or not E.entails(st, il == 4 * K): raise Unsupported('the text is not encoded at once')
        e = z3.Int('e'); S = s.content(st, e)
        p = z3.FreshInt('p'); bo = z3.Function('boff', IS, IS); by = z3.Function('enc', IS, IS)
        def facts(x): x.assume(z3.And(p >= 0, p <= K, bo(p) >= p, bo(p) <= 6 * p, bo(p + 1) > bo(p), bo(p + 1) <= bo(p) + 6))
        for how in ('all', 'full', 'bad'):
            x = st.copy(); facts(x); x.assume(bo(p) <= ol)
            x.assume(p == K if how == 'all' else p < K)
            if how == 'full': x.assume(bo(p + 1) > ol)
            if not E.feasible(x, z3.BoolVal(True)): continue
            nb = bo(p)
            if not E.chk_access(x, op, nb, 'store'): continue
            E.set_range(x, op, nb, lambda j: INT.mku(8, by(E.A.oterm(j)), 0, 255), 1)
            x.g['enc'] = dict(how=how, p=p, K=K, nb=nb, room=ol, op=op, S=S, e=e, by=by)
            s.setp(E, x, a, Ptr(ip.blk, E.omul(p, 4)), il - 4 * p, Ptr(op.blk, E.oadd(op.off, nb)), ol - nb)
            out.append((x, const(64, 0)) if how == 'all' else bad(x, E2BIG if how == 'full' else EILSEQ))
        return out
    def h_wcschr(s, E, st, a):
        if a[0].blk != s.forb.blk or a[0].off != 0: raise Unsupported('wcschr')
        v = z3.simplify(s.t.u(a[1])); g = st.copy(); f = st
        hit = s.F(v); st.assume(s.F(I(0))); j = st.g['last']; st.assume(z3.Implies(z3.And(j >= 0, j < s.W, s.F(s.w(j))), s.some))
        g.assume(z3.Not(hit)); f.assume(hit); f.g['hit'] = v
        o = []
        if E.feasible(g, z3.BoolVal(True)): o.append((g, NULL))
        if E.feasible(f, z3.BoolVal(True)):
            q = z3.FreshInt('at'); f.assume(z3.And(q >= 0, q <= s.FL)); o.append((f, Ptr(s.forb.blk, E.omul(q, 4))))
        return o
    def h_wcslen(s, E, st, a):
        if not isinstance(a[0], Ptr) or a[0].blk != st.g['wbuf'] or a[0].off != 0: raise Unsupported('wcslen')
        o = st.mem[a[0].blk]; E.oblige(st, E.A.oterm(o.size) >= 4 * (s.W + 1) if not isinstance(o.size, int) else True, 'bounds', 'the wide text has a terminator')
        E.oblige(st, s.content(st, s.W) == 0, 'post', 'the wide text is terminated'); st.assume(s.content(st, s.W) == 0)
        K = z3.FreshInt('wcslen'); st.assume(z3.And(K >= 0, K <= s.W)); st.assume(s.content(st, K) == 0)
        j = z3.Int('e'); st.assume(z3.Implies(z3.And(j >= 0, j < K), s.content(st, j) != 0))
        st.g['wlen'] = K; return INT.mku(64, K, 0, 1 << 31)

def base(t, forb, limit=None):
    m = t.mod(SRC); st = t.state(); E = t.E
    inp, n, rd = X.cstring(t, st, 'input', 1 << 28); st.mem[inp.blk].ro = True
    c = Conv(t, st, inp, n); c.wf(st, z3.Int('j'))
    if forb:
        c.FL = z3.Int('len_forbidden'); st.assume(z3.And(c.FL >= 0, c.FL < 1 << 28)); c.forb = t.bytes_obj(st, 'forbidden', E.oadd(E.omul(c.FL, 4), 4), es=4); st.mem[c.forb.blk].ro = True
    return m, st, E, c, inp, n
def done(t, c, f, keep=()):
    t.prove(f, not f.g['conv'], 'every converter is closed'); X_leak = [o.name for i, o in f.mem.items() if o.kind == 'heap' and o.alive]
    t.prove(f, not X_leak, 'no memory leaked')
@task('C25', 'check', 'int', budget=300)
def check(t):
    for forb in (True, False):
        m, st, E, c, inp, n = base(t, forb)
        mb, mw = t.sym(st, 64, 'max_bytes'), t.sym(st, 64, 'max_wchars'); B, Wm = t.u(mb), t.u(mw)
        t.replay = lambda M, i, forb=forb: ['check', str(min(i.get('len_input', 3), 200)), str(min(i['max_bytes'], 1 << 20)), str(min(i['max_wchars'], 1 << 20)), '1' if forb else '0']
        e = z3.Int('e'); st.assume(z3.And(e >= 0, e < c.W)); c.wf(st, e)
        def inv(ctx):
            rs = [(l, t.s_(v)) for l in ctx.locs for v in [ctx.getloc(l)] if isinstance(v, V) and v.bits == 32]
            return [('N', ctx.N <= c.W), ('none so far', z3.Implies(e < ctx.N, z3.Not(c.F(c.w(e)))))] + [('none so far if %s' % (l,), z3.Implies(z3.And(e < ctx.N, v == 0), z3.Not(c.F(c.w(e))))) for l, v in rs] + [('refusal %s' % (l,), z3.Or(v == 0, z3.And(v == -EPROTO, c.some))) for l, v in rs] + [('i %s' % (l,), t.u(v) == ctx.N) for l in ctx.locs for v in [ctx.getloc(l)] if isinstance(v, V) and v.bits == 64]
        E.inv = inv; E.opts['policy'] = 'cut'
        fin = t.call(st, m, 'futils_string_check_utf8', [inp, mb, mw, c.forb if forb else NULL])
        nm = 'with a character set: ' if forb else 'without a character set: '
        for f in fin:
            r = t.s_(f.ret); done(t, c, f)
            long = z3.And(B > 0, n >= B); wide = z3.And(Wm > 0, c.W > Wm)
            t.prove(f, z3.Implies(long, r == -E2BIG), nm + 'a text too long in bytes is refused')
            if f.g.get('open_failed') or f.g.get('alloc_failed'): t.prove(f, z3.Or(long, r < 0), nm + 'missing resources are reported'); continue
            dec = f.g['dec']
            if dec == 'bad': t.prove(f, r == -f.g['iconv_err'], nm + 'malformed text is refused'); continue
            if dec is None: t.prove(f, long, nm + 'the text is examined unless it is too long'); continue
            t.prove(f, z3.Implies(wide, r == -E2BIG), nm + 'a text with too many characters is refused')
            t.prove(f, z3.Or(wide, r == 0, r == -EPROTO), nm + 'other text is accepted or has a forbidden character')
            t.prove(f, z3.Or(wide, r != 0, z3.Not(c.F(c.w(e)))) if forb else z3.Or(wide, r == 0), nm + 'no accepted text has a forbidden character')
            t.prove(f, z3.Or(wide, r != -EPROTO, c.some), nm + 'no sound text is refused')
        t.cover_any(fin, lambda f: t.s_(f.ret) == 0, 'accepted'); t.cover_any(fin, lambda f: t.s_(f.ret) == -E2BIG, 'too long'); t.cover_any(fin, lambda f: t.s_(f.ret) == -EILSEQ, 'malformed')
        if forb: t.cover_any(fin, lambda f: t.s_(f.ret) == -EPROTO, 'forbidden')
    st = t.state(); t.replay = None
    for f in t.call(st, m, 'futils_string_check_utf8', [NULL, const(64, 0), const(64, 0), NULL]): t.prove(f, t.s_(f.ret) == -EINVAL, 'a missing text is refused')
def san(forb):
    @task('C25', 'sanitize' if forb else 'sanitize without a character set', 'int', budget=400)
    def sanitize(t):
        m, st, E, c, inp, n = base(t, forb)
        sz = t.sym(st, 64, 'max_output_size'); s_ = t.u(sz); rep = t.sym(st, 32, 'replacement'); R = t.u(rep)
        out = t.bytes_obj(st, 'output', s_); st.assume(s_ < 1 << 40)
        t.replay = lambda M, i: ['sanitize', str(min(i.get('len_input', 3), 200)), str(min(i['max_output_size'], 1 << 16)), str(i['replacement']), '1' if forb else '0']
        e = z3.Int('e'); st.assume(z3.And(e >= 0, e < c.W)); c.wf(st, e)
        k = z3.Int('k'); st.assume(z3.And(k >= 0, k < s_))
        S = lambda j: z3.If(c.F(c.w(j)), R, c.w(j)) if forb else c.w(j)
        def inv(ctx):
            x = ctx.st; blk = x.g['wbuf']
            o = [('N', ctx.N <= c.W)] + [('i %s' % (l,), t.u(v) == ctx.N) for l in ctx.locs for v in [ctx.getloc(l)] if isinstance(v, V) and v.bits == 64]
            snap = x.copy(); N = ctx.N
            def at(j): 
                v = t.u(E.load_nochk(snap, Ptr(blk, E.omul(j, 4)), 32)); E.facts_pending = []
                return z3.And(z3.Implies(z3.And(j >= 0, j <= c.W), z3.And(v >= 0, v < 1 << 32)), z3.Implies(z3.And(j >= 0, j < N), v == S(j)), z3.Implies(z3.And(j >= N, j < c.W), v == c.w(j)), z3.Implies(j == c.W, v == 0))
            j = z3.Int('j'); c.head = at
            return o + [('every character', at(j))]
        E.inv = inv; E.opts['policy'] = 'cut'
        fin = t.call(st, m, 'futils_string_sanitize_utf8', [inp, out, sz, c.forb if forb else NULL, rep])
        if c.need and not any('every character' in str(a) for _, _, a in E.loopinfo): raise Unsupported('the replacing loop was not understood: %s' % E.loopinfo)
        for f in fin:
            r = t.s_(f.ret); done(t, c, f); now = t.u(t.rd(f, Ptr(out.blk, k), 8))
            t.prove(f, z3.Implies(s_ < 2, r == -EINVAL), 'an output that is too small is refused')
            if f.g.get('open_failed') or f.g.get('alloc_failed'): t.prove(f, r < 0, 'missing resources are reported'); continue
            dec, enc = f.g['dec'], f.g['enc']
            if dec == 'bad': t.prove(f, r == -f.g['iconv_err'], 'malformed text is refused'); continue
            if enc is None: t.prove(f, s_ < 2, 'the text is converted unless the output is too small'); continue
            t.prove(f, z3.Implies(z3.Not(z3.And(R == 0, forb)), enc['K'] == c.W), 'the whole text is encoded')
            t.prove(f, z3.Implies(e < enc['K'], enc['S'] == S(e)), 'exactly the forbidden characters are replaced')
            t.prove(f, enc['op'].blk == out.blk and enc['op'].off == 0, 'the text is stored at the start of the output')
            t.prove(f, enc['room'] == s_ - 1, 'all of the output but the terminator is used')
            if enc['how'] == 'bad': t.prove(f, r < 0, 'a replacement that cannot be encoded is reported'); continue
            nb = enc['nb']
            t.prove(f, z3.Implies(nb < 1 << 31, r == nb), 'the number of bytes is returned')
            t.prove(f, z3.Implies(k < nb, now == enc['by'](k)), 'the encoded text is intact')
            t.prove(f, z3.Implies(k == nb, now == 0), 'and terminated')
        for how in ('all', 'full'): t.cover_any(fin, lambda f: z3.BoolVal(bool(f.g['enc']) and f.g['enc']['how'] == how), how)
        t.cover_any(fin, lambda f: t.s_(f.ret) == -EILSEQ, 'malformed')
        if forb:
            for a in ((NULL, out), (inp, NULL)):
                st2 = st.copy()
                for f in t.call(st2, m, 'futils_string_sanitize_utf8', [a[0], a[1], sz, NULL, rep]): t.prove(f, t.s_(f.ret) == -EINVAL, 'missing arguments are refused')
san(True); san(False)
