"""C15 (bounded integers and reals), C16 (strings), C17 (pool and key stream),
C18 (shuffle), C19 (seeding): src/random.c"""
from lvc.task import *
from lvc.ext import fresh_errno, set_errno, EINTR
SRC = 'src/random.c'
B64 = lambda x: z3.BitVecVal(x, 64)
def need(m, name, n):
    f = m.funcs.get(name)
    if f is None or len(f.params) != n: raise Unsupported('%s/%d is not there: the contract boundary moved' % (name, n))
def zx(t, n=64): return t if t.size() == n else z3.ZeroExt(n - t.size(), t)

# ---------------------------------------------------------------- C15
def c15_draws(t, m, bound):
    """pool_rand by its contract (C17): the len bytes become arbitrary fresh bytes.  Ghost: the last word
    drawn and the number of draws; a draw is allowed only after a rejected one."""
    need(m, 'pool_rand', 3)
    E = t.E
    def h(E, st, a):
        n = a[2].c
        if n is None or not 1 <= n <= 8: raise Unsupported('draw of %s bytes' % n)
        if not E.chk_access(st, a[1], n, 'store'): return None
        if bound is not None:
            mask, mx = bound
            E.oblige(st, z3.Or(z3.Not(st.g['drawn']), z3.UGT(st.g['last'] & mask, mx)), 'post', 'another word is drawn only after a masked word above the maximum')
            E.oblige(st, z3.ULE(mask, B64((1 << (8 * n)) - 1)), 'post', 'the word drawn has every bit of the mask')
        by = [E.A.fresh(8, 'draw') for _ in range(n)]
        for k, v in enumerate(by): E.store_nochk(st, Ptr(a[1].blk, E.oadd(a[1].off, k)), v, 1)
        w = z3.Concat(*[E.A.u(v) for v in reversed(by)]) if n > 1 else E.A.u(by[0])
        st.g['last'] = zx(w); st.g['drawn'] = z3.BoolVal(True); st.g['width'] = 8 * n
        return None
    E.handlers['pool_rand'] = h
    def inv(ctx):
        mask, mx = bound
        return [('previous word was rejected', z3.Or(z3.Not(ctx.st.g['drawn']), z3.UGT(ctx.st.g['last'] & mask, mx)))]
    if bound is not None: E.inv = inv
def p2m1(m):
    r = B64(0)
    for k in range(1, 65): r = z3.If(z3.UGE(m, B64(1) << (k - 1)), B64((1 << k) - 1), r)
    return r
def g15(st): st.g['last'] = B64(0); st.g['drawn'] = z3.BoolVal(False); st.g['width'] = 0
for bits in (8, 16, 32, 64, 'size'):
    def mk(bits=bits):
        @task('C15', 'maximum_%s' % bits, 'bv', fresh_first=True)
        def mx(t):
            m = t.mod(SRC); st = t.state(); g15(st)
            sz = bits == 'size'      # the internal draw of strings and shuffles (C16, C18 rely on its contract)
            if sz: need(m, 'pool_rand_size_maximum', 2)
            v = t.sym(st, 64 if sz else bits, 'maximum'); M = zx(t.u(v)); mask = z3.FreshConst(z3.BitVecSort(64), 'mask')
            st.assume(mask == p2m1(M))
            t.replay = lambda M_, i: ['max', '64' if sz else str(bits), str(i['maximum'])]
            c15_draws(t, m, (mask, M))
            fin = t.call(st, m, 'pool_rand_size_maximum', [t.bytes_obj(st, 'pool', 4096), v]) if sz else t.call(st, m, 'futils_randomr%d_maximum' % bits, [v])
            for f in fin:
                r = zx(t.u(f.ret))
                t.prove(f, z3.ULE(r, M), 'result is at most the maximum')
                t.prove(f, z3.Or(z3.And(f.g['drawn'], r == (f.g['last'] & mask)), z3.And(M == 0, r == 0)), 'result is the last word drawn, masked by the smallest mask covering the maximum')
            t.cover_any(fin, lambda f: z3.And(f.g['drawn'], M > 0), 'a word is drawn')
            t.cover_any(fin, lambda f: M == 0, 'maximum 0')
    mk()
for bits in (8, 16, 32, 64):
    def mk(bits=bits):
        @task('C15', 'whole_%d' % bits, 'bv')
        def whole(t):
            m = t.mod(SRC); st = t.state(); g15(st); c15_draws(t, m, None)
            fin = t.call(st, m, 'futils_randomr%d' % bits, [])
            t.replay = lambda M_, i: ['api', '1']
            for f in fin: t.prove(f, zx(t.u(f.ret)) == f.g['last'], 'result is one whole word of the stream'); t.prove(f, z3.BoolVal(f.g['width'] == bits), 'exactly as many bits as the type')
            t.cover_any(fin, True, 'reached')
    mk()
@task('C15', 'double', 'bv')
def rd(t):
    m = t.mod(SRC); st = t.state(); g15(st); c15_draws(t, m, None)
    t.replay = lambda M_, i: ['api', '1']
    fin = t.call(st, m, 'futils_randomrd', [])
    for f in fin: real(t, f, 53)
    t.cover_any(fin, True, 'reached')
@task('C15', 'float', 'bv')
def rf(t):
    m = t.mod(SRC); st = t.state(); g15(st); c15_draws(t, m, None)
    t.replay = lambda M_, i: ['api', '1']
    fin = t.call(st, m, 'futils_randomrf', [])
    for f in fin: real(t, f, 24)
    t.cover_any(fin, True, 'reached')
def real(t, f, p):
    """the value is k * 2^-p, k = a fixed choice of p distinct bits of one drawn word"""
    from lvc.eng import FV
    v = f.ret
    if not isinstance(v, FV): raise Unsupported('real result is not of the tracked form')
    w = f.g['width']
    t.prove(f, z3.BoolVal(w >= p), 'the word has at least %d bits' % p)
    L = f.g['last']
    # v = k * 2^e
    t.prove(f, z3.BoolVal(v.e == -p), 'the value is a multiple of 2^-%d' % p)
    k = v.m
    if k.decl().kind() != z3.Z3_OP_BV2INT: raise Unsupported('real result is not an integer word: %s %s' % (v.m, k.decl()))
    kk = zx(k.arg(0))
    # some run of p consecutive bits: every grid point is hit by the same number of words
    top, low = z3.LShR(L, w - p), L & B64((1 << p) - 1)
    t.prove(f, z3.ULE(kk, B64((1 << p) - 1)), 'the value is in [0, 1)')
    s1 = t.E.valid(f.pc, kk == top)[0] == 'proved'
    t.prove(f, (kk == top) if s1 else (kk == low), 'the value is made of %d own bits of the word' % p)

# the inline wrappers of random.h (through a harness that only calls them)
@task('C15', 'wrappers', 'bv')
def wrappers(t):
    m = t.harness('random.c')
    t.replay = lambda M_, i: ['api', '1']
    for bits in (8, 16, 32, 64):
        for mx in (False, True):
            nm = 'futils_randomr%d%s' % (bits, '_maximum' if mx else '')
            for null in (False, True):
                st = t.state(); v = t.sym(st, bits, 'maximum'); st.g['calls'] = 0
                def h(E, s, a, v=v, bits=bits, mx=mx):
                    s.g['calls'] += 1; r = t.A.fresh(bits, 'value'); s.g['value'] = t.u(r)
                    if mx: E.oblige(s, t.u(a[0]) == t.u(v), 'post', 'the maximum is passed on')
                    return r
                t.E.handlers[nm] = h
                out = t.bytes_obj(st, 'val', bits // 8)
                for f in t.call(st, m, 'h_random%d%s' % (bits, '_maximum' if mx else ''), [NULL if null else out] + ([v] if mx else [])):
                    r = t.u(f.ret)
                    if null: t.prove(f, r == (-22) % (1 << 32), 'a missing output is refused: ' + nm); continue
                    t.prove(f, r == 0, 'success: ' + nm); t.prove(f, f.g['calls'] == 1, 'one value is drawn: ' + nm)
                    if f.g['calls']: t.prove(f, t.u(t.rd(f, out, bits)) == f.g['value'], 'the value is stored: ' + nm)
    for null in (False, True):
        st = t.state(); n = t.sym(st, 64, 'len'); st.assume(z3.ULT(t.u(n), B64(1) << 62)); out = t.bytes_obj(st, 'buffer', t.u(n)); st.g['calls'] = 0
        def h(E, s, a):
            s.g['calls'] += 1; E.oblige(s, t.u(a[1]) == t.u(n), 'post', 'the whole length is requested')
            E.oblige(s, isinstance(a[0], Ptr) and a[0].blk == out.blk and a[0].off == 0, 'post', 'the buffer is passed on')
        t.E.handlers['futils_random'] = h
        fin = t.call(st, m, 'h_random_bytes', [NULL if null else out, n])
        for f in fin:
            r = t.u(f.ret)
            t.prove(f, z3.And((r == 0) == (False if null else t.u(n) != 0), z3.Or(r == 0, r == (-22) % (1 << 32))), 'random_bytes: a missing buffer or length is refused')
            t.prove(f, z3.Implies(r == 0, z3.BoolVal(f.g['calls'] == 1)), 'random_bytes: the buffer is filled')
        t.cover_any(fin, lambda f: (t.u(f.ret) != 0) if null else (t.u(f.ret) == 0), 'random_bytes reached')

# ---------------------------------------------------------------- C17
U32 = lambda x: z3.BitVecVal(x, 32)
KS = z3.Function('chacha20_keystream', z3.BitVecSort(352), z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(8))   # key and nonce, block counter, byte in block
SIGMA = (0x61707865, 0x3320646e, 0x79622d32, 0x6b206574)
O_X, O_SEEDED, O_ERA, O_AVAIL, O_BUF, POOL, KN = 0, 64, 68, 72, 76, 512, 44
def rotl(x, k): return (x << k) | z3.LShR(x, 32 - k)
def chacha_ref(x):
    y = list(x)
    def q(a, b, c, d):
        y[a] = y[a] + y[b]; y[d] = rotl(y[d] ^ y[a], 16)
        y[c] = y[c] + y[d]; y[b] = rotl(y[b] ^ y[c], 12)
        y[a] = y[a] + y[b]; y[d] = rotl(y[d] ^ y[a], 8)
        y[c] = y[c] + y[d]; y[b] = rotl(y[b] ^ y[c], 7)
    for _ in range(10):
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15)
        q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14)
    return [a + b for a, b in zip(y, x)]
@task('C17', 'chacha_block', 'bv', fresh_first=True)
def cblock(t):
    """the block function computes the ChaCha20 block of RFC 8439 from any 16 input words"""
    m = t.mod(SRC); st = t.state(); need(m, 'chacha_block', 2)
    t.replay = lambda M_, i: ['api', '1']
    pin = t.bytes_obj(st, 'in', 64, es=1); out = t.bytes_obj(st, 'out', 64)
    words = [t.u(t.rd(st, pin, 32, 4 * i)) for i in range(16)]
    ref = chacha_ref(words)
    fin = t.call(st, m, 'chacha_block', [pin, out])
    for f in fin:
        for i in range(16):
            for k in range(4): t.prove(f, t.u(t.byte(f, out, 4 * i + k)) == z3.Extract(8 * k + 7, 8 * k, ref[i]), 'output byte %d is that of the ChaCha20 block' % (4 * i + k))
        t.prove(f, t.unchanged(st, f, pin), 'the input block is not modified')
    t.cover_any(fin, True, 'reached')

def h_block(t, m):
    need(m, 'chacha_block', 2)
    def h(E, st, a):
        x, out = a
        w = [E.A.u(E.load(st, Ptr(x.blk, E.oadd(x.off, 4 * i)), 32)) for i in range(16)]
        E.oblige(st, z3.And(*[w[i] == SIGMA[i] for i in range(4)]), 'post', 'key stream blocks come from the ChaCha20 constants')
        key = z3.simplify(z3.Concat(*(w[4:12] + w[13:16]))); ctr = z3.simplify(w[12])
        if not E.chk_access(st, out, 64, 'store'): return None
        E.set_range(st, out, 64, lambda k: BV.mk(8, KS(key, ctr, E.A.oterm(k))))
        return None
    t.E.handlers['chacha_block'] = h
def ksbyte(key, i):
    """byte i of the key stream of a key, counter starting at 0"""
    return KS(key, z3.Extract(31, 0, z3.LShR(i, 6)), i & 63)
class Pool:
    """a pool in its invariant state: seeded for the current era, constants and zero counter in the
    key block, erased bytes outside the available part"""
    def __init__(s, t, st, m, seeded=True):
        s.t = t
        s.p = p = t.struct_obj(st, m, 'struct.pool', 'pool')
        rd = lambda o: t.u(t.rd(st, p, 32, o))
        s.avail = zx(rd(O_AVAIL)); s.era = rd(O_ERA)
        st.assume(z3.ULE(s.avail, POOL))
        t.inputs['available'] = s.avail
        s.words = [rd(4 * i) for i in range(16)]
        s.key = z3.Concat(*(s.words[4:12] + s.words[13:16]))
        for i in range(4): st.assume(s.words[i] == SIGMA[i])
        st.assume(s.words[12] == 0)
        r = st.mem[p.blk]; s.st0 = st.copy()
    def buf(s, f, i):
        E = s.t.E; o = f.mem[s.p.blk]
        if isinstance(i, int): i = B64(i)
        rs = [r for r in o.regs if isinstance(r.start, int) and r.start == O_BUF]
        if len(rs) != 1: raise Unsupported('pool buffer')
        v = E.reg_byte(f, rs[0], i)
        for c, x in o.cells.items():
            if c >= O_BUF and c < O_BUF + POOL:
                for q in range(E.cell_size(x)): v = E.A.ite(E, i == c + q - O_BUF, E.cell_byte(f, x, q), v)
        return s.t.u(v)
    def old(s, i): return s.buf(s.st0, i)
    def stream(s, i):
        """the bytes the pool would hand out next: what is left, then the key stream of its key"""
        return z3.If(z3.ULT(i, s.avail), s.old(B64(POOL) - s.avail + i), ksbyte(s.key, i - s.avail))
    def keyof(s, by):
        """read 44 bytes as key and nonce words (little endian)"""
        ws = [z3.Concat(by(4 * i + 3), by(4 * i + 2), by(4 * i + 1), by(4 * i)) for i in range(11)]
        return ws
    def f_avail(s, f): return zx(s.t.u(s.t.rd(f, s.p, 32, O_AVAIL)))
    def f_words(s, f): return [s.t.u(s.t.rd(f, s.p, 32, 4 * i)) for i in range(16)]
    def well(s, f, name):
        """the invariant holds again"""
        t = s.t; j = z3.BitVec('erased', 64); a = s.f_avail(f); w = s.f_words(f)
        t.prove(f, z3.ULE(a, POOL), name + ': available bytes stay within the pool')
        t.prove(f, z3.And(*([w[i] == SIGMA[i] for i in range(4)] + [w[12] == 0])), name + ': the generator is at the start of the key stream of its key')
    def erased_pre(s, st, j):
        # a byte outside the available part is erased, unless it was discarded by a reseed without ever being output
        s.discarded = z3.Bool('discarded')
        st.assume(z3.Implies(z3.ULT(j, B64(POOL) - s.avail), z3.Or(s.buf(st, j) == 0, s.discarded)))
    def erased(s, f, j, name, fresh):
        t = s.t; a = s.f_avail(f); now = s.buf(f, j); unused = z3.UGE(j, B64(POOL) - s.avail)
        t.prove(f, z3.Implies(z3.ULT(j, B64(POOL) - a), z3.Or(now == 0, z3.And(z3.Or(s.discarded, unused if not fresh else z3.BoolVal(False)), z3.Not(z3.And(unused, z3.BoolVal(fresh))), now == s.old(j)))), name + ': every byte outside the available part is erased or was never output')

@task('C17', 'keystream', 'bv', fresh_first=True)
def keystream(t):
    """chacha_keystream: bytes 0..len of the key stream, for every length"""
    m = t.mod(SRC); st = t.state(); h_block(t, m); need(m, 'chacha_keystream', 3)
    c = t.struct_obj(st, m, 'struct.chacha', 'chacha'); n = t.sym(st, 64, 'len'); L = t.u(n)
    st.assume(z3.ULE(L, B64(1) << 38))
    W = [t.u(t.rd(st, c, 32, 4 * i)) for i in range(16)]
    for i in range(4): st.assume(W[i] == SIGMA[i])
    st.assume(W[12] == 0)
    key = z3.simplify(z3.Concat(*(W[4:12] + W[13:16])))
    out = t.bytes_obj(st, 'out', L); k = z3.BitVec('k', 64); st0 = st.copy()
    t.replay = lambda M_, i: ['req', str(min(i['len'], 100000))]
    ks_inv(t, out, k, lambda i: ksbyte(key, i), st0, L, [c.blk])
    fin = t.call(st, m, 'chacha_keystream', [c, out, n])
    for f in fin:
        t.prove(f, z3.Implies(z3.ULT(k, L), t.u(t.rd(f, Ptr(out.blk, k), 8)) == ksbyte(key, k)), 'byte k is byte k of the key stream')
        t.prove(f, z3.And(*[t.u(t.rd(f, c, 32, 4 * i)) == W[i] for i in range(16) if i != 12]), 'the key is not modified')
        t.prove(f, t.u(t.rd(f, c, 32, 48)) == z3.Extract(31, 0, z3.LShR(L + 63, 6)), 'the block counter has advanced by the blocks used')
    t.cover_any(fin, z3.ULT(L, 64), 'partial block only'); t.cover_any(fin, z3.And(z3.UGT(L, 64), L & 63 != 0), 'full and partial blocks'); t.cover_any(fin, L == 0, 'nothing')
def ks_inv(t, out, k, spec, st0, L, cblks):
    """invariant of any loop that fills `out` front to back in blocks of 64"""
    def inv(ctx):
        o = []; N = ctx.N
        rdk = lambda s: t.u(t.rd(s, Ptr(out.blk, k), 8))
        o.append(('N bound', z3.ULE(N, z3.LShR(L, 6))))
        for loc in ctx.locs:
            v = ctx.getloc(loc)
            if isinstance(v, Ptr) and v.blk == out.blk: o.append(('p=%s' % (loc,), BV.oterm(v.off) == N * 64))
            elif isinstance(v, V) and v.bits == 64: o.append(('rest=%s' % (loc,), t.u(v) == L - N * 64)); o.append(('done=%s' % (loc,), t.u(v) == N * 64))
            elif isinstance(v, V) and v.bits == 32: o.append(('ctr=%s' % (loc,), t.u(v) == z3.Extract(31, 0, N)))
        for b in cblks:
            if b in ctx.st.mem:
                for i in range(16):
                    cur = t.u(t.rd(ctx.st, Ptr(b, 4 * i), 32)); 
                    if i == 12: o.append(('counter %d' % b, cur == z3.Extract(31, 0, N)))
                    elif b in ctx.entry.mem: o.append(('key %d %d' % (b, i), cur == t.u(t.rd(ctx.entry, Ptr(b, 4 * i), 32))))
        o.append(('byte k', z3.If(z3.ULT(k, N * 64), rdk(ctx.st) == spec(k), rdk(ctx.st) == rdk(st0))))
        return o
    t.E.inv = inv

# seeding by its contract (task C19/pool_seed*): a change of era gives a fresh key and empties the pool
def h_seed(t, m, P):
    need(m, 'rand_fetch', 3)
    def h(E, st, a):
        n = a[1].c
        if n != KN: raise Unsupported('seed of %s bytes' % n)
        if not E.chk_access(st, a[0], n, 'store'): return None
        g = z3.Function('seed!%d' % next(E.nid), z3.BitVecSort(64), z3.BitVecSort(8))
        f = st.copy()
        E.set_range(st, a[0], n, lambda k: BV.mk(8, g(E.A.oterm(k))))
        st.g['seed'] = g
        r = E.A.fresh(32, 'fetch_error'); f.assume(E.A.u(r) < 0)
        E.set_range(f, a[0], n, lambda k: BV.mk(8, z3.Function('junk', z3.BitVecSort(64), z3.BitVecSort(8))(E.A.oterm(k))))
        return [(st, const(32, 0)), (f, r)]
    t.E.handlers['rand_fetch'] = h
def era_hook(t, st, m, era):
    """seed_era as every other thread may have left it"""
    def hook(E, s, mod, name, g):
        return None
    t.E.glob_hook = hook

def prand(t, lo, hi, fresh, part=None):
    """pool_rand for request lengths lo <= len < hi from every pool fill level; fresh: the pool is seeded for the current era"""
    m = t.mod(SRC); st = t.state(); h_block(t, m); h_seed(t, m, None); need(m, 'pool_rand', 3)
    n = t.sym(st, 64, 'len'); L = t.u(n); st.assume(z3.And(z3.UGE(L, lo), z3.ULT(L, hi)))
    P = Pool(t, st, m)
    t.E.glob(st, m, 'seed_era')
    blk = [b for b, o in st.mem.items() if o.name.endswith('seed_era')][0]
    era = t.sym(st, 32, 'era'); t.setcell(st, Ptr(blk, 0), 0, era)
    st.assume((P.era == t.u(era)) if fresh else (P.era != t.u(era)))
    out = t.bytes_obj(st, 'out', L); k = z3.BitVec('k', 64); j = z3.BitVec('j', 64)
    P.erased_pre(st, j); st0 = P.st0 = st.copy()
    t.replay = lambda M_, i: ['fill', str(i.get('available', 0)), str(min(i['len'], 100000))]
    box = {}
    big = lo >= 468
    # the stream this request starts from
    if fresh: S0 = P.stream
    def start(f):
        if fresh: return P.stream
        g = f.g.get('seed')
        if g is None: return None
        key = z3.simplify(z3.Concat(*P.keyof(lambda i: g(B64(i)))))
        return lambda i: ksbyte(key, i)
    if big:
        def inv(ctx):
            if not any(isinstance(ctx.getloc(l), Ptr) and ctx.getloc(l).blk == out.blk for l in ctx.locs): return []
            cb = sorted(b for b, r in ctx.modregs if b != out.blk and b in ctx.st.mem and ctx.st.mem[b].size == 64)
            if len(cb) != 1: return []
            W = [t.u(t.rd(ctx.entry, Ptr(cb[0], 4 * i), 32)) for i in range(16)]
            W = [z3.simplify(w) for w in W[4:12] + W[13:16]]
            names = tuple(w.get_id() for w in W)
            if names not in box: box[names] = [z3.FreshConst(z3.BitVecSort(32), 'dedicated_key') for _ in W]; box[('keep', names)] = W
            kc = box[names]; ctx.st.assume(z3.And(*[a == b for a, b in zip(kc, W)])); ctx.entry.assume(z3.And(*[a == b for a, b in zip(kc, W)]))
            ctx.st.g['dkey'] = tuple(kc)
            key2 = z3.Concat(*kc)
            ks_inv(t, out, k, lambda i: ksbyte(key2, i), st0, L, cb)
            i2 = t.E.inv; t.E.inv = inv
            return i2(ctx)
        t.E.inv = inv
    t.E.opts['unroll'] = 16
    def policy(E, s, fr, header, L):
        """cut the loop that fills the request, unroll those inside the pool (at most 8 blocks)"""
        if not big: return 'unroll'
        for ins in fr.f.blocks[header].ins:
            if ins.op != 'phi': break
            for v, b in ins.a[1]:
                if b == fr.blk or b not in L:
                    try: x = E.val(s, fr, v, ins.a[0])
                    except Exception: continue
                    if isinstance(x, Ptr) and x.blk == out.blk: return 'cut'
        return 'unroll'
    t.E.opts['policy'] = policy
    fin = t.call(st, m, 'pool_rand', [P.p, out, n])
    ok = 0
    for f in fin:
        S = start(f)
        if S is None:
            t.prove(f, False, 'a pool of another era is seeded before output'); continue
        avail0 = P.avail if fresh else B64(0)
        ok += 1
        a = P.f_avail(f); w = P.f_words(f); old = P.words
        nxt = lambda i: P.buf(f, B64(POOL) - a + i)
        if not part:
            P.well(f, 'after')
            P.erased(f, j, 'after', fresh)
            t.prove(f, P.t.u(t.rd(f, P.p, 32, O_ERA)) == t.u(era), 'the pool belongs to the era it was checked against')
        rdk = t.u(t.rd(f, Ptr(out.blk, k), 8))
        use = KN if big else L                      # bytes of the pool this request consumes
        re = z3.ULT(avail0, use)
        # T: the byte sequence handed out from here on, as seen before a possible reload: the first 44 bytes become the new key
        T0 = lambda i: z3.If(re, S(i + KN), S(i))
        if big:
            kc = f.g.get('dkey')
            want = P.keyof(lambda i: T0(B64(i)))
            if kc is None: t.prove(f, z3.Implies(z3.ULT(k, L), rdk == ksbyte(z3.Concat(*want), k)), 'output byte k is byte k of the key stream of a dedicated key')
            else:
                for x in range(11) if part is None else range(part - 1, 11, 6) if part else []: t.prove(f, kc[x] == want[x], 'dedicated key word %d is made of the next unused bytes of the stream' % x)
                if part in (None, 0): t.prove(f, z3.Implies(z3.ULT(k, L), rdk == ksbyte(z3.Concat(*kc), k)), 'output byte k is byte k of the key stream of the dedicated key')
        else:
            t.prove(f, z3.Implies(z3.ULT(k, L), rdk == T0(k)), 'output byte k is the next unused byte of the stream')
        if not part:
            t.prove(f, a == z3.If(re, B64(POOL - KN), avail0) - use, 'exactly the bytes used are consumed')
            t.prove(f, z3.Implies(z3.ULT(k, a), nxt(k) == T0(k + use)), 'the bytes kept are the following, unused ones')
        nk = P.keyof(lambda i: S(B64(i)))
        for x in range(11) if part is None else range(6 - part, 11, 6) if part else []:
            ix = (4 + x) if x < 8 else (5 + x)
            keep = old[ix] if fresh else z3.Concat(*[f.g['seed'](B64(4 * x + b)) for b in (3, 2, 1, 0)])
            t.prove(f, w[ix] == z3.If(re, nk[x], keep), 'key word %d is replaced on a refill by stream bytes that are never output' % x)
    if not ok: raise Unsupported('no path returns')
    t.cover_any(fin, lambda f: (z3.UGE(P.avail, KN if big else L)) if fresh else z3.BoolVal(True), 'served from the pool')
    t.cover_any(fin, lambda f: (z3.ULT(P.avail, KN if big else L)) if fresh else z3.BoolVal(True), 'refilled')
for fresh in (True, False):
    def mk(fresh=fresh):
        @task('C17' if fresh else ['C17', 'C19'], 'request_small' + ('' if fresh else '_new_era'), 'bv', budget=600, fresh_first=True)
        def small(t): prand(t, 0, 468, fresh)
        if not fresh:
          @task(['C17', 'C19'], 'request_large_new_era', 'bv', budget=600, fresh_first=True)
          def large(t): prand(t, 468, 1 << 38, False)
    mk()
for part in range(7):
    def mk(part=part):
        @task('C17', 'request_large_%d' % part, 'bv', cost=10, budget=600, fresh_first=True)
        def large(t): prand(t, 468, 1 << 38, True, part)
    mk()

@task('C17', 'futils_random', 'bv')
def fr(t):
    """the public entry points hand the whole request to the calling thread's own pool"""
    m = t.mod(SRC); st = t.state(); need(m, 'pool_rand', 3)
    t.replay = lambda M_, i: ['api', '1']
    calls = []
    def h(E, s, a):
        s.g['calls'] = s.g.get('calls', ()) + ((a[0], a[1], a[2]),); return None
    t.E.handlers['pool_rand'] = h
    n = t.sym(st, 64, 'len'); out = t.bytes_obj(st, 'out', t.u(n))
    fin = t.call(st, m, 'futils_random', [out, n])
    for f in fin:
        cs = f.g.get('calls', ())
        t.prove(f, z3.BoolVal(len(cs) == 1), 'one request')
        if len(cs) == 1:
            p, b, l = cs[0]
            t.prove(f, z3.BoolVal(b.blk == out.blk and b.off == 0), 'for the caller buffer'); t.prove(f, t.u(l) == t.u(n), 'of the whole length')
    t.cover_any(fin, True, 'reached')

# ---------------------------------------------------------------- C19
from . import posix as X
def sys_read(t, out, K, name, fdarg):
    """getrandom and read: -1 with any errno, 0, or 1..len bytes written by the system.
    Ghost: D = byte K of the buffer has been delivered, sv = the value delivered there"""
    def h(E, st, a):
        p, n = a[fdarg], INT.u(a[fdarg + 1])
        if not fdarg and st.g.get('strong'):
            E.oblige(st, a[2].c & 4 == 0 if a[2].c is not None else (INT.u(a[2]) / 4) % 2 == 0, 'ready-source', 'strong bytes are not asked from a source that may not be ready (GRND_INSECURE)')
        if fdarg and X.needfd(E, st, a[0], name) is None: return []
        if not isinstance(p, Ptr) or p.blk in (None, 'H'): E.oblige(st, False, 'null-deref', name); st.dead = True; return None
        E.oblige(st, E.A.inrange(p.off, n, E.obj(st, p.blk).size), 'bounds', '%s into %s' % (name, st.mem[p.blk].name))
        f, _ = X.fail(E, st); z = st.copy()
        r = z3.FreshConst(z3.IntSort(), 'got'); st.assume(z3.And(r >= 1, r <= n))
        F = z3.Function('sys!%d' % next(E.nid), z3.IntSort(), z3.IntSort())
        off = E.A.oterm(p.off)
        if p.blk == out.blk:
            st.assume(z3.And(F(K - off) >= 0, F(K - off) < 256))
            st.g['sv'] = z3.If(z3.And(off <= K, K < off + r), F(K - off), st.g['sv']); st.g['D'] = z3.Or(st.g['D'], z3.And(off <= K, K < off + r))
            st.g['front'] = z3.simplify(z3.If(st.g['front'] == off, off + r, st.g['front']))
        def rd(k):
            E.range_fact(F(E.A.oterm(k)), 8); return INT.mku(8, F(E.A.oterm(k)))
        E.set_range(st, p, r, rd)
        return [(st, INT.mks(64, r, 1, (1 << 62))), (z, const(64, 0)), (f, const(64, -1))]
    t.E.handlers[name] = h
def fetch(t, strong):
    m = t.mod(SRC); st = t.state(); X.init(st); need(m, 'rand_fetch', 3)
    n = t.sym(st, 64, 'len'); L = t.u(n); K = z3.Int('K'); st.assume(z3.And(L < (1 << 62), L >= (1 if strong else 0)))
    out = t.bytes_obj(st, 'buffer', L)
    st.g['D'] = z3.BoolVal(False); st.g['sv'] = z3.IntVal(-1); st.g['front'] = z3.IntVal(0)      # bytes delivered without a gap
    st.assume(z3.And(K >= 0, K < L)); st0 = st.copy()
    E = t.E; st.g['strong'] = strong
    sys_read(t, out, K, 'getrandom', 0); sys_read(t, out, K, 'read', 1)
    E.handlers.update(open=X.h_open, open64=X.h_open, openat=X.h_openat, close=X.h_close)
    def sysc(E, st, a):
        if a[0].c != 318: raise Unsupported('system call by number')        # getrandom
        return E.handlers['getrandom'](E, st, a[1:])
    E.handlers['syscall'] = sysc
    t.replay = lambda M_, i: ['faults', '2000']
    rdk = lambda s: t.u(t.rd(s, Ptr(out.blk, K), 8))
    def inv(ctx):
        o = []; ps = [l for l in ctx.locs if isinstance(ctx.getloc(l), Ptr) and ctx.getloc(l).blk == out.blk]
        ls = [l for l in ctx.locs if isinstance(ctx.getloc(l), V) and ctx.getloc(l).bits == 64]
        for l in ps:
            p = E.A.oterm(ctx.getloc(l).off)
            o += [('in buffer %s' % (l,), z3.And(p >= 0, p <= L)), ('filled so far %s' % (l,), z3.Implies(K < p, z3.And(ctx.st.g['D'], rdk(ctx.st) == ctx.st.g['sv'])))]
            for q in ls: o += [('rest %s %s' % (l, q), t.u(ctx.getloc(q)) == L - p), ('done %s %s' % (l, q), t.u(ctx.getloc(q)) == p)]
        fr, f0 = ctx.st.g['front'], ctx.entry.g['front']
        o += [('front', z3.And(fr >= 0, fr <= L)), ('filled', z3.Implies(K < fr, z3.And(ctx.st.g['D'], rdk(ctx.st) == ctx.st.g['sv'])))]
        for l in ps: o.append(('at front %s' % (l,), E.A.oterm(ctx.getloc(l).off) == fr))
        for q in ls: o += [('rest %s' % (q,), t.u(ctx.getloc(q)) == L - fr), ('since %s' % (q,), t.u(ctx.getloc(q)) - t.u(ctx.getinit(q)) == fr - f0), ('since - %s' % (q,), t.u(ctx.getinit(q)) - t.u(ctx.getloc(q)) == fr - f0)]
        for q in ls: o.append(('done %s' % (q,), z3.And(t.u(ctx.getloc(q)) <= L, z3.Implies(K < t.u(ctx.getloc(q)), z3.And(ctx.st.g['D'], rdk(ctx.st) == ctx.st.g['sv'])))))
        return o
    E.inv = inv
    fin = t.call(st, m, 'futils_random_strong', [out, n]) if strong else t.call(st, m, 'rand_fetch', [out, n, const(32, 0)])
    for f in fin:
        r = t.ret(f)
        t.prove(f, r <= 0, 'result is 0 or negative')
        t.prove(f, z3.Implies(r == 0, f.g['D']), 'success only if the system delivered every byte')
        t.prove(f, z3.Implies(r == 0, rdk(f) == f.g['sv']), 'every byte is the one the system delivered')
        X.noleak(t, f)
        for e in X.evs(f, 'open'):
            path = X_str(t, f, e['path'])
            if path is not None: t.prove(f, z3.BoolVal(path in (b'/dev/random', b'/dev/urandom')), 'only the system random devices are read')
            if strong and path is not None: t.prove(f, z3.BoolVal(path == b'/dev/random'), 'strong bytes are read from the device that waits until it is ready')
    t.cover_any(fin, lambda f: t.ret(f) == 0, 'success'); t.cover_any(fin, lambda f: t.ret(f) < 0, 'failure')
    t.cover_any([f for f in fin if X.evs(f, 'open')], lambda f: t.ret(f) == 0, 'success through the device')
def X_str(t, f, p):
    from lvc.ext import str_bytes
    return str_bytes(t.E, f, p) if isinstance(p, Ptr) else None
@task('C19', 'fetch', budget=400, fresh_first=True)
def fetch0(t): fetch(t, False)
@task('C19', 'fetch_strong', budget=400, fresh_first=True)
def fetch1(t):
    fetch(t, True)
    for which in (0, 1):
        m = t.mod(SRC); st = t.state(); X.init(st); b = t.bytes_obj(st, 'b', 8)
        for f in t.call(st, m, 'futils_random_strong', [NULL, const(64, 8)] if which else [b, const(64, 0)]): t.prove(f, t.ret(f) < 0, 'missing buffer or length rejected')

def seedcase(t, m):
    st = t.state(); h_seed(t, m, None); P = Pool(t, st, m)
    b = t.E.glob(st, m, 'seed_era').blk; era = t.sym(st, 32, 'current_era'); t.setcell(st, Ptr(b, 0), 0, era)
    st.g['rmw'] = (); st.g['loads'] = ()
    def at(E, s, kind, p):
        if p.blk != b: return
        # other threads may have asked for a reseed at any moment: the counter holds any value
        v = E.A.fresh(32, 'era_now'); E.wobj(s, b).cells[0] = v
        s.g['rmw' if kind == 'rmw' else 'loads'] += (v,)
    t.E.handlers['@atomic'] = at
    def mon(E, s, p, n):
        if p.blk == b: s.g['stores'] = s.g.get('stores', 0) + 1
    t.E.monitors.append(mon)
    P.st0 = st.copy()
    return st, P, b
def seeded_from_system(t, P, f, era, nm):
    g = f.g.get('seed')
    if g is None: t.prove(f, False, nm + 'a seed is taken from the system'); return
    w = P.f_words(f)
    for x in range(11): t.prove(f, w[(4 + x) if x < 8 else (5 + x)] == z3.Concat(*[g(B64(4 * x + q)) for q in (3, 2, 1, 0)]), nm + 'key word %d is made of system bytes' % x)
    P.well(f, nm)
    t.prove(f, P.f_avail(f) == 0, nm + 'bytes of the former seed are discarded')
    t.prove(f, t.u(t.rd(f, P.p, 32, O_ERA)) == era, nm + 'the pool belongs to the era')
def untouched(t, P, f, nm):
    k = z3.BitVec('any', 64)
    t.prove(f, z3.And(*[a == b for a, b in zip(P.f_words(f), P.words)] + [P.f_avail(f) == P.avail, t.u(t.rd(f, P.p, 32, O_ERA)) == P.era, z3.Implies(z3.ULT(k, POOL), P.buf(f, k) == P.old(k))]), nm + 'the pool is not modified')
@task('C19', 'pool_seed', 'bv')
def pool_seed(t):
    m = t.mod(SRC); need(m, 'pool_seed', 2); st, P, b = seedcase(t, m); e = t.sym(st, 32, 'era')
    t.replay = lambda M_, i: ['faults', '2000']
    fin = t.call(st, m, 'pool_seed', [P.p, e])
    for f in fin:
        r = t.u(f.ret)
        if t.E.valid(f.pc, r == 0)[0] == 'proved': seeded_from_system(t, P, f, t.u(e), '')
        else: t.prove(f, r < 0, 'failure is negative'); untouched(t, P, f, 'failure: ')
    t.cover_any(fin, lambda f: t.u(f.ret) == 0, 'seeded'); t.cover_any(fin, lambda f: t.u(f.ret) < 0, 'failed')
@task('C19', 'seed_if_needed', 'bv')
def seed_if(t):
    m = t.mod(SRC); need(m, 'pool_seed_if_needed', 1); st, P, b = seedcase(t, m)
    t.replay = lambda M_, i: ['faults', '2000']
    fin = t.call(st, m, 'pool_seed_if_needed', [P.p])
    for f in fin:
        if len(f.g['loads']) != 1: raise Unsupported('era read %d times' % len(f.g['loads']))
        now = t.u(f.g['loads'][0])
        if f.g.get('seed') is None:
            t.prove(f, P.era == now, 'no seed is taken only when the pool belongs to the current era'); untouched(t, P, f, 'current era: ')
        else: seeded_from_system(t, P, f, now, 'new era: ')
        t.prove(f, z3.BoolVal(f.g.get('stores', 0) == 0), 'the era counter is not modified')
    t.cover_any(fin, lambda f: f.g.get('seed') is None, 'no seed needed'); t.cover_any(fin, lambda f: f.g.get('seed') is not None, 'seeded')
@task('C19', 'reseed', 'bv')
def reseed(t):
    m = t.mod(SRC); need(m, 'pool_get', 0); st, P, b = seedcase(t, m)
    t.E.handlers['pool_get'] = lambda E, s, a: P.p
    t.replay = lambda M_, i: ['faults', '2000']
    fin = t.call(st, m, 'futils_random_reseed', [])
    for f in fin:
        r = t.u(f.ret)
        t.prove(f, z3.BoolVal(len(f.g['rmw']) == 1 and f.g.get('stores', 0) == 1), 'the era is advanced by one atomic operation')
        if len(f.g['rmw']) != 1: continue
        o = t.u(f.g['rmw'][0]); now = t.u(t.cell(f, Ptr(b, 0), 0))
        t.prove(f, z3.And(now != o, (now & 1) == (o & 1)), 'the new era differs from the old one and can never be the era of an unseeded pool')
        t.prove(f, now == o + 2, 'eras increase')
        if t.E.valid(f.pc, r == 0)[0] == 'proved': seeded_from_system(t, P, f, now, '')
        else: t.prove(f, r < 0, 'failure is negative'); untouched(t, P, f, 'failure: the next output will seed: ')
    t.cover_any(fin, lambda f: t.u(f.ret) == 0, 'reseeded'); t.cover_any(fin, lambda f: t.u(f.ret) < 0, 'failed')
@task('C19', 'first_use', 'bv')
def first(t):
    """a pool that was never used (all zero) is of no era that can be current: the counter starts odd"""
    m = t.mod(SRC); g = m.globals.get('seed_era'); st = t.state()
    if g is None: raise Unsupported('no era counter')
    v = g[1]
    t.prove(st, z3.BoolVal(v is not None and v[0] == 'int' and v[1] % 2 == 1), 'the era counter starts odd')
    ps = [x for x in m.globals if x.split('.')[-1] == 'pool']
    if len(ps) != 1: raise Unsupported('the pool is not a single static object')
    z = m.globals[ps[0]][1]
    t.prove(st, z3.BoolVal(z is not None and z[0] in ('zero', 'zeroinitializer', 'zeroinit')), 'an unused pool is zero, era included'); t.prove(st, z3.BoolVal(bool(m.globals[ps[0]][3])), 'every thread has its own pool')
    t.cover(st, True, 'reached')
