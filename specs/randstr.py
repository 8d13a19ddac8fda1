"""C16 (random strings) and C18 (shuffle): src/random.c"""
from lvc.task import *
from .randomspec import need, zx, SRC, B64
from . import posix as X
from lvc.ext import EINVAL, ENOMEM

def stream(t, m):
    """pool_rand by its contract (C17): draw number i yields the next bytes of the stream, D(i)"""
    need(m, 'pool_rand', 3); E = t.E
    D = z3.Function('draw', z3.BitVecSort(64), z3.BitVecSort(64))
    def h(E, st, a):
        n = a[2].c
        if n is None or n > 8: raise Unsupported('draw of %s bytes' % n)
        if not E.chk_access(st, a[1], n, 'store'): return None
        d = D(st.g['nd']); st.g['nd'] = z3.simplify(st.g['nd'] + 1); st.g['bits'] = 8 * n
        for k in range(n): E.store_nochk(st, Ptr(a[1].blk, E.oadd(a[1].off, k)), BV.mk(8, z3.Extract(8 * k + 7, 8 * k, d)), 1)
        return None
    E.handlers['pool_rand'] = h
    return D
def has_call(fr, L):
    for b in L:
        for ins in fr.f.blocks[b].ins:
            if ins.op == 'call' and not any(x in ins.txt for x in ('@memcpy', '@memset', '@llvm.')): return True
    return False
def umin(a, b): return z3.If(z3.ULE(a, b), a, b)
ALPHA = dict(base16=b'0123456789abcdef', base32=b'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567', base64=b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')
def look(al, i):
    r = z3.BitVecVal(al[0], 8)
    for q in range(1, len(al)): r = z3.If(i == q, z3.BitVecVal(al[q], 8), r)
    return r
INTMAX = (1 << 31) - 1
#            symbols and bytes per group, bits per symbol, padded
KIND = dict(base16=(16, 8, 4, False), base32=(8, 5, 5, True), base64=(4, 3, 6, True))
def prep(t, st):
    n = t.sym(st, 64, 'len'); c = t.sym(st, 64, 'count'); out = t.bytes_obj(st, 'buffer', t.u(n))
    st.assume(z3.ULT(t.u(n), B64(1) << 62))
    st.g['nd'] = B64(0); st.g['bits'] = 0
    k = z3.BitVec('k', 64)
    return n, c, out, k
def allc(e):
    out = {}; todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        todo += x.children()
    return list(out.values())
def consts(e): return {x.decl().name() for x in allc(e)}
def uses_fn(e):
    todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or (z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED): return True
        todo += x.children()
    return False
def enc_task(nm, rest):
    @task('C16', nm if rest is None else '%s tail %d' % (nm, rest), 'bv', budget=600, fresh_first=True)
    def enc(t):
        G, M, bits, pad = KIND[nm]; al = ALPHA[nm]
        m = t.mod(SRC); st = t.state(); n, c, out, k = prep(t, st); D = stream(t, m); E = t.E
        L, C = t.u(n), t.u(c)
        t.replay = lambda M_, i: ['str', nm, str(min(i['len'], 1 << 16)), str(i['count'])]
        if pad:
            # count = grp * M + rest: division by M is stated with its quotient, a named constant
            grp = z3.BitVec('groups', 64); up = 1 if rest else 0
            st.assume(z3.ULE(grp, ((1 << 64) - 1 - rest) // M)); st.assume(C == grp * M + rest)
            small = z3.ULE(grp, B64(1) << 33); full = (grp + up) * G
            def div(st_, op, x, d):
                df = z3.simplify(x - C)
                if z3.is_bv_value(df) and df.as_long() < 2 * M and d == M:
                    kk = df.as_long()
                    if E.valid(st_.pc, z3.ULE(C, (1 << 64) - 1 - kk), False, False)[0] != 'proved': return None
                    # grp * M + rest + kk < 2^64, so the quotient and the remainder are those of the integers
                    return BV.mk(64, z3.simplify(grp + (rest + kk) // M)) if op == 'udiv' else const(64, (rest + kk) % M)
                # sizes of the last group
                v = 8 * rest; xs = consts(x)
                few = [p for p in st_.pc if xs & consts(p) and not uses_fn(p)]
                if E.valid(few, x == v, False, False)[0] == 'proved' or E.valid(st_.pc, x == v, False, False)[0] == 'proved':
                    for y in allc(x):
                        if E.valid(few, y == rest, False, False)[0] == 'proved': st_.assume(y == rest)
                    return const(64, v // d if op == 'udiv' else v % d)
                if d == M:
                    for kk in range(0, 2 * M):
                        if E.valid(st_.pc, x == C + kk, False, False)[0] == 'proved': break
                    else: return None
                    if E.valid(st_.pc, z3.ULE(C, (1 << 64) - 1 - kk), False, False)[0] != 'proved': return None
                    return BV.mk(64, z3.simplify(grp + (rest + kk) // M)) if op == 'udiv' else const(64, (rest + kk) % M)
                return None
            E.div_hook = div
        else: grp = None; small = z3.ULE(C, B64(1) << 32); full = C * 2
        acc = z3.And(small, z3.ULE(full, INTMAX))
        PS = z3.BitVec('visible', 64); st.assume(PS == z3.If(L == 0, B64(0), umin(full, L - 1)))
        st0 = st.copy()
        def sym(i):
            g = z3.LShR(i, G.bit_length() - 1); j = i & (G - 1)
            return z3.LShR(D(g), j * bits) & ((1 << bits) - 1), g, j
        def spec(i):
            v, g, j = sym(i); s = look(al, v)
            if not rest: return s
            # last group of rest bytes: whole symbols, one with the remaining high bits, then padding
            w = 8 * rest // bits; rem = 8 * rest - w * bits; mask = ((1 << bits) - 1) & ~((1 << (bits - rem)) - 1)
            return z3.If(z3.Or(z3.ULT(g, grp), z3.ULT(j, w)), s, z3.If(j == w, look(al, v & mask), z3.BitVecVal(61, 8)))
        rdk = lambda s: t.u(t.rd(s, Ptr(out.blk, k), 8))
        def inv(ctx):
            N = ctx.N; o = [('N', z3.ULE(N, grp) if pad else z3.ULE(N, B64(1) << 31)), ('Nb', z3.ULE(N, B64(1) << 31)), ('draws', ctx.st.g['nd'] == N)]
            pos = umin(N * G, PS)
            for l in ctx.locs:
                v = ctx.getloc(l)
                if isinstance(v, Ptr) and v.blk == out.blk: o.append(('p %s' % (l,), BV.oterm(v.off) == pos))
                elif isinstance(v, V) and v.bits == 64:
                    o += [('rest %s' % (l,), t.u(v) == PS - pos), ('pos %s' % (l,), t.u(v) == pos)]
                    if pad: o += [('bytes %s' % (l,), t.u(v) == (grp - N) * M + rest), ('group %s' % (l,), t.u(v) == N), ('last %s' % (l,), z3.Or(z3.And(N == grp, t.u(v) == rest), z3.And(N != grp, z3.UGE(t.u(v), M + rest))))]
            o.append(('more %d' % 1, z3.Or(N == 0, z3.ULT((N - 1) * G, PS))))
            o.append(('byte k', rdk(ctx.st) == z3.If(z3.ULT(k, pos), look(al, sym(k)[0]), rdk(st0))))
            return o
        E.inv = inv
        E.opts['policy'] = lambda E, s, fr, header, Lp: 'cut' if has_call(fr, Lp) else 'unroll'; E.opts['unroll'] = 17
        fin = t.call(st, m, 'futils_random_' + nm, [out, n, c])
        for f in fin:
            r = t.u(f.ret)
            t.prove(f, (r >= 0) == acc, 'accepted exactly when the length fits an int')
            t.prove(f, z3.Implies(acc, z3.SignExt(32, r) == full), 'the full length is returned')
            t.prove(f, z3.Implies(z3.And(acc, z3.ULT(k, PS)), rdk(f) == spec(k)), 'symbol k encodes its own bits')
            t.prove(f, z3.Implies(z3.And(acc, L != 0, k == PS), rdk(f) == 0), 'terminated inside the buffer')
            t.prove(f, z3.Implies(z3.And(z3.ULT(k, L), z3.Or(z3.Not(acc), z3.UGT(k, PS))), rdk(f) == rdk(st0)), 'bytes beyond the text are untouched')
            t.prove(f, z3.Implies(L == 0, f.g['nd'] == 0), 'nothing is drawn for an empty buffer')
        t.cover_any(fin, z3.And(acc, L == full + 1, C == 2 * M + (rest or 0)), 'two groups and a tail'); t.cover_any(fin, z3.And(acc, L == 5, z3.UGT(C, 20)), 'truncated'); t.cover_any(fin, z3.Not(acc), 'rejected')
for nm in KIND:
    if KIND[nm][3]:
        for r in range(KIND[nm][1]): enc_task(nm, r)
    else: enc_task(nm, None)
@task('C16', 'string', 'bv', budget=500, fresh_first=True)
def rstring(t):
    m = t.mod(SRC); st = t.state(); n, c, out, k = prep(t, st); E = t.E; need(m, 'pool_rand_size_maximum', 2)
    L, C = t.u(n), t.u(c)
    A = z3.BitVec('alphabet_len', 64); t.inputs['alphabet_len'] = A; st.assume(z3.ULT(A, B64(1) << 40))
    alp = t.bytes_obj(st, 'alphabet', A + 1); st.mem[alp.blk].ro = True
    rda = st.mem[alp.blk].regs[0].base; st.assume(t.u(rda(A)) == 0); st.g[('strlen', alp.blk)] = BV.mk(64, A)
    t.replay = lambda M_, i: ['string', str(min(i['len'], 1 << 16)), str(i['count']), str(min(i['alphabet_len'], 255))]
    D = z3.Function('index', z3.BitVecSort(64), z3.BitVecSort(64))
    def h(E, s, a):
        E.oblige(s, t.u(a[1]) == A - 1, 'post', 'indexes are drawn over the whole character set')
        d = D(s.g['nd']); s.assume(z3.ULE(d, t.u(a[1]))); s.g['nd'] = z3.simplify(s.g['nd'] + 1)
        return BV.mk(64, d)
    E.handlers['pool_rand_size_maximum'] = h
    st0 = st.copy(); PS = z3.If(z3.Or(L == 0, A == 0), B64(0), umin(C, L - 1)); acc = z3.ULE(C, INTMAX)
    rdk = lambda s: t.u(t.rd(s, Ptr(out.blk, k), 8))
    spec = lambda i: t.u(rda(D(i)))
    def inv(ctx):
        N = ctx.N; o = [('N', z3.ULE(N, PS)), ('draws', ctx.st.g['nd'] == N)]
        for l in ctx.locs:
            v = ctx.getloc(l)
            if isinstance(v, Ptr) and v.blk == out.blk: o.append(('p %s' % (l,), BV.oterm(v.off) == N))
            elif isinstance(v, V) and v.bits == 64: o += [('rest %s' % (l,), t.u(v) == PS - N), ('pos %s' % (l,), t.u(v) == N)]
        o.append(('byte k', rdk(ctx.st) == z3.If(z3.ULT(k, N), spec(k), rdk(st0))))
        return o
    E.inv = inv
    fin = t.call(st, m, 'futils_random_string', [out, n, c, alp])
    for f in fin:
        r = t.u(f.ret)
        t.prove(f, (r >= 0) == acc, 'accepted exactly when the length fits an int')
        t.prove(f, z3.Implies(acc, z3.SignExt(32, r) == z3.If(A == 0, B64(0), C)), 'the full length is returned')
        t.prove(f, z3.Implies(z3.And(acc, z3.ULT(k, PS)), rdk(f) == spec(k)), 'character k is taken from the set by its own draw')
        t.prove(f, z3.Implies(z3.And(acc, L != 0, k == PS), rdk(f) == 0), 'terminated inside the buffer')
        t.prove(f, z3.Implies(z3.And(z3.ULT(k, L), z3.Or(z3.Not(acc), z3.UGT(k, PS))), rdk(f) == rdk(st0)), 'bytes beyond the text are untouched')
        t.prove(f, z3.Implies(acc, f.g['nd'] == PS), 'one draw per character')
    t.cover_any(fin, z3.And(acc, L == 5, C == 20, A == 3), 'truncated'); t.cover_any(fin, z3.And(acc, A == 0, L > 3), 'empty set'); t.cover_any(fin, z3.Not(acc), 'rejected')

# ---------------------------------------------------------------- C18: shuffle
# Elements are tracked by ghosts: x (any element of the former array, b any byte of it) is at position pos(x)
# of the current array.  Two different elements x, y stay at different positions, so at the end the positions
# are a permutation.  Products e * size are written OFF(e) with the facts of integer multiplication, each of
# them proved below (lemmas).
def shuffle(case, size=None):
    @task('C18', 'shuffle %s%s' % (case, '' if size is None else size), 'int', budget=300, obl_ms=20000, alts=2 if case in ('small', 'large') else 1)
    def shuf(t):
        down = t.E.opts.get('alt') == 1  # Fisher-Yates from the last element downwards: the other usual order
        m = t.mod(SRC); st = t.state(); E = t.E; need(m, 'pool_rand_size_maximum', 2)
        N = t.sym(st, 64, 'nmemb'); n = t.u(N)
        if size is None: S = t.sym(st, 64, 'size')
        else: S = const(64, size); t.inputs['size'] = z3.IntVal(size); st.assume(n * size < 1 << 62); N = INT.mku(64, n, 0, (1 << 62) // size)
        sz = t.u(S)
        t.replay = lambda M_, i: ['shuffle', str(min(i['nmemb'], 4096)), str(min(i['size'], 4096))]
        if case == 'null':
            for f in t.call(st, m, 'futils_random_shuffle', [NULL, N, S]):
                t.prove(f, t.s_(f.ret) == -EINVAL, 'a missing array is refused')
            t.cover(st, True, 'reached'); return
        TOT = z3.Int('total'); st.assume(TOT == n * size if size is not None else z3.BoolVal(True)); st.assume(z3.And(TOT >= 0, TOT < 1 << 62))
        if case in ('small', 'large'): st.assume(z3.And(n >= 2, sz > 8 if case == 'large' else z3.And(sz > 0, sz <= 8)))
        else: st.assume(z3.Or(n < 2, sz == 0))
        # total = nmemb * size
        a_, b_, c_ = z3.Ints('a b c')
        OFF = z3.Function('OFF', z3.IntSort(), z3.IntSort()); known = []
        def off(s, e):
            """e * size for an element number e of the array, with the facts relating it to the others"""
            e = z3.simplify(e); o = OFF(e); s.assume(z3.Implies(z3.And(e >= 0, e < n), z3.And(o >= 0, o + sz <= TOT)))
            s.assume(z3.Implies(e == 0, o == 0))
            for q in known:
                if q.eq(e): continue
                s.assume(z3.And(z3.Implies(q < e, OFF(q) + sz <= o), z3.Implies(e < q, o + sz <= OFF(q)), z3.Implies(e == q, o == OFF(q))))
            if not any(q.eq(e) for q in known): known.append(e)
            return o
        if case == 'large':   # the facts used, over the integers
            e1, e2 = z3.Ints('e1 e2')
            t.prove(st, z3.Implies(z3.And(a_ >= 0, a_ < b_, c_ >= 0), (b_ - a_ - 1) * c_ >= 0), 'lemma: products keep the order')
            t.prove(st, a_ * c_ + c_ + (b_ - a_ - 1) * c_ == b_ * c_, 'lemma: an element ends before any later one')
        arr = t.bytes_obj(st, 'array', TOT)
        b = z3.Int('b'); st.assume(z3.And(b >= 0, b < z3.If(sz > 0, sz, 1)))
        x, y = z3.Ints('x y'); st.assume(z3.And(x >= 0, x < n, y >= 0, y < n, x != y)) if case in ('small', 'large') else None
        if case == 'trivial': 
            bb = z3.Int('bb'); st.assume(z3.And(bb >= 0, bb < TOT)); old = t.u(t.rd(st, Ptr(arr.blk, bb), 8))
        else: st.g['pos'] = x; st.g['pos2'] = y; old = t.u(t.rd(st, Ptr(arr.blk, off(st, x) + b), 8))
        st.g['nd'] = z3.IntVal(0)
        def mul(s, p, q):
            for u, v in ((p, q), (q, p)):
                if (v.c == size) if size is not None else (v._u is not None and v._u.eq(S._u)):
                    e = t.u(u); E.flush_facts(s)
                    if not E.entails(s, z3.And(e >= 0, e < n)): return None
                    return INT.mku(64, off(s, e), 0, (1 << 62) - 1)
            return None
        E.mul_hook = mul; E.opts['byte_allocas'] = case == 'small'
        def draw(E, s, a):
            mx = t.u(a[1]); nd = s.g['nd']
            E.oblige(s, mx == n - 1 - nd, 'post', 'draw i is over the elements i..nmemb-1 (every permutation is reached by exactly one sequence of draws)')
            r = E.A.fresh(64, 'r', s); E.flush_facts(s); s.assume(z3.And(t.u(r) >= 0, t.u(r) <= mx))
            u, v = (n - 1 - nd, t.u(r)) if down else (nd, nd + t.u(r))
            for k in ('pos', 'pos2'): s.g[k] = z3.If(s.g[k] == u, v, z3.If(s.g[k] == v, u, s.g[k]))
            s.g['nd'] = z3.simplify(nd + 1)
            off(s, s.g['pos'])
            return r
        E.handlers['pool_rand_size_maximum'] = draw
        st0 = st.copy()
        cur = lambda s: t.u(t.rd(s, Ptr(arr.blk, off(s, s.g['pos']) + b), 8))
        def inv(ctx):
            s = ctx.st; g = s.g
            o = [('draws', z3.And(g['nd'] >= 0, g['nd'] <= n - 1)), ('N', g['nd'] == ctx.N), ('position', z3.And(g['pos'] >= 0, g['pos'] < n)),
                 ('position2', z3.And(g['pos2'] >= 0, g['pos2'] < n)), ('distinct', g['pos'] != g['pos2'])]
            o.append(('content', cur(s) == old))
            for l in ctx.locs:
                v = ctx.getloc(l)
                if isinstance(v, V) and v.bits == 64: o += [('u %s' % (l,), t.u(v) == ctx.N), ('down %s' % (l,), t.u(v) == n - 1 - ctx.N)]
            return o
        E.inv = inv
        E.opts['policy'] = lambda E, s, fr, header, Lp: 'cut' if has_call(fr, Lp) else 'unroll'
        fin = t.call(st, m, 'futils_random_shuffle', [arr, N, S])
        for f in fin:
            if case == 'trivial':
                t.prove(f, t.s_(f.ret) == 0, 'nothing to do is a success')
                t.prove(f, t.u(t.rd(f, Ptr(arr.blk, bb), 8)) == old, 'the array is unchanged'); t.prove(f, f.g['nd'] == 0, 'nothing is drawn'); continue
            r = t.s_(f.ret)
            if f.g.get('alloc_failed'):
                t.prove(f, r == -ENOMEM, 'a failed allocation is reported')
                t.prove(f, z3.And(f.g['pos'] == x, cur(f) == old), 'a failed allocation leaves the array unchanged')
                continue
            t.prove(f, r == 0, 'success is returned')
            t.prove(f, f.g['nd'] == n - 1, 'every element but the last takes its draw')
            t.prove(f, cur(f) == old, 'every element is found intact at its position')
            t.prove(f, z3.And(f.g['pos'] != f.g['pos2'], f.g['pos'] >= 0, f.g['pos'] < n), 'two elements never share a position: the result is a permutation')
            t.prove(f, not X.leaks(f), 'the temporary element is released')
        t.cover_any(fin, lambda f: z3.BoolVal(not f.g.get('alloc_failed')), 'shuffled')
        if case == 'large': t.cover_any(fin, lambda f: z3.BoolVal(bool(f.g.get('alloc_failed'))), 'allocation failure')
for c in ('null', 'trivial', 'small', 'large'): shuffle(c)
@task('C18', 'every permutation has exactly one sequence of draws', 'int')
def perm(t):
    """lemma over the contract of shuffle (step i exchanges positions i and j with j = i + r, draw r in 0..n-1-i; downwards: j = r in 0..i).
    P: the array before step i as a bijection of 0..n-1, Q: the wanted permutation; before step i, P and Q agree on the positions already
    passed.  Then exactly one draw makes them agree on position i as well, and it keeps what was reached and the bijection; by induction over
    the steps every wanted permutation is the result of exactly one sequence of draws."""
    I_, B_ = z3.IntSort(), z3.BoolSort(); st = t.state(); n, i, k, j2 = z3.Ints('n i k j2')
    P, PI, Q, QI = (z3.Function(x, I_, I_) for x in ('P', 'Pinv', 'Q', 'Qinv'))
    inr = lambda e: z3.And(e >= 0, e < n); j = PI(Q(i))
    inst = [z3.And(z3.Implies(inr(e), z3.And(inr(F(e)), G(F(e)) == e))) for F, G in ((P, PI), (Q, QI), (PI, P), (QI, Q)) for e in (i, j, k, j2, Q(i), P(i), P(j), P(j2), Q(j), Q(k), P(k))]
    for nm, passed in (('up', lambda e: e < i), ('down', lambda e: e > i)):
        x = st.copy(); x.assume(z3.And(*inst)); x.assume(z3.And(inr(i), inr(k), n >= 1))
        for e in (i, j, k, j2): x.assume(z3.Implies(z3.And(inr(e), passed(e)), P(e) == Q(e)))
        after = lambda e, a: z3.If(e == i, P(a), z3.If(e == a, P(i), P(e)))
        ok = lambda a: z3.And(inr(a), z3.Not(passed(a)))
        t.prove(x, ok(j), nm + ': the wanted element is among those not passed yet')
        t.prove(x, after(i, j) == Q(i), nm + ': the draw that picks it puts it in its place')
        t.prove(x, z3.Implies(z3.And(ok(j2), after(i, j2) == Q(i)), j2 == j), nm + ': no other draw does')
        t.prove(x, z3.Implies(z3.And(passed(k), ok(j2)), after(k, j2) == P(k)), nm + ': positions already passed are not touched')
        t.prove(x, z3.Implies(z3.And(ok(j2), k != i), after(k, j2) != after(i, j2)), nm + ': the elements stay distinct')
    t.cover(x, z3.And(n == 5, i == 2), 'reachable')
