"""C06, C07: src/hash.c over an address-indexed heap.  Ghost description of a
well-formed table of any size: slot(i)=B+8i holds c(i,0); chain i is
c(i,0..len(i)-1), linked by the next field and ended by NULL; the entry ring
is node(0)=head, node(1..K-1); every chain entry is a ring node and every
ring node (but the head) is a chain entry; keys are pairwise distinct inside
a chain.  The bucket of a key is whatever bucket the code selects; a
separate task proves that all operations select the same one."""
from lvc.task import *
from lvc import ext
I = z3.IntVal; ZI = z3.IntSort()
def fn(n, k=1): return z3.Function(n, *([ZI] * (k + 1)))
SRC = 'src/hash.c'
# layout of struct hash and struct hash_entry (taken from the IR, checked by the layout task)
H_BUCKETS, H_SIZE, H_ENTRIES, H_FREE, H_LEN = 0, 8, 16, 32, 40
E_NODE, E_CONST, E_DATA, E_KEY, E_NEXT, E_LEN = 0, 16, 24, 32, 40, 48
def P(a): return Ptr('H', z3.simplify(a))
KIND, EB, FO = fn('kind'), fn('ebase'), fn('foff')   # what lives at an address: 1 hash struct, 2 slot, 3 entry
SIX = fn('slotix')
BK, PS, LI = fn('bkt'), fn('pos'), fn('ringix')      # of an entry base
C, LEN, NODE = fn('chain', 2), fn('chainlen'), fn('node')

class Table:
    def __init__(s, t, st, ring=True, init=True):
        s.news = []; s.t = t; s.E = E = t.E; s.ring = ring
        M8, M4 = fn('M8'), fn('M4')
        s.h, s.B, s.n, s.K, s.b = z3.Ints('hash B size K b')
        def F8(a):
            a = z3.simplify(a)
            return s.B if a.eq(s.h) and init else M8(a)
        def F4(a):
            a = z3.simplify(a)
            return s.n if a.eq(z3.simplify(s.h + 8)) and init else M4(a)
        s.F8, s.F4 = F8, F4
        st.heap[8] = HMap(lambda a: s.F8(a)); st.heap[4] = HMap(lambda a: s.F4(a))
        st.assume(z3.And(s.h > 4096, s.h < 1 << 62, s.n >= 1, s.n < 1 << 32, s.B > 4096, s.B < 1 << 62, s.K >= 1, s.K < 1 << 60))
        for o in (0, 8, 16, 24, 32): st.assume(z3.And(KIND(s.h + o) == 1, FO(s.h + o) == o, EB(s.h + o) == 0))
        if not init: s.nb = None
        st.assume(z3.And(M8(s.h) == s.B, M4(s.h + 8) == s.n)) if init else None
        if init: st.assume(z3.And(NODE(I(0)) == s.h + 16))
        st.g['slot'] = I(-1)
        st.g['fresh'] = []; st.g['freed'] = []; st.g['hfree'] = []
        E.heap_valid = s.valid; E.heap_neq = s.neq
        E.handlers.update(calloc=s.calloc, free=s.free); E.handlers['@indirect'] = s.indirect
        if init: s.inst_e(st, NODE(s.K - 1), s.K > 1); s.inst_r(st, s.K - 1); s.inst_r(st, I(0))
    # -- facts (instantiated where needed)
    def slotf(s, i):
        a = s.B + 8 * i
        return z3.Implies(z3.And(i >= 0, i < s.n), z3.And(KIND(a) == 2, SIX(a) == i, EB(a) == 0, s.F8(a) == C(i, I(0)), LEN(i) >= 0, C(i, LEN(i)) == 0))
    def chainf(s, i, k):
        e = C(i, k)
        return z3.Implies(z3.And(i >= 0, i < s.n, k >= 0, k < LEN(i)), z3.And(s.entf(e), BK(e) == i, PS(e) == k, s.F8(e + E_NEXT) == C(i, k + 1), C(i, k + 1) >= 0,
            LI(e) >= 1, LI(e) < s.K, NODE(LI(e)) == e))
    def entf(s, e):
        return z3.And(e > 4096, e < 1 << 62, *[z3.And(KIND(e + o) == 3, EB(e + o) == e, FO(e + o) == o) for o in (0, 8, 16, 24, 32, 40)])
    def inst_e(s, st, e, g):
        """a ring node (not the head) is a chain entry"""
        st.assume(z3.Implies(g, z3.And(s.entf(e), BK(e) >= 0, BK(e) < s.n, PS(e) >= 0, PS(e) < LEN(BK(e)), C(BK(e), PS(e)) == e)))
    def inst_r(s, st, i):
        """ring links at index i"""
        nx, pv = z3.If(i == s.K - 1, I(0), i + 1), z3.If(i == 0, s.K - 1, i - 1)
        a = NODE(i)
        st.assume(z3.Implies(z3.And(i >= 0, i < s.K), z3.And(a > 4096, s.F8(a) == NODE(nx), s.F8(a + 8) == NODE(pv), z3.Implies(i > 0, LI(a) == i))))
        for j in (nx, pv): s.inst_e(st, NODE(j), z3.And(i >= 0, i < s.K, j > 0)); st.assume(z3.Implies(z3.And(i >= 0, i < s.K, j > 0), LI(NODE(j)) == j))
        s.inst_e(st, a, z3.And(i > 0, i < s.K))
    def inst_c(s, st, i, k):
        """facts of position k of chain i and of its ring neighbours"""
        st.assume(s.chainf(i, k)); st.assume(s.slotf(i))
    def distinct(s, i, j, k):
        """keys in a chain are distinct"""
        return z3.Implies(z3.And(i >= 0, i < s.n, j >= 0, k >= 0, j < LEN(i), k < LEN(i), j != k), s.F4(C(i, j) + E_KEY) != s.F4(C(i, k) + E_KEY))
    def cls(s, a):
        for e in s.news:
            if z3.is_int_value(z3.simplify(a - e)): return ('new', e.get_id(), z3.simplify(a - e).as_long())
        d = z3.simplify(a - s.h)
        if z3.is_int_value(d): return ('h', 0, d.as_long())
        if not s.has_b(z3.simplify(a - s.B)): return ('slot', 0, None)
        return None
    def neq(s, a, b):
        x, y = s.cls(a), s.cls(b)
        if x is None or y is None: return False
        if x[:2] != y[:2]: return True
        return x[2] is not None and y[2] is not None and x[2] != y[2]
    # -- accesses
    def valid(s, st, a, n):
        """the access lies in the table's memory and has the size of that field"""
        a = z3.simplify(a)
        for base, alive in st.g['fresh']:
            d = z3.simplify(a - base)
            if z3.is_int_value(d): 
                return z3.BoolVal(alive and s.field_ok(d.as_long(), n))
        for base in st.g['freed']:
            st.assume(True)
        d = z3.simplify(a - s.B)
        if s.has_b(d): pass
        else:
            x = z3.simplify(d / 8)
            ok = z3.And(d % 8 == 0, x >= 0, x < s.n, n == 8)
            if z3.is_int_value(d) or not s.mentions_chain(d):
                st.g['slot'] = s.idx_of(d)
                st.assume(s.slotf(st.g['slot']))
                s.on_slot(st, st.g['slot'])
                return ok
        if s.ring_at_access: s.inst_entry(st, a)
        live = z3.And(*[EB(a) != e for e in st.g['freed']]) if st.g['freed'] else z3.BoolVal(True)
        return z3.Or(z3.And(KIND(a) == 2, SIX(a) >= 0, SIX(a) < s.n, a == s.B + 8 * SIX(a), n == 8),
                     z3.And(KIND(a) == 1, z3.Or(*[z3.And(a == s.h + o, n == w) for o, w in ((0, 8), (8, 4), (8, 8), (16, 8), (24, 8), (32, 8))])),
                     z3.And(KIND(a) == 3, live, z3.Or(*[z3.And(FO(a) == o, n == w) for o, w in ((0, 8), (8, 8), (16, 4), (24, 8), (32, 4), (40, 8))])))
    ring_at_access = False
    def inst_entry(s, st, a):
        """every entry address that is not freshly allocated belongs to a chain entry which is a ring node"""
        d = z3.simplify(a - s.h)
        if z3.is_int_value(d): return
        e = z3.simplify(a - a.arg(0)) if z3.is_add(a) and z3.is_int_value(a.arg(0)) else a       # syntactic base
        key = ('inst', e.get_id())
        if st.g.get(key): return
        st.g[key] = True; s.keep.append(e)
        g = z3.And(KIND(e) == 3, FO(e) == 0, *[e != x for x in s.news])
        i = LI(e)
        s.inst_e(st, e, g); st.assume(z3.Implies(g, z3.And(i >= 1, i < s.K, NODE(i) == e)))
        st.assume(z3.Implies(g, s.chainf(BK(e), PS(e))))
        for x in (i, i - 1, i + 1): s.inst_r(st, z3.simplify(x))
    keep = []
    def on_slot(s, st, i): pass
    def field_ok(s, o, n): return (o, n) in ((0, 8), (8, 8), (16, 4), (24, 8), (32, 4), (40, 8))
    def idx_of(s, d):
        d = z3.simplify(d)
        if z3.is_mul(d) and z3.is_int_value(d.arg(0)) and d.arg(0).as_long() == 8 and d.num_args() == 2: return d.arg(1)
        return z3.simplify(d / 8)
    def names(s, e, acc, seen):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_app(e): acc.add(e.decl().name())
        for c in e.children(): s.names(c, acc, seen)
    def has_b(s, d):
        acc = set(); s.names(d, acc, set()); return 'B' in acc      # B did not cancel: not a slot address
    def mentions_chain(s, d): return False
    # -- callees
    def calloc(s, E, st, a):
        f = st.copy(); ext.set_errno(E, f, ext.ENOMEM); f.g['alloc_failed'] = True
        e = z3.Int('new!%d' % next(E.nid)); s.news.append(e)
        n, m = E.A.u(a[0]), E.A.u(a[1])
        E.oblige(st, z3.simplify(n * m) == E_LEN, 'alloc-size', 'an entry is allocated')
        st.assume(s.entf(e)); st.assume(z3.And(BK(e) == -1, LI(e) == -1))
        st.g['fresh'] = st.g['fresh'] + [(e, True)]
        for w in (8, 4):
            old = st.heap[w]
            def rd(x, old=old):
                x = z3.simplify(x)
                if z3.is_int_value(z3.simplify(x - s.h)) or not s.has_b(z3.simplify(x - s.B)): return old.read(x, s.E)
                if z3.is_int_value(z3.simplify(x - e)): return I(0)
                return z3.If(EB(x) == e, I(0), old.read(x, s.E))
            st.heap[w] = HMap(rd)
        return [(f, NULL), (st, P(e))]
    def free(s, E, st, a):
        p = a[0]
        if isnull(p): return None
        x = z3.simplify(p.off); fr = list(st.g['fresh'])
        for k, (b, al) in enumerate(fr):
            if b.eq(x):
                E.oblige(st, al, 'double-free'); fr[k] = (b, False); st.g['fresh'] = fr; return None
        E.oblige(st, z3.And(KIND(x) == 3, FO(x) == 0, *[x != y for y in st.g['freed']]), 'invalid-free', 'only an entry that is still allocated is freed')
        st.g['freed'] = st.g['freed'] + [x]
        return None
    def indirect(s, E, st, p, av):
        E.oblige(st, p.off == s.F8(s.h + H_FREE), 'callback', 'only the user callback is called')
        st.g['hfree'] = st.g['hfree'] + [av[0].off if isinstance(av[0], Ptr) else E.A.u(av[0])]
        return None
    # -- reading states
    def r8(s, f, a): return f.heap[8].read(z3.simplify(a), s.E)
    def r4(s, f, a): return f.heap[4].read(z3.simplify(a), s.E)
    def frame(s, f, allowed8, nm, new=None, allowed4=()):
        x = z3.Int('any_addr'); g = z3.BoolVal(True) if new is None else EB(x) != new
        s.t.prove(f, z3.Implies(z3.And(g, *[x != a for a in allowed8]), s.r8(f, x) == s.F8(x)), nm + ': no other word is modified')
        s.t.prove(f, z3.Implies(z3.And(g, *[x != a for a in allowed4]), s.r4(f, x) == s.F4(x)), nm + ': no other key, flag or size is modified')
    def unchanged(s, f, nm):
        new = f.g['fresh'][0][0] if f.g['fresh'] else None
        s.frame(f, [], nm, new)
        s.t.prove(f, not f.g['freed'] and not f.g['hfree'] and all(not al for _, al in f.g['fresh']), nm + ': nothing released or leaked')

def setup(t, ring=True):
    st = t.state(); T_ = Table(t, st); b, n = T_.b, T_.n
    j = z3.Int('j')                      # arbitrary position in the selected bucket's chain
    t.inputs.update(j=j)
    def on_slot(s2, i):
        if 'sel' not in s2.g: s2.assume(b == i); s2.g['sel'] = True      # b names the first bucket the code looks at
        for k in (j, I(0), I(1)): T_.inst_c(s2, b, k)
    T_.on_slot = on_slot
    return st, T_, b, j
def search_inv(t, T_, b, j, key):
    """loop over the chain: position N, no match before it"""
    def inv(ctx):
        N = ctx.N; out = [('N<=len', N <= LEN(b))]
        for k in (N, N - 1, N + 1): T_.inst_c(ctx.st, b, k)
        for loc in ctx.locs:
            v, v0 = ctx.getloc(loc), ctx.getinit(loc)
            if isinstance(v0, Ptr) and v0.blk == 'H':        # a walk over link fields starts at the bucket itself
                d = z3.simplify(v0.off - T_.B)
                if not T_.has_b(d):
                    T_.on_slot(ctx.st, T_.idx_of(d))
                    out.append(('%s=&c(N)' % (loc,), v.off == z3.If(N == 0, T_.B + 8 * b, C(b, N - 1) + E_NEXT)))
            if isinstance(v, Ptr) and (v.blk == 'H' or isnull(v)):
                vo = I(0) if isnull(v) else v.off
                out.append(('%s=c(N)' % (loc,), vo == C(b, N)))
                out.append(('%s=c(N-1)' % (loc,), vo == z3.If(N == 0, I(0), C(b, N - 1))))
        out.append(('no match before', z3.Implies(z3.And(j >= 0, j < N), T_.F4(C(b, j) + E_KEY) != key)))
        return out
    t.E.inv = inv
def facts_at(T_, f, b, e):
    """a concrete chain entry e found in state f: its chain and ring neighbourhood"""
    k = PS(e)
    for x in (k, k - 1, k + 1): T_.inst_c(f, b, x)
    i = LI(e)
    for x in (i, i - 1, i + 1): T_.inst_r(f, x)

for nm, const_ in (('lookup', 0), ('lookup_const', 1)):
    def mk(nm=nm, const_=const_):
        for withptr in (True, False):
            def mk2(withptr=withptr):
                @task('C06', nm + ('' if withptr else '_null_result'), null_is_heap=True)
                def lk(t):
                    m = t.mod(SRC); st, T_, b, j = setup(t); key = t.sym(st, 32, 'key'); K = t.u(key)
                    out = t.cells_obj(st, 'out', 8, {0: const(64, 77)})
                    search_inv(t, T_, b, j, K)
                    fin = t.call(st, m, 'futils_hash_' + nm, [P(T_.h), key, out if withptr else NULL])
                    for f in fin:
                        r = t.ret(f); o = f.mem[out.blk].cells[0]
                        T_.unchanged(f, nm); keys_distinct(T_, f, b, j)
                        match = z3.And(j >= 0, j < LEN(b), T_.F4(C(b, j) + E_KEY) == K)
                        t.prove(f, z3.Implies(r == -2, z3.Not(match)), 'not found only if no entry has the key')
                        t.prove(f, z3.Or(r == 0, r == -2, r == -1), 'result is found, not-found or constant')
                        if isinstance(o, Ptr):
                            t.prove(f, z3.Implies(match, o.off == T_.F8(C(b, j) + E_DATA)), 'the data of the entry with that key')
                            t.prove(f, r == 0, 'result written only on success')
                        else:
                            if withptr: t.prove(f, r != 0, 'result written on success')
                        cst = T_.F4(C(b, j) + E_CONST) != 0
                        if const_: t.prove(f, z3.Implies(match, r == 0), 'found if present')
                        else: t.prove(f, z3.Implies(match, z3.If(cst, r == -1, r == 0)), 'found if present, constant data refused')
                    for v in (0, -2): t.cover_any(fin, lambda f: z3.And(t.ret(f) == v, LEN(b) == 3), 'result %d' % v)
                    # distinct keys (invariant of the chain) make the match unique
                mk3 = None
            mk2()
        @task('C06', nm + '_null')
        def nul(t):
            m = t.mod(SRC); st = t.state(); key = t.sym(st, 32, 'key'); out = t.cells_obj(st, 'out', 8, {0: const(64, 77)})
            for f in t.call(st, m, 'futils_hash_' + nm, [NULL, key, out]):
                t.prove(f, z3.And(t.ret(f) < 0, t.unchanged(st, f, out)), 'missing table rejected')
    mk()
for nm, const_ in (('insert', 0), ('insert_const', 1)):
    def mk(nm=nm, const_=const_):
        @task(['C06', 'C07'], nm, null_is_heap=True)
        def ins(t):
            m = t.mod(SRC); st, T_, b, j = setup(t); key = t.sym(st, 32, 'key'); K = t.u(key); data = z3.Int('data'); st.assume(z3.And(data >= 0, data < 1 << 64))
            search_inv(t, T_, b, j, K)
            fin = t.call(st, m, 'futils_hash_' + nm, [P(T_.h), key, Ptr('H', data)])
            x = z3.Int('ringpos')
            for f in fin:
                r = t.ret(f); fr = f.g['fresh']
                match = z3.And(j >= 0, j < LEN(b), T_.F4(C(b, j) + E_KEY) == K)
                if f.g.get('alloc_failed'):
                    t.prove(f, r == -12, 'allocation failure reported'); T_.unchanged(f, 'allocation failure'); continue
                if not t.E.feasible(f, r == 0):
                    t.prove(f, r == -17, 'only "already exists" refuses'); T_.unchanged(f, 'refused insertion')
                    # an entry with the key exists: the position where the search stopped
                    q = z3.Int('q'); e = z3.Int('found')
                    # witness: the loop variable is c(N) with a matching key; state it as: not all positions mismatch
                    t.prove(f, has_match(t, T_, f, b, K), 'refused only if the key is present')
                    continue
                t.prove(f, r == 0, 'success'); new = fr[0][0]
                t.prove(f, len(fr) == 1 and fr[0][1] and not f.g['freed'] and not f.g['hfree'], 'nothing released')
                t.prove(f, z3.Not(match), 'accepted only if no entry has the key')
                slot = T_.B + 8 * b; last = NODE(T_.K - 1)
                T_.inst_c(f, b, j - 1); T_.inst_r(f, x)
                t.prove(f, T_.r8(f, slot) == new, 'new entry heads the chain')
                t.prove(f, T_.r8(f, new + E_NEXT) == C(b, I(0)), 'the old chain follows the new entry')
                t.prove(f, z3.And(T_.r4(f, new + E_KEY) == K, T_.r8(f, new + E_DATA) == data), 'key and data stored')
                t.prove(f, (T_.r4(f, new + E_CONST) != 0) == bool(const_), 'constness stored')
                nodes = lambda i: z3.If(i < T_.K, NODE(i), new)
                g = z3.And(x >= 0, x <= T_.K)
                t.prove(f, z3.Implies(g, T_.r8(f, nodes(x)) == nodes(z3.If(x == T_.K, I(0), x + 1))), 'entry listed last: forward links')
                t.prove(f, z3.Implies(g, T_.r8(f, nodes(x) + 8) == nodes(z3.If(x == 0, T_.K, x - 1))), 'entry listed last: backward links')
                T_.frame(f, [slot, last, T_.h + 24], 'insert', new)
            t.cover_any(fin, lambda f: z3.And(t.ret(f) == 0, LEN(b) == 2), 'inserted into a chain'); t.cover_any(fin, lambda f: z3.And(t.ret(f) == -17, LEN(b) == 2), 'already present')
        @task('C06', nm + '_null')
        def nul(t):
            m = t.mod(SRC); st = t.state(); key = t.sym(st, 32, 'key')
            for f in t.call(st, m, 'futils_hash_' + nm, [NULL, key, NULL]): t.prove(f, t.ret(f) < 0, 'missing table rejected')
    mk()
def chain_positions(f):
    ws = []
    seen = set()
    def rec(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() == 'chain': ws.append(e.arg(1))
        for c in e.children(): rec(c)
    for p in f.pc: rec(p)
    return list({w.get_id(): w for w in ws}.values())
def has_match(t, T_, f, b, K):
    """existence of a matching position, witnessed by the chain element the code stopped at"""
    return z3.Or(*[z3.And(w >= 0, w < LEN(b), T_.F4(C(b, w) + E_KEY) == K) for w in chain_positions(f)])
def keys_distinct(T_, f, b, j):
    for w in chain_positions(f): f.assume(T_.distinct(b, j, w))
@task(['C06', 'C07'], 'remove', null_is_heap=True)
def remove(t):
    m = t.mod(SRC); st, T_, b, j = setup(t); key = t.sym(st, 32, 'key'); K = t.u(key); T_.ring_at_access = True; x = z3.Int('ringpos'); y = z3.Int('chainpos')
    search_inv(t, T_, b, j, K)
    fin = t.call(st, m, 'futils_hash_remove', [P(T_.h), key])
    for f in fin:
        r = t.ret(f); match = z3.And(j >= 0, j < LEN(b), T_.F4(C(b, j) + E_KEY) == K)
        if not f.g['freed']:
            t.prove(f, r == -2, 'not found'); t.prove(f, z3.Not(match), 'not found only if no entry has the key'); T_.unchanged(f, 'not found'); continue
        t.prove(f, r == 0 and len(f.g['freed']) == 1 if isinstance(r, int) else z3.And(r == 0, len(f.g['freed']) == 1), 'one entry released')
        e = f.g['freed'][0]; p = PS(e)
        facts_at(T_, f, b, e); 
        for k in (y, y + 1, y - 1): T_.inst_c(f, b, k)
        for k in (x, x + 1, x - 1): T_.inst_r(f, k)
        t.prove(f, z3.And(BK(e) == b, p >= 0, p < LEN(b), C(b, p) == e, T_.F4(e + E_KEY) == K), 'the released entry is the one with the key')
        cb = T_.F8(T_.h + H_FREE)
        if f.g['hfree']: t.prove(f, z3.And(len(f.g['hfree']) == 1, f.g['hfree'][0] == T_.F8(e + E_DATA)), 'callback runs once on the data')
        else: t.prove(f, cb == 0, 'callback runs when set')
        slot = T_.B + 8 * b
        nc = lambda k: z3.If(k < p, C(b, k), C(b, k + 1))         # the chain without position p
        t.prove(f, T_.r8(f, slot) == nc(I(0)), 'first of the remaining chain')
        t.prove(f, z3.Implies(z3.And(y >= 0, y < LEN(b) - 1), T_.r8(f, nc(y) + E_NEXT) == nc(y + 1)), 'links of the remaining chain')
        q = LI(e); nn = lambda i: z3.If(i < q, NODE(i), NODE(i + 1)); K1 = T_.K - 1
        g = z3.And(x >= 0, x < K1)
        t.prove(f, z3.Implies(g, T_.r8(f, nn(x)) == nn(z3.If(x == K1 - 1, I(0), x + 1))), 'entry list without it: forward links')
        t.prove(f, z3.Implies(g, T_.r8(f, nn(x) + 8) == nn(z3.If(x == 0, K1 - 1, x - 1))), 'entry list without it: backward links')
        T_.frame(f, [slot, C(b, p - 1) + E_NEXT, NODE(q - 1), z3.If(q == T_.K - 1, NODE(I(0)), NODE(q + 1)) + 8, e, e + 8], 'remove')
    t.cover_any(fin, lambda f: z3.And(t.ret(f) == 0, LEN(b) == 3), 'removed from a chain'); t.cover_any(fin, lambda f: t.ret(f) == -2, 'not found')
@task('C06', 'remove_null')
def remnull(t):
    m = t.mod(SRC); st = t.state(); key = t.sym(st, 32, 'key')
    for f in t.call(st, m, 'futils_hash_remove', [NULL, key]): t.prove(f, t.ret(f) < 0, 'missing table rejected')
    for fnn in ('remove_all', 'destroy'):
        for f in t.call(st, m, 'futils_hash_' + fnn, [NULL]): t.prove(f, t.ret(f) < 0, 'missing table rejected')
@task('C06', 'same_bucket', null_is_heap=True)
def same_bucket(t):
    """every operation selects the same bucket for the same key and size, inside the array"""
    m = t.mod(SRC); got = {}
    st, T_, b, j = setup(t); key = t.sym(st, 32, 'key')
    for fnn, args in (('lookup', 1), ('lookup_const', 1), ('insert', 1), ('insert_const', 1), ('remove', 0)):
        idx = []
        base = T_.on_slot
        def on_slot(s2, i, idx=idx):
            idx.append(i); s2.assume(LEN(i) == 0); T_.inst_c(s2, i, I(0)); s2.assume(b == i)
        T_.on_slot = on_slot
        t.E.opts['policy'] = 'unroll'
        t.call(st, m, 'futils_hash_' + fnn, [P(T_.h), key] + ([P(z3.Int('data'))] if args and 'insert' in fnn else [NULL] if args else []))
        got[fnn] = idx
    ref = got['lookup'][0]
    for k, v in got.items():
        for x in v: t.prove(st, x == ref, '%s uses the bucket that lookup uses' % k)
    t.prove(st, z3.And(ref >= 0, ref < T_.n), 'bucket index inside the array')

# ------------------------------------------------ remove_all, destroy, init
class GMap:
    """ghost map over entry addresses"""
    def __init__(s, F, layers=()): s.F, s.layers = F, layers
    def set(s, a, v): return GMap(s.F, s.layers + ((a, v),))
    def get(s, a):
        v = s.F(a)
        for x, y in s.layers: v = z3.If(a == x, y, v)
        return v
    def havoc(s, E, st): return GMap(fn('G!%d' % next(E.nid)))
    def term(s, x): return s.F(x)
def emptying(t, destroy):
    m = t.mod(SRC); st, T_, b, j = setup(t); E = t.E
    T_.on_slot = lambda s2, i: T_.inst_c(s2, i, I(0))
    x = z3.Int('x'); isent = lambda x: z3.And(KIND(x) == 3, FO(x) == 0)
    st.assume(z3.ForAll([x], z3.Implies(isent(x), z3.And(BK(x) >= 0, BK(x) < T_.n, PS(x) >= 0, PS(x) < LEN(BK(x)), C(BK(x), PS(x)) == x)), patterns=[BK(x)]))
    st.g['live'] = GMap(fn('live')); st.g['ring'] = GMap(fn('ring')); st.g['cb'] = GMap(fn('cb')); st.g['nB'] = I(0)
    for k in ('live', 'ring', 'cb'): st.assume(z3.ForAll([x], st.g[k].F(x) == (0 if k == 'cb' else 1), patterns=[st.g[k].F(x)]))
    st.g['slot'] = I(0)
    hf = T_.F8(T_.h + H_FREE)
    def list_del(E, s, a):
        p = z3.simplify(a[0].off)
        E.oblige(s, z3.And(isent(p), s.g['live'].get(p) == 1, s.g['ring'].get(p) == 1), 'list_del', 'a live listed entry is delisted, once (contract of list_del, C04)')
        s.g['ring'] = s.g['ring'].set(p, I(0)); return None
    def free(E, s, a):
        if isnull(a[0]): return None
        p = z3.simplify(a[0].off)
        if p.eq(T_.B) or E.entails(s, p == T_.B):
            E.oblige(s, s.g['nB'] == 0, 'double-free', 'bucket array'); s.g['nB'] = s.g['nB'] + 1; return None
        E.oblige(s, z3.And(isent(p), s.g['live'].get(p) == 1), 'invalid-free', 'a live entry is released, once')
        E.oblige(s, s.g['ring'].get(p) == 0, 'freed-while-listed')
        E.oblige(s, s.g['nB'] == 0, 'leak', 'entries are released before the bucket array')
        s.g['live'] = s.g['live'].set(p, I(0)); return None
    def cb(E, s, p, av):
        E.oblige(s, p.off == hf, 'callback', 'only the user callback is called')
        d = av[0].off if isinstance(av[0], Ptr) else E.A.u(av[0])
        d = z3.simplify(d)
        if not (z3.is_app(d) and d.num_args() == 1): raise Unsupported('callback argument is not an entry field')
        e = z3.simplify(d.arg(0) - E_DATA)
        E.oblige(s, z3.And(isent(e), d == T_.F8(e + E_DATA), s.g['cb'].get(e) == 0), 'callback', 'callback runs on the data of an entry that has not been reported yet')
        s.g['cb'] = s.g['cb'].set(e, I(1)); return None
    E.handlers.update(list_del=list_del, list_del_init=list_del, free=free); E.handlers['@indirect'] = cb
    old_valid = T_.valid
    def valid(s, a, n):
        a = z3.simplify(a)
        # canonicalise the bucket pointer after the heap was generalised by a loop
        subs = []; seen = set()
        def rec(e):
            if e.get_id() in seen: return
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().name().startswith('H8!') and e.num_args() == 1 and e.arg(0).eq(T_.h) and E.entails(s, e == T_.B): subs.append((e, T_.B))
            for c in e.children(): rec(c)
        rec(a)
        if subs: a = z3.simplify(z3.substitute(a, *subs))
        # lex position of entries for the liveness of the accessed entry
        e = EB(a)
        return z3.And(old_valid(s, a, n), z3.Implies(KIND(a) == 3, s.g['live'].get(e) == 1))
    E.heap_valid = valid
    def inv(ctx):
        N = ctx.N; s = ctx.st; out = []
        heads = [l for l in ctx.locs if isinstance(ctx.getloc(l), Ptr)]
        outer = 8 in ctx.modheap
        if outer: before = lambda x: BK(x) < N; out.append(('N', N <= T_.n)); s.assume(T_.slotf(N))
        else:
            i = s.g['slot']; before = lambda x: z3.Or(BK(x) < i, z3.And(BK(x) == i, PS(x) < N)); out.append(('N', N <= LEN(i)))
            for k in (N, N + 1): T_.inst_c(s, i, k)
            for l in heads:
                v = ctx.getloc(l); vo = I(0) if isnull(v) else v.off
                if isnull(v) or v.blk == 'H': out.append(('%s=c(N)' % (l,), vo == C(i, N)))
        for k in ('live', 'ring', 'cb'):
            G = s.g[k]
            val = lambda x: z3.If(before(x), (z3.If(hf != 0, I(1), I(0)) if k == 'cb' else I(0)), I(0) if k == 'cb' else I(1))
            out.append((k, z3.ForAll([x], z3.Implies(isent(x), G.get(x) == val(x)), patterns=[G.F(x)])))
        if outer:
            H = s.heap[8]; body = H.read(x); F = z3.Function('M8', ZI, ZI)
            pat = body if not H.layers and z3.is_app(body) and body.num_args() == 1 and body.decl().kind() == z3.Z3_OP_UNINTERPRETED else F(x)
            out.append(('slots', z3.ForAll([x], body == z3.If(z3.And(KIND(x) == 2, SIX(x) >= 0, SIX(x) < N, x == T_.B + 8 * SIX(x)), I(0), F(x)), patterns=[pat])))
        return out
    E.inv = inv
    def understood():
        for (fnn, hd), names in {(a, b): c for a, b, c in E.loopinfo}.items():      # the last analysis of each loop
            if 'c:slots' not in names and not any('=c(N)' in x for x in names): raise NotUnderstood('the loop at %s of %s does not walk a bucket chain: %s' % (hd, fnn, names))
    try: fin = t.call(st, m, 'futils_hash_' + ('destroy' if destroy else 'remove_all'), [P(T_.h)])
    except Unsupported: understood(); raise
    understood()
    e0, i0, a0 = z3.Ints('any_entry any_slot any_addr')
    for f in fin:
        t.prove(f, t.ret(f) == 0, 'succeeds')
        f.assume(z3.And(isent(e0), BK(e0) >= 0, BK(e0) < T_.n))
        t.prove(f, f.g['live'].get(e0) == 0, 'every entry is released')
        t.prove(f, f.g['ring'].get(e0) == 0, 'every entry has left the entry list')
        t.prove(f, f.g['cb'].get(e0) == z3.If(hf != 0, I(1), I(0)), 'the callback ran exactly once per entry when set')
        t.prove(f, f.g['nB'] == (1 if destroy else 0), 'bucket array released by destroy only')
        if destroy:
            t.prove(f, z3.And(*[T_.r8(f, T_.h + o) == 0 for o in (0, 16, 24, 32)]), 'structure is cleared')
            t.prove(f, T_.r4(f, T_.h + 8) == 0, 'size is cleared')
        else:
            f.assume(T_.slotf(i0)); f.assume(T_.slotf(SIX(a0)))
            t.prove(f, z3.Implies(z3.And(i0 >= 0, i0 < T_.n), T_.r8(f, T_.B + 8 * i0) == 0), 'every bucket is empty')
            t.prove(f, z3.Implies(KIND(a0) != 2, T_.r8(f, a0) == T_.F8(a0)), 'nothing else is modified'); t.prove(f, T_.r4(f, a0) == T_.F4(a0), 'sizes, keys and flags are not modified')
    t.cover_any(fin, True, 'reached'); t.cover(st, z3.And(T_.n == 2, LEN(I(0)) == 1), 'entries present')
OPTS = dict(null_is_heap=True, ematch=True)
@task(['C07'], 'remove_all', **OPTS)
def remove_all(t): emptying(t, False)
@task(['C07'], 'destroy', **OPTS)
def destroy(t): emptying(t, True)
@task('C07', 'init', policy='unroll', unroll=40)
def init(t):
    m = t.mod(SRC); st = t.state(); T_ = Table(t, st, init=False); E = t.E
    size = t.sym(st, 64, 'size'); hf = z3.Int('hfree'); st.assume(z3.And(hf >= 0, hf < 1 << 64)); t.inputs['hfree'] = hf
    nb, B, i0, a0 = z3.Int('nb'), T_.B, z3.Int('any_slot'), z3.Int('any_addr')
    t.replay = lambda M, i: ['init', i['size']]
    def calloc(E, s, a):
        f = s.copy(); ext.set_errno(E, f, ext.ENOMEM); f.g['alloc_failed'] = True
        E.oblige(s, E.A.u(a[1]) == 8, 'alloc-size', 'array of pointers')
        E.oblige(s, s.g['nalloc'] == 0, 'alloc', 'one allocation')
        s.g['nalloc'] = s.g['nalloc'] + 1
        s.g['count'] = E.A.u(a[0])
        old = s.heap[8]; n = s.g['count']
        s.heap[8] = HMap(lambda x: z3.If(z3.And(KIND(x) == 2), I(0), old.read(x, E)))
        return [(f, NULL), (s, P(B))]
    st.g['nalloc'] = I(0)
    E.handlers['calloc'] = calloc
    for i in (i0,): st.assume(z3.And(KIND(B + 8 * i) == 2, SIX(B + 8 * i) == i))
    fin = t.call(st, m, 'futils_hash_init', [P(T_.h), size, Ptr('H', hf)])
    for f in fin:
        r = t.ret(f)
        if f.g.get('alloc_failed'): t.prove(f, r == -12, 'allocation failure reported'); t.prove(f, f.g['nalloc'] == 0, 'nothing left allocated'); continue
        t.prove(f, r == 0, 'success'); n = T_.r4(f, T_.h + 8)
        t.prove(f, z3.And(n >= 1, n == f.g['count']), 'size is that of the bucket array and at least 1')
        t.prove(f, T_.r8(f, T_.h) == B, 'bucket array stored')
        t.prove(f, z3.And(T_.r8(f, T_.h + 16) == T_.h + 16, T_.r8(f, T_.h + 24) == T_.h + 16), 'entry list is empty')
        t.prove(f, T_.r8(f, T_.h + 32) == hf, 'callback stored')
        t.prove(f, z3.Implies(z3.And(i0 >= 0, i0 < n), T_.r8(f, B + 8 * i0) == 0), 'every bucket is empty')
        t.prove(f, z3.Implies(z3.And(KIND(a0) != 2, *[a0 != T_.h + o for o in (0, 8, 16, 24, 32)]), T_.r8(f, a0) == T_.F8(a0)), 'nothing else is modified')
    t.cover_any(fin, lambda f: t.ret(f) == 0, 'success'); t.cover_any(fin, lambda f: t.ret(f) < 0, 'failure')
    st2 = t.state()
    for f in t.call(st2, m, 'futils_hash_init', [NULL, const(64, 3), NULL]): t.prove(f, t.ret(f) < 0, 'missing table rejected')
@task('C07', 'layout')
def layout(t):
    m = t.mod(SRC); st = t.state()
    for name, size in (('struct.hash', H_LEN), ('struct.hash_entry', E_LEN)): t.prove(st, m.size(NamedTy(name)) == size, 'size of ' + name)
