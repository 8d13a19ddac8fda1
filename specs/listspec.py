"""C04, C05: include/futils/list.h through harness/list.c.  The heap is a map
from addresses to words; a ring of any size K is described by ghost functions:
node(i) is the address of its i-th node (0 = list head), rid/idx give the
ring and index every field address belongs to (so nodes never overlap)."""
from lvc.task import *
I = z3.IntVal
OFF = 24       # offset of the node in struct item (harness)
rid = z3.Function('rid', z3.IntSort(), z3.IntSort())
idx = z3.Function('idx', z3.IntSort(), z3.IntSort())
fld = z3.Function('fld', z3.IntSort(), z3.IntSort())

class Ring:
    def __init__(s, t, st, name, id, K=None):
        s.t, s.id = t, id
        s.node = z3.Function('node_' + name, z3.IntSort(), z3.IntSort())
        s.K = z3.Int('K_' + name) if K is None else K
        st.assume(z3.And(s.K >= 1, s.K < 1 << 60))
        t.inputs['K_' + name] = s.K
    def nx(s, i): return z3.If(i == s.K - 1, I(0), i + 1)
    def pv(s, i): return z3.If(i == 0, s.K - 1, i - 1)
    def fact(s, i, F):
        """well-formedness of node i in heap F"""
        a = s.node(i)
        return z3.Implies(z3.And(i >= 0, i < s.K), z3.And(a >= 4096, a < (1 << 64) - 4096, rid(a) == s.id, idx(a) == i, fld(a) == 0, rid(a + 8) == s.id, idx(a + 8) == i, fld(a + 8) == 1,
                          F(a) == s.node(s.nx(i)), F(a + 8) == s.node(s.pv(i)), s.node(s.nx(i)) >= 4096, s.node(s.pv(i)) >= 4096))
    def inst(s, st, F, *ix):
        ix = list(ix) + [I(0), I(1), I(2), s.K - 1, s.K - 2]
        for i in ix:
            for j in (i, i - 1, i + 1, i - 2, i + 2): st.assume(s.fact(z3.simplify(j), F))

def setup(t):
    st = t.state()
    F = z3.Function('H0', z3.IntSort(), z3.IntSort())
    st.heap[8] = HMap(lambda a: F(a))
    t.E.heap_valid = lambda st, a, n: z3.And(rid(a) >= 1, n == 8)
    return st, F
def fresh_node(t, st, name, id):
    a = z3.Int(name)
    st.assume(z3.And(a >= 4096, a < (1 << 64) - 4096, rid(a) == id, idx(a) == 0, fld(a) == 0, rid(a + 8) == id, idx(a + 8) == 0, fld(a + 8) == 1))
    return a
def P(a): return Ptr('H', a)
def rdh(t, st, a): return st.heap[8].read(z3.simplify(a))
def ring_is(t, f, nodefn, K, j, nm):
    """the heap of f holds the ring nodefn(0..K-1)"""
    nx, pv = z3.If(j == K - 1, I(0), j + 1), z3.If(j == 0, K - 1, j - 1)
    g = z3.And(j >= 0, j < K)
    t.prove(f, z3.Implies(g, rdh(t, f, nodefn(j)) == nodefn(nx)), nm + ': forward links are the edited sequence')
    t.prove(f, z3.Implies(g, rdh(t, f, nodefn(j) + 8) == nodefn(pv)), nm + ': backward links are the edited sequence')
def frame(t, f, F, allowed, nm):
    a = z3.Int('any_addr')
    t.prove(f, z3.Implies(z3.And(*[z3.And(a != x, a != x + 8) for x in allowed]), rdh(t, f, a) == F(a)), nm + ': no other node is modified')
def selfring(t, f, a, nm): t.prove(f, z3.And(rdh(t, f, a) == a, rdh(t, f, a + 8) == a), nm + ': left as a valid empty list')

def detached(t, f, m, a, nm):
    for g in t.call(f, m, 'h_is_unref', [P(a)]): t.prove(g, t.u(g.ret) != 0, nm + ': the removed node reads as detached')
    for g in t.call(f, m, 'h_is_ref', [P(a)]): t.prove(g, t.u(g.ret) == 0, nm + ': the removed node does not read as attached')
def prep(t, nrings=1):
    st, F = setup(t)
    R = Ring(t, st, 'A', 1); j = z3.Int('j'); p = z3.Int('p')
    st.assume(z3.And(p >= 0, p < R.K)); t.inputs['p'] = p
    R.inst(st, F, j, p)
    return st, F, R, j, p
def replay_of(op): return lambda M, i: [op] + [min(i.get(k, 0), 1000) for k in ('K_A', 'p', 'q', 'K_B')]
H = 'list.c'
@task('C04', 'init')
def init(t):
    st, F = setup(t); a = fresh_node(t, st, 'new', 2); m = t.harness(H); t.replay = replay_of('init')
    for f in t.call(st, m, 'h_init', [P(a)]): selfring(t, f, a, 'init'); frame(t, f, F, [a], 'init')
def inserted(R, p, new):          # new node placed after index p
    return lambda i: z3.If(i <= p, R.node(i), z3.If(i == p + 1, new, R.node(i - 1)))
def removed(R, q):
    return lambda i: z3.If(i < q, R.node(i), R.node(i + 1))
for op, before in (('add_after', False), ('add_before', True), ('push', True)):
    def mk(op=op, before=before):
        @task('C04', op)
        def ins(t):
            st, F, R, j, p = prep(t); new = fresh_node(t, st, 'new', 2); m = t.harness(H); t.replay = replay_of(op)
            fin = t.call(st, m, 'h_' + op, [P(R.node(p)), P(new)])
            # inserting before p is inserting after its predecessor; before index 0 is at the end
            q = z3.If(p == 0, R.K - 1, p - 1) if before else p
            for f in fin:
                ring_is(t, f, inserted(R, q, new), R.K + 1, j, op)
                frame(t, f, F, [R.node(p), new, R.node(R.pv(p)) if before else R.node(R.nx(p))], op)
            t.cover_any(fin, R.K == 1, 'empty list'); t.cover_any(fin, z3.And(R.K > 5, p == 3), 'inside')
    mk()
for op in ('del', 'del_init'):
    def mk(op=op):
        @task('C04', op)
        def dl(t):
            st, F, R, j, p = prep(t); m = t.harness(H); st.assume(R.K >= 2); t.replay = replay_of(op)
            fin = t.call(st, m, 'h_' + op, [P(R.node(p))])
            for f in fin:
                ring_is(t, f, removed(R, p), R.K - 1, j, op)
                frame(t, f, F, [R.node(p), R.node(R.nx(p)), R.node(R.pv(p))], op)
                if op == 'del_init': selfring(t, f, R.node(p), op)
                else: detached(t, f, m, R.node(p), op)
            t.cover_any(fin, R.K == 2, 'last element'); t.cover_any(fin, z3.And(R.K > 5, p == 3), 'inside')
            if op == 'del_init':
                st.assume(True); st2, F, R, j, p = prep(t); st2.assume(R.K == 1)
                for f in t.call(st2, m, 'h_' + op, [P(R.node(p))]): selfring(t, f, R.node(p), 'node of its own')
    mk()
for op in ('replace', 'replace_init'):
    def mk(op=op):
        @task('C04', op)
        def rp(t):
            st, F, R, j, p = prep(t); new = fresh_node(t, st, 'new', 2); m = t.harness(H); t.replay = replay_of(op)
            fin = t.call(st, m, 'h_' + op, [P(R.node(p)), P(new)])
            for f in fin:
                ring_is(t, f, lambda i: z3.If(i == p, new, R.node(i)), R.K, j, op)
                frame(t, f, F, [R.node(p), new, R.node(R.nx(p)), R.node(R.pv(p))], op)
                if op == 'replace_init': selfring(t, f, R.node(p), op)
            t.cover_any(fin, R.K == 1, 'alone'); t.cover_any(fin, R.K > 4, 'many')
    mk()
for op, before in (('move_after', False), ('move_before', True)):
    def mk(op=op, before=before):
        @task('C04', op + '_same_ring')
        def mv(t):
            st, F, R, j, p = prep(t); q = z3.Int('q'); t.inputs['q'] = q; st.assume(z3.And(q >= 0, q < R.K, q != p)); R.inst(st, F, q)
            m = t.harness(H); t.replay = replay_of(op + '_same')
            fin = t.call(st, m, 'h_' + op, [P(R.node(p)), P(R.node(q))])
            r = removed(R, q); p1 = z3.If(p < q, p, p - 1); K1 = R.K - 1
            ip = z3.If(p1 == 0, K1 - 1, p1 - 1) if before else p1
            new = lambda i: z3.If(i <= ip, r(i), z3.If(i == ip + 1, R.node(q), r(i - 1)))
            for f in fin:
                ring_is(t, f, new, R.K, j, op)
                frame(t, f, F, [R.node(p), R.node(q), R.node(R.nx(q)), R.node(R.pv(q)), R.node(R.pv(p)) if before else R.node(R.nx(p))], op)
            t.cover_any(fin, R.K == 2, 'two nodes'); t.cover_any(fin, z3.And(R.K > 6, p == 1, q == 4), 'far'); t.cover_any(fin, z3.And(R.K > 6, p == R.nx(q)), 'adjacent')
        @task('C04', op + '_other_ring')
        def mv2(t):
            st, F, R, j, p = prep(t); Q = Ring(t, st, 'B', 3); q = z3.Int('q'); t.inputs['q'] = q; st.assume(z3.And(q >= 0, q < Q.K, Q.K >= 2)); Q.inst(st, F, q, j)
            m = t.harness(H); t.replay = replay_of(op + '_other')
            fin = t.call(st, m, 'h_' + op, [P(R.node(p)), P(Q.node(q))])
            ip = z3.If(p == 0, R.K - 1, p - 1) if before else p
            for f in fin:
                ring_is(t, f, inserted(R, ip, Q.node(q)), R.K + 1, j, op + ' target')
                ring_is(t, f, removed(Q, q), Q.K - 1, j, op + ' source')
                frame(t, f, F, [R.node(p), Q.node(q), Q.node(Q.nx(q)), Q.node(Q.pv(q)), R.node(R.pv(p)) if before else R.node(R.nx(p))], op)
            t.cover_any(fin, z3.And(R.K == 1, Q.K == 2), 'into an empty list')
    mk()
@task('C04', 'pop')
def pop(t):
    st, F, R, j, p = prep(t); m = t.harness(H); t.replay = replay_of('pop')
    fin = t.call(st, m, 'h_pop', [P(R.node(I(0)))])
    for f in fin:
        r = f.ret
        if isnull(r):
            t.prove(f, R.K == 1, 'NULL only from an empty list'); frame(t, f, F, [], 'pop'); continue
        t.prove(f, R.K > 1, 'an element only from a non-empty list')
        t.prove(f, r.off == R.node(I(1)) - OFF, 'the first element is returned')
        ring_is(t, f, removed(R, I(1)), R.K - 1, j, 'pop')
        frame(t, f, F, [R.node(I(0)), R.node(I(1)), R.node(R.nx(I(1)))], 'pop'); detached(t, f, m, R.node(I(1)), 'pop')
    t.cover_any(fin, R.K == 1, 'empty'); t.cover_any(fin, R.K > 2, 'several')
@task('C04', 'unref')
def unref(t):
    st, F = setup(t); a = fresh_node(t, st, 'new', 2); m = t.harness(H)
    for f in t.call(st, m, 'h_unref', [P(a)]):
        frame(t, f, F, [a], 'unref')
        for g in t.call(f, m, 'h_is_unref', [P(a)]): t.prove(g, t.u(g.ret) != 0, 'a detached node reads as detached')
        for g in t.call(f, m, 'h_is_ref', [P(a)]): t.prove(g, t.u(g.ret) == 0, 'a detached node does not read as attached')

# ------------------------------------------------------------------- C05
def ptr_is(t, f, r, want_null, want, nm):
    if isnull(r): t.prove(f, want_null, nm)
    else: t.prove(f, z3.And(z3.Not(want_null), r.off == want), nm)
def unch(t, f, F, nm): t.prove(f, len(f.heap[8].layers) == 0, nm + ': list is not modified')
@task('C05', 'queries')
def queries(t):
    m = t.harness(H)
    st, F, R, j, p = prep(t); h = P(R.node(I(0))); n = P(R.node(p)); t.replay = replay_of('queries')
    for f in t.call(st, m, 'h_is_empty', [h]): t.prove(f, (t.u(f.ret) != 0) == (R.K == 1), 'is_empty'); unch(t, f, F, 'is_empty')
    for f in t.call(st, m, 'h_first', [h]): t.prove(f, f.ret.off == R.node(R.nx(I(0))), 'first'); unch(t, f, F, 'first')
    for f in t.call(st, m, 'h_last', [h]): t.prove(f, f.ret.off == R.node(R.K - 1), 'last'); unch(t, f, F, 'last')
    for f in t.call(st, m, 'h_next', [h, n]): ptr_is(t, f, f.ret, R.nx(p) == 0, R.node(R.nx(p)), 'next'); unch(t, f, F, 'next')
    for f in t.call(st, m, 'h_prev', [h, n]): ptr_is(t, f, f.ret, R.pv(p) == 0, R.node(R.pv(p)), 'prev'); unch(t, f, F, 'prev')
    for f in t.call(st, m, 'h_is_last', [h, n]): t.prove(f, (t.u(f.ret) != 0) == (p == R.K - 1), 'is_last'); unch(t, f, F, 'is_last')
    for f in t.call(st, m, 'h_entry', [n]): t.prove(f, f.ret.off == R.node(p) - OFF, 'entry')
    for f in t.call(st, m, 'h_is_ref', [n]): t.cover(f, True, 'is_ref')
    t.cover(st, R.K == 1, 'empty'); t.cover(st, R.K > 3, 'many')

def walk_task(fn, back, entry, safe):
    @task('C05', fn, ematch=bool(safe))
    def walk(t):
        E = t.E; m = t.harness(H); st, F = setup(t); R = Ring(t, st, 'A', 1); t.replay = replay_of(fn)
        i = z3.Int('i')
        at = (lambda c: R.K - 1 - c) if back else (lambda c: c + 1)        # ring index of the c-th visited element
        off = OFF if entry else 0
        R.inst(st, F)
        st.g['c'] = I(0)
        lk = 1 if back else 0
        def rest(x, c):      # links still needed when c elements have been handed out
            return z3.And(rid(x) == 1, fld(x) == lk, idx(x) >= 1, idx(x) < R.K - c if back else idx(x) > c)
        def visit(E, s, a):
            c = s.g['c']
            E.oblige(s, z3.And(c < R.K - 1, a[0].off == R.node(at(c)) - off), 'visit-order', 'every element exactly once, in order')
            s.g['c'] = c + 1
            if safe:
                # the body may detach and free the element: only links between the head and elements
                # not yet visited are preserved
                G = z3.Function('H_body!%d' % next(E.nid), z3.IntSort(), z3.IntSort())
                old = s.heap[8]
                s.heap[8] = HMap(lambda x: z3.If(rest(x, c + 1), old.read(x), G(x)))
            return None
        for h in ('visit', 'visit_item', 'body', 'body_item'): E.handlers[h] = visit
        def valid(s, a, n):
            if not safe: return z3.And(rid(a) == 1, n == 8)
            c = s.g['c']
            # elements already handed to the body (index at(0)..at(c-1)) may be freed
            live = z3.Or(idx(a) == 0, idx(a) > c) if not back else z3.Or(idx(a) == 0, idx(a) < R.K - c)
            return z3.And(rid(a) == 1, live, n == 8)
        E.heap_valid = valid
        def inv(ctx):
            N = ctx.N; out = [('c', ctx.st.g['c'] == N), ('n', N <= R.K - 1)]
            for loc in ctx.locs:
                v = ctx.getloc(loc)
                if isinstance(v, Ptr) and v.blk == 'H':
                    for k in (0, 1):
                        c = N + k
                        x = (z3.If(c >= R.K - 1, I(0), R.K - 1 - c)) if back else z3.If(c >= R.K - 1, I(0), c + 1)
                        # after the last element comes the head; beyond it (safe walks) the value is irrelevant
                        p = v.off == R.node(x) - off
                        out.append(('%s=node+%d' % (loc, k), p if k == 0 else z3.Implies(N < R.K - 1, p)))
                if isinstance(v, V) and v.bits == 64 and v.c is None: out.append(('%s=N' % (loc,), ctx.A.u(v) == N))
            R.inst(ctx.st, F, N, R.K - 1 - N)
            if safe:
                rd = ctx.st.heap[8]; x = z3.Int('x')
                body = rd.read(x)
                out.append(('rest', z3.ForAll([x], z3.Implies(rest(x, N), body == F(x)), patterns=[rd.base(x)] if not rd.layers and body.decl().kind() == z3.Z3_OP_UNINTERPRETED else [F(x)])))
            return out
        E.inv = inv
        fin = t.call(st, m, fn, [P(R.node(I(0)))])
        for f in fin:
            t.prove(f, f.g['c'] == R.K - 1, 'every element visited')
        t.cover_any(fin, R.K == 1, 'empty')
        s2 = st.copy(); t.cover(s2, R.K == 4, 'four')
for fn, b, e, s in (('h_walk_f', 0, 0, 0), ('h_walk_b', 1, 0, 0), ('h_walk_fs', 0, 0, 1), ('h_walk_bs', 1, 0, 1), ('h_walk_ef', 0, 1, 0), ('h_walk_eb', 1, 1, 0), ('h_walk_efs', 0, 1, 1), ('h_walk_ebs', 1, 1, 1)):
    walk_task(fn, b, e, s)
@task('C05', 'length')
def length(t):
    E = t.E; m = t.harness(H); st, F = setup(t); R = Ring(t, st, 'A', 1); t.replay = replay_of('length')
    R.inst(st, F)
    def inv(ctx):
        N = ctx.N; out = [('n', N <= R.K - 1)]; R.inst(ctx.st, F, N, R.K - 1 - N)
        for loc in ctx.locs:
            v = ctx.getloc(loc)
            if isinstance(v, Ptr) and v.blk == 'H':
                for k in (0, 1):
                    for back in (0, 1):
                        c = N + k; x = z3.If(c >= R.K - 1, I(0), (R.K - 1 - c) if back else c + 1)
                        p = v.off == R.node(x)
                        out.append(('%s=node%d+%d' % (loc, back, k), p if k == 0 else z3.Implies(N < R.K - 1, p)))
            if isinstance(v, V) and v.bits == 64: out.append(('%s=N' % (loc,), ctx.A.u(v) == N))
        return out
    E.inv = inv
    fin = t.call(st, m, 'h_length', [P(R.node(I(0)))])
    for f in fin: t.prove(f, t.u(f.ret) == R.K - 1, 'number of elements'); unch(t, f, F, 'length')
    t.cover_any(fin, R.K == 1, 'empty')
