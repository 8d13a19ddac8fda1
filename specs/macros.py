"""C32: macros of include/futils/futils.h and list.h, through harness/macros.c"""
from lvc.task import *
TY = [('int8_t', 8, 1), ('uint8_t', 8, 0), ('int16_t', 16, 1), ('uint16_t', 16, 0), ('int32_t', 32, 1), ('uint32_t', 32, 0), ('int64_t', 64, 1), ('uint64_t', 64, 0)]
def go(t, ty, bits, sg, fn, want):
    m = t.harness('macros.c'); st = t.state(); v = {k: t.sym(st, bits, k) for k in 'abc'}
    for k in 'abc': st.g['n' + k] = 0
    for k in 'abc':
        def h(E, s, a, k=k): s.g['n' + k] += 1; return v[k]
        t.E.handlers['%s_%s' % (k, ty)] = h
    lt = (lambda x, y: x < y) if sg else z3.ULT
    A, B, C = (t.u(v[k]) for k in 'abc')
    t.replay = lambda M, i: [fn, ty, i['a'], i['b'], i['c']]
    if 'bound' in fn.lower(): st.assume(z3.Not(lt(C, B)))
    fin = t.call(st, m, '%s_%s' % (fn, ty), [])
    for f in fin:
        t.prove(f, t.u(f.ret) == want(A, B, C, lt), 'the mathematically right operand')
        t.prove(f, f.g['na'] == 1 and f.g['nb'] == 1 and (f.g['nc'] == 1 if ('bound' in fn.lower() or 'nest' in fn) else True), 'each argument evaluated exactly once')
        if 'bound' in fn.lower(): t.prove(f, z3.And(z3.Not(lt(t.u(f.ret), B)), z3.Not(lt(C, t.u(f.ret)))), 'within the limits')
    t.cover_any(fin, A == B, 'equal operands'); t.cover_any(fin, lt(A, B), 'ordered')
MN = lambda a, b, lt: z3.If(lt(a, b), a, b)
MX = lambda a, b, lt: z3.If(lt(a, b), b, a)
W = dict(min=lambda a, b, c, lt: MN(a, b, lt), max=lambda a, b, c, lt: MX(a, b, lt), bound=lambda a, b, c, lt: MX(b, MN(a, c, lt), lt),
         nest=lambda a, b, c, lt: MN(MX(a, b, lt), c, lt), nest2=lambda a, b, c, lt: MX(c, MN(a, b, lt), lt))
for ty, bits, sg in TY:
    for fn in ('min', 'max', 'bound', 'MIN', 'MAX', 'BOUND', 'nest', 'nest2'):
        def mk(ty=ty, bits=bits, sg=sg, fn=fn):
            @task('C32', '%s_%s' % (fn, ty), 'bv')
            def mm(t): go(t, ty, bits, sg, fn, W[fn.lower()])
        mk()
# floating operands (not NaN; equal zeros of either sign are the same operand) and pointers into one array
def go_other(t, ty, fn, want):
    m = t.harness('macros.c'); st = t.state(); sort = {'float': z3.FPSort(8, 24), 'double': z3.FPSort(11, 53)}.get(ty)
    if sort is not None:
        from lvc.eng import FPV
        T = {k: z3.FP(k, sort) for k in 'abc'}; v = {k: FPV(T[k]) for k in 'abc'}
        for k in 'abc': st.assume(z3.Not(z3.fpIsNaN(T[k])))
        lt = z3.fpLT; eq = z3.fpEQ; of = lambda r: r.t
        bits = {k: z3.fpToIEEEBV(T[k]) for k in 'abc'}
        def rp(M, i): return [fn, ty] + [str(M.eval(bits[k], model_completion=True).as_long()) for k in 'abc']
        t.replay = rp
    else:
        p = t.bytes_obj(st, 'text', z3.BitVec('size', 64)); st.assume(z3.ULT(z3.BitVec('size', 64), 1 << 40))
        T = {k: z3.BitVec(k, 64) for k in 'abc'}; v = {k: Ptr(p.blk, T[k]) for k in 'abc'}
        for k in 'abc': st.assume(z3.ULE(T[k], z3.BitVec('size', 64)))
        lt = z3.ULT; eq = lambda x, y: x == y
        t.replay = lambda M, i: [fn, ty] + [str(M.eval(T[k], model_completion=True).as_long()) for k in 'abc']
        def of(r):
            if not isinstance(r, Ptr) or r.blk != p.blk: raise Unsupported('result is not one of the pointers')
            return r.off
    for k in 'abc': st.g['n' + k] = 0
    for k in 'abc':
        def h(E, s, a, k=k): s.g['n' + k] += 1; return v[k]
        t.E.handlers['%s_%s' % (k, ty)] = h
    A, B, C = (T[k] for k in 'abc'); bnd = 'bound' in fn.lower(); three = bnd or 'nest' in fn
    if bnd: st.assume(z3.Not(lt(C, B)))
    fin = t.call(st, m, '%s_%s' % (fn, ty), [])
    for f in fin:
        r = of(f.ret)
        t.prove(f, eq(r, want(A, B, C, lt)), 'the mathematically right operand')
        t.prove(f, z3.Or(r == A, r == B, *([r == C] if three else [])), 'one of the operands')
        t.prove(f, f.g['na'] == 1 and f.g['nb'] == 1 and (f.g['nc'] == 1 if three else True), 'each argument evaluated exactly once')
        if bnd: t.prove(f, z3.And(z3.Not(lt(r, B)), z3.Not(lt(C, r))), 'within the limits')
    t.cover_any(fin, eq(A, B), 'equal operands'); t.cover_any(fin, lt(A, B), 'ordered')
for ty in ('float', 'double', 'text_t'):
    for fn in ('min', 'max', 'bound', 'MIN', 'MAX', 'BOUND', 'nest', 'nest2'):
        def mk(ty=ty, fn=fn):
            @task('C32', '%s_%s' % (fn, ty), 'bv')
            def mm(t): go_other(t, ty, fn, W[fn.lower()])
        mk()
@task('C32', 'container_of_any')
def cont_any(t):
    # any layout: the offset of the member inside the structure is arbitrary
    m = t.harness('macros.c'); t.E.opts['ptr_arith'] = True
    for fn in ('cont_any', 'entry_any'):
        st = t.state(); base, off = z3.Int('base'), z3.Int('off'); p = t.bytes_obj(st, 'obj', z3.Int('size'))
        for x in (base, off): st.assume(z3.And(x >= 0, x < 1 << 40))
        st.g['no'] = 0
        def h(E, s, a): s.g['no'] += 1; return INT.mku(64, off, 0, 1 << 40)
        t.E.handlers['the_offset'] = h
        for f in t.call(st, m, fn, [Ptr(p.blk, base + off)]):
            if not f.g['no']: raise Unsupported('container-of without offsetof')
            if not isinstance(f.ret, Ptr) or f.ret.blk != p.blk: raise Unsupported('container-of loses the object')
            t.prove(f, f.ret.off == base, 'container-of inverts taking the member address, whatever the offset (%s)' % fn)
@task('C32', 'sizeof_array_any')
def sz_any(t):
    m = t.harness('macros.c')
    for fn in ('n_any', 'N_any'):
        st = t.state(); n = t.sym(st, 64, 'n'); k = t.sym(st, 64, 'k'); N, K = t.u(n), t.u(k)
        st.assume(z3.And(N >= 1, K >= 1, N * K < 1 << 63))
        p = t.bytes_obj(st, 'arr', N * K); t.E.handlers['the_array'] = lambda E, s, a: p
        fin = t.call(st, m, fn, [n, k])
        for f in fin: t.prove(f, t.u(f.ret) == N, 'number of elements, for any length and element size (%s)' % fn)
        t.cover_any(fin, z3.And(N > 3, K > 3), 'several elements')
@task('C32', 'container_of')
def cont(t):
    m = t.harness('macros.c')
    for k in range(5):
        st = t.state(); base = z3.Int('base'); p = t.bytes_obj(st, 'obj', z3.Int('size')); 
        for f in t.call(st, m, 'addr%d' % k, [Ptr(p.blk, base)]):
            for g in t.call(f, m, 'cont%d' % k, [f.ret]): t.prove(g, g.ret.blk == p.blk and t.E.oadd(g.ret.off, 0) is not None, 'same object'); t.prove(g, g.ret.off == base, 'container-of inverts taking the member address (layout %d)' % k)
@task('C32', 'sizeof_array')
def sz(t):
    m = t.harness('macros.c'); st = t.state()
    for fn, n in (('n1', 1), ('n7', 7), ('n3', 3), ('n2', 2), ('n3b', 3), ('n100', 100)):
        for f in t.call(st, m, fn, []): t.prove(f, t.u(f.ret) == n, 'number of elements of ' + fn)
