"""C30: src/string.cpp, C31: src/fs.cpp.  std::string by assumed contracts over its text"""
from lvc.task import *
from lvc import ext
from . import posix as X
I = z3.IntVal; IS = z3.IntSort(); T_ = z3.BoolVal(True)
S = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'; K = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
CR = 'RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
class Str:
    """ghost view of the std::string objects: block of the object -> (block of its text, length)"""
    def __init__(s, t, st):
        s.t, s.E = t, t.E; E = t.E; st.g['str'] = {}; s.head = None; s.need = False; s.wit = []
        H = E.handlers
        for n in ('lengthEv', 'sizeEv'): H[K + '6lengthEv' if n[0] == 'l' else K + '4sizeEv'] = s.length
        H[K + '5emptyEv'] = lambda E, st, a: from_bool(z3.simplify(s.get(st, a[0])[1] == 0))
        for n in ('5c_strEv', '4dataEv', '5beginEv', '6cbeginEv'): H[K + n] = s.data
        H[S + '5beginEv'] = H[S + '4dataEv'] = s.data; H[S + '3endEv'] = H[K + '3endEv'] = H[K + '4cendEv'] = s.end
        H[S + 'ixEm'] = H[K + 'ixEm'] = s.index
        H[K + '7compareEmmRKS4_'] = s.compare3; H[K + '7compareERKS4_'] = s.compare1
        H[S + 'C1ERKS4_'] = H[S + 'C2ERKS4_'] = s.copy; H[S + 'D1Ev'] = H[S + 'D2Ev'] = s.dtor
        E.acc_hook = s.acc
    def new(s, st, name):
        """a string parameter of any length and content (NUL included)"""
        E = s.E; L = z3.Int('len_' + name); s.t.inputs['len_' + name] = L; st.assume(z3.And(L >= 0, L < 1 << 40))
        d = s.t.bytes_obj(st, name, L + 1); st.mem[d.blk].ro = True; p = E.new_obj(st, 'std::string ' + name, 32, 'glob'); st.mem[p.blk].ro = True
        st.assume(s.t.u(st.mem[d.blk].regs[0].base(L)) == 0); s.put(st, p, d.blk, L); return p, L, st.mem[d.blk].regs[0].base
    def put(s, st, p, blk, L): st.g['str'] = dict(st.g['str'], **{str(p.blk): (blk, L)})
    def get(s, st, p):
        v = st.g['str'].get(str(p.blk)) if isinstance(p, Ptr) and p.off == 0 else None
        s.E.oblige(st, v is not None, 'bad-string', 'use of a string that is not alive')
        if v is None: raise Unsupported('string')
        return v
    def length(s, E, st, a): return INT.mku(64, s.get(st, a[0])[1], 0, 1 << 40)
    def data(s, E, st, a): return Ptr(s.get(st, a[0])[0], 0)
    def end(s, E, st, a): b, L = s.get(st, a[0]); return Ptr(b, L)
    def index(s, E, st, a):
        b, L = s.get(st, a[0]); E.oblige(st, s.t.u(a[1]) <= L, 'bounds', 'index inside the string'); return Ptr(b, s.t.u(a[1]))
    def byte(s, st, blk, k): return s.t.u(s.t.rd(st, Ptr(blk, k), 8))
    def cmp(s, E, st, A, pos, n, B, m):
        """equal exactly when lengths and bytes agree; otherwise there is a differing place"""
        k = z3.Int('k'); q = st.copy(); w = z3.FreshInt('w')
        st.assume(n == m); st.assume(z3.Implies(z3.And(k >= 0, k < m), s.byte(st, A, pos + k) == s.byte(st, B, k)))
        q.assume(z3.Or(n != m, z3.And(w >= 0, w < m, s.byte(q, A, pos + w) != s.byte(q, B, w)))); q.g['wit'] = (w, pos)
        v = E.A.fresh(32, 'cmp', q, True); E.flush_facts(q); q.assume(s.t.s_(v) != 0); o = []
        if E.feasible(st, T_): o.append((st, const(32, 0)))
        if E.feasible(q, T_): o.append((q, v))
        return o
    def compare3(s, E, st, a):
        A, L = s.get(st, a[0]); B, m = s.get(st, a[3]); pos, n = s.t.u(a[1]), s.t.u(a[2])
        E.oblige(st, pos <= L, 'exception', 'compare starts inside the string'); st.assume(pos <= L)
        return s.cmp(E, st, A, pos, z3.If(n < L - pos, n, L - pos), B, m)
    def compare1(s, E, st, a): A, L = s.get(st, a[0]); B, m = s.get(st, a[1]); return s.cmp(E, st, A, I(0), L, B, m)
    def copy(s, E, st, a):
        B, m = s.get(st, a[1]); d = E.new_obj(st, 'text', m + 1, 'glob'); rd = E.byte_reader(st, Ptr(B, 0))
        E.set_range(st, d, m + 1, rd); s.put(st, a[0], d.blk, m); return None
    def dtor(s, E, st, a): s.get(st, a[0]); g = dict(st.g['str']); del g[str(a[0].blk)]; st.g['str'] = g; return None
    def acc(s, E, st, p, n, kind):
        if s.head is not None and 'load' in kind and n == 1 and isinstance(p, Ptr) and p.blk not in (None, 'H'): st.assume(s.head(p)); s.need = True
def find(m, name):
    r = [k for k in m.funcs if k.startswith('_ZN6futils') and name in k]
    if len(r) != 1: raise Unsupported('%s not found once: %s' % (name, r))
    return r[0]
def affix(nm, fn, suffix):
    @task('C30', nm, 'int')
    def aff(t):
        m = t.mod('src/string.cpp'); st = t.state(); E = t.E; c = Str(t, st)
        a, L, A = c.new(st, 'text'); b, M, B = c.new(st, nm)
        t.replay = lambda M_, i: ['affix', str(min(i.get('len_text', 0), 300)), str(min(i.get('len_' + nm, 0), 300))]
        base = L - M if suffix else I(0); k = z3.Int('k'); st.assume(z3.And(k >= 0, k < z3.If(M > 0, M, 1)))
        for f in t.call(st, m, find(m, fn), [a, b]):
            r = boolof(f.ret); r = z3.BoolVal(r) if isinstance(r, bool) else r
            t.prove(f, z3.Implies(r, z3.And(L >= M, z3.Implies(k < M, c.byte(f, f.g['str'][str(a.blk)][0], base + k) == c.byte(f, f.g['str'][str(b.blk)][0], k)))), 'true only when the text has every byte of the given part')
            w = f.g.get('wit')
            no = L < M if w is None else z3.Or(L < M, z3.And(w[0] >= 0, w[0] < M, c.byte(f, f.g['str'][str(a.blk)][0], base + w[0]) != c.byte(f, f.g['str'][str(b.blk)][0], w[0])))
            t.prove(f, z3.Implies(z3.Not(r), no), 'false only when the text is shorter or a byte differs')
            t.covers.append(('path', 'sat'))
affix('prefix', '10startsWith', False); affix('suffix', '8endsWith', True)
@task('C30', 'lower case', 'int', budget=300)
def lower(t):
    m = t.mod('src/string.cpp'); st = t.state(); E = t.E; c = Str(t, st); a, L, A = c.new(st, 'text'); j = z3.Int('j')
    t.replay = lambda M_, i: ['lower']
    def low(v): return z3.If(z3.And(v >= 65, v <= 90), v + 32, v)
    def tolower(E, s, x):
        v = t.s_(x[0]); E.oblige(s, z3.And(v >= -1, v < 256), 'precondition', 'tolower gets an unsigned char'); return INT.mks(32, low(v), -1, 255)
    E.handlers['tolower'] = tolower
    # every byte of the source is a byte
    for q in (j,): st.assume(z3.And(t.u(A(q)) >= 0, t.u(A(q)) < 256))
    out = E.new_obj(st, 'result', 32, 'param')
    def inv(ctx):
        x = ctx.st; v = x.g['str'].get(str(out.blk)); o = [('N', z3.And(ctx.N >= 0, ctx.N <= L))]
        if v is None: return o
        blk = v[0]; snap = x.copy(); N = ctx.N
        def at(i):
            now = t.u(E.load_nochk(snap, Ptr(blk, i), 8)); E.facts_pending = []; was = t.u(A(i))
            return z3.Implies(z3.And(i >= 0, i <= L), z3.And(was >= 0, was < 256, now == z3.If(i < N, low(was), was)))
        c.head = lambda p: at(E.A.oterm(p.off)) if p.blk == blk else T_
        o.append(('every byte', at(j)))
        for l in ctx.locs:
            p = ctx.getloc(l)
            if isinstance(p, Ptr) and p.blk == blk: o.append(('it %s' % (l,), E.A.oterm(p.off) == N))
            elif isinstance(p, V) and p.bits == 64: o.append(('ix %s' % (l,), t.u(p) == N))
        return o
    E.inv = inv; E.opts['policy'] = 'cut'
    fin = t.call(st, m, find(m, '18convertToLowerCase'), [out, a])
    if c.need and not any('every byte' in str(x) for _, _, x in E.loopinfo): raise Unsupported('the loop was not understood')
    for f in fin:
        v = f.g['str'].get(str(out.blk)); t.prove(f, v is not None, 'a string is returned')
        if v is None: continue
        t.prove(f, v[1] == L, 'the length is preserved'); f.assume(z3.And(j >= 0, j < L))
        if c.head is not None: f.assume(c.head(Ptr(v[0], j)))
        t.prove(f, c.byte(f, v[0], j) == low(t.u(A(j))), 'exactly the upper-case letters change')
    t.cover_any(fin, L == 5, 'converted')

# ------------------------------------------------------------------------ paths
def pathfn(nm, fn, libc):
    @task('C31', nm, 'int')
    def path(t):
        m = t.mod('src/fs.cpp'); st = t.state(); E = t.E; c = Str(t, st); p, L, A = c.new(st, 'path'); blk = st.g['str'][str(p.blk)][0]
        out = E.new_obj(st, 'result', 32, 'param'); st.g['text'] = {str(blk): 'path'}; t.replay = lambda M_, i: ['path']
        def tag(s, q): return s.g['text'].get(str(q.blk)) if isinstance(q, Ptr) and q.off == 0 else None
        def settag(s, q, v): s.g['text'] = dict(s.g['text'], **{str(q.blk): v})
        def strdup(E, s, a):
            w = tag(s, a[0])
            if w is None: raise Unsupported('copy of another text')
            f = s.copy(); ext.set_errno(E, f, 12); f.g['alloc_failed'] = True; q = E.new_obj(s, 'copy', z3.FreshInt('n'), 'heap'); settag(s, q, w); return [(s, q), (f, NULL)]
        def split(kind):
            def h(E, s, a):
                if isnull(a[0]): q = E.new_obj(s, 'static', 2, 'glob'); settag(s, q, '.'); return q
                o = s.mem[a[0].blk]; w = tag(s, a[0]); E.oblige(s, not o.ro and o.kind == 'heap' and o.alive, 'post', '%s gets a private copy' % kind)
                if w is None: raise Unsupported('split of another text')
                if o.ro or not o.alive: s.dead = True; return []
                # the result points into the copy, or to a static text; the copy is changed
                z = s.copy(); q = E.new_obj(z, 'static', 2, 'glob'); settag(z, q, '%s of %s' % (kind, w))
                settag(s, a[0], '%s of %s' % (kind, w) if kind == 'dirname' else 'changed'); r = a[0] if kind == 'dirname' else Ptr(a[0].blk, z3.FreshInt('at'))
                s.g['into'] = dict(s.g.get('into', {}), **{str(a[0].blk): '%s of %s' % (kind, w)}); return [(s, r), (z, q)]
            return h
        def ctor(E, s, a):
            q = a[1]
            if isnull(q) or q.blk in (None, 'H'): E.oblige(s, False, 'null-deref', 'string from a missing text'); s.dead = True; return []
            E.oblige(s, s.mem[q.blk].alive, 'use-after-free', 'string from a released text'); w = s.g.get('into', {}).get(str(q.blk)) or tag(s, q)
            if w is None: raise Unsupported('string from an unknown text')
            n = z3.FreshInt('len'); d = E.new_obj(s, 'text', n, 'glob'); c.put(s, a[0], d.blk, n); s.g['result'] = w; return None
        E.handlers.update(strdup=strdup, dirname=split('dirname'), __xpg_basename=split('basename'), basename=split('gnu basename'))
        E.handlers[S + 'C1EPKcRKS3_'] = E.handlers[S + 'C2EPKcRKS3_'] = E.handlers[S + 'C1IS3_EEPKcRKS3_'] = E.handlers[S + 'C2IS3_EEPKcRKS3_'] = ctor
        for n in ('_ZNSaIcEC1Ev', '_ZNSaIcED1Ev', '_ZNSaIcEC2Ev', '_ZNSaIcED2Ev'): E.handlers[n] = lambda E, s, a: None
        fin = t.call(st, m, find(m, fn), [out, p])
        for f in fin:
            t.prove(f, str(out.blk) in f.g['str'], 'a string is returned'); t.prove(f, not X.leaks(f), 'the copy is released')
            t.prove(f, f.mem[blk] is st.mem[blk] or f.mem[blk].regs is st.mem[blk].regs, 'the argument is untouched')
            t.prove(f, f.g.get('result') == '%s of path' % libc or bool(f.g.get('alloc_failed')), 'the result is the POSIX %s of the path' % libc)
        t.cover_any(fin, lambda f: z3.BoolVal(not f.g.get('alloc_failed')), 'path')
pathfn('dirname', '2fs7dirname', 'dirname'); pathfn('basename', '2fs8basename', 'basename')
