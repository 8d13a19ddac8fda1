"""Verification-condition generation by path-wise symbolic execution of the
LLVM IR of the current /repo sources, with inductive loop invariants
(candidate invariants pruned to the inductive subset), and discharge by SMT."""
import os, sys, time, subprocess, itertools, hashlib
import z3
from .ir import *
from . import num
from .num import V, const, from_bool, boolof, BV, INT

z3.set_param('smt.random_seed', 0)

class Stop(Exception):
    """give up this task (budget)"""

# ------------------------------------------------------------------ memory
class Ptr:
    __slots__ = ('blk', 'off')
    def __init__(s, blk, off): s.blk, s.off = blk, off
    def __repr__(s): return 'Ptr(%s,%s)' % (s.blk, s.off)
NULL = Ptr(None, 0)
def isnull(p): return p.blk is None and isinstance(p.off, int) and p.off == 0
class FnPtr:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return 'Fn(%s)' % s.name
class FV:
    """floating value m * 2^e with integer term m (exact)"""
    __slots__ = ('m', 'e', 'hi')
    def __init__(s, m, e, hi): s.m, s.e, s.hi = m, e, hi
class FPV:
    """floating value as an IEEE term (all values, infinities and NaN included)"""
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
class Agg:
    __slots__ = ('v',)
    def __init__(s, v): s.v = list(v)

class Region:
    """array of elements of `es` bytes; functional content"""
    __slots__ = ('start', 'end', 'es', 'layers', 'base')
    def __init__(s, start, end, es, base, layers=()):
        s.start, s.end, s.es, s.base, s.layers = start, end, es, base, layers
    def with_layer(s, l): return Region(s.start, s.end, s.es, s.base, s.layers + (l,))
    def read(s, E, idx):
        """element V at index (python int or offset term), relative to region start"""
        A = E.A; bits = 8 * s.es
        val = None; conds = []
        for l in reversed(s.layers):
            if l[0] == 'st':
                c = E.oeq(l[1], idx)
                if c is False: continue
                if c is True: val = l[2]; break
                conds.append((c, l[2]))
            else:   # ('rg', lo, hi, fn)  lo <= idx < hi
                c = E.oin(l[1], idx, l[2])
                if c is False: continue
                if c is True: val = l[3](idx); break
                conds.append((c, l[3](idx)))
        if val is None: val = s.base(idx)
        for c, v in reversed(conds): val = A.ite(E, c, v, val)
        return val

class Obj:
    __slots__ = ('id', 'name', 'size', 'cells', 'regs', 'kind', 'alive', 'ro', 'hav')
    def __init__(s, id, name, size, kind):
        s.id, s.name, s.size, s.kind = id, name, size, kind
        s.cells = {}; s.regs = (); s.alive = True; s.ro = False; s.hav = None
    def copy(s):
        o = Obj(s.id, s.name, s.size, s.kind)
        o.cells = dict(s.cells); o.regs = s.regs; o.alive = s.alive; o.ro = s.ro
        return o

class HMap:
    """heap map Int address -> value; functional"""
    __slots__ = ('base', 'layers')
    def __init__(s, base, layers=()): s.base, s.layers = base, layers
    def write(s, a, v): return HMap(s.base, s.layers + ((a, v),))
    def read(s, a, E=None):
        """a: Int term; with E given, syntactic distinctness is used"""
        val = None; conds = []
        for (b, v) in reversed(s.layers):
            if E is not None:
                c = E.oeq(b, a)
                if E.heap_neq is not None and c is not True and c is not False and E.heap_neq(b, a): c = False
            else:
                c = z3.simplify(b == a)
                c = True if z3.is_true(c) else False if z3.is_false(c) else c
            if c is False: continue
            if c is True: val = v; break
            conds.append((c, v))
        if val is None: val = s.base(a)
        for c, v in reversed(conds): val = z3.If(c, v, val)
        return val

class Frame:
    __slots__ = ('f', 'blk', 'prev', 'ip', 'env', 'retto', 'mod', 'allocs', 'visits', 'cuts')
    def __init__(s, mod, f): s.mod, s.f = mod, f; s.blk = f.entry; s.prev = None; s.ip = 0; s.env = {}; s.retto = None; s.allocs = []; s.visits = {}; s.cuts = ()
    def copy(s):
        n = Frame(s.mod, s.f); n.blk, n.prev, n.ip, n.env, n.retto = s.blk, s.prev, s.ip, dict(s.env), s.retto
        n.allocs = list(s.allocs); n.visits = dict(s.visits); n.cuts = s.cuts
        return n

class State:
    __slots__ = ('pc', 'frames', 'mem', 'heap', 'g', 'ret', 'precise', 'dead', 'gl')
    def __init__(s):
        s.pc = []; s.frames = []; s.mem = {}; s.heap = {}; s.g = {}; s.ret = None; s.precise = True; s.dead = False; s.gl = {}
    def copy(s):
        n = State(); n.pc = list(s.pc); n.frames = [f.copy() for f in s.frames]; n.mem = dict(s.mem); n.heap = dict(s.heap)
        n.g = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in s.g.items()}
        n.ret = s.ret; n.precise = s.precise; n.gl = dict(s.gl)
        return n
    def assume(s, p):
        if p is True: return
        if p is False: s.pc.append(z3.BoolVal(False)); return
        if z3.is_true(p): return
        if z3.is_and(p):
            for c in p.children(): s.assume(c)
            return
        s.pc.append(p)

class Obl:
    __slots__ = ('name', 'kind', 'line', 'func', 'status', 'secs', 'backend', 'model', 'precise', 'detail', 'hash', 'rp')
    def __init__(s, **k):
        for a in s.__slots__: setattr(s, a, k.get(a))
    def asdict(s): return {a: getattr(s, a) for a in s.__slots__ if a not in ('model', 'rp')}

# ------------------------------------------------------------------ engine
class Engine:
    def __init__(s, mode, taskname='', deadline=None, opts=None):
        s.A = BV if mode == 'bv' else INT
        s.mode = mode
        s.task = taskname
        s.opts = dict(unroll=70, policy='auto', feas_ms=2000, obl_ms=4000, fb_ms=15000, maxpaths=20000)
        s.opts.update(opts or {})
        s.solver = z3.Solver(); s.stack = []
        if (opts or {}).get('ematch'): s.solver.set('smt.mbqi', False)   # quantified tasks: instantiation by patterns only
        s.obls = []; s.collect = True
        s.nid = itertools.count(1)
        s.handlers = {}; s.contracts = {}
        s.inv = None            # contract supplied candidate invariants: fn(LoopCtx) -> [(name, formula)]
        s.div_hook = s.mul_hook = None
        s.acc_hook = None       # fn(E, st, ptr, n, kind) on every memory access
        s.glob_hook = None
        s.heap_valid = None     # fn(st, addr, n) -> formula
        s.on_event = None
        s.nq = 0; s.qsecs = 0.0; s.memo = {}
        s.deadline = deadline
        s.funcs_used = set(); s.ext_used = set()
        s._ent = {}
        s.simp_keep = []
        s.steps = 0
        s.loopinfo = []
        s.call_hook = None
        s.paths = 0
        s.unknown_feas = 0
        s.lossy = 0             # answers the engine went on without because the solver ran out of time: a 'refuted' after that is re-examined with more time
        s.slow = (opts or {}).get('slow', 1)
        s.monitors = []         # fn(E, st, what) called on stores etc.

    # -------- simplification helpers
    def simp(s, t):
        return z3.simplify(t)
    def oadd(s, a, b):
        if isinstance(a, int) and isinstance(b, int): return a + b
        if isinstance(b, int) and b == 0: return a
        if isinstance(a, int) and a == 0: return b
        r = z3.simplify(s.A.oterm(a) + s.A.oterm(b))
        return s.oc(r)
    def osub(s, a, b):
        if isinstance(a, int) and isinstance(b, int): return a - b
        if isinstance(b, int) and b == 0: return a
        return s.oc(z3.simplify(s.A.oterm(a) - s.A.oterm(b)))
    def omul(s, a, k):
        if isinstance(a, int): return a * k
        if k == 1: return a
        return s.oc(z3.simplify(a * k))
    def oc(s, r):
        if z3.is_int_value(r): return r.as_long()
        if z3.is_bv_value(r): return r.as_signed_long()
        return r
    def oeq(s, a, b):
        if isinstance(a, int) and isinstance(b, int): return a == b
        r = z3.simplify(s.A.oterm(a) == s.A.oterm(b))
        return True if z3.is_true(r) else False if z3.is_false(r) else r
    def oin(s, lo, i, hi):
        if all(isinstance(x, int) for x in (lo, i, hi)): return lo <= i < hi
        A = s.A; l, x, h = A.oterm(lo), A.oterm(i), A.oterm(hi)
        r = z3.And(l <= x, x < h) if A is INT else z3.And(z3.ULE(l, x), z3.ULT(x, h))
        r = z3.simplify(r)
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    # -------- solver
    def sync(s, pc):
        st = s.stack; n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]: n += 1
        if len(st) > n:
            s.solver.pop(len(st) - n); del st[n:]
        for t in pc[n:]:
            s.solver.push(); s.solver.add(t); st.append(t)
    def check(s, pc, extra, ms):
        if s.deadline and time.time() > s.deadline: raise Stop('task budget exhausted')
        t0 = time.time(); s.nq += 1
        s.sync(pc)
        s.solver.set('timeout', int(ms * s.slow))
        s.solver.push(); s.solver.add(extra)
        try: r = s.solver.check()
        except z3.Z3Exception: r = z3.unknown
        m = s.solver.model() if r == z3.sat else None
        s.solver.pop()
        s.qsecs += time.time() - t0
        return r, m
    def feasible(s, st, p):
        s.flush_facts(st)
        if p is True: return True
        if p is False: return False
        r, _ = s.check(st.pc, p, s.opts['feas_ms'])
        if r == z3.unknown: s.unknown_feas += 1
        return r != z3.unsat
    def entails(s, st, p):
        """quick validity test under the path condition"""
        s.flush_facts(st)
        if p is True or z3.is_true(p): return True
        if p is False: return False
        p = z3.simplify(p)
        if z3.is_true(p): return True
        if z3.is_false(p): return False
        r, _ = s.check(st.pc, z3.Not(p), 400)
        if r == z3.unknown: s.lossy += 1
        return r == z3.unsat
    def valid(s, pc, p, big=True, post=True):
        """-> (status, backend, model);  status: proved / refuted / unknown"""
        key = (frozenset(c.get_id() for c in pc), p.get_id())
        if key in s.memo: return s.memo[key][0]
        r = s.valid_(pc, p, big, post)
        if r[0] == 'unknown': s.lossy += 1
        if r[0] == 'proved': s.memo[key] = (r, list(pc), p)      # the terms are kept so that their ids stay theirs
        return r
    def valid_(s, pc, p, big, post):
        if post and s.opts.get('fresh_first'):
            S = z3.Solver(); S.set('timeout', 3000 * s.slow); S.add(*pc); S.add(z3.Not(p)); t0 = time.time()
            try: r = S.check()
            except z3.Z3Exception: r = z3.unknown
            s.qsecs += time.time() - t0; s.nq += 1
            if r == z3.unsat: return 'proved', 'z3-fresh', None
        r, m = s.check(pc, z3.Not(p), s.opts['obl_ms'])
        if r == z3.unsat: return 'proved', 'z3', None
        if r == z3.sat: return 'refuted', 'z3', m
        if not big: return 'unknown', 'z3', None
        for mk in (lambda: z3.Solver(), lambda: z3.Tactic('smt').solver()) if s.mode == 'int' else (lambda: z3.SolverFor('QF_BV'), lambda: z3.Solver()):
            t0 = time.time()
            S = mk(); S.set('timeout', int(s.opts['fb_ms'])); S.add(*pc); S.add(z3.Not(p))
            try: r = S.check()
            except z3.Z3Exception: r = z3.unknown
            s.qsecs += time.time() - t0; s.nq += 1
            if r == z3.unsat: return 'proved', 'z3-fresh', None
            if r == z3.sat:
                return 'refuted', 'z3-fresh', S.model()
        r = s.cvc5(pc, p)
        if r == 'unsat': return 'proved', 'cvc5', None
        if r == 'sat': return 'refuted', 'cvc5', None
        return 'unknown', 'z3+cvc5', None
    def cvc5(s, pc, p):
        t0 = time.time()
        S = z3.Solver(); S.add(*pc); S.add(z3.Not(p))
        txt = '(set-logic ALL)\n' + S.to_smt2()
        try:
            r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % s.opts['fb_ms'], '-'], input=txt, capture_output=True, text=True,
                               timeout=s.opts['fb_ms'] / 1000 + 5)
            o = r.stdout.strip().split('\n')[0] if r.stdout else ''
        except Exception: o = ''
        s.qsecs += time.time() - t0; s.nq += 1
        return o

    # -------- obligations
    def where(s, st):
        if st.frames:
            fr = st.frames[-1]
            B = fr.f.blocks[fr.blk]
            i = min(fr.ip, len(B.ins) - 1)
            return fr.f.name, (B.ins[i].line if B.ins else 0)
        return '', 0
    ctx = None
    def replay_now(s): return s.ctx.replay if s.ctx else None
    def oblige(s, st, p, kind, detail=None):
        if p is True: 
            return
        if p is False: p = z3.BoolVal(False)
        p = z3.simplify(p) if not z3.is_quantifier(p) else p
        if z3.is_true(p): return
        s.flush_facts(st)
        if s.collect:
            f, line = s.where(st)
            t0 = time.time()
            status, be, m = s.valid(st.pc, p, post=False)
            s.obls.append(Obl(name='%s/%s:%s/%s' % (s.task, f, line, kind), kind=kind, line=line, func=f, status=status, secs=time.time() - t0,
                              backend=be, model=m, precise=st.precise, detail=(detail or '') + ('' if status == 'proved' else ' ' + str(p)[:600]), rp=s.replay_now()))
        st.assume(p)
    def prove(s, st, p, name, detail=None):
        """top-level postcondition / lemma obligation"""
        if p is True: p = z3.BoolVal(True)
        if p is False: p = z3.BoolVal(False)
        s.flush_facts(st)
        t0 = time.time()
        ps = z3.simplify(p) if not z3.is_quantifier(p) else p
        if z3.is_true(ps): status, be, m = 'proved', 'simplify', None
        else: status, be, m = s.valid(st.pc, ps)
        s.obls.append(Obl(name='%s/post:%s' % (s.task, name), kind='post', line=0, func='', status=status, secs=time.time() - t0, backend=be,
                          model=m, precise=st.precise, detail=(detail or '') + ('' if status == 'proved' else ' ' + str(ps)[:800]), rp=s.replay_now()))
        return status == 'proved'

    # -------- objects
    def new_obj(s, st, name, size, kind, ty=None, mod=None, init='fresh', es=1):
        """init: fresh | zero | undef"""
        id = next(s.nid)
        o = Obj(id, name, size, kind)
        st.mem[id] = o
        if ty is not None:
            regs = []
            for off, t in mod.flatten(ty):
                if isinstance(t, ArrTy):
                    e = mod.size(t.el)
                    regs.append(Region(off, off + t.n * e, e, s.base_fn('%s_%d' % (name, off), 8 * e, init)))
                elif isinstance(t, PtrTy):
                    if init == 'zero': o.cells[off] = NULL
                    # otherwise absent: reading it is an error unless the spec set it
                    else: o.cells[off] = None
                elif isinstance(t, IntTy):
                    b = t.bits if t.bits > 1 else 8
                    o.cells[off] = const(b, 0) if init == 'zero' else s.A.fresh(b, '%s_%d' % (name, off), st)
                else:
                    o.cells[off] = FV(z3.IntVal(0), 0, 0) if init == 'zero' else None
            o.regs = tuple(regs)
        else:
            o.regs = (Region(0, size, es, s.base_fn(name, 8 * es, init)),)
        return Ptr(id, 0)
    def base_fn(s, name, bits, init='fresh'):
        A = s.A
        if init == 'zero': return lambda i: const(bits, 0)
        F = z3.Function('%s!%d' % (name, next(s.nid)), A.osort(), A.esort(bits))
        if A is INT:
            def fn(i):
                t = F(A.oterm(i))
                v = INT.mku(bits, t)
                s.range_fact(t, bits)
                return v
        else:
            def fn(i): return BV.mk(bits, F(A.oterm(i)))
        fn.F = F
        return fn
    # range facts for uninterpreted contents in INT mode: added to every state lazily
    def range_fact(s, t, bits):
        s.facts_pending.append(z3.And(t >= 0, t < (1 << bits)))
    facts_pending = None
    heap_neq = None         # fn(a, b): syntactic distinctness of heap addresses supplied by the contract
    def flush_facts(s, st):
        if s.facts_pending:
            fp = s.facts_pending; s.facts_pending = []
            for f in fp: st.pc.append(f)

    def obj(s, st, id): return st.mem[id]
    def wobj(s, st, id):
        o = st.mem[id].copy(); st.mem[id] = o
        return o

    def chk_access(s, st, p, n, what):
        if s.acc_hook: s.acc_hook(s, st, p, n, what)
        """bounds/liveness obligations; returns False when the path must be dropped"""
        if p.blk is None:
            s.oblige(st, False, 'null-deref', what); st.dead = True; return False
        if p.blk == 'H':
            s.oblige(st, p.off != 0, 'null-deref', what)
            if s.heap_valid is not None: s.oblige(st, s.heap_valid(st, p.off, n), 'heap-access', what)
            return True
        o = st.mem.get(p.blk)
        if o is None or not o.alive:
            s.oblige(st, False, 'use-after-free', what); st.dead = True; return False
        s.oblige(st, s.A.inrange(p.off, n, o.size), 'bounds', '%s of %s bytes in %s' % (what, n, o.name))
        return True

    def load(s, st, p, bits):
        """bits: int or 'ptr'"""
        if isinstance(p, FnPtr): raise Unsupported('load of function')
        n = 8 if bits == 'ptr' else (bits + 7) // 8
        if not s.chk_access(st, p, n, 'load'): return None
        v = s.load_nochk(st, p, bits)
        s.flush_facts(st)
        return v
    def load_nochk(s, st, p, bits):
        n = 8 if bits == 'ptr' else (bits + 7) // 8
        if p.blk == 'H':
            h = st.heap.get(n)
            if h is None: h = st.heap[n] = s.fresh_heap(n)
            t = h.read(z3.simplify(s.A.oterm(p.off)), s)
            if bits == 'ptr': return Ptr('H', z3.simplify(t))
            v = INT.mku(bits, t); s.range_fact(t, bits)
            return v
        o = st.mem[p.blk]
        off = p.off
        if isinstance(off, int):
            c = o.cells.get(off, 0)
            if not isinstance(c, int):
                if c is None: raise Unsupported('read of unset pointer cell %s+%d' % (o.name, off))
                if bits == 'ptr' and isinstance(c, (Ptr, FnPtr)): return c
                if isinstance(c, V) and bits != 'ptr' and c.bits == max(bits, 8):
                    return c if bits == c.bits else s.A.cast(s, st, 'trunc', c, bits)
                if isinstance(c, V) and bits == 'ptr' and c.ptr is not None: return c.ptr
                if isinstance(c, V) and bits == 'ptr' and c.c == 0: return NULL
                if isinstance(c, FV) and bits != 'ptr': raise Unsupported('int load of float')
                if isinstance(c, Ptr) and bits == 64:
                    return s.ptr2int(st, c)
            if bits == 'ptr' and not any(r.start == 0 for r in o.regs): raise Unsupported('ptr load from bytes')
        if bits == 'ptr':
            v = s.load_bytes(st, o, off, 64)
            if v.c == 0: return NULL
            raise Unsupported('pointer loaded from raw bytes')
        return s.load_bytes(st, o, off, bits)

    def region_at(s, st, o, off, n):
        """index of region that holds [off, off+n)"""
        if not o.regs: return None
        if isinstance(off, int):
            for i, r in enumerate(o.regs):
                if isinstance(r.start, int) and r.start <= off and (not isinstance(r.end, int) or off + (n if isinstance(n, int) else 0) <= r.end):
                    # a range of symbolic length has to stay inside this member
                    if not isinstance(n, int) and isinstance(r.end, int) and (len(o.regs) > 1 or o.cells) and r.end > off and not s.entails(st, s.A.inrange(off - r.start, n, r.end - r.start)):
                        continue
                    return i
            return None
        if len(o.regs) == 1 and not o.cells: return 0
        for i, r in enumerate(o.regs):
            if s.entails(st, s.A.inrange(s.osub(off, r.start), n, s.osub(r.end, r.start))): return i
        return None
    def cell_byte(s, st, c, k):
        if isinstance(c, V): return s.byte_of(st, c, k)
        if isinstance(c, Ptr) and isnull(c): return const(8, 0)
        if c is None: return s.A.fresh(8, 'undef', st)
        raise Unsupported('byte of pointer cell')
    def byte_of(s, st, v, k):
        """little-endian byte k of V"""
        if v.bits == 8: return v
        if v.c is not None: return const(8, v.c >> (8 * k))
        if s.A is BV: return BV.mk(8, s.simp(z3.Extract(8 * k + 7, 8 * k, BV.t(v))))
        u = INT.u(v)
        if k: u = u / (1 << (8 * k))
        if (8 * k + 8) < v.bits: u = u % 256
        return INT.mku(8, s.simp(u), 0, 255)
    def load_bytes(s, st, o, off, bits):
        n = (bits + 7) // 8
        if isinstance(off, int):
            # overlapping cells?
            parts = []
            ri = s.region_at(st, o, off, n)
            ov = [c for c in o.cells if c < off + n and c + s.cell_size(o.cells[c]) > off]
            if not ov:
                if ri is None: raise Unsupported('load at odd place %s+%d' % (o.name, off))
                r = o.regs[ri]
                if r.es == n and (off - r.start) % n == 0: return s.fixbits(st, r.read(s, (off - r.start) // n), bits)
                for k in range(n): parts.append(s.reg_byte(st, r, off + k - r.start))
                return s.compose(st, parts, bits)
            for k in range(n):
                for c in ov:
                    if c <= off + k < c + s.cell_size(o.cells[c]):
                        parts.append(s.cell_byte(st, o.cells[c], off + k - c)); break
                else:
                    if ri is None: ri = s.region_at(st, o, off + k, 1)
                    r = o.regs[ri]; parts.append(s.reg_byte(st, r, off + k - r.start))
            return s.compose(st, parts, bits)
        ri = s.region_at(st, o, off, n)
        if ri is None:
            s.oblige(st, False, 'bounds', 'access not provably inside one member array of %s' % o.name)
            return s.A.fresh(bits, 'oob', st)
        r = o.regs[ri]
        rel = s.osub(off, r.start)
        ov = [c for c in o.cells if (not isinstance(r.start, int) or c >= r.start) and (not isinstance(r.end, int) or c < r.end)]
        if ov:
            o = s.spill(st, o.id, ov); r = o.regs[ri]
        if r.es == n:
            if n == 1: return s.fixbits(st, r.read(s, rel), bits)
            m = s.omod_s(rel, n)
            if m == 0 or s.entails(st, s.A.oterm(m) == 0): return s.fixbits(st, r.read(s, s.odiv_s(rel, n)), bits)
        parts = [s.reg_byte(st, r, s.oadd(rel, k)) for k in range(n)]
        return s.compose(st, parts, bits)
    def omod_s(s, o, k):
        if isinstance(o, int): return o % k
        return s.oc(z3.simplify(s.A.omod(o, k)))
    def odiv_s(s, o, k):
        if isinstance(o, int): return o // k
        return s.oc(z3.simplify(s.A.odiv(o, k)))
    def fixbits(s, st, v, bits):
        if v.bits == bits: return v
        return s.A.cast(s, st, 'trunc', v, bits)
    def reg_byte(s, st, r, i):
        if r.es == 1: return r.read(s, i)
        q, k = s.odiv_s(i, r.es), s.omod_s(i, r.es)
        v = r.read(s, q)
        if isinstance(k, int): return s.byte_of(st, v, k)
        if s.A is BV:
            return BV.mk(8, s.simp(z3.Extract(7, 0, z3.LShR(BV.t(v), (z3.Extract(8 * r.es - 1, 0, k) if r.es < 8 else k) * 8))))
        val = s.byte_of(st, v, r.es - 1)
        for j in range(r.es - 1): val = s.A.ite(s, z3.simplify(k == j), s.byte_of(st, v, j), val)
        return val
    def compose(s, st, parts, bits):
        if len(parts) == 1: return s.fixbits(st, parts[0], bits)
        if all(p.c is not None for p in parts):
            return const(bits, sum(p.c << (8 * k) for k, p in enumerate(parts)))
        if s.A is BV:
            return BV.mk(bits, s.simp(z3.Concat(*[BV.t(p) for p in reversed(parts)])))
        # recompose u div 256^k mod 256 pieces: plain sum
        return INT.mku(bits, s.simp(z3.Sum(*[INT.u(p) * (1 << (8 * k)) for k, p in enumerate(parts)])))
    def cell_size(s, c):
        if isinstance(c, V): return (c.bits + 7) // 8
        return 8
    def spill(s, st, id, offs):
        """turn cells into byte-region content"""
        o = s.wobj(st, id)
        for c in sorted(offs):
            v = o.cells.pop(c)
            n = s.cell_size(v)
            ri = s.region_at(st, o, c, n)
            if ri is None: raise Unsupported('spill')
            r = o.regs[ri]
            if r.es == n and (c - r.start) % n == 0 and isinstance(v, V): r = r.with_layer(('st', (c - r.start) // n, v))
            else:
                if r.es != 1: r = s.as_bytes(st, r)
                for k in range(n): r = r.with_layer(('st', c + k - r.start, s.cell_byte(st, v, k)))
            o.regs = o.regs[:ri] + (r,) + o.regs[ri + 1:]
        return o
    def as_bytes(s, st, r):
        if r.es == 1: return r
        old = r
        return Region(r.start, r.end, 1, lambda i: s.reg_byte(st, old, i))

    def store(s, st, p, v, n=None):
        """v: V, Ptr, FnPtr, FV"""
        if n is None: n = (v.bits + 7) // 8 if isinstance(v, V) else 8
        if isinstance(v, V) and v.bits == 1: v = s.A.cast(s, st, 'zext', v, 8)
        if not s.chk_access(st, p, n, 'store'): return
        if p.blk != 'H' and st.mem[p.blk].ro:
            s.oblige(st, False, 'write-to-const', st.mem[p.blk].name); st.dead = True; return
        for m in s.monitors: m(s, st, p, n)
        s.store_nochk(st, p, v, n)
    def store_nochk(s, st, p, v, n):
        if p.blk == 'H':
            h = st.heap.get(n)
            if h is None: h = s.fresh_heap(n)
            if isinstance(v, V): t = INT.u(v)
            else: t = s.ptr_addr(st, v)
            st.heap[n] = h.write(z3.simplify(s.A.oterm(p.off)), t)
            return
        o = s.wobj(st, p.blk); off = p.off
        if isinstance(off, int):
            ri = s.region_at(st, o, off, n)
            if off in o.cells and s.cell_size(o.cells[off]) == n:
                o.cells[off] = v; return
            ov = [c for c in o.cells if c < off + n and c + s.cell_size(o.cells[c]) > off]
            if ov:
                if ri is None:
                    # partial overwrite of typed cells: rebuild bytes
                    if not isinstance(v, V): raise Unsupported('pointer store over scalars')
                    for c in ov:
                        cv = o.cells[c]; m = s.cell_size(cv)
                        bs = [s.cell_byte(st, cv, k) for k in range(m)]
                        for k in range(m):
                            if off <= c + k < off + n: bs[k] = s.byte_of(st, v, c + k - off)
                        o.cells[c] = s.compose(st, bs, 8 * m)
                    return
                o = s.spill(st, p.blk, ov)
            if ri is None:
                o.cells[off] = v; return
            r = o.regs[ri]
            if isinstance(v, V) and r.es == n and (off - r.start) % n == 0:
                o.regs = o.regs[:ri] + (r.with_layer(('st', (off - r.start) // n, v)),) + o.regs[ri + 1:]
                return
            o.cells[off] = v
            return
        ri = s.region_at(st, o, off, n)
        if ri is None:
            s.oblige(st, False, 'bounds', 'store not provably inside one member array of %s' % o.name); st.dead = True
            return
        if not isinstance(v, V): raise Unsupported('pointer store at symbolic offset')
        r = o.regs[ri]
        ov = [c for c in o.cells if (not isinstance(r.start, int) or c >= r.start) and (not isinstance(r.end, int) or c < r.end)]
        if ov:
            o = s.spill(st, p.blk, ov); r = o.regs[ri]
        rel = s.osub(off, r.start)
        if r.es == n:
            m = s.omod_s(rel, n)
            if m == 0 or s.entails(st, s.A.oterm(m) == 0):
                r = r.with_layer(('st', s.odiv_s(rel, n), v))
                o.regs = o.regs[:ri] + (r,) + o.regs[ri + 1:]; return
        r = s.as_bytes(st, r)
        for k in range(n): r = r.with_layer(('st', s.oadd(rel, k), s.byte_of(st, v, k)))
        o.regs = o.regs[:ri] + (r,) + o.regs[ri + 1:]

    def byte_reader(s, st, p):
        """closure k -> byte at p+k, for the memory as it is now"""
        o = st.mem[p.blk]; snap = o.copy()
        def rd(k):
            off = s.oadd(p.off, k)
            if isinstance(off, int):
                return s.load_bytes(st, snap, off, 8)
            # symbolic: regions plus cells
            val = None
            regs = snap.regs
            if len(regs) == 1: val = s.reg_byte(st, regs[0], s.osub(off, regs[0].start))
            else:
                for r in regs:
                    b = s.reg_byte(st, r, s.osub(off, r.start))
                    val = b if val is None else s.A.ite(s, s.oin(r.start, off, r.end), b, val)
            for c, v in snap.cells.items():
                for j in range(s.cell_size(v)):
                    e = s.oeq(off, c + j)
                    if e is False: continue
                    b = s.cell_byte(st, v, j)
                    val = b if val is None or e is True else s.A.ite(s, e, b, val)
            return val
        return rd
    def set_range(s, st, p, n, rd, es=1):
        """write n elements (es bytes each) at p from closure rd(k)"""
        o = s.wobj(st, p.blk); off = p.off
        nb = s.omul(n, es)
        ri = s.region_at(st, o, off, nb)
        if ri is None and isinstance(n, int) and isinstance(off, int):
            # into typed cells
            for c in sorted(o.cells):
                m = s.cell_size(o.cells[c])
                if c < off + nb and c + m > off:
                    old = o.cells[c]
                    bs = []
                    for j in range(m):
                        a = c + j - off
                        if 0 <= a < nb:
                            e = rd(a // es); bs.append(s.byte_of(st, e, a % es))
                        else: bs.append(s.cell_byte(st, old, j))
                    if isinstance(old, V): o.cells[c] = s.compose(st, bs, old.bits)
                    elif all(b.c == 0 for b in bs): o.cells[c] = NULL
                    else: o.cells[c] = s.compose(st, bs, 64)
            for i, r in enumerate(o.regs):
                lo, hi = max(r.start, off), min(r.end, off + nb)
                if lo < hi:
                    rr = s.as_bytes(st, r)
                    base = off
                    rr = rr.with_layer(('rg', lo - r.start, hi - r.start,
                        (lambda r0: lambda i: s.byte_of_sym(st, rd, s.osub(s.oadd(i, r0), base), es))(r.start)))
                    o.regs = o.regs[:i] + (rr,) + o.regs[i + 1:]
            return
        if ri is None:
            s.oblige(st, False, 'bounds', 'range write not provably inside one member array of %s' % o.name); st.dead = True
            return
        r = o.regs[ri]
        ov = [c for c in o.cells if (not isinstance(r.start, int) or c >= r.start) and (not isinstance(r.end, int) or c < r.end)]
        if ov:
            if isinstance(off, int) and isinstance(nb, int):
                keep = [c for c in ov if c < off + nb and c + s.cell_size(o.cells[c]) > off]
                drop = [c for c in keep if c >= off and c + s.cell_size(o.cells[c]) <= off + nb]
                for c in drop: del o.cells[c]
                part = [c for c in keep if c not in drop]
                if part: o = s.spill(st, p.blk, part)
                # cells elsewhere stay on top
            else:
                o = s.spill(st, p.blk, ov)
            r = o.regs[ri]
        rel = s.osub(off, r.start)
        if es != r.es or s.omod_s(rel, es) != 0:
            if es == 1 and r.es > 1:
                r = s.as_bytes(st, r)
            elif es > 1:
                r = s.as_bytes(st, r); rd0 = rd
                rd = lambda k: s.byte_of_sym(st, rd0, k, es)
                n = nb; es = 1
        lo = s.odiv_s(rel, es); hi = s.oadd(lo, n)
        r = r.with_layer(('rg', lo, hi, lambda i: rd(s.osub(i, lo))))
        o.regs = o.regs[:ri] + (r,) + o.regs[ri + 1:]
    def byte_of_sym(s, st, rd, k, es):
        if es == 1: return rd(k)
        q, j = s.odiv_s(k, es), s.omod_s(k, es)
        v = rd(q)
        if isinstance(j, int): return s.byte_of(st, v, j)
        val = s.byte_of(st, v, es - 1)
        for x in range(es - 1): val = s.A.ite(s, s.oeq(j, x), s.byte_of(st, v, x), val)
        return val

    def memcpy(s, st, d, src, n, what='memcpy'):
        """n: python int or offset term"""
        if isinstance(n, int) and n == 0: return
        def chk(p, w):
            if s.acc_hook: s.acc_hook(s, st, p, n, w)
            if p.blk is None or p.blk == 'H':
                if p.blk == 'H': raise Unsupported('memcpy on linked heap')
                s.oblige(st, s.oeq(n, 0), 'null-deref', what); st.dead = True; return False
            o = st.mem[p.blk]
            if not o.alive: s.oblige(st, False, 'use-after-free', what); st.dead = True; return False
            s.oblige(st, s.A.inrange(p.off, n, o.size), 'bounds', '%s %s of %s in %s' % (what, w, n, o.name))
            return True
        if not (chk(d, 'write') and chk(src, 'read')): return
        do, so = st.mem[d.blk], st.mem[src.blk]
        if do.ro: s.oblige(st, s.oeq(n, 0), 'write-to-const', do.name); return
        for m in s.monitors: m(s, st, d, n)
        # cell-wise struct copy
        if isinstance(n, int) and isinstance(d.off, int) and isinstance(src.off, int):
            cs = [c for c in so.cells if src.off <= c and c + s.cell_size(so.cells[c]) <= src.off + n]
            part = [c for c in so.cells if c not in cs and c < src.off + n and c + s.cell_size(so.cells[c]) > src.off]
            sr = [r for r in so.regs if isinstance(r.end, int) and r.start < src.off + n and r.end > src.off]
            if not part and cs and not sr and all(isinstance(r.end, int) for r in so.regs):
                vals = {c: so.cells[c] for c in cs}
                anyp = any(not isinstance(v, V) for v in vals.values())
                o2 = st.mem[d.blk]
                if anyp or all((d.off + c - src.off) in o2.cells for c in cs):
                    for c in sorted(cs):
                        v = vals[c]
                        if v is not None: s.store_nochk(st, Ptr(d.blk, d.off + c - src.off), v, s.cell_size(v))
                    return
            # short constant copies: byte composition keeps terms small
        # same-element-size copies
        if isinstance(src.off, int) or True:
            ri = s.region_at(st, so, src.off, n)
            if ri is not None and so.regs[ri].es > 1:
                r = so.regs[ri]; es = r.es
                rel = s.osub(src.off, r.start)
                dr = s.region_at(st, do, d.off, n)
                if s.omod_s(rel, es) == 0 and s.omod_s(n, es) == 0 and dr is not None and do.regs[dr].es == es and s.omod_s(s.osub(d.off, do.regs[dr].start), es) == 0 \
                   and not [c for c in so.cells if r.start <= c < r.end]:
                    i0 = s.odiv_s(rel, es)
                    s.set_range(st, d, s.odiv_s(n, es), lambda k: r.read(s, s.oadd(i0, k)), es)
                    return
        rd = s.byte_reader(st, src)
        if isinstance(n, int) and n <= 8:
            vals = [rd(k) for k in range(n)]
            s.flush_facts(st)
            def rdc(k):
                if isinstance(k, int): return vals[k]
                v = vals[-1]
                for j in range(n - 1): v = s.A.ite(s, s.oeq(k, j), vals[j], v)
                return v
            s.set_range(st, d, n, rdc)
            return
        s.set_range(st, d, n, rd)
    def memset(s, st, d, byte, n):
        if isinstance(n, int) and n == 0: return
        if s.acc_hook: s.acc_hook(s, st, d, n, 'write')
        if d.blk is None: s.oblige(st, s.oeq(n, 0), 'null-deref', 'memset'); st.dead = True; return
        if d.blk == 'H':
            if not isinstance(n, int) or n % 8 or byte.c != 0: raise Unsupported('memset on linked heap')
            for k in range(0, n, 8): s.store(st, Ptr('H', s.oadd(d.off, k)), const(64, 0))
            if 4 in st.heap:
                for k in range(0, n, 4): st.heap[4] = st.heap[4].write(z3.simplify(s.A.oterm(s.oadd(d.off, k))), z3.IntVal(0))
            return
        o = st.mem[d.blk]
        if not o.alive: s.oblige(st, False, 'use-after-free', 'memset'); st.dead = True; return
        s.oblige(st, s.A.inrange(d.off, n, o.size), 'bounds', 'memset of %s in %s' % (n, o.name))
        for m in s.monitors: m(s, st, d, n)
        ri = s.region_at(st, o, d.off, n) if byte.c is not None else None
        es = o.regs[ri].es if ri is not None else 1
        if es > 1 and s.omod_s(s.osub(d.off, o.regs[ri].start), es) == 0 and s.omod_s(n, es) == 0:
            v = const(8 * es, sum(byte.c << (8 * k) for k in range(es)))
            s.set_range(st, d, s.odiv_s(n, es), lambda k: v, es); return
        s.set_range(st, d, n, lambda k: byte)

    def fresh_heap(s, n):
        F = z3.Function('H%d!%d' % (n, next(s.nid)), z3.IntSort(), z3.IntSort())
        return HMap(lambda a: F(a))
    def ptr_addr(s, st, p):
        if isinstance(p, V): return INT.u(p)
        if isinstance(p, FnPtr): return z3.Int('fnaddr_' + p.name)
        if p.blk is None: return z3.IntVal(p.off) if isinstance(p.off, int) else p.off
        if p.blk == 'H': return s.A.oterm(p.off)
        base = z3.Int('addr!%s' % p.blk)
        st.assume(base > 0)
        return base + s.A.oterm(p.off)
    def ptr2int(s, st, p):
        v = V(64)
        if isnull(p): v.c = 0; return v
        v.ptr = p
        if s.A is INT:
            v._u = s.ptr_addr(st, p); v.lo, v.hi = 0, (1 << 64) - 1
        else:
            v.b = z3.BitVec('addr!%s' % p.blk, 64) + BV.oterm(p.off)
        return v
    def ptr_diff(s, st, a, b):
        if a.blk == b.blk: return s.A.off_v(s.osub(a.off, b.off))
        return s.A.fresh(64, 'ptrdiff', st)
    def ptr_cmp(s, st, pr, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            an = a.name if isinstance(a, FnPtr) else None; bn = b.name if isinstance(b, FnPtr) else None
            if an is None and not isnull(a) or bn is None and not isnull(b): raise Unsupported('fn ptr cmp')
            return const(1, int((an == bn) == (pr == 'eq')))
        if a.blk == b.blk:
            x, y = a.off, b.off
            if isinstance(x, int) and isinstance(y, int):
                if pr in ('eq', 'ne'): return const(1, int((x == y) == (pr == 'eq')))
                return const(1, int(num.cmpc(pr, x & (2**64-1), y & (2**64-1), 64)))
            if pr in ('eq', 'ne'):
                e = s.oeq(x, y)
                r = from_bool(e)
                return r if pr == 'eq' else s.notv(r)
            X, Y = s.A.oterm(x), s.A.oterm(y)
            # offsets within an object: compare as signed
            r = {'gt': X > Y, 'ge': X >= Y, 'lt': X < Y, 'le': X <= Y}[pr[1:]]
            return from_bool(z3.simplify(r))
        if 'H' in (a.blk, b.blk):
            o = b if a.blk == 'H' else a; h = a if a.blk == 'H' else b
            t = s.A.oterm(h.off) == s.ptr_addr(st, o)
            r = from_bool(z3.simplify(t))
            if pr == 'eq': return r
            if pr == 'ne': return s.notv(r)
            raise Unsupported('heap pointer order')
        if pr == 'eq': return const(1, 0)
        if pr == 'ne': return const(1, 1)
        raise Unsupported('order of unrelated pointers')
    def notv(s, v):
        if v.c is not None: return const(1, 1 - v.c)
        return from_bool(z3.simplify(z3.Not(boolof(v))))

    # -------- globals
    def glob(s, st, mod, name):
        if name in mod.funcs or name in mod.decls: return FnPtr(name)
        k = (id(mod), name)
        if k in st.gl: return Ptr(st.gl[k], 0)
        if name not in mod.globals:
            return FnPtr(name)
        ty, init, cst, tls = mod.globals[name]
        if s.glob_hook:
            p = s.glob_hook(s, st, mod, name, ty, init, cst)
            if p is not None:
                st.gl[k] = p.blk; return p
        if cst and init is not None:
            p = s.new_obj(st, '@' + name, mod.size(ty), 'glob', ty, mod, 'zero')
            s.init_const(st, mod, p.blk, 0, ty, init)
            st.mem[p.blk].ro = True
        elif init is None:
            p = s.new_obj(st, '@' + name, mod.size(ty) if not isinstance(ty, OtherTy) else 8, 'glob', ty, mod, 'fresh')
        else:
            p = s.new_obj(st, '@' + name, mod.size(ty), 'glob', ty, mod, 'fresh')
        st.gl[k] = p.blk
        return p
    def init_const(s, st, mod, blk, off, ty, init):
        ty = mod.resolve(ty); o = st.mem[blk]
        k = init[0]
        if k in ('zero', 'undef'): return
        if k == 'str' or (k == 'agg' and isinstance(ty, ArrTy) and isinstance(mod.resolve(ty.el), IntTy)):
            el = mod.resolve(ty.el); es = mod.size(el)
            tab = list(init[1]) if k == 'str' else [x[1][1] if x[1][0] == 'int' else 0 for x in init[1]]
            tab = [t & ((1 << (8 * es)) - 1) for t in tab]
            for i, r in enumerate(o.regs):
                if r.start <= off and off + len(tab) * es <= r.end and r.es == es:
                    o.regs = o.regs[:i] + (r.with_layer(s.table_layer(tab, (off - r.start) // es, es)),) + o.regs[i + 1:]
                    return
            raise Unsupported('const init')
        if k == 'agg':
            if isinstance(ty, StructTy):
                for i, (t, v) in enumerate(init[1]): s.init_const(st, mod, blk, off + mod.field_off(ty, i), t, v)
            else:
                es = mod.size(ty.el)
                for i, (t, v) in enumerate(init[1]): s.init_const(st, mod, blk, off + i * es, t, v)
            return
        if k == 'int': o.cells[off] = const(max(8, ty.bits), init[1]); return
        if k == 'null': o.cells[off] = NULL; return
        if k == 'glob': o.cells[off] = s.glob(st, mod, init[1]); return
        if k == 'ce' and init[1] == 'gep':
            o.cells[off] = s.ceval(st, mod, init); return
        if k == 'fp': o.cells[off] = s.fconst(init[1]); return
        raise Unsupported('const init ' + k)
    def table_layer(s, tab, base, es):
        n = len(tab); bits = 8 * es
        def fn(i):
            k = s.osub(i, base)
            if isinstance(k, int): return const(bits, tab[k])
            if s.A is INT:
                e = z3.IntVal(tab[-1])
                # group equal consecutive differences? simple chain
                for j in range(n - 2, -1, -1): e = z3.If(k == j, z3.IntVal(tab[j]), e)
                return INT.mku(bits, e, min(tab), max(tab))
            e = z3.BitVecVal(tab[-1], bits)
            for j in range(n - 2, -1, -1): e = z3.If(k == j, z3.BitVecVal(tab[j], bits), e)
            return BV.mk(bits, e)
        return ('rg', base, base + n, fn)
    def fconst(s, x):
        import math
        if x == 0: return FV(z3.IntVal(0), 0, 0)
        m, e = math.frexp(x)
        mi = int(m * 2**53); e -= 53
        while mi % 2 == 0: mi //= 2; e += 1
        return FV(z3.IntVal(mi), e, abs(mi))

    # -------- operands
    def val(s, st, fr, op, ty):
        k = op[0]
        if k == 'reg':
            try: return fr.env[op[1]]
            except KeyError: raise Unsupported('undefined register %' + op[1])
        if k == 'int':
            return const(ty.bits, op[1])
        if k == 'null': return NULL
        if k == 'glob': return s.glob(st, fr.mod, op[1])
        if k in ('undef',):
            t = fr.mod.resolve(ty)
            if isinstance(t, IntTy): return s.A.fresh(t.bits, 'undef', st)
            if isinstance(t, StructTy): return Agg([s.val(st, fr, op, x) for x in t.fields])
            return NULL
        if k == 'zero':
            t = fr.mod.resolve(ty)
            if isinstance(t, IntTy): return const(t.bits, 0)
            return NULL
        if k == 'fp': return s.fconst(op[1])
        if k == 'ce': return s.ceval(st, fr.mod, op)
        raise Unsupported('operand ' + k)
    def ceval(s, st, mod, op):
        if op[1] == 'gep':
            base = op[3][0][1]
            p = s.glob(st, mod, base[1]) if base[0] == 'glob' else NULL if base[0] == 'null' else s.ceval(st, mod, base)
            off = s.gep_off(st, mod, op[2], [(t, const(t.bits, v[1])) for t, v in op[3][1:]])
            return Ptr(p.blk, s.oadd(p.off, off))
        if op[1] == 'ptrtoint' and op[3][0] == 'ce' and op[3][1] == 'gep' and op[3][3][0][1][0] == 'null' and isinstance(op[4], IntTy):
            q = s.ceval(st, mod, op[3])
            if isinstance(q.off, int): return const(op[4].bits, q.off)      # offset of a member, written on a null pointer
        if op[1] == 'bitcast': 
            if op[3][0] == 'glob': return s.glob(st, mod, op[3][1])
        if op[1] == 'inttoptr' and op[3][0] == 'int':
            if s.A is INT and op[3][1] != 0: return Ptr('H', z3.IntVal(op[3][1] & (2**64 - 1)))
            return Ptr(None, op[3][1])
        raise Unsupported('constant expression')
    def gep_off(s, st, mod, bt, idx):
        off = 0; t = bt
        for i, (ity, v) in enumerate(idx):
            if i == 0:
                off = s.oadd(off, s.omul(s.A.off(v), mod.size(t)))
                continue
            t = mod.resolve(t)
            if isinstance(t, StructTy):
                if v.c is None: raise Unsupported('gep')
                off = s.oadd(off, mod.field_off(t, v.c)); t = t.fields[v.c]
            elif isinstance(t, ArrTy):
                t = t.el
                off = s.oadd(off, s.omul(s.A.off(v), mod.size(t)))
            else: raise Unsupported('gep type')
        return off

    # -------- execution
    def call(s, st, mod, fname, args):
        """symbolically run mod.fname(args) from st; returns list of final states (st.ret)"""
        f = mod.funcs.get(fname)
        if f is None: raise Unsupported('no function ' + fname)
        if f.irreducible: raise Unsupported('irreducible control flow')
        s.funcs_used.add(fname)
        if s.facts_pending is None: s.facts_pending = []
        st = st.copy()
        s.flush_facts(st)
        fr = Frame(mod, f)
        if len(args) < len(f.params): raise Unsupported('arity of ' + fname)
        for (n, t), a in zip(f.params, args): fr.env[n] = a
        st.frames.append(fr)
        depth = len(st.frames)
        out = s.explore([st], depth, None)
        s.paths += len(out['ret'])
        for o in out['ret']: s.flush_facts(o)
        return out['ret']

    def explore(s, states, depth, until):
        """run states until the frame at `depth` returns (event ret), or - with
        until=(depth, header, L) - reaches header again (latch) or leaves L (exit)"""
        res = {'ret': [], 'latch': [], 'exit': []}
        work = list(states)
        while work:
            st = work.pop()
            if s.deadline and time.time() > s.deadline: raise Stop('task budget exhausted')
            r = s.run(st, depth, until, res)
            if r: work.extend(reversed(r))
            if len(work) + len(res['ret']) > s.opts['maxpaths']: raise Stop('too many paths')
        return res

    def run(s, st, depth, until, res):
        while True:
            if st.dead: return None
            fr = st.frames[-1]
            B = fr.f.blocks[fr.blk]
            ins = B.ins[fr.ip]
            s.steps += 1
            r = s.step(st, fr, ins, depth, until, res)
            if r is not None: return r

    def goto(s, st, target, depth, until, res):
        """transfer control; returns None to continue or list of states"""
        fr = st.frames[-1]
        prev = fr.blk
        if until and len(st.frames) == until[0]:
            if target == until[1] :
                fr.prev = prev; res['latch'].append((st, prev)); return []
            if target not in until[2]:
                res['exit'].append((st, target)); return []
        L = fr.f.loops.get(target)
        if L is not None and prev not in L:
            # entering a loop
            fr.visits = {k: v for k, v in fr.visits.items() if k not in L}
            pol = s.loop_policy(st, fr, target, L)
            if pol == 'cut':
                out = []
                exits = s.unroll_pure(st, fr, target, prev, L)
                if exits is None: exits = s.cut(st, fr, target, prev, L)
                for x, t2 in exits:
                    r = s.goto(x, t2, depth, until, res)
                    if r is None: out.append(x)
                    else: out += r
                return out
        if L is not None:
            n = fr.visits.get(target, 0) + 1; fr.visits[target] = n
            if n > s.opts['unroll'] + 1:
                s.unwound(st, fr, target); return []
        s.phis(st, fr, target, prev)
        return None
    def unwound(s, st, fr, target):
        r, m = s.check(st.pc, z3.BoolVal(True), s.opts['feas_ms'])
        if r == z3.unsat: return
        raise Stop('loop at %s/%s not finished after %d iterations' % (fr.f.name, target, s.opts['unroll']))
    def phis(s, st, fr, target, prev):
        B = fr.f.blocks[target]; new = {}; i = 0
        for ins in B.ins:
            if ins.op != 'phi': break
            i += 1
            for v, b in ins.a[1]:
                if b == prev:
                    new[ins.res] = s.val(st, fr, v, ins.a[0]); break
            else: raise Unsupported('phi')
        fr.env.update(new); fr.prev = prev; fr.blk = target; fr.ip = i

    def fork(s, st, c):
        """c: Bool term -> (state_true or None, state_false or None)"""
        if c is True: return st, None
        if c is False: return None, st
        t_ok = s.feasible(st, c)
        f_ok = s.feasible(st, z3.Not(c)) if t_ok else True
        if t_ok and f_ok:
            b = st.copy(); st.assume(c); b.assume(z3.simplify(z3.Not(c)))
            return st, b
        if t_ok:
            st.assume(c); return st, None
        st.assume(z3.simplify(z3.Not(c)))
        return None, st

    def step(s, st, fr, ins, depth, until, res):
        op = ins.op; a = ins.a; A = s.A
        if op == 'bin':
            x = s.val(st, fr, a[3], a[2]); y = s.val(st, fr, a[4], a[2])
            if x.ptr is not None and y.ptr is not None and a[0] == 'sub': r = s.ptr_diff(st, x.ptr, y.ptr)
            else:
                r = A.bin(s, st, a[0], a[1], x, y)
                if x.ptr is not None and a[0] in ('add', 'sub') and y.c is not None and x.ptr.blk not in (None, 'H') and r.c is None:
                    k = y.c - (1 << 64) if y.c >= 1 << 63 else y.c
                    r.ptr = Ptr(x.ptr.blk, s.oadd(x.ptr.off, k if a[0] == 'add' else -k))
                elif s.opts.get('ptr_arith') and A is INT and x.ptr is not None and y.ptr is None and a[0] in ('add', 'sub') and x.ptr.blk not in (None, 'H'):
                    r.ptr = Ptr(x.ptr.blk, x.ptr.off + INT.u(y) if a[0] == 'add' else x.ptr.off - INT.u(y))
            s.flush_facts(st)
            fr.env[ins.res] = r; fr.ip += 1; return None
        if op == 'icmp':
            x = s.val(st, fr, a[2], a[1]); y = s.val(st, fr, a[3], a[1])
            if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)): r = s.ptr_cmp(st, a[0], x, y)
            elif x.ptr is not None and y.ptr is not None: r = s.ptr_cmp(st, a[0], x.ptr, y.ptr)
            else: r = A.icmp(s, st, a[0], x, y)
            fr.env[ins.res] = r; fr.ip += 1; return None
        if op == 'fcmp':
            x = s.val(st, fr, a[2], a[1]); y = s.val(st, fr, a[3], a[1])
            if not isinstance(x, FPV) or not isinstance(y, FPV): raise Unsupported('floating comparison')
            x, y = x.t, y.t; un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            if a[0] in ('true', 'false', 'ord', 'uno'): r = z3.BoolVal(a[0] == 'true') if a[0] in ('true', 'false') else un if a[0] == 'uno' else z3.Not(un)
            else:
                r = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'ne': lambda p, q: z3.And(z3.Not(un), z3.Not(z3.fpEQ(p, q)))}[a[0][1:]](x, y)
                if a[0][0] == 'u': r = z3.Or(un, r)
            fr.env[ins.res] = from_bool(r); fr.ip += 1; return None
        if op == 'load':
            p = s.val(st, fr, a[1], PTR)
            if '@atomic' in s.handlers and 'load atomic' in ins.txt: s.handlers['@atomic'](s, st, 'load', p)
            t = fr.mod.resolve(a[0])
            if isinstance(t, IntTy): v = s.load(st, p, t.bits)
            elif isinstance(t, PtrTy):
                if isinstance(p, Ptr) and p.blk not in (None, 'H') and not isinstance(p.off, int):
                    # pointer table indexed by a symbolic value: one path per entry
                    if not s.chk_access(st, p, 8, 'load'): return []
                    out = []
                    for c in sorted(st.mem[p.blk].cells):
                        cv = st.mem[p.blk].cells[c]
                        if not isinstance(cv, (Ptr, FnPtr)): continue
                        q = z3.simplify(A.oterm(p.off) == c)
                        if not s.feasible(st, q): continue
                        x = st.copy(); x.assume(q); x.frames[-1].env[ins.res] = cv; x.frames[-1].ip += 1; out.append(x)
                    other = z3.And(*[A.oterm(p.off) != c for c, cv in st.mem[p.blk].cells.items() if isinstance(cv, (Ptr, FnPtr))])
                    if s.feasible(st, other): raise Unsupported('pointer load at symbolic offset')
                    return out
                v = s.load(st, p, 'ptr')
            elif isinstance(t, FloatTy):
                if not s.chk_access(st, p, 8 if t.kind == 'double' else 4, 'load'): return []
                v = st.mem[p.blk].cells.get(p.off)
                if not isinstance(v, FV): raise Unsupported('float load')
            else: raise Unsupported('load type')
            if st.dead: return []
            fr.env[ins.res] = v; fr.ip += 1; return None
        if op == 'store':
            v = s.val(st, fr, a[1], a[0]); p = s.val(st, fr, a[2], PTR)
            s.store(st, p, v, fr.mod.size(a[0]))
            if st.dead: return []
            s.flush_facts(st)
            fr.ip += 1; return None
        if op == 'gep':
            p = s.val(st, fr, a[1], PTR)
            idx = [(t, s.val(st, fr, v, t)) for t, v in a[2]]
            if isinstance(p, FnPtr): raise Unsupported('gep on function')
            off = s.gep_off(st, fr.mod, a[0], idx)
            if p.blk is None and isinstance(off, int) and off != 0 and s.A is INT: np = Ptr('H', z3.simplify(z3.IntVal(off + p.off)))
            else: np = Ptr(p.blk, s.oadd(p.off, off))
            fr.env[ins.res] = np; fr.ip += 1; return None
        if op == 'cast': return s.do_cast(st, fr, ins)
        if op == 'br': return s.goto(st, a[0], depth, until, res)
        if op == 'cbr':
            c = boolof(s.val(st, fr, a[0], I1))
            if not isinstance(c, bool):
                t, f = s.fork(st, c)
            else: t, f = (st, None) if c else (None, st)
            out = []
            for x, tgt in ((t, a[1]), (f, a[2])):
                if x is None: continue
                r = s.goto(x, tgt, depth, until, res)
                if r is None: out.append(x)
                else: out += r
            if len(out) == 1 and out[0] is st: return None
            return out
        if op == 'switch':
            v = s.val(st, fr, a[1], a[0])
            out = []
            cur = st
            for cv, tgt in a[3]:
                c = boolof(A.icmp(s, cur, 'eq', v, const(a[0].bits, cv)))
                if c is False: continue
                if c is True: x, cur = cur, None
                else: x, cur = s.fork(cur, c)
                if x is not None:
                    r = s.goto(x, tgt, depth, until, res)
                    if r is None: out.append(x)
                    else: out += r
                if cur is None: break
            if cur is not None:
                r = s.goto(cur, a[2], depth, until, res)
                if r is None: out.append(cur)
                else: out += r
            return out
        if op == 'ret':
            v = None if a[1] is None else s.val(st, fr, a[1], a[0])
            for b in fr.allocs:
                o = s.wobj(st, b); o.alive = False
            if s.call_hook and len(st.frames) > 0: pass
            if len(st.frames) == depth:
                st.frames.pop(); st.ret = v; res['ret'].append(st); return []
            st.frames.pop()
            f2 = st.frames[-1]
            if fr.retto is not None: f2.env[fr.retto] = v
            f2.ip += 1
            return None
        if op == 'call': return s.do_call(st, fr, ins)
        if op == 'alloca':
            n = 1
            ty = a[0]
            if a[1] is not None:
                nv = s.val(st, fr, a[1][1], a[1][0])
                if nv.c is None: raise Unsupported('vla')
                if nv.c != 1: ty = ArrTy(nv.c, ty)
            # a scalar whose address is used as a byte buffer (opt-in): an array of bytes of unknown content
            raw = s.opts.get('byte_allocas') and isinstance(ty, IntTy) and ty.bits in (32, 64)
            p = s.new_obj(st, '%s.%s' % (fr.f.name, ins.res), fr.mod.size(ty), 'stack', None if raw else ty, fr.mod, 'fresh' if raw else 'undef')
            fr.allocs = fr.allocs + [p.blk]
            fr.env[ins.res] = p; fr.ip += 1; return None
        if op == 'select':
            c = boolof(s.val(st, fr, a[0], I1))
            x = s.val(st, fr, a[2], a[1]); y = s.val(st, fr, a[3], a[1])
            if isinstance(c, bool):
                fr.env[ins.res] = x if c else y; fr.ip += 1; return None
            if isinstance(x, V) and isinstance(y, V) and not s.opts.get('select_fork'):
                fr.env[ins.res] = A.ite(s, c, x, y); fr.ip += 1; return None
            t, f = s.fork(st, c)
            out = []
            for q, v in ((t, a[2]), (f, a[3])):
                if q is None: continue
                f2 = q.frames[-1]; f2.env[ins.res] = s.val(q, f2, v, a[1]); f2.ip += 1; out.append(q)
            return out
        if op == 'unreachable':
            return []      # only behind noreturn calls, which are handled by their own contracts
        if op == 'fbin':
            x = s.val(st, fr, a[2], a[1]); y = s.val(st, fr, a[3], a[1])
            if a[0] == 'fmul':
                if z3.is_int_value(x.m): x, y = y, x
                if z3.is_int_value(y.m) and abs(y.m.as_long()) == 1:
                    k = y.m.as_long()
                    fr.env[ins.res] = FV(x.m * k if k != 1 else x.m, x.e + y.e, x.hi); fr.ip += 1; return None
            if a[0] == 'fdiv' and z3.is_int_value(y.m) and abs(y.m.as_long()) == 1:
                fr.env[ins.res] = FV(x.m * y.m.as_long(), x.e - y.e, x.hi); fr.ip += 1; return None
            raise Unsupported('float arithmetic')
        if op == 'freeze':
            fr.env[ins.res] = s.val(st, fr, a[1], a[0]); fr.ip += 1; return None
        if op == 'extractvalue':
            v = s.val(st, fr, a[1], a[0])
            for i in a[2]: v = v.v[i]
            fr.env[ins.res] = v; fr.ip += 1; return None
        if op == 'insertvalue':
            v = s.val(st, fr, a[1], a[0]); w = s.val(st, fr, a[3], a[2])
            if len(a[4]) != 1: raise Unsupported('nested insertvalue')
            n = Agg(v.v); n.v[a[4][0]] = w
            fr.env[ins.res] = n; fr.ip += 1; return None
        if op == 'atomicrmw':
            p = s.val(st, fr, a[1], PTR); v = s.val(st, fr, a[3], a[2])
            if '@atomic' in s.handlers: s.handlers['@atomic'](s, st, 'rmw', p)
            old = s.load(st, p, a[2].bits)
            if a[0] not in ('add', 'sub', 'or', 'and', 'xor', 'xchg'): raise Unsupported('atomicrmw ' + a[0])
            new = v if a[0] == 'xchg' else A.bin(s, st, a[0], (), old, v)
            s.store(st, p, new)
            fr.env[ins.res] = old; fr.ip += 1; return None
        raise Unsupported('instruction %s: %s' % (op, ins.txt[:120]))

    def do_cast(s, st, fr, ins):
        op, t, v, t2 = ins.a; A = s.A
        x = s.val(st, fr, v, t)
        if op in ('zext', 'sext', 'trunc'):
            if x.ptr is not None and x.bits == 64 and op == 'trunc': x.ptr = None
            r = A.cast(s, st, op, x, t2.bits)
        elif op == 'ptrtoint':
            if isinstance(x, FnPtr): raise Unsupported('ptrtoint fn')
            r = s.ptr2int(st, x)
            if t2.bits != 64: r = A.cast(s, st, 'trunc', r, t2.bits)
        elif op == 'inttoptr':
            if x.ptr is not None: r = x.ptr
            elif s.A is INT: r = Ptr('H', INT.u(x)) if x.c != 0 else NULL
            elif x.c == 0: r = NULL
            else: raise Unsupported('inttoptr')
        elif op == 'bitcast': r = x
        elif op == 'uitofp' or op == 'sitofp':
            lim = 53 if t2.kind == 'double' else 24
            if s.A is INT:
                m = INT.u(x) if op == 'uitofp' else INT.s(x)
            else:
                m = z3.BV2Int(BV.t(x), op == 'sitofp')
            # exactness: the integer has at most `lim` significant bits
            s.oblige(st, z3.And(m <= (1 << lim), m >= -(1 << lim)), 'float-exactness', 'integer to %s conversion is exact' % t2.kind)
            r = FV(m, 0, 1 << lim)
        elif op == 'fptrunc':
            s.oblige(st, z3.And(x.m <= (1 << 24), x.m >= -(1 << 24)), 'float-exactness', 'double to float conversion is exact')
            r = x
        elif op == 'fpext': r = x
        else: raise Unsupported('cast ' + op)
        fr.env[ins.res] = r; fr.ip += 1; return None

    def do_call(s, st, fr, ins):
        rt, cal, args = ins.a
        if cal[0] == 'glob': name = cal[1]
        else:
            p = s.val(st, fr, cal, PTR)
            if isinstance(p, FnPtr): name = p.name
            else:
                h = s.handlers.get('@indirect')
                if h is None: raise Unsupported('indirect call')
                av = [s.val(st, fr, v, t) for t, v in args]
                return s.finish_call(st, fr, ins, rt, h(s, st, p, av))
        av = [s.val(st, fr, v, t) for t, v in args]
        h = s.handlers.get(name)
        if h is not None:
            s.ext_used.add(name)
            return s.finish_call(st, fr, ins, rt, h(s, st, av))
        f = fr.mod.funcs.get(name)
        if f is not None:
            if len(st.frames) > 40: raise Unsupported('recursion')
            if any(x.f is f for x in st.frames) and '@recursion' not in s.opts:
                raise Unsupported('recursive call of ' + name)
            if f.irreducible: raise Unsupported('irreducible control flow')
            s.funcs_used.add(name)
            if s.call_hook:
                s.call_hook(s, st, name, av)
            nf = Frame(fr.mod, f); nf.retto = ins.res
            if f.vararg: raise Unsupported('call of variadic ' + name)
            for (n, t), a in zip(f.params, av): nf.env[n] = a
            st.frames.append(nf)
            return None
        from . import ext
        h = ext.DEFAULT.get(name)
        if h is None:
            for pre, hh in ext.PREFIX:
                if name.startswith(pre): h = hh; break
        if h is None: raise Unsupported('external function ' + name)
        s.ext_used.add(name)
        return s.finish_call(st, fr, ins, rt, h(s, st, av))
    def finish_call(s, st, fr, ins, rt, r):
        """handler result: value (single outcome), or list of (state, value)"""
        if isinstance(r, list):
            out = []
            for st2, v in r:
                if st2 is None or st2.dead: continue
                s.flush_facts(st2)
                f2 = st2.frames[-1]
                if ins.res is not None: f2.env[ins.res] = v
                f2.ip += 1
                out.append(st2)
            return out
        s.flush_facts(st)
        if st.dead: return []
        if ins.res is not None: fr.env[ins.res] = r
        fr.ip += 1
        return None

    # -------- loops
    def loop_policy(s, st, fr, header, L):
        pol = s.opts['policy']
        if callable(pol): pol = pol(s, st, fr, header, L)
        if pol == 'auto':
            return 'cut' if s.inv is not None and not s.concrete_loop(st, fr, header, L) else 'unroll'
        return pol
    def concrete_loop(s, st, fr, header, L):
        """does the loop's exit test evaluate to constants at entry?  Tried by running the loop with constant folding only."""
        key = (fr.f.name, header)
        st2 = st.copy(); f2 = st2.frames[-1]
        save = (s.collect, s.opts['policy'], s.opts['unroll'])
        depthf = len(st2.frames)
        s.collect = False; s.opts['policy'] = 'unroll'; s.opts['unroll'] = 70
        try:
            # follow one path; every branch that leaves or stays in L must be constant
            res = {'ret': [], 'latch': [], 'exit': []}
            s.phis(st2, f2, header, f2.blk)
            n = 0; cur = st2; seen = 0
            for _ in range(60000):
                fr2 = cur.frames[-1]
                ins = fr2.f.blocks[fr2.blk].ins[fr2.ip]
                if len(cur.frames) == depthf and ins.op in ('cbr', 'switch'):
                    if ins.op == 'cbr':
                        inL = [ins.a[1] in L, ins.a[2] in L]
                        v = s.val(cur, fr2, ins.a[0], I1)
                        if v.c is None:
                            if not all(inL): return False
                            # inner symbolic branch that stays in the loop: the trip count may still be constant;
                            # follow one feasible side
                    else:
                        v = s.val(cur, fr2, ins.a[1], ins.a[0])
                        if v.c is None and not all(t in L for t in [ins.a[2]] + [x[1] for x in ins.a[3]]): return False
                if len(cur.frames) == depthf and fr2.blk not in L: return True
                r = s.step(cur, fr2, ins, depthf, None, res)
                if r is None: continue
                if not r: return False
                cur = r[0]
            return False
        except (Unsupported, Stop): return False
        finally:
            s.collect, s.opts['policy'], s.opts['unroll'] = save

    PURE = {'phi', 'bin', 'cast', 'icmp', 'select', 'br', 'cbr'}
    def unroll_pure(s, st, fr, header, prev, L):
        """complete unrolling of a loop that only computes on shifted scalars (no memory, no calls) and that provably ends
        within 70 iterations; the exits are merged into one state per exit edge, so no bound is assumed.  None: use a cut."""
        if s.A is not BV: return None
        shifts = False
        for b in L:
            for ins in fr.f.blocks[b].ins:
                if ins.op not in s.PURE: return None
                if ins.op == 'bin' and ins.a[0] in ('shl', 'lshr', 'ashr', 'udiv'): shifts = True
        if not shifts: return None
        depth = len(st.frames); exits = []; cur = st.copy()
        try:
            for _ in range(70):
                s.phis(cur, cur.frames[-1], header, prev)
                outs = s.explore([cur], depth, (depth, header, L))
                if outs['ret']: return None
                exits += outs['exit']
                if not outs['latch']: break
                if len(outs['latch']) > 1: return None
                cur, prev = outs['latch'][0]
            else: return None
        except Unsupported: return None
        groups = {}
        for x, t in exits: groups.setdefault((t, x.frames[-1].blk), []).append(x)
        res = []
        n0 = len(st.pc)
        for (t, b), xs in groups.items():
            if len(xs) == 1: res.append((xs[0], t)); continue
            for x in xs:
                if len(x.pc) < n0 or any(a is not c for a, c in zip(x.pc, st.pc)): return None
            conds = [z3.And(*x.pc[n0:]) if len(x.pc) > n0 else z3.BoolVal(True) for x in xs]
            m = xs[0].copy(); m.pc = list(st.pc) + [z3.Or(*conds)]
            mf = m.frames[-1]
            keys = set.intersection(*[set(x.frames[-1].env) for x in xs])
            mf.env = {}
            for k in keys:
                vs = [x.frames[-1].env[k] for x in xs]
                v0 = vs[0]
                if all(v is v0 for v in vs): mf.env[k] = v0; continue
                if not all(isinstance(v, V) and v.bits == v0.bits for v in vs): continue
                if v0.bits == 1:
                    t_ = vs[-1]; e = boolof(t_)
                    e = z3.BoolVal(e) if isinstance(e, bool) else e
                    for v, c in list(zip(vs, conds))[-2::-1]:
                        q = boolof(v); e = z3.If(c, z3.BoolVal(q) if isinstance(q, bool) else q, e)
                    mf.env[k] = from_bool(z3.simplify(e)); continue
                e = BV.t(vs[-1])
                for v, c in list(zip(vs, conds))[-2::-1]: e = z3.If(c, BV.t(v), e)
                e = z3.simplify(e)
                if z3.is_bv_value(e): mf.env[k] = const(v0.bits, e.as_long()); continue
                w = z3.FreshConst(e.sort(), 'lx'); m.pc.append(w == e)
                mf.env[k] = BV.mk(v0.bits, w)
            res.append((m, t))
        return res
    def cut(s, st, fr, header, prev, L):
        lc = LoopCut(s, st, header, prev, L)
        return lc.run()

class LoopCtx:
    """what candidate generators see"""
    def __init__(s): pass

class LoopCut:
    def __init__(s, E, st, header, prev, L):
        s.E, s.st, s.header, s.prev, s.L = E, st, header, prev, L
        s.depth = len(st.frames)
    def run(s):
        E, A = s.E, s.E.A
        st = s.st; fr = st.frames[-1]
        B = fr.f.blocks[s.header]
        phis = [i for i in B.ins if i.op == 'phi']
        init = {}
        for ins in phis:
            for v, b in ins.a[1]:
                if b == s.prev: init[ins.res] = E.val(st, fr, v, ins.a[0])
        entry = st.copy()
        s.entry = entry; s.init = init; s.phiins = phis
        modcells, modregs, modheap, modg = set(), set(), set(), set()
        nullphi = set()
        saved = E.collect, E.inv
        E.collect = False
        try:
            for _ in range(8):
                hv, cur = s.havoc(entry, modcells, modregs, modheap, modg)
                hv0 = hv.copy()
                outs = E.explore([hv.copy()], s.depth, (s.depth, s.header, s.L))
                n0 = (len(modcells), len(modregs), len(modheap), len(modg))
                for x, _p in outs['latch']:
                    s.diff(hv0, x, modcells, modregs, modheap, modg)
                if (len(modcells), len(modregs), len(modheap), len(modg)) == n0: break
            else: raise Unsupported('loop frame did not converge')
        finally:
            E.collect = saved[0]
        # constant deltas of phis and cells
        hv, cur = s.havoc(entry, modcells, modregs, modheap, modg)
        s.cur = cur; s.hv = hv
        E.collect = False
        try:
            outs = E.explore([hv.copy()], s.depth, (s.depth, s.header, s.L))
        finally: E.collect = saved[0]
        deltas = {}
        locs = [('phi', i.res) for i in phis] + [('cell', k) for k in sorted(modcells)]
        for loc in locs:
            lv = s.getloc(hv, cur, loc)
            if isinstance(lv, Ptr) and lv.blk == 'H': continue
            a = s.intview(lv); ds = set()
            if a is None: continue
            for x, p in outs['latch']:
                if None in ds: break
                b = s.intview(s.latchloc(x, p, loc))
                if b is None: ds.add(None); continue
                d = z3.simplify(b - a)
                if z3.is_int_value(d): ds.add(d.as_long())
                elif z3.is_bv_value(d): ds.add(d.as_signed_long())
                else:
                    # modular form If(t>=W, t-W, t): try +-1,+-small
                    ok = None
                    for k in (1, -1, 0, 2, 4, 8, 3, 5, 6, 7, 16, 256):
                        if E.entails(x, b - a == k): ok = k; break
                    ds.add(ok)
            if len(ds) == 1 and None not in ds: deltas[loc] = ds.pop()
        s.deltas = deltas; s.locs = locs; s.modregs = modregs; s.modheap = modheap; s.modg = modg; s.modcells = modcells
        # candidates
        cands = s.candidates(entry, s.init, 0, first=True)
        alive = {}
        esave = E.collect; E.collect = False
        try:
            for n, p in cands.items():
                if p is None: continue
                if E.valid(entry.pc, p, big=False)[0] == 'proved': alive[n] = True
            rounds = 0
            while True:
                rounds += 1
                hv, cur = s.havoc(entry, modcells, modregs, modheap, modg)
                N = z3.FreshConst(A.osort(), 'N')
                hv.assume(N >= 0)
                if E.mode == 'bv': hv.assume(z3.ULT(N, 1 << 62))
                cs = s.candidates(hv, cur, N)
                for n in alive:
                    if cs.get(n) is not None: hv.assume(cs[n])
                E.flush_facts(hv)
                outs = E.explore([hv.copy()], s.depth, (s.depth, s.header, s.L))
                drop = set()
                for x, p in outs['latch']:
                    nxt = {i.res: s.phival(x, p, i) for i in phis}
                    cs2 = s.candidates(x, nxt, N + 1)
                    E.flush_facts(x)
                    todo = [n for n in alive if n not in drop and cs2.get(n) is not None]
                    if not todo: continue
                    st_, _, _ = E.valid(x.pc, z3.And(*[z3.BoolVal(c) if isinstance(c, bool) else c for c in (cs2[n] for n in todo)]), big=False)
                    if st_ == 'proved': continue
                    for n in todo:
                        c = cs2[n]
                        if isinstance(c, bool): c = z3.BoolVal(c)
                        if E.valid(x.pc, c, big=False)[0] != 'proved': drop.add(n)
                if not drop: break
                for n in drop: del alive[n]
                if rounds > 60: raise Unsupported('houdini')
        finally: E.collect = esave
        f_, line = E.where(entry)
        E.loopinfo.append((fr.f.name, s.header, sorted(alive)))
        # final pass: collect obligations, continue with exits
        hv, cur = s.havoc(entry, modcells, modregs, modheap, modg)
        hv.precise = False
        N = z3.FreshConst(A.osort(), 'N'); hv.assume(N >= 0)
        if E.mode == 'bv': hv.assume(z3.ULT(N, 1 << 62))
        cs = s.candidates(hv, cur, N)
        for n in alive:
            if cs.get(n) is not None: hv.assume(cs[n])
        E.flush_facts(hv)
        outs = E.explore([hv], s.depth, (s.depth, s.header, s.L))
        return outs['exit']
    # -- helpers
    def phival(s, x, p, ins):
        for v, b in ins.a[1]:
            if b == p: return s.E.val(x, x.frames[-1], v, ins.a[0])
        raise Unsupported('phi')
    def getloc(s, st, cur, loc):
        if loc[0] == 'phi': return cur[loc[1]]
        return st.mem[loc[1][0]].cells.get(loc[1][1])
    def latchloc(s, x, p, loc):
        if loc[0] == 'phi':
            for i in s.phiins:
                if i.res == loc[1]: return s.phival(x, p, i)
        return x.mem[loc[1][0]].cells.get(loc[1][1])
    def intview(s, v):
        if isinstance(v, Ptr):
            if v.blk is None: return None
            return s.E.A.oterm(v.off)
        if isinstance(v, V) and v.bits > 1:
            if s.E.A is BV: return BV.t(v)
            return INT.s(v) if (v._s is not None and v._u is None) else INT.u(v)
        return None
    def havoc(s, entry, modcells, modregs, modheap, modg):
        E, A = s.E, s.E.A
        st = entry.copy(); fr = st.frames[-1]
        cur = {}
        for ins in s.phiins:
            cur[ins.res] = s.fresh_like(st, s.init[ins.res], ins.res, fr.mod.resolve(ins.a[0]))
        for b, c in modcells:
            o = E.wobj(st, b)
            o.cells[c] = s.fresh_like(st, o.cells.get(c), 'c%d' % c, None)
        for b, ri in modregs:
            o = E.wobj(st, b); r = o.regs[ri]
            o.regs = o.regs[:ri] + (Region(r.start, r.end, r.es, E.base_fn('%s_h' % o.name, 8 * r.es)),) + o.regs[ri + 1:]
        for n in modheap: st.heap[n] = E.fresh_heap(n)
        for k in modg:
            v = st.g[k]
            if hasattr(v, 'havoc'): st.g[k] = v.havoc(E, st)
            elif z3.is_expr(v): st.g[k] = z3.FreshConst(v.sort(), 'g_' + str(k))
            elif isinstance(v, V): st.g[k] = A.fresh(v.bits, 'g_' + str(k), st)
            elif isinstance(v, bool): st.g[k] = z3.FreshConst(z3.BoolSort(), 'g_' + str(k))
            elif isinstance(v, int): st.g[k] = z3.FreshConst(A.osort(), 'g_' + str(k))
            else: raise Unsupported('ghost %s changes in loop' % (k,))
        fr.env.update(cur)
        B = fr.f.blocks[s.header]
        fr.prev = s.prev; fr.blk = s.header; fr.ip = len(s.phiins)
        fr.visits = {k: v for k, v in fr.visits.items() if k not in s.L}
        E.flush_facts(st)
        return st, cur
    def fresh_like(s, st, v, name, ty):
        E, A = s.E, s.E.A
        if isinstance(v, Ptr):
            if v.blk is None:
                if s.E.opts.get('null_is_heap'): return Ptr('H', z3.FreshConst(z3.IntSort(), name))
                raise Unsupported('loop-carried pointer %s starts as NULL' % name)
            if v.blk == 'H': return Ptr('H', z3.FreshConst(z3.IntSort(), name))
            return Ptr(v.blk, z3.FreshConst(A.osort(), name))
        if isinstance(v, V):
            sg = A is INT and v._s is not None and v._u is None
            return A.fresh(v.bits, name, st, signed=True) if sg else A.fresh(v.bits, name, st)
        if v is None: raise Unsupported('uninitialised pointer cell written in loop')
        raise Unsupported('loop-carried %r' % (v,))
    def diff(s, a, b, modcells, modregs, modheap, modg):
        for id, o in a.mem.items():
            p = b.mem.get(id)
            if p is o or p is None: continue
            for c in set(o.cells) | set(p.cells):
                if o.cells.get(c, 0) is not p.cells.get(c, 0):
                    if c in o.cells and c in p.cells: modcells.add((id, c))
                    else:
                        # cell appeared/disappeared (overlay on bytes): treat the region as modified
                        ri = None
                        for i, r in enumerate(o.regs):
                            if isinstance(r.start, int) and r.start <= c and (not isinstance(r.end, int) or c < r.end): ri = i
                        if ri is None: raise Unsupported('cell frame in loop')
                        modregs.add((id, ri))
            for i, (r, q) in enumerate(zip(o.regs, p.regs)):
                if r is not q: modregs.add((id, i))
            if o.alive and not p.alive: raise Unsupported('free of outer object inside loop')
        for n in set(a.heap) | set(b.heap):
            if a.heap.get(n) is not b.heap.get(n):
                if n not in a.heap: a.heap[n] = b.heap[n] if not b.heap[n].layers else HMap(b.heap[n].base)
                if n in b.heap and a.heap[n] is not b.heap[n] and (len(a.heap[n].layers) != len(b.heap[n].layers)): modheap.add(n)
        for k in a.g:
            x, y = a.g[k], b.g.get(k)
            if x is y: continue
            if z3.is_expr(x) and z3.is_expr(y) and x.eq(y): continue
            if isinstance(x, (int, str, tuple, list, dict)) and type(x) is type(y) and x == y: continue
            modg.add(k)
    def candidates(s, st, vals, N, first=False):
        E, A = s.E, s.E.A
        out = {}
        Nt = A.oterm(N)
        # constant-step relations
        tv = {}
        for loc in s.locs:
            v = vals[loc[1]] if loc[0] == 'phi' else s.getloc(st, vals, loc)
            i0 = s.init[loc[1]] if loc[0] == 'phi' else s.getloc(s.entry, None, loc)
            a, b = s.intview2(v, i0)
            if a is None: continue
            tv[loc] = (a, b)
            if loc in s.deltas:
                d = s.deltas[loc]
                if A is BV:
                    w = a.size()
                    nt = Nt if w == 64 else (z3.Extract(w - 1, 0, Nt) if w < 64 else None)
                    if nt is not None: out['step:%s' % (loc,)] = a == b + d * nt
                else: out['step:%s' % (loc,)] = a == b + d * Nt
            if isinstance(v, Ptr) and v.blk == 'H': continue
            if A is INT:
                out['ge-init:%s' % (loc,)] = a >= b
                out['le-init:%s' % (loc,)] = a <= b
                out['ge0:%s' % (loc,)] = a >= 0
                out['gem1:%s' % (loc,)] = a >= -1
            else:
                out['uge-init:%s' % (loc,)] = z3.UGE(a, b)
                out['ule-init:%s' % (loc,)] = z3.ULE(a, b)
                out['sge0:%s' % (loc,)] = a >= 0
        # comparison bounds found in the loop
        for j, (rg, bound, w, ptrb) in enumerate(s.bounds()):
            for loc, (a, b) in tv.items():
                if ptrb is not None:
                    v = vals[loc[1]] if loc[0] == 'phi' else s.getloc(st, vals, loc)
                    if not (isinstance(v, Ptr) and v.blk == ptrb): continue
                    bt = A.oterm(bound)
                else:
                    v = vals[loc[1]] if loc[0] == 'phi' else s.getloc(st, vals, loc)
                    if isinstance(v, Ptr): continue
                    if A is BV:
                        if a.size() != w: continue
                        bt = BV.t(bound)
                    else: bt = INT.u(bound)
                if A is INT:
                    out['le-b%d:%s' % (j, loc)] = a <= bt
                    out['lt-b%d:%s' % (j, loc)] = a < bt
                    out['ge-b%d:%s' % (j, loc)] = a >= bt
                    if ptrb is None:
                        bs = INT.s(bound)
                        if not bs.eq(bt):
                            out['les-b%d:%s' % (j, loc)] = a <= bs
                            out['ges-b%d:%s' % (j, loc)] = a >= bs
                else:
                    out['ule-b%d:%s' % (j, loc)] = z3.ULE(a, bt)
                    out['ult-b%d:%s' % (j, loc)] = z3.ULT(a, bt)
                    out['uge-b%d:%s' % (j, loc)] = z3.UGE(a, bt)
                    out['sle-b%d:%s' % (j, loc)] = a <= bt
                    out['sge-b%d:%s' % (j, loc)] = a >= bt
        # index <= N*d relation between pairs with equal initial offset is covered by step
        ctx = LoopCtx()
        ctx.E, ctx.A, ctx.st, ctx.entry, ctx.N, ctx.vals, ctx.init = E, A, st, s.entry, Nt, vals, s.init
        ctx.func = st.frames[-1].f.name; ctx.header = s.header; ctx.locs = s.locs; ctx.tv = tv
        ctx.getloc = lambda loc: (vals[loc[1]] if loc[0] == 'phi' else s.getloc(st, vals, loc))
        ctx.getinit = lambda loc: (s.init[loc[1]] if loc[0] == 'phi' else s.getloc(s.entry, None, loc))
        ctx.modregs, ctx.modheap, ctx.modcells, ctx.modg = s.modregs, s.modheap, s.modcells, s.modg
        ctx.frame = st.frames[-1]
        ctx.deltas = s.deltas
        if E.inv is not None:
            for n, p in (E.inv(ctx) or []):
                out['c:' + n] = p
        for n, p in list(out.items()):
            if p is True or (p is not None and not isinstance(p, bool) and z3.is_true(p)): out[n] = z3.BoolVal(True)
            elif p is False: out[n] = z3.BoolVal(False)
        return out
    def intview2(s, v, i0):
        E = s.E
        if isinstance(v, Ptr):
            if v.blk is None or not isinstance(i0, Ptr) or i0.blk != v.blk: return None, None
            return E.A.oterm(v.off), E.A.oterm(i0.off)
        if isinstance(v, V) and isinstance(i0, V) and v.bits > 1:
            if E.A is BV: return BV.t(v), BV.t(i0)
            sg = (i0._s is not None and i0._u is None)
            return (INT.s(v), INT.s(i0)) if sg else (INT.u(v), INT.u(i0))
        return None, None
    _b = None
    def bounds(s):
        """loop-invariant operands of comparisons inside the loop"""
        if s._b is not None: return s._b
        out = []; E = s.E; fr = s.entry.frames[-1]; seen = set()
        for b in s.L:
            for ins in fr.f.blocks[b].ins:
                if ins.op != 'icmp': continue
                for o in (ins.a[2], ins.a[3]):
                    if o[0] == 'reg':
                        if fr.f.defblk.get(o[1]) in s.L: continue
                        if o[1] not in fr.env: continue
                        v = fr.env[o[1]]
                    elif o[0] == 'int' and isinstance(ins.a[1], IntTy): v = const(ins.a[1].bits, o[1])
                    else: continue
                    if isinstance(v, V) and v.bits > 1 and v.ptr is None: out.append((o, v, v.bits, None))
                    elif isinstance(v, Ptr) and v.blk not in (None, 'H'): out.append((o, v.off, 64, v.blk))
        r = []
        for x in out:
            k = str(x[1]) if not isinstance(x[1], V) else repr(x[1])
            if k not in seen: seen.add(k); r.append(x)
        s._b = r[:12]
        return s._b
