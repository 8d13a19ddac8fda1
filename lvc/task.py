"""Contract tasks: a task builds a symbolic pre-state, runs one real function
(through its IR) and proves the postconditions of its contract."""
import time, traceback, os
import z3
from .ir import *
from .num import *
from .eng import *
from . import ext, build

REG = {}     # property -> [Task]
class Task:
    def __init__(s, prop, name, mode, fn, opts): s.prop, s.name, s.mode, s.fn, s.opts = prop, name, mode, fn, opts

def task(prop, name, mode='int', tier='quick', budget=120, **opts):
    def deco(fn):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            t = Task(p, name, mode, fn, dict(opts)); t.tier = tier; t.budget = budget
            REG.setdefault(p, []).append(t)
        return fn
    return deco

def again(t, k):
    """the same task with k times the time per solver call"""
    n = Task(t.prop, t.name, t.mode, t.fn, dict(t.opts, slow=k, more=3, cost=100)); n.tier = t.tier; n.budget = t.budget
    return n

class T:
    """context handed to a task function"""
    def __init__(s, task, E):
        s.task, s.E, s.A = task, E, E.A; E.ctx = s
        s.inputs = {}          # name -> z3 term, for counterexample reporting / replay
        s.covers = []          # (name, reached?)
        s.replay = None
        s.assumptions = []
    # -- modules
    def mod(s, src, extra=()): return build.module(src, extra)
    def harness(s, name): return build.module(os.path.join(build.HERE, 'harness', name))
    # -- state and inputs
    def state(s):
        st = State()
        s.E.facts_pending = []
        return st
    def sym(s, st, bits, name, signed=False):
        v = s.A.fresh(bits, name, st, signed) if s.A is INT else s.A.fresh(bits, name)
        s.inputs[name] = boolof(v) if bits == 1 else (s.A.s(v) if signed and s.A is INT else s.A.t(v))
        return v
    def u(s, v): return s.A.u(v)
    def s_(s, v): return s.A.s(v)
    def const(s, bits, n): return const(bits, n)
    def bytes_obj(s, st, name, size, init='fresh', es=1, kind='param'):
        """size: python int or offset term"""
        return s.E.new_obj(st, name, size, kind, init=init, es=es)
    def cells_obj(s, st, name, size, cells, kind='param'):
        p = s.E.new_obj(st, name, size, kind)
        o = st.mem[p.blk]; o.regs = (); o.cells = dict(cells)
        return p
    def struct_obj(s, st, mod, tyname, name, init='fresh', kind='param'):
        ty = NamedTy(tyname)
        return s.E.new_obj(st, name, mod.size(ty), kind, ty, mod, init)
    def cell(s, st, p, off=0):
        return st.mem[p.blk].cells[p.off + off]
    def setcell(s, st, p, off, v):
        o = s.E.wobj(st, p.blk); o.cells[p.off + off] = v
    def rd(s, st, p, bits, off=0):
        v = s.E.load_nochk(st, Ptr(p.blk, s.E.oadd(p.off, off)), bits)
        s.E.flush_facts(st)
        return v
    def byte(s, st, p, k): return s.rd(st, p, 8, k)
    def call(s, st, mod, fn, args):
        r = s.E.call(st, mod, fn, args)
        return r
    def prove(s, st, p, name, **k): return s.E.prove(st, p, name, **k)
    def cover(s, st, p, name):
        """reachability (anti-vacuity): st.pc && p must be satisfiable"""
        s.E.flush_facts(st)
        if p is True: p = z3.BoolVal(True)
        r = s.sat(st.pc, p)
        s.covers.append((name, str(r)))
    def sat(s, pc, q):
        r, _ = s.E.check(pc, q, 8000)
        if r == z3.unknown and s.E.opts.get('ematch'):
            S = z3.Solver(); S.set('timeout', 8000); S.add(*pc); S.add(q); r = S.check()
        return r
    def cover_any(s, states, p, name):
        unk = False
        for st in states:
            s.E.flush_facts(st)
            q = p(st) if callable(p) else p
            if q is True: q = z3.BoolVal(True)
            if q is False: continue
            r = s.sat(st.pc, q)
            if r == z3.sat: s.covers.append((name, 'sat')); return
            if r == z3.unknown: unk = True
        s.covers.append((name, 'unknown' if unk else 'not-reached'))
    def ret(s, st): return s.A.s(st.ret)
    def unchanged(s, a, b, p):
        """object of p in state b is untouched relative to a"""
        return a.mem[p.blk] is b.mem[p.blk] or (a.mem[p.blk].cells == b.mem[p.blk].cells and a.mem[p.blk].regs is b.mem[p.blk].regs)

def run_task(t, budget=None):
    """-> dict result; a task with alternatives (several contracts, each of which implies the property) keeps the first that is discharged"""
    first = None; t0 = time.time()
    for k in range(t.opts.get('alts', 1)):
        n = Task(t.prop, t.name, t.mode, t.fn, dict(t.opts, alt=k)); n.tier, n.budget = t.tier, t.budget
        left = (budget or t.budget) - (time.time() - t0)
        if k and left < 5: break
        r = run_task1(n, left)
        if first is None: first = r
        if not r['error'] and not r['tool_limit'] and all(o['status'] == 'proved' for o in r['obls']) and all(c[1] == 'sat' for c in r['covers']): return r
    return first
def run_task1(t, budget=None):
    t0 = time.time()
    E = Engine(t.mode, t.name, deadline=t0 + (budget or t.budget), opts=t.opts)
    ctx = T(t, E)
    res = dict(task=t.name, prop=t.prop, mode=t.mode, error=None, tool_limit=None)
    try:
        t.fn(ctx)
    except Unsupported as e:
        res['tool_limit'] = 'outside the supported subset: %s' % e
        if isinstance(e, NotUnderstood):
            for o in E.obls:
                if o.status == 'refuted': o.status = 'unknown'; o.detail = str(e)
    except Stop as e: res['tool_limit'] = 'budget: %s' % e
    except build.BuildError as e: res['error'] = str(e)
    except z3.Z3Exception as e: res['tool_limit'] = 'solver error: %s %s' % (str(e)[:300], traceback.format_exc()[-1500:])
    except Exception as e:
        res['tool_limit'] = 'engine: ' + traceback.format_exc()[-1500:]
    obls = []
    for o in E.obls:
        d = o.asdict()
        if o.status == 'refuted':
            d['inputs'] = {}
            if o.model is not None:
                for k, v in ctx.inputs.items():
                    try:
                        x = o.model.eval(v, model_completion=True)
                        d['inputs'][k] = (x.as_long() if hasattr(x, 'as_long') else str(x))
                    except Exception: pass
                rp = o.rp or ctx.replay
                if rp:
                    try: d['replay'] = rp(o.model, d['inputs'])
                    except Exception as e: d['replay_error'] = str(e)
                try: d['model'] = str(o.model)[:3000]
                except Exception: pass
        obls.append(d)
    res.update(obls=obls, covers=ctx.covers, funcs=sorted(E.funcs_used), ext=sorted(E.ext_used), queries=E.nq, solver_secs=E.qsecs,
               paths=E.paths, loops=E.loopinfo, secs=time.time() - t0, assumptions=ctx.assumptions, feas_unknown=E.unknown_feas, lossy=E.lossy)
    return res
