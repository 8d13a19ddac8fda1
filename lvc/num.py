"""Machine integers in two encodings.

BV  : bit-vectors (exact, good for bit twiddling).
INT : mathematical integers; wrap-around is modelled explicitly, so this is
      exact too (never 'machine arithmetic treated as mathematical').
A value V knows its width; python-constant values are folded."""
import z3
from .ir import Unsupported

class V:
    __slots__ = ('bits', 'c', 'b', '_u', '_s', 'lo', 'hi', 'tz', 'p', 'ptr')
    # c: python int (unsigned canonical) or None;  b: BV term;  _u/_s: Int terms; lo/hi: static interval of
    # the primary view ('u' if _u given first else 's'); p: Bool term for i1; ptr: Ptr for ptrtoint results
    def __init__(s, bits):
        s.bits = bits; s.c = None; s.b = None; s._u = None; s._s = None; s.lo = None; s.hi = None; s.tz = 0; s.p = None; s.ptr = None
    def __repr__(s):
        if s.c is not None: return 'i%d %d' % (s.bits, s.c)
        return 'i%d <%s>' % (s.bits, s.b if s.b is not None else s.p if s.p is not None else s._u if s._u is not None else s._s)

def const(bits, n):
    v = V(bits); v.c = n & ((1 << bits) - 1)
    return v
def sgn(c, bits):
    return c - (1 << bits) if c >> (bits - 1) else c
def from_bool(p):
    v = V(1)
    if p is True or p is False: v.c = int(p); return v
    if z3.is_true(p): v.c = 1
    elif z3.is_false(p): v.c = 0
    else: v.p = p
    return v
def boolof(v):
    if v.c is not None: return bool(v.c)
    if v.p is not None: return v.p
    if v.b is not None: return v.b == 1
    return (v._u if v._u is not None else v._s) != 0

def fold(op, a, b, n):
    M = (1 << n) - 1
    sa, sb = sgn(a, n), sgn(b, n)
    if op == 'add': r = a + b
    elif op == 'sub': r = a - b
    elif op == 'mul': r = a * b
    elif op == 'udiv': r = a // b
    elif op == 'urem': r = a % b
    elif op == 'sdiv':
        r = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0): r = -r
    elif op == 'srem':
        r = abs(sa) % abs(sb)
        if sa < 0: r = -r
    elif op == 'shl': r = a << b
    elif op == 'lshr': r = a >> b
    elif op == 'ashr': r = sa >> b
    elif op == 'and': r = a & b
    elif op == 'or': r = a | b
    elif op == 'xor': r = a ^ b
    else: raise Unsupported(op)
    return r & M
def fold_signed(op, a, b, n):
    sa, sb = sgn(a, n), sgn(b, n)
    return {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[op]

class BV:
    name = 'bv'
    @staticmethod
    def t(v):
        if v.c is not None: return z3.BitVecVal(v.c, v.bits)
        if v.b is not None: return v.b
        if v.p is not None: return z3.If(v.p, z3.BitVecVal(1, v.bits), z3.BitVecVal(0, v.bits))
        raise Unsupported('int value in bv mode')
    u = t; s = t
    @staticmethod
    def mk(bits, term):
        if bits == 1 and z3.is_bool(term): return from_bool(term)
        v = V(bits)
        if z3.is_bv_value(term): v.c = term.as_long()
        else: v.b = term
        return v
    @classmethod
    def fresh(A, bits, name, st=None, signed=False):
        if bits == 1: return from_bool(z3.FreshConst(z3.BoolSort(), name))
        return A.mk(bits, z3.FreshConst(z3.BitVecSort(bits), name))
    @classmethod
    def bin(A, E, st, op, fl, a, b):
        n = a.bits
        if op in ('shl', 'lshr', 'ashr'):
            E.oblige(st, True if b.c is not None and b.c < n else (z3.ULT(A.t(b), n) if b.c is None else False), 'shift-amount')
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            E.oblige(st, (b.c != 0) if b.c is not None else A.t(b) != 0, 'division-by-zero')
        if 'nsw' in fl and op in ('add', 'sub', 'mul'):
            if a.c is not None and b.c is not None:
                r = fold_signed(op, a.c, b.c, n)
                E.oblige(st, -(1 << (n-1)) <= r < (1 << (n-1)), 'signed-overflow')
            else:
                x, y = A.t(a), A.t(b)
                if op == 'add': ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
                elif op == 'sub': ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
                else: ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
                E.oblige(st, ok, 'signed-overflow')
        if a.c is not None and b.c is not None:
            if op in ('udiv', 'sdiv', 'urem', 'srem') and b.c == 0: return A.fresh(n, 'divz')
            return const(n, fold(op, a.c, b.c, n))
        if n == 1 and op in ('and', 'or', 'xor'):
            x, y = boolof(a), boolof(b)
            if op == 'and': return from_bool(z3.And(x, y))
            if op == 'or': return from_bool(z3.Or(x, y))
            return from_bool(z3.Xor(x, y))
        x, y = A.t(a), A.t(b)
        if b.c == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if a.c == 0 and op in ('add', 'or', 'xor'): return b
        if op == 'and' and (a.c == 0 or b.c == 0): return const(n, 0)
        if op in ('udiv', 'urem') and b.c and E.div_hook:
            r = E.div_hook(st, op, x, b.c)
            if r is not None: return r
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'udiv': lambda: z3.UDiv(x, y),
             'sdiv': lambda: x / y, 'urem': lambda: z3.URem(x, y), 'srem': lambda: z3.SRem(x, y), 'shl': lambda: x << y,
             'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]()
        return A.mk(n, E.simp(r))
    @classmethod
    def icmp(A, E, st, pr, a, b):
        if a.bits == 1:
            if a.c is not None and b.c is not None: return const(1, int((a.c == b.c) == (pr == 'eq')))
            x, y = boolof(a), boolof(b)
            e = (x if y is True else z3.Not(x) if y is False else x == y) if not isinstance(x, bool) else (y if x else z3.Not(y))
            if pr == 'eq': return from_bool(e)
            if pr == 'ne': return from_bool(z3.simplify(z3.Not(e)))
            raise Unsupported('icmp i1')
        if a.c is not None and b.c is not None: return const(1, int(cmpc(pr, a.c, b.c, a.bits)))
        x, y = A.t(a), A.t(b)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pr]()
        return from_bool(E.simp(r))
    @classmethod
    def cast(A, E, st, op, a, bits):
        if a.c is not None:
            return const(bits, sgn(a.c, a.bits) if op == 'sext' else a.c)
        if a.bits == 1:
            one = z3.BitVecVal(1 if op == 'zext' else -1, bits)
            return A.mk(bits, z3.If(boolof(a), one, z3.BitVecVal(0, bits)))
        x = A.t(a)
        if op == 'zext': return A.mk(bits, E.simp(z3.ZeroExt(bits - a.bits, x)))
        if op == 'sext': return A.mk(bits, E.simp(z3.SignExt(bits - a.bits, x)))
        if op == 'trunc':
            if bits == 1: return from_bool(z3.Extract(0, 0, x) == 1)
            return A.mk(bits, E.simp(z3.Extract(bits - 1, 0, x)))
        raise Unsupported(op)
    @classmethod
    def ite(A, E, p, a, b):
        if p is True: return a
        if p is False: return b
        if a.bits == 1: return from_bool(z3.simplify(z3.If(p, boolof(a), boolof(b))))
        if a.c is not None and a.c == b.c: return a
        return A.mk(a.bits, E.simp(z3.If(p, A.t(a), A.t(b))))
    # offsets: python int or BV64
    @classmethod
    def off(A, v):
        return sgn(v.c, v.bits) if v.c is not None else (A.t(v) if v.bits == 64 else z3.SignExt(64 - v.bits, A.t(v)))
    @classmethod
    def off_v(A, o):
        return const(64, o) if isinstance(o, int) else A.mk(64, o)
    @staticmethod
    def osort(): return z3.BitVecSort(64)
    @staticmethod
    def oterm(o): return z3.BitVecVal(o, 64) if isinstance(o, int) else o
    @staticmethod
    def ole(a, b):   # 0 <= a <= b as unsigned
        if isinstance(a, int) and isinstance(b, int): return 0 <= a <= b
        return z3.ULE(BV.oterm(a), BV.oterm(b))
    @staticmethod
    def olt(a, b):
        if isinstance(a, int) and isinstance(b, int): return 0 <= a < b
        return z3.ULT(BV.oterm(a), BV.oterm(b))
    @staticmethod
    def inrange(lo, n, size):  # lo+n <= size without wrap, lo>=0, n>=0 (unsigned)
        if all(isinstance(x, int) for x in (lo, n, size)): return 0 <= lo and lo + n <= size
        a, b, c = BV.oterm(lo), BV.oterm(n), BV.oterm(size)
        return z3.And(z3.ULE(b, c), z3.ULE(a, c - b))
    @staticmethod
    def esort(bits): return z3.BitVecSort(bits)
    @staticmethod
    def odiv(o, k):
        if isinstance(o, int): return o // k
        return z3.UDiv(o, z3.BitVecVal(k, 64)) if k & (k-1) else z3.LShR(o, k.bit_length() - 1)
    @staticmethod
    def omod(o, k):
        if isinstance(o, int): return o % k
        return z3.URem(o, z3.BitVecVal(k, 64))

def cmpc(pr, a, b, n):
    sa, sb = sgn(a, n), sgn(b, n)
    return {'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
            'sgt': sa > sb, 'sge': sa >= sb, 'slt': sa < sb, 'sle': sa <= sb}[pr]

class INT:
    name = 'int'
    @staticmethod
    def u(v):
        if v.c is not None: return z3.IntVal(v.c)
        if v._u is None:
            if v.p is not None: v._u = z3.If(v.p, z3.IntVal(1), z3.IntVal(0))
            elif v._s is not None:
                v._u = v._s if (v.lo is not None and v.lo >= 0) else z3.If(v._s < 0, v._s + (1 << v.bits), v._s)
            else: raise Unsupported('bv value in int mode')
        return v._u
    t = u
    @staticmethod
    def s(v):
        if v.c is not None: return z3.IntVal(sgn(v.c, v.bits))
        if v._s is None:
            u = INT.u(v)
            v._s = u if (v.hi is not None and v.hi < (1 << (v.bits - 1))) else z3.If(u >= (1 << (v.bits - 1)), u - (1 << v.bits), u)
        return v._s
    @staticmethod
    def mku(bits, term, lo=0, hi=None, tz=0):
        v = V(bits)
        if z3.is_int_value(term):
            v.c = term.as_long() & ((1 << bits) - 1); return v
        v._u = term; v.lo = max(0, lo); v.hi = (1 << bits) - 1 if hi is None else min(hi, (1 << bits) - 1); v.tz = tz
        return v
    @staticmethod
    def mks(bits, term, lo=None, hi=None):
        v = V(bits)
        if z3.is_int_value(term):
            v.c = term.as_long() & ((1 << bits) - 1); return v
        H = 1 << (bits - 1)
        v._s = term; v.lo = -H if lo is None else max(lo, -H); v.hi = H - 1 if hi is None else min(hi, H - 1)
        return v
    @classmethod
    def mk(A, bits, term):
        if bits == 1 and z3.is_bool(term): return from_bool(term)
        return A.mku(bits, term)
    @classmethod
    def fresh(A, bits, name, st=None, signed=False):
        if bits == 1: return from_bool(z3.FreshConst(z3.BoolSort(), name))
        x = z3.FreshConst(z3.IntSort(), name)
        if st is not None:
            if signed: st.assume(z3.And(x >= -(1 << (bits-1)), x < (1 << (bits-1))))
            else: st.assume(z3.And(x >= 0, x < (1 << bits)))
        return A.mks(bits, x) if signed else A.mku(bits, x)
    @staticmethod
    def uiv(v):
        if v.c is not None: return (v.c, v.c)
        if v.lo is not None and v.lo >= 0: return (v.lo, v.hi)
        return (0, (1 << v.bits) - 1)
    @staticmethod
    def siv(v):
        H = 1 << (v.bits - 1)
        if v.c is not None:
            c = sgn(v.c, v.bits); return (c, c)
        if v.lo is None: return (-H, H - 1)
        if v._s is not None and v._u is None or v.lo < 0: return (v.lo, v.hi)
        if v.hi < H: return (v.lo, v.hi)
        return (-H, H - 1)
    @staticmethod
    def ctz(v):
        if v.c is not None: return 64 if v.c == 0 else (v.c & -v.c).bit_length() - 1
        return v.tz
    @classmethod
    def bin(A, E, st, op, fl, a, b):
        n = a.bits; W = 1 << n
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            E.oblige(st, (b.c != 0) if b.c is not None else A.u(b) != 0, 'division-by-zero')
        if op in ('shl', 'lshr', 'ashr'):
            E.oblige(st, b.c < n if b.c is not None else A.u(b) < n, 'shift-amount')
        if a.c is not None and b.c is not None:
            if 'nsw' in fl and op in ('add', 'sub', 'mul'):
                r = fold_signed(op, a.c, b.c, n)
                E.oblige(st, -(W >> 1) <= r < (W >> 1), 'signed-overflow')
            if op in ('udiv', 'sdiv', 'urem', 'srem') and b.c == 0: return A.fresh(n, 'divz', st)
            return const(n, fold(op, a.c, b.c, n))
        if a.ptr is not None and op == 'sub' and b.ptr is not None:
            return E.ptr_diff(st, a.ptr, b.ptr)
        if n == 1 and op in ('and', 'or', 'xor'):
            x, y = boolof(a), boolof(b)
            if op == 'and': return from_bool(z3.And(x, y))
            if op == 'or': return from_bool(z3.Or(x, y))
            return from_bool(z3.Xor(x, y))
        if op in ('add', 'sub', 'mul'):
            if op == 'mul' and (a.c == 0 or b.c == 0): return const(n, 0)
            if op == 'mul' and E.mul_hook:
                r = E.mul_hook(st, a, b)
                if r is not None: return r
            if b.c == 0 and op in ('add', 'sub'): return a
            if 'nsw' in fl:
                (al, ah), (bl, bh) = A.siv(a), A.siv(b)
                x, y = A.s(a), A.s(b)
                if op == 'add': t = x + y; lo, hi = al + bl, ah + bh
                elif op == 'sub': t = x - y; lo, hi = al - bh, ah - bl
                else:
                    t = x * y; c = [al*bl, al*bh, ah*bl, ah*bh]; lo, hi = min(c), max(c)
                t = E.simp(t)
                if not (lo >= -(W >> 1) and hi < (W >> 1)):
                    E.oblige(st, z3.And(t >= -(W >> 1), t < (W >> 1)), 'signed-overflow')
                return A.mks(n, t, lo, hi)
            (al, ah), (bl, bh) = A.siv(a), A.siv(b); H = W >> 1
            c = [al * bl, al * bh, ah * bl, ah * bh] if op == 'mul' else [al + bl, ah + bh] if op == 'add' else [al - bh, ah - bl]
            lo, hi = min(c), max(c)
            if (lo < 0 or al < 0 or bl < 0) and lo >= -H and hi < H and not (al == -H or bl == -H):
                # exact as a small signed number: no wrap-around case split
                x, y = A.s(a), A.s(b)
                return A.mks(n, E.simp(x + y if op == 'add' else x - y if op == 'sub' else x * y), lo, hi)
            (al, ah), (bl, bh) = A.uiv(a), A.uiv(b)
            x, y = A.u(a), A.u(b)
            if op == 'add':
                # adding a "negative" constant: treat as subtraction
                if b.c is not None and b.c >= (W >> 1):
                    t = x - (W - b.c)
                    if al >= W - b.c or E.entails(st, t >= 0): return A.mku(n, E.simp(t), 0, ah)
                    return A.mku(n, z3.If(t < 0, t + W, t))
                t = E.simp(x + y)
                if ah + bh < W or E.entails(st, t < W): return A.mku(n, t, al + bl, ah + bh)
                return A.mku(n, z3.If(t >= W, t - W, t))
            if op == 'sub':
                t = E.simp(x - y)
                if al >= bh or E.entails(st, t >= 0): return A.mku(n, t, 0, ah - bl)
                return A.mku(n, z3.If(t < 0, t + W, t))
            t = E.simp(x * y)
            tz = min(64, A.ctz(a) + A.ctz(b))
            if ah * bh < W or E.entails(st, t < W): return A.mku(n, t, al * bl, ah * bh, tz)
            return A.mku(n, t % W)
        if op in ('udiv', 'urem'):
            (al, ah), (bl, bh) = A.uiv(a), A.uiv(b)
            x, y = A.u(a), A.u(b)
            if op == 'udiv':
                return A.mku(n, E.simp(x / y), al // max(bh, 1), ah // max(bl, 1))
            if b.c is not None and ah < b.c: return a
            return A.mku(n, E.simp(x % y), 0, min(ah, bh - 1) if bh else None)
        if op in ('sdiv', 'srem'):
            x, y = A.s(a), A.s(b)
            (al, ah), (bl, bh) = A.siv(a), A.siv(b)
            if not (al > -(W >> 1) or bl > -1 or bh < -1):
                E.oblige(st, z3.Not(z3.And(x == -(W >> 1), y == -1)), 'signed-overflow')
            if al >= 0 and bl > 0:
                if op == 'sdiv': return A.mks(n, E.simp(x / y), 0, ah)
                return A.mks(n, E.simp(x % y), 0, bh - 1)
            ax, ay = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
            if b.c is not None: ay = z3.IntVal(abs(sgn(b.c, n)))
            q = ax / ay
            if b.c is not None: q = z3.If(x < 0, -q, q) if sgn(b.c, n) > 0 else z3.If(x < 0, q, -q)
            else: q = z3.If((x < 0) != (y < 0), -q, q)
            if op == 'sdiv': return A.mks(n, E.simp(q))
            m = ax % ay
            if b.c is not None:
                k = abs(sgn(b.c, n)) - 1
                return A.mks(n, E.simp(z3.If(x < 0, -m, m)), -k, k)
            return A.mks(n, E.simp(z3.If(x < 0, -m, m)))
        if op == 'shl':
            if b.c is None: raise Unsupported('shl by symbolic amount (int mode)')
            k = b.c; (al, ah) = A.uiv(a)
            t = E.simp(A.u(a) * (1 << k))
            if ah << k < W: return A.mku(n, t, al << k, ah << k, min(64, A.ctz(a) + k))
            return A.mku(n, E.simp(t % W), tz=min(64, A.ctz(a) + k))
        if op == 'lshr':
            if b.c is None: raise Unsupported('lshr by symbolic amount (int mode)')
            (al, ah) = A.uiv(a)
            return A.mku(n, E.simp(A.u(a) / (1 << b.c)), al >> b.c, ah >> b.c)
        if op == 'ashr':
            if b.c is None: raise Unsupported('ashr by symbolic amount (int mode)')
            (al, ah) = A.siv(a)
            return A.mks(n, E.simp(A.s(a) / (1 << b.c)), al >> b.c, ah >> b.c)
        if op == 'and':
            if a.c is not None: a, b = b, a
            if b.c is None: raise Unsupported('and of symbolic values (int mode)')
            m = b.c; (al, ah) = A.uiv(a)
            x = A.u(a); t = None; k = 0; hi = 0
            while m >> k:
                if (m >> k) & 1:
                    e = k
                    while (m >> e) & 1: e += 1
                    part = x
                    if k: part = part / (1 << k)
                    if ah >> e: part = part % (1 << (e - k))
                    if k: part = part * (1 << k)
                    t = part if t is None else t + part
                    k = e
                else: k += 1
            if t is None: return const(n, 0)
            return A.mku(n, E.simp(t), 0, min(m, ah), max(A.ctz(a), A.ctz(b)))
        if op == 'or':
            if a.c == 0: return b
            if b.c == 0: return a
            for x, y in ((a, b), (b, a)):
                tzx = A.ctz(x); (yl, yh) = A.uiv(y)
                if tzx and yh < (1 << min(tzx, 64)):
                    (xl, xh) = A.uiv(x)
                    return A.mku(n, E.simp(A.u(x) + A.u(y)), xl + yl, xh + yh)
            if b.c is not None or a.c is not None:
                if a.c is not None: a, b = b, a
                # x | m = x + (m & ~x)
                na = A.bin(E, st, 'and', (), A.bin(E, st, 'xor', (), a, const(n, -1)), b)
                return A.mku(n, E.simp(A.u(a) + A.u(na)))
            raise Unsupported('or of overlapping values (int mode)')
        if op == 'xor':
            if a.c is not None: a, b = b, a
            if b.c == W - 1: return A.mku(n, E.simp((W - 1) - A.u(a)))
            if b.c is not None:
                # x ^ m = x + m - 2*(x & m)
                an = A.bin(E, st, 'and', (), a, b)
                return A.mku(n, E.simp(A.u(a) + b.c - 2 * A.u(an)))
            raise Unsupported('xor of symbolic values (int mode)')
        raise Unsupported(op)
    @classmethod
    def icmp(A, E, st, pr, a, b):
        if a.bits == 1: return BV.icmp(E, st, pr, a, b)
        if a.c is not None and b.c is not None: return const(1, int(cmpc(pr, a.c, b.c, a.bits)))
        if pr in ('eq', 'ne'):
            sa = a._u is None and a._s is not None; sb = b._u is None and b._s is not None
            if sa or sb: x, y = A.s(a), A.s(b)
            else: x, y = A.u(a), A.u(b)
            return from_bool(E.simp(x == y if pr == 'eq' else x != y))
        if pr[0] == 'u':
            x, y = A.u(a), A.u(b); (al, ah), (bl, bh) = A.uiv(a), A.uiv(b)
        else:
            x, y = A.s(a), A.s(b); (al, ah), (bl, bh) = A.siv(a), A.siv(b)
        k = pr[1:]
        if k == 'gt': r = True if al > bh else False if ah <= bl else x > y
        elif k == 'ge': r = True if al >= bh else False if ah < bl else x >= y
        elif k == 'lt': r = True if ah < bl else False if al >= bh else x < y
        else: r = True if ah <= bl else False if al > bh else x <= y
        return from_bool(r if isinstance(r, bool) else E.simp(r))
    @classmethod
    def cast(A, E, st, op, a, bits):
        if a.c is not None: return const(bits, sgn(a.c, a.bits) if op == 'sext' else a.c)
        if a.bits == 1:
            if op == 'zext': return A.mku(bits, z3.If(boolof(a), z3.IntVal(1), z3.IntVal(0)), 0, 1)
            return A.mks(bits, z3.If(boolof(a), z3.IntVal(-1), z3.IntVal(0)), -1, 0)
        if op == 'zext':
            l, h = A.uiv(a); return A.mku(bits, A.u(a), l, h, a.tz)
        if op == 'sext':
            l, h = A.siv(a); return A.mks(bits, A.s(a), l, h)
        if op == 'trunc':
            W = 1 << bits
            if bits == 1: return from_bool(A.u(a) % 2 == 1)
            if a._s is not None and a._u is None:
                l, h = A.siv(a); H = W >> 1
                if l >= -H and h < H: return A.mks(bits, a._s, l, h)
                if E.entails(st, z3.And(a._s >= -H, a._s < H)): return A.mks(bits, a._s, l, h)
            l, h = A.uiv(a); x = A.u(a)
            if h < W or E.entails(st, x < W): return A.mku(bits, x, l, h, a.tz)
            return A.mku(bits, E.simp(x % W))
        raise Unsupported(op)
    @classmethod
    def ite(A, E, p, a, b):
        if p is True: return a
        if p is False: return b
        if a.bits == 1: return from_bool(z3.simplify(z3.If(p, boolof(a), boolof(b))))
        if a.c is not None and a.c == b.c: return a
        sa = a._u is None and a._s is not None; sb = b._u is None and b._s is not None
        neg = lambda v, o: v.c is not None and sgn(v.c, v.bits) < 0 and A.siv(o)[0] > -(1 << (v.bits - 2))
        if sa or sb or neg(a, b) or neg(b, a):
            (al, ah), (bl, bh) = A.siv(a), A.siv(b)
            return A.mks(a.bits, E.simp(z3.If(p, A.s(a), A.s(b))), min(al, bl), max(ah, bh))
        (al, ah), (bl, bh) = A.uiv(a), A.uiv(b)
        return A.mku(a.bits, E.simp(z3.If(p, A.u(a), A.u(b))), min(al, bl), max(ah, bh))
    @classmethod
    def off(A, v):
        return sgn(v.c, v.bits) if v.c is not None else A.s(v)
    @classmethod
    def off_v(A, o):
        return const(64, o) if isinstance(o, int) else A.mks(64, o)
    @staticmethod
    def osort(): return z3.IntSort()
    @staticmethod
    def oterm(o): return z3.IntVal(o) if isinstance(o, int) else o
    @staticmethod
    def ole(a, b):
        if isinstance(a, int) and isinstance(b, int): return 0 <= a <= b
        return z3.And(a >= 0, a <= b)
    @staticmethod
    def olt(a, b):
        if isinstance(a, int) and isinstance(b, int): return 0 <= a < b
        if isinstance(a, int): return z3.And(z3.BoolVal(a >= 0), b > a)
        return z3.And(a >= 0, a < b)
    @staticmethod
    def inrange(lo, n, size):
        if all(isinstance(x, int) for x in (lo, n, size)): return 0 <= lo and 0 <= n and lo + n <= size
        a, b, c = INT.oterm(lo), INT.oterm(n), INT.oterm(size)
        return z3.And(a >= 0, b >= 0, a + b <= c)
    @staticmethod
    def esort(bits): return z3.IntSort()
    @staticmethod
    def odiv(o, k): return o // k if isinstance(o, int) else o / k
    @staticmethod
    def omod(o, k): return o % k
