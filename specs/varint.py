"""C01, C02, C03: the varint codec (src/varint.c), bit-vector mode, loops
unrolled completely (at most 10 groups, bound checked)."""
from lvc.task import *

W = [('u16', 16, False, 3), ('i16', 16, True, 3), ('u32', 32, False, 5), ('i32', 32, True, 5), ('u64', 64, False, 10), ('i64', 64, True, 10)]
OPT = dict(policy='unroll', unroll=14)
B64 = lambda x: z3.BitVecVal(x, 64)

def zz(x, bits):          # zigzag of a `bits`-wide signed value, as an unsigned value of the same width
    return (x << 1) ^ (x >> (bits - 1))
def unzz(u, bits):
    return z3.LShR(u, 1) ^ (-(u & 1))
def z64(x): return x if x.size() == 64 else z3.ZeroExt(64 - x.size(), x)

def enc_len(u64, maxlen):
    n = z3.BitVecVal(maxlen, 64)
    for k in range(maxlen - 1, 0, -1): n = z3.If(z3.ULT(u64, B64(1) << (7 * k)), B64(k), n)
    return n
def enc_byte(u64, n, k):
    g = z3.Extract(7, 0, z3.LShR(u64, 7 * k)) & 0x7f
    return z3.If(z3.ULT(B64(k + 1), n), g | 0x80, g)

def write_case(t, nm, bits, signed, mx):
    m = t.mod('src/varint.c'); st = t.state()
    dl = t.sym(st, 64, 'dst_len')
    dst = t.bytes_obj(st, 'dst', t.u(dl))
    val = t.sym(st, bits, 'val')
    vl = t.cells_obj(st, 'val_len', 8, {0: t.sym(st, 64, 'old_len')})
    x = t.u(val); u = z64(zz(x, bits) if signed else x)
    return m, st, dl, dst, val, vl, u

for nm, bits, signed, mx in W:
    def mk(nm=nm, bits=bits, signed=signed, mx=mx):
        @task('C03', 'write_' + nm, 'bv', **OPT)
        def w(t):
            m, st, dl, dst, val, vl, u = write_case(t, nm, bits, signed, mx)
            t.replay = lambda M, i: ['write', nm, str(i['val']), str(i['dst_len'] if i['dst_len'] < 4096 else 4096)]
            fin = t.call(st, m, 'futils_varint_write_' + nm, [dst, dl, val, vl])
            n = enc_len(u, mx)
            k = z3.BitVec('k', 64)
            for f in fin:
                r = t.u(f.ret)
                big = z3.UGE(t.u(dl), mx)
                t.prove(f, z3.Implies(big, r == 0), 'accepts when the destination has the maximum length')
                t.prove(f, z3.Implies(z3.Not(big), r < 0), 'rejects a shorter destination')
                t.prove(f, z3.Implies(r == 0, t.u(t.cell(f, vl)) == n), 'reported length is the canonical length')
                for j in range(mx):
                    t.prove(f, z3.Implies(z3.And(r == 0, z3.ULT(B64(j), n)), t.u(t.byte(f, dst, j)) == enc_byte(u, n, j)), 'byte %d is canonical' % j)
                lim = z3.If(r == 0, n, B64(0))
                t.prove(f, z3.Implies(z3.And(z3.UGE(k, lim), z3.ULT(k, t.u(dl))), t.u(t.rd(f, Ptr(dst.blk, k), 8)) == t.u(t.rd(st, Ptr(dst.blk, k), 8))), 'bytes beyond the encoding are untouched')
            t.cover_any(fin, lambda f: t.u(f.ret) == 0, 'success'); t.cover_any(fin, lambda f: t.u(f.ret) < 0, 'rejection')
        @task('C03', 'write_%s_null' % nm, 'bv', **OPT)
        def wn(t):
            for which in (0, 1):
                m, st, dl, dst, val, vl, u = write_case(t, nm, bits, signed, mx)
                args = [NULL, dl, val, vl] if which == 0 else [dst, dl, val, NULL]
                for f in t.call(st, m, 'futils_varint_write_' + nm, args):
                    t.prove(f, t.u(f.ret) < 0, 'missing argument %d rejected' % which)
                    t.prove(f, t.unchanged(st, f, dst) and t.unchanged(st, f, vl), 'missing argument: nothing written')
        @task('C02', 'read_' + nm, 'bv', **OPT)
        def r(t):
            m = t.mod('src/varint.c'); st = t.state()
            sl = t.sym(st, 64, 'src_len')
            src = t.bytes_obj(st, 'src', t.u(sl)); st.mem[src.blk].ro = True
            out = t.cells_obj(st, 'val', bits // 8, {0: t.sym(st, bits, 'old_val')})
            vl = t.cells_obj(st, 'val_len', 8, {0: t.sym(st, 64, 'old_len')})
            by = [t.u(t.byte(st, src, k)) for k in range(mx + 2)]
            for k in range(mx): t.inputs['b%d' % k] = by[k]
            t.replay = lambda M, i: ['read', nm, ''.join('%02x' % i['b%d' % k] for k in range(min(mx, i['src_len']))) or '-']
            fin = t.call(st, m, 'futils_varint_read_' + nm, [src, sl, out, vl])
            # specification: length n of the group sequence, value
            L = t.u(sl)
            term = [(by[k] & 0x80) == 0 for k in range(mx)]
            n = B64(0); acc = None
            ok = z3.BoolVal(False); val = B64(0)
            for k in range(mx - 1, -1, -1):
                v = B64(0)
                for j in range(k + 1): v = v | (z3.ZeroExt(56, by[j] & 0x7f) << (7 * j))
                fit = z3.BoolVal(True)
                if k == mx - 1:
                    room = bits - 7 * (mx - 1)
                    fit = z3.ULT(by[k] & 0x7f, 1 << room)
                here = z3.And(*([z3.Not(term[j]) for j in range(k)] + [term[k], z3.ULT(B64(k), L), fit]))
                n = z3.If(here, B64(k + 1), n); val = z3.If(here, v, val); ok = z3.Or(ok, here)
            for f in fin:
                rr = t.u(f.ret)
                t.prove(f, (rr == 0) == ok, 'success exactly on a terminated varint that fits the width')
                t.prove(f, z3.Or(rr == 0, rr < 0), 'result is 0 or a negative errno')
                t.prove(f, z3.Implies(ok, t.u(t.cell(f, vl)) == n), 'consumed length')
                w = z3.Extract(bits - 1, 0, val)
                t.prove(f, z3.Implies(ok, t.u(t.cell(f, out)) == (unzz(w, bits) if signed else w)), 'decoded value')
            t.cover_any(fin, lambda f: z3.And(t.u(f.ret) == 0, t.u(t.cell(f, vl)) == mx), 'max length success')
            t.cover_any(fin, lambda f: t.u(f.ret) < 0, 'rejection')
        @task('C02', 'read_%s_null' % nm, 'bv', **OPT)
        def rn(t):
            m = t.mod('src/varint.c')
            for which in range(3):
                st = t.state()
                sl = t.sym(st, 64, 'src_len')
                src = t.bytes_obj(st, 'src', t.u(sl))
                out = t.cells_obj(st, 'val', bits // 8, {0: t.sym(st, bits, 'old_val')})
                vl = t.cells_obj(st, 'val_len', 8, {0: t.sym(st, 64, 'old_len')})
                args = [src, sl, out, vl]; args[(0, 2, 3)[which]] = NULL
                for f in t.call(st, m, 'futils_varint_read_' + nm, args):
                    t.prove(f, t.u(f.ret) < 0, 'missing argument %d rejected' % which)
        @task('C01', 'roundtrip_' + nm, 'bv', **OPT)
        def rt(t):
            """decode(encode(v)) through the two real functions, source buffer longer than or equal to the encoding"""
            m, st, dl, dst, val, vl, u = write_case(t, nm, bits, signed, mx)
            st.assume(z3.UGE(t.u(dl), mx))
            t.replay = lambda M, i: ['rt', nm, str(i['val'])]
            for f in t.call(st, m, 'futils_varint_write_' + nm, [dst, dl, val, vl]):
                t.prove(f, t.u(f.ret) == 0, 'encode succeeds')
                n = t.u(t.cell(f, vl))
                out = t.cells_obj(f, 'val', bits // 8, {0: t.sym(f, bits, 'old_val')})
                vl2 = t.cells_obj(f, 'val_len2', 8, {0: t.sym(f, 64, 'old_len2')})
                sl = t.sym(f, 64, 'src_len')
                f.assume(z3.And(z3.UGE(t.u(sl), n), z3.ULE(t.u(sl), t.u(dl))))
                # the decoder may read only src_len bytes: present it a buffer of exactly that size
                src = t.E.new_obj(f, 'src', t.u(sl), 'param')
                rdb = t.E.byte_reader(f, dst)
                o = t.E.wobj(f, src.blk); o.regs = (Region(0, t.u(sl), 1, rdb),)
                g = t.call(f, m, 'futils_varint_read_' + nm, [src, sl, out, vl2])
                for h in g:
                    t.prove(h, t.u(h.ret) == 0, 'decode succeeds')
                    t.prove(h, t.u(t.cell(h, out)) == t.u(val), 'value is preserved')
                    t.prove(h, t.u(t.cell(h, vl2)) == n, 'length is preserved')
                if g: t.cover(g[0], True, 'roundtrip path')
    mk()
