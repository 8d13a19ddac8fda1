"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the
verifier works on.  Everything that is not understood becomes an 'unknown'
instruction; executing one raises Unsupported (the check then reports
undecided for the obligations behind it, never a violation)."""
import re

class Unsupported(Exception):
    pass
class NotUnderstood(Unsupported):
    """the code is organised in a way the specification's invariants do not describe: what failed because of that says nothing"""

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ()
class IntTy(Ty):
    __slots__ = ('bits',)
    def __init__(s, b): s.bits = b
    def __repr__(s): return 'i%d' % s.bits
class PtrTy(Ty):
    __slots__ = ()
    def __repr__(s): return 'ptr'
class FloatTy(Ty):
    __slots__ = ('kind',)
    def __init__(s, k): s.kind = k
    def __repr__(s): return s.kind
class VoidTy(Ty):
    __slots__ = ()
    def __repr__(s): return 'void'
class ArrTy(Ty):
    __slots__ = ('n', 'el')
    def __init__(s, n, el): s.n, s.el = n, el
    def __repr__(s): return '[%d x %r]' % (s.n, s.el)
class StructTy(Ty):
    __slots__ = ('fields', 'packed')
    def __init__(s, f, packed=False): s.fields, s.packed = f, packed
    def __repr__(s): return '{%s}' % ', '.join(map(repr, s.fields))
class NamedTy(Ty):
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return '%' + s.name
class OtherTy(Ty):
    __slots__ = ('txt',)
    def __init__(s, t): s.txt = t
    def __repr__(s): return s.txt

I1, I8, I16, I32, I64, PTR, VOID = IntTy(1), IntTy(8), IntTy(16), IntTy(32), IntTy(64), PtrTy(), VoidTy()

TOK = re.compile(r'''\s*(
    c"(?:[^"])*" | "(?:[^"])*" |
    [%@]"(?:[^"])*" | [%@][-a-zA-Z$._0-9]+ |
    ![-a-zA-Z$._0-9]* | \#[0-9]+ | \$[-a-zA-Z$._0-9"]+ |
    0x[0-9A-Fa-f]+ | -?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)? | -?[0-9]+ |
    \.\.\. | [a-zA-Z_][a-zA-Z_0-9.]* | [()\[\]{}<>,=*:|]
    )''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            out.append(s[i]); i += 1
            continue
        out.append(m.group(1)); i = m.end()
    return out

ATTR_WORDS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
  'writeonly', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'dead_on_unwind', 'writable', 'nounwind',
  'willreturn', 'allocalign', 'allocptr', 'dso_local', 'noreturn', 'mustprogress', 'dead_on_return', 'noext'}

class Toks:
    def __init__(s, toks): s.t, s.i = toks, 0
    def peek(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else None
    def next(s):
        x = s.peek()
        s.i += 1
        return x
    def accept(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False
    def expect(s, x):
        if not s.accept(x):
            raise Unsupported('parse: expected %s got %s in %s' % (x, s.peek(), ' '.join(s.t)))
    def skip_attrs(s):
        while True:
            p = s.peek()
            if p in ATTR_WORDS:
                s.i += 1
            elif p in ('align',) :
                s.i += 1
                if s.accept('('):
                    while s.next() != ')': pass
                else:
                    s.i += 1
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'memory',
                       'byref', 'preallocated', 'inalloca', 'nofpclass', 'captures', 'initializes', 'allocsize'):
                s.i += 1
                if s.accept('('):
                    d = 1
                    while d:
                        x = s.next()
                        d += (x == '(') - (x == ')')
            elif p and p[0] == '#' and p[1:].isdigit():
                s.i += 1
            else:
                return

def parse_type(T):
    p = T.next()
    if p is None: raise Unsupported('type: eof')
    if p == 'void': t = VOID
    elif p == 'ptr':
        t = PTR
        if T.peek() == 'addrspace':
            raise Unsupported('addrspace')
    elif re.fullmatch(r'i\d+', p): t = IntTy(int(p[1:]))
    elif p in ('float', 'double', 'x86_fp80', 'half', 'fp128'): t = FloatTy(p)
    elif p in ('label', 'metadata', 'token'): t = OtherTy(p)
    elif p == '[':
        n = int(T.next()); T.expect('x'); el = parse_type(T); T.expect(']')
        t = ArrTy(n, el)
    elif p == '{':
        fs = []
        if not T.accept('}'):
            while True:
                fs.append(parse_type(T))
                if T.accept('}'): break
                T.expect(',')
        t = StructTy(fs)
    elif p == '<':
        if T.peek() == '{':
            T.next(); fs = []
            if not T.accept('}'):
                while True:
                    fs.append(parse_type(T))
                    if T.accept('}'): break
                    T.expect(',')
            T.expect('>')
            t = StructTy(fs, True)
        else:
            n = T.next(); T.expect('x'); el = parse_type(T); T.expect('>')
            t = OtherTy('<%s x %r>' % (n, el))
    elif p[0] == '%': t = NamedTy(p[1:].strip('"'))
    elif p == 'opaque': t = OtherTy('opaque')
    else: raise Unsupported('type ' + p)
    # function type:  ret (args)
    if T.peek() == '(':
        d, j = 0, T.i
        while True:
            x = T.t[j]
            d += (x == '(') - (x == ')')
            j += 1
            if d == 0: break
        T.i = j
        return ('fn', t)
    return t

# ---------------------------------------------------------------- values
# operand := ('reg', name) | ('int', v) | ('null',) | ('glob', name) | ('undef',) | ('zero',)
#          | ('fp', float) | ('str', bytes) | ('agg', [(ty, op)]) | ('ce', opcode, ...)
import struct as _st
def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

def parse_value(T, ty):
    T.skip_attrs()
    p = T.next()
    if p is None: raise Unsupported('value: eof')
    if p[0] == '%': return ('reg', p[1:].strip('"'))
    if p[0] == '@': return ('glob', p[1:].strip('"'))
    if p == 'null': return ('null',)
    if p in ('undef', 'poison'): return ('undef',)
    if p == 'zeroinitializer': return ('zero',)
    if p == 'true': return ('int', 1)
    if p == 'false': return ('int', 0)
    if p.startswith('c"'): return ('str', unescape(p[2:-1]))
    if isinstance(ty, FloatTy):
        if p.startswith('0x'): return ('fp', _st.unpack('>d', bytes.fromhex(p[2:].rjust(16, '0')))[0])
        return ('fp', float(p))
    if re.fullmatch(r'-?\d+', p): return ('int', int(p))
    if p in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'add', 'sub'):
        if p == 'getelementptr':
            while T.peek() in ('inbounds', 'nuw', 'nusw'): T.next()
            T.expect('(')
            bt = parse_type(T); T.expect(',')
            ops = []
            while True:
                while T.peek() == 'inrange': T.next()
                t = parse_type(T); v = parse_value(T, t); ops.append((t, v))
                if T.accept(')'): break
                T.expect(',')
            return ('ce', 'gep', bt, ops)
        T.expect('(')
        if p in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc'):
            t = parse_type(T); v = parse_value(T, t); T.expect('to'); t2 = parse_type(T); T.expect(')')
            return ('ce', p, t, v, t2)
        raise Unsupported('constant expr ' + p)
    if p in ('{', '[', '<'):
        end = {'{': '}', '[': ']', '<': '>'}[p]
        if p == '<' and T.peek() == '{':
            T.next(); end = '}'
        els = []
        if not T.accept(end):
            while True:
                t = parse_type(T); v = parse_value(T, t); els.append((t, v))
                if T.accept(end): break
                T.expect(',')
        if p == '<' and end == '}': T.expect('>')
        return ('agg', els)
    if p == 'asm': return ('asm',)
    raise Unsupported('value ' + p)

class Ins:
    __slots__ = ('op', 'res', 'a', 'line', 'txt')
    def __init__(s, op, res, a, line, txt): s.op, s.res, s.a, s.line, s.txt = op, res, a, line, txt
    def __repr__(s): return s.txt

class Block:
    def __init__(s, name): s.name, s.ins = name, []
class Func:
    def __init__(s): s.name = None; s.params = []; s.blocks = {}; s.entry = None; s.ret = None; s.vararg = False; s.internal = False
class Module:
    def __init__(s): s.types, s.globals, s.funcs, s.decls, s.lines = {}, {}, {}, set(), {}

    # layout -----------------------------------------------------------
    def resolve(s, t):
        while isinstance(t, NamedTy):
            if t.name not in s.types: raise Unsupported('type %s' % t.name)
            t = s.types[t.name]
        return t
    def align(s, t):
        t = s.resolve(t)
        if isinstance(t, IntTy): return max(1, min(16, 1 << ((max(t.bits, 8) // 8) - 1).bit_length()))
        if isinstance(t, PtrTy): return 8
        if isinstance(t, FloatTy): return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t.kind]
        if isinstance(t, ArrTy): return s.align(t.el)
        if isinstance(t, StructTy): return 1 if t.packed else max([1] + [s.align(f) for f in t.fields])
        raise Unsupported('align %r' % t)
    def size(s, t):
        t = s.resolve(t)
        if isinstance(t, IntTy):
            b = (t.bits + 7) // 8; a = s.align(t)
            return (b + a - 1) // a * a
        if isinstance(t, PtrTy): return 8
        if isinstance(t, FloatTy): return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t.kind]
        if isinstance(t, ArrTy): return t.n * s.size(t.el)
        if isinstance(t, StructTy):
            o = 0
            for f in t.fields:
                a = 1 if t.packed else s.align(f); o = (o + a - 1) // a * a + s.size(f)
            a = s.align(t)
            return (o + a - 1) // a * a
        raise Unsupported('sizeof %r' % t)
    def field_off(s, t, k):
        t = s.resolve(t); o = 0
        for i, f in enumerate(t.fields):
            a = 1 if t.packed else s.align(f); o = (o + a - 1) // a * a
            if i == k: return o
            o += s.size(f)
        raise Unsupported('field')
    def flatten(s, t, off=0):
        """-> list of (offset, scalar type | ArrTy of scalars)"""
        t = s.resolve(t)
        if isinstance(t, StructTy):
            out = []
            for i, f in enumerate(t.fields): out += s.flatten(f, off + s.field_off(t, i))
            return out
        if isinstance(t, ArrTy):
            el = s.resolve(t.el)
            if isinstance(el, (IntTy,)): return [(off, ArrTy(t.n, el))]
            if isinstance(el, ArrTy) and isinstance(s.resolve(el.el), IntTy):
                return [(off, ArrTy(t.n * el.n, s.resolve(el.el)))]
            if t.n > 64: raise Unsupported('large array of aggregates')
            out = []
            for i in range(t.n): out += s.flatten(el, off + i * s.size(el))
            return out
        return [(off, t)]

BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBINOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fptrunc', 'fpext'}

def parse_ins(line, M):
    txt = line
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m: dbg = int(m.group(1))
    # cut metadata attachments
    body = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', line)
    body = re.sub(r'(, !srcloc ![0-9]+)', '', body)
    T = Toks(tokenize(body))
    res = None
    if T.peek() and T.peek()[0] == '%' and T.peek(1) == '=':
        res = T.next()[1:].strip('"'); T.next()
    op = T.next()
    def mk(op, *a): return Ins(op, res, a, dbg, txt.strip())
    try:
        if op in ('tail', 'musttail', 'notail'): op = T.next()
        if op in BINOPS:
            fl = set()
            while T.peek() in ('nsw', 'nuw', 'exact', 'disjoint'): fl.add(T.next())
            t = parse_type(T); a = parse_value(T, t); T.expect(','); b = parse_value(T, t)
            return mk('bin', op, fl, t, a, b)
        if op in FBINOPS:
            while T.peek() in ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'): T.next()
            t = parse_type(T); a = parse_value(T, t); T.expect(','); b = parse_value(T, t)
            return mk('fbin', op, t, a, b)
        if op in CASTS:
            while T.peek() in ('nneg', 'nuw', 'nsw'): T.next()
            t = parse_type(T); a = parse_value(T, t); T.expect('to'); t2 = parse_type(T)
            return mk('cast', op, t, a, t2)
        if op == 'icmp':
            T.accept('samesign')
            pr = T.next(); t = parse_type(T); a = parse_value(T, t); T.expect(','); b = parse_value(T, t)
            return mk('icmp', pr, t, a, b)
        if op == 'fcmp':
            while T.peek() in ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'): T.next()
            pr = T.next(); t = parse_type(T); a = parse_value(T, t); T.expect(','); b = parse_value(T, t)
            return mk('fcmp', pr, t, a, b)
        if op == 'alloca':
            T.accept('inalloca')
            t = parse_type(T); n = None
            while T.accept(','):
                if T.peek() == 'align': T.next(); T.next()
                else:
                    tt = parse_type(T); n = (tt, parse_value(T, tt))
            return mk('alloca', t, n)
        if op == 'load':
            at = T.accept('atomic'); vol = T.accept('volatile')
            t = parse_type(T); T.expect(','); pt = parse_type(T); p = parse_value(T, pt)
            return mk('load', t, p, at)
        if op == 'store':
            at = T.accept('atomic'); vol = T.accept('volatile')
            t = parse_type(T); v = parse_value(T, t); T.expect(','); pt = parse_type(T); p = parse_value(T, pt)
            return mk('store', t, v, p)
        if op == 'getelementptr':
            inb = False
            while T.peek() in ('inbounds', 'nuw', 'nusw'): T.next(); inb = True
            bt = parse_type(T); T.expect(','); pt = parse_type(T); p = parse_value(T, pt)
            idx = []
            while T.accept(','):
                t = parse_type(T); idx.append((t, parse_value(T, t)))
            return mk('gep', bt, p, idx, inb)
        if op == 'br':
            if T.accept('label'): return mk('br', T.next()[1:].strip('"'))
            t = parse_type(T); c = parse_value(T, t); T.expect(','); T.expect('label'); a = T.next()[1:].strip('"')
            T.expect(','); T.expect('label'); b = T.next()[1:].strip('"')
            return mk('cbr', c, a, b)
        if op == 'switch':
            t = parse_type(T); v = parse_value(T, t); T.expect(','); T.expect('label'); d = T.next()[1:].strip('"')
            T.expect('['); cs = []
            while not T.accept(']'):
                ct = parse_type(T); cv = parse_value(T, ct); T.expect(','); T.expect('label'); cs.append((cv[1], T.next()[1:].strip('"')))
            return mk('switch', t, v, d, cs)
        if op == 'ret':
            t = parse_type(T)
            if isinstance(t, VoidTy): return mk('ret', t, None)
            return mk('ret', t, parse_value(T, t))
        if op == 'unreachable': return mk('unreachable')
        if op == 'phi':
            t = parse_type(T); inc = []
            while True:
                T.expect('['); v = parse_value(T, t); T.expect(','); b = T.next()[1:].strip('"'); T.expect(']')
                inc.append((v, b))
                if not T.accept(','): break
            return mk('phi', t, inc)
        if op == 'select':
            ct = parse_type(T); c = parse_value(T, ct); T.expect(','); t = parse_type(T); a = parse_value(T, t); T.expect(',')
            t2 = parse_type(T); b = parse_value(T, t2)
            return mk('select', c, t, a, b)
        if op == 'call':
            while T.peek() in ('fastcc', 'ccc', 'coldcc', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'): T.next()
            T.skip_attrs()
            t = parse_type(T)
            if isinstance(t, tuple): t = t[1]
            cal = parse_value(T, PTR)
            if cal == ('asm',):
                return mk('unknown')
            T.expect('('); args = []
            if not T.accept(')'):
                while True:
                    at = parse_type(T); T.skip_attrs()
                    if isinstance(at, OtherTy) and at.txt == 'metadata':
                        return mk('nop')
                    args.append((at, parse_value(T, at)))
                    if T.accept(')'): break
                    T.expect(',')
            return mk('call', t, cal, args)
        if op == 'extractvalue':
            t = parse_type(T); v = parse_value(T, t); ix = []
            while T.accept(','): ix.append(int(T.next()))
            return mk('extractvalue', t, v, ix)
        if op == 'insertvalue':
            t = parse_type(T); v = parse_value(T, t); T.expect(','); t2 = parse_type(T); w = parse_value(T, t2); ix = []
            while T.accept(','): ix.append(int(T.next()))
            return mk('insertvalue', t, v, t2, w, ix)
        if op == 'freeze':
            t = parse_type(T); return mk('freeze', t, parse_value(T, t))
        if op == 'atomicrmw':
            T.accept('volatile')
            o = T.next(); pt = parse_type(T); p = parse_value(T, pt); T.expect(','); t = parse_type(T); v = parse_value(T, t)
            return mk('atomicrmw', o, p, t, v)
        if op == 'fence': return mk('nop')
    except Unsupported as e:
        return mk('unknown', str(e))
    return mk('unknown', op)

def parse_module(text):
    M = Module()
    cur = None; blk = None
    lines = text.split('\n')
    joined = []
    i = 0
    # join switch tables
    while i < len(lines):
        l = lines[i]
        if re.match(r'\s+switch ', l) and ']' not in l:
            while ']' not in lines[i + 1]:
                i += 1; l += ' ' + lines[i].strip()
            i += 1; l += ' ' + lines[i].strip()
        joined.append(l); i += 1
    for l in joined:
        if cur is None:
            if l.startswith('define'):
                F = Func()
                T = Toks(tokenize(l))
                T.next()
                while T.peek() in ('internal', 'dso_local', 'linkonce_odr', 'weak', 'weak_odr', 'private', 'hidden', 'available_externally',
                                   'fastcc', 'linkonce', 'external', 'local_unnamed_addr', 'dso_preemptable', 'comdat'):
                    if T.next() == 'internal': F.internal = True
                T.skip_attrs()
                F.ret = parse_type(T)
                if isinstance(F.ret, tuple): F.ret = F.ret[1]
                # parse_type swallowed nothing: name follows
                F.name = T.next()[1:].strip('"')
                T.expect('(')
                if not T.accept(')'):
                    while True:
                        if T.accept('...'):
                            F.vararg = True
                            T.expect(')'); break
                        t = parse_type(T); T.skip_attrs(); n = T.next()[1:].strip('"')
                        F.params.append((n, t))
                        if T.accept(')'): break
                        T.expect(',')
                cur = F; blk = None
            elif l.startswith('%') and '= type' in l:
                nm, rest = l.split('= type', 1)
                nm = nm.strip()[1:].strip('"')
                try: M.types[nm] = parse_type(Toks(tokenize(rest)))
                except Unsupported: pass
            elif l.startswith('@'):
                body = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', l)
                try:
                    T = Toks(tokenize(body))
                    nm = T.next()[1:].strip('"'); T.expect('=')
                    ext = False; const = False; tls = False
                    while True:
                        p = T.peek()
                        if p in ('external',): ext = True; T.next()
                        elif p in ('constant', 'global'):
                            const = p == 'constant'; T.next(); break
                        elif p == 'thread_local':
                            tls = True; T.next()
                            if T.accept('('):
                                T.next(); T.expect(')')
                        elif p is None: break
                        elif p == 'alias': break
                        else: T.next()
                    t = parse_type(T)
                    init = None if ext else parse_value(T, t)
                    M.globals[nm] = (t, init, const, tls)
                except Unsupported:
                    pass
            elif l.startswith('declare'):
                m = re.search(r'@("?)([^"(]+)\1\(', l)
                if m: M.decls.add(m.group(2))
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
                if m: M.lines[int(m.group(1))] = int(m.group(2))
        else:
            if l.startswith('}'):
                M.funcs[cur.name] = cur; cur = None
                continue
            s = l.strip()
            if not s: continue
            m = re.match(r'^("?[-a-zA-Z$._0-9 :<>~,()&*\[\]]+"?):(\s*;.*)?$', l)
            if m and not l.startswith(' '):
                nm = m.group(1).strip('"')
                blk = Block(nm); cur.blocks[nm] = blk
                if cur.entry is None: cur.entry = nm
                continue
            if s.startswith(';'): continue
            if blk is None:
                nm = str(len(cur.params)); blk = Block(nm); cur.blocks[nm] = blk; cur.entry = nm
            ins = parse_ins(s, M)
            if ins.op == 'nop' : continue
            blk.ins.append(ins)
    for f in M.funcs.values():
        for b in f.blocks.values():
            for x in b.ins:
                x.line = M.lines.get(x.line, 0)
        analyse(f)
    return M

def succs(ins):
    if ins.op == 'br': return [ins.a[0]]
    if ins.op == 'cbr': return [ins.a[1], ins.a[2]]
    if ins.op == 'switch': return [ins.a[2]] + [x[1] for x in ins.a[3]]
    return []

def analyse(f):
    """dominators, natural loops; f.loops: header -> set(blocks)"""
    f.succ = {b: list(dict.fromkeys(succs(B.ins[-1]))) if B.ins else [] for b, B in f.blocks.items()}
    order, seen = [], set()
    def dfs(b):
        st = [(b, iter(f.succ[b]))]; seen.add(b)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); st.append((y, iter(f.succ[y]))); break
            else:
                order.append(x); st.pop()
    dfs(f.entry)
    rpo = order[::-1]
    f.preds = {b: [] for b in f.blocks}
    for b in rpo:
        for y in f.succ[b]: f.preds[y].append(b)
    dom = {b: None for b in rpo}; allb = set(rpo)
    for b in rpo: dom[b] = set(allb)
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == f.entry: continue
            n = set(allb)
            for p in f.preds[b]: n &= dom[p]
            n = n | {b}
            if n != dom[b]: dom[b] = n; ch = True
    f.loops = {}
    f.irreducible = False
    pos = {b: i for i, b in enumerate(rpo)}
    for b in rpo:
        for y in f.succ[b]:
            if y in dom[b]:
                L = f.loops.setdefault(y, {y})
                st = [b]
                while st:
                    z = st.pop()
                    if z not in L:
                        L.add(z); st += f.preds[z]
            elif pos[y] <= pos[b]:
                f.irreducible = True
    f.defblk = {}
    for b, B in f.blocks.items():
        for x in B.ins:
            if x.res: f.defblk[x.res] = b
