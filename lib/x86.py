"""Interpreter for the inline assembly of the repository (AT&T syntax, as LLVM records it).

Registers survive from one statement to the next: the matrix code relies on it.  An unknown instruction makes
everything the statement may touch unknown."""
import re
import terms as T
from terms import num, add, sub, scale, fresh

GP = {}
for _i, _n in enumerate('a b c d'.split()):
    for _f, _w in (('r%sx', 64), ('e%sx', 32), ('%sx', 16), ('%sl', 8)): GP[_f % _n] = (_n, _w)
for _n in ('si', 'di'):
    for _f, _w in (('r%s', 64), ('e%s', 32), ('%s', 16)): GP[_f % _n] = (_n, _w)
NAMED = {'ax': 'a', 'bx': 'b', 'cx': 'c', 'dx': 'd', 'si': 'si', 'di': 'di'}

class Unknown(Exception): pass

def split_ops(s):
    return [x.strip() for x in s.split(',') if x.strip()]

class Asm(object):
    def __init__(self, e, ins, args, st):
        self.e, self.ins, self.st = e, ins, st
        self.text = ins['callee']['asm']
        self.ops = []           # operand number -> ['r', regname] | ['m', pointer]
        self.outs = []          # operand numbers whose register value is returned, in order
        self.regs = {}          # register -> Lin; xmm/mm -> list of 32-bit lanes
        cons = [c for c in self.ins['callee']['cons'].split(',') if not c.startswith('~')]
        ai = 0; tied = {}
        for c in cons:
            n = len(self.ops)
            alt = c.split('|')[0]
            out = alt.startswith('=')
            b = alt.lstrip('=&+%')
            if b.startswith('*'):
                self.ops.append(['m', args[ai]]); ai += 1
            elif b.isdigit():
                v = args[ai]; ai += 1
                self.ops.append(list(self.ops[int(b)]))
                if self.ops[-1][0] == 'r': self.set(self.ops[-1][1], v)
            else:
                m = re.match(r'\{(\w+)\}', b)
                reg = NAMED.get(m.group(1), m.group(1)) if m else {'S': 'si', 'D': 'di', 'a': 'a', 'c': 'c', 'd': 'd', 'b': 'b'}.get(b, 'op%d' % n)
                self.ops.append(['r', reg])
                if out: self.outs.append(n)
                else:
                    v = args[ai]; ai += 1
                    if isinstance(v, T.Lin): self.set(reg, v)
        t = ins.get('t', [''])[0] if 'id' in ins else ''
        self.types = re.findall(r'i\d+|ptr|float|double', t) if t else []
    # --- register file -------------------------------------------------------------------
    def set(self, r, v):
        if r.startswith('xmm') or r.startswith('mm'): self.st.ts['reg ' + r] = tuple(v)
        else: self.regs[r] = v
    def lanes(self, r, n):
        v = self.st.ts.get('reg ' + r)
        if v is None or len(v) != n: v = tuple(fresh('reg', 32) for _ in range(n))
        return [self.st.norm(x) for x in v]
    def get(self, r, w):
        v = self.regs.get(r)
        if v is None: v = self.regs[r] = fresh('reg', 64)
        v = self.st.norm(v)
        if v.w > w: return T.trunc(v, w)
        if v.w < w: return T.zext(v, w)
        return v
    # --- operands -------------------------------------------------------------------------
    def operand(self, s):
        m = re.match(r'\$\$(-?\w+)$', s)
        if m: return ('i', int(m.group(1), 0))
        m = re.match(r'\$(\d+)$', s) or re.match(r'\$\{(\d+)(?::\w)?\}$', s)
        if m:
            o = self.ops[int(m.group(1))]
            n = int(m.group(1))
            w = 64
            if o[0] == 'r' and s.startswith('${') and ':k' in s: w = 32
            return (o[0], o[1], w, n)
        m = re.match(r'%(\w+)$', s)
        if m:
            r = m.group(1)
            if r.startswith('xmm') or r.startswith('mm'): return ('r', r, 0, None)
            if r in GP: return ('r', GP[r][0], GP[r][1], None)
        raise Unknown(s)
    def width_of(self, o):
        """width of a register operand"""
        if o[3] is None: return o[2]
        if o[2] == 32: return 32
        v = self.regs.get(o[1])
        return v.w if v is not None else 64
    def rd(self, o, w):
        if o[0] == 'i': return num(o[1], w)
        if o[0] == 'm':
            self.e.c.load(self.e, o[1], w // 8, self.st, self.ins)
            return self.st.norm(self.st.load(o[1], w // 8, 'i%d' % w, self.e))
        return self.get(o[1], w)
    def wr(self, o, v):
        if o[0] == 'm':
            self.e.c.store(self.e, o[1], v.w // 8, v, self.st, self.ins)
            self.st.store(o[1], v.w // 8, v)
        else:
            old = self.regs.get(o[1])
            if v.w < 32 and old is not None and old.w > v.w:
                v = add(sub(old, T.zext(T.trunc(old, v.w), old.w)), T.zext(v, old.w))
            self.regs[o[1]] = v
    def rdv(self, o, n):
        """n 32-bit lanes"""
        if o[0] == 'm':
            r = []
            self.e.c.load(self.e, o[1], 4 * n, self.st, self.ins)
            for i in range(n): r.append(self.st.norm(self.st.load(add(o[1], num(4 * i)), 4, 'i32', self.e)))
            return r
        if o[1].startswith('xmm') or o[1].startswith('mm'): return self.lanes(o[1], n)
        v = self.regs.get(o[1])
        if v is None: return self.lanes('x' + o[1], n)
        if isinstance(v, T.Lin): return [T.trunc(v, 32) if v.w > 32 else v] + [num(0, 32)] * (n - 1)
        return [self.st.norm(x) for x in v]
    def wrv(self, o, v):
        if o[0] == 'm':
            self.e.c.store(self.e, o[1], 4 * len(v), None, self.st, self.ins)
            for i, x in enumerate(v): self.st.store(add(o[1], num(4 * i)), 4, x)
        elif o[1].startswith('xmm') or o[1].startswith('mm'): self.set(o[1], v)
        else: self.regs[o[1]] = tuple(v)
    # --- instructions -----------------------------------------------------------------------
    def run(self):
        st = self.st
        rep = False
        for line in re.split(r'[\n;]', self.text):
            line = line.strip()
            if not line: continue
            p = line.split(None, 1)
            op = p[0]; a = split_ops(p[1]) if len(p) > 1 else []
            if op == 'rep': rep = True; continue
            if op in ('emms', 'femms', 'sfence', 'mfence', 'lfence', 'nop', 'pause') or op.startswith('prefetch'): continue
            if op == 'cld': st.ts['reg df'] = 0; continue
            if op == 'std': st.ts['reg df'] = 1; continue
            if op in ('movsb', 'movsl', 'movsw', 'movsq', 'stosb', 'stosw', 'stosl', 'stosq'):
                self.string_op(op, rep); rep = False; continue
            a = [self.operand(x) for x in a]
            f = getattr(self, 'i_' + op, None)
            if f is None: raise Unknown(op)
            f(*a)
    def string_op(self, op, rep):
        st, e = self.st, self.e
        z = {'b': 1, 'w': 2, 'l': 4, 'q': 8}[op[-1]]
        df = st.ts.get('reg df', 0)
        if df is None: raise Unknown('direction flag')
        n = self.get('c', 64) if rep else num(1)
        d = self.get('di', 64)
        bytes_ = scale(n, z)
        back = sub(bytes_, num(z)) if df else num(0)        # the lowest address touched is d - back
        if op.startswith('movs'):
            s = self.get('si', 64)
            import absint
            absint.direction(e, self.ins, st, sub(s, back), sub(d, back), bytes_, not df)
            e.c_memop(e, 'memmove', sub(d, back), sub(s, back), bytes_, st, self.ins)
            self.regs['si'] = sub(s, bytes_) if df else add(s, bytes_)
        else:
            v = self.get('a', 8 * z)
            e.c_memop(e, 'memset', sub(d, back), v, bytes_, st, self.ins, z)
        self.regs['di'] = sub(d, bytes_) if df else add(d, bytes_)
        if rep: self.regs['c'] = num(0)
    def aligned(self, o, n):
        if o[0] != 'm': return
        if not aligned(self.st, o[1], n): self.e.report('alignment', '%s needs an address that is a multiple of %d: %s' % ('movaps', n, self.st.norm(o[1])), self.ins)
    def i_movups(self, s, d): self.wrv(d, self.rdv(s, 4))
    def i_movaps(self, s, d): self.aligned(s, 16); self.aligned(d, 16); self.wrv(d, self.rdv(s, 4))
    i_movupd = i_movdqu = i_lddqu = i_movups
    i_movntps = i_movapd = i_movdqa = i_movntdq = i_movaps
    def i_movq(self, s, d):
        n = 2
        if any(o[0] == 'r' and o[1].startswith('xmm') for o in (s, d)):
            v = self.rdv(s, 4)[:2] if s[0] == 'r' else self.rdv(s, 2)
            self.wrv(d, v if d[0] == 'm' else v + [num(0, 32)] * 2)
        else: self.wrv(d, self.rdv(s, 2))
    i_movntq = i_movq
    def i_movd(self, s, d):
        v = self.rd(s, 32)
        self.wrv(d, [v, num(0, 32)])
    def lanesof(self, d): return 4 if d[1].startswith('xmm') else 2
    def i_punpckldq(self, s, d):
        if self.lanesof(d) != 2: raise Unknown('punpckldq')
        a, b = self.rdv(d, 2), self.rdv(s, 2); self.wrv(d, [a[0], b[0]])
    def i_punpckhdq(self, s, d):
        if self.lanesof(d) != 2: raise Unknown('punpckhdq')
        a, b = self.rdv(d, 2), self.rdv(s, 2); self.wrv(d, [a[1], b[1]])
    def parts(self, v, w):
        r = []
        for x in v:
            for k in range(0, 32, w): r.append(T.trunc(T.binop('lshr', x, num(k, 32)), w))
        return r
    def join(self, v, w):
        r = []
        k = 32 // w
        for i in range(0, len(v), k):
            x = num(0, 32)
            for j in range(k): x = add(x, scale(T.zext(v[i + j], 32), 1 << (w * j)))
            r.append(x)
        return r
    def i_punpcklbw(self, s, d):
        if self.lanesof(d) != 2: raise Unknown('punpcklbw')
        a, b = self.parts(self.rdv(d, 2), 8), self.parts(self.rdv(s, 2), 8)
        self.wrv(d, self.join([x for i in range(4) for x in (a[i], b[i])], 8))
    def i_pshufw(self, i, s, d):
        # the immediate may be written with the operand syntax: $0 is then operand 0
        if i[0] != 'i': raise Unknown('pshufw immediate')
        a = self.parts(self.rdv(s, 2), 16)
        self.wrv(d, self.join([a[(i[1] >> (2 * k)) & 3] for k in range(4)], 16))
    def zero(self, s, d):
        if s != d: return None
        self.wrv(d, [num(0, 32)] * self.lanesof(d)); return True
    def packed(self, s, d, w, f):
        """f of every pair of w-bit parts"""
        n = self.lanesof(d)
        a, b = self.rdv(d, n), self.rdv(s, n)
        if w < 32: a, b = self.parts(a, w), self.parts(b, w)
        r = [f(x, y) for x, y in zip(a, b)]
        self.wrv(d, self.join(r, w) if w < 32 else r)
    def bits(self, op, s, d): self.packed(s, d, 32, lambda x, y: T.binop(op, x, y))
    def i_xorps(self, s, d):
        if not self.zero(s, d): self.bits('xor', s, d)
    i_pxor = i_xorpd = i_xorps
    def i_pand(self, s, d): self.bits('and', s, d)
    def i_por(self, s, d): self.bits('or', s, d)
    i_andps, i_orps = i_pand, i_por
    def i_paddb(self, s, d): self.packed(s, d, 8, add)
    def i_paddw(self, s, d): self.packed(s, d, 16, add)
    def i_paddd(self, s, d): self.packed(s, d, 32, add)
    def i_psubb(self, s, d): self.packed(s, d, 8, sub)
    def i_psubw(self, s, d): self.packed(s, d, 16, sub)
    def i_psubd(self, s, d): self.packed(s, d, 32, sub)
    def pick(self, less, signed, w):
        """one of two: `less`: the lesser one"""
        def f(x, y):
            ext = (lambda v: T.sext(v, 32)) if signed else (lambda v: T.zext(v, 32))
            x, y = self.st.norm(x), self.st.norm(y)
            if x is y: return x
            m = fresh('min' if less else 'max', w)
            a, b, r = ext(x), ext(y), ext(m)
            self.st._put(T.b_or(T.eq(r, a), T.eq(r, b)), True)
            for z in (a, b): self.st._put(T.b_not(T.slt(z, r) if less else T.slt(r, z)), True)
            return m
        return lambda s, d: self.packed(s, d, w, f)
    def i_pminub(self, s, d): self.pick(True, False, 8)(s, d)
    def i_pmaxub(self, s, d): self.pick(False, False, 8)(s, d)
    def i_pminsw(self, s, d): self.pick(True, True, 16)(s, d)
    def i_pmaxsw(self, s, d): self.pick(False, True, 16)(s, d)
    def average(self, s, d, w):
        self.packed(s, d, w, lambda x, y: T.trunc(T.binop('ashr', add(add(T.zext(x, 32), T.zext(y, 32)), num(1, 32)), num(1, 32)), w))
    def i_pavgb(self, s, d): self.average(s, d, 8)
    def i_pavgw(self, s, d): self.average(s, d, 16)
    def saturated(self, s, d, w, signed, op):
        """the nearest number of the type to the exact result"""
        ext = T.sext if signed else T.zext
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        def f(x, y):
            x, y = self.st.norm(x), self.st.norm(y)
            v = op(ext(x, 32), ext(y, 32))
            m = fresh('sat', w); r = ext(m, 32)
            over, under = T.slt(num(hi, 32), v), T.slt(v, num(lo, 32))
            self.st._put(T.b_or(over, T.b_or(under, T.eq(r, v))), True)
            self.st._put(T.b_or(T.b_not(over), T.eq(m, num(hi, w))), True)
            self.st._put(T.b_or(T.b_not(under), T.eq(m, num(lo, w))), True)
            return m
        self.packed(s, d, w, f)
    def i_paddusb(self, s, d): self.saturated(s, d, 8, False, add)
    def i_paddusw(self, s, d): self.saturated(s, d, 16, False, add)
    def i_paddsb(self, s, d): self.saturated(s, d, 8, True, add)
    def i_paddsw(self, s, d): self.saturated(s, d, 16, True, add)
    def i_psubusb(self, s, d): self.saturated(s, d, 8, False, sub)
    def i_psubusw(self, s, d): self.saturated(s, d, 16, False, sub)
    def i_psubsb(self, s, d): self.saturated(s, d, 8, True, sub)
    def i_psubsw(self, s, d): self.saturated(s, d, 16, True, sub)
    def i_cvtpi2ps(self, s, d):
        self.wrv(d, [T.app('sitofp', (x, 'float'), 32) for x in self.rdv(s, 2)] + list(self.rdv(d, 4)[2:]))
    def i_cvtps2pi(self, s, d):
        self.wrv(d, [T.app('cvtround', (x,), 32) for x in (self.rdv(s, 4) if s[0] == 'r' else self.rdv(s, 2))[:2]])
    def i_cvtss2si(self, s, d):
        self.wr(d, T.app('cvtround', (self.rdv(s, 4)[0] if s[0] == 'r' else self.rd(s, 32),), 32))
    def i_movss(self, s, d):
        v = self.rdv(s, 4)[0] if s[0] == 'r' else self.rd(s, 32)
        if d[0] == 'm': self.wr(d, v)
        else: self.wrv(d, [v] + (list(self.rdv(d, 4)[1:]) if s[0] == 'r' else [num(0, 32)] * 3))
    def lane(self, f, s, d):
        self.wrv(d, [T.app(f, (x, y, 'float'), 32) for x, y in zip(self.rdv(d, 4), self.rdv(s, 4))])
    def i_addps(self, s, d): self.lane('fadd', s, d)
    def i_subps(self, s, d): self.lane('fsub', s, d)
    def i_mulps(self, s, d): self.lane('fmul', s, d)
    def i_divps(self, s, d): self.lane('fdiv', s, d)
    def i_shufps(self, i, s, d):
        if i[0] != 'i': raise Unknown('shufps immediate')
        a, b = self.rdv(d, 4), self.rdv(s, 4)
        k = i[1]
        self.wrv(d, [a[k & 3], a[(k >> 2) & 3], b[(k >> 4) & 3], b[(k >> 6) & 3]])
    def regw(self, *ops):
        for o in ops:
            if o[0] == 'r': return self.width_of(o)
        raise Unknown('operand width')
    def i_mov(self, s, d):
        if s[0] == 'r': w = self.width_of(s)
        elif d[0] == 'r': w = self.width_of(d)
        else: raise Unknown('mov')
        self.wr(d, self.rd(s, w))
    def i_movl(self, s, d): self.wr(d, self.rd(s, 32))
    def i_add(self, s, d): w = self.regw(d, s); self.wr(d, add(self.rd(d, w), self.rd(s, w)))
    def i_sub(self, s, d): w = self.regw(d, s); self.wr(d, sub(self.rd(d, w), self.rd(s, w)))
    def i_xchgl(self, x, y):
        a, b = self.rd(x, 32), self.rd(y, 32)
        self.wr(x, b); self.wr(y, a)
        self.e.c.atomic(self.e, dict(self.ins, rmw='xchg'), (x if x[0] == 'm' else y)[1], self.st)
    i_xchg = i_xchgl
    def i_bsr(self, s, d):
        """index of the highest set bit; the destination keeps its value when there is none"""
        w = self.regw(d) if d[3] is None else (32 if d[2] == 32 else self.regw(d))
        if s[0] == 'r' and self.width_of(s) < w: w = self.width_of(s)
        v = self.rd(s, w)
        lo, hi = T._bounds(v)
        old = self.get(d[1], w)
        if hi == 0: r = old
        elif lo > 0 and lo.bit_length() == hi.bit_length(): r = num(lo.bit_length() - 1, w)
        else: r = T.of(T.atom('bsr', (v, old), w, False, {'range': (0, w - 1)} if lo > 0 else None))
        self.wr(d, r)
    def i_div(self, s):
        w = self.regw(s)
        d, a, x = self.get('d', w), self.get('a', w), self.rd(s, w)
        if not (d.const and d.k == 0): raise Unknown('div of a double word')
        self.regs['a'] = T.binop('udiv', a, x); self.regs['d'] = T.binop('urem', a, x)

def aligned(st, p, n):
    """p is a multiple of n on this path"""
    def rest(p):
        if p.k % n: return True
        for a, c in p.items:
            if c % n == 0: continue
            if a.op == 'and' and a.args[1].const and a.args[1].k % n == 0: continue
            if a.info and isinstance(a.info, dict) and a.info.get('align', 1) % n == 0: continue
            return True
        return False
    p = st.norm(p)
    if not rest(p): return True
    if st.proves(T.eq(st.norm(T.binop('and', p, num(n - 1))), num(0))): return True
    for c, pol in st.facts.items():
        a = c if not isinstance(c, T.Lin) else T.single(c)
        if a is not None and a.op == 'eq0' and pol:
            x = T.single(a.args[0])
            if x is not None and x.op == 'and' and x.args[1].const and (x.args[1].k + 1) % n == 0 and not rest(sub(p, x.args[0])): return True
    return False

def run(e, ins, args, st):
    """value returned by the statement (None when it has no outputs)"""
    a = Asm(e, ins, args, st)
    try: a.run()
    except Unknown as x:
        e.unknown.add('asm %s' % x)
        for o in a.ops:
            if o[0] == 'm':
                b, off = st.base(o[1])
                if b is not None: st.havoc(b)
        for x in args:
            if isinstance(x, T.Lin) and x.w == 64:
                b, off = st.base(x)
                if b is not None and b in st.objs: st.havoc(b)
        for k in list(st.ts):
            if isinstance(k, str) and k.startswith('reg '): del st.ts[k]
        a.regs = {}
    if 'id' not in ins: return None
    def outv(i, t):
        w = {'ptr': 64, 'float': 32, 'double': 64}.get(t) or int(t[1:])
        r = a.ops[a.outs[i]][1]
        v = a.regs.get(r)
        if v is None or not isinstance(v, T.Lin): return fresh('asm', w, t == 'ptr')
        v = st.norm(v)
        return T.trunc(v, w) if v.w > w else T.zext(v, w)
    if vals_missing(a, ins): return ('agg', [fresh('asm', 64, True) for _ in range(6)]) if ins['t'][0].startswith('{') else fresh('asm', 64)
    if ins['t'][0].startswith('{'): return ('agg', [outv(i, t) for i, t in enumerate(a.types)])
    return outv(0, a.types[0])

def vals_missing(a, ins):
    return len(a.types) != len(a.outs)
