"""UTF-8: every code point below 2^31, by its number of significant bits; the lower bits are symbols."""
import terms as T
from terms import num, add, scale, sym
from memcheck import *

def layout(L, bits):
    """bytes of the code point whose bits are given (lowest first): RFC 2279"""
    if L <= 7: n = 1
    else: n = (L - 2) // 5 + 1
    b = list(bits) + [T.FALSE] * (40 - len(bits))
    def byte(k, hdr, lo, cnt):
        v = num(hdr, 8)
        for i in range(cnt): v = add(v, scale(T.zext(b[lo + i], 8), 1 << i))
        return v
    if n == 1: return [byte(0, 0, 0, 7)]
    out = [byte(0, (0xFF << (8 - n)) & 0xFF, 6 * (n - 1), 7 - n)]
    for k in range(n - 2, -1, -1): out.append(byte(0, 0x80, 6 * k, 6))
    return out

class U8Entry(Entry):
    def states(self):
        for args, st, objs, label in Entry.states(self):
            if self.toks[0] != 'out:u8r': yield args, st, objs, label, None; continue
            for L in range(32):
                bits = [sym('v%d.%d.%d' % (L, i, T._nid()), 1) for i in range(max(L - 1, 0))] + ([T.TRUE] if L else [])
                v = num(0, 32)
                for i, x in enumerate(bits): v = add(v, scale(T.zext(x, 32), 1 << i))
                for s in st.copy().assume(T.eq(args[2], v)): yield args, s, objs, '%d significant bits' % L, (L, bits, v)
    def run(self):
        for args, st, objs, label, goal in self.states():
            self.eng = e = Engine(self.m, self.c)
            init = st.copy(); self.args = args; self.goal = goal
            outs = e.run(self.name, [st.norm(a) for a in args], st)
            yield e, outs, objs, label, init

def check(ent, e, kind, s, objs, label, st, init):
    if ent.goal is None: return []
    L, bits, v = ent.goal
    out = []
    want = layout(L, bits)
    n = len(want)
    r = dict((f, s.norm(s.load(add(ent.args[0], num(8 * i)), 8, 'i64', e))) for i, f in enumerate(('need', 'wrote', 'seq', 'read')))
    got = s.norm(s.load(add(ent.args[0], num(32)), 4, 'i32', e))
    nm = ent.name[5:]
    def same(what, a, b):
        st['oblig'] += 1
        if not s.equal(a, b): out.append(('utf8', '%s is %s instead of %s' % (what, a, b)))
    if nm == 'seq': 
        if L <= 8: same('the length announced by a byte', r['seq'], num(1 if L < 8 else lead(bits), 64)) if L < 8 or lead(bits) else None
        return out
    same('Utf8Bytes', r['need'], num(n))
    if nm in ('bytes', 'measure'): return out
    undef = s.norm(r['wrote'])
    if not undef.const and T.single(undef) is not None and T.single(undef).op == 'init': return out      # no room
    same('the number of bytes written', r['wrote'], num(n))
    same('the length announced by the first byte', r['seq'], num(n))
    if nm != 'text':
        same('the number of bytes read back', r['read'], num(n))
        same('the code point read back', got, v)
    for i, w in enumerate(want):
        same('byte %d of the encoding' % i, s.norm(s.load(add(ent.args[1], num(i)), 1, 'i8', e)), w)
    return out

def lead(bits):
    n = 0
    for b in reversed(bits):
        if b is T.TRUE: n += 1
        else: return n if b is T.FALSE else 0
    return n
