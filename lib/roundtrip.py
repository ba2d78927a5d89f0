"""Reading back what was written: sizes announced, written and read agree, and the value is the same.

Entry: probes P_rt_<type>(rt*, const T& v, T& w, buffer, size, start).  The start is a multiple of 8; the
number of elements of a container is split by its residue modulo 8 so that every alignment is a constant."""
import terms as T
from terms import num, add, sub, scale
from memcheck import *

def words(m, name):
    b = bytes.fromhex(m.globals['F_' + name]['bytes'])
    w = [int.from_bytes(b[i:i + 4], 'little') for i in range(0, len(b), 4)]
    return list(zip(w[::2], w[1::2]))

def bitlen(st, n):
    for L in range(1, 28):
        v = num(1 << (L - 1))
        for i in range(L - 1): v = add(v, scale(T.zext(T.sym('v%d.%d.%d' % (L, i, T._nid()), 1), 64), 1 << i))
        for s in st.copy().assume(T.eq(st.norm(n), v)): yield s, ' %d bits' % L

RESULT = ('need', 'wrote', 'read', 'good')

class RtEntry(Entry):
    def states(self):
        self.hi = 1 << 27          # more does not fit the 32 bit counts that are written
        self.c.track = True
        for args, st, objs, label in Entry.states(self):
            if 'owned' in [o['case'] for o in objs if o['i'] == 1] or 'linked' in [o['case'] for o in objs if o['i'] == 2 and o['cls'] != 'memlink']: continue     # writing only looks at data and size
            for a, o in st.objs.items():
                if o.get('kind') in ('input', 'heap') and not a.args[0].startswith(('arg', 'out0')): st.track(a)
            src = [o for o in objs if o['i'] == 1]
            if src: src = src[0]
            n = src.get('count') if src else None
            if n is None: yield args, st, objs, label, ('value' if self.toks[1].startswith('in:') else 'size', src, None); continue
            if src['cls'] == 'string':
                for q, lab in bitlen(st, n): yield args, q, objs, label + lab, ('size', src, None); yield self.elem(args, q, objs, label + lab, src, n)
                continue
            z = src['z']; low = z & -z
            mod = max(1, 8 // low)
            for r in range(mod):
                s = st.copy()
                ss = s.assume(T.eq(n, add(scale(self.count('m'), mod), num(r)))) if mod > 1 else [s]
                for q in ss:
                    yield args, q.copy(), objs, '%s count%%%d=%d' % (label, mod, r), ('size', src, None)
                    yield self.elem(args, q, objs, '%s count%%%d=%d' % (label, mod, r), src, n)
    def elem(self, args, q, objs, label, src, n):
        k = self.count('k')
        for q2 in q.assume(T.ult(q.norm(k), q.norm(n))): return args, q2, objs, label + ' element', ('element', src, k)
        return args, None, objs, label, None
    def run(self):
        for args, st, objs, label, goal in self.states():
            if st is None: continue
            self.eng = e = Engine(self.m, self.c)
            init = st.copy(); self.args = args
            outs = e.run(self.name, [st.norm(a) for a in args], st)
            self.goal = goal
            yield e, outs, objs, label, init

def check_rt(ent, e, kind, s, objs, label, st, init):
    out = []
    if kind == 'throw': return out
    def bad(m): out.append(('roundtrip', m))
    r = dict((f, s.norm(s.load(add(ent.args[0], num(8 * i)), 8, 'i64', e))) for i, f in enumerate(RESULT))
    if r['wrote'].const and T._sgn(r['wrote'].k, 64) == -1: return out      # no room for the value
    g = ent.goal
    st['oblig'] += 3
    if not s.equal(r['wrote'], r['need']): bad('stream_size is %s but %s bytes are written' % (r['need'], r['wrote']))
    if not s.equal(r['read'], r['wrote']): bad('%s bytes are written but %s are read' % (r['wrote'], r['read']))
    if not s.equal(r['good'], num(1)): bad('a stream reports failure although the value fits (%s)' % r['good'])
    if g[0] == 'value':
        a, b = ent.args[1], ent.args[2]
        for off, n in words(ent.m, ent.toks[1].split(':')[1]):
            st['oblig'] += 1
            v = s.load(add(b, num(off)), n, 'i%d' % (8 * n), e); v0 = init.load(add(a, num(off)), n, 'i%d' % (8 * n), e)
            if n == 1 and off == 0 and ent.name in ('P_rt_bool', 'P_rt_pair_bs'): v, v0 = T.trunc(v, 1), T.trunc(v0, 1)
            if not s.equal(v, s.norm(v0)): bad('bytes %d..%d of the value read are %s instead of those written' % (off, off + n - 1, v))
        return out
    src = g[1]
    dst = [o for o in objs if o['i'] == 2][0]
    size = ent.rd(s, dst['o'], dst['cls'], 'size')
    st['oblig'] += 1
    if not s.equal(size, s.norm(src['size'])): bad('the value read has %s bytes instead of %s' % (size, s.norm(src['size'])))
    if g[0] == 'element':
        d = ent.rd(s, dst['o'], dst['cls'], 'data')
        t = ent.toks[1].split(':')
        for off, n in words(ent.m, t[1] if t[0] == 'vec' else 'byte'):
            st['oblig'] += 1
            o = add(scale(g[2], src['z']), num(off))
            v = s.load(add(d, s.norm(o)), n, 'i%d' % (8 * n), e); v0 = init.load(add(src['data'], o), n, 'i%d' % (8 * n), e)
            if not s.equal(v, s.norm(v0)): bad('element %s read back is %s' % (s.norm(g[2]), v))
    return out
