"""Element lifetimes: constructor/destructor typestate of every element slot of a block, kept as a write
history of a shadow block (LIVE/DEAD per element), so that loops over elements and bytewise relocation are
followed for all sizes at once."""
import terms as T
from terms import num, add, sub, scale
from memcheck import *
import vectors

LIVE, DEAD = 1, 0

def shadow(b): return T.single(T.obj('life:%s' % b.args[0]))

def cases(s, b, off, z, depth=0):
    """[(state, status or None)] of the element at offset off of block b; the state is refined as needed"""
    sh = shadow(b)
    if sh not in s.chain: return [(s, None)]
    v = s.chain_load(s.chain[sh], sh, off, z, 8)
    if v is not None or depth > 5: return [(s, v)]
    r = stuck(s, sh, off, z)
    if r is None: return [(s, None)]
    lo, hi = r
    out = []
    for conds in ([T.ult(off, lo)], [T.b_not(T.ult(off, hi))], [T.b_not(T.ult(off, lo)), T.ult(off, hi)]):
        for q in vectors_assume(s.copy(), conds): out += cases(q, b, q.norm(off), z, depth + 1)
    return out

def vectors_assume(st, conds):
    ss = [st]
    for c in conds:
        nxt = []
        for s in ss: nxt.extend(s.assume(s.norm(c)))
        ss = nxt
    return ss

def stuck(s, sh, off, z):
    """the range whose relation to off is not known"""
    node = s.chain[sh]
    off = s.norm(off)
    for _ in range(1000):
        k = node[0]
        if k == 'st': lo, hi = node[2], add(node[2], num(node[3]))
        elif k in ('cp', 'fill', 'unk'): lo, hi = node[2], add(node[2], node[3])
        elif k == 'reloc':
            lo, hi = node[2], add(node[2], node[3])
            lo, hi = s.norm(lo), s.norm(hi)
            if not (s.inside(off, z, lo, sub(hi, lo)) or s.apart(off, z, lo, sub(hi, lo))): return lo, hi
            lo, hi = node[4], add(node[4], node[3])
            if s.inside(off, z, node[2], node[3]): off = s.norm(add(sub(off, node[2]), node[4])); node = node[1]; continue
            if s.inside(off, z, s.norm(lo), node[3]): return None
        elif k == 'rot':
            lo, mid, hi = s.norm(node[2]), s.norm(node[3]), s.norm(node[4])
            cut = s.norm(add(lo, sub(hi, mid)))
            if s.apart(off, z, lo, sub(hi, lo)): node = node[1]; continue
            if not s.inside(off, z, lo, sub(hi, lo)): return lo, hi
            if s.inside(off, z, lo, sub(hi, mid)): off = s.norm(add(off, sub(mid, lo))); node = node[1]; continue
            if s.inside(off, z, cut, sub(hi, cut)): off = s.norm(sub(off, sub(hi, mid))); node = node[1]; continue
            return lo, cut
        elif k == 'loop' and len(node[2]) == 1:
            d, w = node[2][0]
            c, zz, v = w[0]; n = s.norm(node[4])
            c = s.norm(c)
            lo, hi = (c, add(c, scale(n, d))) if d > 0 else (sub(add(c, num(-d)), scale(n, -d)), add(c, num(-d)))
        else: return None
        lo, hi = s.norm(lo), s.norm(hi)
        ins = s.inside(off, z, lo, sub(hi, lo)); ap = s.apart(off, z, lo, sub(hi, lo))
        if not ins and not ap: return lo, hi
        if ap: node = node[1]; continue
        if k == 'cp': node, off = node[4], s.norm(add(sub(off, lo), node[6])); continue
        return None
    return None

class Life(Heap):
    cls = 'El'
    z = 16
    nev = 0
    def tracked(self, st, p):
        b, off = st.base(p)
        if b is None: return None, None
        sh = shadow(b)
        return (b, off) if sh in st.chain else (None, None)
    def status(self, e, p, st, ins, want, what):
        b, off = self.tracked(st, p)
        if b is None: return
        self.nev += 1
        for q, v in cases(st.copy(), b, off, self.z):
            if v is None or not q.equal(v, num(want, 8)): break
        else: return
        known = 'which is %s' % ('constructed' if v is not None and v.const and v.k == LIVE else 'not constructed') if v is not None and v.const else 'whose state is unknown'
        e.report('lifetime', '%s of an element %s' % (what, known), ins)
    def setst(self, p, st, v):
        b, off = self.tracked(st, p)
        if b is None: return
        st.store(add(T.of(shadow(b)), off), self.z, num(v, 8))
    def call(self, e, name, dem, args, st, ins):
        c = self.cls
        pre = c + '::'
        if dem.startswith(pre):
            f = dem[len(pre):]
            if f.startswith(c + '('):
                if f in (c + '(%s const&)' % c, c + '(%s&&)' % c): self.status(e, args[1], st, ins, LIVE, 'copy')
                self.status(e, args[0], st, ins, DEAD, 'construction over the place')
                self.setst(args[0], st, LIVE)
            elif f.startswith('~'):
                self.status(e, args[0], st, ins, LIVE, 'destruction')
                self.setst(args[0], st, DEAD)
            elif f.startswith('operator='):
                self.status(e, args[0], st, ins, LIVE, 'assignment to the place')
                self.status(e, args[1], st, ins, LIVE, 'assignment from the place')
                return [('ret', args[0], st)]
            else: return Heap.call(self, e, name, dem, args, st, ins)
            return [('ret', default_ret(ins, f), st)]
        return Heap.call(self, e, name, dem, args, st, ins)
    def new_block(self, st, n, why):
        o = Heap.new_block(self, st, n, why)
        sh = shadow(T.single(o))
        st.objs[sh] = {'kind': 'heap', 'size': st.objs[T.single(o)]['size']}
        st.track(sh, ('const', DEAD))
        return o
    def dead(self, e, b, st, ins, what, lo=None):
        """no element of block b is constructed (from offset lo on)"""
        self.nev += 1
        k = sym('slot%d' % T._nid(), 64, False, {'range': (0, 1 << 46)})
        off = scale(k, self.z)
        s = st.copy()
        cs = [T.b_not(T.ult(st.objs[b]['size'], add(off, num(self.z))))]
        if lo is not None: cs.append(T.b_not(T.ult(off, lo)))
        for q in vectors_assume(s, cs):
            for q2, v in cases(q, b, off, self.z):
                if v is None or not q2.equal(v, num(DEAD, 8)):
                    e.report('lifetime', '%s %s' % (what, 'still holds constructed elements' if v is not None else 'may still hold constructed elements'), ins); return
    def free(self, e, p, st, ins, name):
        b, off = self.tracked(st, p)
        if b is not None and st.ts.get(b) == 'live': self.dead(e, b, st, ins, 'a released block')
        return Heap.free(self, e, p, st, ins, name)
    def heapcall(self, e, name, args, st, ins):
        if name == 'realloc':
            b, off = self.tracked(st, args[0])
            sh = shadow(b) if b is not None else None
            out = Heap.heapcall(self, e, name, args, st, ins)
            for o in out:
                if o[0] == 'ret' and b is not None and not o[1].const:
                    nb = T.single(o[1]); q = o[2]
                    osz = q.objs[b]['size']; n = q.norm(args[1])
                    keep = osz if q.ule(osz, n) else n if q.ule(n, osz) else None
                    q.chain[shadow(nb)] = ('cp', ('const', DEAD), num(0), keep, q.chain[sh], sh, num(0)) if keep is not None else ('top',)
                    if keep is n and keep is not osz: self.dead(e, b, q, ins, 'the part cut off by realloc', n)
            return out
        return Heap.heapcall(self, e, name, args, st, ins)
    def memop(self, e, kind, d, s, n, st, ins):
        Heap.memop(self, e, kind, d, s, n, st, ins)
        db, do = self.tracked(st, d)
        if kind == 'rotate':
            if db is not None:
                sh = shadow(db); WRITTEN.add(sh)
                st.chain[sh] = ('rot', st.chain[sh], do, st.base(s)[1], add(do, st.norm(n)))
            return
        if kind in ('memcpy', 'memmove'):
            sb, so = self.tracked(st, s)
            if st.norm(n).const and st.norm(n).k == 0: return
            if sb is not None and db is sb:
                sh = shadow(db); WRITTEN.add(sh)
                st.chain[sh] = ('reloc', st.chain[sh], do, st.norm(n), so, DEAD)
            elif sb is not None and db is not None:
                a, c = shadow(db), shadow(sb); WRITTEN.add(a); WRITTEN.add(c)
                st.chain[a] = ('cp', st.chain[a], do, st.norm(n), st.chain[c], c, so)
                st.chain[c] = ('fill', st.chain[c], so, st.norm(n), self.z, num(DEAD, 8))
        elif db is not None: 
            sh = shadow(db); WRITTEN.add(sh); st.chain[sh] = ('unk', st.chain[sh], do, st.norm(n))

class LifeEntry(Entry):
    def states(self):
        for args, st, objs, label in Entry.states(self):
            if any(o['case'] == 'linked' for o in objs): continue
            for o in objs:
                if o.get('buf') is not None and o['case'] == 'owned':
                    sh = shadow(o['buf']); st.objs[sh] = {'kind': 'input', 'size': st.objs[o['buf']]['size']}
                    st.track(sh, ('fill', ('const', DEAD), num(0), o['size'], self.z, num(LIVE, 8)))
            for i, t in enumerate(self.toks):
                k = t.split(':')[0]
                if k in ('buf', 'in', 'heap'):
                    b = T.single(args[i]); sh = shadow(b)
                    st.objs[sh] = {'kind': 'input', 'size': st.objs[b]['size']}
                    st.track(sh, ('const', LIVE))
            yield args, st, objs, label

def check_life(ent, e, kind, s, objs, label, st, init):
    if kind == 'throw': return []
    out = []
    c = ent.c
    for ob in objs:
        if ob['cls'] != 'memblock': continue
        if ob['role'] == 'del': continue
        cap = ent.rd(s, ob['o'], ob['cls'], 'capacity')
        for q in s.copy().assume(T.eq(cap, num(0)), False):
            data = ent.rd(q, ob['o'], ob['cls'], 'data'); size = ent.rd(q, ob['o'], ob['cls'], 'size')
            b, off = q.base(data)
            if b is None or shadow(b) not in q.chain: out.append(('lifetime', 'storage is not an element block')); continue
            st['oblig'] += 2
            k = sym('slot%d' % T._nid(), 64, False, {'range': (0, 1 << 46)})
            o = scale(k, c.z)
            for conds, want, m in (([T.ult(o, size)], LIVE, 'an element below size() is not constructed'),
                                   ([T.b_not(T.ult(o, size)), T.b_not(T.ult(q.objs[b]['size'], add(o, num(c.z))))], DEAD, 'a constructed element is left beyond size()')):
                for q2 in vectors_assume(q.copy(), conds):
                    for q3, v in cases(q2, b, o, c.z):
                        if v is None or not q3.equal(v, num(want, 8)):
                            out.append(('lifetime', m if v is not None else 'the state of %s is unknown' % ('an element below size()' if want else 'a place beyond size()'))); break
    # constructed elements in blocks nobody owns
    return out
