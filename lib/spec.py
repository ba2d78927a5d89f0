"""Specification probes: the probe states, in terms of the library's own interface, what must hold; the
interpreter proves each stated condition on every path, for all inputs.  The probe is never run."""
import os
import terms as T
from terms import num, add, sub, scale, fresh, sym
from memcheck import *
from absint import *

class SpecHeap(Heap):
    quantify = True
    def __init__(self):
        Heap.__init__(self)
        self.track = True; self.utf8_contract = False
        self.nreq = 0; self.models = None
    def model(self, name, m): return m
    def call(self, e, name, dem, args, st, ins):
        if name and name.endswith('_') and not dem.startswith('ustl') and hasattr(self, 'g_' + name[:-1]):
            return getattr(self, 'g_' + name[:-1])(e, args, st, ins)
        if name and name.startswith('ext_'):        # a function of its arguments about which nothing else is known
            w = width(*ins['t'])
            return [('ret', T.app(name, tuple(st.norm(a) for a in args), w), st)]
        return Heap.call(self, e, name, dem, args, st, ins)
    def g_require(self, e, a, st, ins):
        self.nreq += 1
        c = st.norm(a[0])
        bad = [q for q in st.copy().assume(c, False) if not q.ctx().unsat()]
        bad = [(q, q.norm(c)) for q in bad]
        for _ in range(8):              # conditions compared with conditions: case by case
            nxt = []; more = False
            for q, f in bad:
                b = next((x for x in T.atoms_of(f) if x.w == 1 and not any(x is y for y, _ in f.items) and (x.op in ('ult', 'slt', 'eq0') or x.op.startswith('ext_'))), None)
                if b is None: nxt.append((q, f)); continue
                more = True
                for t in (True, False):
                    g = T.subst(f, {b: T.TRUE if t else T.FALSE})
                    for r in q.copy().assume(T.of(b), t):
                        if r.ctx().unsat(): continue
                        nxt += [(z, z.norm(g)) for z in r.assume(r.norm(g), False) if not z.ctx().unsat()]
            bad = nxt
            if not more or not bad: break
        bad = [q for q, f in bad if not self.alike(q, c)]
        bad = [q for q in bad if not self.tight(q)]
        if bad:
            if os.environ.get('REQ'):
                print('REQUIRE', a[1].k, c)
                for x, t in bad[0].facts.items(): print('       ', t, x)
            e.report('require', 'line %d: not shown that it holds' % a[1].k, ins)
        return [('ret', None, q) for q in st.assume(c)]
    def tight(self, q):
        """is the state impossible, once numbers that bound each other from both sides are identified?"""
        for _ in range(4):
            for a, t in list(q.facts.items()):
                if a.op != 'ult' or t: continue
                x, y = a.args              # y <= x
                if not q.ule(x, y) or q.norm(sub(x, y)).const: continue
                r = q.copy().assume(T.eq(x, y))
                if not r or all(z.ctx().unsat() for z in r): return True
                if len(r) == 1: q = r[0]; break
            else: return False
        return False
    def alike(self, q, f):
        """is it x == y, where x and y are the same function of equal arguments?"""
        a = T.single(f)
        if a is None or a.op != 'eq0': return False
        d = a.args[0]
        for _ in range(4):
            pair = next(((x, y) for x, j in d.items for y, k in d.items if x.id < y.id and (j + k) % (1 << d.w) == 0 and self.same_call(q, x, y)), None)
            if pair is None: break
            d = T.subst(d, {pair[1]: T.of(pair[0])})
        return d.const and d.k == 0
    def same_call(self, q, x, y):
        if x.op != y.op or x.w != y.w or len(x.args) != len(y.args) or not (x.op == 'init' or x.op.startswith('ext_')): return False
        return all(u is v or u == v or isinstance(u, Lin) and isinstance(v, Lin) and u.w == v.w and q.equal(u, v) for u, v in zip(x.args, y.args))
    def g_assume(self, e, a, st, ins): return [('ret', None, q) for q in st.assume(st.norm(a[0]))]
    def g_any(self, e, a, st, ins): return [('ret', sym('any%d' % T._nid(), 64, False, {'range': (0, BIG)}), st)]
    def g_off(self, e, a, st, ins): return [('ret', st.base(a[0])[1], st)]
    def g_same(self, e, a, st, ins):
        x, y = st.base(a[0])[0], st.base(a[1])[0]
        if x is None or y is None: raise Limit('unknown object')
        return [('ret', num(1 if x is y else 0, 1), st)]
    # ---- contents ----------------------------------------------------------
    def look(self, e, p, n, s, ins, depth=0):
        """(value, state) pairs"""
        b, off = s.base(p)
        if b is None: return [(fresh('peek', 8 * n), s)]
        if b not in s.chain: v = s.load(p, n, 'i%d' % (8 * n), e)
        else: v = s.chain_load(s.chain[b], b, s.norm(off), n, 8 * n)
        if v is None:
            if s.doubt is not None and depth < 8:
                c = s.doubt; out = []
                for t in (True, False):
                    for q in s.copy().assume(c, t): out += self.look(e, p, n, q, ins, depth + 1)
                return out
            v = fresh('peek', 8 * n)
        return [(v, s)]
    def g_peek(self, e, a, st, ins, n):
        out = []
        for v, s in self.look(e, a[0], n, st, ins):
            for q in self.instantiate(s, v): out.append(('ret', q.norm(v), q))
        return out
    def g_peek1(self, *a): return self.g_peek(*a, n=1)
    def g_peek2(self, *a): return self.g_peek(*a, n=2)
    def g_peek4(self, *a): return self.g_peek(*a, n=4)
    def g_peek8(self, *a): return self.g_peek(*a, n=8)
    def g_was(self, e, a, st, ins, n):
        b, off = st.base(a[0])
        v = T.of(T.atom('init', (b, st.norm(off), n, 0), 8 * n)) if b is not None else fresh('was', 8 * n)
        return [('ret', q.norm(v), q) for q in self.instantiate(st, v)]
    def g_was1(self, *a): return self.g_was(*a, n=1)
    def g_was2(self, *a): return self.g_was(*a, n=2)
    def g_was4(self, *a): return self.g_was(*a, n=4)
    def g_was8(self, *a): return self.g_was(*a, n=8)
    def instantiate(self, s, v):
        """what the loops passed so far say about the cells v was read from"""
        states = [s]
        for t in [x for x in T.atoms_of(v) if x.op == 'init']:
            for it, alts, _ in s.forall:
                if not alts: continue
                nxt = []
                for q in states: nxt += self.inst1(q, t, it, alts)
                states = nxt
        return states
    def inst1(self, s, t, it, alts):
        itA = T.single(it)
        off = s.norm(t.args[1])
        js = []
        for facts in alts:
            for f in facts:
                for x in T.atoms_of(f):
                    if x.op != 'init' or x.args[0] is not t.args[0] or x.args[2] != t.args[2]: continue
                    d = dict(x.args[1].items).get(itA, 0)
                    if not d: continue
                    c = s.norm(sub(x.args[1], scale(it, d)))
                    if itA in T.atoms_of(c): continue
                    q = sub(off, c)
                    if T._sgn(q.k, 64) % d or any(k % d for _, k in q.items): continue
                    j = T.mk(64, T._sgn(q.k, 64) // d, dict((y, k // d) for y, k in q.items))
                    if not any(j is y for y in js): js.append(j)
        states = [s]
        for j in js:
            nxt = []
            for q in states:
                count = q.norm(it)
                c = T.ult(q.norm(j), count)
                out = q.copy()
                for r in out.assume(c, False): nxt.append(r)
                for r in q.assume(c, True):
                    for facts in alts:
                        rs = [r.copy()]
                        for f in facts: rs = [z for y in rs for z in y.assume(y.norm(T.subst(f, {itA: j})))]
                        nxt += rs
            states = nxt
        return states
    # ---- what loops carry from round to round ------------------------------
    def rec(self, st, r):
        """(atom, rest, iteration, starts, alternatives) of a value some loop has carried"""
        r = st.norm(r)
        for it, _, rec in reversed(st.forall):
            if rec is None: continue
            for a, k in r.items:
                if a in rec[0]: return a, sub(r, scale(T.of(a), k)), it, rec[0], rec[1], k
        return None
    def g_fold_start(self, e, a, st, ins):
        f = self.rec(st, a[0])
        return [('ret', st.norm(a[0]) if f is None else st.norm(add(scale(f[3][f[0]], f[5]), f[1])), st)]
    def g_fold_rounds(self, e, a, st, ins):
        f = self.rec(st, a[0])
        return [('ret', num(0) if f is None else st.norm(f[2]), st)]
    def turn(self, st, f, i, x):
        """(state in a round that begins with the given values, substitution, what changes, what is written)"""
        m = dict((b, fresh('any', b.w)) for b in f[3])
        y = part(st.norm(sub(x, f[1])), T._sgn(f[5], 64))
        if y is not None: m[f[0]] = y
        m[T.single(f[2])] = i
        for facts, new, puts in f[4]:
            ss = [st.copy()]
            for c in facts: ss = [z for y in ss for z in y.assume(y.norm(T.subst(c, m)))]
            for s in ss: yield s, m, new, puts
    def g_fold_step(self, e, a, st, ins):
        f = self.rec(st, a[0])
        if f is None: return [('ret', fresh('any', a[0].w), st)]
        return [('ret', s.norm(add(scale(T.subst(new[f[0]], m), f[5]), f[1])) if f[0] in new else fresh('any', a[0].w), s) for s, m, new, puts in self.turn(st, f, st.norm(a[1]), st.norm(a[2]))]
    def g_fold_put4(self, e, a, st, ins, n=4):
        """what round i, entered with x, leaves at p"""
        f = self.rec(st, a[0])
        if f is None: return [('ret', fresh('any', 8 * n), st)]
        out = []
        for s, m, new, puts in self.turn(st, f, st.norm(a[1]), st.norm(a[2])):
            b, off = s.base(a[3]); v = None
            for b2, o2, z, v2 in puts:              # newest first
                if b2 is not b: continue
                if o2 is None: break
                o2 = s.norm(T.subst(o2, m))
                if z == n and s.equal(o2, off):
                    if v2 is not None: v = s.norm(T.subst(v2, m))
                    break
                if not s.disjoint(o2, z, off, n): break
            out.append(('ret', v if v is not None else fresh('any', 8 * n), s))
        return out
    def g_fold_puts(self, e, a, st, ins):
        f = self.rec(st, a[0])
        if f is None: return [('ret', num(0), st)]
        return [('ret', num(len(puts)), s) for s, m, new, puts in self.turn(st, f, st.norm(a[1]), st.norm(a[2]))]
    # ---- lifetimes ---------------------------------------------------------
    def el(self, st, p):
        b, off = st.base(p)
        if b is None or not off.const: raise Limit('element at an unknown place')
        return ('el', b, off.k)
    def g_el_ctor(self, e, a, st, ins):
        k = self.el(st, a[0])
        if st.ts.get(k) == 'live': e.report('life', 'object constructed over a living one', ins)
        st.ts[k] = 'live'
        return [('ret', None, st)]
    def g_el_dtor(self, e, a, st, ins):
        k = self.el(st, a[0])
        if st.ts.get(k) != 'live': e.report('life', 'destructor of an object that is not alive', ins)
        st.ts[k] = 'dead'
        return [('ret', None, st)]
    def g_live(self, e, a, st, ins): return [('ret', num(1 if st.ts.get(self.el(st, a[0])) == 'live' else 0, 1), st)]
    def free(self, e, p, st, ins, name):
        b, off = st.base(p)
        if b is not None:
            if st.ts.get(b) == 'foreign':
                e.report('ownership', 'a block is released that another thread may still use or has released', ins); return []
            if st.ts.get(('acquired', b)) is False: e.report('ownership', 'a shared block is released without acquiring what other threads did to it', ins)
            if any(isinstance(k, tuple) and k[0] == 'el' and k[1] is b and v == 'live' for k, v in st.ts.items()):
                e.report('life', 'storage of a living object released', ins)
            if st.ts.get(b) == 'live' and name.startswith('_Zd') and st.objs[b].get('new') and (st.objs[b]['new'] == '_Znam') != (name.startswith('_Zda')):
                e.report('ownership', 'delete and new of different forms (%s, %s)' % (st.objs[b]['new'], name), ins)
        return Heap.free(self, e, p, st, ins, name)
    def heapcall(self, e, name, args, st, ins):
        r = Heap.heapcall(self, e, name, args, st, ins)
        if name in ('_Znwm', '_Znam'):
            for k, v, s in r:
                if k == 'ret': b = T.single(v); s.objs[b] = dict(s.objs[b], new=name)
        return r
    def access(self, e, what, p, n, st, ins):
        b, off = st.base(p)
        if b is not None and st.ts.get(b) == 'foreign':
            e.report('ownership', '%s of a block another thread may have released' % what, ins); return
        return Heap.access(self, e, what, p, n, st, ins)
    # ---- actions -----------------------------------------------------------
    def g_act(self, e, a, st, ins):
        k = ('act', st.norm(a[0]).k)
        st.ts[k] = st.ts.get(k, 0) + 1
        return [('ret', None, st)]
    def g_acts(self, e, a, st, ins): return [('ret', num(st.ts.get(('act', st.norm(a[0]).k), 0)), st)]
    # ---- other threads -----------------------------------------------------
    def g_share(self, e, a, st, ins): st.ts['shared'] = True; return [('ret', None, st)]
    def g_atomics(self, e, a, st, ins): return [('ret', num(st.ts.get('atomics', 0)), st)]
    def g_order(self, e, a, st, ins): return [('ret', num(st.ts.get('order', 99)), st)]
    def atomic(self, e, ins, p, st):
        st.ts['atomics'] = st.ts.get('atomics', 0) + 1
        st.ts['order'] = ins['ord']
        if ins['op'] in ('fence', 'load') and ins['ord'] in (4, 6, 7):
            for k in [k for k in st.ts if isinstance(k, tuple) and k[0] == 'acquired']: st.ts[k] = True
    def load(self, e, p, size, st, ins):
        self.plain(p, st, ins); Heap.load(self, e, p, size, st, ins)
    def store(self, e, p, size, v, st, ins):
        self.plain(p, st, ins); Heap.store(self, e, p, size, v, st, ins)
    def plain(self, p, st, ins):
        if ins.get('ord') is not None: return
        b = st.base(p)[0]
        if b is not None and st.objs.get(b, {}).get('cell'): st.ts[('plain', b)] = st.ts.get(('plain', b), 0) + 1
    def g_plain(self, e, a, st, ins): return [('ret', num(st.ts.get(('plain', st.base(a[0])[0]), 0)), st)]
    def others(self, st): return sym('others%d' % T._nid(), 64, False, {'range': (0, 1 << 32)})
    def mine(self, st, p, v):
        b, off = st.base(p)
        return b if st.ts.get('shared') and b is not None and st.objs.get(b, {}).get('kind') == 'heap' and v.w == 64 and not st.ts.get(('alone', b)) else None
    def aload(self, e, ins, p, v, st):
        return None if self.mine(st, p, v) is None else add(v, self.others(st))
    def abandon(self, s, b):
        """the block and what it refers to now belong to other threads"""
        if s.ts.get(b) != 'live': return
        s.ts[b] = 'foreign'
        for off, (z, v) in list(s.mem.get(b, {}).items()):
            if z == 8 and isinstance(v, T.Lin):
                c = s.base(v, False)[0]
                if c is not None: self.abandon(s, c)
    def rmw(self, e, ins, p, old, new, st):
        """the stored number counts this thread's references; others may hold more at any moment"""
        b = self.mine(st, p, old)
        if b is None: return None
        o = self.others(st)
        if old.const and new.const and new.k < old.k and ins['ord'] not in (5, 6, 7):
            e.report('ownership', 'a reference is given up without publishing what was done through it (memory order)', ins)
        if not (new.const and new.k == 0): return [(add(old, o), st)]
        out = []
        s2 = st.copy()
        for s in st.assume(T.eq(o, num(0))): s.ts[('alone', b)] = True; s.ts[('acquired', b)] = ins['ord'] in (4, 6, 7); out.append((s.norm(old), s))
        for s in s2.assume(T.eq(o, num(0)), False): self.abandon(s, b); out.append((s.norm(add(old, o)), s))
        return out

class Spec(Entry):
    """every buffer of the arguments is content-tracked"""
    def states(self):
        for args, st, objs, label in Entry.states(self):
            for b, o in st.objs.items():
                if o.get('kind') in ('input', 'heap') and b not in st.chain and not o.get('cls'): st.track(b)
            yield args, st, objs, label

def exits(ent, e, kind, s, objs, label, st, init):
    out = []
    st['oblig'] += ent.c.nreq; ent.c.nreq = 0
    if kind != 'ret': return out
    for b, t in s.ts.items():
        if isinstance(b, T.Atom):
            st['oblig'] += 1
            if t == 'live' and not any(b is x.get('buf') for x in objs): out.append(('ownership', 'block %s is leaked' % b))
        elif isinstance(b, tuple) and b[0] == 'el' and t == 'live' and s.objs.get(b[1], {}).get('kind') == 'heap' and s.ts.get(b[1]) != 'foreign':
            out.append(('life', 'an object is never destroyed'))
    return out
