"""Interprocedural, context-sensitive abstract interpreter over LLVM IR (as
printed by irdump).  Domain: canonical linear terms for SSA values, a
field-sensitive memory map per object, a conjunction of branch facts with a
polyhedral entailment test, and a client-defined typestate.  Loops are solved to
a fixpoint by widening with inferred linear invariants."""
import itertools, json, sys
import math
import terms as T
import x86
from terms import Lin, num, sym, fresh, add, sub, scale
from prover import Ctx

sys.setrecursionlimit(20000)

class Limit(Exception):
    """analysis gave up on this entry"""

class Module(object):
    def __init__(self, path):
        j = json.load(open(path))
        self.fns = j['functions']
        self.globals = j['globals']
        self.bydem = {}
        for n, f in self.fns.items():
            f['name'] = n
            self.bydem.setdefault(f['dem'], []).append(n)
        self._cfg = {}
    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            g = self.globals.get(name)
            if g and 'alias' in g and 'g' in g['alias']: return self.fn(g['alias']['g'])
        return f
    def dem(self, n):
        f = self.fns.get(n)
        return f['dem'] if f else n
    def cfg(self, f):
        c = self._cfg.get(f['name'])
        if c is None:
            c = self._cfg[f['name']] = CFG(f)
        return c

def succs(ins):
    op = ins['op']
    if op == 'br': return ins['succ']
    if op == 'switch': return [ins['default']] + [c[1] for c in ins['cases']]
    if op == 'invoke': return [ins['normal'], ins['unwind']]
    return []

class CFG(object):
    def __init__(self, f):
        bl = f['blocks']
        self.succ = [succs(b[-1]) if b else [] for b in bl]
        self.rpo = []
        seen = set()
        back = []
        onst = set()
        # iterative dfs
        st = [(0, iter(self.succ[0]))]
        seen.add(0); onst.add(0)
        post = []
        while st:
            b, it = st[-1]
            for s in it:
                if s in onst: back.append((b, s))
                elif s not in seen:
                    seen.add(s); onst.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                st.pop(); onst.discard(b); post.append(b)
        self.rpo = post[::-1]
        self.order = dict((b, i) for i, b in enumerate(self.rpo))
        self.pred = {}
        for b in self.rpo:
            for s in self.succ[b]: self.pred.setdefault(s, set()).add(b)
        self.loops = {}     # header -> body set
        for b, h in back:
            body = self.loops.setdefault(h, set([h]))
            todo = [b]
            while todo:
                x = todo.pop()
                if x in body: continue
                body.add(x)
                todo.extend(self.pred.get(x, ()))
        self.phis = {}
        for b in self.rpo:
            self.phis[b] = [i for i in bl[b] if i['op'] == 'phi']

SUBST_OPS = ('sym', 'count', 'extract', 'trunc', 'and', 'lshr', 'udiv', 'urem', 'strlen')

WRITTEN = set()     # bases written since the innermost loop round began

class State(object):
    __slots__ = ('mem', 'facts', 'sub', 'ts', 'objs', 'epoch', 'chain', '_ctx', '_memo', 'doubt', 'forall')
    def __init__(self):
        self.mem = {}; self.facts = {}; self.sub = {}; self.ts = {}; self.objs = {}; self.epoch = {}; self.chain = {}
        self._ctx = None; self._memo = {}; self.doubt = None; self.forall = ()
    def copy(self):
        s = State.__new__(State)
        s.mem = dict((b, dict(e)) for b, e in self.mem.items())
        s.facts = dict(self.facts); s.sub = dict(self.sub); s.ts = dict(self.ts)
        s.objs = dict(self.objs); s.epoch = dict(self.epoch); s.chain = dict(self.chain)
        s._ctx = self._ctx; s._memo = self._memo; s.doubt = None; s.forall = self.forall
        return s
    def norm(self, l):
        if not self.sub or not isinstance(l, Lin): return l
        return T.subst(l, self.sub, self._memo)
    def ctx(self):
        if self._ctx is None: self._ctx = Ctx(self.facts, [(self.norm(a.args[0]), a.args[1].k, l) for a, l in self.sub.items() if a.op == 'and' and a.args[1].const])
        return self._ctx
    def add_sub(self, a, l):
        """record atom a == l"""
        l = self.norm(l)
        m = {a: l}
        self.sub = dict((x, T.subst(y, m)) for x, y in self.sub.items())
        self.sub[a] = l
        self._memo = {}
        self._ctx = None
        for b, ent in self.mem.items():
            for o in [o for o in ent if any(x is a for x in T.atoms_of(o))]:
                e = ent.pop(o)
                o2 = T.subst(o, m)
                old = ent.get(o2)
                if old is not None and old[0] == e[0]:
                    # two names for one cell: keep the value that says more
                    n = T.single(e[1]) if isinstance(e[1], Lin) else None
                    if n is not None and n.op in ('undef', 'init'): e = old
                ent[o2] = e
        old = self.facts
        self.facts = {}
        new = []
        for f, p in old.items():
            r = T.subst_atom(f, m, {})
            if not self._put(r, p): return False
            if r is not T.of(f):
                b = T.boolform(r if p else T.b_not(r))
                if not isinstance(b, bool) and b[1] and b[0].op == 'eq0': new.append(b[0])
        for x in new:
            if not self.eliminate(x): return False
        return True
    def _put(self, c, p):
        if not p: c = T.b_not(c)
        r = T.boolform(c)
        if isinstance(r, bool): return r
        a, q = r
        if a in self.facts: return self.facts[a] == q
        self.facts[a] = q
        self._ctx = None
        return True
    def eliminate(self, a):
        """the fact a (an equation) as a substitution; False when inconsistent"""
        d = a.args[0]
        zero = []
        if d.k == 0 and len(d.items) > 1:
            zero = [x for x, k in d.items if x.op in SUBST_OPS and self.proves(T.eq(T.of(x), num(0, d.w)))]
            for x in zero:
                if not self.add_sub(x, num(0, d.w)): return False
        for x, k in reversed(d.items):
            if zero: break
            if k in (1, -1) and x.op in SUBST_OPS:
                rest = T.mk(d.w, d.k, dict((y, v) for y, v in d.items if y is not x))
                if any(x in T.atoms_of(T.of(y)) for y, v in rest.items): continue
                l = T.neg(rest) if k == 1 else rest
                if not self.add_sub(x, l): return False
                if l.const and self.ctx().unsat(): return False
                break
        return True
    def assume(self, c, p=True):
        """returns list of consistent states refining self"""
        c = self.norm(c)
        if not p: c = T.b_not(c)
        r = T.boolform(c)
        if isinstance(r, bool): return [self] if r else []
        a, q = r
        if a in self.facts: return [self] if self.facts[a] == q else []
        if a.op == 'and1':
            if q:
                out = []
                for s in self.assume(a.args[0]): out.extend(s.assume(a.args[1]))
                return out
            s2 = self.copy()
            out = self.assume(T.b_not(a.args[0]))
            for s in s2.assume(a.args[0]): out.extend(s.assume(T.b_not(a.args[1])))
            return out
        if a.op == 'eq0':
            o = T.single(a.args[0])
            if o is not None and o.op == 'or' and len(o.args) == 2:
                x, y = o.args
                if q:
                    out = []
                    for s in self.assume(T.eq(x, num(0, x.w))): out.extend(s.assume(T.eq(s.norm(y), num(0, y.w))))
                    return out
                if self.proves(T.eq(x, num(0, x.w))): return self.assume(T.eq(y, num(0, y.w)), False)
                if self.proves(T.eq(y, num(0, x.w))): return self.assume(T.eq(x, num(0, y.w)), False)
        if a.op == 'eq0' and a.args[0].w == 64 and self.elsewhere(a.args[0]): return [] if q else [self]
        ctx = self.ctx()
        if a.op in ('eq0', 'ult', 'slt') and ctx.prove_cond(T.b_not(c)): return []
        if not self._put(T.of(a), q): return []
        if a.op == 'eq0' and q and not self.eliminate(a): return []
        if a.op == 'sym' and a.w == 1:
            if not self.add_sub(a, T.TRUE if q else T.FALSE): return []
        if a.op == 'eq0':
            x = T.single(a.args[0]); part = False
            if x is None and len(a.args[0].items) == 1 and not a.args[0].k: x = a.args[0].items[0][0]; part = True
            while x is not None and not q and x.op in ('and', 'zext', 'sext', 'trunc', 'lshr'):      # some bits of it are not zero
                x = T.single(x.args[0]); part = True
            if x is not None and (not part or not q) and x.op == 'init' and x.w == 8 and self.objs.get(x.args[0], {}).get('strlen') is not None and not x.args[3]:
                # a character of a zero-terminated text: zero exactly at the terminator
                n = self.objs[x.args[0]]['strlen']; off = x.args[1]
                if not q and self.ule(off, n): return self.assume(T.ult(self.norm(off), self.norm(n)))
                if q: return self.assume(T.ult(self.norm(off), self.norm(n)), False)
        return [self]
    def elsewhere(self, d):
        """is this difference one of addresses in two distinct living objects?"""
        ps = [(a, k) for a, k in d.items if a in self.objs]
        if len(ps) != 2 or sorted(T._sgn(k, 64) for _, k in ps) != [-1, 1]: return False
        for a, k in ps:
            if self.objs[a].get('kind') == 'heap' and self.ts.get(a) != 'live' or not isinstance(self.objs[a].get('size'), (int, Lin)): return False
        r = T.mk(64, d.k, dict((a, k) for a, k in d.items if a not in self.objs))
        for a, k in ps:
            b = [x for x, _ in ps if x is not a][0]
            sa, sb = [z if isinstance(z, Lin) else num(z) for z in (self.objs[a]['size'], self.objs[b]['size'])]
            o = r if T._sgn(k, 64) > 0 else T.sub(num(0), r)
            if self.ult(num(0), self.norm(sb)) and self.ult(self.norm(o), self.norm(sa)): return True
        return False
    def proves(self, c):
        return self.ctx().prove_cond(self.norm(c))
    def ule(self, a, b): return self.ctx().prove_ule(self.norm(a), self.norm(b))
    def ult(self, a, b): return self.ctx().prove_ult(self.norm(a), self.norm(b))
    def equal(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b: return True
        if a.w != b.w: return False
        return self.ctx().prove_cond(T.eq(a, b))
    # ---- memory -------------------------------------------------------
    def base(self, p, mark=True):
        p = self.norm(p)
        c = [a for a, k in p.items if a.ptr and k == 1]
        if len(c) == 1: return c[0], sub(p, T.of(c[0]))
        if len(c) > 1:
            o = [a for a in c if a.op in ('obj', 'glob')]
            b = o[0] if o else c[0]
            return b, sub(p, T.of(b))
        if len(p.items) == 1 and p.items[0][1] == 1:
            a = p.items[0][0]
            if mark: a.ptr = True
            if a.ptr: return a, sub(p, T.of(a))
        return None, p
    def load(self, p, size, ty, eng):
        b, off = self.base(p)
        w = width(ty, size)
        isptr = ty == 'ptr'
        if b is None: return fresh('mem', w, isptr)
        ent = self.mem.setdefault(b, {})
        e = ent.get(off)
        if e is not None:
            if e[0] == size: 
                v = self.norm(e[1]) if isinstance(e[1], Lin) else e[1]
                if isinstance(v, Lin) and v.w != w and isinstance(v, Lin):
                    return v if v.w > w and not (v.w % 8 == 0) else (T.trunc(v, w) if v.w > w else T.zext(v, w))
                if isptr and isinstance(v, Lin):
                    s = T.single(v)
                    if s is not None and s.op in ('sym', 'init', 'extract'): s.ptr = True
                return v
        for o, (s, v) in ent.items():
            if s == size and not (o.const and off.const) and isinstance(v, Lin) and v.w == w and self.equal(o, off): return self.norm(v)
        if off.const and w == size * 8 and not isptr and b in self.objs:
            g = self.objs[b].get('grain')
            if g and size > g and size % g == 0:        # read element by element
                val = num(0, w)
                for i in range(0, size, g): val = add(val, scale(T.zext(self.load(add(p, num(i)), g, 'i%d' % (8 * g), eng), w), 1 << (8 * i)))
                return val
        if b in self.chain:
            v = self.chain_load(self.chain[b], b, off, size, w, isptr)
            if v is not None:
                ent[off] = (size, v)
                return v
        if off.const:
            for o, (s, v) in ent.items():
                if not o.const: continue
                if o.k <= off.k and off.k + size <= o.k + s and isinstance(v, Lin) and v.w == s * 8:
                    v = self.norm(v)
                    sh = (off.k - o.k) * 8
                    return T.trunc(T.binop('lshr', v, num(sh, v.w)), w)
                if o.k < off.k + size and off.k < o.k + s:
                    r = self.assemble(b, off.k, size, w, ty != 'ptr')
                    if r is not None: return r
                    return fresh('part', w, isptr)
        if b in self.chain: return fresh('mem', w, isptr)
        if b.op == 'glob':
            r = eng.global_load(b.args[0], off, size, w)
            if r is not None: return r
        elif off.const and off.k < (1 << 40):
            # lazily materialise the initial content
            pass
        o = self.objs.get(b)
        kind = o.get('kind') if o else 'input'
        ep = self.epoch.get(b, 0)
        if kind in ('alloca', 'heap') and not ep:
            v = T.of(T.atom('undef', (b, off, size), w, isptr))
        else:
            v = T.of(T.atom('init', (b, off, size, ep), w, isptr, self.range_of(o, off)))
        for o2 in list(ent):
            if not (o2.const and off.const): break
        ent[off] = (size, v)
        return v
    def assemble(self, b, off, size, w, gaps=False):
        """a value read across several stored ones (and, with GAPS, over bytes nothing is known of)"""
        if w != size * 8: return None
        val = num(0, w); have = 0; left = set(range(off, off + size))
        for o, (s, v) in self.mem.get(b, {}).items():
            if not o.const or o.k + s <= off or o.k >= off + size: continue
            if not isinstance(v, Lin): return None
            v = self.norm(v)
            if v.w != s * 8:
                if v.w > s * 8: return None
                v = T.zext(v, s * 8)
            lo, hi = max(o.k, off), min(o.k + s, off + size)
            x = T.trunc(T.binop('lshr', v, num(8 * (lo - o.k), v.w)), 8 * (hi - lo))
            val = add(val, scale(T.zext(x, w), 1 << (8 * (lo - off)))); have += hi - lo
            left -= set(range(lo, hi))
        if have + len(left) != size or left and not gaps: return None
        while left:
            lo = hi = min(left)
            while hi in left: left.discard(hi); hi += 1
            val = add(val, scale(T.zext(fresh('part', 8 * (hi - lo), False), w), 1 << (8 * (lo - off))))
        return val
    def range_of(self, o, off):
        if o and 'ranges' in o and off.const and off.k in o['ranges']: return {'range': o['ranges'][off.k]}
        return None
    def disjoint(self, o1, s1, o2, s2):
        if o1.const and o2.const: return o1.k + s1 <= o2.k or o2.k + s2 <= o1.k
        d = sub(o1, o2)
        if d.const:
            k = T._sgn(d.k, 64)
            return k >= s2 or -k >= s1
        c = self.ctx()
        # need o1 >= o2+s2 or o2 >= o1+s1
        return c.prove_ule(add(o2, num(s2)), o1) or c.prove_ule(add(o1, num(s1)), o2)
    def store(self, p, size, v):
        b, off = self.base(p)
        if b is None: return
        WRITTEN.add(b)
        if b in self.chain:
            c = self.chain[b]
            if c[0] == 'st' and c[2] is off and c[3] == size: c = c[1]
            self.chain[b] = ('st', c, off, size, v)
        ent = self.mem.setdefault(b, {})
        for o in list(ent):
            s, old = ent[o]
            if o is off and s <= size: continue
            if o is off or not self.disjoint(o, s, off, size):
                del ent[o]
                self.epoch[b] = self.epoch.get(b, 0) + 1
                if o.const and off.const and isinstance(old, Lin) and old.w == s * 8:
                    # the bytes of the old value on either side stay
                    for lo, hi in ((o.k, off.k), (off.k + size, o.k + s)):
                        if lo < hi and hi <= o.k + s and lo >= o.k:
                            ent[num(lo)] = (hi - lo, T.trunc(T.binop('lshr', old, num(8 * (lo - o.k), old.w)), 8 * (hi - lo)))
        ent[off] = (size, v)
        if b.op not in ('obj', 'glob'):
            for q in list(self.mem):
                if q is not b and q.op not in ('obj', 'glob') and not (q.info and q.info.get('noalias')) and not (b.info and b.info.get('noalias')):
                    for o in list(self.mem[q]):
                        if self.mem[q][o][0] == size and self.mem[q][o][1] is not v:
                            del self.mem[q][o]; self.epoch[q] = self.epoch.get(q, 0) + 1
    def havoc(self, b):
        WRITTEN.add(b)
        if b in self.chain: self.chain[b] = ('top',)
        self.mem[b] = {}
        self.epoch[b] = self.epoch.get(b, 0) + 1
    def havoc_range(self, p, n, node=None):
        b, off = self.base(p)
        if b is None: return
        WRITTEN.add(b)
        if b in self.chain: self.chain[b] = node(self.chain[b], off) if node is not None else ('unk', self.chain[b], off, n)
        ent = self.mem.get(b)
        self.epoch[b] = self.epoch.get(b, 0) + 1
        if not ent: return
        n = self.norm(n)
        for o in list(ent):
            s = ent[o][0]
            if n.const and self.disjoint(o, s, off, n.k): continue
            c = self.ctx()
            if c.prove_ule(add(off, n), o) or c.prove_ule(add(o, num(s)), off): continue
            del ent[o]

    # ---- write history of content-tracked blocks ----------------------
    # A block's history is a chain of nodes, newest first; a load walks it until it meets the write
    # that provably supplied the bytes.  ('init',) and ('undef',) are the bottoms.
    def track(self, b, node=('init',)):
        self.chain[b] = node
    def inside(self, off, size, lo, n):
        lo = self.norm(lo); n = self.norm(n)
        return self.ule(lo, off) and self.ule(add(off, num(size)), add(lo, n))
    def apart(self, off, size, lo, n):
        lo = self.norm(lo); n = self.norm(n)
        if n.const and n.k == 0: return True
        return self.ule(add(off, num(size)), lo) or self.ule(add(lo, n), off)
    def small(self, d, size, n):
        """d as a constant when it is known to be one place inside n bytes"""
        if d.const or not self.norm(n).const: return d
        for r in range(0, min(self.norm(n).k, 64), size):
            if self.equal(d, num(r)): return num(r)
        return d
    def where_is(self, off, size, lo, n):
        """the question whose answer decides on which side of the range a place lies"""
        lo = self.norm(lo); hi = self.norm(add(lo, n))
        c = T.ult(off, lo)
        if not self.proves(c) and not self.proves(T.b_not(c)): return c
        c = T.ult(off, hi)
        if not self.proves(c) and not self.proves(T.b_not(c)): return c
        return None
    def hull(self, g, count):
        """the range [lo, hi) that the rounds of one group of writes cover"""
        d, writes = g
        cs = [self.norm(c) for c, z, v in writes]
        lo = cs[0]; hi = add(lo, num(writes[0][1]))
        for c, (_, z, v) in zip(cs[1:], writes[1:]):
            x = sub(c, lo); y = sub(add(c, num(z)), hi)
            if not x.const or not y.const: return None
            if T._sgn(x.k, 64) < 0: lo = c
            if T._sgn(y.k, 64) > 0: hi = add(c, num(z))
        if d > 0: return lo, self.norm(add(hi, scale(sub(count, num(1)), d)))
        return self.norm(sub(lo, scale(sub(count, num(1)), -d))), hi
    def round_of(self, g, count, off, size):
        """(value, round) of the write of group g that covers [off, off+size) """
        d, writes = g
        for c, z, v in writes:
            c = self.norm(c)
            q = sub(off, c)
            if isinstance(v, tuple) and v[0] == 'cp' and size < z:
                r = T._sgn(q.k, 64) % abs(d)
                if r + size <= z: q = sub(q, num(r))
                else: continue
            elif z != size: continue
            if T._sgn(q.k, 64) % d or any(x % d for _, x in q.items): continue
            j = T.mk(64, T._sgn(q.k, 64) // d, dict((a, x // d) for a, x in q.items))
            if self.ult(j, count): return v, j
        return None
    def chain_load(self, node, b, off, size, w, isptr=False):
        off = self.norm(off)
        self.doubt = None
        for step in range(4000):
            k = node[0]
            if k == 'init': return T.of(T.atom('init', (b, off, size, 0), w, isptr, self.range_of(self.objs.get(b), off)))
            if k == 'undef': return T.of(T.atom('undef', (b, off, size), w, isptr))
            if k == 'const': return num(node[1], w)
            if k == 'top': return None
            if k == 'st':
                _, prev, o, z, v = node
                o = self.norm(o)
                if not isinstance(v, Lin):
                    if self.disjoint(o, z, off, size): node = prev; continue
                    return None
                v = self.norm(v)
                d = sub(off, o)
                if z == size and (d.const and d.k == 0 or (not d.const and self.equal(o, off))):
                    return v if v.w == w else T.trunc(v, w) if v.w > w else T.zext(v, w)
                if self.disjoint(o, z, off, size): node = prev; continue
                if d.const and 0 <= T._sgn(d.k, 64) and d.k + size <= z and v.w == z * 8: return T.trunc(T.binop('lshr', v, num(d.k * 8, v.w)), w)
                return None
            if k == 'cp':
                _, prev, o, n, snode, sb, so = node
                o = self.norm(o)
                if self.inside(off, size, o, n): node, b, off = snode, sb, self.norm(add(self.small(sub(off, o), size, n), so)); continue
                if self.apart(off, size, o, n): node = prev; continue
                doubt = self.where_is(off, size, o, n)
                # part from either side: known when both are zero
                u = self.chain_load(snode, sb, self.norm(add(self.small(sub(off, o), size, n), so)), size, w)
                if u is None or not (u.const and u.k == 0): self.doubt = doubt; return None
                u = self.chain_load(prev, b, off, size, w)
                self.doubt = doubt
                return u if u is not None and u.const and u.k == 0 else None
            if k == 'reloc':      # contents moved bytewise from so to o within the block; the vacated part becomes `dead`
                _, prev, o, n, so, dead = node
                o = self.norm(o); so = self.norm(so)
                if self.inside(off, size, o, n): node, off = prev, self.norm(add(sub(off, o), so)); continue
                if not self.apart(off, size, o, n): return None
                if self.inside(off, size, so, n): return num(dead, w)
                if not self.apart(off, size, so, n): return None
                node = prev; continue
            if k == 'fill':
                _, prev, o, n, z, v = node
                o = self.norm(o)
                if self.inside(off, size, o, n):
                    v = self.norm(v)
                    if z == size: return v if v.w == w else T.zext(v, w) if v.w < w else T.trunc(v, w)
                    if z == 1 and v.const: return num(int.from_bytes(bytes([v.k & 255]) * size, 'little'), w)
                    return None
                if self.apart(off, size, o, n): node = prev; continue
                self.doubt = self.where_is(off, size, o, n)
                return None
            if k == 'rot':
                _, prev, lo, mid, hi = node
                lo, mid, hi = self.norm(lo), self.norm(mid), self.norm(hi)
                if self.apart(off, size, lo, sub(hi, lo)): node = prev; continue
                if self.inside(off, size, lo, sub(hi, mid)): node, off = prev, self.norm(add(off, sub(mid, lo))); continue
                if self.inside(off, size, add(lo, sub(hi, mid)), sub(mid, lo)): node, off = prev, self.norm(sub(off, sub(hi, mid))); continue
                self.doubt = self.where_is(off, size, lo, sub(hi, mid)) or self.where_is(off, size, add(lo, sub(hi, mid)), sub(mid, lo))
                return None
            if k == 'unk':
                _, prev, o, n = node
                if self.apart(off, size, o, n): node = prev; continue
                return None
            if k in ('loop', 'mark'):
                if k == 'mark':
                    _, prev, M = node
                    if M.bad: return None
                    groups, it, count = M.groups, M.it, M.it
                else: _, prev, groups, it, count = node
                if not groups: node = prev; continue
                count = self.norm(count)
                if count.const and count.k == 0: node = prev; continue
                live = []
                for g in groups:
                    h = self.hull(g, count)
                    if h is None or not (self.ule(h[1], off) or self.ule(add(off, num(size)), h[0])): live.append((g, h))
                if not live: node = prev; continue
                found = None
                if len(live) == 1: found = self.round_of(live[0][0], count, off, size)
                if not found:
                    for g, h in live:
                        if h is not None and self.doubt is None: self.doubt = self.where_is(off, size, h[0], self.norm(sub(h[1], h[0])))
                    return None
                d = live[0][0][0]
                if found[0] is None or k == 'mark': return None
                m = {T.single(it): found[1]}
                if isinstance(found[0], tuple) and found[0][0] == 'alt':
                    left = []
                    for facts, v in found[0][1]:
                        fs = [self.norm(T.subst(f, m)) for f in facts]
                        if not any(self.proves(T.b_not(f)) for f in fs): left.append((fs, v))
                    if not left: return None
                    if any(v is not left[0][1] for fs, v in left):
                        self.doubt = next((f for fs, v in left for f in fs if not self.proves(f)), None)
                        return None
                    v = left[0][1]
                    if v == 'skip': node = prev; continue
                    v = self.norm(T.subst(v, m))
                    return v if v.w == w else None
                if isinstance(found[0], tuple):
                    _, node, b, so, c = found[0]
                    c = self.norm(T.subst(c, m))
                    off = self.norm(add(self.small(sub(off, c), size, num(abs(d))), self.norm(T.subst(so, m))))
                    continue
                v = self.norm(T.subst(found[0], m))
                return v if v.w == w else None
            raise Limit('history node ' + k)
        raise Limit('history too long')

def lasting(c, n0, itA, heads=()):
    """does a condition met inside a loop only speak of the round number and of what was there before?"""
    for a in T.atoms_of(c):
        if a is itA or a in heads: continue
        if a.op == 'init':
            if a.args[0].id > n0 or a.args[3]: return False
        elif a.id > n0 and a.op in ('sym', 'undef', 'strlen', 'obj', 'utf8n', 'count'): return False
    return True

def round_facts(st, H, n0, itA, heads=()):
    """what is known at the end of one round, as conditions over the round number (and what the round began with)"""
    out = []
    for a, p in st.facts.items():
        if a in H.facts: continue
        c = T.of(a) if p else T.b_not(T.of(a))
        if lasting(c, n0, itA, heads): out.append(c)
    for a, l in st.sub.items():
        if a in H.sub or a is itA: continue
        if lasting(T.of(a), n0, itA, heads) and lasting(l, n0, itA, heads):
            out.append((T.of(a) if l.k else T.b_not(T.of(a))) if a.w == 1 and l.const else T.eq(T.of(a), l))
    return out

def part(v, g):
    """v/g, or None when v is not known to be a multiple of g"""
    if not isinstance(v, Lin) or T._sgn(v.k, 64) % g or any(T._sgn(k, 64) % g for _, k in v.items): return None
    return T.mk(v.w, T._sgn(v.k, 64) // g, dict((a, T._sgn(k, 64) // g) for a, k in v.items))

def quotient(st, x, k):
    """x/k of a value that is not negative: what k divides for certain is taken out"""
    if k == 1 or x.const: return T.num(x.k // k)  if x.const else x
    sg = lambda v: T._sgn(v, 64)
    c, d = divmod(sg(x.k), k)
    A = T.mk(64, c, dict((a, sg(v) // k) for a, v in x.items if sg(v) % k == 0))
    R = T.mk(64, d, dict((a, sg(v)) for a, v in x.items if sg(v) % k))
    lim = num((1 << 62) // k)
    if not (A.const and A.k == 0):
        ctx = st.ctx()
        if not (st.ult(x, num(1 << 63)) and st.ult(R, num(1 << 62)) and (ctx.prove_ule(A, lim) or ctx.prove_ule(scale(A, -1), lim))): A, R = num(0), x
    if R.const: return add(A, num(R.k // k))
    if st.ult(R, num(k)): return A
    return add(A, T.binop('udiv', R, num(k)))

class Marker(object):
    """history of a block as seen at the head of a loop: what earlier rounds wrote"""
    def __init__(self, it): self.it = it; self.groups = []; self.bad = False
    def key(self): return (self.bad, tuple((d, tuple((c, z) for c, z, v in w)) for d, w in self.groups))

def tiled(prev, M, it):
    """a loop whose rounds write adjoining blocks, all copied with one displacement or all of one value, is a block copy or a fill"""
    if len(M.groups) != 1 or M.groups[0][0] <= 0: return None
    d, writes = M.groups[0]
    itA = T.single(it)
    w = []
    for c, z, v in writes:
        x = sub(c, writes[0][0])
        if not x.const or v is None: return None
        w.append((T._sgn(x.k, 64), c, z, v))
    w.sort(key=lambda x: x[0])
    if len(w) < 2: return None           # the general form says as much
    at = w[0][0]
    for x, c, z, v in w:
        if x != at: return None
        at += z
    if at - w[0][0] != d: return None
    lo = w[0][1]
    n = scale(it, d)
    src = None
    for x, c, z, v in w:
        a = T.single(v) if isinstance(v, Lin) else None
        if a is None or a.op != 'init' or a.args[3] or a.args[2] != z: src = None; break
        so = sub(a.args[1], scale(it, d))
        y = sub(so, c)
        if itA in T.atoms_of(so): src = None; break
        if src is None: src = (a.args[0], y)
        elif src[0] is not a.args[0] or src[1] is not y: src = None; break
    if src is not None: return ('cp', prev, lo, n, ('init',), src[0], add(lo, src[1]))
    v = w[0][3]
    if isinstance(v, Lin) and all(x[3] is v and x[2] == w[0][2] for x in w) and v.w == 8 * w[0][2] and not any(a is itA or a.op == 'init' and a.args[3] for a in T.atoms_of(v)):
        z = w[0][2]
        while z > 1:
            h = T.trunc(v, 4 * z)
            if T.trunc(T.binop('lshr', v, num(4 * z, 8 * z)), 4 * z) is not h: break
            v = h; z //= 2
        return ('fill', prev, lo, n, z, v)
    return None

def above(node, M):
    """nodes newer than marker M, or None when M is not on the chain"""
    out = []
    while True:
        if node[0] == 'mark' and node[2] is M: return out
        if len(node) < 2 or not isinstance(node[1], tuple): return None
        out.append(node); node = node[1]

def rebase(node, f, memo):
    """replace markers by f(marker node)"""
    todo = []
    n = node
    while True:
        if n in memo if False else id(n) in memo: r = memo[id(n)][1]; break
        if n[0] == 'mark':
            r = f(n)
            if r is not n: memo[id(n)] = (n, r)
            else: r = n
            break
        if len(n) < 2 or not isinstance(n[1], tuple): r = n; break
        todo.append(n); n = n[1]
    for n in reversed(todo):
        l = list(n)
        l[1] = r
        if n[0] == 'cp': l[4] = rebase(n[4], f, memo)
        r = n if all(x is y for x, y in zip(l, n)) else tuple(l)
        memo[id(n)] = (n, r)
    return r

def width(ty, size):
    if ty == 'ptr': return 64
    if ty[0] == 'i' and ty[1:].isdigit(): return int(ty[1:])
    return max(size, 1) * 8

class Client(object):
    """Override to define a property."""
    def model(self, name, m): return m      # contract used instead of the body of a function
    opaque = ()                      # demangled-name predicates treated as events
    def entry(self): pass
    def is_opaque(self, name, dem): return False
    def call(self, eng, name, dem, args, st, ins): return None      # None -> default; else list of outcomes
    def load(self, eng, p, size, st, ins): pass
    def store(self, eng, p, size, v, st, ins): pass
    def memop(self, eng, kind, dst, src, n, st, ins): pass
    def join_ts(self, a, b): return a if a == b else None
    def branch(self, eng, cond, st, ins): pass
    def atomic(self, eng, ins, p, st): pass
    def aload(self, eng, ins, p, v, st): return None        # value an atomic load yields instead of v
    def rmw(self, eng, ins, p, old, new, st): return None   # list of (value, state) an atomic update yields

class Engine(object):
    MAXSTATES = 400
    def c_memop(self, *a): memop(*a)
    def __init__(self, mod, client, maxdepth=40, budget=400000):
        self.m = mod; self.c = client
        self.stack = []
        self.reports = []
        self.visited = set()
        self.maxdepth = maxdepth
        self.steps = 0; self.budget = budget
        self.calls = 0
        self.unknown = set()
    # ---- reporting ------------------------------------------------------
    def where(self, ins=None):
        l = ins.get('l') if ins else None
        fr = []
        if l: fr.append('%s:%d' % tuple(l))
        for f, c in reversed(self.stack):
            fr.append('in ' + self.m.fns[f]['dem'] + (' called at %s:%d' % tuple(c) if c else ''))
        return '; '.join(fr[:5])
    def report(self, rule, msg, ins=None):
        self.reports.append((rule, msg, self.where(ins)))
    # ---- values ----------------------------------------------------------
    def val(self, o, env, st, w=None):
        if 'v' in o:
            v = env[o['v']]
            return st.norm(v) if isinstance(v, Lin) else v
        if 'i' in o: return num(int(o['i']), o['b'])
        if 'g' in o:
            n = self.resolve(o['g'])
            return add(T.glob(n), num(o.get('off', 0)))
        if 'undef' in o: return fresh('undef', w or 64)
        if 'zero' in o: return num(0, o['b']) if o['b'] else num(0, 8)
        if 'fp' in o: return T.of(T.atom('fp', (o['fp'],), w or 64))
        if 'agg' in o: return ('agg', [self.val(x, env, st) for x in o['agg']])
        return fresh('const', w or 64)
    def resolve(self, n):
        g = self.m.globals.get(n)
        while g and 'alias' in g and 'g' in g['alias']:
            n = g['alias']['g']; g = self.m.globals.get(n)
        return n
    def global_load(self, g, off, size, w):
        G = self.m.globals.get(g)
        if not G or not off.const: return None
        vt = g.startswith('_ZTV')
        if not G.get('const') and not vt: return None
        for o, c in G.get('ptrs', []):
            if o == off.k and size == 8: return self.val(c, {}, State())
        b = G.get('bytes')
        if b is None or (off.k + size) * 2 > len(b): return None
        x = bytes.fromhex(b[off.k * 2:(off.k + size) * 2])
        return num(int.from_bytes(x, 'little'), w)
    # ---- functions ---------------------------------------------------------
    def run(self, name, args, st):
        """outcomes: ('ret', value, state) | ('throw', info, state)"""
        f = self.m.fns[name]
        if self.stack.count(name) : pass
        self.visited.add(name)
        cfg = self.m.cfg(f)
        env = {}
        for i, a in enumerate(args): env[i] = a
        fr = Frame(self, f, cfg)
        outs = fr.run_nodes(set(cfg.rpo), 0, [(None, env, st)])
        assert not outs.edges
        return outs.exits

class Outs(object):
    def __init__(self):
        self.edges = []      # (src, dst, env, st)
        self.exits = []

class Frame(object):
    def __init__(self, eng, f, cfg):
        self.e, self.f, self.cfg = eng, f, cfg
    def run_nodes(self, blocks, entry, states, header=None):
        """states: list of (pred, env, st) at entry. header: loop header being solved (edges to it are returned)"""
        inc = {entry: list(states)}
        out = Outs()
        handled = set()
        cfg = self.cfg
        for b in sorted(blocks, key=lambda x: cfg.order[x]):
            if b in handled: continue
            ss = inc.pop(b, None)
            if not ss: continue
            if len(ss) > self.e.MAXSTATES: raise Limit('too many states')
            if b in cfg.loops and b != header:
                body = cfg.loops[b]
                handled |= body
                r = self.run_loop(b, body & blocks, ss)
                res = r.edges; out.exits.extend(r.exits)
            else:
                res = []
                if b == header and entry == b:
                    for pred, env, st in ss: self.run_block(b, env, st, res, out.exits)
                else:
                    for pred, env, st in ss:
                        env = self.phis(b, pred, env, st)
                        self.run_block(b, env, st, res, out.exits)
            for src, dst, env, st in res:
                if dst == header and header is not None or dst not in blocks: out.edges.append((src, dst, env, st))
                else: inc.setdefault(dst, []).append((src, env, st))
        return out
    def phis(self, b, pred, env, st):
        ph = self.cfg.phis[b]
        if not ph or pred is None: return env
        new = {}
        for p in ph:
            for o, src in p['in']:
                if src == pred:
                    new[p['id']] = self.e.val(o, env, st, width(*p['t'])); break
        env = dict(env); env.update(new)
        return env
    def run_loop(self, h, body, states):
        total = Outs()
        for pred, env, st in states:
            env = self.phis(h, pred, env, st)
            r = self.solve_loop(h, body, env, st)
            total.edges.extend(r.edges); total.exits.extend(r.exits)
        return total
    UNROLL = 12
    def unroll(self, h, body, env0, st0):
        """exact treatment of loops whose changing header values are constants
        and that end within a few rounds; None when not applicable"""
        e = self.e
        phis = [p['id'] for p in self.cfg.phis[h]]
        isc = lambda v: isinstance(v, Lin) and v.const
        strict = not any(isc(env0.get(p)) for p in phis)     # no constants: only when every round is decided
        if strict and not hasattr(e.c, 'rounds') and any(x in self.cfg.loops for x in body if x != h): return None
        def moved(a, b):
            if isc(a): return a is not b
            if not strict or not (isinstance(a, Lin) and isinstance(b, Lin)): return False
            d = sub(a, b)
            return d.const and d.k != 0
        mark = len(e.reports); steps = e.steps
        total = Outs()
        cur = [(env0, st0.copy())]
        for rnd in range(getattr(e.c, 'rounds', self.UNROLL)):
            nxt = []
            for env, st in cur:
                out = self.run_nodes(body, h, [(None, dict(env), st)], header=h)
                if strict and not hasattr(e.c, 'rounds') and any(x[1] == h for x in out.edges) and any(x[1] != h for x in out.edges): nxt = None; break
                total.exits.extend(out.exits)
                for src, dst, en, s in out.edges:
                    if dst == h: nxt.append((self.phis(h, src, en, s), s))
                    else: total.edges.append((src, dst, en, s))
            if nxt is None: break
            if not nxt: return total
            ok = len(nxt) <= getattr(e.c, 'forks', 3)
            for en, s in nxt if not hasattr(e.c, 'rounds') else ():
                if not any(moved(en.get(p), env0.get(p)) for p in phis): ok = False
            if not ok: break
            cur = nxt
        del e.reports[mark:]
        e.steps = steps
        return None
    def phases(self, h, body, env0, st0, Y, K, phased):
        """rounds before K, round K and the rounds after it, each on their own"""
        phased = phased | {Y}
        total = Outs()
        at = []
        for st in st0.copy().assume(T.ult(num(0), K)):
            r = self.solve_loop(h, body, env0, st, phased, K)
            total.edges += r.edges; total.exits += r.exits
            at += [(self.phis(h, src, env, s), s) for src, env, s in r.leave]
        for st in st0.copy().assume(T.eq(K, num(0))): at.append((dict(env0), st))
        for st in st0.copy().assume(T.slt(K, num(0))):
            r = self.solve_loop(h, body, env0, st, phased)
            total.edges += r.edges; total.exits += r.exits
        for env, st in at:
            out = self.run_nodes(body, h, [(None, dict(env), st)], header=h)
            total.exits += out.exits
            for src, dst, env2, s in out.edges:
                if dst != h: total.edges.append((src, dst, env2, s)); continue
                r = self.solve_loop(h, body, self.phis(h, src, env2, s), s, phased)
                total.edges += r.edges; total.exits += r.exits
        return total
    def threshold(self, a, itA):
        """(ghost number, round at which the outcome of this comparison changes)"""
        if a.op not in ('eq0', 'ult'): return None
        d = a.args[0] if a.op == 'eq0' else T.sub(a.args[0], a.args[1]) if a.args[0].w == 64 else None
        if d is None or d.w != 64: return None
        m = dict((x, T._sgn(k, 64)) for x, k in d.items)
        j = m.pop(itA, 0)
        if abs(j) != 1 or any(abs(k) != 1 or y.op != 'sym' or not str(y.args[0]).startswith('any') for y, k in m.items()): return None
        rest = T.sub(d, scale(T.of(itA), j))
        return list(m), (rest if j < 0 else T.sub(num(0), rest))
    def solve_loop(self, h, body, env0, st0, phased=frozenset(), stay=None):
        e = self.e
        cs = getattr(e.c, 'save', None)
        tok = cs() if cs else None
        r = self.unroll(h, body, env0, st0)
        if r is not None: return r
        if cs: e.c.restore(tok)
        H_env, H_st = dict(env0), st0.copy()
        widened = {}      # loc -> fresh sym atom Lin ; loc = ('e', id) or ('m', base, off, size)
        inv = None        # candidate invariants (conditions)
        relations = {}
        dropped = set()
        phis = [p['id'] for p in self.cfg.phis[h]]
        cands = {}
        it = sym('round%d' % T._nid(), 64, False, {'range': (0, 1 << 47)})    # rounds done so far
        itA = T.single(it)
        arrays = set()    # objects written at offsets that change from round to round
        shift = {}        # loc -> pointer base the widened offset is relative to
        scl = {}          # loc -> what the widened offset is a multiple of
        n0 = T._nid()     # atoms younger than this were created inside the loop
        marks = {}        # content-tracked objects written in the loop -> Marker
        noscl = set()
        def getv(loc, env, st):
            v = env.get(loc[1]) if loc[0] == 'e' else st.mem.get(loc[1], {}).get(loc[2], (0, None))[1]
            if loc in shift and isinstance(v, Lin) and v.w == 64: v = sub(v, shift[loc])
            if loc in scl and isinstance(v, Lin): v = part(st.norm(v), scl[loc])
            return v
        for rnd in range(24):
            mark = len(e.reports)
            cs = getattr(e.c, 'save', None)
            tok = cs() if cs else None
            s = H_st.copy()
            ok = True
            if stay is not None: s._put(s.norm(T.ult(it, stay)), True)
            for c in cands.values():
                if not s._put(s.norm(c), True): ok = False
            outer = set(WRITTEN); WRITTEN.clear()
            out = self.run_nodes(body, h, [(None, dict(H_env), s)], header=h)
            wr = set(WRITTEN); WRITTEN.update(outer)
            if any(b.op not in ('obj', 'glob') for b in wr): wr.update(b for b in H_st.mem if b.op not in ('obj', 'glob'))
            backs = [(src, env, st) for src, dst, env, st in out.edges if dst == h]
            leave = []
            if stay is not None:
                nb = []
                for src, env, st in backs:
                    c = T.ult(add(it, num(1)), stay)
                    s2 = st.copy()
                    nb += [(src, env, q) for q in st.assume(c)]
                    leave += [(src, env, q2) for q in s2.assume(c, False) for q2 in q.assume(T.eq(it, sub(stay, num(1))))]
                backs = nb
            changed = False
            newc = {}
            bvals = []
            for src, env, st in backs:
                env2 = self.phis(h, src, env, st)
                bvals.append((env2, st))
            for loc in list(scl):
                for env2, st in bvals:
                    v = getv(loc, env2, st)
                    if v is not None or loc[0] == 'm' and st.mem.get(loc[1], {}).get(loc[2], (0,))[0] != 8: continue
                    x, v0, d = widened[loc]
                    widened[loc] = (fresh('loop', 64, False), scale(v0, scl.pop(loc)), None); noscl.add(loc); changed = True
                    self.apply_widening(widened, H_env, H_st, shift, it, scl)
                    break
            if changed:
                for k in [k for k, c in cands.items() if not self.known(c, widened, itA, n0)]: del cands[k]
                del e.reports[mark:]
                if cs: e.c.restore(tok)
                continue
            if getattr(e.c, 'quantify', False):
                for st in [st for _, st in bvals] + [st for src, dst, env, st in out.edges if dst != h]:
                    for a in st.facts:
                        t = self.threshold(a, itA) if a not in H_st.facts else None
                        if t is None or any(y.id > n0 for y in t[0]): continue
                        Y = next((y for y in t[0] if y not in phased), None)
                        if Y is None: continue
                        if stay is not None: continue        # one threshold at a time
                        del e.reports[mark:]
                        if cs: e.c.restore(tok)
                        return self.phases(h, body, env0, st0, Y, t[1], phased)
            # values
            locs = [('e', p) for p in phis]
            mlocs = set()
            for b in wr:
                if b in H_st.chain and b not in marks:
                    marks[b] = Marker(it)
                    H_st.chain[b] = ('mark', H_st.chain[b], marks[b]); H_st.mem[b] = {}
                    changed = True
            for env2, st in bvals:
                for b, ent in st.mem.items():
                    if b not in wr or b in marks: continue
                    he = H_st.mem.get(b, {})
                    for o, (sz, v) in ent.items():
                        if o not in he or he[o][0] != sz or he[o][1] is not v: mlocs.add((b, o, sz))
                    for o in he:
                        if o not in ent: mlocs.add((b, o, he[o][0]))
                for b in st.epoch:
                    if st.epoch[b] != H_st.epoch.get(b, 0):
                        pass
            new = []
            for p in phis:
                hv = H_env.get(p)
                for env2, st in bvals:
                    bv = env2.get(p)
                    if not self.same(hv, bv, st) and ('e', p) not in widened:
                        new.append(('e', p)); break
            drops = []
            for b, o, sz in sorted(mlocs, key=lambda x: (x[0].id, x[1].id, x[2])):
                if new: break          # loop counters first
                if (b.op != 'obj' or b in H_st.objs) and (b in H_st.mem or b.id <= n0) and not o.const and \
                   (self.mentions_iter(o, widened, it) or any(a.id > n0 for a in T.atoms_of(o))):
                    if b not in arrays:
                        arrays.add(b); H_st.epoch[b] = T._nid(); changed = True
                    continue
                if b in arrays and o in H_st.mem.get(b, {}) and any(st.mem.get(b, {}).get(o, (None,))[0] != H_st.mem[b][o][0] for _, st in bvals):
                    drops.append((b, o)); continue
                loc = ('m', b, o, sz)
                if loc in widened and H_st.mem.get(b, {}).get(o, (None,))[0] == sz and all(st.mem.get(b, {}).get(o, (None,))[0] == sz for _, st in bvals): continue
                # object created inside the loop: irrelevant at the head
                if b.op == 'obj' and b not in H_st.objs: continue
                if b not in H_st.mem and b.id > n0: continue
                he = H_st.mem.get(b, {}).get(o)
                if he is None:
                    # materialise what the head would load
                    if any(o2.const and o.const and o2.k < o.k + sz and o.k < o2.k + H_st.mem[b][o2][0] for o2 in H_st.mem.get(b, {})):
                        # overlapping accesses: havoc this object at the head
                        H_st.havoc(b); changed = True; continue
                    kind = H_st.objs.get(b, {}).get('kind', 'input')
                    ep = H_st.epoch.get(b, 0)
                    tmp = H_st.copy()
                    v0 = tmp.load(add(T.of(b), o), sz, 'ptr' if sz == 8 and False else 'i%d' % (sz * 8), e)
                    # keep pointer-ness
                    for _, st in bvals:
                        vv = st.mem.get(b, {}).get(o)
                        if vv and isinstance(vv[1], Lin) and isinstance(v0, Lin) and v0.w == vv[1].w: pass
                    if all(st.mem.get(b, {}).get(o, (None, None))[1] is v0 for _, st in bvals):
                        H_st.mem.setdefault(b, {})[o] = (sz, v0); continue
                    if b.op not in ('obj',) and not o.const:
                        # a data-buffer cell written at an offset of this iteration: forget it
                        for _, st in bvals: pass
                        H_st.epoch[b] = H_st.epoch.get(b, 0)
                        if self.mentions_iter(o, widened, it): 
                            continue
                    H_st.mem.setdefault(b, {})[o] = (sz, v0)
                    he = (sz, v0)
                missing = any(o not in st.mem.get(b, {}) for _, st in bvals)
                diff = missing or any(st.mem[b][o][0] != sz or not self.same(he[1], st.mem[b][o][1], st) for _, st in bvals)
                if he[0] != sz:
                    H_st.havoc(b); changed = True; continue
                if diff: new.append(loc)
            # typestate
            for env2, st in bvals:
                for k in [k for k in H_st.ts if isinstance(k, str) and k.startswith('reg ') and st.ts.get(k) != H_st.ts[k]]:
                    del H_st.ts[k]; changed = True      # a machine register that differs from round to round
                for k in [k for k in st.ts if isinstance(k, str) and k.startswith('reg ') and k not in H_st.ts]: del st.ts[k]
                if st.ts != H_st.ts:
                    j = e.c.join_ts(H_st.ts, st.ts)
                    if j is None: raise Limit('typestate does not stabilise')
                    if j != H_st.ts:
                        H_st.ts = dict(j); changed = True
                for o, i in st.objs.items():
                    pass
            if new:
                changed = True
                for loc in new:
                    if loc[0] == 'e':
                        v0 = H_env[loc[1]]
                        w = v0.w if isinstance(v0, Lin) else 64
                        isp = isinstance(v0, Lin) and any(a.ptr for a, k in v0.items) or any(isinstance(env2.get(loc[1]), Lin) and any(a.ptr and k == 1 for a, k in env2[loc[1]].items) for env2, st in bvals)
                        bs = [env2.get(loc[1]) for env2, st in bvals]
                    else:
                        _, b, o, sz = loc
                        v0 = H_st.mem[b][o][1]
                        w = v0.w if isinstance(v0, Lin) else sz * 8
                        isp = isinstance(v0, Lin) and any(a.ptr for a, k in v0.items)
                        bs = [st.mem.get(b, {}).get(o, (0, None))[1] for _, st in bvals]
                    if isp and w == 64 and isinstance(v0, Lin):
                        bases = set(st.base(q, False)[0] if isinstance(q, Lin) and q.w == 64 else None for q, st in [(v0, H_st)] + [(q, st) for q, (_, st) in zip(bs, bvals)])
                        if len(bases) == 1 and None not in bases and bases.copy().pop().id < n0:
                            shift[loc] = T.of(bases.pop()); isp = False
                            v0 = sub(v0, shift[loc])
                    x = fresh('loop', w, isp)
                    bs = [sub(q, shift[loc]) if loc in shift else q for q in bs]
                    delta = self.deltas(v0, bs, [st for _, st in bvals])
                    if loc in shift and not delta and loc not in noscl and getattr(e.c, 'quantify', False):
                        g = 0
                        for q in [v0] + [st.norm(q) for q, (_, st) in zip(bs, bvals)]:
                            for k in [q.k] + [k for _, k in q.items]: g = math.gcd(g, T._sgn(k, 64))
                        if g > 1: scl[loc] = g; v0 = part(v0, g)
                    if loc in scl: x = sym('loop%d' % T._nid(), 64, False, {'range': (0, 1 << 47)})
                    widened[loc] = (x, v0, delta)
                # relations among those with constant steps
                self.apply_widening(widened, H_env, H_st, shift, it, scl)
            if not new:
                # constant steps hold on every way round
                for loc, (x, v0, delta) in list(widened.items()):
                    if not delta or x.w != 64: continue
                    for env2, st in bvals:
                        bv = getv(loc, env2, st)
                        if not isinstance(bv, Lin) or bv.w != 64 or not st.equal(add(v0, scale(add(it, num(1)), delta)), bv):
                            widened[loc] = (x, v0, None); changed = True
                            break
                if changed: self.apply_widening(widened, H_env, H_st, shift, it, scl)
            # candidate invariants
            syms = dict((T.single(x), loc) for loc, (x, v0, d) in widened.items() if T.single(x) is not None)
            if widened: syms[itA] = None
            if not changed and syms:
                # check preservation of current candidates
                bad = []
                for key, c in cands.items():
                    for env2, st in bvals:
                        m = self.backmap(widened, getv, env2, st, it)
                        if not st.proves(T.subst(c, m)) and not (hasattr(e.c, 'settle') and e.c.settle(e, st, T.subst(c, m))):
                            bad.append(key); break
                for k in bad:
                    del cands[k]; dropped.add(k); changed = True
                if not changed or not cands:
                    pass
            if syms:
                for env2, st in bvals + [(env, st) for src, dst, env, st in out.edges if dst != h]:
                    for a in list(st.facts):
                        if a in H_st.facts: continue
                        extra = []
                        if a.op == 'slt' and itA in T.atoms_of(T.of(a)) and not any(r[0] is a for r in cands) and not any(r[0] is a for r in dropped):
                            c = T.subst(T.of(a), {itA: sub(it, num(1))})
                            extra = [c, T.b_not(c)]
                        for c in self.cand_forms(a, syms) + extra:
                            r = T.boolform(c)
                            if isinstance(r, bool): continue
                            if r in dropped or r in cands or not self.known(c, widened, itA, n0): continue
                            # initially true?
                            m0 = dict((T.single(x), v0) for loc, (x, v0, d) in widened.items() if isinstance(v0, Lin) and T.single(x) is not None)
                            m0[itA] = num(0)
                            if st0.proves(T.subst(c, m0)):
                                cands[r] = c; changed = True
                            else: dropped.add(r)
                if getattr(e.c, 'quantify', False):
                    # against what the conditions compare carried values with
                    fixed = {it} | {y for _, y in getattr(e.c, 'hints', ()) if lasting(y, n0, itA)}
                    for env2, st in bvals + [(env, st) for src, dst, env, st in out.edges if dst != h]:
                        for a in st.facts:
                            if a in H_st.facts or a.op not in ('ult', 'eq0'): continue
                            q = self.apart(a, syms)
                            if q is not None and lasting(q, n0, itA): fixed.add(q)
                    for loc, (x, v0, d) in widened.items():
                        if d and x.w == 64 or x.w != 64 or T.single(x) is None or not isinstance(v0, Lin): continue
                        for y in fixed:
                            for c in (T.b_not(T.ult(x, y)), T.b_not(T.ult(y, x))):
                                r = T.boolform(c)
                                if isinstance(r, bool) or r in dropped or r in cands: continue
                                if st0.proves(T.subst(c, {T.single(x): v0, itA: num(0)})): cands[r] = c; changed = True
                                else: dropped.add(r)
                    # ... and where a carried place plus a carried length ends
                    free = [(x, v0) for x, v0, d in widened.values() if not d and x.w == 64 and T.single(x) is not None and isinstance(v0, Lin)]
                    for (x, v0), (y, y0) in itertools.combinations(free, 2):
                        for z in fixed:
                            if z is it: continue
                            for c in (T.b_not(T.ult(add(x, y), z)), T.b_not(T.ult(z, add(x, y)))):
                                r = T.boolform(c)
                                if isinstance(r, bool) or r in dropped or r in cands: continue
                                if st0.proves(T.subst(c, {T.single(x): v0, T.single(y): y0, itA: num(0)})): cands[r] = c; changed = True
                                else: dropped.add(r)
                for loc, (x, v0, d) in widened.items():
                    if d and x.w == 64: continue
                    if isinstance(v0, Lin) and T.single(x) is not None and isinstance(v0, Lin) and v0.w > 1:
                        for c in (T.b_not(T.ult(x, v0)), T.b_not(T.ult(v0, x))) + ((T.b_not(T.slt(x, v0)), T.b_not(T.slt(v0, x))) if loc in shift else ()):
                            r = T.boolform(c)
                            if isinstance(r, bool) or r in dropped or r in cands: continue
                            cands[r] = c; changed = True
            if not changed and not new and getattr(e.c, 'quantify', False):
                for c in self.balances(widened, getv, bvals, it):
                    r = T.boolform(c)
                    if isinstance(r, bool) or r in dropped or r in cands: continue
                    cands[r] = c; changed = True
            if not changed:
                for loc in list(scl):       # stays inside its range
                    if not st0.ult(widened[loc][1], num(1 << 47)) or not all(st.ult(getv(loc, env2, st), num(1 << 47)) for env2, st in bvals):
                        x, v0, d = widened[loc]
                        widened[loc] = (fresh('loop', 64, False), scale(v0, scl.pop(loc)), None); noscl.add(loc); changed = True
                if changed:
                    self.apply_widening(widened, H_env, H_st, shift, it, scl)
                    for k in [k for k, c in cands.items() if not self.known(c, widened, itA, n0)]: del cands[k]
            if not changed and marks:
                steps = {}      # narrow values that change by a constant
                for loc, (x, v0, d) in widened.items():
                    if x.w == 64 or T.single(x) is None or not isinstance(v0, Lin) or v0.w != x.w: continue
                    ds = [sub(st.norm(v), x) if isinstance(v, Lin) and v.w == x.w else None for v, st in ((getv(loc, env2, st), st) for env2, st in bvals)]
                    if ds and all(q is not None and q.const and q.k == ds[0].k for q in ds): steps[T.single(x)] = add(v0, T.trunc(scale(it, ds[0].k), x.w))
                for b, M in marks.items():
                    k = M.key()
                    self.summarise(b, M, [st for _, st in bvals], n0, wr, H_st, steps)
                    if M.key() != k: changed = True
            if not changed and drops:
                for b, o in drops:
                    H_st.mem[b].pop(o, None)
                    for loc in [l for l in widened if l[0] == 'm' and l[1] is b and l[2] is o]: del widened[loc]
                changed = True
            if not changed:
                res = Outs()
                res.exits = out.exits
                res.edges = [x for x in out.edges if x[1] != h]
                res.leave = leave
                if getattr(e.c, 'quantify', False) and bvals:
                    alts = [round_facts(st, H_st, n0, itA) for _, st in bvals]
                    rec = self.recurrence(widened, shift, getv, bvals, H_st, n0, itA, marks)
                    if all(alts) or rec:
                        for st in [x[3] for x in res.edges] + [x[2] for x in res.exits] + [x[2] for x in leave]: st.forall += ((it, alts if all(alts) else [], rec),)
                if marks:
                    for st in [x[3] for x in res.edges] + [x[2] for x in res.exits] + [x[2] for x in leave]:
                        memo = {}
                        def f(n):
                            M = n[2]
                            if not any(M is x for x in marks.values()): return n
                            if M.bad: return ('top',)
                            r = tiled(n[1], M, it)
                            if r is not None: return r
                            return ('loop', n[1], list(M.groups), it, it) if M.groups else n[1]
                        for b in list(st.chain): st.chain[b] = rebase(st.chain[b], f, memo)
                return res
            del e.reports[mark:]
            if cs: e.c.restore(tok)
        raise Limit('loop does not stabilise in ' + self.f['dem'])
    PURE = ('zext', 'sext', 'trunc', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'mul', 'init', 'obj', 'glob', 'eq0', 'ult', 'slt', 'and1')
    def marked(self, node, itA):
        while True:
            if node[0] == 'mark' and T.single(node[2].it) is itA: return True
            if node[0] == 'cp' and self.marked(node[4], itA): return True
            if len(node) < 2 or not isinstance(node[1], tuple): return False
            node = node[1]
    def recurrence(self, widened, shift, getv, bvals, H, n0, itA, marks):
        """how the values a loop carries change from round to round:
        ({carried atom: its first value}, [(conditions, {atom: value after the round}, [(block, offset, size, value written)])])"""
        at = dict((loc, T.single(x)) for loc, (x, v0, d) in widened.items() if T.single(x) is not None and isinstance(v0, Lin) and not (d and x.w == 64))
        heads = set(at.values())
        start = dict((at[loc], widened[loc][1]) for loc in at)
        alts = []
        for env2, st in bvals:
            new = {}
            for loc, a in at.items():
                v = getv(loc, env2, st)
                if not isinstance(v, Lin) or v.w != a.w: continue
                v = st.norm(v)
                if lasting(v, n0, itA, heads): new[a] = v
            puts = []
            for b, M in marks.items():
                ns = above(st.chain.get(b, ('top',)), M)
                if ns is None: puts.append((b, None, 0, None)); continue
                for n in ns:
                    if n[0] != 'st' or not isinstance(n[4], Lin): puts.append((b, None, 0, None)); continue
                    off, v = st.norm(n[2]), st.norm(n[4])
                    puts.append((b, off if lasting(off, n0, itA, heads) else None, n[3], v if lasting(v, n0, itA, heads) else None))
            alts.append((round_facts(st, H, n0, itA, heads), new, puts))
        return (start, alts) if start or any(p for _, _, p in alts) else None
    def summarise(self, b, M, sts, n0, wr, H, steps={}):
        """what one round writes to object b, as a function of the round number"""
        itA = T.single(M.it)
        per = []; facts = []
        for st in sts:
            ns = above(st.chain.get(b, ('top',)), M)
            if ns is None: M.bad = True; return
            got = {}
            facts.append(round_facts(st, H, n0, itA))
            for n in ns:                    # newest first
                if n[0] not in ('st', 'cp', 'fill', 'unk'): M.bad = True; return
                off = st.norm(n[2]); z = n[3] if n[0] == 'st' else st.norm(n[3])
                if n[0] != 'st':
                    if not z.const: M.bad = True; return
                    z = z.k
                d = dict(off.items).get(itA, 0)
                c = sub(off, scale(M.it, d))
                if not d or any(a is itA or (a.op == 'sym' and a.id > n0) for a in T.atoms_of(c)): M.bad = True; return
                v = st.norm(n[4]) if n[0] == 'st' and isinstance(n[4], Lin) else None
                if v is not None and steps: v = T.subst(v, steps)
                ats = T.atoms_of(v) if v is not None else []
                if n[0] == 'cp':
                    so = st.norm(n[6]); sn = n[4]
                    # source in the same block, at a place no earlier round has written
                    if sn[0] == 'mark' and sn[2] is M and (d > 0 and st.ule(off, so) or d < 0 and st.ule(so, off)): sn = sn[1]
                    if not self.marked(sn, itA): v = ('cp', sn, n[5], so, off); ats = T.atoms_of(so)
                if v is not None:
                    for a in ats:
                        if a.id > n0 and a is not itA and a.op not in self.PURE and not a.op.startswith('ext_') or a.op == 'init' and a.args[3] and a.args[0] in wr: v = None; break
                if (c, z) in got: continue
                got[(c, z)] = (d, v)
            per.append(got)
        if not per: return
        allk = sorted(set(k for g in per for k in g), key=lambda k: (k[0].id, k[1]))
        clusters = []
        for k in allk:
            ds = set(g[k][0] for g in per if k in g)
            if len(ds) != 1: M.bad = True; return
            d = ds.pop()
            for cl in clusters:
                if cl[0] == d and sub(k[0], cl[1][0][0]).const: cl[1].append(k); break
            else: clusters.append((d, [k]))
        groups = []
        for d, keys in clusters:
            span = []
            for c, z in keys:
                x = T._sgn(sub(c, keys[0][0]).k, 64)
                span.append((x, x + z))
            if max(y for x, y in span) - min(x for x, y in span) > abs(d): M.bad = True; return
            w = []
            for (c, z), sp in zip(keys, span):
                vs = [g[(c, z)][1] if (c, z) in g else None for g in per]
                v = vs[0] if all(x is vs[0] or isinstance(x, tuple) and isinstance(vs[0], tuple) and all(y is y2 for y, y2 in zip(x, vs[0])) for x in vs) else None
                if v is None and all((c, z) not in g or isinstance(g[(c, z)][1], Lin) for g in per):
                    v = ('alt', [(tuple(f), g[(c, z)][1] if (c, z) in g else 'skip') for f, g in zip(facts, per)])
                if any(o is not sp and o[0] < sp[1] and sp[0] < o[1] for o in span): v = None
                w.append((c, z, v))
            groups.append((d, w))
        M.groups = groups
    def known(self, c, widened, itA, n0):
        heads = set(T.single(x) for x, v0, d in widened.values())
        return all(a in heads or a is itA or a.id <= n0 or a.op != 'sym' for a in T.atoms_of(c))
    def apart(self, a, syms):
        """the loop-independent side of a comparison with carried values"""
        if a.op == 'ult': sides = a.args
        else:
            d = a.args[0]
            if d.w != 64: return None
            mine = [(x, k) for x, k in d.items if T.atoms_of(T.of(x)) & set(syms)]
            rest = T.mk(64, d.k, dict((x, k) for x, k in d.items if not T.atoms_of(T.of(x)) & set(syms)))
            if not mine or not rest.items: return None
            return T.sub(num(0), rest) if mine[0][1] > 0 else rest
        if sides[0].w != 64: return None
        ins = [bool(T.atoms_of(x) & set(syms)) for x in sides]
        if ins == [True, False] and not sides[1].const: return sides[1]
        if ins == [False, True] and not sides[0].const: return sides[0]
        return None
    def mentions_iter(self, o, widened, it):
        syms = set(T.single(x) for x, _, _ in widened.values()) | {T.single(it)}
        return bool(T.atoms_of(o) & syms)
    def backmap(self, widened, getv, env2, st, it):
        m = {T.single(it): add(it, num(1))}
        for l2, (x2, _, _) in widened.items():
            b2 = getv(l2, env2, st)
            if isinstance(b2, Lin) and b2.w == x2.w and T.single(x2) is not None: m[T.single(x2)] = self.settle(st.norm(b2), st)
            elif T.single(x2) is not None: m[T.single(x2)] = fresh('any', x2.w)
        return m
    def cand_forms(self, a, syms):
        at = T.atoms_of(T.of(a))
        if not (at & set(syms)): return []
        if a.op == 'ult':
            x, y = a.args
            out = [T.ult(x, y), T.b_not(T.ult(y, x)), T.b_not(T.ult(x, y)), T.ult(y, x)]
            for d in (x, y):
                if len(d.items) == 2 and sorted(c for _, c in d.items) == [-1, 1]:      # what is left between two positions
                    hi, lo = [T.of(next(a for a, c in d.items if c == w)) for w in (1, -1)]
                    k = T._sgn(d.k, d.w)
                    if k > 0: hi = add(hi, num(k, d.w))
                    elif k < 0: lo = add(lo, num(-k, d.w))
                    out.append(T.b_not(T.ult(hi, lo)))
            return out
        if a.op == 'eq0':
            d = a.args[0]
            P = T.mk(d.w, 0, dict((x, c) for x, c in d.items if c > 0))
            k = T._sgn(d.k, d.w)
            N = T.mk(d.w, 0, dict((x, -c) for x, c in d.items if c < 0))
            if k > 0: P = T.mk(d.w, k, dict(P.items))
            else: N = T.mk(d.w, -k, dict(N.items))
            return [T.b_not(T.ult(P, N)), T.b_not(T.ult(N, P)), T.b_not(T.of(a))]
        if a.op == 'slt':
            x, y = a.args
            return [T.b_not(T.slt(y, x)), T.slt(x, y)]
        return []
    def same(self, hv, bv, st):
        if hv is bv: return True
        if isinstance(hv, Lin) and isinstance(bv, Lin) and hv.w == bv.w:
            return st.norm(hv) is st.norm(bv) or st.equal(hv, bv)
        return hv == bv if not isinstance(hv, Lin) else False
    def deltas(self, v0, bvs, sts):
        if not isinstance(v0, Lin): return None
        ds = set()
        for bv, st in zip(bvs, sts):
            if not isinstance(bv, Lin) or bv.w != v0.w: return None
            d = sub(st.norm(bv), st.norm(v0))
            if not d.const: return None
            ds.add(T._sgn(d.k, d.w))
        return ds.pop() if len(ds) == 1 else None
    def settle(self, v, st):
        """flags in a sum that the state decides"""
        for a, k in v.items:
            if a.op == 'zext' and a.args[0].w == 1:
                t = 1 if st.proves(a.args[0]) else 0 if st.proves(T.b_not(a.args[0])) else None
                if t is not None: v = T.subst(v, {a: num(t, a.w)})
        return v
    def balances(self, widened, getv, bvals, it):
        """candidate: sums and differences of carried values that never fall, by how much each way round changes them"""
        cols = [(it, num(0), [{None: 1}] * len(bvals))]
        for loc, (x, v0, d) in sorted(widened.items(), key=lambda p: p[1][0].items[0][0].id if p[1][0].items else 0):
            if d or x.w != 64 or T.single(x) is None or not isinstance(v0, Lin): continue
            ds = []
            for env2, st in bvals:
                v = getv(loc, env2, st)
                q = sub(st.norm(v), st.norm(x)) if isinstance(v, Lin) and v.w == 64 else None
                if q is None: break
                t = {None: T._sgn(q.k, 64)}
                for a, k in q.items:
                    if a.op != 'zext' or a.args[0].w != 1: break
                    k = T._sgn(k, 64)
                    if st.proves(a.args[0]): t[None] += k
                    elif not st.proves(T.b_not(a.args[0])): t[a] = k
                else: ds.append(t); continue
                break
            else:
                if any(any(t.values()) for t in ds): cols.append((x, v0, ds))
        if len(cols) < 2 or len(cols) > 6 or not bvals: return []
        unit = [math.gcd(*(k for t in ds for k in t.values())) for _, _, ds in cols]
        L = math.lcm(*unit)
        if L > 64: return []
        out = []
        for c in itertools.product((0, 1, -1), repeat=len(cols)):
            n = sum(1 for k in c if k)
            if n < 2 or n > 3: continue
            sums = []
            for j in range(len(bvals)):
                t = {}
                for k, u, (_, _, ds) in zip(c, unit, cols):
                    for a, v in ds[j].items(): t[a] = t.get(a, 0) + k * (L // u) * v
                sums.append(t[None] + sum(v for a, v in t.items() if a is not None and v < 0))
            if min(sums): continue
            P = N = num(0)
            for k, u, (x, v0, _) in zip(c, unit, cols):
                if k > 0: P, N = add(P, scale(x, L // u)), add(N, scale(v0, L // u))
                if k < 0: N, P = add(N, scale(x, L // u)), add(P, scale(v0, L // u))
            out.append(T.b_not(T.ult(P, N)))
        return out
    def apply_widening(self, widened, H_env, H_st, shift, it, scl={}):
        for loc, (x, v0, d) in widened.items():
            v = add(v0, scale(it, d)) if d and x.w == 64 else x
            if loc in scl: v = scale(v, scl[loc])
            if loc in shift: v = add(v, shift[loc])
            if loc[0] == 'e': H_env[loc[1]] = v
            else: H_st.mem.setdefault(loc[1], {})[loc[2]] = (loc[3], v)
    # ------------------------------------------------------------------
    def run_block(self, b, env, st, edges, exits):
        e = self.e
        ins_list = self.f['blocks'][b]
        work = [(0, env, st)]
        while work:
            i, env, st = work.pop()
            while True:
                ins = ins_list[i]
                op = ins['op']
                e.steps += 1
                if e.steps > e.budget: raise Limit('step budget')
                if op == 'phi': i += 1; continue
                if op == 'br':
                    if 'a' in ins:
                        c = e.val(ins['a'][0], env, st, 1)
                        e.c.branch(e, c, st, ins)
                        t, f = ins['succ']
                        s2 = st.copy()
                        for s in st.assume(c, True): edges.append((b, t, dict(env), s))
                        for s in s2.assume(c, False): edges.append((b, f, dict(env), s))
                    else: edges.append((b, ins['succ'][0], env, st))
                    break
                if op == 'switch':
                    v = e.val(ins['a'][0], env, st)
                    rest = [st]
                    for cv, dst in ins['cases']:
                        k = e.val(cv, env, st)
                        nxt = []
                        for s in rest:
                            s2 = s.copy()
                            for q in s2.assume(T.eq(s.norm(v), k), True): edges.append((b, dst, dict(env), q))
                            nxt.extend(s.assume(T.eq(s.norm(v), k), False))
                        rest = nxt
                    for s in rest: edges.append((b, ins['default'], dict(env), s))
                    break
                if op == 'ret':
                    v = e.val(ins['a'][0], env, st, width(*self.f['ret'])) if ins['a'] else None
                    exits.append(('ret', v, st)); break
                if op == 'unreachable': break
                if op == 'resume':
                    exits.append(('throw', 'resume', st)); break
                if op in ('call', 'invoke'):
                    outs = e_call(e, self, ins, env, st)
                    first = True
                    nxt = []
                    for kind, v, s in outs:
                        if kind == 'ret':
                            en = dict(env)
                            if 'id' in ins: en[ins['id']] = v
                            if op == 'invoke': edges.append((b, ins['normal'], en, s))
                            else: nxt.append((i + 1, en, s))
                        elif kind == 'throw':
                            if op == 'invoke': 
                                en = dict(env); en['exc'] = v
                                edges.append((b, ins['unwind'], en, s))
                            else: exits.append(('throw', v, s))
                        else: exits.append((kind, v, s))
                    if op == 'invoke' or not nxt: break
                    work.extend(nxt[1:])
                    i, env, st = nxt[0]
                    continue
                r = self.step(ins, env, st)
                if r is not None:       # forked
                    if not r: break
                    work.extend((i + 1, en, s) for en, s in r[1:])
                    env, st = r[0]
                i += 1
    def step(self, ins, env, st):
        e = self.e
        op = ins['op']
        a = ins.get('a')
        if op == 'alloca':
            o = T.obj('%s.%d@%d' % (self.f['dem'].split('(')[0].split('::')[-1], ins['id'], T._nid()))
            n = e.val(ins['n'], env, st)
            st.objs[T.single(o)] = {'kind': 'alloca', 'size': scale(T.zext(n, 64), ins['size']), 'ty': ins['ty']}
            if not n.const and getattr(self.e.c, 'track', False): st.track(T.single(o), ('undef',))
            env[ins['id']] = o
        elif op == 'load':
            p = e.val(a[0], env, st)
            e.c.load(e, p, ins['t'][1], st, ins)
            env[ins['id']] = self.load_ty(st, p, ins['t'])
            if ins.get('ord') is not None:
                e.c.atomic(e, ins, p, st)
                x = e.c.aload(e, ins, p, env[ins['id']], st)
                if x is not None: env[ins['id']] = x
        elif op == 'store':
            v = e.val(a[0], env, st, width(*ins['vt']))
            p = e.val(a[1], env, st)
            e.c.store(e, p, ins['vt'][1], v, st, ins)
            fs = fields(ins['vt']) if isinstance(v, tuple) and v[0] == 'agg' else None
            if fs is not None and len(fs) <= len(v[1]):
                for (off, t), x in zip(fs, v[1]): st.store(add(p, num(off)), t[1], x if isinstance(x, Lin) else fresh('undef', width(*t)))
            elif isinstance(v, tuple): st.havoc_range(p, num(ins['vt'][1]))
            else: st.store(p, ins['vt'][1], v)
            if ins.get('ord') is not None: e.c.atomic(e, ins, p, st)
        elif op == 'getelementptr':
            p = e.val(a[0], env, st)
            if 'bad' in ins: env[ins['id']] = fresh('gep', 64, True); return
            p = add(p, num(ins['off']))
            for o, k in ins['var']:
                v = e.val(o, env, st)
                p = add(p, scale(T.sext(v, 64), k))
            env[ins['id']] = p
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            w = width(*ins['t'])
            x, y = e.val(a[0], env, st, w), e.val(a[1], env, st, w)
            if ins['t'][0][0] != 'i': env[ins['id']] = fresh('vec', w)
            else:
                if op == 'and' and isinstance(x, Lin) and isinstance(y, Lin):
                    for m, o in ((x, y), (y, x)):
                        c = maskcond(m)
                        if c is None: continue
                        c, inv = c          # m == ~0 iff c (inv: iff not c), otherwise 0
                        out = []
                        s2, env2 = st.copy(), dict(env)
                        for s in st.assume(c, not inv): en = dict(env); en[ins['id']] = s.norm(o); out.append((en, s))
                        for s in s2.assume(c, inv): en = dict(env2); en[ins['id']] = num(0, w); out.append((en, s))
                        return out
                if op in ('sdiv', 'srem') and w == 64 and isinstance(x, Lin) and not x.const and y.const and 0 < y.k < 1 << 40:
                    # of one known sign; the remainder in terms of the quotient
                    zero = num(0); k = y.k; out = []
                    for neg, s in [(True, s) for s in st.copy().assume(T.slt(x, zero), True)] + [(False, s) for s in st.assume(T.slt(x, zero), False)]:
                        v = s.norm(x)
                        q = scale(quotient(s, scale(v, -1), k), -1) if neg else quotient(s, v, k)
                        en = dict(env); en[ins['id']] = q if op == 'sdiv' else sub(v, scale(q, k)); out.append((en, s))
                    return out
                r = None
                if op == 'and' and isinstance(x, Lin) and y.const and y.k == 1:
                    g = T.single(x)
                    # a function's address is even: the low bit of a pointer to a member tells the virtual ones
                    if g is not None and g.op == 'glob' and e.m.fn(g.args[0]) is not None: r = num(0, w)
                if op in ('lshr', 'ashr', 'udiv', 'sdiv') and isinstance(x, Lin) and w == 64 and y.const and 0 < y.k < 16 and len(x.items) > 1:
                    # an exact division of what is known to be in range
                    d = 1 << y.k if op in ('lshr', 'ashr') else y.k
                    q = part(x, d)
                    if q is not None and st.ult(q, num(1 << 47)): r = q
                env[ins['id']] = T.binop(op, x, y) if r is None else r
        elif op == 'icmp':
            x, y = e.val(a[0], env, st), e.val(a[1], env, st)
            if x.w != y.w or ins['t'][0] != 'i1': env[ins['id']] = fresh('icmp', width(*ins['t']))
            else:
                pred = ins['pred']
                if pred[0] == 'u' and x.w == 64:
                    # order of two pointers into one object is the order of their offsets
                    bx, ox = st.base(x, False); by, oy = st.base(y, False)
                    if bx is not None and bx is by and bx.op in ('obj', 'glob'): x, y, pred = ox, oy, 's' + pred[1:]
                env[ins['id']] = T.icmp(pred, x, y)
        elif op == 'fcmp':
            env[ins['id']] = T.app('fcmp', (ins['pred'], e.val(a[0], env, st), e.val(a[1], env, st)), 1) if ins['t'][0] == 'i1' else fresh('fcmp', width(*ins['t']))
        elif op in ('zext', 'sext', 'trunc'):
            x = e.val(a[0], env, st); w = width(*ins['t'])
            if ins['t'][0][0] != 'i': env[ins['id']] = fresh('vec', w)
            elif op == 'zext': env[ins['id']] = T.zext(x, w)
            elif op == 'sext': env[ins['id']] = T.sext(x, w)
            else: env[ins['id']] = T.trunc(x, w)
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            x = e.val(a[0], env, st); w = width(*ins['t'])
            if not isinstance(x, Lin): env[ins['id']] = x
            elif x.w == w: env[ins['id']] = x
            elif x.w > w: env[ins['id']] = T.trunc(x, w)
            else: env[ins['id']] = T.zext(x, w)
        elif op == 'freeze':
            env[ins['id']] = e.val(a[0], env, st, width(*ins['t']))
        elif op == 'select':
            c = e.val(a[0], env, st, 1)
            w = width(*ins['t'])
            if not isinstance(c, Lin) or c.w != 1: env[ins['id']] = fresh('sel', w); return
            if getattr(e.c, 'selects', False):        # a choice of constants without a case split
                x, y = e.val(a[1], env, st, w), e.val(a[2], env, st, w)
                if isinstance(x, Lin) and isinstance(y, Lin) and x.const and y.const and w > 1:
                    env[ins['id']] = T.add(y, T.scale(T.zext(st.norm(c), w), x.k - y.k)); return
            out = []
            s2, env2 = st.copy(), dict(env)
            for s in st.assume(c, True):
                en = dict(env); en[ins['id']] = e.val(a[1], env, s, w); out.append((en, s))
            for s in s2.assume(c, False):
                en = dict(env2); en[ins['id']] = e.val(a[2], env2, s, w); out.append((en, s))
            return out
        elif op == 'extractvalue':
            v = e.val(a[0], env, st)
            for k in ins['idx']: v = v[1][k] if isinstance(v, tuple) and k < len(v[1]) else None
            env[ins['id']] = v if v is not None else fresh('xv', width(*ins['t']))
        elif op == 'insertvalue':
            v = e.val(a[0], env, st); x = e.val(a[1], env, st)
            if not isinstance(v, tuple): v = ('agg', [None] * 8)
            if len(ins['idx']) == 1:
                l = list(v[1]); 
                while len(l) <= ins['idx'][0]: l.append(None)
                l[ins['idx'][0]] = x; env[ins['id']] = ('agg', l)
            else:
                l = list(v[1])
                if ins['idx'][0] < len(l): l[ins['idx'][0]] = None
                env[ins['id']] = ('agg', l)
        elif op == 'landingpad':
            env[ins['id']] = ('agg', [sym('exc.ptr', 64, True), fresh('exc.sel', 32)])
        elif op == 'atomicrmw':
            p = e.val(a[0], env, st); v = e.val(a[1], env, st)
            e.c.atomic(e, ins, p, st)
            old = st.load(p, ins['t'][1], ins['t'][0], e)
            nw = {'add': lambda: add(old, v), 'sub': lambda: sub(old, v), 'xchg': lambda: v,
                  'or': lambda: T.binop('or', old, v), 'and': lambda: T.binop('and', old, v), 'xor': lambda: T.binop('xor', old, v), 'nand': lambda: T.binop('xor', T.binop('and', old, v), num(-1, v.w))}.get(ins['rmw'], lambda: fresh('rmw', old.w))()
            st.store(p, ins['t'][1], nw)
            env[ins['id']] = old
            r = e.c.rmw(e, ins, p, old, nw, st)
            if r is not None:
                out = []
                for v, s in r: en = dict(env); en[ins['id']] = v; out.append((en, s))
                return out
        elif op == 'cmpxchg':
            p = e.val(a[0], env, st); c = e.val(a[1], env, st); n = e.val(a[2], env, st)
            e.c.atomic(e, ins, p, st)
            old = st.load(p, c.w // 8, 'i%d' % c.w, e)
            out = []
            s2 = st.copy()
            for s in st.assume(T.eq(old, c), True):
                s.store(p, c.w // 8, n); en = dict(env); en[ins['id']] = ('agg', [s.norm(old), T.TRUE]); out.append((en, s))
            for s in s2.assume(T.eq(old, c), False):
                en = dict(env); en[ins['id']] = ('agg', [s.norm(old), T.FALSE]); out.append((en, s))
            return out
        elif op == 'fence': 
            e.c.atomic(e, ins, None, st)
        else:
            if 'id' in ins:
                w = width(*ins['t'])
                vs = tuple(e.val(x, env, st) for x in (a or ()))
                if all(isinstance(v, Lin) for v in vs) and ins['t'][0] in ('float', 'double') or op in ('fptoui', 'fptosi'):
                    env[ins['id']] = T.app(op, vs + (ins['t'][0],), w) if all(isinstance(v, Lin) for v in vs) else fresh(op, w)
                else: env[ins['id']] = fresh(op, w)
    def load_ty(self, st, p, t):
        fs = fields(t)
        if fs is not None and fs:
            return ('agg', [st.load(add(p, num(off)), f[1], f[0], self.e) for off, f in fs])
        if t[0].startswith('{') or t[0].startswith('%') or t[0].startswith('['):
            return fresh('agg', max(t[1], 1) * 8)
        return st.load(p, t[1], t[0], self.e)

def maskcond(m):
    """i1 condition selecting between an all-ones and an all-zero mask"""
    if m.w < 8 or len(m.items) != 1: return None
    a, k = m.items[0]
    if k == 1 and m.k == 0 and a.op == 'sext':
        i = a.args[0]
        if i.w == 1: return i, False
        return maskcond(i)
    if a.op == 'zext' and a.args[0].w == 1:
        if m.k == 0 and k == (1 << m.w) - 1 or k == -1 and m.k == 0: return a.args[0], False
        if k == 1 and m.k == (1 << m.w) - 1: return a.args[0], True
    return None

def st_norm_keep(l, st, m):
    return l

IGNORE = ('llvm.lifetime', 'llvm.dbg', 'llvm.prefetch', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stackrestore', 'llvm.donothing')

def e_call(e, frame, ins, env, st):
    cal = ins['callee']
    if 'asm' in cal:
        args = [e.val(x, env, st) for x in ins['a']]
        r = e.c.call(e, '<asm>', cal['asm'], args, st, ins)
        if r is not None: return r
        return [('ret', x86.run(e, ins, args, st), st)]
    fv = e.val(cal, env, st)
    s = T.single(fv) if isinstance(fv, Lin) else None
    args = [e.val(x, env, st) if 'md' not in x else None for x in ins['a']]
    name = s.args[0] if s is not None and s.op == 'glob' else None
    return call_named(e, name, args, st, ins, fv)

def fields(t):
    """[(offset, type)] of a structure of whole numbers and pointers, or None"""
    if not (t[0].startswith('{') and t[0].endswith('}')): return None
    out = []; off = 0
    for f in t[0][1:-1].split(','):
        n = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8}.get(f.strip())
        if n is None: return None
        off = (off + n - 1) // n * n
        out.append((off, (f.strip(), n))); off += n
    return out if off <= t[1] else None

def default_ret(ins, name):
    if 'id' not in ins: return None
    t = ins['t'][0]
    if t.startswith('{'): return ('agg', [fresh('ret', 64), fresh('ret', 64)])
    return fresh('ret.' + (name or '?'), width(*ins['t']), t == 'ptr')

def call_named(e, name, args, st, ins, fv=None):
    dem = e.m.dem(name) if name else '?'
    if name and name.startswith('llvm.'):
        for p in IGNORE:
            if name.startswith(p): return [('ret', default_ret(ins, name), st)]
        r = intrinsic(e, name, args, st, ins)
        if r is not None: return r
    r = e.c.call(e, name, dem, args, st, ins)
    if r is not None: return r
    if name is None:
        e.unknown.add('indirect call at %s' % (ins.get('l'),))
    m = e.c.model(name, MODELS.get(name))
    if m is not None:
        r = m(e, args, st, ins)
        if r is not None: return r
    f = e.m.fn(name) if name else None
    if f is not None and not f.get('decl') and not e.c.is_opaque(name, dem):
        if e.stack and sum(1 for x, _ in e.stack if x == name) >= 2: raise Limit('recursion in ' + dem)
        if len(e.stack) > e.maxdepth: raise Limit('depth')
        # byval copies
        for i, sz in ins.get('byval', []):
            o = T.obj('byval@%d' % T._nid())
            st.objs[T.single(o)] = {'kind': 'alloca', 'size': num(sz)}
            copy_mem(e, st, o, args[i], sz)
            args[i] = o
        e.stack.append((f['name'], ins.get('l')))
        e.calls += 1
        try: r = e.run(f['name'], args, st)
        finally: e.stack.pop()
        return r
    if f is not None and f.get('noreturn') and ins.get('nounwind'): return []
    # opaque external function
    nounwind = ins.get('nounwind') or (f is not None and f.get('nounwind'))
    out = []
    if not nounwind:
        s2 = st.copy()
        out.append(('throw', name, s2))
    if f is not None and f.get('noreturn') or ins.get('noreturn'): return out
    if not (f is not None and (f.get('memnone') or f.get('readonly'))):
        for x in args:
            if isinstance(x, Lin) and x.w == 64:
                b, off = st.base(x)
                if b is not None and b in st.objs and st.objs[b].get('kind') == 'alloca': st.havoc(b)
    out.append(('ret', default_ret(ins, dem.split('(')[0]), st))
    return out

def copy_mem(e, st, d, s, n):
    """copy n (int) bytes of tracked content"""
    sb, so = st.base(s); db, do = st.base(d)
    if sb is not None and db in st.chain and sb in st.chain:
        snode = st.chain[sb]
        st.havoc_range(d, num(n), lambda prev, o: ('cp', prev, o, num(n), snode, sb, so))
    else: st.havoc_range(d, num(n))
    if sb is None or db is None: return
    ent = st.mem.get(sb, {})
    pieces = []
    for o, (sz, v) in list(ent.items()):
        o = sub(o, so)
        if o.const and T._sgn(o.k, 64) >= 0 and o.k + sz <= n: pieces.append((o.k, sz, v))
    if not so.const and (n > 16 or sb not in st.chain): covered = n
    else: covered = 0
    if max(covered, sum(p[1] for p in pieces)) < n:
        # materialise missing words
        have = set()
        for o, sz, v in pieces: have.update(range(o, o + sz))
        k = 0
        while k < n:
            step = None
            for sz in (8, 4, 2, 1):
                if k % sz == 0 and k + sz <= n and not (have & set(range(k, k + sz))):
                    step = sz; break
            if step is None: k += 1; continue
            pieces.append((k, step, st.load(add(T.of(sb), add(so, num(k))), step, 'i%d' % (step * 8), e)))
            k += step
    for o, sz, v in pieces:
        st.mem.setdefault(db, {})[add(do, num(o))] = (sz, v)
        if db in st.chain and sb not in st.chain: st.chain[db] = ('st', st.chain[db], add(do, num(o)), sz, v)

def memop(e, kind, dst, src, n, st, ins, unit=1):
    e.c.memop(e, kind, dst, src, n, st, ins)
    n = st.norm(n)
    if n.const and n.k == 0: return
    if kind == 'memcpy':
        sb, so = st.base(src); db, do = st.base(dst)
        if sb is not None and sb is db and not (st.equal(so, do) or st.ule(add(so, n), do) or st.ule(add(do, n), so) or st.proves(T.eq(n, num(0)))):
            e.report('overlap', 'memcpy of %s bytes from offset %s to overlapping %s' % (n, so, do), ins)
    if kind in ('memcpy', 'memmove') and n.const and n.k <= 1024:
        copy_mem(e, st, dst, src, n.k)
    elif kind == 'memset' and unit == 1 and n.const and n.k <= 1024 and isinstance(src, Lin) and src.const:
        st.havoc_range(dst, n, lambda prev, o: ('fill', prev, o, n, 1, num(src.k & 255, 8)))
        b, o = st.base(dst)
        if b is not None:
            k = 0
            byte = src.k & 255
            while k < n.k:
                sz = next(z for z in (8, 4, 2, 1) if (k % z == 0 and k + z <= n.k))
                st.mem.setdefault(b, {})[add(o, num(k))] = (sz, num(int.from_bytes(bytes([byte]) * sz, 'little'), sz * 8))
                k += sz
    elif kind == 'memset' and unit == 1 and n.const and n.k == 1 and isinstance(src, Lin):
        st.store(dst, 1, T.trunc(src, 8) if src.w > 8 else src)
    else:
        moved = []
        if kind in ('memcpy', 'memmove'):
            sb, so = st.base(src)
            if sb is not None:
                for o, (sz, v) in list(st.mem.get(sb, {}).items())[:24]:
                    d = sub(o, so)
                    if st.ule(so, o) and st.ule(add(d, num(sz)), n): moved.append((d, sz, v))
        node = None
        if kind in ('memcpy', 'memmove') and sb is not None and sb in st.chain:
            snode = st.chain[sb]
            node = lambda prev, o: ('cp', prev, o, n, snode, sb, so)
        elif kind == 'memset' and isinstance(src, Lin):
            node = lambda prev, o: ('fill', prev, o, n, unit, T.trunc(src, unit * 8) if src.w > unit * 8 else src)
        st.havoc_range(dst, n, node)
        db, do = st.base(dst)
        if kind == 'memset' and node and n.const and n.k <= 64 and n.k % unit == 0 and db is not None and db not in st.chain:
            v = T.trunc(src, unit * 8) if src.w > unit * 8 else src
            for k in range(0, n.k, unit): st.store(add(dst, num(k)), unit, v)
        if db is not None:
            for d, sz, v in moved: st.mem.setdefault(db, {})[add(do, d)] = (sz, v)

def intrinsic(e, name, args, st, ins):
    ret = lambda v=None: [('ret', v, st)]
    for k in ('memcpy', 'memmove', 'memset'):
        if name.startswith('llvm.' + k):
            n = args[2]
            if n.w < 64: n = T.zext(n, 64)
            memop(e, k, args[0], args[1], n, st, ins)
            return ret()
    if name.startswith('llvm.expect'): return ret(args[0])
    if name.startswith('llvm.is.constant'): return ret(T.TRUE if isinstance(args[0], Lin) and args[0].const else T.FALSE)
    if name.startswith('llvm.objectsize'): return ret(num(-1, width(*ins['t'])))
    if name.startswith('llvm.stacksave'): return ret(fresh('stk', 64, True))
    if name.startswith('llvm.eh.typeid.for'): return ret(fresh('tid', 32))
    if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'): return []
    if name.startswith('llvm.umin') or name.startswith('llvm.umax') or name.startswith('llvm.smin') or name.startswith('llvm.smax'):
        a, b = args[:2]
        c = T.ult(a, b) if name[5] == 'u' else T.slt(a, b)
        mn = name[6:9] == 'min'
        out = []
        s2 = st.copy()
        for s in st.assume(c, True): out.append(('ret', a if mn else b, s))
        for s in s2.assume(c, False): out.append(('ret', b if mn else a, s))
        return out
    if name.startswith('llvm.') and 'id' in ins:
        if 'with.overflow' in name:
            opn = 'add' if 'add' in name else 'sub' if 'sub' in name else 'mul'
            return ret(('agg', [T.binop(opn, args[0], args[1]), fresh('ovf', 1)]))
        w = width(*ins['t'])
        if all(isinstance(x, Lin) for x in args): return ret(T.app(name, args, w))
        return ret(fresh(name, w))
    if name.startswith('llvm.'): return ret()
    return None

def m_memfn(kind):
    def f(e, a, st, ins):
        memop(e, kind, a[0], a[1], a[2], st, ins)
        return [('ret', a[0], st)]
    return f
def m_throw(e, a, st, ins):
    return [('throw', a[1] if len(a) > 1 else 'rethrow', st)]
def m_allocexc(e, a, st, ins):
    o = T.obj('exc@%d' % T._nid())
    st.objs[T.single(o)] = {'kind': 'heap', 'size': a[0], 'exc': True}
    return [('ret', o, st)]
def m_nop(e, a, st, ins): return [('ret', default_ret(ins, 'nop'), st)]
def m_die(e, a, st, ins): return []
def direction(e, ins, st, src, dst, n, up):
    """a copy going up (down) must not overlap a destination above (below) its source: it would repeat bytes"""
    sb, so = st.base(src); db, do = st.base(dst)
    if sb is None or sb is not db: return
    x, y = (so, do) if up else (do, so)
    if st.ule(y, x) or st.ule(add(x, n), y) or st.proves(T.eq(n, num(0))): return
    e.report('overlap', 'copy of %s bytes from offset %s to %s in the wrong direction' % (st.norm(n), so, do), ins)
def m_copyn(e, a, st, ins):       # copy_n_fast (src, n, dest)
    direction(e, ins, st, a[0], a[2], a[1], True)
    memop(e, 'memmove', a[2], a[0], a[1], st, ins)
    return [('ret', None, st)]
def m_copyback(e, a, st, ins):    # copy_backward_fast (first, last, result)
    n = sub(a[1], a[0])
    direction(e, ins, st, a[0], sub(a[2], n), n, False)
    memop(e, 'memmove', sub(a[2], n), a[0], n, st, ins)
    return [('ret', None, st)]
def m_fill(k):
    def f(e, a, st, ins):
        memop(e, 'memset', a[0], a[2], scale(a[1], k), st, ins, k)
        return [('ret', None, st)]
    return f
def m_rotate(e, a, st, ins):
    n = sub(a[2], a[0])
    e.c.memop(e, 'rotate', a[0], a[1], n, st, ins)
    b, lo = st.base(a[0])
    moved = []
    if b is not None and st.base(a[1])[0] is b:
        mid = sub(a[1], T.of(b)); hi = sub(a[2], T.of(b))
        for o, (sz, v) in list(st.mem.get(b, {}).items())[:24]:
            z = num(sz)
            if st.ule(lo, o) and st.ule(add(o, z), mid): moved.append((add(o, sub(hi, mid)), sz, v))
            elif st.ule(mid, o) and st.ule(add(o, z), hi): moved.append((sub(o, sub(mid, lo)), sz, v))
    node = None
    if b is not None and st.base(a[1])[0] is b:
        node = lambda prev, o: ('rot', prev, lo, mid, hi)
    st.havoc_range(a[0], n, node)
    for o, sz, v in moved: st.mem.setdefault(b, {})[st.norm(o)] = (sz, v)
    return [('ret', None, st)]
def m_beginCatch(e, a, st, ins): return [('ret', fresh('caught', 64, True), st)]

MODELS = {
    'memcpy': m_memfn('memcpy'), 'memmove': m_memfn('memmove'), 'memset': m_memfn('memset'),
    '__cxa_throw': m_throw, '__cxa_rethrow': m_throw, '__cxa_allocate_exception': m_allocexc,
    '__cxa_free_exception': m_nop, '__cxa_begin_catch': m_beginCatch, '__cxa_end_catch': m_nop,
    '__clang_call_terminate': m_die, 'abort': m_die, '__cxa_pure_virtual': m_die, '_ZSt9terminatev': m_die, 'exit': m_die, '_exit': m_die,
    '__assert_fail': m_die,
    'copy_n_fast': m_copyn, 'copy_backward_fast': m_copyback,
    'fill_n8_fast': m_fill(1), 'fill_n16_fast': m_fill(2), 'fill_n32_fast': m_fill(4), 'rotate_fast': m_rotate,
}
