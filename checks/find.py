"""N01: searching and comparing text."""
import terms as T
from terms import num, add, sub, scale
import mem, spec
from ctrs import exits
from ptr import RULES, TB

FIND = 'char const* ustl::find<char const*, char>(char const*, char const*, char const&)'
CHAR = 'ustl::string::find(char, unsigned long) const'
class Text(spec.SpecHeap):
    """whole blocks are compared and searched by contract: memcmp, memchr, and ustl::find for bytes, which has probes of its own"""
    def __init__(self):
        spec.SpecHeap.__init__(self)
        self.hints = []
    def g_hint(self, e, a, st, ins):
        """a bound that loops may keep"""
        self.hints.append(st.base(a[0]))
        return [('ret', None, st)]
    def names(self, x): return {a for a in T.atoms_of(x) if a.op == 'sym'}
    def settle(self, e, st, c):
        """does c hold by what loops and searches so far say about the cells the facts speak of?"""
        if not any(self.names(h) <= self.names(c) for _, h in self.hints if self.names(h)): return False
        return all(z.ctx().unsat() for q in st.copy().assume(st.norm(c), False) if not q.ctx().unsat() for z in self.spread(q))
    def cells(self, s): return sorted({x for f in s.facts for x in T.atoms_of(T.of(f)) if x.op == 'init' and not x.args[3]}, key=lambda x: x.id)
    def met(self, x): return any(y.op == 'ext_differ' for y in T.atoms_of(x.args[1]))
    def spread(self, st):
        states = [(st, None)]
        for b, h in self.hints:             # is this the hinted place?
            for x in self.cells(st):
                if x.args[0] is not b or self.met(x) or not (any(y.op == 'ext_find' for y in T.atoms_of(x.args[1]))): continue
                nxt = []
                for s, r in states:
                    o = s.norm(x.args[1])
                    for c, t in ((T.eq(o, h), True), (T.ult(o, h), False), (T.ult(h, o), False)): nxt += [(z, t if r is None else r) for z in s.copy().assume(s.norm(c)) if not z.ctx().unsat()]
                states = nxt
        out = []
        for s, at in states:
            todo = [s]
            for _ in range(2):
                for x in sorted({x for s in todo for x in self.cells(s) if at is None or self.met(x) == at}, key=lambda x: x.id):
                    todo = [q for s in todo for q in self.instantiate(s, T.of(x)) if not q.ctx().unsat()]
                if len(todo) > 60: break
            out += todo
        return out
    def call(self, e, name, dem, args, st, ins):
        if name in ('memcmp', 'bcmp', '__builtin_memcmp'): return self.compare(e, args, st, ins)
        if name == 'memchr': return self.look_for(e, args[0], args[2], args[1], st, ins, True)
        if dem == CHAR and st.norm(args[2]).const and not st.norm(args[2]).k:       # (this, c, 0), has a probe of its own too
            p, n = st.load(add(args[0], num(8)), 8, 'ptr', e), st.load(add(args[0], num(16)), 8, 'i64', e)
            if p is not None and n is not None:
                return [('ret', num(0x7fffffff) if not sub(q, add(p, n)).items and sub(q, add(p, n)).k == 0 else sub(q, p), s) for _, q, s in self.look_for(e, p, n, args[1], st, ins, False)]
        if dem == FIND:
            c = self.look(e, args[2], 1, st, ins)
            return [o for v, s in c for o in self.look_for(e, args[0], sub(args[1], args[0]), v, s, ins, False)]
        return spec.SpecHeap.call(self, e, name, dem, args, st, ins)
    def byte(self, e, st, p, n, D):
        """what is D bytes further on from p in a block that nothing was written to in its first n bytes"""
        if st.norm(n).const and st.norm(n).k == 1:
            v = st.load(p, 1, 'i8', e)
            return v if v is not None and T.single(v) is not None else None
        b, off = st.base(p)
        if b is None or b not in st.objs or st.chain.get(b, ('init',))[0] != 'init': return None
        for o, (z, v) in st.mem.get(b, {}).items():
            t = T.single(v) if isinstance(v, T.Lin) else None
            if t is not None and t.op == 'init' and t.args == (b, o, z, 0): continue            # read, not written
            if not st.ule(add(off, n), o): return None
        return T.of(T.atom('init', (b, st.norm(add(off, D)), 1, 0), 8))
    def compare(self, e, a, st, ins):
        p, q, n = [st.norm(x) for x in a[:3]]
        for x in (p, q): self.access(e, 'read', x, n, st, ins)
        v = T.app('ext_memcmp', (p, q, n), 32)
        D = T.app('ext_differ', (p, q, n), 64)          # where the first difference is
        d = T.single(D)
        out = []
        for s in self.instantiate(st, v):
            x, y = self.byte(e, s, p, n, D), self.byte(e, s, q, n, D)
            same = ((D, [[T.eq(x, y)]], None),) if x is not None and y is not None else ()
            one = same and n.const and n.k == 1
            for z in s.copy().assume(T.eq(v, num(0, 32))):
                for z in z.assume(T.eq(D, n)):
                    for z in z.assume(T.eq(x, y)) if one else [z]: z.forall += same; out.append(('ret', v, z))
            for z in s.copy().assume(T.eq(v, num(0, 32)), False):
                for z in z.assume(T.ult(D, n)):
                    for z in z.assume(T.eq(x, y), False) if same else [z]: z.forall += same; out.append(('ret', v, z))
        return out
    def look_for(self, e, p, n, c, st, ins, null):
        p, n, c = st.norm(p), st.norm(n), st.norm(c)
        if c.w != 8: c = T.trunc(c, 8)
        self.access(e, 'read', p, n, st, ins)
        D = T.app('ext_find', (p, n, c), 64)
        out = []
        for s in self.instantiate(st, D):
            x = self.byte(e, s, p, n, D)
            differ = ((D, [[T.b_not(T.eq(x, c))]], None),) if x is not None else ()
            for z in s.copy().assume(T.eq(D, n)): z.forall += differ; out.append(('ret', num(0) if null else add(p, n), z))
            for z in s.copy().assume(T.ult(D, n)):
                for w in z.assume(T.eq(x, c)) if x is not None else [z]: w.forall += differ; out.append(('ret', add(p, D), w))
        return out
    def instantiate(self, s, v):
        """... and about the comparisons v is the result of"""
        states = spec.SpecHeap.instantiate(self, s, v)
        for t in [x for x in T.atoms_of(v) if x.op in ('ext_memcmp', 'ext_find')]:
            for it, alts, _ in s.forall:
                if alts: states = [r for q in states for r in self.inst_call(q, t, it, alts)]
        return states
    def inst_call(self, s, t, it, alts):
        itA = T.single(it); js = []
        for x in {x for facts in alts for f in facts for x in T.atoms_of(f)}:
            if x.op != t.op: continue
            for y, z in zip(x.args, t.args):
                d = T._sgn(dict(y.items).get(itA, 0), 64) if y.w == 64 else 0
                if d not in (1, -1): continue
                j = s.norm(scale(sub(z, sub(y, scale(it, d))), d))
                if itA not in T.atoms_of(j) and not any(x is itA for x, _ in j.items) and not any(j is k for k in js): js.append(j)
        out = [s]
        for j in js:
            nxt = []
            for q in out:
                c = T.ult(q.norm(j), q.norm(it))
                nxt += q.copy().assume(c, False)
                for r in q.assume(c, True):
                    for facts in alts:
                        rs = [r.copy()]
                        for f in facts: rs = [z for y in rs for z in y.assume(y.norm(T.subst(f, {itA: j})))]
                        nxt += rs
            out = [q for q in nxt if not q.ctx().unsat()]
        return out
    def signs(self, e, s, c):
        """the sign of a comparison that matters is that of the first bytes that differ"""
        vs = {x for x in T.atoms_of(c) if x.op == 'ext_memcmp'} | {x for f in s.facts if f.op == 'slt' for x in T.atoms_of(T.of(f)) if x.op == 'ext_memcmp'}
        states = [s]
        for v in sorted(vs, key=lambda x: x.id):
            p, q, n = v.args; D = T.app('ext_differ', (p, q, n), 64); V = T.of(v)
            nxt = []
            for s in states:
                nxt += s.copy().assume(T.eq(V, num(0, 32)))
                for z in s.assume(T.eq(V, num(0, 32)), False):
                    x, y = self.byte(e, z, p, n, D), self.byte(e, z, q, n, D)
                    if x is None or y is None: nxt.append(z); continue
                    for less in (True, False):
                        for w in z.copy().assume(T.slt(V, num(0, 32)), less): nxt += w.assume(T.ult(T.zext(x, 32), T.zext(y, 32)), less)
            states = [z for z in nxt if not z.ctx().unsat()]
        return states
    def cases(self, s, c):
        """conditions compared with each other: case by case"""
        todo = [(s, c, ())]
        while todo:
            s, c, seen = todo.pop()
            b = next((x for x in T.atoms_of(c) if x.w == 1 and x.op in ('ult', 'slt', 'eq0') and T.single(c) is not x and not T.b_not(c) is T.of(x)), None)
            b = b or next((x for f in s.facts if f.op == 'eq0' for x in T.atoms_of(T.of(f)) if x is not f and x.w == 1 and x.op in ('ult', 'slt', 'eq0') and x not in s.facts and x not in seen), None)
            if b is None:
                if all(self.agrees(s, f, t) for f, t in s.facts.items() if f.op == 'eq0'): yield s, c
                continue
            for t in (True, False):
                for q in s.copy().assume(T.of(b), t):
                    if not q.ctx().unsat(): todo.append((q, q.norm(T.subst(c, {b: T.TRUE if t else T.FALSE})), seen + (b,)))
    def agrees(self, s, f, t):
        """is a comparison of conditions as the conditions are?"""
        known = {x: T.TRUE if s.facts[x] else T.FALSE for x in T.atoms_of(T.of(f)) if x is not f and x.w == 1 and x in s.facts}
        if not known: return True
        v = T.subst(T.of(f), known)
        return not v.const or bool(v.k) == t
    def pinned(self, states):
        """numbers that bound each other from both sides are one"""
        for s in states:
            for _ in range(4):
                for a, t in list(s.facts.items()):
                    if a.op != 'ult' or t: continue
                    x, y = a.args           # y <= x
                    if s.norm(sub(x, y)).const or not s.ule(x, y): continue
                    r = [z for z in s.copy().assume(T.eq(x, y)) if not z.ctx().unsat()]
                    if len(r) != 1: s = None
                    elif r[0].norm(sub(x, y)).const: s = r[0]
                    else: continue
                    break
                else: break
                if s is None: break
            if s is not None: yield s
    def g_require(self, e, a, st, ins):
        """what the loops say about the cells the facts speak of"""
        c = st.norm(a[0]); self.nreq += 1; n = self.nreq
        states = [z for q in st.copy().assume(c, False) if not q.ctx().unsat() for z in self.signs(e, q, c)]
        for s in self.pinned(q for s in states for q in self.spread(s)):
            for q, f in self.cases(s, s.norm(c)): spec.SpecHeap.g_require(self, e, [f] + list(a[1:]), q, ins)
        self.nreq = n
        return [('ret', None, z) for z in st.assume(c)]

def search(r):
    r.rule = ('for every text, place and set of characters: what a search returns is an occurrence inside the text on the right side of the starting place, and no occurrence lies between (loop summaries as quantified facts, '
              'instantiated at the places the conditions speak of); comparisons have the sign and the equality of the first differing byte, or of the lengths')
    r.trusted = TB + ['memcmp and memchr do what their manual says']
    mem.analyse(r, ['find.cc', 'memory.cc', 'strings.cc'], exits, RULES, pat='^P_n_', entcls=spec.Spec, client=spec.SpecHeap)
    mem.analyse(r, ['find.cc', 'memory.cc', 'strings.cc'], exits, RULES, pat='^P_ns_', entcls=spec.Spec, client=Text)
    r.minimum.update(operations=28, exits=150)
