"""What each vector operation does to every element, as linear expressions over element indices.

Entry: list of (assumptions, size afterwards, groups); group = (source, condition on k, place of element k of
the source in the vector afterwards).  Sources: an argument number (vector, or buf: range), ('in', i) for the
value argument i, in which case k ranges over the places themselves."""
import terms as T
from terms import num, add, sub, scale
from memcheck import *
from edits import le, lt

NONE = lambda X: []
SZ = lambda i: (lambda X: X.size(i))
N = lambda i: (lambda X: X.n(i))
C1 = lambda X: num(1)
OFS = lambda i: (lambda X: X.ofs(i))
PLUS = lambda f, g: (lambda X: add(f(X), g(X)))
KEEP = (0, NONE and (lambda X, k: []), lambda X, k: k)
def COPY(i, at=lambda X: num(0)): return (i, lambda X, k: [], lambda X, k: add(at(X), k))
def VAL(i, lo, hi): return (('in', i), lambda X, k: [le(lo(X), k), lt(k, hi(X))], lambda X, k: k)
def ZERO(lo, hi): return (('zero', 0), lambda X, k: [le(lo(X), k), lt(k, hi(X))], lambda X, k: k)
UPTO = lambda n: (0, lambda X, k: [lt(k, n(X))], lambda X, k: k)
def INS(n, d): return [(0, lambda X, k: [lt(k, d(X))], lambda X, k: k), (0, lambda X, k: [le(d(X), k)], lambda X, k: add(k, n(X)))]
def DEL(n, d): return [(0, lambda X, k: [lt(k, d(X))], lambda X, k: k), (0, lambda X, k: [le(add(d(X), n(X)), k)], lambda X, k: sub(k, n(X)))]
Z0 = lambda X: num(0)

V = {
 'ctor':      (NONE, Z0, []),
 'ctor_n':    (NONE, N(1), [ZERO(Z0, N(1))]),
 'ctor_nv':   (NONE, N(1), [VAL(2, Z0, N(1))]),
 'ctor_copy': (NONE, SZ(1), [COPY(1)]),
 'ctor_move': (NONE, SZ(1), [COPY(1)]),
 'ctor_pp':   (NONE, N(2), [COPY(1)]),
 'ctor_il':   (NONE, N(2), [COPY(1)]),
 'eq':        (NONE, SZ(1), [COPY(1)]),
 'eq_self':   (NONE, SZ(0), [KEEP]),
 'eq_move':   (NONE, SZ(1), [COPY(1)]),
 'swap':      (NONE, SZ(1), [COPY(1)]),
 'reserve':   (NONE, SZ(0), [KEEP]),
 'resize':    (NONE, N(1), [UPTO(N(1)), ZERO(SZ(0), N(1))]),
 'resize_v':  (NONE, N(1), [UPTO(N(1)), VAL(2, SZ(0), N(1))]),
 'push_back': (NONE, PLUS(SZ(0), C1), [KEEP, VAL(1, SZ(0), PLUS(SZ(0), C1))]),
 'pop_back':  (NONE, lambda X: sub(X.size(0), num(1)), [UPTO(lambda X: sub(X.size(0), num(1)))]),
 'clear':     (NONE, Z0, []),
 'shrink':    (NONE, SZ(0), [KEEP]),
 'deallocate':(NONE, Z0, []),
 'copy_link': (NONE, SZ(0), [KEEP]),
 'assign_pp': (NONE, N(2), [COPY(1)]),
 'assign_nv': (NONE, N(1), [VAL(2, Z0, N(1))]),
 'insert_v':  (NONE, PLUS(SZ(0), C1), INS(C1, OFS(1)) + [VAL(2, OFS(1), PLUS(OFS(1), C1))]),
 'insert_nv': (NONE, PLUS(SZ(0), N(2)), INS(N(2), OFS(1)) + [VAL(3, OFS(1), PLUS(OFS(1), N(2)))]),
 'insert_pp': (NONE, PLUS(SZ(0), N(3)), INS(N(3), OFS(1)) + [COPY(2, OFS(1))]),
 'erase':     (NONE, lambda X: sub(X.size(0), X.n(2)), DEL(N(2), OFS(1))),
}
V['push_back_m'] = V['emplace_back'] = V['push_back']
V['insert_m'] = V['emplace'] = V['insert_v']
V['erase_pp'] = V['erase']

class VX(object):
    def __init__(self, ent, args, st, objs): self.ent, self.args, self.st, self.objs = ent, args, st, objs
    def ob(self, i): return [o for o in self.objs if o['i'] == i][0]
    def size(self, i): return self.ob(i).get('count') or num(0)
    def n(self, i): return self.args[i]
    def ofs(self, i):
        d = sub(self.args[i], self.ob(int(self.ent.toks[i].split(':')[1]))['data'])
        return T.mk(64, d.k // self.ent.z, dict((a, c // self.ent.z) for a, c in d.items))
    def buf(self, i):
        for o in self.objs:
            if o['i'] == i: return (o['data'], o['count']) if o.get('buf') is not None else None
        p = self.ent.toks[i].split(':')
        return self.args[i], self.args[int(p[1])]

class VecEntry(Entry):
    """entry states refined by a symbolic element index"""
    def states(self):
        op = self.name[len('P_vec_'):].split('_', 1)[1]
        if op.startswith('_'): op = op[1:]
        self.c.track = True
        pre, size, groups = V[op]
        for args, st, objs, label in Entry.states(self):
            for a, o in st.objs.items():
                if o.get('kind') in ('input', 'heap') and a.args[0][:3] in ('buf', 'in%d' % 0) or a.args[0].startswith('in'): st.track(a)
            x = VX(self, args, st, objs)
            yield args, st.copy(), objs, label + ' size', ('size', x, size)
            for gi, (where, cond, place) in enumerate(groups):
                s = st.copy()
                k = self.count('k')
                if isinstance(where, tuple): src = args[where[1]] if where[0] == 'in' else None; ss = [s]
                else:
                    b = x.buf(where)
                    if b is None: continue
                    src = add(b[0], scale(k, self.z))
                    ss = s.assume(T.ult(k, b[1]))
                for c in cond(x, k):
                    nxt = []
                    for q in ss: nxt.extend(q.assume(q.norm(c)))
                    ss = nxt
                for q in ss: yield args, q, objs, '%s group %d' % (label, gi), ('cell', x, src, place(x, k), k, where)
    def run(self):
        for args, st, objs, label, goal in self.states():
            self.eng = e = Engine(self.m, self.c)
            init = st.copy()
            outs = e.run(self.name, [st.norm(a) for a in args], st)
            self.goal = goal
            yield e, outs, objs, label, init

def check_vec(ent, e, kind, s, objs, label, st, init):
    g = ent.goal
    ob = [o for o in objs if o['i'] == 0][0]
    if kind == 'throw' or ob['role'] == 'del': return []
    st['oblig'] += 1
    z = ent.z
    if g[0] == 'size':
        a = ent.rd(s, ob['o'], ob['cls'], 'size'); b = s.norm(scale(g[2](g[1]), z))
        return [] if s.equal(a, b) else [('edit', 'size in bytes afterwards is %s instead of %s' % (a, b))]
    d = ent.rd(s, ob['o'], ob['cls'], 'data')
    w = z if z in (1, 2, 4, 8) else 4
    for r in range(0, z, w):
        v = s.load(add(d, add(scale(s.norm(g[3]), z), num(r))), w, 'i%d' % (w * 8), e)
        v0 = num(0, w * 8) if g[2] is None else init.load(add(g[2], num(r)), w, 'i%d' % (w * 8), e)
        if not s.equal(v, s.norm(v0)):
            return [('edit', 'element %s of argument %s is not found at index %s afterwards (%s)' % (s.norm(g[4]), 'zero' if g[2] is None else g[5], s.norm(g[3]), v))]
    return []
