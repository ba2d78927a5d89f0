"""The assembly kernels of ualgobase.cc against their plain definitions.

Every address is (a multiple of 16) + a constant, one state per pair of constants; counts are symbols.  One
element at a symbolic index is followed; where the answer depends on which part of the kernel wrote it, the
state is split on that."""
import terms as T
from terms import num, add, sub, scale, sym
from memcheck import *

class KHeap(Heap):
    models = ()
    def model(self, name, m): return m if name in self.models else None

KERNELS = {
    'copy_n_fast': ('up', 16), 'copy_backward_fast': ('down', 4),
    'fill_n8_fast': (1, 16), 'fill_n16_fast': (2, 16), 'fill_n32_fast': (4, 16), 'rotate_fast': ('rot', 1),
}
RANGE = {'range': (0, 1 << 46)}

def objekt(st, nm, size):
    o = T.obj(nm); a = T.single(o)
    a.info = dict(a.info or {}, align=16)
    st.objs[a] = {'kind': 'input', 'size': size}
    st.track(a)
    return o

class Kernel(object):
    def __init__(self, mod, lay, name, spec, client):
        self.m, self.name, self.c = mod, name, client
        self.kind, self.grain = KERNELS[name[2:]]
        if self.kind == 'rot': client.models = ('copy_n_fast', 'copy_backward_fast')
        client.track = True
        self.toks = []; self.budget = 400000
    def count(self, nm): return sym('%s%d' % (nm, T._nid()), 64, False, dict(RANGE))
    def states(self):
        k, g = self.kind, self.grain
        if k in ('up', 'down'):
            for r1 in range(g):
                for r2 in range(g):
                    for same in (False, True):
                        st = State()
                        n, room = self.count('n'), self.count('room')
                        a = add(scale(self.count('a'), g), num(r1)); b = add(scale(self.count('b'), g), num(r2))
                        if k == 'down':
                            # the last bytes are placed instead of the first ones
                            ok = st.assume(T.ult(a, n), False)
                            ok = [y for x in ok for y in x.assume(T.ult(b, n), False)]
                            if not ok: continue
                            st = ok[0]
                            a, b = sub(a, n), sub(b, n)
                        if same:
                            # source and destination overlap or touch: the allowed direction
                            lo, up = (b, a) if k == 'up' else (a, b)
                            ss = st.assume(T.ult(up, lo), False)
                            if not ss: continue
                            st = ss[0]
                            S = D = objekt(st, 'block', add(add(up, n), room))
                        else:
                            S = objekt(st, 'source', add(add(a, n), room)); D = objekt(st, 'dest', add(add(b, n), room))
                        src, dst = add(S, a), add(D, b)
                        args = [src, n, dst] if k == 'up' else [src, add(src, n), add(dst, n)]
                        yield args, st, '%s%%%d=%d %s%%%d=%d %s' % ('source' if k == 'up' else 'source end', g, r1, 'dest' if k == 'up' else 'dest end', g, r2, 'one block' if same else 'two blocks'), (S, a, D, b, n, 1)
        elif k == 'rot':
            st = State()
            h1, h2, a, room = self.count('half'), self.count('half'), self.count('a'), self.count('room')
            D = objekt(st, 'block', add(add(a, add(h1, h2)), room))
            p = add(D, a)
            yield [p, add(p, h1), add(p, add(h1, h2))], st, '', (D, a, h1, h2)
        else:
            for r in range(0, 16, k):
                st = State()
                n, a, room = self.count('n'), add(scale(self.count('a'), 16), num(r)), self.count('room')
                D = objekt(st, 'dest', add(add(a, scale(n, k)), room))
                v = sym('v%d' % T._nid(), 8 * k)
                yield [add(D, a), n, v], st, 'dest%%16=%d' % r, (None, v, D, a, n, k)
    def run(self):
        for args, st, label, goal in self.states():
            self.eng = e = Engine(self.m, self.c, budget=self.budget)
            self.args = args; self.goal = goal
            init = st.copy()
            outs = e.run(self.name[2:], [st.norm(a) for a in args], st)
            yield e, outs, [], label, init

def split(s, b, off, size, ask, depth=0):
    """(state, value) pairs covering the state; None when the value stays unknown"""
    v = s.chain_load(s.chain[b], b, off, size, 8 * size)
    if v is not None or depth > 8:
        yield s, v; return
    c = s.doubt
    if c is None: yield s, None; return
    n = 0
    for p in (True, False):
        for q in s.copy().assume(c, p):
            n += 1
            for x in split(q, b, off, size, ask, depth + 1): yield x

def same(s, v, w):
    x, y = T.single(v), T.single(w)
    if x is not None and y is not None and x.op == y.op == 'init' and x.args[0] is y.args[0] and x.args[2:] == y.args[2:]: return s.equal(x.args[1], y.args[1])
    return s.equal(v, w)

def check(ent, e, kind, s, objs, label, st, init):
    out = []
    def bad(m): out.append(('kernel', m))
    if kind != 'ret': bad('leaves by exception'); return out
    g = ent.goal
    st['oblig'] += 1
    if s.ts.get('reg df', 0) != 0: bad('the direction flag is left set')
    k = ent.count('k')
    def expect(base, off, size, cond, val, what):
        """on the states of cond the cell holds val(state)"""
        b = T.single(base)
        ss = [s.copy()]
        for c in cond: ss = [q for x in ss for q in x.assume(x.norm(c))]
        for q in ss:
            for q2, v in split(q, b, q.norm(off), size, None):
                st['oblig'] += 1
                w = val(q2)
                if v is None: bad('%s cannot be determined' % what); return
                if not same(q2, q2.norm(v), q2.norm(w)): bad('%s is %s instead of %s' % (what, q2.norm(v), q2.norm(w))); return
    le = lambda x, y: T.b_not(T.ult(y, x))
    def src(base, off, size): return lambda q: q.norm(T.of(T.atom('init', (T.single(base), q.norm(off), size, 0), 8 * size)))
    if ent.kind == 'rot':
        D, a, h1, h2 = g
        n = add(h1, h2)
        expect(D, add(a, k), 1, [T.ult(k, h2)], src(D, add(a, add(k, h1)), 1), 'a byte of the first part')
        expect(D, add(a, add(h2, k)), 1, [T.ult(k, h1)], src(D, add(a, k), 1), 'a byte of the second part')
        expect(D, k, 1, [T.ult(k, a)], src(D, k, 1), 'a byte before the range')
        expect(D, add(add(a, n), k), 1, [T.ult(add(add(a, n), k), s.objs[T.single(D)]['size'])], src(D, add(add(a, n), k), 1), 'a byte after the range')
        return out
    S, x, D, b, n, z = g
    val = (lambda q: q.norm(x)) if S is None else src(S, add(x, k), 1)
    expect(D, add(b, scale(k, z)), z, [T.ult(k, n)], val, 'element k of the destination')
    expect(D, k, 1, [T.ult(k, b)], src(D, k, 1), 'a byte before the destination')
    o = add(add(b, scale(n, z)), k)
    expect(D, o, 1, [T.ult(o, s.objs[T.single(D)]['size'])], src(D, o, 1), 'a byte after the destination')
    return out
