"""What each editing operation does to every byte, as linear expressions.

Each entry: (assumptions, size after, cells).  A cell group is (where, [(conditions on k, place of byte k afterwards)]):
`where` names the argument whose byte k is followed; conditions/places are functions of (X, k).
`le(a,b)`, `lt(a,b)` build conditions."""
import terms as T
from terms import num, add, sub
from memcheck import *

le = lambda a, b: T.b_not(T.ult(b, a))
lt = lambda a, b: T.ult(a, b)
same = lambda X, k: k
ANY = lambda X, k: []
KEEP = (0, [(ANY, same)])               # every byte of argument 0 stays where it was
def COPY(i, at=lambda X: num(0)): return (i, [(ANY, lambda X, k: add(at(X), k))])
SZ = lambda i: (lambda X: X.size(i))
N = lambda i: (lambda X: X.n(i))
PLUS = lambda f, g: (lambda X: add(f(X), g(X)))
def INS(n, d):                          # n bytes opened at offset d
    return (0, [(lambda X, k: [lt(k, d(X))], same), (lambda X, k: [le(d(X), k)], lambda X, k: add(k, n(X)))])
def DEL(n, d):
    return (0, [(lambda X, k: [lt(k, d(X))], same), (lambda X, k: [le(add(d(X), n(X)), k)], lambda X, k: sub(k, n(X)))])
OFS = lambda i: (lambda X: X.ofs(i))
UPTO = lambda n: (0, [(lambda X, k: [lt(k, n(X))], same)])
NONE = lambda X: []

E = {
 'memblock_ctor_pn':   (NONE, N(2), [COPY(1)]),
 'memblock_ctor_cml':  (NONE, SZ(1), [COPY(1)]),
 'memblock_ctor_copy': (NONE, SZ(1), [COPY(1)]),
 'memblock_ctor_move': (NONE, SZ(1), [COPY(1)]),
 'memblock_assign':    (NONE, N(2), [COPY(1)]),
 'memblock_assign_cml':(NONE, SZ(1), [COPY(1)]),
 'memblock_eq_cml':    (NONE, SZ(1), [COPY(1)]),
 'memblock_eq_ml':     (NONE, SZ(1), [COPY(1)]),
 'memblock_eq':        (NONE, SZ(1), [COPY(1)]),
 'memblock_move':      (NONE, SZ(1), [COPY(1)]),
 'memblock_reserve':   (NONE, SZ(0), [KEEP]),
 'memblock_resize':    (NONE, N(1), [UPTO(N(1))]),
 'memblock_insert':    (NONE, PLUS(SZ(0), N(2)), [INS(N(2), OFS(1))]),
 'memblock_erase':     (NONE, lambda X: sub(X.size(0), X.n(2)), [DEL(N(2), OFS(1))]),
 'memblock_shrink':    (NONE, SZ(0), [KEEP]),
 'memblock_copy_link': (NONE, SZ(0), [KEEP]),
 'string_ctor_copy':   (NONE, SZ(1), [COPY(1)]),
 'string_ctor_cml':    (NONE, SZ(1), [COPY(1)]),
 'string_ctor_move':   (NONE, SZ(1), [COPY(1)]),
 'string_ctor_pn':     (NONE, N(2), [COPY(1)]),
 'string_ctor_pp':     (NONE, N(2), [COPY(1)]),
 'string_ctor_nc':     (NONE, N(1), []),
 'string_resize':      (NONE, N(1), [UPTO(N(1))]),
 'string_resize_c':    (NONE, N(1), [UPTO(N(1))]),
 'string_reserve':     (NONE, SZ(0), [KEEP]),
 'string_append_pn':   (NONE, PLUS(SZ(0), N(2)), [KEEP, COPY(1, SZ(0))]),
 'string_append_nc':   (NONE, PLUS(SZ(0), N(1)), [KEEP]),
 'string_append_s':    (NONE, PLUS(SZ(0), SZ(1)), [KEEP, COPY(1, SZ(0))]),
 'string_append_sub':  (lambda X: [le(add(X.n(2), X.n(3)), X.size(1))], PLUS(SZ(0), N(3)),
                        [KEEP, (1, [(lambda X, k: [le(X.n(2), k), lt(k, add(X.n(2), X.n(3)))], lambda X, k: add(X.size(0), sub(k, X.n(2))))])]),
 'string_push_back':   (NONE, PLUS(SZ(0), lambda X: num(1)), [KEEP]),
 'string_pluseq':      (NONE, PLUS(SZ(0), SZ(1)), [KEEP, COPY(1, SZ(0))]),
 'string_pluseq_ch':   (NONE, PLUS(SZ(0), lambda X: num(1)), [KEEP]),
 'string_assign_pn':   (NONE, N(2), [COPY(1)]),
 'string_assign_s':    (NONE, SZ(1), [COPY(1)]),
 'string_assign_sub':  (lambda X: [le(add(X.n(2), X.n(3)), X.size(1))], N(3),
                        [(1, [(lambda X, k: [le(X.n(2), k), lt(k, add(X.n(2), X.n(3)))], lambda X, k: sub(k, X.n(2)))])]),
 'string_assign_nc':   (NONE, N(1), []),
 'string_assign_move': (NONE, SZ(1), [COPY(1)]),
 'string_eq':          (NONE, SZ(1), [COPY(1)]),
 'string_eq_ch':       (NONE, lambda X: num(1), []),
 'string_ctor_sub':    (lambda X: [le(add(X.n(2), X.n(3)), X.size(1))], N(3),
                        [(1, [(lambda X, k: [le(X.n(2), k), lt(k, add(X.n(2), X.n(3)))], lambda X, k: sub(k, X.n(2)))])]),
 'string_substr':      (lambda X: [le(add(X.n(2), X.n(3)), X.size(1))], N(3),
                        [(1, [(lambda X, k: [le(X.n(2), k), lt(k, add(X.n(2), X.n(3)))], lambda X, k: sub(k, X.n(2)))])]),
 'string_plus':        (NONE, PLUS(SZ(1), SZ(2)), [COPY(1), COPY(2, SZ(1))]),
 'string_insert_nc':   (NONE, PLUS(SZ(0), N(2)), [INS(N(2), OFS(1))]),
 'string_insert_pos_nc': (lambda X: [le(X.n(1), X.size(0))], PLUS(SZ(0), N(2)), [INS(N(2), N(1))]),
 'string_insert_range':(NONE, PLUS(SZ(0), N(3)), [INS(N(3), OFS(1)), COPY(2, OFS(1))]),
 'string_insert_s':    (lambda X: [le(X.n(1), X.size(0))], PLUS(SZ(0), SZ(2)), [INS(SZ(2), N(1)), COPY(2, N(1))]),
 'string_insert_sub':  (lambda X: [le(X.n(1), X.size(0)), le(add(X.n(3), X.n(4)), X.size(2))], PLUS(SZ(0), N(4)),
                        [INS(N(4), N(1)), (2, [(lambda X, k: [le(X.n(3), k), lt(k, add(X.n(3), X.n(4)))], lambda X, k: add(X.n(1), sub(k, X.n(3))))])]),
 'string_erase_it':    (NONE, lambda X: sub(X.size(0), X.n(2)), [DEL(N(2), OFS(1))]),
 'string_erase_pos':   (lambda X: [le(add(X.n(1), X.n(2)), X.size(0))], lambda X: sub(X.size(0), X.n(2)), [DEL(N(2), N(1))]),
 'string_replace':     (NONE, lambda X: add(sub(X.size(0), X.n(4)), X.n(3)),
                        [(0, [(lambda X, k: [lt(k, X.ofs(1))], same),
                              (lambda X, k: [le(add(X.ofs(1), X.n(4)), k)], lambda X, k: add(sub(k, X.n(4)), X.n(3)))]), COPY(2, OFS(1))]),
 'string_shrink':      (NONE, SZ(0), [KEEP]),
 'string_copy_link':   (NONE, SZ(0), [KEEP]),
}
LEN_IN = lambda s, o, n: (lambda X: [le(add(X.n(o), X.n(n)), X.size(s))], lambda X: X.n(n))
LEN_OUT = lambda s, o, n: (lambda X: [le(X.n(o), X.size(s)), lt(X.size(s), add(X.n(o), X.n(n)))], lambda X: sub(X.size(s), X.n(o)))
def sub_ops():
    for what, s, o, n in (('string_append_sub', 1, 2, 3), ('string_assign_sub', 1, 2, 3), ('string_ctor_sub', 1, 2, 3), ('string_substr', 1, 2, 3), ('string_insert_sub', 2, 3, 4)):
        E[what] = []
        for pre, ln in (LEN_IN(s, o, n), LEN_OUT(s, o, n)):
            def src(at, s=s, o=o, n=n, ln=ln):
                return (s, [(lambda X, k: [le(X.n(o), k), lt(k, add(X.n(o), ln(X)))], lambda X, k: add(at(X), sub(k, X.n(o))))])
            if what == 'string_append_sub': E[what].append((pre, PLUS(SZ(0), ln), [KEEP, src(SZ(0))]))
            elif what == 'string_insert_sub':
                E[what].append((lambda X, pre=pre: [le(X.n(1), X.size(0))] + pre(X), PLUS(SZ(0), ln), [INS(ln, N(1)), src(N(1))]))
            else: E[what].append((pre, ln, [src(lambda X: num(0))]))
sub_ops()
E['string_erase_pos'] = [E['string_erase_pos'],
    (lambda X: [le(X.n(1), X.size(0)), lt(X.size(0), add(X.n(1), X.n(2)))], N(1), [UPTO(N(1))])]
E['string_insert_pos_nc'] = [E['string_insert_pos_nc'], (lambda X: [lt(X.size(0), X.n(1))], PLUS(SZ(0), N(2)), [KEEP])]
E['string_insert_s'] = [E['string_insert_s'], (lambda X: [lt(X.size(0), X.n(1))], PLUS(SZ(0), SZ(2)), [KEEP, COPY(2, SZ(0))])]
E['string_append_cstr'] = (NONE, PLUS(SZ(0), SZ(1)), [KEEP, COPY(1, SZ(0))])
E['string_ctor_cstr'] = E['string_assign_cstr'] = E['string_eq_cstr'] = (NONE, SZ(1), [COPY(1)])
E['string_insert_cstr'] = [(lambda X: [le(X.n(1), X.size(0))], PLUS(SZ(0), SZ(2)), [INS(SZ(2), N(1)), COPY(2, N(1))])]
# operations that replace the whole contents in two steps: a failure may leave them valid but emptied
NOTSTRONG = ('memblock_read', 'string_read', 'string_assign_nc')

class X(object):
    def __init__(self, ent, args, st, objs):
        self.ent, self.args, self.st, self.objs = ent, args, st, objs
    def ob(self, i): return [o for o in self.objs if o['i'] == i][0]
    def size(self, i):
        if self.ent.toks[i] == 'cstr': return self.st.objs[T.single(self.args[i])]['strlen']
        o = self.ob(i)
        return o['size'] if 'size' in o else num(0)
    def n(self, i): return self.args[i]
    def ofs(self, i):
        p = self.ent.toks[i].split(':')
        return sub(self.args[i], self.ob(int(p[1]))['data'])
    def buf(self, i):
        """(base pointer, length) of the bytes argument i refers to"""
        for o in self.objs:
            if o['i'] == i: return (o['data'], o['size']) if o.get('buf') is not None else None
        p = self.ent.toks[i].split(':')
        if p[0] == 'cstr': return self.args[i], self.size(i)
        if p[0] == 'buf': return self.args[i], self.args[int(p[1])]
        return None

class CellEntry(Entry):
    """entry states refined by following one byte at a symbolic offset"""
    def states(self):
        op = self.name[2:]
        vs = E[op] if isinstance(E[op], list) else [E[op]]
        for vi, (pre, size, groups) in enumerate(vs):
          for args, st, objs, label in Entry.states(self):
            if vi: label += ' variant %d' % vi
            x = X(self, args, st, objs)
            st0 = [st]
            for c in pre(x):
                nxt = []
                for s in st0: nxt.extend(s.assume(c))
                st0 = nxt
            for s in st0:
                yield args, s.copy(), objs, label + ' size', ('size', x, size)
                for where, cases in groups:
                    b = x.buf(where)
                    if b is None: continue
                    for ci, (cond, place) in enumerate(cases):
                        s2 = s.copy()
                        k = self.count('k')
                        ss = s2.assume(T.ult(k, b[1]))
                        for c in cond(x, k):
                            nxt = []
                            for q in ss: nxt.extend(q.assume(q.norm(c)))
                            ss = nxt
                        for q in ss:
                            cell = sym('cell%d' % T._nid(), 8)
                            q.store(add(q.norm(b[0]), q.norm(k)), 1, cell)
                            yield args, q, objs, '%s byte of argument %d, case %d' % (label, where, ci), ('cell', x, cell, place(x, k), k, where)
    def run(self):
        for args, st, objs, label, goal in self.states():
            self.eng = e = Engine(self.m, self.c)
            init = st.copy()
            outs = e.run(self.name, [st.norm(a) for a in args], st)
            self.goal = goal
            yield e, outs, objs, label, init

def check_edit(ent, e, kind, s, objs, label, st, init):
    g = ent.goal
    ob = [o for o in objs if o['i'] == 0][0]
    if kind == 'throw': return []
    st['oblig'] += 1
    if g[0] == 'size':
        a = ent.rd(s, ob['o'], ob['cls'], 'size'); b = s.norm(g[2](g[1]))
        return [] if s.equal(a, b) else [('edit', 'size afterwards is %s instead of %s' % (a, b))]
    d = ent.rd(s, ob['o'], ob['cls'], 'data')
    v = s.load(add(d, s.norm(g[3])), 1, 'i8', e)
    if s.equal(v, g[2]): return []
    return [('edit', 'byte %s of argument %d is not found at offset %s afterwards' % (s.norm(g[4]), g[5], s.norm(g[3])))]

def check_edit_fail(ent, e, kind, s, objs, label, st, init):
    g = ent.goal
    if kind != 'throw' or g[0] != 'cell' or ent.name[2:] in NOTSTRONG: return []
    ob = [o for o in objs if o['i'] == g[5]]
    if not ob or ob[0]['role'] in ('new', 'del'): return []
    ob = ob[0]
    st['oblig'] += 1
    d = ent.rd(s, ob['o'], ob['cls'], 'data')
    v = s.load(add(d, s.norm(g[4])), 1, 'i8', e)
    if s.equal(v, g[2]): return []
    return [('allocfail', 'byte %s of argument %d changed although the operation failed' % (s.norm(g[4]), g[5]))]
