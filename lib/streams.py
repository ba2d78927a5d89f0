"""What each operation of the binary streams has to do, and the analysis that decides it.

For every operation: when a request fits, the position moves by exactly that much, and the bytes
move between stream and argument unchanged; when it does not fit, the stream records failure
(throwing when the failbit is enabled in exceptions()), and neither position nor data changes."""
import terms as T
from terms import num, add, sub, scale
from memcheck import *
from edits import le, lt, X, CellEntry

class SX(X):
    def pos(self, i): return self.ob(i)['pos']
    def rem(self, i): return sub(self.ob(i)['size'], self.ob(i)['pos'])
    def at(self, i): return add(self.ob(i)['data'], self.ob(i)['pos'])
    def data(self, i): return self.ob(i)['data']
    def arg(self, i):
        for o in self.objs:
            if o['i'] == i: return o['data']
        return self.args[i]
    def sizeof(self, i): return self.st.objs[T.single(self.args[i])]['size']
    def strlen(self, i): return self.st.objs[T.single(self.args[i])]['strlen']

def op(need, newpos=None, s=0, moves=(), fits=None, short=None, align=None, ret=None, typed=None, keep=True, other=None):
    return dict(need=need, newpos=newpos or (lambda X: add(X.pos(s), need(X))), s=s, moves=moves,
                fits=fits or (lambda X: [le(need(X), X.rem(s))]), short=short or (lambda X: [lt(X.rem(s), need(X))]),
                align=align, ret=ret, typed=typed, keep=keep, other=other or {})

N = lambda i: (lambda X: X.n(i))
ZERO = lambda X: num(0)
NEVER = lambda X: None
def seekto(newpos, fits, short): return op(ZERO, newpos, fits=fits, short=short)
Z = lambda X: num(0)
SZ = lambda i: (lambda X: X.size(i))
RDMOVE = lambda a, n, s=0: (lambda X: X.at(s), lambda X: X.arg(a), n)       # from stream s to argument a
WRMOVE = lambda a, n, s=0: (lambda X: X.arg(a), lambda X: X.at(s), n)

S = {
 'istream_ctor_os':    dict(ctor=1, size=lambda X: X.pos(1), pos=Z, data=lambda X: X.data(1)),
 'istream_ctor_cml':   dict(ctor=1, size=SZ(1), pos=Z, data=lambda X: X.data(1)),
 'istream_link':       dict(size=N(2), pos=Z, data=lambda X: X.arg(1)),
 'istream_link_cml':   dict(size=SZ(1), pos=Z, data=lambda X: X.data(1)),
 'istream_relink':     dict(size=N(2), pos=Z, data=lambda X: X.arg(1)),
 'istream_relink_cml': dict(size=SZ(1), pos=Z, data=lambda X: X.data(1)),
 'istream_unlink':     dict(size=Z, pos=Z, data=Z),
 'ostream_link':       dict(size=N(2), pos=Z, data=lambda X: X.arg(1)),
 'ostream_link_ml':    dict(size=SZ(1), pos=Z, data=lambda X: X.data(1)),
 'ostream_relink':     dict(size=N(2), pos=Z, data=lambda X: X.arg(1)),
 'ostream_relink_ml':  dict(size=SZ(1), pos=Z, data=lambda X: X.data(1)),
 'ostream_unlink':     dict(size=Z, pos=Z, data=Z),
 'istream_swap':       dict(size=SZ(1), pos=lambda X: X.pos(1), data=lambda X: X.data(1), size1=SZ(0), pos1=lambda X: X.pos(0), data1=lambda X: X.data(0)),
 'ostream_swap':       dict(size=SZ(1), pos=lambda X: X.pos(1), data=lambda X: X.data(1), size1=SZ(0), pos1=lambda X: X.pos(0), data1=lambda X: X.data(0)),
 'istream_read':       op(N(2), moves=[RDMOVE(1, N(2))]),
 'istream_read_ml':    op(SZ(1), moves=[RDMOVE(1, SZ(1))]),
 'istream_underflow':  op(N(1), newpos=lambda X: X.pos(0), ret=(lambda X: X.rem(0), lambda X: X.rem(0))),
 'istream_verify':     op(N(1), newpos=lambda X: X.pos(0), ret=(lambda X: num(1, 1), lambda X: num(0, 1))),
 'istream_write':      op(lambda X: X.rem(0), s=1, moves=[(lambda X: X.at(0), lambda X: X.at(1), lambda X: X.rem(0))], other={0: lambda X: X.pos(0)}),
 'ostream_write':      op(N(2), moves=[WRMOVE(1, N(2))]),
 'ostream_write_cml':  op(SZ(1), moves=[WRMOVE(1, SZ(1))]),
 'cmemlink_wr':        None,
 'ostream_write_strz': op(lambda X: add(X.strlen(1), num(1)), moves=[WRMOVE(1, lambda X: X.strlen(1))]),
 'ostream_write_os':   op(lambda X: X.pos(0), s=1, moves=[(lambda X: X.data(0), lambda X: X.at(1), lambda X: X.pos(0))], other={0: lambda X: X.pos(0)}),
 'ostream_read':       op(lambda X: X.rem(1), s=0, moves=[(lambda X: X.at(1), lambda X: X.at(0), lambda X: X.rem(1))], other={1: lambda X: X.size(1)}),
 'ostream_verify':     op(N(1), newpos=lambda X: X.pos(0), ret=(lambda X: num(1, 1), lambda X: num(0, 1))),
 'ostream_insert':     op(N(2), moves=[(lambda X: X.data(0), lambda X: X.data(0), lambda X: sub(X.n(1), X.data(0))),
                                       (lambda X: X.n(1), lambda X: add(X.n(1), X.n(2)), lambda X: sub(X.at(0), X.n(1)))], keep=False,
                          fits=lambda X: [le(X.n(2), X.rem(0)), le(X.n(1), X.at(0))]),
 'ostream_erase':      op(N(2), newpos=lambda X: sub(X.pos(0), X.n(2)), short=NEVER, fits=lambda X: [], keep=False,
                          moves=[(lambda X: X.data(0), lambda X: X.data(0), lambda X: sub(X.n(1), X.data(0))),
                                 (lambda X: add(X.n(1), X.n(2)), lambda X: X.n(1), lambda X: sub(X.at(0), add(X.n(1), X.n(2))))]),
}
del S['cmemlink_wr']
for c, a in (('istream', 'i'), ('ostream', 'o')):
    g = 'seekg' if c == 'istream' else 'seekp'
    end = (lambda X: sub(X.size(0), X.n(1)), lambda X: [le(X.n(1), X.size(0))], lambda X: [lt(X.size(0), X.n(1))])
    S[c + '_seek'] = S['%s_%s_beg' % (c, g)] = seekto(N(1), lambda X: [le(X.n(1), X.size(0))], lambda X: [lt(X.size(0), X.n(1))])
    S['%s_%s_cur' % (c, g)] = S[c + '_skip'] = S['mlo_%sskip' % a] = op(N(1), keep=True)
    S['%s_%s_back' % (c, g)] = seekto(lambda X: sub(X.pos(0), X.n(1)), lambda X: [le(X.n(1), X.pos(0))], lambda X: [lt(X.pos(0), X.n(1))])
    S['%s_%s_end' % (c, g)] = seekto(*end)
    S[c + '_iseek'] = seekto(lambda X: sub(X.n(1), X.data(0)), lambda X: [], NEVER)
    for nm, gr in (('1', 1), ('2', 2), ('4', 4), ('8', 8), ('16', 16), ('', 8)):
        S[c + '_align' + nm] = dict(op(ZERO), align=gr)
    S['mlo_%salign' % a] = dict(op(ZERO), align=8)
S['istream_ungetc'] = seekto(lambda X: sub(X.pos(0), num(1)), lambda X: [lt(num(0), X.pos(0))], lambda X: [le(X.pos(0), num(0))])
TYPES = ('bool', 'char', 'schar', 'uchar', 'short', 'ushort_', 'int', 'uint_', 'long', 'ulong_', 'llong', 'ullong', 'float', 'double', 'wchar_t')
for t in TYPES:
    for a in ('iread', 'rd'): S['istream_%s_%s' % (a, t)] = op(lambda X: X.sizeof(1), moves=[RDMOVE(1, lambda X: X.sizeof(1))], typed=t)
    for a in ('iwrite', 'wr'): S['ostream_%s_%s' % (a, t)] = op(lambda X: X.sizeof(1), moves=[WRMOVE(1, lambda X: X.sizeof(1))], typed=t)
# operations whose whole contract is the stream invariant
INV = ('istream_readsome', 'istream_read_strz', 'ostream_overflow')

def assume_all(st, conds):
    ss = [st]
    for c in conds:
        nxt = []
        for s in ss: nxt.extend(s.assume(c))
        ss = nxt
    return ss

class StreamEntry(Entry):
    def states(self):
        name = self.name[2:]
        d = S.get(name)
        streams = [i for i, t in enumerate(self.toks) if t in ('istream', 'ostream')]
        aligns = range(d['align']) if d and d.get('align') else [None]
        for exc in (0, 7):
          for args, st, objs, label in Entry.states(self):
            for ob in objs:
                if ob['role'] == 'arg' and ob['cls'] in ('istream', 'ostream'):
                    self.fld(st, ob['o'], ob['cls'], 'state', num(0, 16)); self.fld(st, ob['o'], ob['cls'], 'exc', num(exc, 16))
            lab = '%s exceptions=%d' % (label, exc)
            for al in aligns:
                s0 = st.copy(); ob2 = [dict(o) for o in objs]
                x = SX(self, args, s0, ob2)
                if al is not None:
                    g = d['align']
                    ob = [o for o in ob2 if o['i'] == 0][0]
                    p = add(scale(self.count('q'), g), num(al))
                    ss = s0.assume(T.ult(ob['size'], p), False)
                    if not ss: continue
                    s0 = ss[0]; self.fld(s0, ob['o'], ob['cls'], 'pos', p); ob['pos'] = p
                    pad = num((g - al) % g)
                    dd = dict(d, need=lambda X: pad, newpos=lambda X: add(X.pos(0), pad), fits=lambda X: [le(pad, X.rem(0))], short=(lambda X: [lt(X.rem(0), pad)]) if al else NEVER)
                else: dd = d
                if dd is None or 'need' not in dd:
                    yield args, s0, ob2, lab, ('inv', x, dd); continue
                l2 = lab + (' residue %d' % al if al is not None else '')
                for q in assume_all(s0.copy(), dd['fits'](x)):
                    yield args, q.copy(), ob2, l2 + ' fits', ('fits', x, dd, None)
                    for mi, (src, dst, n) in enumerate(dd['moves']):
                        if dd['typed']:
                            q2 = q.copy(); z = n(x).k
                            c = sym('cell%d' % T._nid(), 8 * z) if dd['typed'] != 'bool' else T.zext(sym('cellb%d' % T._nid(), 1), 8)
                            q2.store(q2.norm(src(x)), z, c); cells = [(num(0), c)]
                            yield args, q2, ob2, l2 + ' fits bytes', ('fits', x, dd, (cells, dst))
                        else:
                            q2 = q.copy(); k = self.count('k')
                            for q3 in q2.assume(T.ult(k, n(x))):
                                c = sym('cell%d' % T._nid(), 8)
                                q3.store(add(q3.norm(src(x)), k), 1, c)
                                yield args, q3, ob2, l2 + ' fits byte of range %d' % mi, ('fits', x, dd, ([(k, c)], dst))
                    # bytes outside the range are not touched
                    if self.toks[dd['s']] == 'ostream' and dd['keep']:
                        for side in (0, 1):
                            q2 = q.copy(); k = self.count('k')
                            cs = [lt(k, x.pos(dd['s']))] if not side else [lt(k, x.size(dd['s'])), le(add(x.pos(dd['s']), dd['need'](x)), k)]
                            for q3 in assume_all(q2, cs):
                                c = sym('cell%d' % T._nid(), 8)
                                q3.store(add(x.data(dd['s']), k), 1, c)
                                yield args, q3, ob2, l2 + ' fits byte outside', ('fits', x, dd, ([(k, c)], lambda X, dd=dd: X.data(dd['s'])))
                sh = dd['short'](x)
                if sh is None: continue
                for q in assume_all(s0.copy(), sh):
                    yield args, q.copy(), ob2, l2 + ' short', ('short', x, dd, exc, None)
                    if self.toks[dd['s']] == 'ostream':
                        q2 = q.copy(); k = self.count('k')
                        for q3 in q2.assume(T.ult(k, x.size(dd['s']))):
                            c = sym('cell%d' % T._nid(), 8)
                            q3.store(add(x.data(dd['s']), k), 1, c)
                            yield args, q3, ob2, l2 + ' short byte', ('short', x, dd, exc, ([(k, c)], lambda X, dd=dd: X.data(dd['s'])))
    def run(self):
        for args, st, objs, label, goal in self.states():
            self.eng = e = Engine(self.m, self.c)
            init = st.copy()
            outs = e.run(self.name, [st.norm(a) for a in args], st)
            self.goal = goal
            yield e, outs, objs, label, init

def check_stream(ent, e, kind, s, objs, label, st, init):
    g = ent.goal; x = g[1]; d = g[2]
    out = []
    def bad(m): out.append(('stream', m))
    def same(what, a, b):
        st['oblig'] += 1
        b = s.norm(b)
        if not s.equal(s.norm(a), b): bad('%s is %s, expected %s' % (what, s.norm(a), b))
    # invariant: the position never passes the end
    for ob in objs:
        if ob['cls'] not in ('istream', 'ostream') or ob['role'] == 'del' or (ob['role'] == 'new' and kind == 'throw'): continue
        p = ent.rd(s, ob['o'], ob['cls'], 'pos'); z = ent.rd(s, ob['o'], ob['cls'], 'size')
        st['oblig'] += 1
        if not s.ule(p, z): bad('position %s is not known to be within the stream of %s bytes' % (p, z))
    def fld(i, f):
        ob = [o for o in objs if o['i'] == i][0]
        return ent.rd(s, ob['o'], ob['cls'], f)
    if g[0] == 'inv':
        if d is None or kind == 'throw': return out
        for f in ('size', 'pos', 'data'):
            if f in d: same(f + ' afterwards', fld(0, f), d[f](x))
            if f + '1' in d: same(f + ' of the other stream', fld(1, f), d[f + '1'](x))
        return out
    i = d['s']
    same('size of the stream afterwards', fld(i, 'size'), x.size(i)); same('data pointer afterwards', fld(i, 'data'), x.data(i))
    if g[0] == 'fits':
        if kind == 'throw': bad('the request fits, but an exception is thrown'); return out
        same('position afterwards', fld(i, 'pos'), d['newpos'](x))
        same('state after success', fld(i, 'state'), num(0, 16))
        if d['ret']: same('result', e.lastret, d['ret'][0](x)) if e.lastret is not None else bad('no result')
        if g[3]:
            cells, dst = g[3]
            for k, c in cells:
                st['oblig'] += 1
                v = s.load(add(s.norm(dst(x)), s.norm(k)), c.w // 8, 'i%d' % c.w, e)
                if not s.equal(v, c): bad('byte %s of the data is not in its place afterwards (%s)' % (s.norm(k), s.norm(v)))
        for j, f in d['other'].items(): same('position of the other stream', fld(j, 'pos'), f(x))
    else:
        same('position after a refused request', fld(i, 'pos'), x.pos(i))
        st['oblig'] += 1
        v = fld(i, 'state')
        if not s.proves(T.b_not(T.eq(T.binop('and', v, num(4, 16)), num(0, 16)))): bad('failbit is not set although the request does not fit')
        st['oblig'] += 1
        if (kind == 'throw') != bool(g[3]): bad('%s although the request does not fit and exceptions() is %d' % ('an exception is thrown' if kind == 'throw' else 'no exception is thrown', g[3]))
        if kind != 'throw' and d['ret']: same('result', e.lastret, d['ret'][1](x))
        if g[4]:
            cells, dst = g[4]
            for k, c in cells:
                st['oblig'] += 1
                v = s.load(add(s.norm(dst(x)), s.norm(k)), c.w // 8, 'i%d' % c.w, e)
                if not s.equal(v, c): bad('a refused request changed the data')
        for j, f in d['other'].items():
            if j != i and kind == 'throw': same('position of the other stream', fld(j, 'pos'), x.pos(j))
    return out
