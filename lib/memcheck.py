"""Heap-ownership and block-bounds analysis of the memory classes.

For every probe the entry state of each object argument is enumerated over the
class invariant's cases (empty / linked to foreign memory / owning a heap block)
with symbolic sizes; the interpreter then follows every path, and at every exit
(normal or exceptional) the invariant and the ownership balance are checked."""
import terms as T
from terms import num, sym, fresh, add, sub, scale
from absint import *

BIG = 1 << 46

class Heap(Client):
    """heap model with typestate live/freed per block and bounds on tracked blocks"""
    def __init__(self):
        self.nalloc = 0; self.nfree = 0; self.naccess = 0; self.nproved = 0
        self.inputs = set()
        self.bounds = True
        self.utf8_contract = True
        self.track = False        # follow the contents of data buffers
    # --- heap objects -------------------------------------------------------
    def is_opaque(self, name, dem):
        # the backtrace recorded inside every exception object is analysed on its own
        return dem.startswith('ustl::CBacktrace::')
    def new_block(self, st, n, why):
        o = T.obj('heap:%s@%d' % (why, T._nid()))
        a = T.single(o)
        st.objs[a] = {'kind': 'heap', 'size': st.norm(n)}
        st.ts[a] = 'live'
        if self.track: st.track(a, ('undef',))
        self.nalloc += 1
        return o
    def call(self, e, name, dem, args, st, ins):
        if name in ('malloc', 'calloc', 'realloc', 'free', 'strdup', '_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'tmalloc', 'nfree', 'nfreen'):
            return self.heapcall(e, name, args, st, ins)
        if name == 'strlen':
            b, off = st.base(args[0])
            n = st.objs.get(b, {}).get('strlen') if b is not None else None
            if n is not None and off.const and off.k == 0: return [('ret', n, st)]
            G = e.m.globals.get(b.args[0]) if b is not None and b.op == 'glob' else None
            if G and G.get('const') and G.get('bytes') and off.const:
                z = bytes.fromhex(G['bytes'])
                if off.k <= len(z) and z.find(0, off.k) >= 0: return [('ret', num(z.find(0, off.k) - off.k), st)]
            return [('ret', T.of(T.atom('strlen', (st.norm(args[0]), T._nid()), 64, False, {'range': (0, BIG)})), st)]
        if dem == 'ustl::Utf8SequenceBytes(wchar_t)' and self.utf8_contract:
            # contract, checked on its own by probe utf8_sequence_bytes
            return [('ret', T.of(T.atom('utf8n', (st.norm(args[0]),), 64, False, {'range': (1, 8)})), st)]
        if self.utf8_contract and args and isinstance(args[-1], Lin) and not st.norm(args[-1]).const:
            # the encoder, decided by U01: writes Utf8Bytes (v) bytes at the iterator and moves it past them
            if dem == 'ustl::Utf8Bytes(wchar_t)': return [('ret', self.utf8len(st, args[0]), st)]
            if dem == 'ustl::utf8out_iterator<char*, wchar_t>::operator=(wchar_t)':
                n = self.utf8len(st, args[1]); p = st.load(args[0], 8, 'ptr', e)
                self.access(e, 'write', p, n, st, ins); self.rocheck(e, p, st, ins)
                st.havoc_range(p, n)
                st.store(args[0], 8, add(p, n))
                return [('ret', args[0], st)]
        if dem.startswith('ustl::CBacktrace::'): return [('ret', default_ret(ins, 'bt'), st)]
        return None
    def utf8len(self, st, v): return T.of(T.atom('utf8bytes', (st.norm(v),), 64, False, {'range': (1, 7)}))
    def heapcall(self, e, name, args, st, ins):
        if name in ('_Znwm', '_Znam', 'tmalloc'):
            s2 = st.copy()
            return [('ret', self.new_block(st, args[0], 'new'), st), ('throw', 'bad_alloc', s2)]
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'nfree', 'nfreen', 'free'):
            return self.free(e, args[0], st, ins, name)
        if name == 'malloc' or name == 'calloc':
            n = args[0] if name == 'malloc' else T.binop('mul', args[0], args[1])
            s2 = st.copy()
            return [('ret', self.new_block(st, n, 'malloc'), st), ('ret', num(0), s2)]
        if name == 'strdup':
            s2 = st.copy()
            return [('ret', self.new_block(st, fresh('strdup.size'), 'strdup'), st), ('ret', num(0), s2)]
        if name == 'realloc':
            out = []
            p, n = args
            s0 = st.copy()
            for s in s0.assume(T.eq(s0.norm(p), num(0)), True):
                f = s.copy()
                out.append(('ret', self.new_block(s, n, 'realloc'), s))
                out.append(('ret', num(0), f))
            for s in st.assume(T.eq(st.norm(p), num(0)), False):
                b, off = s.base(p)
                if b is None or b not in s.objs or b not in s.ts or not (off.const and off.k == 0):
                    e.report('ownership', 'realloc of memory this object does not own (%s)' % s.norm(p), ins)
                    continue
                if s.ts[b] != 'live':
                    e.report('ownership', 'realloc of a block that was already freed', ins); continue
                # zero size: frees and returns null (glibc) ; fail: block kept ; success: moved
                z = s.copy()
                for q in z.assume(T.eq(z.norm(n), num(0)), True):
                    q.ts[b] = 'freed'; out.append(('ret', num(0), q))
                for q in s.assume(T.eq(s.norm(n), num(0)), False):
                    f = q.copy()
                    out.append(('ret', num(0), f))
                    nb = self.new_block(q, n, 'realloc')
                    q.ts[b] = 'freed'
                    # contents up to the smaller size move along
                    nbA = T.single(nb)
                    q.mem[nbA] = {}
                    if b in q.chain:
                        osz = q.objs[b]['size']
                        keep = osz if q.ule(osz, n) else n if q.ule(n, osz) else None
                        q.chain[nbA] = ('cp', ('undef',), num(0), keep, q.chain[b], b, num(0)) if keep is not None else ('top',)
                    for o, (sz, v) in q.mem.get(b, {}).items():
                        if q.ule(add(o, num(sz)), n): q.mem[nbA][o] = (sz, v)
                    out.append(('ret', nb, q))
            return out
    def free(self, e, p, st, ins, name):
        out = []
        s0 = st.copy()
        for s in s0.assume(T.eq(s0.norm(p), num(0)), True): out.append(('ret', None, s))
        for s in st.assume(T.eq(st.norm(p), num(0)), False):
            self.nfree += 1
            b, off = s.base(p)
            if b is not None and s.objs.get(b, {}).get('exc'): out.append(('ret', None, s)); continue
            if b is None or b not in s.ts or not (off.const and off.k == 0):
                e.report('ownership', '%s of memory this object does not own (%s)' % ('free' if name == 'free' else 'delete', s.norm(p)), ins)
                continue
            if s.ts[b] != 'live':
                e.report('ownership', 'block released twice', ins); continue
            s.ts[b] = 'freed'
            s.mem.pop(b, None)
            out.append(('ret', None, s))
        return out
    # --- bounds -------------------------------------------------------------
    def region(self, b, st):
        o = st.objs.get(b)
        if o is None: return None
        return o.get('size')
    def access(self, e, what, p, n, st, ins):
        p = st.norm(p); n = st.norm(n)
        if n.const and n.k == 0: return
        self.naccess += 1
        b, off = st.base(p)
        if b is None:
            if p.const:
                if not st.proves(T.eq(n, num(0))):
                    e.report('null', '%s through a null pointer' % what, ins)
            return
        if b in st.ts and st.ts[b] == 'freed':
            e.report('ownership', '%s of a block after it was released' % what, ins); return
        size = self.region(b, st)
        if size is None: return
        if st.objs[b].get('kind') == 'alloca' : 
            if not n.const or not off.const: pass
        if st.proves(T.eq(n, num(0))): self.nproved += 1; return
        # off <= size and n <= size - off
        if st.ule(off, size) and (st.ule(n, sub(size, off))):
            self.nproved += 1; return
        e.report('bounds', '%s of %s bytes at offset %s of a block of %s bytes' % (what, n, off, st.norm(size)), ins)
    def load(self, e, p, size, st, ins): self.access(e, 'read', p, num(size), st, ins)
    def store(self, e, p, size, v, st, ins):
        self.access(e, 'write', p, num(size), st, ins)
        self.rocheck(e, p, st, ins)
    def rocheck(self, e, p, st, ins, n=None):
        b, off = st.base(p)
        if b is not None and st.objs.get(b, {}).get('ro'):
            if n is not None and st.proves(T.eq(st.norm(n), num(0))): return
            e.report('ownership', 'write into memory that was passed in as read-only', ins)
    def memop(self, e, kind, d, s, n, st, ins):
        if kind == 'rotate':
            self.access(e, 'rotate', d, n, st, ins); self.rocheck(e, d, st, ins, n); return
        if kind != 'memset': self.access(e, 'read', s, n, st, ins)
        self.access(e, 'write', d, n, st, ins)
        self.rocheck(e, d, st, ins, n)

def probes(mod, prefix=''):
    out = []
    for n, f in sorted(mod.fns.items()):
        if n.startswith('P_' + prefix) and not f.get('decl'):
            g = mod.globals.get('S_' + n[2:])
            spec = bytes.fromhex(g['bytes']).rstrip(b'\0').decode() if g else ''
            out.append((n, spec))
    return out

class Layouts(object):
    """object layouts learnt from constructors and public observers"""
    def __init__(self, mod):
        self.mod = mod; self.vt = {}; self.off = {}; self.size = {}; self.ctorstate = {}
    def get(self, cls):
        if cls in self.vt: return
        m = self.mod
        c = Heap()
        e = Engine(m, c)
        st = State()
        o = T.obj('layout:' + cls)
        st.objs[T.single(o)] = {'kind': 'heap', 'size': num(1 << 20)}
        outs = [x for x in e.run('C_' + cls, [o], st) if x[0] == 'ret']
        if len(outs) < 1: raise Limit('constructor of %s does not return' % cls)
        s = outs[0][2]
        self.ctorstate[cls] = s
        vts = {}
        for off, (sz, v) in s.mem.get(T.single(o), {}).items():
            if off.const and isinstance(v, Lin) and len(v.items) == 1 and v.items[0][0].op == 'glob' and v.items[0][0].args[0].startswith('_ZTV'):
                vts[off.k] = v
        self.vt[cls] = vts
        z = m.globals.get('Z_' + cls)
        self.size[cls] = int.from_bytes(bytes.fromhex(z['bytes']), 'little') if z else None
        offs = {}
        for n in m.fns:
            if n.startswith('A_' + cls + '_'):
                e = Engine(m, Heap()); st = State()
                o = T.obj('layout2:' + cls)
                st.objs[T.single(o)] = {'kind': 'input'}
                outs = e.run(n, [o], st)
                if len(outs) == 1 and outs[0][0] == 'ret':
                    a = T.single(outs[0][1])
                    if a is not None and a.op == 'init' and a.args[1].const: offs[n[len('A_' + cls + '_'):]] = (a.args[1].k, a.args[2])
        self.off[cls] = offs

def subobj(lay, cls, part):
    """offset of the member of class `part` inside class `cls`, learnt from the constructor"""
    lay.get(cls)
    vt = '_ZTVN4ustl%d%sE' % (len(part), part)
    for off, v in sorted(lay.vt[cls].items()):
        if v.items[0][0].args[0] == vt: return off
    raise Limit('no %s inside %s' % (part, cls))

MANAGED = {'memblock': 0, 'string': 1}


class Entry(object):
    """one probe run: builds the entry states from the spec and checks the exits"""
    def __init__(self, mod, lay, name, spec, client):
        self.m, self.lay, self.name, self.c = mod, lay, name, client
        self.toks = spec.split()
        self.hi = BIG
        if self.toks and self.toks[0] == '@4g': self.hi = (1 << 32) - 16; del self.toks[0]
        if self.toks and self.toks[0] == '@512m': self.hi = 1 << 29; del self.toks[0]
        self.nonempty = False
        if self.toks and self.toks[0] == '@ne': self.nonempty = True; del self.toks[0]
        if self.toks and self.toks[0] == '@2g': self.hi = (1 << 31) - 16; del self.toks[0]
    def states(self):
        """generator of (args, state, objs, label)"""
        # enumerate cases for objects
        cases = [[]]
        for t in self.toks:
            cl = t.split(':')
            if cl[0] in MANAGED or cl[0] == 'vec' or (cl[0] == 'del' and cl[1] in tuple(MANAGED) + ('vec',)): opts = ['empty', 'linked', 'owned']
            elif cl[0] == 'unowned': opts = ['empty', 'linked']
            elif cl[0] in ('memlink', 'cmemlink'): opts = ['empty', 'linked']
            else: opts = ['-']
            cases = [c + [o] for c in cases for o in opts]
        for case in cases:
            r = self.build(case)
            if r is None: continue
            if self.nonempty:
                ob = r[2][0]
                if ob['case'] == 'empty': continue
                ss = r[1].assume(T.eq(ob['size'], num(0)), False)
                if not ss: continue
                r = (r[0], ss[0], r[2], r[3])
            yield r
    def fld(self, st, o, cls, f, v):
        off, sz = self.lay.off[cls][f]
        st.store(add(o, num(off)), sz, v)
    def rd(self, st, o, cls, f):
        off, sz = self.lay.off[cls][f]
        return st.norm(st.load(add(o, num(off)), sz, 'ptr' if f == 'data' else 'i%d' % (8 * sz), self.eng))
    def count(self, nm):
        return sym(nm + '%d' % T._nid(), 64, False, {'range': (0, self.hi)})
    def build(self, case):
        st = State()
        args, objs = [], []
        later = []
        c0 = num(0)
        for i, (t, cs) in enumerate(zip(self.toks, case)):
            p = t.split(':')
            k = p[0]
            vec, z, voff, ocls = None, 1, 0, None
            if 'vec' in p:
                vec = 'vec_' + p[p.index('vec') + 1]
                voff = subobj(self.lay, vec, 'memblock'); self.lay.get('memblock')
                z = int.from_bytes(bytes.fromhex(self.m.globals['Z_' + p[p.index('vec') + 1]]['bytes']), 'little')
                ocls = vec
                p = p[:p.index('vec')] + ['memblock'] + p[p.index('vec') + 2:]
                k = p[0]
                self.z = z
            if k in ('new',):
                cls = p[1]; self.lay.get(cls)
                o = T.obj('arg%d:%s' % (i, ocls or cls)); a = T.single(o)
                st.objs[a] = {'kind': 'heap', 'size': num(self.lay.size[ocls or cls])}
                args.append(o); objs.append({'o': add(o, num(voff)), 'cls': cls, 'role': 'new', 'i': i, 'case': cs})
            elif k in MANAGED or k in ('del', 'unowned', 'memlink', 'cmemlink', 'istream', 'ostream'):
                cls = p[1] if k in ('del', 'unowned') else k
                self.lay.get(cls)
                o = T.obj('arg%d:%s' % (i, ocls or cls)); a = T.single(o)
                st.objs[a] = {'kind': 'input', 'size': num(self.lay.size[ocls or cls])}
                for off, v in self.lay.vt[ocls or cls].items(): st.store(add(o, num(off)), 8, v)
                whole = o
                o = add(o, num(voff))
                info = {'o': o, 'cls': cls, 'role': 'del' if k == 'del' else 'arg', 'i': i, 'case': cs}
                extra = MANAGED.get(cls, 0)
                if cs == 'empty':
                    data, size, cap = c0, c0, c0
                else:
                    cnt = self.count('size%d_' % i)
                    info['count'] = cnt
                    size = scale(cnt, z)
                    buf = T.obj('buf%d' % T._nid()); b = T.single(buf)
                    info['buf'] = b
                    if cs == 'owned':
                        # cap = size + extra + slack
                        cap = add(size, add(self.count('slack%d_' % i), num(extra)))
                        nz = st.assume(T.eq(cap, c0), False)
                        st.objs[b] = {'kind': 'heap', 'size': cap}
                        st.ts[b] = 'live'
                        if extra: st.store(add(buf, size), 1, num(0, 8))
                    else:
                        cap = c0
                        st.objs[b] = {'kind': 'input', 'size': add(size, num(extra)), 'ro': cls in MANAGED or cls in ('cmemlink', 'istream')}
                    data = buf
                self.fld(st, o, cls, 'data', data); self.fld(st, o, cls, 'size', size)
                if 'capacity' in self.lay.off[cls]: self.fld(st, o, cls, 'capacity', cap)
                if 'pos' in self.lay.off[cls]:
                    pos = self.count('pos%d_' % i)
                    st.assume(T.ult(size, pos), False)
                    self.fld(st, o, cls, 'pos', pos)
                    info['pos'] = pos
                info.update(size=size, cap=cap, data=data, z=z)
                args.append(whole); objs.append(info)
            elif k == 'n':
                args.append(self.count('n%d_' % i))
            elif k == 'q': args.append(scale(self.count('q%d_' % i), 8))
            elif k == 'b':
                args.append(sym('b%d_%d' % (i, T._nid()), 1))
            elif k == 'ch': args.append(sym('c%d_%d' % (i, T._nid()), 8))
            elif k == 'i32': args.append(sym('i%d_%d' % (i, T._nid()), 32))
            elif k == 'i64': args.append(sym('i%d_%d' % (i, T._nid()), 64))
            elif k in ('out', 'in', 'cell'):        # one object of a plain type
                z = self.m.globals.get('Z_' + p[1])
                o = T.obj('%s%d:%s' % (k, i, p[1]))
                st.objs[T.single(o)] = {'kind': 'input', 'size': num(int.from_bytes(bytes.fromhex(z['bytes']), 'little')), 'ro': k == 'in', 'cell': k == 'cell'}
                z = self.m.globals.get('G_' + p[1])
                if z: st.objs[T.single(o)]['grain'] = int.from_bytes(bytes.fromhex(z['bytes']), 'little')
                args.append(o)
            elif k in ('buf', 'wbuf', 'heap', 'it', 'vit', 'wr', 'heapml', 'cstr'):
                args.append(None); later.append((i, k, p))
            else: raise Limit('spec ' + t)
        for i, k, p in later:
            if k in ('buf', 'wbuf', 'heap'):
                n = args[int(p[1])]
                o = T.obj('%s%d@%d' % (k, i, T._nid())); b = T.single(o)
                if k == 'heap': st.assume(T.eq(n, num(0)), False)
                st.objs[b] = {'kind': 'input' if k != 'heap' else 'heap', 'size': scale(n, int(p[2]) if len(p) > 2 else 1), 'ro': k == 'buf'}
                if k == 'heap': st.ts[b] = 'live'
                args[i] = o
            elif k == 'cstr':
                n = self.count('strlen%d_' % i)
                o = T.obj('cstr%d@%d' % (i, T._nid())); b = T.single(o)
                st.objs[b] = {'kind': 'input', 'size': add(n, num(1)), 'ro': True, 'strlen': n}
                args[i] = o
            elif k == 'heapml':
                cls = 'memlink'; self.lay.get(cls)
                o = T.obj('arg%d:%s' % (i, cls)); a = T.single(o)
                st.objs[a] = {'kind': 'input', 'size': num(self.lay.size[cls])}
                for off, v in self.lay.vt[cls].items(): st.store(add(o, num(off)), 8, v)
                size = self.count('size%d_' % i)
                buf = T.obj('heapml%d' % T._nid()); b = T.single(buf)
                st.objs[b] = {'kind': 'heap', 'size': size}; st.ts[b] = 'live'
                st.assume(T.eq(size, num(0)), False)
                self.fld(st, o, cls, 'data', buf); self.fld(st, o, cls, 'size', size)
                args[i] = o
            elif k in ('it', 'vit', 'wr'):
                ob = [x for x in objs if x['i'] == int(p[1])][0]
                d = self.count('ofs%d_' % i)
                end = ob['pos'] if k == 'wr' else ob['size']
                z = ob['z'] if k == 'vit' else 1
                d = scale(d, z)
                # data + d with d (+ n) <= size
                if len(p) > 2:
                    n = scale(args[int(p[2])], z)
                    if not st.assume(T.ult(end, n), False): return None
                    r = st.assume(T.ult(sub(end, n), d), False)
                else: r = st.assume(T.ult(end, d), False)
                if not r: return None
                st = r[0]
                args[i] = add(ob['data'], d)
        return args, st, objs, ','.join(c for c in case if c != '-')
    def run(self):
        """yields (kind, state, objs, label, engine, initial)"""
        for args, st, objs, label in self.states():
            self.eng = e = Engine(self.m, self.c)
            init = st.copy(); self.args = args
            outs = e.run(self.name, [st.norm(a) for a in args], st)
            yield e, outs, objs, label, init

def check_ownership(ent, e, kind, st, objs, label, stats):
    """class invariant and ownership balance at one exit"""
    probs = []
    states = [(st, [])]
    for ob in objs:
        if ob['cls'] not in MANAGED: continue
        if ob['role'] == 'del': continue
        if ob['role'] == 'new' and kind == 'throw': continue
        nxt = []
        for s, owned in states:
            cap = ent.rd(s, ob['o'], ob['cls'], 'capacity')
            s2 = s.copy()
            for q in s.assume(T.eq(cap, num(0)), True): nxt.append((q, owned))
            for q in s2.assume(T.eq(s2.norm(cap), num(0)), False):
                data = ent.rd(q, ob['o'], ob['cls'], 'data'); size = ent.rd(q, ob['o'], ob['cls'], 'size')
                b, off = q.base(data)
                stats['oblig'] += 3
                if b is None or b not in q.ts or not (off.const and off.k == 0):
                    probs.append(('ownership', 'capacity is non-zero but the data pointer is not a heap block this object may free (%s)' % data)); continue
                if q.ts[b] != 'live': probs.append(('ownership', 'object still refers to a released block')); continue
                if b in owned: probs.append(('ownership', 'two objects own the same block'))
                if not q.ule(q.norm(cap), q.objs[b]['size']): probs.append(('bounds', 'capacity %s exceeds the %s bytes allocated' % (q.norm(cap), q.norm(q.objs[b]['size']))))
                if not q.ule(add(size, num(MANAGED[ob['cls']])), q.norm(cap)): probs.append(('bounds', 'size %s (+%d) exceeds capacity %s' % (size, MANAGED[ob['cls']], q.norm(cap))))
                if MANAGED[ob['cls']]:
                    stats['oblig'] += 1
                    v = q.load(add(data, size), 1, 'i8', ent.eng)
                    if not q.equal(v, num(0, 8)): probs.append(('terminator', 'the character at data()[size()] is not known to be zero (%s)' % q.norm(v)))
                nxt.append((q, owned + [b]))
        states = nxt
    for s, owned in states:
        owned = list(owned)
        for b, o in s.objs.items():
            if o.get('exc'):
                for off, (sz, v) in s.mem.get(b, {}).items():
                    if sz == 8 and isinstance(v, Lin): owned.append(s.base(v)[0])
        for b, t in s.ts.items():
            if not isinstance(b, T.Atom): continue
            stats['oblig'] += 1
            if t == 'live' and b not in owned:
                probs.append(('ownership', 'block %s is leaked: no object owns it any more' % b))
    return probs
