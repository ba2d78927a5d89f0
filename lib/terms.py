"""Canonical terms for the abstract interpreter: every SSA value is a linear
combination (modulo 2^width) of interned atoms.  Equality of terms is identity."""
import math

class Atom(object):
    __slots__ = ('op', 'args', 'w', 'id', 'ptr', 'info', '_h')
    def __repr__(self):
        return fmt_atom(self)

class Lin(object):
    __slots__ = ('w', 'k', 'items', 'id')
    def __repr__(self):
        return fmt(self)
    @property
    def const(self):
        return not self.items

_atoms = {}
_lins = {}
_n = [0]

def _nid():
    _n[0] += 1
    return _n[0]

def atom(op, args, w, ptr=False, info=None):
    key = (op, args, w)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.op, a.args, a.w, a.ptr, a.info, a.id = op, args, w, ptr, info, _nid()
        _atoms[key] = a
    elif ptr and not a.ptr:
        a.ptr = True
    return a

def _sgn(c, w):
    c &= (1 << w) - 1
    if w > 1 and c >> (w - 1):
        c -= 1 << w
    return c

def mk(w, k, items):
    """items: dict atom -> coef"""
    k &= (1 << w) - 1
    it = tuple(sorted(((a, _sgn(c, w)) for a, c in items.items() if c & ((1 << w) - 1)), key=lambda x: x[0].id))
    key = (w, k, it)
    l = _lins.get(key)
    if l is None:
        l = Lin()
        l.w, l.k, l.items, l.id = w, k, it, _nid()
        _lins[key] = l
    return l

def num(k, w=64):
    return mk(w, k, {})

def of(a):
    return mk(a.w, 0, {a: 1})

def sym(name, w=64, ptr=False, info=None):
    return of(atom('sym', (name,), w, ptr, info))

_fresh = [0]
def fresh(prefix, w=64, ptr=False, info=None):
    _fresh[0] += 1
    return sym('%s#%d' % (prefix, _fresh[0]), w, ptr, info)

def obj(name, info=None):
    return of(atom('obj', (name,), 64, True, info))

def glob(name):
    return of(atom('glob', (name,), 64, True))

def add(a, b, kb=1):
    d = dict(a.items)
    for x, c in b.items:
        d[x] = d.get(x, 0) + c * kb
    return mk(a.w, a.k + b.k * kb, d)

def sub(a, b):
    return add(a, b, -1)

def scale(a, c):
    return mk(a.w, a.k * c, dict((x, y * c) for x, y in a.items))

def neg(a):
    return scale(a, -1)

def single(a):
    """the atom if the term is exactly one atom"""
    if a.k == 0 and len(a.items) == 1 and a.items[0][1] == 1:
        return a.items[0][0]
    return None

def app(op, args, w):
    return of(atom(op, tuple(args), w))

TRUE = num(1, 1)
FALSE = num(0, 1)

def b_not(x):
    return mk(1, x.k + 1, dict(x.items))

def boolform(x):
    """x: Lin of width 1 -> (atom, polarity) or constant bool"""
    if x.const:
        return bool(x.k)
    if len(x.items) == 1:
        return (x.items[0][0], x.k == 0)
    return (atom('bmix', (x,), 1), True)

def b_and(x, y):
    if x is FALSE or y is FALSE: return FALSE
    if x is TRUE: return y
    if y is TRUE: return x
    if x is y: return x
    if x is b_not(y): return FALSE
    cs = set(conj(x)) | set(conj(y))
    if len(cs) > 16:
        if x.id > y.id: x, y = y, x
        return app('and1', (x, y), 1)
    for c in cs:
        if b_not(c) in cs: return FALSE
    cs = sorted(cs, key=lambda c: c.id)
    r = cs[-1]
    for c in cs[-2::-1]: r = app('and1', (c, r), 1)
    return r

def conj(x):
    s = single(x)
    return conj(s.args[0]) + conj(s.args[1]) if s is not None and s.op == 'and1' else [x]

def b_or(x, y):
    return b_not(b_and(b_not(x), b_not(y)))

# ---- values made of disjoint bit fields: k + sum of 2^s * zext(f) -------------------------------
def fields(x):
    """(constant, [(shift, width, f)]) when the terms occupy disjoint bits, otherwise None"""
    w = x.w; m = (1 << w) - 1
    fs = []; used = x.k
    for a, c in x.items:
        c &= m
        if c & (c - 1):
            # one field repeated
            if a.op != 'zext' or a.args[0].w == 1 or bin(c).count('1') > 8: return None
            f = a.args[0]
            for s in range(w):
                if not c >> s & 1: continue
                n = min(f.w, w - s)
                b = ((1 << n) - 1) << s
                if used & b: return None
                used |= b
                fs.append((s, n, f))
            continue
        s = c.bit_length() - 1
        f = a.args[0] if a.op == 'zext' else of(a)
        n = min(f.w, w - s)
        if f.w > 1: n = min(n, max(1, _bounds(f)[1].bit_length()))
        if n < f.w and a.op != 'zext' and s == 0 and len(x.items) == 1 and not x.k: n = f.w
        b = ((1 << n) - 1) << s
        if used & b: return None
        used |= b
        fs.append((s, n, f))
    return x.k, fs

def fieldy(x):
    """worth treating as bit fields"""
    n = 0
    for a, c in x.items:
        if a.op == 'zext': n += 1 if a.args[0].w == 1 or len(x.items) > 1 or x.k or c != 1 else 0
        elif a.op not in ('lshr', 'sym', 'init', 'trunc') or len(x.items) == 1: return False
    return n > 0

def cut(f, lo, n):
    """bits lo .. lo+n-1 of f as a term of width n; None when that splits an opaque value inconveniently"""
    if lo == 0 and n == f.w: return f
    if f.const: return num(f.k >> lo, n)
    if fieldy(f):
        r = fields(f)
        if r is not None: return seg(r, lo, n)
    s = single(f)
    if s is not None and s.op == 'trunc': return cut(s.args[0], lo, n)
    if s is not None and s.op == 'zext':
        i = s.args[0]
        if lo >= i.w: return num(0, n)
        return zext(cut(i, lo, min(n, i.w - lo)), n)
    if lo == 0: return trunc(f, n)
    return trunc(app('lshr', (f, num(lo, f.w)), f.w), n)

def seg(r, lo, n):
    """bits lo .. lo+n-1 of a field list"""
    k, fs = r
    v = num(k >> lo, n)
    for s, fn, f in fs:
        if s + fn <= lo or s >= lo + n: continue
        a = max(s, lo); b = min(s + fn, lo + n)
        v = add(v, scale(zext(cut(f, a - s, b - a), n), 1 << (a - lo)))
    return v

def fieldop(op, a, b):
    """and/or/xor/lshr/ashr of values made of bit fields; None when not applicable"""
    w = a.w
    ra = fields(a)
    if ra is None: return None
    if op in ('lshr', 'ashr'):
        if not b.const or b.k >= w: return None
        if op == 'ashr':
            t = seg(ra, w - 1, 1)
            if not t.const: return None
            r = zext(seg(ra, b.k, w - b.k), w)
            return add(r, num(((1 << b.k) - 1) << (w - b.k), w)) if t.k else r
        return zext(seg(ra, b.k, w - b.k), w) if b.k else a
    rb = fields(b)
    if rb is None: return None
    cuts = {0, w}
    for k, fs in (ra, rb):
        for s, n, f in fs: cuts.update((s, s + n))
        if op == 'and' or True:
            x = k ^ (k << 1)
            while x:
                l = x & -x; x ^= l
                if l.bit_length() - 1 <= w: cuts.add(l.bit_length() - 1)
    cuts = sorted(cuts)
    res = num(0, w)
    def busy(r, lo): return any(s <= lo < s + n for s, n, f in r[1])
    for lo, hi in zip(cuts, cuts[1:]):
        n = hi - lo
        ba, bb = busy(ra, lo), busy(rb, lo)
        if ba and bb:
            x, y = seg(ra, lo, n), seg(rb, lo, n)
            if x is y: v = x if op != 'xor' else num(0, n)
            elif n == 1: v = b_and(x, y) if op == 'and' else b_or(x, y) if op == 'or' else mk(1, x.k + y.k, _sum(x, y))
            elif n < w and {(p, q) for p, q, f in ra[1]} == {(p, q) for p, q, f in rb[1]}: v = binop(op, x, y)      # laid out alike: field by field
            else: return None
        elif not ba and not bb:
            x, y = (ra[0] >> lo) & ((1 << n) - 1), (rb[0] >> lo) & ((1 << n) - 1)
            v = num(x & y if op == 'and' else x | y if op == 'or' else x ^ y, n)
        else:
            r, c = (ra, rb[0]) if ba else (rb, ra[0])
            c = (c >> lo) & ((1 << n) - 1)
            ones = (1 << n) - 1
            if c not in (0, ones): return None
            if op == 'and': v = seg(r, lo, n) if c else num(0, n)
            elif op == 'or': v = seg(r, lo, n) if not c else num(ones, n)
            else:
                v = seg(r, lo, n)
                if c: v = sub(num(ones, n), v) if n > 1 else b_not(v)
                if c and n > 1: return None
        res = add(res, scale(zext(v, w), 1 << lo))
    return res

def zext(x, w):
    if x.w == w: return x
    if x.const: return num(x.k, w)
    if (len(x.items) > 1 or x.k) and fieldy(x):
        r = fields(x)
        if r is not None:
            v = num(r[0], w)
            for s, n, f in r[1]: v = add(v, scale(zext(f if f.w <= n else cut(f, 0, n) if n < f.w else f, w), 1 << s))
            return v
    if x.items and all(a.op == 'trunc' and a.args[0].w <= w or a.op == 'zext' for a, c in x.items):
        # narrow arithmetic on values that are small anyway
        v = num(_sgn(x.k, x.w), w)
        for a, c in x.items: v = add(v, scale(zext(a.args[0], w), c))
        if sum_bounds(v)[1] < 1 << x.w: return v
    s = single(x)
    if s is not None and s.op == 'zext':
        return app('zext', s.args, w)
    return app('zext', (x,), w)

def sext(x, w):
    if x.w == w: return x
    if x.const: return num(_sgn(x.k, x.w) if x.w > 1 else (-1 if x.k else 0), w)
    s = single(x)
    if s is not None and s.op == 'zext':
        return zext(s.args[0], w)
    if fieldy(x):
        r = fields(x)
        if r is not None:
            t = seg(r, x.w - 1, 1)
            if t.const: return add(zext(x, w), num(((1 << w) - (1 << x.w)) if t.k else 0, w))
    return app('sext', (x,), w)

def trunc(x, w):
    if x.w == w: return x
    if x.const: return num(x.k, w)
    r = num(x.k, w)
    for a, c in x.items:
        t = None
        if a.op in ('zext', 'sext'):
            i = a.args[0]
            if i.w == w: t = i
            elif i.w > w: t = trunc(i, w)
            else: t = (zext if a.op == 'zext' else sext)(i, w)
        elif a.op == 'trunc':
            t = trunc(a.args[0], w)
        elif a.op == 'and' and a.args[1].const and (a.args[1].k & ((1 << w) - 1)) == (1 << w) - 1:
            t = trunc(a.args[0], w)
        else:
            t = app('trunc', (of(a),), w)
        r = add(r, scale(t, c))
    return r

def isbool(x):
    """a wider term that is zext of an i1"""
    s = single(x)
    if s is not None and s.op == 'zext' and s.args[0].w == 1:
        return s.args[0]
    if x.const and x.k in (0, 1):
        return TRUE if x.k else FALSE
    return None

def eq(a, b):
    d = sub(a, b)
    if d.const:
        return TRUE if d.k == 0 else FALSE
    if a.w == 1:
        return b_not(d)
    if len(d.items) == 2 and not d.k and (d.items[0][1] + d.items[1][1]) % (1 << d.w) == 0 and _sgn(d.items[0][1], d.w) in (1, -1):
        x, y = d.items[0][0], d.items[1][0]             # both extended, or both small and cut off
        if x.op == y.op and x.op in ('zext', 'sext') and x.args[0].w == y.args[0].w > 1: return eq(x.args[0], y.args[0])
    if d.w == 32 and any(x.op == 'trunc' for x, _ in d.items):
        v = whole(d)
        if v is not None: return eq(v[0], v[1])
    if len(d.items) == 1 and d.items[0][1] in (1, -1):
        x = d.items[0][0]
        v = (-d.k * d.items[0][1]) & ((1 << d.w) - 1)     # x == v
        if x.op == 'zext':
            i = x.args[0]
            if v >> i.w: return FALSE
            return eq(i, num(v, i.w))
        if x.op == 'sext':
            i = x.args[0]
            sv = _sgn(v, d.w)
            if sv != _sgn(sv, i.w): return FALSE
            return eq(i, num(v, i.w))
        if x.op in ('obj', 'glob') and v < 4096:
            return FALSE
    if _bounds(d)[0] > 0 or _bounds(neg(d))[0] > 0: return FALSE
    if d.items[0][1] < 0:
        d = neg(d)
    g = 0
    for x, c in d.items: g = math.gcd(g, c)
    if g > 1:
        # the sum cannot wrap: divide by the common factor
        lo = hi = k = _sgn(d.k, d.w)
        for x, c in d.items:
            l, h = atom_bounds(x)
            if c > 0: lo, hi = lo + c * l, hi + c * h
            else: lo, hi = lo + c * h, hi + c * l
        if lo > -(1 << d.w) and hi < 1 << d.w:
            if k % g: return FALSE
            return eq(mk(d.w, k // g, dict((x, c // g) for x, c in d.items)), num(0, d.w))
    # pointers into two different objects are never equal (offsets are in-bounds)
    objs = [x for x, c in d.items if x.op in ('obj', 'glob')]
    if len(objs) == 2 and len(d.items) == 2 and d.items[0][1] == -d.items[1][1]:
        return FALSE
    return app('eq0', (d,), 1)

def _bounds(x):
    """cheap unsigned bounds of a term"""
    if x.const: return x.k, x.k
    s = single(x)
    if s is not None: return atom_bounds(s)
    lo = hi = x.k
    for a, c in x.items:
        l, h = atom_bounds(a)
        if c > 0: lo, hi = lo + c * l, hi + c * h
        else: lo, hi = lo + c * h, hi + c * l
    if lo < 0 or hi >= 1 << x.w:
        return 0, (1 << x.w) - 1
    return lo, hi

def sum_bounds(x):
    """as _bounds, but reports wrapping as the full range even for wide terms"""
    lo = hi = _sgn(x.k, x.w)
    for a, c in x.items:
        l, h = atom_bounds(a)
        lo, hi = lo + min(c * l, c * h), hi + max(c * l, c * h)
    return (lo, hi) if lo >= 0 and hi < 1 << x.w else (0, 1 << x.w)

def atom_bounds(a):
    top = (1 << a.w) - 1
    if a.op in ('obj', 'glob'): return 4096, (1 << 47) - 1
    if a.info and isinstance(a.info, dict) and 'range' in a.info: return a.info['range']
    if a.op == 'zext': return _bounds(a.args[0])
    if a.op == 'and':
        return 0, min(_bounds(a.args[0])[1], _bounds(a.args[1])[1])
    if a.op == 'urem' and a.args[1].const and a.args[1].k: return 0, min(a.args[1].k - 1, _bounds(a.args[0])[1])
    if a.op == 'udiv' and a.args[1].const and a.args[1].k: 
        l, h = _bounds(a.args[0]); return l // a.args[1].k, h // a.args[1].k
    if a.op == 'lshr' and a.args[1].const:
        l, h = _bounds(a.args[0]); return l >> a.args[1].k, h >> a.args[1].k
    if a.w == 1: return 0, 1
    return 0, top

def ult(a, b):
    if a is b: return FALSE
    if a.const and b.const: return TRUE if a.k < b.k else FALSE
    la, ha = _bounds(a)
    lb, hb = _bounds(b)
    if ha < lb: return TRUE
    if la >= hb: return FALSE
    if b.const and b.k == 1: return eq(a, num(0, a.w))
    if a.const and a.k == 0: return b_not(eq(b, a))
    return app('ult', (a, b), 1)

def whole(d):
    """(x, y) such that d, a sum of cut off small numbers, is x - y and neither x nor y wraps"""
    k = _sgn(d.k, d.w); lo = hi = k
    x, y = num(max(k, 0)), num(max(-k, 0))
    for a, c in d.items:
        c = _sgn(c, d.w)
        if a.op != 'trunc' or a.args[0].w != 64: return None
        l, h = _bounds(a.args[0])
        if l < 0 or h >= 1 << (d.w - 1): return None
        if c > 0: x = add(x, scale(a.args[0], c)); hi += c * h; lo += c * l
        else: y = add(y, scale(a.args[0], -c)); hi += c * l; lo += c * h
    return None if hi >= 1 << (d.w - 1) or lo < -(1 << (d.w - 1)) else (x, y)
def slt(a, b):
    if a is b: return FALSE
    if a.w == 32 and any(x.op == 'trunc' for z in (a, b) for x, _ in z.items):
        v, u = whole(a), whole(b)
        if u is not None and v is not None: return ult(add(v[0], u[1]), add(v[1], u[0]))
    w = a.w
    if a.const and b.const: return TRUE if _sgn(a.k, w) < _sgn(b.k, w) else FALSE
    half = 1 << (w - 1)
    la, ha = _bounds(a)
    lb, hb = _bounds(b)
    if ha < half and hb < half: return ult(a, b)
    return app('slt', (a, b), 1)

def icmp(pred, a, b):
    if pred == 'eq': return eq(a, b)
    if pred == 'ne': return b_not(eq(a, b))
    if pred == 'ult': return ult(a, b)
    if pred == 'ugt': return ult(b, a)
    if pred == 'ule': return b_not(ult(b, a))
    if pred == 'uge': return b_not(ult(a, b))
    if pred == 'slt': return slt(a, b)
    if pred == 'sgt': return slt(b, a)
    if pred == 'sle': return b_not(slt(b, a))
    if pred == 'sge': return b_not(slt(a, b))
    raise ValueError(pred)

def binop(op, a, b):
    w = a.w
    if op == 'add': return add(a, b)
    if op == 'sub': return sub(a, b)
    if op == 'mul':
        if a.const: return scale(b, a.k)
        if b.const: return scale(a, b.k)
        if a.id > b.id: a, b = b, a
        return app('mul', (a, b), w)
    if w == 1:
        if op == 'and': return b_and(a, b)
        if op == 'or': return b_or(a, b)
        if op == 'xor': return mk(1, a.k + b.k, _sum(a, b))
    if a.const and b.const:
        x, y, m = a.k, b.k, (1 << w) - 1
        sx, sy = _sgn(x, w), _sgn(y, w)
        if op == 'and': return num(x & y, w)
        if op == 'or': return num(x | y, w)
        if op == 'xor': return num(x ^ y, w)
        if op == 'shl': return num(x << y, w) if y < w else num(0, w)
        if op == 'lshr': return num(x >> y, w) if y < w else num(0, w)
        if op == 'ashr': return num(sx >> min(y, w - 1), w)
        if op == 'udiv' and y: return num(x // y, w)
        if op == 'urem' and y: return num(x % y, w)
        if op == 'sdiv' and sy: return num(int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1), w)
        if op == 'srem' and sy: return num((abs(sx) % abs(sy)) * (1 if sx >= 0 else -1), w)
    if op == 'shl' and b.const and b.k < w: return scale(a, 1 << b.k)
    if op in ('lshr', 'ashr', 'shl') and b.const and b.k == 0: return a
    if op in ('udiv', 'sdiv') and b.const and b.k == 1: return a
    if op == 'udiv' and b.const and b.k and b.k & (b.k - 1) == 0: return binop('lshr', a, num(b.k.bit_length() - 1, w))
    if op in ('udiv', 'sdiv', 'lshr') and b.const:
        dv = b.k if op != 'lshr' else (1 << b.k)
        # exact division of a linear term whose coefficients divide (no wrap assumed for pointer differences)
        if dv and a.k % dv == 0 and a.items and all(c % dv == 0 for x, c in a.items):
            if op == 'udiv' or op == 'lshr': good = all(c > 0 for x, c in a.items) and _sgn(a.k, w) >= 0
            else: good = True
            mag = abs(_sgn(a.k, w))
            for x, c in a.items:
                lo, hi = atom_bounds(x); mag += abs(c) * hi
            if good and mag < 1 << (w - 2):
                return mk(w, _sgn(a.k, w) // dv, dict((x, c // dv) for x, c in a.items))
    if op in ('and', 'or', 'xor', 'lshr', 'ashr') and (fieldy(a) or fieldy(b) and op not in ('lshr', 'ashr')):
        r = fieldop(op, a, b)
        if r is not None: return r
    if op == 'urem' and b.const and b.k and b.k & (b.k - 1) == 0:
        return binop('and', a, num(b.k - 1, w))
    ba, bb = isbool(a), isbool(b)
    if op in ('and', 'or', 'xor') and ba is not None and bb is not None:
        return zext(binop(op, ba, bb), w)
    if op in ('and', 'or', 'xor'):
        if a.const: a, b = b, a
        if b.const:
            m = (1 << w) - 1
            if op == 'and':
                if b.k == 0: return num(0, w)
                if b.k == m: return a
                if a.const: return num(a.k & b.k, w)
                s = single(a)
                if s is not None and s.op == 'and' and s.args[1].const:
                    return binop('and', s.args[0], num(b.k & s.args[1].k, w))
                lo, hi = _bounds(a)
                if b.k & (b.k + 1) == 0 and hi <= b.k: return a
                # power-of-two grain: the multiples of the grain are exact modulo 2^w
                for g in ((b.k + 1) if b.k & (b.k + 1) == 0 else 0, (m ^ b.k) + 1):
                    if g > 1 and g & (g - 1) == 0 and a.items and all(c * grain(x) % g == 0 for x, c in a.items):
                        if g == b.k + 1: return num(a.k % g, w)
                        return mk(w, a.k - a.k % g, dict(a.items))
                if b.k & (b.k + 1) == 0 and b.k != m:          # what lies above the mask does not matter
                    g = b.k + 1
                    low = mk(w, a.k % g, dict((x, c) for x, c in a.items if c * grain(x) % g))
                    if low is not a: return binop('and', low, b)
                if s is not None and s.op == 'or' and s.args[1].const:
                    if b.k & ~s.args[1].k == 0: return b
                    if not b.k & s.args[1].k: return binop('and', s.args[0], b)
                if s is not None and s.op == 'zext' and s.args[0].w > 1:
                    i = s.args[0]
                    return zext(binop('and', i, num(b.k & ((1 << i.w) - 1), i.w)), w)
            if op == 'or':
                if b.k == 0: return a
                if b.k == m: return b
                s = single(a)
                if s is not None and s.op == 'or' and s.args[1].const:
                    return binop('or', s.args[0], num(b.k | s.args[1].k, w))
            if op == 'xor':
                if b.k == 0: return a
                if b.k == m: return sub(num(m, w), a)
        else:
            x, y = single(a), single(b)
            if x is not None and y is not None and x.op == y.op and x.op in ('zext', 'sext') and x.args[0].w == y.args[0].w > 1:
                return (zext if x.op == 'zext' else sext)(binop(op, x.args[0], y.args[0]), w)
            if a.id > b.id: a, b = b, a
        if a is b: return num(0, w) if op == 'xor' else a
    if op in ('udiv', 'sdiv', 'urem', 'srem') and a is b and False:
        return num(1, w)
    return app(op, (a, b), w)

def grain(a):
    """a power of two that divides every value of the atom"""
    if a.info and isinstance(a.info, dict): return a.info.get('align', 1)
    if a.op == 'and' and a.args[1].const and a.args[1].k: return a.args[1].k & -a.args[1].k
    return 1

def _sum(a, b):
    d = dict(a.items)
    for x, c in b.items:
        d[x] = d.get(x, 0) + c
    return d

def atoms_of(l, out=None, deep=True):
    if out is None: out = set()
    for a, c in l.items:
        if a not in out:
            out.add(a)
            if deep:
                for x in a.args:
                    if isinstance(x, Lin): atoms_of(x, out, deep)
    return out

def subst(l, m, memo=None):
    """replace atoms by Lins (dict atom->Lin), rebuilding applications"""
    if memo is None: memo = {}
    r = memo.get(l)
    if r is not None: return r
    if not any(True for a in atoms_of(l) if a in m):
        memo[l] = l
        return l
    res = num(l.k, l.w)
    for a, c in l.items:
        res = add(res, scale(subst_atom(a, m, memo), c))
    memo[l] = res
    return res

def subst_atom(a, m, memo):
    if a in m: return m[a]
    if not a.args or not any(isinstance(x, Lin) for x in a.args): return of(a)
    args = [subst(x, m, memo) if isinstance(x, Lin) else x for x in a.args]
    if all(x is y for x, y in zip(args, a.args)): return of(a)
    return rebuild(a.op, args, a.w, a)

def rebuild(op, args, w, a=None):
    if op == 'eq0': return eq(args[0], num(0, args[0].w))
    if op == 'ult': return ult(args[0], args[1])
    if op == 'slt': return slt(args[0], args[1])
    if op == 'and1': return b_and(args[0], args[1])
    if op == 'bmix': return args[0]
    if op == 'zext': return zext(args[0], w)
    if op == 'sext': return sext(args[0], w)
    if op == 'trunc': return trunc(args[0], w)
    if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'mul'):
        return binop(op, args[0], args[1])
    return of(atom(op, tuple(args), w, a.ptr if a is not None else False, a.info if a is not None else None))

def fmt_atom(a):
    if a.op in ('sym', 'obj', 'glob', 'count'): return str(a.args[0])
    return '%s(%s)' % (a.op, ','.join(str(x) for x in a.args))

def fmt(l):
    s = []
    for a, c in l.items:
        s.append(fmt_atom(a) if c == 1 else '-' + fmt_atom(a) if c == -1 else '%d*%s' % (c, fmt_atom(a)))
    k = _sgn(l.k, l.w)
    if k or not s: s.append(str(k))
    return '+'.join(s).replace('+-', '-')
