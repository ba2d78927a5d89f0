"""Linear-arithmetic entailment for the abstract domain (rational polyhedra via
Fourier-Motzkin elimination).  Facts are unsigned/signed comparisons of modular
linear terms; a modular term is used as an integer expression only when it is
shown not to wrap, otherwise the whole term is treated as an opaque variable."""
from fractions import Fraction
import terms as T

MAXC = 600

def _norm(c, k):
    # divide by gcd
    from math import gcd
    g = 0
    for v in c.values(): g = gcd(g, abs(v))
    if g > 1:
        # integer tightening: sum c x + k <= 0  ->  k' = ceil(k/g)
        c = dict((x, v // g) for x, v in c.items())
        k = -((-k) // g)
    return c, k

def infeasible(cons):
    """cons: list of (dict var->int, int k) meaning sum + k <= 0 over the integers"""
    best = {}
    for c, k in cons:
        c, k = _norm(dict((x, v) for x, v in c.items() if v), k)
        if not c:
            if k > 0: return True
            continue
        key = tuple(sorted(c.items()))
        if key not in best or best[key] < k: best[key] = k
    while True:
        if not best: return False
        occ = {}
        for key in best:
            for x, v in key:
                p, n, P, N = occ.get(x, (0, 0, 0, 0))
                occ[x] = (p + (v > 0), n + (v < 0), max(P, v), max(N, -v))
        # exact steps first: coefficients above one on both sides lose integer points
        x = min(occ, key=lambda y: (occ[y][2] > 1 and occ[y][3] > 1, occ[y][0] * occ[y][1] - occ[y][0] - occ[y][1]))
        pos, negs, new = [], [], {}
        for key, k in best.items():
            d = dict(key)
            if x in d:
                (pos if d[x] > 0 else negs).append((d, k))
            else: new[key] = k
        if len(pos) * len(negs) + len(new) > MAXC: return False
        for dp, kp in pos:
            for dn, kn in negs:
                a, b = dp[x], -dn[x]
                c = {}
                for y, v in dp.items(): c[y] = c.get(y, 0) + v * b
                for y, v in dn.items(): c[y] = c.get(y, 0) + v * a
                k = kp * b + kn * a
                c, k = _norm(dict((y, v) for y, v in c.items() if v), k)
                if not c:
                    if k > 0: return True
                    continue
                key = tuple(sorted(c.items()))
                if key not in new or new[key] < k: new[key] = k
        best = new

class Ctx(object):
    """A set of assumed conditions turned into integer constraints."""
    def __init__(self, facts, masked=()):
        self.masked = masked
        self.cons = []
        self.vars = set()
        self.facts = dict(facts)
        self.inrange = {}
        self.lax = []
        self.signed = {}        # variable -> variable of the signed value: sign extensions and what they extend
        self.unlinked = []
        self._build()

    def _bound(self, a):
        """add range constraints of an atom"""
        if a.id in self.vars: return
        self.vars.add(a.id)
        lo, hi = T.atom_bounds(a)
        if a.op == 'sext':
            v = -(1 << 40) - a.id; h = 1 << (a.args[0].w - 1)
            self.cons.append(({v: -1}, -h)); self.cons.append(({v: 1}, -h + 1))
            self.signed[a.id] = v
            s = T.single(a.args[0])
            if s is not None: self.signed[s.id] = v
            self.unlinked.append(a)
        self.cons.append(({a.id: -1}, lo))
        self.cons.append(({a.id: 1}, -hi))
        self._struct(a)

    def _struct(self, a):
        """what an atom says about its operands; again later when an operand was not understood"""
        for x in a.args[:1] if a.op == 'and' and a.args[1].const else a.args:
            if isinstance(x, T.Lin) and a.op in ('zext', 'trunc', 'sext', 'udiv', 'lshr', 'and', 'urem') and self._int(x) is None:
                self.lax.append(a); break
        if a.op == 'zext':
            r = self._int(a.args[0])
            if r is not None:
                c, k = r
                d = dict(c); d[a.id] = d.get(a.id, 0) - 1
                self.cons.append((d, k))
                d = dict((x, -v) for x, v in c.items()); d[a.id] = d.get(a.id, 0) + 1
                self.cons.append((d, -k))
        if a.op == 'sext':
            r = self._sint(a.args[0]); v = -(1 << 40) - a.id
            if r is not None and r[0] != {v: 1}:
                c, k = r
                d = dict(c); d[v] = d.get(v, 0) - 1
                self.cons.append((d, k))
                self.cons.append((dict((y, -v) for y, v in d.items()), -k))
        if a.op == 'trunc':
            x = a.args[0]
            r = self._int(x)
            if r is not None:
                c, k = r
                lim = 1 << a.w
                d = dict((y, -v) for y, v in c.items()); d[a.id] = d.get(a.id, 0) + 1
                self.cons.append((d, -k))          # never larger than the value itself
                if infeasible(self.rel(c) + [(dict((y, -v) for y, v in c.items()), -k + lim)]):
                    d = dict(c); d[a.id] = d.get(a.id, 0) - 1
                    self.cons.append((d, k))
                    d = dict((y, -v) for y, v in c.items()); d[a.id] = d.get(a.id, 0) + 1
                    self.cons.append((d, -k))
        if a.op in ('udiv', 'lshr') and a.args[1].const and a.args[1].k:
            dv = a.args[1].k if a.op == 'udiv' else 1 << a.args[1].k
            r = self._int(a.args[0])
            if r is not None:
                c, k = r      # dv*q <= e <= dv*q + dv-1
                d = dict((x, -v) for x, v in c.items()); d[a.id] = d.get(a.id, 0) + dv
                self.cons.append((d, -k))
                d = dict(c); d[a.id] = d.get(a.id, 0) - dv
                self.cons.append((d, k - dv + 1))
        if a.op == 'and' and len(a.args) == 2 and (not a.args[1].const):
            for x in a.args:
                r = self._int(x)
                if r is not None:
                    c, k = r
                    d = dict((y, -v) for y, v in c.items()); d[a.id] = d.get(a.id, 0) + 1
                    self.cons.append((d, -k))
        if a.op in ('and', 'urem'):
            r = self._int(a.args[0])
            if r is not None:
                c, k = r      # a <= e
                d = dict((y, -v) for y, v in c.items()); d[a.id] = d.get(a.id, 0) + 1
                self.cons.append((d, -k))
            if a.op == 'and' and a.args[1].const and r is not None:
                m = (1 << a.w) - 1
                if a.args[1].k & (a.args[1].k + 1) == 0:       # the remainder: e - 2^j * (e >> j)
                    g = a.args[1].k + 1
                    q = T.single(T.binop('lshr', a.args[0], T.num(g.bit_length() - 1, a.w)))
                    if q is not None and q.op == 'lshr':
                        self._bound(q)
                        c, k = r
                        d = dict(c); d[a.id] = d.get(a.id, 0) - 1; d[q.id] = d.get(q.id, 0) - g
                        self.cons.append((d, k))
                        self.cons.append((dict((x, -v) for x, v in d.items()), -k))
                low = (~a.args[1].k) & m
                if low & (low + 1) == 0:       # clears low bits: e - low <= a
                    d = dict(c); d[a.id] = d.get(a.id, 0) - 1
                    self.cons.append((d, k - low))

    def _expr(self, l):
        for a, c in l.items: self._bound(a)
        k = l.k
        d = dict((a.id, c) for a, c in l.items)
        return d, k

    def _try(self, d, k, w):
        """0 <= d+k <= 2^w-1 ?"""
        # below zero: d + k <= -1
        lo = all(v > 0 for v in d.values()) and k >= 0
        if not lo:
            if not infeasible(self.rel(d) + [(d, k + 1)]): return False
        nd = dict((x, -v) for x, v in d.items())
        return infeasible(self.rel(d) + [(nd, -k + (1 << w))])

    def rel(self, d):
        """constraints connected with the variables of d"""
        want = set(d)
        todo = True
        cons = self.cons
        used = [False] * len(cons)
        out = []
        while todo:
            todo = False
            for i, (c, k) in enumerate(cons):
                if not used[i] and any(x in want for x in c):
                    used[i] = True
                    out.append((c, k))
                    for x in c:
                        if x not in want:
                            want.add(x); todo = True
        return out

    def _int(self, l):
        """integer expression (dict,k) of a modular term, or None"""
        if l.const: return {}, l.k
        if l in self.inrange: return self.inrange[l]
        d, k = self._expr(l)
        s = T.single(l)
        if s is not None: 
            self.inrange[l] = (d, k)
            return d, k
        full = 1 << l.w
        for kk in (k, k - full, k + full):
            if self._try(d, kk, l.w):
                self.inrange[l] = (d, kk)
                return d, kk
        if any(x in self.signed for x in d):
            d = self._swap(d)
            for kk in (k, k - full):
                if self._try(d, kk, l.w):
                    self.inrange[l] = (d, kk)
                    return d, kk
        return None
    def _link(self):
        """a sign extension known to be non-negative is its signed value"""
        left = []
        for a in self.unlinked:
            u, v, h = {a.id: 1}, {-(1 << 40) - a.id: 1}, 1 << (a.w - 1)
            if infeasible(self.rel(u) + [({a.id: -1}, h)]) or infeasible(self.rel(v) + [(v, 1)]):
                self._add_le((u, 0), (v, 0), 0); self._add_le((v, 0), (u, 0), 0)
            else: left.append(a)
        self.unlinked = left

    def _sint(self, l):
        """integer expression of the signed value of a term, or None"""
        if l.const: return {}, T._sgn(l.k, l.w)
        h = 1 << (l.w - 1)
        r = self._int(l)
        if r is not None and infeasible(self.rel(r[0]) + [(dict((q, -v) for q, v in r[0].items()), -r[1] + h)]): return r
        d, k = self._expr(l)
        full = 1 << l.w
        for kk in (k, k - full):
            nd = dict((x, -v) for x, v in d.items())
            # d+kk <= -h-1 and d+kk >= h both impossible
            if infeasible(self.rel(d) + [(d, kk + h + 1)]) and infeasible(self.rel(d) + [(nd, -kk + h)]): return d, kk
        if any(x in self.signed for x in d):
            d, k = self._swap(d), T._sgn(k, l.w)
            nd = dict((x, -v) for x, v in d.items())
            if infeasible(self.rel(d) + [(d, k + h + 1)]) and infeasible(self.rel(d) + [(nd, -k + h)]): return d, k
        return None

    def _swap(self, d):
        """signed values for the atoms whose sign extension occurs"""
        r = {}
        for x, v in d.items():
            x = self.signed.get(x, x)
            r[x] = r.get(x, 0) + v
        return r

    def _var(self, l):
        """opaque variable standing for the modular value of a term"""
        vid = -1 - l.id
        if vid not in self.vars:
            self.vars.add(vid)
            self.cons.append(({vid: -1}, 0))
            self.cons.append(({vid: 1}, -((1 << l.w) - 1)))
        return {vid: 1}, 0

    def _side(self, l):
        r = self._int(l)
        return r if r is not None else self._var(l)

    def _add_le(self, a, b, k):      # a - b + k <= 0
        (da, ka), (db, kb) = a, b
        d = dict(da)
        for x, v in db.items(): d[x] = d.get(x, 0) - v
        self.cons.append((d, ka - kb + k))

    def _build(self):
        pend = [(a, p) for a, p in self.facts.items() if a.op in ('ult', 'slt', 'eq0')]
        for a, p in pend:
            for l in a.args:
                for x, c in l.items: self._bound(x)
        for rnd in range(3):
            self.inrange = dict((l, v) for l, v in self.inrange.items() if v is not None)
            left = []
            progress = False
            self._link()
            if rnd:
                again, self.lax = self.lax, []
                for a in again: self._struct(a)
            for a, p in pend:
                if a.op == 'eq0':
                    if not p:
                        # x != v with v at a boundary of x's range
                        l = a.args[0]
                        lo_hi = self._int(l)
                        if lo_hi is not None and rnd == 0:
                            d, k = lo_hi
                            if not infeasible(self.rel(d) + [(d, k)]):     # l>=0 known: then l>=1
                                pass
                            self.cons.append((dict((x, -v) for x, v in d.items()), -k + 1))
                        elif len(l.items) <= 3:
                            # if one order is known, it is strict
                            kk = T._sgn(l.k, l.w)
                            A = self._int(T.mk(l.w, max(kk, 0), dict((x, c) for x, c in l.items if c > 0)))
                            B = self._int(T.mk(l.w, max(-kk, 0), dict((x, -c) for x, c in l.items if c < 0)))
                            if A is None or B is None: left.append((a, p))
                            elif self._le(A, B): self._add_le(A, B, 1); progress = True
                            elif self._le(B, A): self._add_le(B, A, 1); progress = True
                            else: left.append((a, p))
                        continue
                    l = a.args[0]
                    pa = T.mk(l.w, 0, dict((x, c) for x, c in l.items if c > 0))
                    nk = T._sgn(l.k, l.w)
                    na = T.mk(l.w, 0, dict((x, -c) for x, c in l.items if c < 0))
                    if nk > 0: pa = T.mk(l.w, nk, dict(pa.items))
                    else: na = T.mk(l.w, -nk, dict(na.items))
                    A, B = self._int(pa), self._int(na)
                    if A is not None and B is not None:
                        self._add_le(A, B, 0); self._add_le(B, A, 0); progress = True
                    else: left.append((a, p))
                    continue
                x, y = a.args
                if a.op == 'slt':
                    E = [self._sint(x), self._sint(y)]
                    lo, hi = (0, 1) if p else (1, 0)
                    if E[hi] is None and E[lo] is not None and self._le(({}, 0), E[lo]):
                        # something not below a non-negative value is itself non-negative
                        z = (x, y)[hi]
                        V = self._int(z)
                        if V is None and len(z.items) == 1 and z.k == 0 and z.items[0][1] == 1: V = self._side(z)
                        if V is not None:
                            self._add_le(V, ({}, (1 << (z.w - 1)) - 1), 0)
                            E[hi] = self._sint(z)
                    if None in E: left.append((a, p)); continue
                    A, B = E
                else:
                    A, B = self._int(x), self._int(y)
                    lo, O = (x, B) if p else (y, A)
                    if (A if p else B) is None and O is not None and self._le(O, ({}, (1 << (x.w - 1)) - 1)):
                        # something below a value with a clear top bit did not wrap
                        S = self._sint(lo)
                        if S is not None:
                            self._add_le(({}, 0), S, 0)
                            A, B = self._int(x), self._int(y)
                    if A is None or B is None:
                        left.append((a, p))
                        if rnd < 2: continue
                        A, B = self._side(x), self._side(y)
                if p: self._add_le(A, B, 1)
                else: self._add_le(B, A, 0)
                progress = True
            if rnd == 0:
                # remainders with a known value: e == l + 2^j * (e >> j)
                for x, m, l in self.masked:
                    if m & (m + 1): continue
                    E, L = self._int(x), self._int(l)
                    q = T.binop('lshr', x, T.num((m + 1).bit_length() - 1, x.w))
                    if E is None or L is None or q.const: continue
                    Q = self._int(q)
                    if Q is None: continue
                    R = dict((y, v * (m + 1)) for y, v in Q[0].items())
                    for y, v in L[0].items(): R[y] = R.get(y, 0) + v
                    R = (R, Q[1] * (m + 1) + L[1])
                    self._add_le(E, R, 0); self._add_le(R, E, 0)
            pend = left
            if not pend or not progress: 
                if rnd < 1: continue
                for a, p in pend:
                    if a.op == 'ult':
                        A, B = self._side(a.args[0]), self._side(a.args[1])
                        if p: self._add_le(A, B, 1)
                        else: self._add_le(B, A, 0)
                break
        self._link()

    def _le(self, A, B):
        """A <= B entailed?"""
        (da, ka), (db, kb) = A, B
        d = dict((x, -v) for x, v in da.items())
        for x, v in db.items(): d[x] = d.get(x, 0) + v
        # negation: A >= B+1 : B - A + 1 <= 0
        return infeasible(self.rel(d) + [(d, kb - ka + 1)])

    def unsat(self):
        return infeasible(self.cons)

    def prove_ule(self, a, b):
        if T.ult(b, a) is T.FALSE: return True
        return self._le(self._side(a), self._side(b))

    def prove_ult(self, a, b):
        if T.ult(a, b) is T.TRUE: return True
        A, B = self._side(a), self._side(b)
        return self._le((A[0], A[1] + 1), B)

    def prove_cond(self, c):
        """prove a width-1 term"""
        r = T.boolform(c)
        if isinstance(r, bool): return r
        a, p = r
        if a in self.facts: return self.facts[a] == p
        if a.op == 'ult':
            return self.prove_ult(a.args[0], a.args[1]) if p else self.prove_ule(a.args[1], a.args[0])
        if a.op == 'and1':
            if p: return self.prove_cond(a.args[0]) and self.prove_cond(a.args[1])
            return self.prove_cond(T.b_not(a.args[0])) or self.prove_cond(T.b_not(a.args[1]))
        if a.op == 'eq0':
            l = a.args[0]
            if p:
                d = self._int(l)
                if d is not None:
                    return self._le(d, ({}, 0))
                pa = T.mk(l.w, 0, dict((x, c) for x, c in l.items if c > 0))
                nk = T._sgn(l.k, l.w)
                na = T.mk(l.w, 0, dict((x, -c) for x, c in l.items if c < 0))
                if nk > 0: pa = T.mk(l.w, nk, dict(pa.items))
                else: na = T.mk(l.w, -nk, dict(na.items))
                for side in (self._int, self._sint):
                    A, B = side(pa), side(na)
                    if A is not None and B is not None and self._le(A, B) and self._le(B, A): return True
                return False
            pa = T.mk(l.w, 0, dict((x, c) for x, c in l.items if c > 0))
            nk = T._sgn(l.k, l.w)
            na = T.mk(l.w, 0, dict((x, -c) for x, c in l.items if c < 0))
            if nk > 0: pa = T.mk(l.w, nk, dict(pa.items))
            else: na = T.mk(l.w, -nk, dict(na.items))
            A, B = self._int(pa), self._int(na)
            if A is None or B is None: return False
            return self._le((A[0], A[1] + 1), B) or self._le((B[0], B[1] + 1), A)
        if a.op == 'slt':
            x, y = a.args
            r = T.boolform(T.slt(y, x))
            q = r if isinstance(r, bool) else (self.facts[r[0]] == r[1] if r[0] in self.facts else None)
            if q and not p: return True         # the other way round
            E = [self._sint(x), self._sint(y)]
            if None in E: return False
            A, B = E
            return self._le((A[0], A[1] + 1), B) if p else self._le(B, A)
        return False
