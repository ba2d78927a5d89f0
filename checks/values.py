"""C01: durations and points in time."""
import os, struct
from fractions import Fraction
import terms as T
from terms import num
import mem, spec
from ctrs import exits
from ptr import RULES, TB

def times(r):
    r.rule = ('for every count of every standard duration (and for odd periods): conversions multiply or divide by exactly the ratio of the periods, arithmetic and comparisons are those of the counts in the finer unit, '
              'and every operation on seconds and nanoseconds yields the specified total with the nanoseconds in [0,10^9)')
    r.trusted = TB
    mem.analyse(r, ['chrono.cc', 'memory.cc'], exits, RULES, pat='^P_[dt]_', entcls=spec.Spec, client=spec.SpecHeap)
    r.minimum.update(operations=110, exits=67)

class Elements(spec.SpecHeap):
    """fixed-size containers: their loops are evaluated round by round"""
    rounds, forks = 20, 300
    def g_samef(self, e, a, st, ins):
        x, y = [self.poly(st.norm(v)) for v in a[:2]]
        if os.environ.get('REQ') and x != y: print('NOT ALIKE', a[0], '|', a[1])
        return [('ret', num(1 if x == y else 0, 1), st)]
    g_samed = g_samef
    def poly(self, v):
        """a sum of products of real numbers: {sorted factors: coefficient}"""
        if v.const: return {(): self.real(v)} if v.k else {}
        t = T.single(v)
        if t is not None and t.op in ('sitofp', 'uitofp') and t.args[0].const:
            n = t.args[0].k
            n = T._sgn(n, t.args[0].w) if t.op == 'sitofp' else n & ((1 << t.args[0].w) - 1)
            return {(): Fraction(n)} if n else {}
        if t is None or t.op not in ('fadd', 'fsub', 'fmul', 'fneg') and not t.op.startswith(('llvm.fmuladd', 'llvm.fma.')): return {(v.id,): Fraction(1)}
        x = self.poly(t.args[0])
        if t.op == 'fneg': return dict((k, -c) for k, c in x.items())
        y = self.poly(t.args[1])
        r = {}
        if t.op == 'fmul' or t.op.startswith('llvm.fm'):
            if t.op != 'fmul': r = self.poly(t.args[2])
            for k, c in x.items():
                for l, d in y.items(): m = tuple(sorted(k + l)); r[m] = r.get(m, 0) + c * d
        else:
            r = dict(x)
            for k, c in y.items(): r[k] = r.get(k, 0) + (c if t.op == 'fadd' else -c)
        return dict((k, c) for k, c in r.items() if c)
    def real(self, v):
        b = v.k & ((1 << v.w) - 1)
        try: return Fraction(struct.unpack('f' if v.w == 32 else 'd', b.to_bytes(v.w // 8, 'little'))[0])
        except (ValueError, OverflowError): return ('special', b)

class Bits(Elements):
    rounds = 70
    selects = True
def bits(r):
    r.rule = ('for every content and every bit number: each bit of the result of every member and operator of bitset is what the operation says of the bits in the same place, no other bit changes, '
              'and the text of a set has a digit for each of its bits, the first bit last')
    r.trusted = TB
    mem.analyse(r, ['bits.cc', 'memory.cc', 'strings.cc'], exits, RULES, pat='^P_b_', entcls=spec.Spec, client=Bits)
    r.minimum.update(operations=140, exits=65)
def elements(r):
    r.rule = ('for every element value: each element of the result of every member, operator and packed operation of tuple, array and the SIMD specialisations is the operator applied to the elements in the same place, '
              'and nothing else changes; inline assembly is interpreted instruction by instruction')
    r.trusted = TB + ['the model of the MMX and SSE instructions the repository uses']
    mem.analyse(r, ['elements.cc', 'memory.cc'], exits, RULES, pat='^P_e_', entcls=spec.Spec, client=Elements)
    r.minimum.update(operations=500, exits=225)
