"""K02: inline assembly tells the compiler what it changes, and leaves the floating point unit usable."""
import re
import mem, build
from memcheck import *

GP = {}
for _n in 'abcd':
    for _f in ('r%sx', 'e%sx', '%sx', '%sl', '%sh'): GP[_f % _n] = _n
for _n in ('si', 'di', 'bp', 'sp'):
    for _f in ('r%s', 'e%s', '%s', '%sl'): GP[_f % _n] = _n
for _i in range(8, 16):
    for _s in ('', 'd', 'w', 'b'): GP['r%d%s' % (_i, _s)] = 'r%d' % _i
LETTER = {'a': 'a', 'b': 'b', 'c': 'c', 'd': 'd', 'S': 'si', 'D': 'di'}
def canon(r):
    if re.match(r'[xyz]mm\d+$', r): return 'xmm' + r[3:]
    return GP.get(r, r)
def klass(r): return 'xmm' if r.startswith('xmm') else 'mm' if r.startswith('mm') or r.startswith('st') else 'gp'

NONE = re.compile(r'(cmp[bwlq]?|test[bwlq]?|u?comis[sd]|[slm]fence|cld|std|nop|femms|emms|prefetch\w*|pause|j\w+)$')
STRING = re.compile(r'(movs|stos|lods|scas|cmps)([bwlq])$')
ONE = re.compile(r'(div|idiv|mul|imul)[bwlq]?$')
MOVES = re.compile(r'(v?mov\w*|lea[wlq]?|cvt\w+|bs[rf][wlq]?|set\w+|sqrt\w+|rcp\w+|rsqrt\w+|pshuf\w+|popcnt[wlq]?|lzcnt[wlq]?|tzcnt[wlq]?)$')
CHANGES = re.compile(r'((add|sub|and|or|xor|adc|sbb|shl|shr|sal|sar|rol|ror|inc|dec|neg|not|imul|bswap|cmov\w+|bt[src])[bwlq]?|p(add|sub|mul|madd|avg|min|max|and|andn|or|xor|cmp|unpck|ack|sll|srl|sra|sad|insr)\w*|packssdw|packsswb|packuswb|(add|sub|mul|div|min|max|and|andn|or|xor|shuf|unpck[lh]|cmp|hadd)[ps][sd])$')

class Operand(object):
    def __init__(self, n, c):
        alt = c.split('|')
        self.n, self.out = n, c.startswith('=')
        b = [x.lstrip('=&+%') for x in alt]
        self.early = any('&' in x for x in alt)
        self.indirect = b[0].startswith('*')
        b = [x.lstrip('*') for x in b]
        self.tied = int(b[0]) if b[0].isdigit() else None
        m = re.match(r'\{(\w+)\}$', b[0])
        self.reg = canon(m.group(1)) if m else LETTER.get(b[0]) if len(b) == 1 else None
        self.mem = self.indirect or (all(set(x) <= set('mo') for x in b) and self.tied is None)
        self.maymem = self.mem or any('m' in x for x in b)
        self.klass = klass(self.reg) if self.reg else 'xmm' if b[0] in ('x', 'v') else 'mm' if b[0] == 'y' else 'gp'
        self.size = None

def instructions(text):
    """[(prefix, mnemonic, operands)]"""
    out = []; prefix = None
    for line in re.split(r'[\n;]', re.sub(r'#.*', '', text)):
        line = line.strip()
        while True:
            m = re.match(r'(rep\w*|lock)\b\s*(.*)$', line)
            if m is None: break
            prefix, line = m.group(1), m.group(2)
        if not line or line.endswith(':') or line.startswith('.'): continue
        m = re.match(r'(\S+)\s*(.*)$', line)
        ops = re.findall(r'(?:[^,(]|\([^)]*\))+', m.group(2))
        out.append((prefix, m.group(1).lower(), [x.strip() for x in ops if x.strip()])); prefix = None
    return out

class Unknown(Exception): pass

class Statement(object):
    def __init__(self, text, cons, sizes):
        cs = [c for c in cons.split(',') if c]
        self.clobbers = {canon(c[2:-1]) for c in cs if c.startswith('~')}
        self.ops = [Operand(i, c) for i, c in enumerate(c for c in cs if not c.startswith(('~', '!')))]
        k = 0
        for o in self.ops:
            if not o.out or o.indirect:
                if k < len(sizes) and sizes[k] >= 0: o.size = sizes[k]
                k += 1
        for o in self.ops:
            if o.tied is not None: t = self.ops[o.tied]; t.init = True; o.reg, o.klass = t.reg, t.klass
        self.init = {o.tied for o in self.ops if o.tied is not None}
        self.code = instructions(text)
        self.memory = 'memory' in self.clobbers
        self.rules = 0
        self.mm = any(re.match(r'%mm\d', x) for _, _, ops in self.code for x in ops)
        self.emms = any(m in ('emms', 'femms') for _, m, _ in self.code)
    def name(self, s):
        """('op', Operand) | ('reg', name) | ('mem', registers) | None for numbers"""
        m = re.match(r'\$(\d+)$', s) or re.match(r'\$\{(\d+)(?::\w)?\}$', s)
        if m:
            if int(m.group(1)) >= len(self.ops): raise Unknown(s)
            return 'op', self.ops[int(m.group(1))]
        if s.startswith('$$'): return None
        if '(' in s: return 'mem', [canon(x) for x in re.findall(r'%(\w+)', s)]
        m = re.match(r'%(\w+(?:\(\d\))?)$', s)
        if m: return 'reg', canon(m.group(1))
        if re.match(r'[\w.]+$', s): return None         # a label
        raise Unknown(s)
    def width(self, mn, ops):
        """bytes a memory operand of the instruction covers, where the instruction says so"""
        if re.match(r'(movq|movntq|cvtps2pi|cvtpi2ps|cvtpi2pd|movlps|movhps|movsd|cvtsd2si|addsd|subsd|mulsd|divsd)$', mn): return 8
        if re.match(r'(movd|movss|cvtss2si|cvttss2si|cvtsi2ss|addss|subss|mulss|divss)$', mn): return 4
        if re.match(r'\w+(ps|pd|dqu|dqa|ntdq)$', mn): return 16
        if mn.startswith('p') and any(x.startswith('%xmm') for x in ops): return 16
        if mn.startswith('p') and any(x.startswith('%mm') for x in ops): return 8
        if re.match(r'\w+l$', mn): return 4
        return None
    def check(self):
        """[(rule, message)]"""
        bad = []; written = set(self.init); gone = []      # gone: outputs already overwritten that may share a register with inputs
        covered = 0; declared = sum(o.size or 0 for o in self.ops if o.mem)
        def read(x, why):
            if x is None: return
            kind, o = x
            if kind == 'op':
                self.rules += 1
                if o.out and not o.mem and o.n not in written: bad.append(('unset', '%s reads operand %d, which is only an output and not set yet' % (why, o.n)))
                if not o.out or o.mem:
                    for w in gone:
                        if o.n == w.n or o.tied == w.n: continue
                        if not o.mem and (o.klass != w.klass or (o.reg and w.reg and o.reg != w.reg)): continue
                        if o.mem and w.klass != 'gp': continue
                        bad.append(('early', '%s reads operand %d after output %d was written, and the compiler may have put both in one register' % (why, o.n, w.n)))
            elif kind == 'reg':
                for w in self.ops:
                    if w.out and w.reg == o and w.n not in written:
                        self.rules += 1; bad.append(('unset', '%s reads %%%s, which is only an output and not set yet' % (why, o)))
        def write(x, why):
            if x is None: return
            kind, o = x
            self.rules += 1
            if kind == 'mem':
                if not self.memory: bad.append(('memory', '%s writes memory, which is not declared' % why))
                return
            if kind == 'reg':
                if o in ('sp',): bad.append(('register', '%s changes the stack pointer' % why)); return
                outs = [w for w in self.ops if w.out and w.reg == o and not w.mem]
                if not outs:
                    if o not in self.clobbers: bad.append(('register', '%s changes %%%s, which is neither an output nor in the list of changed registers' % (why, o)))
                    return
                o = outs[0]
            if o.mem:
                if not o.out and not self.memory: bad.append(('memory', '%s writes operand %d, which is only an input' % (why, o.n)))
                return
            if not o.out and o.tied is None:
                bad.append(('input', '%s changes operand %d, which is only an input' % (why, o.n))); return
            t = o if o.out else self.ops[o.tied]
            written.add(t.n)
            if not t.early and t not in gone: gone.append(t)
        for prefix, mn, ops in self.code:
            why = ' '.join([prefix] if prefix else []) + (' ' if prefix else '') + mn + ' ' + ', '.join(ops)
            xs = [self.name(x) for x in ops]
            for x in xs:
                if x and x[0] == 'op' and x[1].mem and x[1].size is not None:
                    w = self.width(mn, ops)
                    self.rules += 1
                    if w and w > x[1].size:
                        covered = max(covered, w)
                        if not self.memory and w * len({o.n for o in self.ops if o.mem}) > declared:
                            bad.append(('size', '%s covers %d bytes of operand %d, of which %d are declared' % (why, w, x[1].n, x[1].size)))
            m = STRING.match(mn)
            if m and not ops:
                for r in {'movs': ('si', 'di'), 'stos': ('di',), 'lods': ('si', 'a'), 'scas': ('di',), 'cmps': ('si', 'di')}[m.group(1)] + (('c',) if prefix and prefix.startswith('rep') else ()): write(('reg', r), why)
                if m.group(1) in ('movs', 'stos'): write(('mem', ()), why)
                continue
            if NONE.match(mn):
                for x in xs: read(x, why)
                continue
            if mn in ('cltd', 'cdq', 'cqto'): read(('reg', 'a'), why); write(('reg', 'd'), why); continue
            if mn in ('cpuid', 'rdtsc'):
                for r in ('abcd' if mn == 'cpuid' else 'ad'): write(('reg', r), why)
                continue
            if re.match(r'(xchg|xadd|cmpxchg)[bwlq]?$', mn):
                for x in xs: read(x, why)
                for x in xs if mn.startswith('x') else xs[1:] + [('reg', 'a')]: write(x, why)
                continue
            if ONE.match(mn) and len(ops) == 1:
                read(xs[0], why); read(('reg', 'a'), why)
                if 'div' in mn: read(('reg', 'd'), why)
                write(('reg', 'a'), why); write(('reg', 'd'), why); continue
            clear = len(ops) == 2 and ops[0] == ops[1] and re.match(r'(p?xor\w*|psub\w*|sub[bwlq]?)$', mn)
            moves = MOVES.match(mn)
            if not moves and not CHANGES.match(mn): raise Unknown(mn)
            for x in xs[:-1]:
                if not clear: read(x, why)
            if not moves and not clear and xs: read(xs[-1], why)
            if xs: write(xs[-1], why)
        return sorted(set(bad))

def left_in_use(m, stmts):
    """for every function: (where MMX registers were taken into use that may still be at its end, may what was in use before it remain so?),
    or None if it does not return"""
    summary = {n: None if f.get('blocks') else (None, True) for n, f in m.fns.items()}
    callers = {}
    for n, f in m.fns.items():
        for b in f.get('blocks') or []:
            for i in code(b):
                for g in target(i): callers.setdefault(g, set()).add(n)
    todo = sorted(n for n, f in m.fns.items() if f.get('blocks'))
    while todo:
        n = todo.pop(); f = m.fns[n]
        inn = {0: (None, True)}; work = [0]; res = None
        while work:
            b = work.pop(); d, keep = inn[b]; alive = True
            for i in code(f['blocks'][b]):
                if id(i) in stmts:
                    s = stmts[id(i)]
                    if s.emms: d, keep = None, False
                    elif s.mm: d = d or '%s:%d' % tuple(i.get('l') or (m.fns[n]['dem'], 0))
                else:
                    for g in target(i):
                        r = summary.get(g, (None, True))
                        if r is None: alive = False; break
                        d, keep = r[0] or (d if r[1] else None), keep and r[1]
                if not alive: break
                if i['op'] in ('ret', 'resume'): res = (d, keep) if res is None else (res[0] or d, res[1] or keep)
                for x in succs(i):
                    o = inn.get(x); w = (d, keep) if o is None else (o[0] or d, o[1] or keep)
                    if w != o: inn[x] = w; work.append(x)
        if res != summary[n]:
            summary[n] = res
            todo += sorted(callers.get(n, ()))
    return summary

def code(b): return b['ins'] if isinstance(b, dict) else b
def target(i):
    c = i.get('callee')
    return [c['g']] if isinstance(c, dict) and 'g' in c else []

FILES = ['elements.cc', 'bits.cc', 'utf8.cc', 'memory.cc', 'strings.cc', 'asm.cc']
def declared(r):
    r.rule = ('for every inline assembly statement of the library: each register an instruction writes is an output or in the list of changed registers, no input is changed, memory is declared or the memory clobber given, '
              'no output is read before it is set or written before the last use of an input that may share its register; and no public function returns with MMX registers in use (typestate over the call graph)')
    r.trusted = ['clang passes the statement and its constraints unchanged to the compiler that users build with', 'the table of which operands x86 instructions write']
    m = Module(build.module([mem.P(f) for f in FILES]))
    stmts = {}; seen = {}
    for n, f in sorted(m.fns.items()):
        for b in f.get('blocks') or []:
            for i in code(b):
                c = i.get('callee')
                if not isinstance(c, dict) or 'asm' not in c: continue
                s = stmts[id(i)] = Statement(c['asm'], c['cons'], i.get('et', []))
                r.count('statements_in_functions')
                if not s.code: r.count('barriers_without_instructions'); continue
                seen.setdefault((c['asm'], c['cons'], tuple(i.get('et', []))), []).append((f['dem'], i, s))
    for k in sorted(seen):
        dem, i, s = seen[k][0]
        where = '%s:%d in %s' % (tuple(i.get('l') or ('?', 0)) + (dem,))
        r.count('distinct_statements'); r.count('instructions', len(s.code))
        try: bad = s.check()
        except Unknown as x:
            r.undecide(where, 'unknown instruction or operand ' + str(x)); continue
        if len(r.samples) < 5: r.sample('%s: %s' % (where, '; '.join(mn + ' ' + ', '.join(o) for _, mn, o in s.code)))
        r.count('register_and_memory_effects', s.rules)
        r.ok(s.rules - len(bad) if s.rules > len(bad) else 0)
        for rule, msg in bad: r.violate('%s/%s/%s' % (dem, rule, mem.clean(msg)), where, msg, k[0])
    use = left_in_use(m, stmts)
    for n, f in sorted(m.fns.items()):
        if not f.get('blocks') or not (n.startswith(('P_', 'use_')) or n in PUBLIC): continue
        r.count('entry_points')
        d = use[n] and use[n][0]
        if d: r.violate('%s/in use/%s' % (f['dem'], d.split(':')[0]), d, 'MMX registers may still be in use at the end of %s' % f['dem'], None)
        else: r.ok()
    r.minimum.update(distinct_statements=40, entry_points=600)
PUBLIC = ('copy_n_fast', 'copy_backward_fast', 'fill_n8_fast', 'fill_n16_fast', 'fill_n32_fast', 'rotate_fast')
