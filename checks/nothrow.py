"""E01: operations that promise not to throw."""
import re
import mem, build
from memcheck import *

FILES = ['memory.cc,strings.cc', 'streams.cc', 'vectors.cc', 'pointers.cc', 'sorted.cc', 'elements.cc', 'bits.cc', 'functors.cc', 'adaptors.cc', 'chrono.cc', 'atomics.cc', 'algo.cc', 'search.cc', 'roundtrip.cc']
# (operation, what throws, why it cannot happen there)
RULED_OUT = [
    (r'ustl::(ostringstream::link|memblock::manage)\(', r'ustl::cmemlink::link\(', 'only for no memory of non-zero size, which these exclude (asserted precondition)'),
    (r'ustl::fstream::~fstream\(', r'ustl::fstream::set_and_throw\(', 'the destructor turns exceptions off first'),
    (r'ustl::(fstream::(detach|~fstream)|memblock::clear|string::clear|memblock::~memblock|string::~string)\(', r'ustl::(memblock::reserve|cmemlink::link)\(', 'nothing is allocated to shrink to nothing; decided by M03'),
    (r'ustl::shared_ptr<.*>::~shared_ptr\(', r'(tmalloc|operator new)', 'reset without an object makes no count; decided by P01'),
]
def code(b): return b['ins'] if isinstance(b, dict) else b
def g_of(i):
    c = i.get('callee')
    return c.get('g') if isinstance(c, dict) else None

def promises(r):
    r.rule = ('no exception that is thrown inside an operation declared not to throw (or a destructor) leaves it: over the call graph, no throw expression is reachable through calls that do not catch it from a place '
              'whose unwinding ends the program; four families of paths are ruled out by the stated arguments')
    r.trusted = ['indirect and virtual calls, functions of the C library and of element types do not throw', 'clang marks each call in a function declared not to throw that may throw with an unwind edge that ends the program']
    done = {}
    for fs in FILES:
        m = Module(build.module([mem.P(f) for f in fs.split(',')], tag='x' + fs.split('.')[0]))
        scan(r, m, done)
    for (dem, thrower), (where, chain, n) in sorted(done.items()):
        why = next((w for a, b, w in RULED_OUT if re.match(a, dem) and re.match(b, thrower)), None)
        if why: r.count('ruled_out'); r.ok(); r.sample('%s: %s' % (dem, why)); continue
        r.violate('%s/lets through/%s' % (dem, mem.clean(thrower)), where, '%s promises not to throw, but an exception thrown in %s leaves it' % (dem, thrower), ' <- '.join(chain))
    r.minimum.update(operations_that_promise=150, call_sites=100)

def scan(r, m, done):
    edges, throws, guarded, promised = {}, {}, [], set()
    for n, f in m.fns.items():
        bs = f.get('blocks') or []
        if f.get('nounwind'): promised.add(n)
        for b in bs:
            for i in code(b):
                if i['op'] not in ('call', 'invoke'): continue
                g = g_of(i)
                if i.get('nounwind'):
                    if g: promised.add(g)
                    continue
                if not g: continue
                if g in ('__cxa_throw', '__cxa_rethrow') :
                    leaves = i['op'] == 'call' or leaving(bs, i['unwind'])
                    if leaves != 'no': throws.setdefault(n, i.get('l'))
                    continue
                if i['op'] == 'call': edges.setdefault(n, []).append((g, i.get('l')))
                else:
                    how = leaving(bs, i['unwind'])
                    if how == 'resume': edges.setdefault(n, []).append((g, i.get('l')))
                    elif how == 'end': guarded.append((n, g, i.get('l')))
    sets = {n: {n} for n in throws}; via = {}
    back = {}
    for n, es in edges.items():
        for g, l in es: back.setdefault(g, []).append((n, l))
    todo = list(throws)
    while todo:
        g = todo.pop()
        for n, l in back.get(g, ()):
            new = sets[g] - sets.setdefault(n, set())
            if new:
                for t in new: via.setdefault((n, t), (g, l))
                sets[n] |= new; todo.append(n)
    ours = [n for n in promised if m.fns.get(n, {}).get('blocks') and 'ustl::' in m.dem(n) and not n.startswith(('P_', 'C_', 'Z_'))]
    r.count('operations_that_promise', len(ours)); r.count('call_sites', len(guarded)); r.count('throw_sites', len(throws))
    bad = set()
    for n, g, l in guarded:
        if n.startswith(('P_', 'C_', 'Z_')): continue
        for t in sets.get(g, ()):
            chain = [m.dem(g)]; k = g
            while (k, t) in via and len(chain) < 8: k = via[k, t][0]; chain.append(m.dem(k))
            bad.add(n); done.setdefault((m.dem(n), m.dem(t)), ('%s:%d' % tuple(l or ('?', 0)), chain, n))
    r.ok(len([n for n in ours if n not in bad]))

def leaving(bs, unwind):
    """what becomes of an exception there: 'resume' (goes on), 'end' (ends the program), 'no' (caught)"""
    seen = set(); todo = [unwind]; end = False
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        for k in code(bs[x]):
            if g_of(k) == '__cxa_begin_catch': break        # caught here; what the handler throws is looked at on its own
            if k['op'] == 'resume': return 'resume'
            if 'terminate' in str(g_of(k) or ''): end = True
            todo += succs(k)
    return 'end' if end else 'no'
