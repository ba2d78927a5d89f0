"""P01: smart pointers and scope guards; A01: atomics."""
import mem, spec

RULES = {'require', 'life', 'ownership', 'bounds', 'null', 'overlap'}
TB = mem.TB[:3] + ['the lifetime and thread model in lib/spec.py']

def pointers(r):
    r.rule = ('typestate analysis (alive/destroyed per object, live/released per block, number of runs per guarded action) of scenario probes over every path, with '
              'other threads\' references modelled as an arbitrary addend of every atomic access; every stated condition is proved on every path')
    r.trusted = TB
    mem.analyse(r, ['pointers.cc', 'memory.cc'], spec.exits, RULES, names=SPECS('pointers.cc'), entcls=spec.Spec, client=spec.SpecHeap)

def atomics(r):
    r.rule = ('abstract interpretation of every atomic operation on a cell with arbitrary content: result and new content equal the documented function of old content and argument, '
              'the cell is touched by exactly one atomic instruction of the requested memory order and by no ordinary access')
    r.trusted = TB
    mem.analyse(r, ['atomics.cc', 'memory.cc'], spec.exits, RULES, pat='^P_atomic_', entcls=spec.Spec, client=spec.SpecHeap)
    r.minimum.update(operations=60)

def SPECS(f):
    import re
    return set(re.findall(r'^(?:PROBE|PROBER|S)\s*\((\w+)', open(mem.P(f)).read(), re.M))
