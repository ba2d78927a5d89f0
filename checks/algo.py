"""G01: searches; G02: algorithms that write."""
import re
import mem, spec
from ptr import RULES, TB, SPECS

def search(r):
    r.rule = 'for every array length, content and comparator answer admitted by the situation a probe sets up, the returned position, flag, count or fold is the specified one; every access stays inside the arrays'
    r.trusted = TB
    mem.analyse(r, ['search.cc', 'memory.cc'], spec.exits, RULES, pat='^P_', entcls=spec.Spec, client=spec.SpecHeap, names=set(re.findall(r'^(?:PROBE|A|K|FIRST)\s*\((\w+)', open(mem.P('search.cc')).read(), re.M)))

def writes(r):
    r.rule = 'for every array length, content and functor answer, the output range holds the specified elements, every round of a filter or fold does the specified step, and every access stays inside the arrays'
    r.trusted = TB
    mem.analyse(r, ['algo.cc', 'memory.cc'], spec.exits, RULES, pat='^P_', entcls=spec.Spec, client=spec.SpecHeap, names=set(re.findall(r'^(?:PROBE|W|M|Q|N)\s*\((\w+)', open(mem.P('algo.cc')).read(), re.M)))
