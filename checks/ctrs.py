"""X01: sorted containers; Q01: queues, stacks, equality."""
import mem, spec
from memcheck import check_ownership
from ptr import RULES, TB

def exits(ent, e, kind, s, objs, label, st, init):
    """every live block belongs to a container that was given, and to one of them only"""
    return check_ownership(ent, e, kind, s, objs, label, st) + [x for x in spec.exits(ent, e, kind, s, objs, label, st, init) if x[0] != 'ownership']

def sorted_(r):
    r.rule = ('for every sorted container (size, content, storage), key and number of equal elements: lookups return the bounds of the equal elements, an insertion puts the element at the upper bound '
              '(or, where elements are unique and one is there, does nothing), erasure removes the equal elements, all others keep content and order, and the comparator is only asked about the key and an element')
    r.trusted = TB
    mem.analyse(r, ['sorted.cc', 'memory.cc'], exits, RULES, pat='^P_(set|multiset|map|multimap)_', entcls=spec.Spec, client=spec.SpecHeap)
    r.minimum.update(operations=100, exits=405)

def adaptors(r):
    r.rule = ('for every queue (whatever its storage holds of popped elements), stack and container: the elements seen from front to back (top to bottom) after each operation are the specified ones, '
              'and == holds exactly if sizes agree and no element differs')
    r.trusted = TB
    mem.analyse(r, ['adaptors.cc', 'memory.cc'], exits, RULES, pat='^P_(queue|stack|vector|list|set|map)_', entcls=spec.Spec, client=spec.SpecHeap)
    r.minimum.update(operations=30, exits=112)

def functors(r):
    r.rule = ('every function object, binder, composition, member adaptor and pair, given any arguments and any (uninterpreted) functions to wrap, returns or stores the specified value; '
              'every iterator adaptor at every place of every sequence denotes, moves and compares as specified')
    r.trusted = TB
    mem.analyse(r, ['functors.cc', 'memory.cc'], exits, RULES, pat='^P_(f|i)_', entcls=spec.Spec, client=spec.SpecHeap)
    r.minimum.update(operations=55, exits=135)
