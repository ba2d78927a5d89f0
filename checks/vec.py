"""M06/M07: vector storage and element sequence."""
import vectors, lifetime
from mem import *

def storage(r):
    r.rule = ('typestate and linear-inequality analysis of every vector<T> operation for element sizes 1, 2, 4, 8 and 12 from empty/linked/owning states: '
              'each live block owned exactly once at every exit, size <= capacity <= bytes allocated, every access inside the storage')
    r.trusted = TB
    analyse(r, ['memory.cc', 'vectors.cc'], own_exit, {'ownership', 'bounds', 'null', 'overlap'}, pat='^P_vec_')
    r.minimum.update(operations=150, exits=450)

def content(r):
    r.rule = ('write-history analysis (loop summaries included): for every vector<T> operation and a symbolic element index, the element is found afterwards, '
              'bit for bit, at the index the operation promises, and the size is the promised one')
    r.trusted = TB
    names = set('vec_%s_%s' % (t, o) for t in ('char', 'ushort_', 'int', 'double', 'trio', 'pvoid') for o in vectors.V)
    analyse(r, ['memory.cc', 'vectors.cc'], vectors.check_vec, {'edit', 'overlap'}, entcls=vectors.VecEntry, names=names)
    r.minimum.update(operations=120, exits=450)

LIFE = ('ctor ctor_n ctor_nv ctor_copy ctor_move ctor_pp ctor_il dtor eq eq_self eq_move swap reserve resize resize_v push_back push_back_m emplace_back '
        'pop_back clear shrink deallocate copy_link assign_pp assign_nv insert_v insert_m emplace insert_nv insert_pp erase erase_pp').split()
def lifetimes(r):
    r.rule = ('typestate analysis (constructed / not constructed, per element place, as a write history with loop summaries) of every vector operation over an element type '
              'with opaque constructors and destructor: only live elements are destroyed, assigned or copied, only dead places are constructed, and at every exit exactly the '
              'places below size() are live')
    r.trusted = TB
    analyse(r, ['memory.cc', 'vectors.cc'], lifetime.check_life, {'lifetime', 'bounds', 'ownership', 'null'}, entcls=lifetime.LifeEntry, client=lifetime.Life,
            names=set('vec_El_' + o for o in LIFE))
    r.minimum.update(operations=28, exits=45)
