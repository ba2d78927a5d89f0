TB = '''Trusts the clang front end, the interpreter's transfer functions, C library contracts and the contracts of the x86 copy kernels; sizes and requests below 2^46.'''
F = ['uvector.h', 'umemory.h', 'ualgobase.h', 'memblock.cc', 'memblock.h', 'memlink.cc', 'memlink.h']
PROPS = [
 dict(id='M06', title='A vector owns its storage exactly once and stays inside it',
  statement='''Every vector<T> operation (construct, copy, move, assign, reserve, resize, insert, emplace, erase, push and pop, link, manage, shrink) reads and writes only inside the storage the vector or the argument range has, for every element size, count and position.
  After each operation the elements fit the capacity (reserve (n) makes it at least n) and the capacity fits the allocation, every live allocation belongs to exactly one vector, and none is freed twice, leaked or freed while merely linked.''',
  over=['inputs', 'histories'], qtext='all vector operations for element sizes 1, 2, 4, 8, 12 and 16; all counts and positions; empty, linked and owning vectors',
  why='Tests use vectors of a dozen ints; element-size scaling and capacity errors need other sizes and exact-capacity states to show.',
  files=F, mech=[('element to byte scaling', 'uvector.h: vector::reserve, resize, insert_hole, append_hole'), ('raw element loops', 'umemory.h: uninitialized_copy_n, uninitialized_fill_n, destroy'), ('storage', 'memblock.cc: memblock::reserve')],
  technique='typestate + linear-inequality abstract interpretation over LLVM IR, one instantiation per element size', note='Loops over elements solved by inferred invariants. push_back (v[i]) of an own element is excluded. ' + TB),
 dict(id='M07', title='Vector operations keep, move and create exactly the right elements',
  statement='''Inserting n elements at a position keeps the elements before it and shifts the others up by n; erasing shifts the later ones down; reserve, shrink and copy-on-write keep all; resize keeps the common prefix and fills the rest with the given value, or with zero for plain types.
  Copy, assignment and range or value construction yield exactly the source elements in order, the source is unchanged, and size() is the promised one.''',
  over=['inputs', 'histories'], qtext='for every element index, count and position, every ownership state, plain element types of sizes 1, 2, 4, 8 and 12',
  why='Tests compare printed vectors of a few ints after a few edits.',
  files=F, mech=[('hole opening and closing', 'uvector.h: vector::insert_hole, erase; memlink.h: memlink::insert, erase'), ('element copy loops', 'umemory.h: uninitialized_copy, uninitialized_fill; ualgobase.h: copy, fill')],
  technique='write-history (array store chain) abstract interpretation over LLVM IR with quantified loop summaries', note='The element index is symbolic, so each goal covers every element. Plain element types; class types are covered by M08. ' + TB),
 dict(id='M08', title='Vector elements are constructed once and destroyed once',
  statement='''For vectors of class types, every operation constructs an element only in a place where none lives, assigns, copies from and destroys only living elements, and never releases storage that still holds one.
  After each operation exactly the places below size() hold living elements.''',
  over=['inputs', 'histories'], qtext='all owning-vector operations over an element type with arbitrary constructors, assignment and destructor; all counts and positions',
  why='Tests use trivially destructible elements, so a missed or doubled destructor call shows nothing.',
  files=F, mech=[('destroying the tail', 'uvector.h: vector::resize, erase, destroy_all'), ('constructing holes', 'uvector.h: vector::insert, emplace; umemory.h: construct_at, uninitialized_fill'), ('range destruction', 'umemory.h: destroy, dtors')],
  technique='per-element typestate kept as a quantified write history, abstract interpretation over LLVM IR', note='Linked vectors of class types and constructors that throw are excluded. ' + TB),
]
