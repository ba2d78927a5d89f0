MEMF = ['memlink.h', 'memlink.cc', 'cmemlink.h', 'cmemlink.cc', 'memblock.h', 'memblock.cc', 'ustring.h', 'ustring.cc']
TB = '''Trusts the clang front end, the interpreter's transfer functions, the contracts given for malloc/realloc/free/memcpy/memmove/strlen
and for the x86 copy/fill/rotate kernels; sizes and requests below 2^46.'''
PROPS = [
 dict(id='M01', title='Memory blocks and strings release exactly the memory they own, exactly once',
  statement='''Whatever sequence of constructors, assignments, moves, swaps, inserts, erases, resizes, links and stream reads is applied to a memory block or string,
  heap memory it allocated or was given to manage is released exactly once and never used after release, also when the operation fails with an exception.
  Memory it merely links to is never released and never written through: a modifying operation first makes its own copy.''',
  over=['histories', 'inputs', 'fault_sequences'],
  qtext='every public operation of the memory block and string classes, from every reachable ownership state of each argument (empty, linked, owning), for all sizes, positions and contents, with every allocation allowed to fail',
  why='The tests run a few dozen fixed histories without a leak or ownership checker; they never make an allocation fail and seldom modify linked objects.',
  files=MEMF, mech=[('capacity() != 0 means the block is owned', 'memblock.h: memblock::is_linked, memblock.cc: memblock::deallocate'),
     ('copy-on-write through reserve/copy_link', 'memblock.cc: memblock::reserve, memblock::copy_link'), ('ownership transfer', 'memblock.cc: memblock::manage, memblock::unlink, memblock::swap')],
  technique='typestate/ownership abstract interpretation over LLVM IR (live/freed per block, all paths incl. exceptional)',
  note='Fixpoint over all paths of ~100 operations x entry ownership states; inductive over the class invariant. ' + TB),
 dict(id='M02', title='No memory block or string operation leaves its storage',
  statement='''Every read and write performed by the memory block, link and string operations stays inside the bytes the object (or the caller-supplied range) really has, for every size, position and content, when the documented preconditions hold.
  After each operation the reported size (plus the string terminator) fits in the reported capacity, and the capacity in the memory really allocated; reserve (n) leaves room for n.''',
  over=['inputs', 'histories'], qtext='all public operations, all sizes below 2^46, all positions allowed by the documentation, all three ownership states',
  why='Tests use small strings and fixed positions; out-of-range reads by one byte are invisible to them.',
  files=MEMF, mech=[('capacity growth', 'memblock.cc: memblock::reserve'), ('terminator headroom', 'ustring.cc: string::minimumFreeCapacity'), ('clamping of positions', 'ustring.h: string::iat')],
  technique='abstract interpretation with linear-inequality (polyhedral) bounds domain over LLVM IR', note='Every access discharged by Fourier-Motzkin entailment from path facts and inferred loop invariants. ' + TB),
 dict(id='M03', title='Failed allocation throws bad_alloc and leaves the objects as they were',
  statement='''When memory cannot be obtained, a memory block or string operation ends with an exception, never with a null access, and every block or string involved keeps the data pointer, size, capacity and bytes it had before.
  Only operations that replace the whole contents from a stream, or assign a repeated character, may leave their target emptied, and even then it stays valid.''',
  over=['fault_sequences', 'inputs'], qtext='each allocation in each operation may fail, from every ownership state, for all sizes and contents',
  why='Allocation never fails in the tests.', files=MEMF + ['uexception.h', 'uexception.cc'],
  mech=[('throw on null from realloc', 'memblock.cc: memblock::reserve'), ('allocate before modifying', 'memblock.cc: memblock::insert, ustring.cc: string::append')],
  technique='exceptional-exit effect analysis by abstract interpretation over LLVM IR', note='Compares the abstract object state (and one arbitrary content byte) at each throwing exit with the entry state. ' + TB),
 dict(id='M04', title='A string that owns its text is always zero-terminated',
  statement='''After every string operation the character just past the last one is a zero byte that lies inside the string's allocation, so c_str() of a string that owns its text can be given to C functions.
  This holds after growth, shrinking, insertion, erasure, replacement, assignment, copying, swapping, copy-on-write and reading from a stream.''',
  over=['inputs', 'histories'], qtext='all string operations, all ownership states of all operands, all sizes and positions',
  why='Tests print strings they build; a missing terminator usually prints correctly because the heap happens to hold zeros.', files=['ustring.h', 'ustring.cc', 'memblock.cc'],
  mech=[('explicit terminator stores', 'ustring.cc: string::resize, insert, erase, replace'), ('zero fill of the spare byte', 'memblock.cc: memblock::reserve'), ('headroom', 'ustring.cc: string::minimumFreeCapacity')],
  technique='abstract interpretation with symbolic-offset memory cells over LLVM IR', note='Linked strings are exempt (documented), as are moved-from strings. ' + TB),
 dict(id='M05', title='Editing a block or string moves and keeps exactly the right bytes',
  statement='''Insertion keeps the bytes before the position and shifts the rest up by the inserted length; erasure keeps the bytes before and shifts the rest down; resizing, reserving, shrinking and copy-on-write keep the common prefix.
  Copying, assigning and appending put byte k of the source at the promised offset of the destination and leave the source unchanged; the size afterwards is the promised one.''',
  over=['inputs', 'histories'], qtext='for every byte index k, every size and position, every ownership state of every operand',
  why='Tests check a handful of literals at fixed positions, mostly on strings that already own enough capacity.', files=MEMF + ['ualgobase.h', 'ualgobase.cc'],
  mech=[('range shifting', 'memlink.h: memlink::insert, memlink::erase'), ('reallocation keeps content', 'memblock.cc: memblock::reserve'), ('copy helpers', 'ualgobase.h: copy_n, copy_backward, rotate')],
  technique='relational value tracking (one symbolic byte) by abstract interpretation over LLVM IR', note='The tagged byte stands for every byte because its offset is symbolic. ' + TB),
]
