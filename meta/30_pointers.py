TB = '''Trusts the clang front end, the interpreter's transfer functions and its model of object lifetimes.'''
PROPS = [
 dict(id='P01', title='Smart pointers and scope guards release what they own exactly once',
  statement='''Each object given to auto_ptr, unique_ptr (single and array) or shared_ptr is destroyed and freed exactly once, with the matching delete, when and only when its last owner is destroyed, reset or reassigned, and not before, for every sequence of construct, copy, move, swap, release, reset and (self-)assignment; get, use_count and comparisons report the object held.
  shared_ptr keeps this when other threads concurrently copy and drop references to the same object: only the decrement that reaches zero destroys, and nothing of the object is touched afterwards.
  scope_exit and unique_resource run their action exactly once unless released, across moves, resets and reassignment.''',
  over=['schedules', 'histories'], qtext='every operation on every kind of pointer and guard in empty, sole and shared states, with any number of references held by other threads at any moment',
  why='Tests create a few pointers in one thread and look at printed messages; races of two last owners, self-assignment and moved-from guards are not sampled.',
  files=['umemory.h', 'uatomic.h'], mech=[('reference count', 'umemory.h: shared_ptr::reset, shared_ptr::operator=, uatomic.h: atomic::sub_fetch'), ('ownership transfer', 'umemory.h: unique_ptr::operator=, unique_ptr::reset, auto_ptr::release'), ('guards', 'umemory.h: scope_exit, unique_resource::reset, operator=')],
  technique='object-lifetime typestate with an arbitrary-other-threads model of the reference count, abstract interpretation over LLVM IR', note='One operation at a time from enumerated ownership states. Failure to allocate the reference count is excluded. ' + TB),
 dict(id='A01', title='Atomic operations are indivisible and return the documented value',
  statement='''Every atomic<T> member and operator reads or changes its cell with exactly one atomic instruction and no ordinary access, with the memory order asked for (sequentially consistent by default).
  fetch_x and postfix operators return the old value, x_fetch and prefix or compound operators leave and yield the new one, compare_exchange stores only when the expected value was found and reports the value found otherwise, and atomic_flag test_and_set returns the previous state.''',
  over=['schedules', 'inputs'], qtext='all cell contents, arguments and interleavings of other threads between any two accesses, for int and unsigned long',
  why='A non-atomic read-modify-write gives the same result as an atomic one in a single-threaded test.',
  files=['uatomic.h'], mech=[('read-modify-write members', 'uatomic.h: atomic::fetch_add ... xor_fetch'), ('operators', 'uatomic.h: atomic::operator++, operator+=, operator='), ('flag', 'uatomic.h: atomic_flag')],
  technique='effect analysis of atomic and ordinary accesses plus value relation, abstract interpretation over LLVM IR', note='Indivisibility and ordering of single instructions are the compiler\'s. ' + TB),
]
