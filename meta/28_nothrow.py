TB = '''Trusts the clang front end to mark unwind edges out of calls, and indirect calls, C library functions and element types not to throw.'''
PROPS = [
 dict(id='E01', title='Operations that promise not to throw let no exception escape',
  statement='''No destructor and no operation that is declared not to throw lets an exception leave it: whatever its callees may throw (failed allocations, stream errors, bounds errors) is caught inside or cannot happen there.
  Code that relies on the promise, such as cleaning up, swapping, moving and describing an error, therefore never ends the program.''',
  over=['fault_sequences', 'programs'], qtext='all operations declared not to throw and all destructors, of the library and of its templates for representative elements; all failures their callees can report',
  why='A broken promise shows only when a callee actually fails inside the operation, and then as the end of the program; tests do not make allocations, system calls and streams fail in every callee.',
  files=['fstream.h', 'fstream.cc', 'memblock.h', 'memblock.cc', 'uexception.cc', 'ustdxept.cc', 'umemory.h', 'uvector.h', 'ustring.h', 'sostream.cc', 'ulist.h', 'umap.h'],
  mech=[('describing errors', 'uexception.cc, ustdxept.cc: exception::info, text_write, error_message'), ('cleaning up', 'memblock.cc: deallocate, unlink; fstream.cc: ~fstream, detach; umemory.h: destructors'), ('moving and swapping', 'memblock.h, uvector.h, ustring.h: swap, move constructors and assignments')],
  technique='interprocedural exception-propagation analysis over the call graph and unwind edges of LLVM IR',
  note='Four families of paths are ruled out by stated arguments (an asserted precondition; exceptions turned off first; nothing is allocated to shrink to nothing, decided by M03; reset without an object, decided by P01). ' + TB),
]
