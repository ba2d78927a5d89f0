TB = '''Trusts the clang front end to pass statements and constraints on unchanged, and a table of the operands that x86 instructions write.'''
PROPS = [
 dict(id='K02', title='Inline assembly changes only what it declares and frees the MMX registers',
  statement='''Every inline assembly statement of the library changes only registers and memory that it declares as changed, leaves its inputs as they are, and does not read a result before it is set, so a compiler that keeps values in other registers around an inlined call is right to do so.
  Every public operation that uses MMX registers has freed them again when it returns, so later floating point arithmetic is not disturbed.''',
  over=['programs'], qtext='all code into which the operations are inlined, with any register allocation and at any optimisation level; all paths through the operations',
  why='Tests are compiled once, at one optimisation level, with few values kept in registers around each call; a missing declaration shows only where the allocator happens to use the register, and MMX state only in extended precision arithmetic.',
  files=['simd.h', 'utuple.h', 'umatrix.h', 'ulaalgo.h', 'uutility.h', 'utf8.h', 'sistream.h', 'ualgobase.cc', 'uspecial.h'],
  mech=[('packed operations', 'simd.h: STD_MMX_ARGS, DBL_MMX_ARGS, STD_SSE_ARGS and the statements that use them'), ('tuples and matrices', 'utuple.h, umatrix.h, ulaalgo.h: SSE specialisations'), ('block copies', 'ualgobase.cc: movsb, movsd, stosv, simd_block_copy, simd_block_store, simd_block_cleanup'), ('bit scanning', 'uutility.h: FirstBit, NextPow2; utf8.h: Utf8Bytes')],
  technique='effect analysis of inline assembly in LLVM IR against its constraints, and interprocedural typestate of the MMX registers',
  note='Values that statements hand on to each other in registers (the matrix products, block fills) are left out: that depends on the compiler not using these registers in between. The direction flag is part of K01. ' + TB),
]
