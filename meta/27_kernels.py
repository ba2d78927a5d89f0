PROPS = [
 dict(id='K01', title='The assembly copy, fill and rotate kernels equal their plain definitions',
  statement='''copy_n_fast, copy_backward_fast, fill_n8_fast, fill_n16_fast, fill_n32_fast and rotate_fast leave element k of the destination holding exactly what the plain copy, backward copy, fill or rotation puts there, for every count (zero included), every address alignment and every permitted overlap of source and destination.
  They touch no byte outside the given ranges, and leave the processor's direction flag clear.''',
  over=['inputs'], qtext='all counts below 2^46, all 16x16 (4x4 for backward copies) alignment combinations, separate blocks and overlap in the permitted direction, all contents',
  why='All containers, strings and streams move their bytes through these; the tests use a few small, aligned ranges, and which instructions run depends on alignment and length.',
  files=['ualgobase.cc', 'ualgobase.h', 'simd.h'],
  mech=[('head/blocks/tail split', 'ualgobase.cc: copy_n_fast, copy_backward_fast, fill_n_fast'), ('string instructions', 'ualgobase.cc: movsb, movsd, stosv'), ('rotation through a buffer', 'ualgobase.cc: rotate_fast')],
  technique='abstract interpretation over LLVM IR and x86 asm: alignment-partitioned states, write-history chains with tiled-loop summaries, linear-inequality domain',
  note='Element index symbolic; answers that depend on which part of the kernel wrote an element are split into its cases. Trusts the clang front end and the instruction semantics in lib/x86.py.'),
]
