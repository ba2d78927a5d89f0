TB = '''Trusts the clang front end, the interpreter's transfer functions and its decision of linear facts with division by constants.'''
PROPS = [
 dict(id='C01', title='Durations and times convert, compare and calculate exactly',
  statement='''Converting a duration or point in time to another unit multiplies or divides its count by exactly the ratio of the two periods, rounding towards zero, in the wider of the two counts; implicit conversion to a finer unit loses nothing.
  Sums, differences, multiples, steps and comparisons of durations and points in time, of equal or different units, are those of the counts in the finer unit.
  Every operation on a time in seconds and nanoseconds yields the specified total and keeps the nanoseconds in [0,10^9), before the epoch as well as after it.''',
  over=['inputs'], qtext='all 64-bit counts of every standard unit and of odd ratios; all second counts within 2^32 of the epoch and all nanosecond counts',
  why='Tests convert and add a handful of positive values; carries and borrows at the second, times before the epoch, narrow counts made from wide ones, and mixed units are not sampled.',
  files=['uchrono.h', 'uratio.h'], mech=[('conversion', 'uchrono.h: duration_cast, duration, time_point_cast'), ('arithmetic', 'uchrono.h: duration, time_point operators'), ('seconds and nanoseconds', 'uchrono.h: hrtime_t')],
  technique='specification probes decided by abstract interpretation over LLVM IR: canonical linear terms over the counts, integer division by constants as quotient facts',
  note='Counts are taken as mathematical integers as far as an operation does not overflow. Multiplication and division of a time in seconds and nanoseconds are decided for constants only, and floating-point representations are not covered. ' + TB),
 dict(id='V10', title='Tuples, arrays, matrices and packed operations act elementwise',
  statement='''Every arithmetic, assignment, comparison, conversion and packed operation on a tuple, an array or a matrix gives in each place what the operator gives for the elements in that place, whichever instruction set carries it out; saturating operations give the nearest representable number and averages round up.
  Matrix products, transposes, identities and vector products are those of linear algebra for every shape.
  The operand that is not assigned to, and everything outside the result, keeps its value.''',
  over=['inputs'], qtext='all element values of the covered shapes: sizes 1 to 16, 8 to 64-bit integers, float and double, square and oblong matrices, the MMX and SSE specialisations included',
  why='Tests use one or two small positive tuples per operation; overflow, signed and unsigned limits, non-square matrices, operands that must not change and the remaining specialisations are not sampled.',
  files=['utuple.h', 'uarray.h', 'umatrix.h', 'simd.h'], mech=[('elementwise operators', 'utuple.h, uarray.h'), ('packed operations', 'simd.h: SIMD_PACKEDOP1..3, MMX_PKOP2_SPEC, SSE specialisations'), ('matrices', 'umatrix.h: matrix, operator*, load_identity, transpose')],
  technique='specification probes decided by abstract interpretation over LLVM IR with the inline assembly interpreted instruction by instruction; floating-point results compared as sums of products',
  note='Floating-point sums and products are compared as polynomials over the reals, so the order of additions and rounding are not judged. The loops over elements have constant counts and are followed completely. ' + TB),
 dict(id='V11', title='Bit sets hold and change exactly the bits named',
  statement='''Setting, clearing, flipping and testing a bit or a range of bits affects or reports exactly those bits, for every bit number and content, and leaves the others alone.
  Complement, intersection, union, difference, equality, any, none and count are those of the bits; copies and conversions keep them.
  The text of a bit set has one digit per bit with the first bit last, and reading the text gives the bits back.''',
  over=['inputs'], qtext='all contents and all bit numbers of sets of 1, 32, 64, 70 and 96 bits; nine bit ranges; texts of 1 to 70 digits written and of 1 to 7 digits read',
  why='Tests print a few fixed patterns; bits in the second and later words, clearing a range that was set, and the word boundaries are not sampled.',
  files=['ubitset.h', 'ubitset.cc'], mech=[('bits', 'ubitset.h: bitset'), ('text', 'ubitset.cc: convert_to_bitstring, convert_from_bitstring')],
  technique='specification probes decided by abstract interpretation over LLVM IR: canonical bitwise terms over the words with a symbolic bit number',
  note='Whole-set operations treat the set as whole words; that bits past the last one count is recorded as a finding. ' + TB),
]
