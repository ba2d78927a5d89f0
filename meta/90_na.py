PROPS = [
 dict(id='W01', title='Numbers written as text read back as the same numbers',
  statement='''Every integer, boolean and floating point number that is written to a text stream in some base, width and precision, or formatted into a string, is written as its standard representation, and reading that text gives the number back (to the precision that was written).''',
  over=['inputs'], qtext='all numbers, bases, widths, precisions and stream flags',
  why='Tests print a few numbers of each type; extreme values, other bases, signs with padding and truncated buffers are not sampled.',
  files=['sostream.cc', 'sistream.cc', 'sostream.h', 'sistream.h', 'ustring.cc'], mech=[('writing numbers', 'sostream.h, sostream.cc: ostringstream::iwrite, fmtstring, encode_dec'), ('reading numbers', 'sistream.cc: istringstream::read, iread'), ('formatting', 'ustring.cc: string::vformat')],
  technique='none',
  note='Not claimed.',
  na='The digits of a number come out of loops whose count is the number of digits and out of snprintf and strtod of the C library: equality of the decimal text with the number is a fact about run-time values (division by the base, repeated) that no sound static argument in reach bounds, and a contract for snprintf and strtod would assume the property. Bounds and ownership of the buffers these functions use are covered by M02, S01 and S03.'),
]
