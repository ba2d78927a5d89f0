TB = '''Trusts the clang front end, the interpreter's transfer functions for LLVM IR and for the x86 instructions used, and the term simplifier (differentially tested against concrete evaluation).'''
PROPS = [
 dict(id='U01', title='UTF-8 encoding and decoding are exact inverses',
  statement='''For every code point below 2^31 the UTF-8 output iterators and the text stream write exactly the bytes RFC 2279 prescribes, Utf8Bytes and Utf8SequenceBytes (of the first byte) both equal the number of bytes written, and the UTF-8 input iterators give the same code point back and step over exactly those bytes.
  Decoding arbitrary, possibly malformed bytes never reads past the terminating zero of the text.''',
  over=['inputs'], qtext='all code points below 2^31 (all 31 bits symbolic), through pointers, char strings, binary streams and the text stream; all byte sequences for the decoder',
  why='Tests encode a few dozen characters; there are two billion, with nine boundary lengths and an inline-assembly length computation.',
  files=['utf8.h', 'ustring.h', 'mistream.h', 'mostream.h', 'sostream.cc'],
  mech=[('length', 'utf8.h: Utf8Bytes, Utf8SequenceBytes'), ('encoder', 'utf8.h: utf8out_iterator::operator='), ('decoder', 'utf8.h: utf8in_iterator::Read'), ('text stream', 'sostream.cc: ostringstream::iwrite (wchar_t)')],
  technique='abstract interpretation over LLVM IR and x86 asm with a bit-field value domain (exact per bit)',
  note='32 magnitude classes x 7 encoders/decoders; the low bits of each class are symbols, so each class is decided for all its members. ' + TB),
]
