TB = '''Trusts the clang front end, the interpreter's transfer functions, C library contracts and the contracts of the x86 copy kernels; sizes and requests below 2^46.'''
PROPS = [
 dict(id='S01', title='Binary streams stay inside their buffer and account for every byte',
  statement='''Every istream and ostream operation (typed and raw read and write, skip, seek, align, insert, erase, link) keeps the position between 0 and the stream size and touches only bytes inside the buffer and the argument.
  A request that fits moves the position by exactly its size and transfers its bytes unchanged to their place, leaving every other byte alone; a request that does not fit sets failbit, throws exactly when exceptions() enables it, and changes neither position nor data.''',
  over=['inputs', 'histories'], qtext='all stream sizes, positions, requests and contents, with exceptions enabled and disabled, for every operation of istream and ostream and every integral and floating type',
  why='Tests read and write a few well-formed buffers that always fit.',
  files=['mistream.h', 'mistream.cc', 'mostream.h', 'uios.h', 'uiosfunc.h', 'cmemlink.cc', 'memlink.cc'],
  mech=[('bounds check', 'mistream.h: istream::verify_remaining, mostream.h: ostream::verify_remaining'), ('position updates', 'mistream.h: istream::seek, read, iread; mostream.h: ostream::write, iwrite'), ('state and exception', 'mistream.cc: ios_base::overrun')],
  technique='relational abstract interpretation over LLVM IR: linear-inequality bounds plus byte tagging, per operation contract',
  note='All paths of ~120 operations x {fits, does not fit} x {exceptions on, off}; loops by inferred invariants. ' + TB),
 dict(id='S02', title='A value written to a binary stream reads back as the same value',
  statement='''For every type of the library that can be streamed (integral and floating types, pair, tuple, array, bitset, matrix, chrono, string, memory blocks, vector, list, set, map) and every value of it, operator<< writes exactly stream_size_of(value) bytes from a position that is a multiple of 8, operator>> consumes exactly the bytes that were written, and the value it yields equals the one written, whatever the destination held before.''',
  over=['inputs', 'histories'], qtext='all values, all element counts below 2^27, all buffers and start positions that are multiples of 8, empty and owning destinations, for 60 type instantiations',
  why='Tests stream a handful of values; length-dependent alignment and the size prefix take other paths for other counts.',
  files=['mistream.h', 'mostream.h', 'uctrstrm.h', 'ustring.cc', 'memblock.cc', 'cmemlink.cc', 'utuple.h', 'uarray.h', 'ubitset.h', 'uvector.h', 'uutility.h', 'strmsize.h'],
  mech=[('container streaming', 'uctrstrm.h: container_read, nr_container_read, container_write, nr_container_write'), ('size computation', 'strmsize.h: stream_size_of; uctrstrm.h: container_stream_size'), ('string length prefix', 'ustring.cc: string::read, string::write, string::stream_size')],
  technique='relational symbolic dataflow over LLVM IR: write-history chains from writer to reader, loop summaries, counts split by residue modulo 8',
  note='Strings by bit length of the size; containers at a symbolic element index; class-type elements are not covered. ' + TB),
 dict(id='S03', title='Reading arbitrary bytes or writing into short room stays in bounds',
  statement='''Reading any streamable library type from a binary stream holding arbitrary bytes (too few, or with hostile counts), with exceptions enabled or disabled, touches no memory outside the stream buffer, the object and its own storage, and leaves the object well formed and the position inside the stream.
  Writing such an object into a stream with any amount of room left likewise touches nothing outside the buffer and leaves the object unchanged in size and ownership.''',
  over=['inputs', 'faults'], qtext='all buffer contents, sizes and positions, exceptions on and off, allocation failure at any call, empty/linked/owning objects, for 110 reader and writer instantiations',
  why='Tests only read well-formed data that fits; hostile counts and truncated data are not sampled.',
  files=['mistream.h', 'mostream.h', 'uctrstrm.h', 'ustring.cc', 'memblock.cc', 'cmemlink.cc', 'memlink.cc', 'utuple.h', 'uarray.h', 'ubitset.h', 'uvector.h'],
  mech=[('count checks', 'uctrstrm.h: container_read; ustring.cc: string::read; memblock.cc: memblock::read; memlink.cc: memlink::read'), ('bounds check', 'mistream.h: istream::verify_remaining, mostream.h: ostream::verify_remaining')],
  technique='abstract interpretation over LLVM IR: linear-inequality bounds, block typestate, inferred loop invariants',
  note='All paths; loops by inferred invariants. Class-type elements are not covered. ' + TB),
]
