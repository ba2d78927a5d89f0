PROPS = [
 dict(id='T01', title='Traits, limits, ratios and type lists give the specified answers',
  statement='''Every type trait and type transformation the library offers, every numeric_limits member for the arithmetic types and every ratio operation gives the answer that ISO C++ specifies for it, for types of every category (cv-qualified, references, arrays, functions, members, enumerations, unions, abstract, final and user-defined classes).
  The type list algorithms, Select, Conversion, SuperSubclass and the repetition macros produce exactly the list, type or text of their definition, for empty, single, repeated and maximal lists.
  Generic code that dispatches on them (copying by memory, choosing a text format) therefore picks the right branch for every element type.''',
  over=['programs'], qtext='all traits, for a representative of every category and cv-qualification of types; all pairs for the binary traits; all sign and reduction cases of ratios',
  why='The trait test prints some hundred answers and pins even wrong ones; add_pointer, remove_pointer, is_signed and numeric_limits<wchar_t>::min were wrong for types it does not list.',
  files=['uttraits.h', 'ulimits.h', 'uratio.h', 'typelist.h', 'typet.h', 'traits.h', 'metamac.h'], mech=[('traits', 'uttraits.h'), ('limits', 'ulimits.h: _NUMERIC_LIMITS'), ('ratio arithmetic', 'uratio.h'), ('type lists', 'typelist.h, typet.h')],
  technique='compile-time witnesses: static_assert of each answer against the reference answer, evaluated by the compiler on the current headers',
  note='numeric_limits<bool>::is_integer and ::is_exact, is_base_of<T,T> and digits of integer types follow uSTL\'s own definitions and are outside the property, as are constructibility questions about references, arrays, functions and void.'),
 dict(id='T02', title='Everything the headers offer can be instantiated, called and linked',
  statement='''Every member of every class template compiles when instantiated over built-in, user-defined and owning element types; every algorithm accepts every kind of range its requirements allow (pointers, const pointers, reverse iterators, container shorthands, const containers); every container, view, stream, owner and adaptor can be copied, moved, swapped and compared where it has value semantics.
  Every type with a place in the binary or text streams goes in and comes out.
  Every function that a header declares is defined in a header or in the library.''',
  over=['programs'], qtext='all public members of all class templates and all free function templates, over representative argument types of each category; all declared functions',
  why='Templates that no test instantiates are not even compiled: set::insert with a hint, swap of stacks, minmax with a comparator, list assignment and move_iterator::operator* did not compile.',
  files=['*.h'], mech=[('containers', 'uvector.h, ulist.h, uset.h, umap.h, umultiset.h, umultimap.h, uqueue.h, ustack.h, uheap.h'), ('algorithms', 'ualgo.h, upredalgo.h, uctralgo.h, unumeric.h, uheap.h'), ('streaming', 'mistream.h, mostream.h, sostream.h, sistream.h, uctrstrm.h'), ('definitions', '*.h, *.cc')],
  technique='compile-time witnesses (explicit instantiation, odr-use) and a query over the syntax tree against the defined symbols',
  note='The compilers decide; element types are representatives of their category.'),
 dict(id='T03', title='The type system rejects misuse: const, ownership, units, conversions',
  statement='''Through a const container, view or stream nothing can be modified, and no conversion turns read-only memory, iterators or views into writable ones.
  Owners (unique_ptr, atomic, scope_exit, unique_resource, fstream) cannot be copied, and pointers, sizes, error numbers, durations of a coarser unit and time points of another clock are never converted implicitly; the lossless counterparts are.
  Exceptions are caught by exactly their documented bases, and swap, clear, destruction and exception construction are declared not to throw.''',
  over=['programs'], qtext='all programs: no expression of the listed forms is accepted by the compiler',
  why='A test cannot contain code that must not compile; fstream objects could be copied and then closed the same descriptor twice.',
  files=['uvector.h', 'ustring.h', 'memlink.h', 'cmemlink.h', 'umap.h', 'umemory.h', 'uatomic.h', 'uchrono.h', 'uerror.h', 'ustdxept.h', 'uexception.h', 'fstream.h'],
  mech=[('const access', 'uvector.h, ustring.h, memlink.h: const overloads'), ('owners', 'umemory.h, uatomic.h, fstream.h'), ('units', 'uchrono.h: duration constructors'), ('exception hierarchy', 'ustdxept.h, uexception.h')],
  technique='compile-fail witnesses: overload resolution on the current headers, asserted with static_assert both ways',
  note='The compiler decides.'),
]
