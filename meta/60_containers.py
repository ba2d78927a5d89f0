TB = '''Trusts the clang front end, the interpreter's transfer functions and its loop summaries (write history, quantified round facts, recurrences).'''
PROPS = [
 dict(id='X01', title='Sorted containers keep their order and answer lookups exactly',
  statement='''In a set, multiset, map or multimap that is sorted by its comparator, find, lower_bound, upper_bound, equal_range and count return exactly the bounds of the elements equal to the key, for the default and for a caller's comparator.
  insert, emplace, push_back and the hinted forms put the new element after all that are not greater, or in set and map leave an equal element as it is and say so; erase by key, position or range removes exactly those elements; operator[] and at find or add exactly the key given, and all others keep their content and order.
  Construction, assignment, moving, swapping and clearing hand over exactly the elements, and no operation reads or writes outside of the storage or leaves a block owned by nobody or by two.''',
  over=['inputs'], qtext='all sizes, contents, capacities, keys, numbers and places of equal elements; both comparators given as uninterpreted consistent orderings',
  why='Tests put a few words in and print the result; a hint on the wrong side, the first or last position, absent keys, an ordering that disagrees with == and full storage are not sampled (find with a comparator under which different values are equal missed them).',
  files=['uset.h', 'umultiset.h', 'umap.h', 'umultimap.h', 'uvector.h', 'upredalgo.h'], mech=[('lookup', 'uset.h: find, lower_bound, equal_range; umap.h: find, lower_bound with keys'), ('insertion', 'uset.h, umultiset.h, umap.h: insert, emplace, emplace_hint, push_back'), ('erasure', 'uset.h, umap.h, umultimap.h: erase'), ('element access', 'umap.h: operator[], at, find_data')],
  technique='specification probes decided by abstract interpretation over LLVM IR: symbolic container state, uninterpreted consistent comparator, quantified content facts, ownership typestate',
  note='Elements of 4 bytes (maps: pairs of two). Range insertion is decided as one insertion of every element in order. Allocation failure is decided by M01 and M03 for the storage under them. ' + TB),
 dict(id='Q01', title='Queues and stacks keep their discipline; containers compare by elements',
  statement='''A queue yields its elements in the order they were pushed and a stack in the reverse one: push and emplace add exactly one element at the proper end, pop removes exactly one at the proper end, size and empty count what is there and not what was popped, whatever the storage under them still holds or has room for.
  Copying, moving, assigning and swapping hand over exactly the elements that are there.
  == on queues, stacks, vectors, lists, sets and maps holds exactly if both have equally many elements and corresponding ones are equal by their own ==.''',
  over=['inputs', 'histories'], qtext='all storage sizes, capacities, numbers of popped elements still stored and contents; every element comparison is an uninterpreted relation',
  why='Tests push and pop a few numbers once; whether popped elements that are still stored count in size, comparison or copying, and how elements with padding or their own == compare, is not sampled.',
  files=['uqueue.h', 'ustack.h', 'uvector.h', 'ulist.h', 'uset.h', 'umap.h'], mech=[('queue', 'uqueue.h: push, pop, size, begin, operator=='), ('stack', 'ustack.h: push, pop, top, operator=='), ('comparison', 'uvector.h, uset.h, umap.h: operator==')],
  technique='specification probes decided by abstract interpretation over LLVM IR: symbolic container state, quantified content facts, ownership typestate',
  note='Ordering of whole containers (<) is not covered: queue and stack define it by size only. Elements of 4 bytes. ' + TB),
 dict(id='F01', title='Function objects, binders, pairs and iterator adaptors do as specified',
  statement='''Every function object computes its operator, compare gives the sign of the order, and binders, negators, compositions, pointer and member adaptors call what they wrap once with the arguments in the specified places, for all arguments and any wrapped function.
  pair, make_pair and the pair comparators hold and compare values in the specified order.
  reverse, move and index iterators denote, advance and compare as specified at every place of every sequence, and inserting iterators add each assigned element once, in the specified order.''',
  over=['inputs'], qtext='all arguments; the wrapped functions are uninterpreted; all lengths, positions and distances of a sequence',
  why='Tests print one transform per functor over one short vector; argument order of binders with symmetric operators, the boundary values of comparisons, and adaptors at the ends of a sequence are not sampled (an inserter put later elements before earlier ones).',
  files=['ufunction.h', 'upair.h', 'uiterator.h', 'uiosfunc.h'], mech=[('function objects', 'ufunction.h: STD_BINARY_FUNCTOR and the like'), ('binders and adaptors', 'ufunction.h: bind1st, bind2nd, compose, mem_fun, mem_var'), ('pairs', 'upair.h: pair, make_pair; ufunction.h: pair_compare_first'), ('iterators', 'uiterator.h: reverse_iterator, move_iterator, insert_iterator, index_iterate')],
  technique='specification probes decided by abstract interpretation over LLVM IR with uninterpreted functions and quantified content facts',
  note='Instantiated for int (and unsigned where signs matter). ' + TB),
]
