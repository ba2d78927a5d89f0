TB = '''Trusts the clang front end, the interpreter's transfer functions and its loop summaries (write history, quantified round facts, recurrences).'''
PROPS = [
 dict(id='G01', title='Searching, comparing and counting algorithms return the specified answer',
  statement='''find, find_if, adjacent_find, mismatch, equal, lexicographical_compare, search, search_n, find_first_of, find_end, min/max/minmax_element, is_sorted, count, count_if, for_each and the binary searches return exactly the position, flag or count that their specification defines, for ranges of every length including empty ones.
  Binary searches call the comparator in the specified argument order and return the partition point of any range that is sorted by it; ties return the first (last for upper bounds) position.
  They read only elements of the ranges they are given.''',
  over=['inputs'], qtext='all array lengths, all contents, and all answers a comparator can give consistently with the situation (first match at k, sorted with the boundary at p, equal up to k, ...)',
  why='Tests print results of a few calls on one short vector; the first and last positions, empty ranges, ties and inconsistent argument orders are not sampled (find_end never tried the first position and binary_search with a comparator was wrong).',
  files=['ualgo.h', 'upredalgo.h', 'ualgobase.h'], mech=[('linear searches', 'ualgo.h: find, find_if, adjacent_find, mismatch'), ('binary searches', 'ualgo.h: lower_bound, upper_bound, equal_range; upredalgo.h: the same with comparators'), ('subrange searches', 'upredalgo.h: search, find_end, search_n, find_first_of')],
  technique='specification probes decided by abstract interpretation over LLVM IR with inferred quantified loop invariants, recurrences and loop phase partitioning',
  note='Arrays of int through pointers. Positions of find_end are decided for the last possible position, for no match and as to range; for others only the range. ' + TB),
 dict(id='G02', title='Copying, filling, filtering, reordering and numeric algorithms write exactly',
  statement="""transform, replace(_copy)(_if), copy(_n, _backward), fill(_n), iota, reverse(_copy), swap_ranges, rotate(_copy) and adjacent_difference leave in every place of the output range exactly the element that their specification defines, return the end of what they wrote and touch nothing else; clamp, min, max, minmax, swap, iter_swap and exchange return and store the specified values.
  The filters copy_if, remove_copy(_if) and unique_copy append in each round exactly the element that is kept, or nothing; accumulate and inner_product combine every element once, in order; sort and nth_element give the whole range and a faithful three-way comparison to qsort.
  merge, the set operations, remove, unique, generate, partial_sum and stable_sort never write outside an output range of the specified size and never read outside of their inputs.""",
  over=['inputs'], qtext='all array lengths including 0, all contents, all functors (uninterpreted), all split points of rotations',
  why='Tests print the effects of single calls on short vectors; empty ranges, calls in place, unequal lengths, and return values are not sampled (replace_copy returned nothing and adjacent_difference never advanced its output).',
  files=['ualgo.h', 'upredalgo.h', 'ualgobase.h', 'unumeric.h', 'uutility.h'], mech=[('element writes', 'ualgobase.h: copy, copy_n, fill, fill_n; ualgo.h: transform, replace, reverse, rotate'), ('filters', 'ualgo.h, upredalgo.h: copy_if, remove_copy, unique_copy'), ('folds', 'unumeric.h: accumulate, inner_product, partial_sum, adjacent_difference'), ('sorting', 'ualgo.h: sort, qsort_adapter, stable_sort')],
  technique='specification probes decided by abstract interpretation over LLVM IR with inferred quantified loop invariants, recurrences and balance inequalities',
  note='Arrays of int through pointers. Only range safety and the end position are decided for merge and the set operations, generate, partial_sum and stable_sort; inplace_merge, partial_sort_copy and the permutation generators are not covered. ' + TB),
]
