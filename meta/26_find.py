TB = '''Trusts the clang front end, the interpreter's transfer functions and loop summaries, and the manual of memcmp and memchr.'''
PROPS = [
 dict(id='N01', title='Searching text finds the first or last occurrence; comparing orders by bytes',
  statement='''A search in a string for a character, a text, a character of a set or one outside it returns the first occurrence at or after the starting place, or the last at or before it, and the no-position value exactly when there is none.
  Comparing strings, parts of strings and zero-terminated text gives equality exactly for equal bytes and equal lengths, and otherwise the order of the first differing bytes taken as unsigned, a proper prefix coming first.''',
  over=['inputs'], qtext='all texts, patterns, character sets and starting places below 2^29, empty text included; patterns are not empty',
  why='Tests search two fixed texts; repeated and overlapping beginnings of the pattern, occurrences at the very ends, starting places next to an occurrence and bytes above 127 are not sampled.',
  files=['ustring.cc', 'ustring.h', 'ualgo.h', 'cmemlink.h'], mech=[('searching', 'ustring.cc: string::find, rfind, find_first_of, find_first_not_of, find_last_of, find_last_not_of'), ('comparing', 'ustring.cc: string::compare, operator==; cmemlink.h: operator==')],
  technique='specification probes decided by abstract interpretation over LLVM IR with loop invariants and universally quantified loop facts',
  note='Searching for an empty text is excluded. The search for one byte is decided on its own and used as a contract by the others. ' + TB),
]
