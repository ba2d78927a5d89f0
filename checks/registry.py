CHECKS = {
    'M01': ('mem', 'ownership'), 'M02': ('mem', 'bounds'), 'M03': ('mem', 'allocfail'), 'M04': ('mem', 'terminator'),
    'M05': ('mem', 'content'),
    'M06': ('vec', 'storage'), 'M07': ('vec', 'content'), 'M08': ('vec', 'lifetimes'),
    'S01': ('stream', 'binary'), 'S02': ('stream', 'serial'), 'S03': ('stream', 'hostile'),
    'U01': ('text', 'utf8'), 'K01': ('kern', 'fast'),
    'G01': ('algo', 'search'),
    'G02': ('algo', 'writes'),
    'P01': ('ptr', 'pointers'), 'A01': ('ptr', 'atomics'),
}
CHECKS.update({'T01': ('typelevel', 'reference'), 'T02': ('typelevel', 'usable'), 'T03': ('typelevel', 'contracts')})
CHECKS.update({'X01': ('ctrs', 'sorted_'), 'Q01': ('ctrs', 'adaptors'), 'F01': ('ctrs', 'functors')})
CHECKS.update({'C01': ('values', 'times'), 'V10': ('values', 'elements'), 'V11': ('values', 'bits')})
CHECKS.update({'N01': ('find', 'search')})
CHECKS.update({'K02': ('asmlint', 'declared')})
CHECKS.update({'E01': ('nothrow', 'promises')})
