"""K01: the assembly kernels."""
import os
import kernels
from mem import *

def fast(r):
    r.rule = ('abstract interpretation of ualgobase.cc including its inline assembly (rep string instructions, direction flag, MMX/SSE block moves) for every pair of '
              'address remainders and symbolic counts: followed at a symbolic element index, each destination element holds the value the plain definition gives, '
              'every byte before and after is untouched, accesses stay in range, aligned instructions get aligned addresses, '
              'string instructions run in the safe direction, the direction flag is clear on return')
    r.trusted = [x for x in TB if 'kernels' not in x] + ['for rotate_fast: copy_n_fast and copy_backward_fast as proved by this same check']
    pat = os.environ.get('PAT', '')
    analyse(r, ['memory.cc'], kernels.check, {'kernel', 'bounds', 'alignment', 'overlap', 'null'}, entcls=kernels.Kernel, client=kernels.KHeap,
            fixed=[('P_' + n, '') for n in sorted(kernels.KERNELS) if pat in n])
    if not pat: r.minimum.update(entry_cases=570, exits=270, accesses_checked=3600)
