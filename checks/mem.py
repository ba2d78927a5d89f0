"""M01..M05: heap ownership, block bounds, allocation failure, string terminator."""
import os, re, multiprocessing, time
import build, terms as T
from memcheck import *
import edits

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = lambda n: os.path.join(HERE, 'probes', n)

def clean(s): return re.sub(r'[_#@]?\d+', '', str(s))

_m = _lay = None
def _work(job):
    n, spec, fn, budget, entcls, client = job
    t0 = time.time()
    res = {'name': n, 'spec': spec, 'reports': [], 'exits': [], 'nexit': 0, 'nthrow': 0, 'oblig': 0, 'acc': 0, 'proved': 0, 'limit': None,
           'fns': set(), 'alloc': 0, 'free': 0, 'cases': 0, 'extra': 0, 'calls': 0}
    c = client()
    try:
        ent = entcls(_m, _lay, n, spec, c)
        ent.budget = budget
        st = {'oblig': 0}
        for e, outs, objs, label, init in ent.run():
            res['cases'] += 1
            for r in e.reports: res['reports'].append((label,) + r)
            for kind, v, s in outs:
                e.lastret = s.norm(v) if kind == "ret" and v is not None else None
                res['nexit'] += 1; res['nthrow'] += kind == 'throw'
                for rule, msg in fn(ent, e, kind, s, objs, label, st, init): res['exits'].append((label, kind, rule, msg))
            res['fns'] |= set(_m.dem(x) for x in e.visited)
            res['calls'] += e.calls
        res['oblig'] = st['oblig']
    except Limit as x: res['limit'] = str(x)
    except RecursionError: res['limit'] = 'recursion'
    res['acc'], res['proved'], res['alloc'], res['free'] = c.naccess, c.nproved, c.nalloc, c.nfree
    res['t'] = time.time() - t0
    return res

def analyse(r, files, fn, rules, pat=None, extra=(), what='probe', budget=400000, entcls=Entry, names=None, client=Heap, fixed=None):
    """run every probe of the given probe files; keep reports whose rule is in `rules`"""
    global _m, _lay
    _m = Module(build.module([P(f) for f in files], extra=extra))
    _lay = Layouts(_m)
    for c in ('cmemlink', 'memlink', 'memblock', 'istream', 'ostream', 'string'):
        if 'C_' + c in _m.fns: _lay.get(c)
    jobs = [(n, s, fn, budget, entcls, client) for n, s in (fixed or probes(_m)) if (pat is None or re.search(pat, n)) and (names is None or n[2:] in names)]
    with multiprocessing.Pool(8) as pool: out = pool.map(_work, jobs, 1)
    fns = set()
    for x in sorted(out, key=lambda x: x['name']):
        op = x['name'][2:]
        r.count('operations'); r.count('entry_cases', x['cases']); r.count('exits', x['nexit']); r.count('throwing_exits', x['nthrow'])
        r.count('calls_followed', x['calls'])
        if x['limit']:
            r.undecide(op, x['limit']); r.count('undecided_operations'); continue
        fns |= x['fns']
        bad = 0
        for label, rule, msg, where in x['reports']:
            if rule in rules:
                bad += 1
                r.violate('%s/%s/%s/%s' % (op, label, rule, clean(msg)), where, msg, 'operation %s, entry state %s' % (op, label))
        for label, kind, rule, msg in x['exits']:
            if rule in rules:
                bad += 1
                r.violate('%s/%s/%s/%s/%s' % (op, label, kind, rule, clean(msg)), 'exit (%s) of %s, entry state %s' % (kind, op, label), msg)
        n = 0
        if 'ownership' in rules: n += x['oblig'] + x['free']; r.count('releases_checked', x['free']); r.count('allocations_followed', x['alloc'])
        elif 'bounds' in rules: n += x['proved']; r.count('accesses_checked', x['acc'])
        else: n += x['oblig']
        r.ok(n)
        if x['nexit'] and not bad: r.sample('%s (%s): %d entry cases, %d exits, %d obligations' % (op, x['spec'], x['cases'], x['nexit'], n))
    r.counts['functions_analysed'] = len(fns)
    r.minimum['operations'] = max(1, len(jobs) * 9 // 10)
    if r.counts.get('undecided_operations', 0) * 5 > len(jobs): r.error('more than a fifth of the operations could not be decided')
    return out

FILES = ['memory.cc', 'strings.cc']
TB = ['clang 18 front end and LLVM 18 reader', 'the abstract interpreter in lib/', 'C library contracts for malloc/realloc/free/memcpy/memmove/strlen',
      'contracts of the x86 assembly kernels in ualgobase.cc (copy/fill/rotate)', 'sizes and requests below 2^46 bytes']

def own_exit(ent, e, kind, s, objs, label, st, init):
    out = check_ownership(ent, e, kind, s, objs, label, st)
    if kind == 'ret' and re.search('_reserve(_x)?$', ent.name):
        # room for what was asked
        ob = objs[0]
        st['oblig'] += 1
        need = add(scale(ent.args[1], ob.get('z', 1)), num(MANAGED[ob['cls']]))
        cap = ent.rd(s, ob['o'], ob['cls'], 'capacity')
        if not s.ule(s.norm(need), cap): out.append(('bounds', 'reserve leaves a capacity of %s bytes although %s were asked for' % (s.norm(cap), s.norm(need))))
    return out

def ownership(r):
    r.rule = ('typestate analysis (live/freed per heap block) over every path of every memory-block and string operation, '
              'from each entry state empty/linked/owning with symbolic sizes: free and realloc only of live blocks the object owns, '
              'no write into foreign memory, and at every exit each live block owned by exactly one object')
    r.trusted = TB
    analyse(r, FILES, own_exit, {'ownership'})
    r.minimum.update(releases_checked=3, allocations_followed=45)

def bounds(r):
    r.rule = ('interval/linear-inequality analysis: every load, store, memcpy, memmove, memset on every path lies inside the block it addresses; '
              'at every exit size (+ terminator) <= capacity <= bytes allocated')
    r.trusted = TB
    analyse(r, FILES, own_exit, {'bounds', 'overlap'})
    r.minimum.update(accesses_checked=900)

def term_exit(ent, e, kind, s, objs, label, st, init):
    st2 = {'oblig': 0}
    out = [p for p in check_ownership(ent, e, kind, s, objs, label, st2)]
    st['oblig'] += sum(1 for o in objs if MANAGED.get(o['cls']) and o['role'] != 'del')
    return out

def terminator(r):
    r.rule = ('abstract interpretation of every string operation from empty/linked/owning entry states: whenever a string owns its characters at an exit, '
              'the byte at data()[size()] is provably zero and inside the allocation')
    r.trusted = TB
    analyse(r, ['memory.cc', 'strings.cc'], term_exit, {'terminator'}, pat='^P_string_')
    r.minimum.update(exits=135)

def fail_exit(ent, e, kind, s, objs, label, st, init):
    out = []
    if kind != 'throw': return out
    for ob in objs:
        if ob['role'] in ('new', 'del') or ob['cls'] not in MANAGED: continue
        if ent.name[2:] in edits.NOTSTRONG: continue
        for f in ('data', 'size', 'capacity'):
            st['oblig'] += 1
            a = ent.rd(init.copy(), ob['o'], ob['cls'], f)
            b = ent.rd(s, ob['o'], ob['cls'], f)
            if not s.equal(a, b): out.append(('allocfail', '%s of the %s changed although the operation failed (%s -> %s)' % (f, ob['cls'], a, b)))
    return out

def allocfail(r):
    r.rule = ('exceptional-exit analysis: malloc/realloc may return null at every call; a null result reaches no access, '
              'and on every exit by exception the data pointer, size and capacity of every block or string argument are those of the entry')
    r.trusted = TB
    analyse(r, FILES, fail_exit, {'allocfail', 'null'})
    r.minimum.update(throwing_exits=45)
    analyse(r, FILES, edits.check_edit_fail, {'allocfail', 'null'}, entcls=edits.CellEntry, names=edits.E)

def content(r):
    r.rule = ('relational value tracking: one byte at a symbolic offset of each source is tagged and followed through every path '
              '(malloc/realloc/memmove included); at every normal exit it must be found at the offset the operation promises, and the size must be the promised one')
    r.trusted = TB
    analyse(r, FILES, edits.check_edit, {'edit', 'overlap'}, entcls=edits.CellEntry, names=edits.E)
    r.minimum.update(exits=180)
