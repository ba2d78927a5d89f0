"""T01-T03: the type level. Witness programs are compiled against the current sources; nothing is run. Every obligation is a
constant the compiler has to evaluate (static_assert), an expression it has to accept, or a declaration it has to find defined."""
import os, re, json, glob, itertools, math
from concurrent.futures import ThreadPoolExecutor
import build

PROBES = os.path.join(build.VERIF, 'probes', 'types')
TB = ['the compilers evaluate static_assert and overload resolution as the language says', "libstdc++'s <type_traits>, <limits>, <ratio> as the reference"]

def compile_(r, src, extra=()):
    """compile one witness with the compiler the library is built with; failed asserts and rejected expressions become violations"""
    text = open(src).read()
    n = len(re.findall(r'\bstatic_assert\b', text))
    p = build.run([build.GXX] + build.flags(['-fmax-errors=0', '-fsyntax-only'] + list(extra) + [src]), cwd=os.path.join(build.source(), 'ustl'))
    name = os.path.basename(src)
    bad = 0
    ctx = ''
    for l in p.stdout.split('\n'):
        if re.search(r'(In instantiation of|In function|In member function|required from)', l) and name in l + ' ': ctx = l
        m = re.match(r'(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if not m: continue
        f, line, msg = m.groups()
        s = re.match(r'static assertion failed: (.*)', msg)
        bad += 1
        if s: r.violate('%s/%s' % (name.split('.')[0], s.group(1)), 'probes/types/%s, which includes the current headers' % name, 'does not hold: ' + s.group(1))
        else: r.violate('%s/%s: %s' % (name.split('.')[0], os.path.basename(f), re.sub(r"[\u2018\u2019']", "'", msg)), '%s:%s' % (os.path.basename(f), line), msg, ctx)
    if p.returncode and not bad:
        if 'internal compiler error' in p.stdout or not p.stdout.strip(): r.error('compiler failed on ' + name)
        else: r.violate(name + '/compile', name, p.stdout[-600:])
    return n, bad

# ---------------------------------------------------------------------------------------------------------------- T01
TYPES = ('void|const void|bool|char|signed char|unsigned char|short|unsigned short|int|unsigned|long|unsigned long|long long|unsigned long long|wchar_t|float|double|long double|const int|volatile int|'
         'const volatile unsigned|int*|const int*|int* const|void*|int&|const int&|int&&|int[3]|int[]|int[3][4]|const int[3]|En|Ec|Em|St|Un|Ab|Po|Fi|Co|int Co::*|int (Co::*)(int)|int (Co::*)(int) const|int (int)|'
         'void (*)(int)|int (int,...)|std::nullptr_t').split('|')
UN = ('is_void is_integral is_signed is_floating_point is_pointer is_member_pointer is_member_function_pointer is_unsigned is_member_object_pointer is_array is_lvalue_reference is_rvalue_reference is_reference '
      'is_union is_class is_enum is_function is_object is_arithmetic is_fundamental is_scalar is_compound is_const is_volatile is_empty is_abstract is_polymorphic is_final is_standard_layout is_pod is_trivial rank extent '
      'alignment_of is_destructible is_nothrow_destructible is_default_constructible is_nothrow_default_constructible is_constructible is_nothrow_constructible is_copy_constructible is_move_constructible '
      'is_copy_assignable is_move_assignable is_trivially_copyable is_trivially_copy_constructible is_trivially_move_constructible is_trivially_default_constructible is_trivially_copy_assignable '
      'is_trivially_move_assignable is_trivially_destructible has_virtual_destructor is_literal_type').split()
TY = ('remove_const remove_volatile remove_cv add_const add_volatile add_cv remove_reference remove_pointer add_pointer remove_extent remove_all_extents decay add_lvalue_reference add_rvalue_reference '
      'make_signed make_unsigned').split()
VOIDS = {'void', 'const void'}
REFS = {'int&', 'const int&', 'int&&'}
ARRAYS = {'int[3]', 'int[]', 'int[3][4]', 'const int[3]'}
FUNCS = {'int (int)', 'int (int,...)'}
ODD = VOIDS | REFS | ARRAYS | FUNCS
PRE = '''#include <type_traits>
#include <limits>
#include <ratio>
#include <cstddef>
#include <ustl.h>
enum En {en}; enum class Ec : short {a}; struct Em {}; struct St { int a; char b; }; union Un { int a; float b; }; struct Ab { virtual void f (void) = 0; virtual ~Ab (void) {} };
struct Po { virtual void f (void); }; struct Fi final { int a; }; struct Co { int m; Co (int); Co (const Co&); Co& operator= (const Co&); ~Co (void); private: int p; };
'''
def skip(u, t):
    """combinations outside the property: questions about types no object of which is ever made, and traits of decltype(nullptr)"""
    if u == 'alignment_of': return t in VOIDS | FUNCS | {'int[]'}
    if u.startswith('make_'): return t not in TYPES[3:14]
    if t == 'std::nullptr_t': return u in ('is_scalar', 'is_compound', 'is_fundamental')
    if 'destructible' in u or 'constructible' in u or 'assignable' in u: return t in ODD or t == 'Ab'
    return False

def wide(x, y):
    """an operation on these ratios leaves the range of intmax_t, which the library does not promise to survive"""
    (a, b), (c, d) = [(lambda g: (p // g, q // g))(math.gcd(p, q)) for p, q in (x, y)]
    return max(abs(a * d), abs(c * b), abs(b * d), abs(a * c), abs(a * d) + abs(c * b)) >= 1 << 62

def typelists():
    """every list of up to four elements of three types, and what each algorithm makes of it"""
    T = ('int', 'char', 'long')
    out = ['#include <ustl.h>', '#include <ustl/typelist.h>', 'using ustl::tm::Typelist; using ustl::tm::NullType; namespace t = ustl::tm::tl;',
           'template <typename X, typename Y> struct same { enum { value = false }; }; template <typename X> struct same<X,X> { enum { value = true }; };']
    def L(l): return 'Typelist<%s,%s >' % (l[0], L(l[1:])) if l else 'NullType'
    for n in range(5):
        for l in itertools.product(T, repeat=n):
            l = list(l); me = L(l); nm = '(%s)' % ','.join(l)
            def a(c, m): out.append('static_assert (%s, "%s of %s");' % (c, m, nm))
            def same(e, x, m): a('same<%s,%s >::value' % (e, L(x)), m)
            a('t::Length<%s >::value == %d' % (me, n), 'Length')
            if n: same('t::Seq<%s>::Type' % ','.join(l), l, 'Seq')
            for i in range(n): a('same<t::TypeAt<%s,%d>::Result,%s>::value && same<t::TypeAtNonStrict<%s,%d>::Result,%s>::value' % (me, i, l[i], me, i, l[i]), 'TypeAt %d' % i)
            a('same<t::TypeAtNonStrict<%s,%d,float>::Result,float>::value' % (me, n), 'TypeAtNonStrict past the end')
            u = []
            for x in l:
                if x not in u: u.append(x)
            same('t::NoDuplicates<%s >::Result' % me, u, 'NoDuplicates')
            same('t::Reverse<%s >::Result' % me, l[::-1], 'Reverse')
            same('t::Append<%s,float>::Result' % me, l + ['float'], 'Append a type')
            for x in T:
                a('int(t::IndexOf<%s,%s>::value) == %d' % (me, x, l.index(x) if x in l else -1), 'IndexOf ' + x)
                i = l.index(x) if x in l else n
                same('t::Erase<%s,%s>::Result' % (me, x), l[:i] + l[i + 1:], 'Erase ' + x)
                same('t::EraseAll<%s,%s>::Result' % (me, x), [y for y in l if y != x], 'EraseAll ' + x)
                same('t::Replace<%s,%s,float>::Result' % (me, x), l[:i] + ['float'] * (i < n) + l[i + 1:], 'Replace ' + x)
                same('t::ReplaceAll<%s,%s,float>::Result' % (me, x), ['float' if y == x else y for y in l], 'ReplaceAll ' + x)
            for k in range(3):
                for m in itertools.product(T[:2], repeat=k):
                    same('t::Append<%s,%s >::Result' % (me, L(m)), l + list(m), 'Append (%s)' % ','.join(m))
    return '\n'.join(out) + '\n'

def traits(r):
    out = [PRE]
    def a(cond, msg): out.append('static_assert (%s, "%s");' % (cond, msg))
    for u in UN:
        for t in TYPES:
            if not skip(u, t): a('ustl::%s<%s>::value == std::%s<%s>::value' % (u, t, u, t), '%s<%s>' % (u, t))
    for u in TY:
        for t in TYPES:
            if skip(u, t): continue
            a('std::is_same<ustl::%s<%s>::type, std::%s<%s>::type>::value' % (u, t, u, t), '%s<%s>' % (u, t))
    for x in TYPES:
        for y in TYPES:
            a('ustl::is_same<%s,%s>::value == std::is_same<%s,%s>::value' % (x, y, x, y), 'is_same<%s,%s>' % (x, y))
            if not {x, y} & (VOIDS | ARRAYS | FUNCS):
                a('ustl::is_convertible<%s,%s>::value == std::is_convertible<%s,%s>::value' % (x, y, x, y), 'is_convertible<%s,%s>' % (x, y))
                a('ustl::is_assignable<%s,%s>::value == std::is_assignable<%s,%s>::value' % (x, y, x, y), 'is_assignable<%s,%s>' % (x, y))
            if {x, y} <= {'Ab', 'Po', 'St', 'int'} and x != y: a('ustl::is_base_of<%s,%s>::value == std::is_base_of<%s,%s>::value' % (x, y, x, y), 'is_base_of<%s,%s>' % (x, y))
    out.append('struct Dp : Po {}; struct Dd : Dp {};')
    for x, y in itertools.permutations(('Po', 'Dp', 'Dd'), 2): a('ustl::is_base_of<%s,%s>::value == std::is_base_of<%s,%s>::value' % (x, y, x, y), 'is_base_of<%s,%s>' % (x, y))
    for x, y, z in (('int', 'char', 'true'), ('int', 'char', 'false')): a('std::is_same<ustl::conditional<%s,%s,%s>::type,std::conditional<%s,%s,%s>::type>::value' % (z, x, y, z, x, y), 'conditional<%s>' % z)
    I = 'bool|char|signed char|unsigned char|short|unsigned short|int|unsigned|long|unsigned long|long long|unsigned long long|wchar_t'.split('|')
    F = 'float|double|long double'.split('|')
    for t in I + F:
        for f in 'min max lowest epsilon infinity denorm_min round_error'.split(): a('ustl::numeric_limits<%s>::%s() == std::numeric_limits<%s>::%s()' % (t, f, t, f), 'numeric_limits<%s>::%s' % (t, f))
        for f in 'is_specialized is_signed is_integer is_exact is_iec559 is_bounded has_infinity has_quiet_NaN has_signaling_NaN radix min_exponent min_exponent10 max_exponent max_exponent10 round_style has_denorm'.split() + (['digits', 'digits10', 'max_digits10'] if t in F else []):
            if (t, f) not in (('bool', 'is_exact'), ('bool', 'is_integer')): a('(int) ustl::numeric_limits<%s>::%s == (int) std::numeric_limits<%s>::%s' % (t, f, t, f), 'numeric_limits<%s>::%s' % (t, f))
    vals = [(1, 1), (0, 1), (0, -7), (1, 2), (-1, 2), (2, -4), (-6, -8), (10, 15), (1, 3), (7, 1), (1000, 1), (1, 1000000000), (123456789, 987654321), (3000000000, 2), (5000000001, 2), (-3, 5000000029), (1 << 40, 3), (7, 1 << 40)]
    for x in vals:
        a('ustl::ratio<%d,%d>::num == std::ratio<%d,%d>::num && ustl::ratio<%d,%d>::den == std::ratio<%d,%d>::den' % (x * 4), 'ratio<%d,%d>' % x)
        for y in vals:
            A = lambda n: '%s::ratio<%d,%d>,%s::ratio<%d,%d>' % (n, x[0], x[1], n, y[0], y[1])
            for op in 'add subtract multiply divide'.split():
                if op == 'divide' and y[0] == 0 or wide(x, y): continue
                a('ustl::ratio_%s<%s>::num == std::ratio_%s<%s>::num && ustl::ratio_%s<%s>::den == std::ratio_%s<%s>::den' % (op, A('ustl'), op, A('std'), op, A('ustl'), op, A('std')), 'ratio_%s<%d/%d,%d/%d>' % ((op,) + x + y))
            if wide(x, y): continue
            for op in 'equal not_equal less less_equal greater greater_equal'.split(): a('ustl::ratio_%s<%s>::value == std::ratio_%s<%s>::value' % (op, A('ustl'), op, A('std')), 'ratio_%s<%d/%d,%d/%d>' % ((op,) + x + y))
    for p in 'exa peta tera giga mega kilo hecto deca deci centi milli micro nano pico femto atto'.split(): a('ustl::%s::num == std::%s::num && ustl::%s::den == std::%s::den' % (p, p, p, p), p)
    return '\n'.join(out) + '\n'

def reference(r):
    r.rule = ('compile-time witnesses: for every trait, numeric limit and ratio operation the library offers and a table of %d types of every category, the compiler evaluates the library\'s answer and '
              'the reference answer to the same constant or type; type list and selection algorithms against their definition; a disagreement names the trait and the type' % len(TYPES))
    r.trusted = TB
    src = os.path.join(build.scratch(), 'reference.cc')
    open(src, 'w').write(traits(r))
    tl = os.path.join(build.scratch(), 'typelists.cc')
    open(tl, 'w').write(typelists())
    for s in (src, tl, os.path.join(PROBES, 'lists.cc')):
        n, bad = compile_(r, s)
        r.ok(max(0, n - bad)); r.count('static_asserts', n)
    r.count('traits', len(UN) + len(TY) + 4); r.count('types', len(TYPES))
    r.sample('static_assert (ustl::is_signed<T>::value == std::is_signed<T>::value) for each of the %d types' % len(TYPES))
    r.minimum.update(static_asserts=9000)

# ---------------------------------------------------------------------------------------------------------------- T02
KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

def declarations(r):
    """every function declared in the headers has a definition: in the headers, or in a library object"""
    top = build.source(); d = os.path.join(top, 'ustl')
    src = os.path.join(build.scratch(), 'all.cc')
    priv = {'config.h'}
    with open(src, 'w') as f:
        f.write('#include <ustl.h>\n')
        for h in sorted(os.path.basename(x) for x in glob.glob(d + '/*.h')):
            if h not in priv and h != 'ustl.h': f.write('#include <ustl/%s>\n' % h)
    p = build.subprocess.run([build.CLANG] + build.flags(['-fsyntax-only', '-Xclang', '-ast-dump=json', src]), stdout=build.subprocess.PIPE, stderr=build.subprocess.PIPE, cwd=d)
    if p.returncode:
        r.violate('all headers together', 'including every public header', p.stderr.decode('utf8', 'replace')[-500:]); return
    ast = json.loads(p.stdout)
    decl, defd, tdecl, tdef, chain = {}, set(), {}, set(), {}
    def walk(n, scope, inus, tmpl, priv):
        k = n.get('kind')
        if k == 'ClassTemplateSpecializationDecl': return
        if k == 'NamespaceDecl': inus = inus or n.get('name') == 'ustl'
        if k in ('ClassTemplateDecl', 'ClassTemplatePartialSpecializationDecl'): tmpl = True
        if k == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') in KINDS: walk(c, scope, inus, True, priv); break
            return
        if k in KINDS:
            body = any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', [])) or n.get('explicitlyDefaulted') or n.get('isImplicit')
            if n.get('previousDecl'): chain[n['id']] = n['previousDecl']
            m = n.get('mangledName')
            if body:
                tdef.add(n['id'])
                if m: defd.add(m)
            elif inus and not n.get('pure') and not n.get('explicitlyDeleted'):
                e = ('::'.join([s for s in scope[1:] if s] + [n.get('name', '')]), n.get('type', {}).get('qualType', ''), n.get('loc', {}).get('line'), priv)
                if tmpl: tdecl[n['id']] = e
                elif m: decl.setdefault(m, e)
            return
        acc = 'public' if n.get('tagUsed') in ('struct', 'union') else 'private' if n.get('tagUsed') == 'class' else None
        for c in n.get('inner', []):
            if c.get('kind') == 'AccessSpecDecl': acc = c.get('access'); continue
            walk(c, scope + [n.get('name', '')], inus, tmpl, priv or acc == 'private')
    walk(ast, [], False, False, False)
    objs = []
    def obj(s):
        o = os.path.join(build.scratch(), os.path.basename(s) + '.o')
        return o, build.run([build.CLANG] + build.flags(['-O0', '-c', s, '-o', o]), cwd=d)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(obj, build.lib_sources()))
    for o, q in res:
        if q.returncode: raise build.Broken('does not compile: ' + q.stdout[:800])
    nm = build.run(['nm', '--defined-only'] + [o for o, _ in res]).stdout
    syms = set(l.split()[-1] for l in nm.split('\n') if len(l.split()) == 3)
    for m, (n, ty, line, pv) in sorted(decl.items()):
        if m in defd or m in syms: r.ok()
        elif pv: r.count('private_undefined')
        else: r.violate('undefined/%s(%s)' % (n, ty), n, 'declared, and defined nowhere: a program that uses it does not link', ty)
    have = set()
    for x in tdef:
        while x in chain: x = chain[x]; have.add(x)
    for i, (n, ty, line, pv) in tdecl.items():
        if i in have: r.ok()
        elif pv or '__' in n or n.split('::')[-1] in ('declval', 'Test', 'MakeT', 'test'): r.count('unevaluated_or_private')
        else: r.violate('undefined/%s(%s)' % (n, ty), n, 'declared, and defined nowhere: a program that uses it does not link', ty)
    r.count('functions_declared', len(decl)); r.count('functions_defined_in_headers', len(defd)); r.count('template_functions_declared', len(tdecl)); r.count('library_symbols', len(syms))
    r.minimum.update(functions_declared=105, functions_defined_in_headers=630)
    # each public header on its own
    def alone(h):
        s = os.path.join(build.scratch(), 'alone_%s.cc' % h); open(s, 'w').write('#include <ustl/%s>\n#include <ustl/%s>\n' % (h, h))
        return h, build.run([build.GXX] + build.flags(['-fsyntax-only', s]), cwd=d)
    return syms, [o for o, _ in res]

def usable(r):
    r.rule = ('compile-time witnesses: explicit instantiation of every member of every class template over built-in, class and owning element types, every free algorithm over every kind of range it accepts, '
              'every functor, stream operator and value operation: accepted by the compiler; every function the headers declare (from the syntax tree, templates included) is defined in the headers or in a '
              'library object; every library symbol the witnesses need is defined')
    r.trusted = TB[:1] + ['clang 18 syntax tree (-ast-dump=json)', 'nm']
    syms, objs = declarations(r)
    for s in ('values', 'algos', 'inst', 'index', 'io', 'members'):
        f = os.path.join(PROBES, s + '.cc')
        n, bad = compile_(r, f)
        o = os.path.join(build.scratch(), s + '.g.o')
        if not bad:
            q = build.run([build.GXX] + build.flags(['-O0', '-c', f, '-o', o]))
            if q.returncode: r.violate(s + '/compile', s, q.stdout[-400:]); continue
            defs, und = set(), set()
            for l in build.run(['nm', o]).stdout.split('\n'):
                p = l.split()
                if len(p) == 3 and p[1] != 'U': defs.add(p[2])
                elif len(p) == 2 and p[0] == 'U': und.add(p[1])
            r.count('instantiations', len([x for x in defs if '4ustl' in x])); r.ok(len([x for x in defs if '4ustl' in x]))
            for u in sorted(und):
                if '4ustl' not in u: continue
                if u in syms: r.ok(); r.count('library_symbols_needed')
                else: r.violate('link/' + build.run(['c++filt', u]).stdout.strip(), s + '.cc', 'needed by a use the headers offer, defined in no library object')
        else:
            n2 = len(re.findall(r';', open(f).read())); r.count('uses_in_failing_unit', n2)
    r.minimum.update(instantiations=1500)

# ---------------------------------------------------------------------------------------------------------------- T03
def contracts(r):
    r.rule = ('compile-fail witnesses: overload resolution, evaluated by the compiler on the current headers, rejects writes through const objects and views, copies of owners, implicit conversions that lose data or '
              'ownership, mixing of clocks and units, and accepts the counterpart that must work; exception classes convert to exactly their documented bases; operations that swap, clear and destroy are noexcept')
    r.trusted = TB[:1]
    src = os.path.join(PROBES, 'contracts.cc')
    pre = build.run([build.GXX] + build.flags(['-E', '-P', src]))
    total = pre.stdout.split('struct make_void')[-1].count('static_assert')
    n, bad = compile_(r, src)
    r.ok(max(0, total - bad)); r.count('static_asserts', total)
    r.minimum.update(static_asserts=250)
