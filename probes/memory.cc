#include "probe.h"
// argument codes: see lib/memcheck.py
PROBE (memblock_ctor,		"new:memblock",			(void* m),	new (m) memblock)
PROBE (memblock_ctor_n,		"new:memblock n",		(void* m, size_t n),	new (m) memblock (n))
PROBE (memblock_ctor_pn,	"new:memblock buf:2 n",		(void* m, const void* p, size_t n),	new (m) memblock (p, n))
PROBE (memblock_ctor_cml,	"new:memblock cmemlink",	(void* m, const cmemlink& l),	new (m) memblock (l))
PROBE (memblock_ctor_ml,	"new:memblock memlink",		(void* m, const memlink& l),	new (m) memblock (l))
PROBE (memblock_ctor_copy,	"new:memblock memblock",	(void* m, const memblock& l),	new (m) memblock (l))
PROBE (memblock_ctor_move,	"new:memblock memblock",	(void* m, memblock& l),	new (m) memblock (ustl::move(l)))
PROBE (memblock_dtor,		"del:memblock",			(memblock& m),	m.~memblock())
PROBE (memblock_assign,		"memblock buf:2 n",		(memblock& m, const void* p, size_t n),	m.assign (p, n))
PROBE (memblock_assign_cml,	"memblock cmemlink",		(memblock& m, const cmemlink& l),	m.assign (l))
PROBE (memblock_eq_cml,		"memblock cmemlink",		(memblock& m, const cmemlink& l),	m = l)
PROBE (memblock_eq_ml,		"memblock memlink",		(memblock& m, const memlink& l),	m = l)
PROBE (memblock_eq,		"memblock memblock",		(memblock& m, const memblock& l),	m = l)
PROBE (memblock_eq_self,	"memblock",			(memblock& m),	m = m)
PROBE (memblock_move,		"memblock memblock",		(memblock& m, memblock& l),	m = ustl::move (l))
PROBE (memblock_swap,		"memblock memblock",		(memblock& m, memblock& l),	m.swap (l))
PROBE (memblock_reserve,	"memblock n b",			(memblock& m, size_t n, bool e),	m.reserve (n, e))
PROBE (memblock_resize,		"memblock n b",			(memblock& m, size_t n, bool e),	m.resize (n, e))
PROBE (memblock_insert,		"memblock it:0 n",		(memblock& m, const char* i, size_t n),	m.insert (i, n))
PROBE (memblock_erase,		"memblock it:0:2 n",		(memblock& m, const char* i, size_t n),	m.erase (i, n))
PROBE (memblock_clear,		"memblock",			(memblock& m),	m.clear())
PROBE (memblock_manage,		"unowned:memblock heap:2 n",	(memblock& m, void* p, size_t n),	m.manage (p, n))
PROBE (memblock_manage_ml,	"unowned:memblock heapml",	(memblock& m, memlink& l),	m.manage (l))
PROBE (memblock_deallocate,	"memblock",			(memblock& m),	m.deallocate())
PROBE (memblock_shrink,		"memblock",			(memblock& m),	m.shrink_to_fit())
PROBE (memblock_copy_link,	"memblock",			(memblock& m),	m.copy_link())
PROBE (memblock_link,		"unowned:memblock buf:2 n",	(memblock& m, const void* p, size_t n),	m.link (p, n))
PROBE (memblock_unlink,		"unowned:memblock",		(memblock& m),	m.unlink())
PROBE (memblock_read,		"memblock istream",		(memblock& m, istream& is),	m.read (is))
PROBE (memblock_write,		"@4g memblock ostream",		(const memblock& m, ostream& os),	m.write (os))

PROBE (memlink_link,		"memlink buf:2 n",		(memlink& m, const void* p, size_t n),	m.link (p, n))
PROBE (memlink_eq,		"memlink memlink",		(memlink& m, const memlink& l),	m = l)
PROBE (memlink_swap,		"memlink memlink",		(memlink& m, memlink& l),	m.swap (l))
PROBE (memlink_insert,		"memlink it:0:2 n",		(memlink& m, const char* i, size_t n),	m.insert (i, n))
PROBE (memlink_erase,		"memlink it:0:2 n",		(memlink& m, const char* i, size_t n),	m.erase (i, n))
PROBE (memlink_read,		"memlink istream",		(memlink& m, istream& is),	m.read (is))
PROBE (memlink_unlink,		"memlink",			(memlink& m),	m.unlink())

// observers, used to learn the objects' layout and to read their final state
#define ACC(c,f,r,...) extern "C" __attribute__((used)) r A_##c##_##f (const c& o) { typedef r r_t; return r_t (__VA_ARGS__); }
#define ACCLINK(c) ACC(c,data,const void*,o.cmemlink::cdata()) ACC(c,size,size_t,o.cmemlink::size())
ACCLINK(cmemlink) ACCLINK(memlink) ACCLINK(memblock) ACCLINK(istream) ACCLINK(ostream)
ACC(memblock,capacity,size_t,o.memblock::capacity())
ACC(istream,pos,size_t,o.pos()) ACC(ostream,pos,size_t,o.pos())
#define CTOR(c) extern "C" __attribute__((used)) void C_##c (void* m) { new (m) c; } extern "C" const unsigned Z_##c __attribute__((used)) = sizeof(c);
CTOR(cmemlink) CTOR(memlink) CTOR(memblock) CTOR(istream) CTOR(ostream)
