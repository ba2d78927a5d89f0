#include "probe.h"
// argument codes: see lib/memcheck.py
PROBE (string_ctor,		"new:string",			(void* m),	new (m) string)
PROBE (string_ctor_copy,	"new:string string",		(void* m, const string& s),	new (m) string (s))
PROBE (string_ctor_sub,		"new:string string n n",	(void* m, const string& s, size_t o, size_t n),	new (m) string (s, o, n))
PROBE (string_ctor_cml,		"new:string cmemlink",		(void* m, const cmemlink& s),	new (m) string (s))
PROBE (string_ctor_cstr,	"new:string cstr",		(void* m, const char* s),	new (m) string (s))
PROBE (string_ctor_pn,		"new:string buf:2 n",		(void* m, const char* s, size_t n),	new (m) string (s, n))
PROBE (string_ctor_pp,		"new:string buf:2 n",		(void* m, const char* s, size_t n),	new (m) string (s, s + n))
PROBE (string_ctor_nc,		"new:string n ch",		(void* m, size_t n, char c),	new (m) string (n, c))
PROBE (string_ctor_move,	"new:string string",		(void* m, string& s),	new (m) string (ustl::move (s)))
PROBE (string_dtor,		"del:string",			(string& s),	s.~string())
PROBE (string_resize,		"string n",			(string& s, size_t n),	s.resize (n))
PROBE (string_resize_c,		"string n ch",			(string& s, size_t n, char c),	s.resize (n, c))
PROBE (string_reserve,		"string n b",			(string& s, size_t n, bool e),	s.reserve (n, e))
PROBE (string_clear,		"string",			(string& s),	s.clear())
PROBE (string_append_pn,	"string buf:2 n",		(string& s, const char* p, size_t n),	s.append (p, n))
PROBE (string_append_cstr,	"string cstr",			(string& s, const char* p),	s.append (p))
PROBE (string_append_nc,	"string n ch",			(string& s, size_t n, char c),	s.append (n, c))
PROBE (string_append_s,		"string string",		(string& s, const string& t),	s.append (t))
PROBE (string_append_sub,	"string string n n",		(string& s, const string& t, size_t o, size_t n),	s.append (t, o, n))
PROBE (string_push_back,	"string ch",			(string& s, char c),	s.push_back (c))
PROBE (string_assign_pn,	"string buf:2 n",		(string& s, const char* p, size_t n),	s.assign (p, n))
PROBE (string_assign_cstr,	"string cstr",			(string& s, const char* p),	s.assign (p))
PROBE (string_assign_s,		"string string",		(string& s, const string& t),	s.assign (t))
PROBE (string_assign_sub,	"string string n n",		(string& s, const string& t, size_t o, size_t n),	s.assign (t, o, n))
PROBE (string_assign_nc,	"string n ch",			(string& s, size_t n, char c),	s.assign (n, c))
PROBE (string_assign_move,	"string string",		(string& s, string& t),	s = ustl::move (t))
PROBE (string_eq,		"string string",		(string& s, const string& t),	s = t)
PROBE (string_eq_self,		"string",			(string& s),	s = s)
PROBE (string_eq_cstr,		"string cstr",			(string& s, const char* t),	s = t)
PROBE (string_eq_ch,		"string ch",			(string& s, char t),	s = t)
PROBE (string_pluseq,		"string string",		(string& s, const string& t),	s += t)
PROBE (string_pluseq_ch,	"string ch",			(string& s, char t),	s += t)
PROBE (string_plus,		"new:string string string",	(void* m, const string& s, const string& t),	new (m) string (s + t))
PROBE (string_copy,		"string wbuf:2 n n",		(const string& s, char* p, size_t n, size_t o),	s.copy (p, n, o < s.size() ? o : s.size()))
PROBE (string_copyto,		"string wbuf:2 n n",		(const string& s, char* p, size_t n, size_t o),	if (n) s.copyto (p, n, o < s.size() ? o : s.size()))
PROBE (string_compare,		"string string",		(const string& s, const string& t),	s.compare (t))
PROBE (string_compare_sub,	"string n n string n n",	(const string& s, size_t o, size_t n, const string& t, size_t o2, size_t n2),	s.compare (o, n, t, o2, n2))
PROBE (string_equal,		"string string",		(const string& s, const string& t),	(void) (s == t))
PROBE (string_equal_cstr,	"string cstr",			(const string& s, const char* t),	(void) (s == t))
PROBE (string_less,		"string string",		(const string& s, const string& t),	(void) (s < t))
PROBE (string_less_cstr,	"string cstr",			(const string& s, const char* t),	(void) (s < t))
PROBE (string_insert_nc,	"string it:0 n ch",		(string& s, const char* i, size_t n, char c),	s.insert (i, n, c))
PROBE (string_insert_pos_nc,	"string n n ch",		(string& s, size_t ip, size_t n, char c),	s.insert (ip, n, c))
PROBE (string_insert_range,	"string it:0 buf:3 n",		(string& s, const char* i, const char* p, size_t n),	s.insert (i, p, p + n))
PROBE (string_insert_cstr,	"string n cstr",		(string& s, size_t ip, const char* p),	s.insert (ip, p))
PROBE (string_insert_s,		"string n string",		(string& s, size_t ip, const string& t),	s.insert (ip, t))
PROBE (string_insert_sub,	"string n string n n",		(string& s, size_t ip, const string& t, size_t sp, size_t n),	s.insert (ip, t, sp, n))
PROBE (string_erase_it,		"string it:0:2 n",		(string& s, const char* i, size_t n),	s.erase (i, n))
PROBE (string_erase_pos,	"string n n",			(string& s, size_t p, size_t n),	s.erase (p < s.size() ? p : s.size(), n))
PROBE (string_replace,		"string it:0:4 buf:3 n n",	(string& s, const char* i, const char* p, size_t n, size_t k),	s.replace (i, i + k, p, p + n))
PROBE (string_find_c,		"string ch n",			(const string& s, char c, size_t p),	s.find (c, p))
PROBE (string_find_s,		"string string n",		(const string& s, const string& t, size_t p),	s.find (t, p))
PROBE (string_rfind_c,		"string ch n",			(const string& s, char c, size_t p),	s.rfind (c, p))
PROBE (string_rfind_s,		"string string n",		(const string& s, const string& t, size_t p),	s.rfind (t, p))
PROBE (string_find_first_of,	"string string n",		(const string& s, const string& t, size_t p),	s.find_first_of (t, p))
PROBE (string_find_first_not_of,"string string n",		(const string& s, const string& t, size_t p),	s.find_first_not_of (t, p))
PROBE (string_find_last_of,	"string string n",		(const string& s, const string& t, size_t p),	s.find_last_of (t, p))
PROBE (string_find_last_not_of,	"string string n",		(const string& s, const string& t, size_t p),	s.find_last_not_of (t, p))
PROBE (string_substr,		"new:string string n n",	(void* m, const string& s, size_t o, size_t n),	new (m) string (s.substr (o, n)))
PROBE (string_swap,		"string string",		(string& s, string& t),	s.swap (t))
PROBE (string_shrink,		"string",			(string& s),	s.shrink_to_fit())
PROBE (string_copy_link,	"string",			(string& s),	s.copy_link())
PROBE (string_hash,		"string",			(const string& s),	string::hash (s.begin(), s.end()))
PROBE (string_read,		"string istream",		(string& s, istream& is),	s.read (is))
PROBE (string_write,		"@4g string ostream",		(const string& s, ostream& os),	s.write (os))
#define ACC(c,f,r,...) extern "C" __attribute__((used)) r A_##c##_##f (const c& o) { typedef r r_t; return r_t (__VA_ARGS__); }
ACC(string,data,const void*,o.memblock::cdata()) ACC(string,size,size_t,o.memblock::size())
ACC(string,capacity,size_t,o.memblock::capacity())
extern "C" __attribute__((used)) void C_string (void* m) { new (m) string; } extern "C" const unsigned Z_string __attribute__((used)) = sizeof(string);
