#include "probe.h"
typedef unsigned short ushort_; typedef void* pvoid;
struct trio { int a, b, c; };
struct El { void* a; void* b; El() noexcept; El(const El&) noexcept; El(El&&) noexcept; ~El() noexcept; El& operator= (const El&) noexcept; El& operator= (El&&) noexcept; };
#define VEC(T,t,Z) \
extern "C" __attribute__((used)) void C_vec_##t (void* m) { new (m) vector<T>; } \
extern "C" const unsigned Z_vec_##t __attribute__((used)) = sizeof(vector<T>); extern "C" const unsigned Z_##t __attribute__((used)) = sizeof(T); \
PROBE (vec_##t##_ctor,		"new:vec:" #t,			(void* m),	new (m) vector<T>) \
PROBE (vec_##t##_ctor_n,	"new:vec:" #t " n",		(void* m, size_t n),	new (m) vector<T> (n)) \
PROBE (vec_##t##_ctor_nv,	"new:vec:" #t " n in:" #t,	(void* m, size_t n, const T& v),	new (m) vector<T> (n, v)) \
PROBE (vec_##t##_ctor_copy,	"new:vec:" #t " vec:" #t,	(void* m, const vector<T>& v),	new (m) vector<T> (v)) \
PROBE (vec_##t##_ctor_move,	"new:vec:" #t " vec:" #t,	(void* m, vector<T>& v),	new (m) vector<T> (ustl::move(v))) \
PROBE (vec_##t##_ctor_pp,	"new:vec:" #t " buf:2:" Z " n",	(void* m, const T* p, size_t n),	new (m) vector<T> (p, p + n)) \
PROBE (vec_##t##_ctor_il,	"new:vec:" #t " buf:2:" Z " n",	(void* m, const T* p, size_t n),	struct { const T* p; size_t n; } il = { p, n }; new (m) vector<T> (reinterpret_cast<std::initializer_list<T>&>(il))) \
PROBE (vec_##t##_dtor,		"del:vec:" #t,			(vector<T>& v),	v.~vector()) \
PROBE (vec_##t##_eq,		"vec:" #t " vec:" #t,		(vector<T>& v, const vector<T>& w),	v = w) \
PROBE (vec_##t##_eq_self,	"vec:" #t,			(vector<T>& v),	v = v) \
PROBE (vec_##t##_eq_move,	"vec:" #t " vec:" #t,		(vector<T>& v, vector<T>& w),	v = ustl::move (w)) \
PROBE (vec_##t##_swap,		"vec:" #t " vec:" #t,		(vector<T>& v, vector<T>& w),	v.swap (w)) \
PROBE (vec_##t##_reserve,	"vec:" #t " n b",		(vector<T>& v, size_t n, bool e),	v.reserve (n, e)) \
PROBE (vec_##t##_resize,	"vec:" #t " n",			(vector<T>& v, size_t n),	v.resize (n)) \
PROBE (vec_##t##_resize_v,	"vec:" #t " n in:" #t,		(vector<T>& v, size_t n, const T& x),	v.resize (n, x)) \
PROBE (vec_##t##_push_back,	"vec:" #t " in:" #t,		(vector<T>& v, const T& x),	v.push_back (x)) \
PROBE (vec_##t##_push_back_m,	"vec:" #t " in:" #t,		(vector<T>& v, T& x),	v.push_back (ustl::move (x))) \
PROBE (vec_##t##_emplace_back,	"vec:" #t " in:" #t,		(vector<T>& v, const T& x),	v.emplace_back (x)) \
PROBE (vec_##t##_pop_back,	"@ne vec:" #t,			(vector<T>& v),	v.pop_back()) \
PROBE (vec_##t##_clear,		"vec:" #t,			(vector<T>& v),	v.clear()) \
PROBE (vec_##t##_shrink,	"vec:" #t,			(vector<T>& v),	v.shrink_to_fit()) \
PROBE (vec_##t##_deallocate,	"vec:" #t,			(vector<T>& v),	v.deallocate()) \
PROBE (vec_##t##_copy_link,	"vec:" #t,			(vector<T>& v),	v.copy_link()) \
PROBE (vec_##t##_assign_pp,	"vec:" #t " buf:2:" Z " n",	(vector<T>& v, const T* p, size_t n),	v.assign (p, p + n)) \
PROBE (vec_##t##_assign_nv,	"vec:" #t " n in:" #t,		(vector<T>& v, size_t n, const T& x),	v.assign (n, x)) \
PROBE (vec_##t##_insert_v,	"vec:" #t " vit:0 in:" #t,	(vector<T>& v, const T* i, const T& x),	v.insert (i, x)) \
PROBE (vec_##t##_insert_m,	"vec:" #t " vit:0 in:" #t,	(vector<T>& v, const T* i, T& x),	v.insert (i, ustl::move (x))) \
PROBE (vec_##t##_emplace,	"vec:" #t " vit:0 in:" #t,	(vector<T>& v, const T* i, const T& x),	v.emplace (i, x)) \
PROBE (vec_##t##_insert_nv,	"vec:" #t " vit:0 n in:" #t,	(vector<T>& v, const T* i, size_t n, const T& x),	v.insert (i, n, x)) \
PROBE (vec_##t##_insert_pp,	"vec:" #t " vit:0 buf:3:" Z " n",	(vector<T>& v, const T* i, const T* p, size_t n),	v.insert (i, p, p + n)) \
PROBE (vec_##t##_erase,		"vec:" #t " vit:0:2 n",		(vector<T>& v, const T* i, size_t n),	v.erase (i, n)) \
PROBE (vec_##t##_erase_pp,	"vec:" #t " vit:0:2 n",		(vector<T>& v, const T* i, size_t n),	v.erase (i, i + n)) \
PROBE (vec_##t##_manage,	"unowned:vec:" #t " heap:2:" Z " n",	(vector<T>& v, T* p, size_t n),	v.manage (p, n)) \
PROBE (vec_##t##_link,		"unowned:vec:" #t " buf:2:" Z " n",	(vector<T>& v, const T* p, size_t n),	v.link (p, n)) \
PROBE (vec_##t##_link_v,	"unowned:vec:" #t " vec:" #t,	(vector<T>& v, vector<T>& w),	v.link (w)) \
PROBE (vec_##t##_unlink,	"unowned:vec:" #t,		(vector<T>& v),	v.unlink())
VEC(char,char,"1") VEC(ushort_,ushort_,"2") VEC(int,int,"4") VEC(double,double,"8") VEC(trio,trio,"12") VEC(pvoid,pvoid,"8")
VEC(El,El,"16")
