#include "spec.h"
typedef auto_ptr<El> AP; typedef unique_ptr<El> UP; typedef unique_ptr<El[]> UA; typedef shared_ptr<El> SP;
#define S(name, ...) PROBE(name, "", (), __VA_ARGS__)

// --- auto_ptr
S(auto_ptr_dtor, El* e = new El; { AP p (e); REQUIRE (p.get() == e); REQUIRE (live_(e)); REQUIRE (&*p == e); REQUIRE (p.operator->() == e); } REQUIRE (!live_(e)))
S(auto_ptr_default, { AP p; REQUIRE (p.get() == nullptr); })
S(auto_ptr_copy, El* e = new El; { AP p (e); AP q (p); REQUIRE (q.get() == e); REQUIRE (p.get() == nullptr); REQUIRE (live_(e)); } REQUIRE (!live_(e)))
S(auto_ptr_release, El* e = new El; { AP p (e); El* r = p.release(); REQUIRE (r == e); REQUIRE (p.get() == nullptr); } REQUIRE (live_(e)); delete e)
S(auto_ptr_reset, El* e = new El; El* f = new El; { AP p (e); p.reset (f); REQUIRE (!live_(e)); REQUIRE (live_(f)); REQUIRE (p.get() == f); } REQUIRE (!live_(f)))
S(auto_ptr_reset_same, El* e = new El; { AP p (e); p.reset (e); REQUIRE (live_(e)); REQUIRE (p.get() == e); } REQUIRE (!live_(e)))
S(auto_ptr_reset_null, El* e = new El; { AP p (e); p.reset (nullptr); REQUIRE (!live_(e)); REQUIRE (p.get() == nullptr); })
S(auto_ptr_eq_ptr, El* e = new El; El* f = new El; { AP p (e); p = f; REQUIRE (!live_(e)); REQUIRE (p.get() == f); } REQUIRE (!live_(f)))
S(auto_ptr_eq, El* e = new El; El* f = new El; { AP p (e); AP q (f); p = q; REQUIRE (!live_(e)); REQUIRE (live_(f)); REQUIRE (p.get() == f); REQUIRE (q.get() == nullptr); } REQUIRE (!live_(f)))
S(auto_ptr_eq_self, El* e = new El; { AP p (e); p = p; REQUIRE (live_(e)); REQUIRE (p.get() == e); } REQUIRE (!live_(e)))
S(auto_ptr_compare, El* e = new El; El* f = new El; AP p (e); AP q (f); REQUIRE ((p == q) == (e == f)); REQUIRE (p == e); REQUIRE ((p < q) == (e < f)))

// --- unique_ptr
S(unique_ptr_dtor, El* e = new El; { UP p (e); REQUIRE (p.get() == e); REQUIRE (live_(e)); REQUIRE (bool(p)); REQUIRE (&*p == e); REQUIRE (p.operator->() == e); REQUIRE (&p[0] == e); } REQUIRE (!live_(e)))
S(unique_ptr_default, { UP p; REQUIRE (p.get() == nullptr); REQUIRE (!p); })
S(unique_ptr_move, El* e = new El; { UP p (e); UP q (move(p)); REQUIRE (q.get() == e); REQUIRE (p.get() == nullptr); REQUIRE (live_(e)); } REQUIRE (!live_(e)))
S(unique_ptr_release, El* e = new El; { UP p (e); El* r = p.release(); REQUIRE (r == e); REQUIRE (p.get() == nullptr); REQUIRE (!p); } REQUIRE (live_(e)); delete e)
S(unique_ptr_reset, El* e = new El; El* f = new El; { UP p (e); p.reset (f); REQUIRE (!live_(e)); REQUIRE (live_(f)); REQUIRE (p.get() == f); } REQUIRE (!live_(f)))
S(unique_ptr_reset_null, El* e = new El; { UP p (e); p.reset(); REQUIRE (!live_(e)); REQUIRE (p.get() == nullptr); p.reset(); })
S(unique_ptr_eq_ptr, El* e = new El; El* f = new El; { UP p (e); p = f; REQUIRE (!live_(e)); REQUIRE (p.get() == f); } REQUIRE (!live_(f)))
S(unique_ptr_eq_move, El* e = new El; El* f = new El; { UP p (e); UP q (f); UP& r = (p = move(q)); REQUIRE (&r == &p); REQUIRE (!live_(e)); REQUIRE (live_(f)); REQUIRE (p.get() == f); REQUIRE (q.get() == nullptr); } REQUIRE (!live_(f)))
S(unique_ptr_eq_self, El* e = new El; { UP p (e); UP& q = p; p = move(q); REQUIRE (live_(e)); REQUIRE (p.get() == e); } REQUIRE (!live_(e)))
S(unique_ptr_swap, El* e = new El; El* f = new El; { UP p (e); UP q (f); p.swap (q); REQUIRE (p.get() == f); REQUIRE (q.get() == e); REQUIRE (live_(e)); REQUIRE (live_(f)); } REQUIRE (!live_(e)); REQUIRE (!live_(f)))
S(unique_ptr_swap_null, El* e = new El; { UP p (e); UP q; p.swap (q); REQUIRE (p.get() == nullptr); REQUIRE (q.get() == e); REQUIRE (live_(e)); } REQUIRE (!live_(e)))
S(unique_ptr_compare, El* e = new El; El* f = new El; UP p (e); UP q (f); REQUIRE ((p == q) == (e == f)); REQUIRE (p == e); REQUIRE (!(p != e)); REQUIRE (p != f); REQUIRE ((p < q) == (e < f)))
S(make_unique, El* e; { auto p = make_unique<El>(); e = p.get(); REQUIRE (live_(e)); } REQUIRE (!live_(e)))
S(make_unique_value, El* e; { auto p = make_unique<El>(5); e = p.get(); REQUIRE (live_(e)); REQUIRE (p->v == 5); } REQUIRE (!live_(e)))
// --- unique_ptr<T[]>
S(unique_array_dtor, El* e = new El[3]; { UA p (e); REQUIRE (p.get() == e); REQUIRE (&p[2] == e+2); REQUIRE (live_(e+2)); REQUIRE (bool(p)); } REQUIRE (!live_(e)); REQUIRE (!live_(e+2)))
S(unique_array_move, El* e = new El[2]; { UA p (e); UA q (move(p)); REQUIRE (q.get() == e); REQUIRE (p.get() == nullptr); } REQUIRE (!live_(e)))
S(unique_array_release, El* e = new El[2]; { UA p (e); REQUIRE (p.release() == e); REQUIRE (p.get() == nullptr); } REQUIRE (live_(e+1)); delete [] e)
S(unique_array_reset, El* e = new El[2]; El* f = new El[2]; { UA p (e); p.reset (f); REQUIRE (!live_(e+1)); REQUIRE (live_(f+1)); REQUIRE (p.get() == f); } REQUIRE (!live_(f)))
S(unique_array_eq_move, El* e = new El[2]; El* f = new El[2]; { UA p (e); UA q (f); p = move(q); REQUIRE (!live_(e)); REQUIRE (live_(f)); REQUIRE (p.get() == f); REQUIRE (q.get() == nullptr); } REQUIRE (!live_(f)))
S(unique_array_eq_ptr, El* e = new El[2]; El* f = new El[2]; { UA p (e); p = f; REQUIRE (!live_(e)); REQUIRE (p.get() == f); } REQUIRE (!live_(f)))
S(unique_array_swap, El* e = new El[2]; El* f = new El[2]; { UA p (e); UA q (f); p.swap (q); REQUIRE (p.get() == f); REQUIRE (q.get() == e); } REQUIRE (!live_(e)); REQUIRE (!live_(f)))
S(unique_array_make, El* e; { auto p = make_unique<El[]>(2); e = p.get(); REQUIRE (live_(e+1)); } REQUIRE (!live_(e)); REQUIRE (!live_(e+1)))

// --- shared_ptr
S(shared_ptr_dtor, El* e = new El; { SP p (e); REQUIRE (p.get() == e); REQUIRE (p.use_count() == 1); REQUIRE (p.unique()); REQUIRE (live_(e)); REQUIRE (bool(p)); REQUIRE (&*p == e); REQUIRE (p.operator->() == e); REQUIRE (&p[0] == e); } REQUIRE (!live_(e)))
S(shared_ptr_default, { SP p; REQUIRE (p.get() == nullptr); REQUIRE (p.use_count() == 0); REQUIRE (!p); REQUIRE (!p.unique()); })
S(shared_ptr_copy, El* e = new El; { SP p (e); { SP q (p); REQUIRE (q.get() == e); REQUIRE (p.get() == e); REQUIRE (p.use_count() == 2); REQUIRE (q.use_count() == 2); REQUIRE (!p.unique()); } REQUIRE (live_(e)); REQUIRE (p.use_count() == 1); } REQUIRE (!live_(e)))
S(shared_ptr_copy_outlives, El* e = new El; { SP q; { SP p (e); SP r (p); q.swap (r); } REQUIRE (live_(e)); REQUIRE (q.use_count() == 1); REQUIRE (q.get() == e); } REQUIRE (!live_(e)))
S(shared_ptr_copy_null, { SP p; SP q (p); REQUIRE (q.get() == nullptr); REQUIRE (q.use_count() == 0); })
S(shared_ptr_move, El* e = new El; { SP p (e); SP q (move(p)); REQUIRE (q.get() == e); REQUIRE (p.get() == nullptr); REQUIRE (q.use_count() == 1); } REQUIRE (!live_(e)))
S(shared_ptr_reset, El* e = new El; El* f = new El; { SP p (e); p.reset (f); REQUIRE (!live_(e)); REQUIRE (live_(f)); REQUIRE (p.get() == f); REQUIRE (p.use_count() == 1); } REQUIRE (!live_(f)))
S(shared_ptr_reset_shared, El* e = new El; El* f = new El; { SP p (e); SP q (p); p.reset (f); REQUIRE (live_(e)); REQUIRE (q.use_count() == 1); REQUIRE (p.get() == f); REQUIRE (p.use_count() == 1); REQUIRE (q.get() == e); } REQUIRE (!live_(e)); REQUIRE (!live_(f)))
S(shared_ptr_reset_null, El* e = new El; { SP p (e); SP q (p); p.reset(); REQUIRE (live_(e)); REQUIRE (p.get() == nullptr); q.reset(); REQUIRE (!live_(e)); q.reset(); })
S(shared_ptr_eq_ptr, El* e = new El; El* f = new El; { SP p (e); p = f; REQUIRE (!live_(e)); REQUIRE (p.get() == f); } REQUIRE (!live_(f)))
S(shared_ptr_eq, El* e = new El; El* f = new El; { SP p (e); SP q (f); SP& r = (p = q); REQUIRE (&r == &p); REQUIRE (!live_(e)); REQUIRE (p.get() == f); REQUIRE (q.get() == f); REQUIRE (p.use_count() == 2); } REQUIRE (!live_(f)))
S(shared_ptr_eq_self, El* e = new El; { SP p (e); SP& q = p; p = q; REQUIRE (live_(e)); REQUIRE (p.get() == e); REQUIRE (p.use_count() == 1); } REQUIRE (!live_(e)))
S(shared_ptr_eq_same, El* e = new El; { SP p (e); SP q (p); p = q; REQUIRE (live_(e)); REQUIRE (p.get() == e); REQUIRE (p.use_count() == 2); } REQUIRE (!live_(e)))
S(shared_ptr_eq_null, El* e = new El; { SP p (e); SP q; p = q; REQUIRE (!live_(e)); REQUIRE (p.get() == nullptr); q = p; })
S(shared_ptr_eq_move, El* e = new El; El* f = new El; { SP p (e); { SP q (f); p = move(q); REQUIRE (p.get() == f); REQUIRE (p.use_count() == 1); REQUIRE (live_(f)); } REQUIRE (!live_(e)); REQUIRE (live_(f)); } REQUIRE (!live_(f)))
S(shared_ptr_eq_move_self, El* e = new El; { SP p (e); SP& q = p; p = move(q); REQUIRE (live_(e)); REQUIRE (p.get() == e); } REQUIRE (!live_(e)))
S(shared_ptr_swap, El* e = new El; El* f = new El; { SP p (e); SP q (f); p.swap (q); REQUIRE (p.get() == f); REQUIRE (q.get() == e); } REQUIRE (!live_(e)); REQUIRE (!live_(f)))
S(shared_ptr_compare, El* e = new El; El* f = new El; SP p (e); SP q (f); SP r (p); REQUIRE ((p == q) == (e == f)); REQUIRE (p == r); REQUIRE (p == e); REQUIRE (!(p != e)); REQUIRE (p != f); REQUIRE ((p < q) == (e < f)))
S(make_shared, El* e; { auto p = make_shared<El>(7); e = p.get(); REQUIRE (live_(e)); REQUIRE (p->v == 7); REQUIRE (p.use_count() == 1); } REQUIRE (!live_(e)))
// the same while other threads copy and drop theirs
S(shared_ptr_threads_dtor, El* e = new El; { SP p (e); share_(); })
S(shared_ptr_threads_copy, El* e = new El; { SP p (e); SP r (p); share_(); SP q (p); REQUIRE (live_(e)); REQUIRE (q.get() == e); })
S(shared_ptr_threads_reset, El* e = new El; El* f = new El; { SP p (e); share_(); p.reset (f); REQUIRE (p.get() == f); })
S(shared_ptr_threads_reset_null, El* e = new El; { SP p (e); SP q (p); share_(); p.reset(); REQUIRE (live_(e)); REQUIRE (q->v == q->v); })
S(shared_ptr_threads_eq, El* e = new El; El* f = new El; { SP p (e); SP q (f); share_(); p = q; REQUIRE (p.get() == f); REQUIRE (live_(f)); })
S(shared_ptr_threads_eq_self, El* e = new El; { SP p (e); SP& q = p; share_(); p = q; REQUIRE (live_(e)); REQUIRE (p.get() == e); })
S(shared_ptr_threads_eq_move, El* e = new El; El* f = new El; { SP p (e); SP q (f); share_(); p = move(q); REQUIRE (p.get() == f); REQUIRE (live_(f)); })

// --- scope_exit
struct Act { unsigned long id; void operator() (void) const { act_(id); } template <typename R> void operator() (R) const { act_(id); } };
S(scope_exit_runs, { auto g = make_scope_exit ([]{ act_(1); }); REQUIRE (acts_(1) == 0); } REQUIRE (acts_(1) == 1))
S(scope_exit_class, { Act a = { 1 }; scope_exit<Act> g (move(a)); REQUIRE (acts_(1) == 0); } REQUIRE (acts_(1) == 1))
S(scope_exit_release, { auto g = make_scope_exit ([]{ act_(1); }); g.release(); } REQUIRE (acts_(1) == 0))
S(scope_exit_move, { Act a = { 1 }; scope_exit<Act> g (move(a)); { scope_exit<Act> h (move(g)); REQUIRE (acts_(1) == 0); } REQUIRE (acts_(1) == 1); } REQUIRE (acts_(1) == 1))
S(scope_exit_move_released, { Act a = { 1 }; scope_exit<Act> g (move(a)); g.release(); scope_exit<Act> h (move(g)); } REQUIRE (acts_(1) == 0))
// --- unique_resource: the deleter counts what it is called for
struct Del { unsigned long id; void operator() (int) const { act_(id); } };
struct DelV { void operator() (unsigned long r) const { act_(r); } };
typedef unique_resource<int,Del> UR; typedef unique_resource<unsigned long,DelV> UV;
static inline UV V (unsigned long r, bool on = true) { return UV (move(r), DelV(), on); }
S(unique_resource_dtor, { UR r (5, Del{1}); REQUIRE (r.get() == 5); REQUIRE (int(r) == 5); REQUIRE (acts_(1) == 0); REQUIRE (r.get_deleter().id == 1); } REQUIRE (acts_(1) == 1))
S(unique_resource_off, { UR r (5, Del{1}, false); } REQUIRE (acts_(1) == 0))
S(unique_resource_release, { UR r (5, Del{1}); REQUIRE (r.release() == 5); } REQUIRE (acts_(1) == 0))
S(unique_resource_reset, { UR r (5, Del{1}); r.reset(); REQUIRE (acts_(1) == 1); r.reset(); REQUIRE (acts_(1) == 1); } REQUIRE (acts_(1) == 1))
S(unique_resource_reset_v, { unsigned long a = 3; unsigned long b = 4; UV r (move(a), DelV()); r.reset (move(b)); REQUIRE (acts_(3) == 1); REQUIRE (acts_(4) == 0); REQUIRE (r.get() == 4); } REQUIRE (acts_(3) == 1); REQUIRE (acts_(4) == 1))
S(unique_resource_reset_after_release, { unsigned long a = 3; unsigned long b = 4; UV r (move(a), DelV()); r.release(); r.reset (move(b)); REQUIRE (acts_(3) == 0); } REQUIRE (acts_(3) == 0); REQUIRE (acts_(4) == 1))
S(unique_resource_move, { unsigned long a = 3; UV r (move(a), DelV()); { UV q (move(r)); REQUIRE (q.get() == 3); REQUIRE (acts_(3) == 0); } REQUIRE (acts_(3) == 1); } REQUIRE (acts_(3) == 1))
S(unique_resource_move_off, { unsigned long a = 3; UV r (move(a), DelV(), false); UV q (move(r)); } REQUIRE (acts_(3) == 0))
S(unique_resource_eq, { unsigned long a = 3; unsigned long b = 4; UV r (move(a), DelV()); { UV q (move(b), DelV()); r = move(q); REQUIRE (acts_(3) == 1); REQUIRE (acts_(4) == 0); REQUIRE (r.get() == 4); } REQUIRE (acts_(4) == 0); } REQUIRE (acts_(3) == 1); REQUIRE (acts_(4) == 1))
S(unique_resource_eq_deleter, { UR r (5, Del{1}); { UR q (6, Del{2}); r = move(q); REQUIRE (acts_(1) == 1); REQUIRE (r.get_deleter().id == 2); } REQUIRE (acts_(2) == 0); } REQUIRE (acts_(1) == 1); REQUIRE (acts_(2) == 1))
S(unique_resource_eq_off, { unsigned long a = 3; unsigned long b = 4; UV r (move(a), DelV()); UV q (move(b), DelV(), false); r = move(q); } REQUIRE (acts_(3) == 1); REQUIRE (acts_(4) == 0))
S(unique_resource_checked, { auto r = make_unique_resource_checked (3ul, 9ul, DelV()); REQUIRE (r.get() == 3); } REQUIRE (acts_(3) == 1))
S(unique_resource_checked_bad, { auto r = make_unique_resource_checked (9ul, 9ul, DelV()); } REQUIRE (acts_(9) == 0))
