// Functors and iterator adaptors, for all arguments.  Wrapped functions are uninterpreted (ext_*): only their own
// arguments, in their own order, give their result.
#include "spec.h"
extern "C" { int ext_f (int) noexcept; int ext_g (int) noexcept; int ext_h (int) noexcept; int ext_2 (int, int) noexcept; int ext_m (int, int) noexcept; bool ext_p (int) noexcept; bool ext_eq (int, int) noexcept; int ext_s (int, int) noexcept; }
extern "C" __attribute__((used)) void C_vec_int (void* m) { new (m) vector<int>; }
extern "C" const unsigned Z_vec_int __attribute__((used)) = sizeof(vector<int>); extern "C" const unsigned Z_int __attribute__((used)) = 4;
#define F(name, ...) PROBE(name, "i32 i32", (int a, int b), __VA_ARGS__)
#define SOME(i, c) size_t i = any_(); ASSUME (c)
struct U : public unary_function<int,int> { int operator() (int x) const { return ext_f (x); } };
struct UG : public unary_function<int,int> { int operator() (int x) const { return ext_g (x); } };
struct UH : public unary_function<int,int> { int operator() (int x) const { return ext_h (x); } };
struct P : public unary_function<int,bool> { bool operator() (int x) const { return ext_p (x); } };
struct B : public binary_function<int,int,int> { int operator() (int x, int y) const { return ext_2 (x, y); } };
struct M { int u, v; int f (void) { return ext_f (v); } int cf (void) const { return ext_g (v); } int m (int x) { return ext_m (v, x); } int cm (int x) const { return ext_s (v, x); } };
F(f_plus, REQUIRE (unsigned (plus<unsigned>()(a, b)) == unsigned(a) + unsigned(b)))
F(f_minus, REQUIRE (minus<unsigned>()(a, b) == unsigned(a) - unsigned(b)))
F(f_multiplies, REQUIRE (multiplies<unsigned>()(a, b) == unsigned(a) * unsigned(b)))
F(f_divides, ASSUME (b); REQUIRE (divides<unsigned>()(a, b) == unsigned(a) / unsigned(b)))
F(f_modulus, ASSUME (b); REQUIRE (modulus<unsigned>()(a, b) == unsigned(a) % unsigned(b)))
F(f_logical_and, REQUIRE (logical_and<bool>()(a, b) == (a && b)))
F(f_logical_or, REQUIRE (logical_or<bool>()(a, b) == (a || b)))
F(f_logical_not, REQUIRE (logical_not<bool>()(a) == !a))
F(f_bitwise_and, REQUIRE (bitwise_and<int>()(a, b) == (a & b)))
F(f_bitwise_or, REQUIRE (bitwise_or<int>()(a, b) == (a | b)))
F(f_bitwise_xor, REQUIRE (bitwise_xor<int>()(a, b) == (a ^ b)))
F(f_bitwise_not, REQUIRE (bitwise_not<int>()(a) == ~a))
F(f_negate, REQUIRE (negate<unsigned>()(a) == 0u-unsigned(a)))
F(f_equal_to, REQUIRE (equal_to<int>()(a, b) == (a == b)))
F(f_not_equal_to, REQUIRE (not_equal_to<int>()(a, b) == (a != b)))
F(f_less, REQUIRE (less<int>()(a, b) == (a < b)))
F(f_greater, REQUIRE (greater<int>()(a, b) == (a > b)))
F(f_less_equal, REQUIRE (less_equal<int>()(a, b) == (a <= b)))
F(f_greater_equal, REQUIRE (greater_equal<int>()(a, b) == (a >= b)))
F(f_compare, int r = compare<int>()(a, b); REQUIRE ((r < 0) == (a < b)); REQUIRE ((r > 0) == (a > b));)
F(f_less_u, REQUIRE (less<unsigned>()(a, b) == (unsigned(a) < unsigned(b))))
F(f_compare_u, int r = compare<unsigned>()(a, b); REQUIRE ((r < 0) == (unsigned(a) < unsigned(b))); REQUIRE ((r > 0) == (unsigned(a) > unsigned(b))))
F(f_identity, REQUIRE (identity<int>()(a) == a))
F(f_project, REQUIRE (project1st<int,int>()(a, b) == a); REQUIRE (project2nd<int,int>()(a, b) == b))
F(f_ptr_fun, REQUIRE (ptr_fun (ext_f)(a) == ext_f (a)); REQUIRE (ptr_fun (ext_2)(a, b) == ext_2 (a, b)))
F(f_unary_negator, REQUIRE (unary_negator (P())(a) == !ext_p (a)))
F(f_bind1st, REQUIRE (bind1st (B(), a)(b) == ext_2 (a, b)))
F(f_bind2nd, REQUIRE (bind2nd (B(), a)(b) == ext_2 (b, a)))
F(f_compose1, REQUIRE (compose1 (U(), UG())(a) == ext_f (ext_g (a))))
F(f_compose2, REQUIRE (compose2 (B(), UG(), UH())(a) == ext_2 (ext_g (a), ext_h (a))))
F(f_mem_fun, M m = {b, a}; REQUIRE (mem_fun (&M::f)(&m) == ext_f (a)); REQUIRE (mem_fun (&M::cf)(&m) == ext_g (a)))
F(f_mem_fun_ref, M m = {b, a}; REQUIRE (mem_fun_ref (&M::f)(m) == ext_f (a)); REQUIRE (mem_fun_ref (&M::cf)(m) == ext_g (a)))
F(f_mem_fun_ext, M m = {7, a}; const M c = {8, b}; REQUIRE (mem_fun (&m, &M::m)(b) == ext_m (a, b)); REQUIRE (mem_fun (&c, &M::cm)(a) == ext_s (b, a)))
F(f_mem_var1, M m = {b, a}; REQUIRE (mem_var1 (&M::v, U())(m) == ext_f (a)); REQUIRE (const_mem_var1 (&M::u, U())(m) == ext_f (b)))
F(f_mem_var2, M m = {7, a}; M n = {8, b}; REQUIRE (mem_var2 (&M::v, B())(m, n) == ext_2 (a, b)); REQUIRE (const_mem_var2 (&M::v, B())(m, n) == ext_2 (a, b)))
F(f_mem_var_equal_to, M m = {7, a}; M n = {8, b}; REQUIRE (mem_var_equal_to (&M::v, b)(m) == (a == b)); REQUIRE (mem_var_equal_to (&M::v)(m, n) == (a == b)))
F(f_mem_var_less, M m = {7, a}; M n = {8, b}; REQUIRE (mem_var_less (&M::v, b)(m) == (a < b)); REQUIRE (mem_var_less (&M::v)(m, n) == (a < b)))
F(f_dereference, int x = a, y = b; REQUIRE (dereference (U())(&x) == ext_f (a)); REQUIRE (dereference (B())(&x, &y) == ext_2 (a, b)))
F(f_pair_compare, typedef pair<int,int> pr; pair_compare_first<pr,greater<int> > c; pair_compare_first_key<int,int,greater<int> > k; REQUIRE (c (pr (a, 1), pr (b, 2)) == (b < a)); REQUIRE (k (pr (a, 1), b) == (b < a)); REQUIRE (k (a, pr (b, 5)) == (b < a)))
F(f_operators, M m = {a, b}; (void) m; REQUIRE ((pair<int,int> (a, b) == pair<int,int> (b, a)) == (a == b)); REQUIRE ((pair<int,int> (a, b) < pair<int,int> (b, a)) == (a < b)); REQUIRE ((pair<int,int> (7, b) < pair<int,int> (7, a)) == (b < a)); REQUIRE ((pair<int,int> (a, b) != pair<int,int> (b, a)) == (a != b)); REQUIRE ((pair<int,int> (a, b) > pair<int,int> (b, a)) == (a > b)); REQUIRE ((pair<int,int> (a, b) <= pair<int,int> (b, a)) == (a <= b)); REQUIRE ((pair<int,int> (a, b) >= pair<int,int> (b, a)) == (a >= b)))
F(f_pair, pair<int,int> p (a, b); auto q = make_pair (b, a); p.swap (q); REQUIRE (p.first == b); REQUIRE (p.second == a); REQUIRE (q.first == a); REQUIRE (q.second == b); p = q; REQUIRE (p.first == a); REQUIRE (p.second == b); pair<long,long> w (p); REQUIRE (w.first == a); REQUIRE (w.second == b); w = make_pair (b, a); REQUIRE (w.first == b); REQUIRE (w.second == a))

#define I(name, ...) PROBE(i_##name, "n buf:0:4", (size_t n, int* p), __VA_ARGS__)
typedef reverse_iterator<const int*> R; typedef move_iterator<int*> V; typedef index_iterate<const int*,const unsigned*> X;
// every way of going J from place I, seen from BASE(place)
#define MOVES(T, make, at) SOME (i, i <= n); SOME (j, i+j <= n); T r = make (i), q = make (i+j); \
    REQUIRE (r.base() == at (i)); REQUIRE ((r + j).base() == at (i+j)); REQUIRE ((q - j).base() == at (i)); REQUIRE (q - r == ptrdiff_t(j)); REQUIRE (r - q == -ptrdiff_t(j)); \
    REQUIRE ((r == q) == (j == 0)); REQUIRE ((r < q) == (j > 0)); REQUIRE ((r != q) == (j != 0)); REQUIRE ((q > r) == (j > 0)); REQUIRE (r <= q); REQUIRE (q >= r); \
    { T t (r); REQUIRE ((t += j).base() == at (i+j)); REQUIRE (t.base() == at (i+j)); } { T t (q); REQUIRE ((t -= j).base() == at (i)); REQUIRE (t.base() == at (i)); } \
    if (i < n) { T t (r); REQUIRE ((++t).base() == at (i+1)); REQUIRE (t.base() == at (i+1)); } if (i < n) { T t (r); REQUIRE ((t++).base() == at (i)); REQUIRE (t.base() == at (i+1)); } \
    if (i) { T t (r); REQUIRE ((--t).base() == at (i-1)); REQUIRE (t.base() == at (i-1)); } if (i) { T t (r); REQUIRE ((t--).base() == at (i)); REQUIRE (t.base() == at (i-1)); }
#define FROM_END(i) (p+(n-(i)))
#define FROM_START(i) (p+(i))
I(reverse, MOVES (R, [&](size_t x) { return R (p+(n-x)); }, FROM_END))
I(reverse_at, SOME (i, i < n); R r (p+n); REQUIRE (&r[i] == p+(n-1-i)); r += i; REQUIRE (&*r == p+(n-1-i)); REQUIRE (r.operator->() == p+(n-1-i)); REQUIRE (make_reverse_iterator (p+n).base() == p+n))
I(move, MOVES (V, [&](size_t x) { return V (p+x); }, FROM_START))
I(move_at, SOME (i, i < n); V r (p); int&& x = r[i]; REQUIRE (&x == p+i); r += i; int&& y = *r; REQUIRE (&y == p+i); REQUIRE (r.operator->() == p+i); REQUIRE (make_move_iterator (p).base() == p))
PROBE(i_index, "n buf:0:4 n buf:2:4", (size_t n, const unsigned* p, size_t m, const int* a), MOVES (X, [&](size_t x) { return X (a, p+x); }, FROM_START))
PROBE(i_index_at, "n buf:0:4 n buf:2:4", (size_t n, const unsigned* p, size_t m, const int* a), SOME (i, i < n); ASSUME (p[i] < m); X r (a, p); REQUIRE (r[i] == a+p[i]); r += i; REQUIRE (*r == a+p[i]))
#define CTR "vec:int"
PROBE(i_ctr, CTR, (vector<int>& v), const vector<int>& c = v; size_t n = v.size(); int* b = v.begin(); REQUIRE (begin (v) == b); REQUIRE (end (v) == b+n); REQUIRE (begin (c) == b); REQUIRE (end (c) == b+n); REQUIRE (cbegin (v) == b); REQUIRE (cend (v) == b+n); REQUIRE (rbegin (v).base() == b+n); REQUIRE (rend (v).base() == b); REQUIRE (crbegin (v).base() == b+n); REQUIRE (crend (v).base() == b); REQUIRE (size (v) == n); REQUIRE (empty (v) == !n); REQUIRE (data (v) == b); REQUIRE (v.rbegin().base() == b+n); REQUIRE (v.rend().base() == b); REQUIRE (c.crbegin().base() == b+n); REQUIRE (c.crend().base() == b))
PROBE(i_array, "", (void), int a[5]; REQUIRE (begin (a) == a); REQUIRE (end (a) == a+5); REQUIRE (size (a) == 5); REQUIRE (data (a) == a); REQUIRE (VectorEnd (a) == a+5))
PROBE(i_ibyi, "vec:int vec:int", (vector<int>& v, vector<int>& u), ASSUME (v.size() == u.size()); SOME (i, i <= v.size()); const vector<int>& c = v; REQUIRE (ibyi (v.begin()+i, v, u) == u.begin()+i); REQUIRE (ibyi (c.begin()+i, c, u) == u.begin()+i); REQUIRE (unconst (c.begin()+i, v) == v.begin()+i))
// inserters: what is there afterwards, with any of the ways to write through them
#define INSERTED(P, x) REQUIRE (v.size() == n+1); REQUIRE (peek4_(v.begin()+(P)) == unsigned(x)); SOME (i, i < n); size_t j = i; if (i >= (P)) j += 1; REQUIRE (peek4_(v.begin()+j) == was4_(b+i));
#define INSERTED2(P, x, y) REQUIRE (v.size() == n+2); REQUIRE (peek4_(v.begin()+(P)) == unsigned(x)); REQUIRE (peek4_(v.begin()+(P)+1) == unsigned(y)); SOME (i, i < n); size_t j = i; if (i >= (P)) j += 2; REQUIRE (peek4_(v.begin()+j) == was4_(b+i));
#define C(name, CT, ...) PROBE(i_##name, "vec:int i32 i32", (CT<int>& v, int x, int y), size_t n = v.size(); const int* b = v.begin(); __VA_ARGS__)
C(back, vector, auto r = back_inserter (v); *r = x; INSERTED (n, x))
C(back2, vector, auto r = back_inserter (v); *r++ = x; *r = y; INSERTED2 (n, x, y))
C(back2_pre, vector, auto r = back_inserter (v); *r = x; *++r = y; INSERTED2 (n, x, y))
C(front, list, auto r = front_inserter (v); *r = x; INSERTED (0, x))
C(front2, list, auto r = front_inserter (v); *r++ = x; *r = y; INSERTED2 (0, y, x))
C(insert, vector, SOME (k, k <= n); auto r = inserter (v, v.begin()+k); *r = x; INSERTED (k, x))
C(insert2, vector, SOME (k, k <= n); auto r = inserter (v, v.begin()+k); *r++ = x; *r = y; INSERTED2 (k, x, y))
C(insert2_pre, vector, SOME (k, k <= n); auto r = inserter (v, v.begin()+k); *r = x; *++r = y; INSERTED2 (k, x, y))
