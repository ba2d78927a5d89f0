// Algorithms that write: every element of the result, the end returned, and nothing written past it.
#include "spec.h"
extern "C" { int ext_fn (int) noexcept; int ext_fn2 (int, int) noexcept; bool ext_pred (int) noexcept; bool ext_eq (int, int) noexcept; unsigned long ext_next (unsigned long) noexcept; unsigned long ext_mix (unsigned long, int) noexcept; unsigned long ext_mix2 (unsigned long, unsigned long) noexcept; }
#define W(name, ...) PROBE(name, "n buf:0:4 wbuf:0:4 i32 i32", (size_t n, const int* a, int* o, int v, int u), __VA_ARGS__)
#define EACH(i) size_t i = any_(); ASSUME (i < n)
#define ENDS(c) REQUIRE ((c) == o+n)
#define IS(x) REQUIRE (peek4_(o+i) == unsigned(x))
#define WAS(p) int(was4_(p))
struct Fn { int operator() (int x) const { return ext_fn (x); } };
struct Fn2 { int operator() (int x, int y) const { return ext_fn2 (x, y); } };
struct Pred { bool operator() (int x) const { return ext_pred (x); } };
struct Pred2 { bool operator() (int x, int y) const { return ext_eq (x, y); } };
struct Gen { unsigned long s; int operator() (void) { s = ext_next (s); return s; } };
struct V { int v; };				// elements of a type without optimized versions

W(transform, ENDS(transform (a, a+n, o, Fn())); EACH(i); IS(ext_fn(WAS(a+i))))
W(transform_in_place, ENDS(transform (o, o+n, o, Fn())); EACH(i); IS(ext_fn(WAS(o+i))))
W(transform2, ENDS(transform (a, a+n, o, o, Fn2())); EACH(i); IS(ext_fn2(WAS(a+i), WAS(o+i))))
W(replace, replace (o, o+n, v, u); EACH(i); IS(WAS(o+i) == v ? u : WAS(o+i)))
W(replace_if, replace_if (o, o+n, Pred(), u); EACH(i); IS(ext_pred(WAS(o+i)) ? u : WAS(o+i)))
W(replace_copy, ENDS(replace_copy (a, a+n, o, v, u)); EACH(i); IS(WAS(a+i) == v ? u : WAS(a+i)))
W(replace_copy_if, ENDS(replace_copy_if (a, a+n, o, Pred(), u)); EACH(i); IS(ext_pred(WAS(a+i)) ? u : WAS(a+i)))
W(copy, ENDS(copy (a, a+n, o)); EACH(i); IS(WAS(a+i)))
W(copy_n, ENDS(copy_n (a, n, o)); EACH(i); IS(WAS(a+i)))
W(copy_el, ENDS((int*) copy ((const V*) a, (const V*) (a+n), (V*) o)); EACH(i); IS(WAS(a+i)))
W(copy_n_el, ENDS((int*) copy_n ((const V*) a, n, (V*) o)); EACH(i); IS(WAS(a+i)))
W(copy_backward_el, REQUIRE ((int*) copy_backward ((const V*) a, (const V*) (a+n), (V*) (o+n)) == o); EACH(i); IS(WAS(a+i)))
W(fill, fill (o, o+n, v); EACH(i); IS(v))
W(fill_n, ENDS(fill_n (o, n, v)); EACH(i); IS(v))
W(fill_el, V x = {v}; fill ((V*) o, (V*) (o+n), x); EACH(i); IS(v))
W(fill_n_el, V x = {v}; ENDS((int*) fill_n ((V*) o, n, x)); EACH(i); IS(v))
W(iota, iota (o, o+n, v); EACH(i); IS(v+int(i)))
W(reverse, reverse (o, o+n); EACH(i); IS(WAS(o+n-1-i)))
W(reverse_copy, ENDS(reverse_copy (a, a+n, o)); EACH(i); IS(WAS(a+n-1-i)))
PROBE(swap_ranges, "n wbuf:0:4 wbuf:0:4", (size_t n, int* a, int* o), int* e = swap_ranges (o, o+n, a); EACH(i); IS(WAS(a+i)); REQUIRE (peek4_(a+i) == was4_(o+i)); REQUIRE (e == a+n))
W(rotate_copy, size_t k = any_(); ASSUME (k <= n); ENDS(rotate_copy (a, a+k, a+n, o)); EACH(i); IS(i < n-k ? WAS(a+k+i) : WAS(a+i-(n-k))))
W(rotate, size_t k = any_(); ASSUME (k <= n); rotate (o, o+k, o+n); EACH(i); IS(i < n-k ? WAS(o+k+i) : WAS(o+i-(n-k))))
W(generate, generate (o, o+n, Gen{5}))
W(generate_n, ENDS(generate_n (o, n, Gen{5})))
// filters: every round either appends its element or leaves the output alone
#define KEEP(call, keep) int* r_ = call; size_t r = (size_t) r_; REQUIRE (fold_start_(r) == (size_t) o); REQUIRE (fold_rounds_(r) == n); EACH(i); size_t x = any_(); ASSUME (x < n); x = (size_t)(o+x); \
    if (keep) { REQUIRE (fold_step_(r, i, x) == x+4); REQUIRE (fold_puts_(r, i, x) == 1); REQUIRE (fold_put4_(r, i, x, (void*) x) == was4_(a+i)); } else { REQUIRE (fold_step_(r, i, x) == x); REQUIRE (fold_puts_(r, i, x) == 0); }
W(copy_if, KEEP(copy_if (a, a+n, o, Pred()), ext_pred(WAS(a+i))))
W(remove_copy, KEEP(remove_copy (a, a+n, o, v), WAS(a+i) != v))
W(remove_copy_if, KEEP(remove_copy_if (a, a+n, o, Pred()), !ext_pred(WAS(a+i))))
W(remove, REQUIRE (ustl::remove (o, o+n, v) <= o+n))
W(remove_if, REQUIRE (remove_if (o, o+n, Pred()) <= o+n))
W(unique_copy, int* r = unique_copy (a, a+n, o); REQUIRE (r >= o); REQUIRE (r <= o+n); REQUIRE (n == 0 || r > o))
struct Dup { bool operator() (const int& x, const int&) const { return ext_pred (off_(&x)/4); } };
W(unique_copy_values, ASSUME (n); int* r_ = unique_copy (a, a+n, o, Dup()) - 1; size_t r = (size_t) r_; REQUIRE (fold_start_(r) == (size_t) o); REQUIRE (fold_rounds_(r) == n-1); EACH(i); ASSUME (i+1 < n); size_t x = any_(); ASSUME (x+1 < n); x = (size_t)(o+x); \
    if (!ext_pred (i+1)) { REQUIRE (fold_step_(r, i, x) == x+4); REQUIRE (fold_puts_(r, i, x) == 1); REQUIRE (fold_put4_(r, i, x, (void*) (x+4)) == was4_(a+i+1)); } else { REQUIRE (fold_step_(r, i, x) == x); REQUIRE (fold_puts_(r, i, x) == 0); })
W(unique_copy_if, int* r = unique_copy (a, a+n, o, Pred2()); REQUIRE (r >= o); REQUIRE (r <= o+n); REQUIRE (n == 0 || r > o))
W(unique, int* r = unique (o, o+n); REQUIRE (r >= o); REQUIRE (r <= o+n); REQUIRE (n == 0 || r > o))
// both ranges are sorted (no assumption is made on content): the output fits into as many places as there are elements
#define M(name, ...) PROBE(name, "n n buf:0:4 buf:1:4 n wbuf:4:4", (size_t n, size_t m, const int* a, const int* b, size_t t, int* o), __VA_ARGS__)
M(merge, ASSUME (t == n+m); REQUIRE (ustl::merge (a, a+n, b, b+m, o) == o+t))
M(set_union, ASSUME (t == n+m); int* r = set_union (a, a+n, b, b+m, o); REQUIRE (r >= o); REQUIRE (r <= o+t))
M(set_intersection, ASSUME (t == n); int* r = set_intersection (a, a+n, b, b+m, o); REQUIRE (r >= o); REQUIRE (r <= o+t))
M(set_intersection2, ASSUME (t == m); int* r = set_intersection (a, a+n, b, b+m, o); REQUIRE (r >= o); REQUIRE (r <= o+t))
M(set_difference, ASSUME (t == n); int* r = set_difference (a, a+n, b, b+m, o); REQUIRE (r >= o); REQUIRE (r <= o+t))
M(set_symmetric_difference, ASSUME (t == n+m); int* r = set_symmetric_difference (a, a+n, b, b+m, o); REQUIRE (r >= o); REQUIRE (r <= o+t))
M(includes, includes (a, a+n, b, b+m))
W(stable_sort, stable_sort (o, o+n))
W(partial_sum, ENDS(partial_sum (a, a+n, o)))
W(partial_sum_op, ENDS(partial_sum (a, a+n, o, Fn2())))
W(adjacent_difference, ENDS(adjacent_difference (a, a+n, o)); EACH(i); IS(i ? WAS(a+i) - WAS(a+i-1) : WAS(a+i)))
W(adjacent_difference_op, ENDS(adjacent_difference (a, a+n, o, Fn2())); EACH(i); IS(i ? ext_fn2 (WAS(a+i), WAS(a+i-1)) : WAS(a+i)))
#define FOLD(call, from, to) size_t r = call; REQUIRE (fold_start_(r) == from); REQUIRE (fold_rounds_(r) == n); EACH(i); size_t x = any_(); REQUIRE (fold_step_(r, i, x) == (to))
W(accumulate, FOLD((size_t) accumulate (a, a+n, 7ul), 7, x + WAS(a+i)))
struct Op { unsigned long operator() (unsigned long x, int y) const { return ext_mix (x, y); } };
struct Op2 { unsigned long operator() (unsigned long x, unsigned long y) const { return ext_mix2 (x, y); } };
struct Mul { unsigned long operator() (int x, int y) const { return ext_fn2 (x, y); } };
W(accumulate_op, FOLD(accumulate (a, a+n, 7ul, Op()), 7, ext_mix (x, WAS(a+i))))
W(inner_product, FOLD(inner_product (a, a+n, o, 7ul), 7, x + (unsigned long)(WAS(a+i) * WAS(o+i))))
W(inner_product_op, FOLD(inner_product (a, a+n, o, 7ul, Op2(), Mul()), 7, ext_mix2 (x, ext_fn2 (WAS(a+i), WAS(o+i)))))
// the sorts hand the whole range to qsort with an adapter of the comparator
static const void* q_first; static size_t q_n; static const int *q_a, *q_b;
struct Ask { bool operator() (const int& x, const int& y) const { return ext_eq (x, y); } };
extern "C" void qsort (void* b, size_t n, size_t z, int (*f)(const void*, const void*)) {
    REQUIRE (b == q_first); REQUIRE (n == q_n); REQUIRE (z == sizeof(int)); act_(1);
    int r = f (q_a, q_b);
    REQUIRE ((r < 0) == ext_eq (*q_a, *q_b)); REQUIRE ((r > 0) == (!ext_eq (*q_a, *q_b) && ext_eq (*q_b, *q_a))); }
#define Q(name, call) W(name, ASSUME (n); q_first = o; q_n = n; q_a = a; q_b = a+n-1; call; REQUIRE (acts_(1) == 1))
Q(sort, sort (o, o+n, Ask()))
Q(nth_element, size_t k = any_(); ASSUME (k < n); nth_element (o, o+k, o+n, Ask()))
#define N(name, ...) PROBE(name, "i32 i32 i32", (int x, int y, int z), __VA_ARGS__)
N(min, REQUIRE (min (x, y) == (x < y ? x : y)))
N(max, REQUIRE (max (x, y) == (y < x ? x : y)))
N(clamp, ASSUME (y <= z); REQUIRE (clamp (x, y, z) == (x < y ? y : z < x ? z : x)))
N(clamp_if, REQUIRE (clamp (x, y, z, Pred2()) == (ext_eq (x, y) ? y : ext_eq (z, x) ? z : x)))
N(swap, int a = x, b = y; swap (a, b); REQUIRE (a == y); REQUIRE (b == x))
N(iter_swap, int a = x, b = y; iter_swap (&a, &b); REQUIRE (a == y); REQUIRE (b == x))
N(exchange, int a = x; REQUIRE (ustl::exchange (a, y) == x); REQUIRE (a == y))
N(minmax, auto r = minmax (x, y); REQUIRE (r.first == (x < y ? x : y)); REQUIRE (r.second == (x < y ? y : x)))
N(minmax_if, auto r = minmax (x, y, Pred2()); REQUIRE (r.first == (ext_eq (x, y) ? x : y)); REQUIRE (r.second == (ext_eq (x, y) ? y : x)))
