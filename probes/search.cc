// Non-modifying searches, comparisons and counts over arrays of any length and content.  Comparators either are
// arbitrary functions of the values (ext_*), or answer by the position of their arguments, so that a situation
// (sorted with the boundary at P, first match at k, ...) is set up for every array at once.
#include "spec.h"
extern "C" { bool ext_eq (int, int) noexcept; bool ext_pred (int) noexcept; unsigned long ext_pos (unsigned long, unsigned long) noexcept; unsigned long ext_next (unsigned long, int) noexcept; }
#define A(name, ...) PROBE(name, "n buf:0:4 n buf:2:4 i32", (size_t n, const int* a, size_t m, const int* b, int v), __VA_ARGS__)
struct Pred { bool operator() (int x) const { return ext_pred (x); } };
struct Eq { bool operator() (int x, int y) const { return ext_eq (x, y); } };
static inline size_t at (const int& x) { return off_(&x) / sizeof(int); }
#define SOME(i, c) size_t i = any_(); ASSUME (c)
#define BETWEEN(r, f, l) REQUIRE (r >= f); REQUIRE (r <= l)

A(find, const int* r = ustl::find (a, a+n, v); BETWEEN (r, a, a+n); if (r != a+n) REQUIRE (*r == v); SOME (i, i < size_t(r-a)); REQUIRE (was4_(a+i) != unsigned(v)))
A(find_if, const int* r = find_if (a, a+n, Pred()); BETWEEN (r, a, a+n); if (r != a+n) REQUIRE (ext_pred (*r)); SOME (i, i < size_t(r-a)); REQUIRE (!ext_pred (was4_(a+i))))
A(adjacent_find, const int* r = adjacent_find (a, a+n); BETWEEN (r, a, a+n); if (r != a+n) { REQUIRE (r+1 < a+n); REQUIRE (r[0] == r[1]); } SOME (i, i < size_t(r-a)); ASSUME (i+1 < n); REQUIRE (was4_(a+i) != was4_(a+i+1)))
A(adjacent_find_if, const int* r = adjacent_find (a, a+n, Eq()); BETWEEN (r, a, a+n); if (r != a+n) { REQUIRE (r+1 < a+n); REQUIRE (ext_eq (r[0], r[1])); } SOME (i, i < size_t(r-a)); ASSUME (i+1 < n); REQUIRE (!ext_eq (was4_(a+i), was4_(a+i+1))))
A(mismatch, ASSUME (n <= m); auto r = mismatch (a, a+n, b); BETWEEN (r.first, a, a+n); size_t k = r.first - a; REQUIRE (r.second == b+k); if (k != n) REQUIRE (a[k] != b[k]); SOME (i, i < k); REQUIRE (was4_(a+i) == was4_(b+i)))
A(mismatch_if, ASSUME (n <= m); auto r = mismatch (a, a+n, b, Eq()); BETWEEN (r.first, a, a+n); size_t k = r.first - a; REQUIRE (r.second == b+k); if (k != n) REQUIRE (!ext_eq (a[k], b[k])); SOME (i, i < k); REQUIRE (ext_eq (was4_(a+i), was4_(b+i))))
// all the same up to k, different at k
struct EqUpTo { size_t k; bool operator() (const int& x, const int& y) const { size_t p = at(x); REQUIRE (at(y) == p); return p < k || (p != k && any_() < 2); } };
A(equal_if, ASSUME (n <= m); SOME (k, k <= n); bool r = equal (a, a+n, b, EqUpTo{k}); REQUIRE (r == (k == n)))
A(equal, ASSUME (n <= m); bool r = equal (a, a+n, b); SOME (i, i < n); if (r) REQUIRE (was4_(a+i) == was4_(b+i)))
A(equal_not, ASSUME (n <= m); SOME (i, i < n); ASSUME (a[i] != b[i]); if (equal (a, a+n, b)) REQUIRE (was4_(a+i) != was4_(b+i)))
A(count, size_t r = count (a, a+n, v); REQUIRE (fold_start_(r) == 0); REQUIRE (fold_rounds_(r) == n); SOME (i, i < n); size_t x = any_(); REQUIRE (fold_step_(r, i, x) == x + (was4_(a+i) == unsigned(v))))
A(count_if, size_t r = count_if (a, a+n, Pred()); REQUIRE (fold_start_(r) == 0); REQUIRE (fold_rounds_(r) == n); SOME (i, i < n); size_t x = any_(); REQUIRE (fold_step_(r, i, x) == x + ext_pred (was4_(a+i))))
struct Visit { void operator() (int x) { sum = ext_next (sum, x); } size_t sum; };
A(for_each, size_t r = for_each (a, a+n, Visit{5}).sum; REQUIRE (fold_start_(r) == 5); REQUIRE (fold_rounds_(r) == n); SOME (i, i < n); size_t x = any_(); REQUIRE (fold_step_(r, i, x) == ext_next (x, was4_(a+i))))
// element p of a equals element q of b only from q = ext_pos(p) on; for p before k there is no such q, for k there is
struct MatchAt { size_t k, m; bool operator() (const int& x, const int& y) const {
    size_t p = at(x), q = at(y), j = ext_pos (p, 0);
    if (p < k) ASSUME (j >= m);
    if (p == k) ASSUME (j < m);
    return q >= j && (q == j || any_() < 2); } };
A(find_first_of, SOME (k, k < n); ASSUME (ext_pos (k, 0) < m); const int* r = find_first_of (a, a+n, b, b+m, MatchAt{k,m}); REQUIRE (r == a+k))
A(find_first_of_none, const int* r = find_first_of (a, a+n, b, b+m, MatchAt{n,m}); REQUIRE (r == a+n))
// element q of b first differs from that at p+q of a for q = ext_pos(p): nowhere for p = k, somewhere for p before (after) it
struct Occurs { size_t k, m; int after; bool operator() (const int& x, const int& y) const {
    size_t q = at(y), p = at(x) - q, j = ext_pos (p, 0);
    if (p == k) ASSUME (j >= m); else if (after ? p > k : p < k) ASSUME (j < m);
    return q <= j && (q < j || p == k); } };
A(search, ASSUME (m); SOME (k, k + m <= n); const int* r = search (a, a+n, b, b+m, Occurs{k,m,0}); REQUIRE (r == a+k))
A(search_none, ASSUME (m && m <= n); const int* r = search (a, a+n, b, b+m, Occurs{n,m,0}); REQUIRE (r == a+n))
A(find_end_last, ASSUME (m && m <= n); const int* r = find_end (a, a+n, b, b+m, Occurs{n-m,m,1}); REQUIRE (r == a+n-m))
A(find_end_range, ASSUME (m && m <= n); const int* r = find_end (a, a+n, b, b+m, Eq()); BETWEEN (r, a, a+n); if (r != a+n) REQUIRE (r + m <= a+n))
struct Never { size_t m; bool operator() (const int& x, const int& y) const { size_t q = at(y), p = at(x) - q, j = ext_pos (p, 0); ASSUME (j < m); return q < j; } };
A(find_end_none, ASSUME (m && m <= n); const int* r = find_end (a, a+n, b, b+m, Never{m}); REQUIRE (r == a+n))
// a run of matches from k to e; before it, nothing or everything up to k-1 matches and that is no run of this length
struct Run { size_t k, e; bool some; bool operator() (const int& x, int) const { size_t p = at(x); return p < k ? some && p+1 < k : p < e || any_() < 2; } };
A(search_n, SOME (k, k < n); SOME (e, e > k && e <= n); const int* r = search_n (a, a+n, e-k, v, Run{k,e,false}); REQUIRE (r == a+k))
A(search_n_late, SOME (k, k < n); SOME (e, e > k && e <= n && k <= e-k); const int* r = search_n (a, a+n, e-k, v, Run{k,e,true}); REQUIRE (r == a+k))
A(search_n_none, ASSUME (m); const int* r = search_n (a, a+n, m, v, Run{n,n,false}); REQUIRE (r == a+n))
A(search_n_value, const int* r = search_n (a, a+n, m, v); BETWEEN (r, a, a+n); if (r != a+n) REQUIRE (m <= n))

// sorted, with value v after the first P and before all but the first Q
struct ElLess { size_t p; bool operator() (const int& x, const int&) const { return at(x) < p; } };		// lower_bound asks comp(element, value)
struct ValLess { size_t q; bool operator() (const int&, const int& y) const { return at(y) >= q; } };		// upper_bound asks comp(value, element)
struct Both { const int* val; size_t p, q; bool operator() (const int& x, const int& y) const { return &x == val ? at(y) >= q : at(x) < p; } };
A(lower_bound, SOME (p, p <= n); const int* r = lower_bound (a, a+n, v, ElLess{p}); REQUIRE (r == a+p))
A(upper_bound, SOME (q, q <= n); const int* r = upper_bound (a, a+n, v, ValLess{q}); REQUIRE (r == a+q))
A(binary_search, SOME (p, p <= n); SOME (q, q >= p && q <= n); bool r = binary_search (a, a+n, v, Both{&v,p,q}); REQUIRE (r == (p < q)))
A(equal_range, SOME (p, p <= n); SOME (q, q >= p && q <= n); auto r = equal_range (a, a+n, v, Both{&v,p,q}); REQUIRE (r.first == a+p); REQUIRE (r.second == a+q))
// the same by operator<
struct Key { int v; };
static size_t s_p, s_q; static const Key* s_key;
inline bool operator< (const Key& x, const Key& y) { return &x == s_key ? off_(&y)/4 >= s_q : off_(&x)/4 < s_p; }
#define K(name, ...) A(name, SOME (p, p <= n); SOME (q, q >= p && q <= n); Key v1 = {v}; s_key = &v1; s_p = p; s_q = q; const Key* e = (const Key*) a; __VA_ARGS__)
K(lower_bound_lt, REQUIRE (lower_bound (e, e+n, v1) == e+p))
K(upper_bound_lt, REQUIRE (upper_bound (e, e+n, v1) == e+q))
K(binary_search_lt, REQUIRE (binary_search (e, e+n, v1) == (p < q)))
K(equal_range_lt, auto r = equal_range (e, e+n, v1); REQUIRE (r.first == e+p); REQUIRE (r.second == e+q))

// the only descent is between elements k and k+1
struct Descent { size_t k; bool operator() (const int& x, const int& y) const { REQUIRE (at(x) == at(y)+1); return at(y) >= k && (at(y) == k || any_() < 2); } };
A(is_sorted, size_t k = any_(); bool r = is_sorted (a, a+n, Descent{k}); REQUIRE (r == !(k+1 < n)))
// the same up to k, then either less or greater
struct Diff { const int* a; size_t n; const int* b; size_t m; size_t k; bool lt; bool operator() (const int& x, const int& y) const {
    bool fwd = same_(&x, a); size_t p = at(x); REQUIRE (at(y) == p); return p >= k && (p == k ? fwd == lt : any_() < 2); } };
A(lexicographical_compare, SOME (k, k <= n && k <= m); bool lt = v > 0; bool r = lexicographical_compare (a, a+n, b, b+m, Diff{a,n,b,m,k,lt}); REQUIRE (r == (k < n && k < m ? lt : n < m)))
// element k is the least (greatest) one, and the first of those
struct Least { size_t k; bool operator() (const int& x, const int& y) const { size_t p = at(x), q = at(y); return p == k ? q < k || (q > k && any_() < 2) : q != k && any_() < 2; } };
A(min_element, SOME (k, k < n); const int* r = min_element (a, a+n, Least{k}); REQUIRE (r == a+k))
A(min_element_empty, REQUIRE (min_element (a, a, Least{0}) == a))
struct Greatest { size_t k; bool operator() (const int& x, const int& y) const { size_t p = at(x), q = at(y); return q == k ? p < k || (p > k && any_() < 2) : p != k && any_() < 2; } };
A(max_element, SOME (k, k < n); const int* r = max_element (a, a+n, Greatest{k}); REQUIRE (r == a+k))
#define FIRST(name, call, test) A(name, ASSUME (n); const int* p = call; size_t r = (size_t) p; REQUIRE (fold_start_(r) == (size_t) a); size_t s = n - fold_rounds_(r); REQUIRE (s <= 1); \
    SOME (i, i >= s && i < n); SOME (j, j < i || (j == 0 && i == 0)); size_t x = (size_t)(a+j); if (i != j) REQUIRE (fold_step_(r, i-s, x) == (test ? (size_t)(a+i) : x)))
struct Less { bool operator() (int x, int y) const { return ext_eq (x, y); } };
FIRST(minmax_element_first, (minmax_element (a, a+n, Less()).first), ext_eq (was4_(a+i), was4_(a+j)))
FIRST(minmax_element_second, (minmax_element (a, a+n, Less()).second), ext_eq (was4_(a+j), was4_(a+i)))
FIRST(minmax_element_lt_first, (minmax_element (a, a+n).first), int(was4_(a+i)) < int(was4_(a+j)))
FIRST(minmax_element_lt_second, (minmax_element (a, a+n).second), int(was4_(a+j)) < int(was4_(a+i)))
FIRST(min_element_lt, (min_element (a, a+n)), int(was4_(a+i)) < int(was4_(a+j)))
FIRST(max_element_lt, (max_element (a, a+n)), int(was4_(a+j)) < int(was4_(a+i)))
A(search_empty, REQUIRE (search (a, a+n, b, b, Eq()) == a))
A(find_end_empty, REQUIRE (find_end (a, a+n, b, b, Eq()) == a+n))
A(search_n_zero, REQUIRE (search_n (a, a+n, 0, v, Eq()) == a))
A(find_first_of_empty, REQUIRE (find_first_of (a, a+n, b, b, Eq()) == a+n))
