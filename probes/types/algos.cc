#include <ustl.h>
using namespace ustl;
typedef vector<int> V; typedef list<int> L; typedef array<int,5> A;
static bool odd (int x) { return x & 1; } static int inc (int x) { return x+1; } static int sub (int a, int b) { return a-b; } static int gen (void) { return 3; }
struct M { int m; const int k; int get (void) const { return m; } int bump (void) { return ++m; } int add (int x) const { return m+x; } int put (int x) { return m = x; } };
template <typename C> void all (C& c, const C& k, int* o) {
    int x = 1; less<int> lt; (void) lt;
    copy (k, o); copy_if (c, o, odd); for_each (c, inc); for_each (k, inc); find (k, x); find (c, x); find_if (k, odd); find_if (c, odd); count (k, x); count_if (k, odd);
    transform (c, inc); transform (c, o, inc); transform (c, o, o, sub); replace (c, 1, 2); replace_if (c, odd, 2); replace_copy (k, o, 1, 2); replace_copy_if (k, o, odd, 2);
    fill (c, 3); generate (c, gen); random_shuffle (c); remove_copy (k, o, 1); remove_copy_if (k, o, odd); unique_copy (k, o); reverse (c); rotate (c, 2);
    lower_bound (k, x); lower_bound (c, x); upper_bound (k, x); upper_bound (c, x); binary_search (k, x); binary_search (c, x); equal_range (k, x); equal_range (c, x); sort (c); sort (c, lt); stable_sort (c); stable_sort (c, lt);
}
template <typename C> void shrink (C& c) { remove (c, 1); remove_if (c, odd); unique (c); unique (c, equal_to<int>()); typename C::iterator r[2] = {c.begin(),c.begin()}; remove (c, r, r+2); }
template <typename I> void ranges (I f, I l, int* o) {
    less<int> lt; equal_to<int> eq; int x = 1;
    adjacent_find (f, l); adjacent_find (f, l, eq); mismatch (f, l, f); mismatch (f, l, f, eq); equal (f, l, f); equal (f, l, f, eq); lexicographical_compare (f, l, o, o+1); lexicographical_compare (f, l, o, o+1, lt);
    search (f, l, o, o+1); search (f, l, o, o+1, eq); find_end (f, l, o, o+1); find_end (f, l, o, o+1, eq); search_n (f, l, 2, 1); search_n (f, l, 2, 1, eq); find_first_of (f, l, o, o+1); find_first_of (f, l, o, o+1, eq);
    includes (f, l, o, o+1); includes (f, l, o, o+1, lt); set_union (f, l, o, o+1, o); set_union (f, l, o, o+1, o, lt); set_intersection (f, l, o, o+1, o); set_intersection (f, l, o, o+1, o, lt); set_difference (f, l, o, o+1, o); set_difference (f, l, o, o+1, o, lt); set_symmetric_difference (f, l, o, o+1, o); set_symmetric_difference (f, l, o, o+1, o, lt);
    merge (f, l, o, o+1, o); is_sorted (f, l); is_sorted (f, l, lt); min_element (f, l); min_element (f, l, lt); max_element (f, l); max_element (f, l, lt); minmax_element (f, l); minmax_element (f, l, lt);
    partial_sort_copy (f, l, o, o+2); partial_sort_copy (f, l, o, o+2, lt); reverse_copy (f, l, o); rotate_copy (f, f, l, o); accumulate (f, l, 0); accumulate (f, l, 0, plus<int>()); inner_product (f, l, o, 0); inner_product (f, l, o, 0, plus<int>(), minus<int>()); partial_sum (f, l, o); partial_sum (f, l, o, plus<int>()); adjacent_difference (f, l, o); adjacent_difference (f, l, o, minus<int>());
    copy (f, l, o); copy_n (f, 2, o); copy_if (f, l, o, odd); unique_copy (f, l, o); unique_copy (f, l, o, eq); remove_copy (f, l, o, 1); remove_copy_if (f, l, o, odd); lower_bound (f, l, x); lower_bound (f, l, x, lt); upper_bound (f, l, x); upper_bound (f, l, x, lt); equal_range (f, l, x); equal_range (f, l, x, lt); binary_search (f, l, x); binary_search (f, l, x, lt); is_heap (f, l); is_heap (f, l, lt); I p[2] = {f, f}; remove_copy (f, l, o, p, p+2);
    count (f, l, 1); count_if (f, l, odd); for_each (f, l, inc); find (f, l, 1); find_if (f, l, odd); replace_copy (f, l, o, 1, 2); replace_copy_if (f, l, o, odd, 2); transform (f, l, o, inc); transform (f, l, o, o, sub);
}
template <typename I> void mut (I f, I l, int* o) {
    less<int> lt; equal_to<int> eq; 
    inplace_merge (f, f, l); next_permutation (f, l); next_permutation (f, l, lt); prev_permutation (f, l); prev_permutation (f, l, lt); partial_sort (f, f, l); partial_sort (f, f, l, lt); 
    make_heap (f, l); make_heap (f, l, lt); push_heap (f, l); push_heap (f, l, lt); pop_heap (f, l); pop_heap (f, l, lt); sort_heap (f, l); sort_heap (f, l, lt); stable_sort (f, l); stable_sort (f, l, lt); random_shuffle (f, l); iota (f, l, 1); swap_ranges (f, l, o); iter_swap (f, f); reverse (f, l); rotate (f, f, l); fill (f, l, 1); fill_n (f, 2, 1); generate (f, l, gen); generate_n (f, 2, gen); replace (f, l, 1, 2); replace_if (f, l, odd, 2); remove (f, l, 1); remove_if (f, l, odd); unique (f, l); unique (f, l, eq); copy_backward (f, l, l); 
}
void u (V& v, L& l, A& a, int* o) { all (v, v, o); all (l, l, o); all (a, a, o); shrink (v); shrink (l); ranges (v.begin(), v.end(), o); ranges (v.cbegin(), v.cend(), o); mut (v.begin(), v.end(), o); sort (v.begin(), v.end()); sort (o, o+2, greater<int>());
    ranges (v.rbegin(), v.rend(), o); mut (v.rbegin(), v.rend(), o);
    const V& cv = v; ranges (cv.rbegin(), cv.rend(), o); copy (v.begin(), v.end(), back_inserter (v)); copy (v.begin(), v.end(), inserter (v, v.begin())); copy (v.begin(), v.end(), front_inserter (l)); copy (make_move_iterator (v.begin()), make_move_iterator (v.end()), o); }
void f (M& m, const M& k) {
    mem_fun (&M::get)(&k); mem_fun (&M::bump)(&m); mem_fun_ref (&M::get)(k); mem_fun_ref (&M::bump)(m); mem_fun (&k, &M::add)(1); mem_fun (&m, &M::put)(1);
    mem_var_equal_to (&M::k, 1)(m); mem_var_less (&M::k, 1)(m); mem_var_equal_to (&M::k)(m, m); mem_var_less (&M::k)(m, m); mem_var1 (&M::m, negate<int>())(m); mem_var2 (&M::m, plus<int>())(m, m); mem_var_equal_to (&M::m, 1)(m);
    ptr_fun (&inc)(1); ptr_fun (&sub)(1, 2); bind1st (minus<int>(), 1)(2); bind2nd (minus<int>(), 1)(2); compose1 (negate<int>(), bind2nd (minus<int>(), 1))(2); compose2 (plus<int>(), negate<int>(), negate<int>())(1); unary_negator (ptr_fun (&odd))(1); dereference (less<int>())(&m.m, &m.m); dereference (negate<int>())(&m.m);
    project1st<int,int>()(1,2); project2nd<int,int>()(1,2); identity<int>()(1); compare<int>()(1,2); modulus<int>()(1,2); divides<int>()(1,2); logical_and<int>()(1,2); logical_or<int>()(1,1); logical_not<int>()(1); bitwise_or<int>()(1,1); bitwise_and<int>()(1,1); bitwise_xor<int>()(1,1); bitwise_not<int>()(1); not_equal_to<int>()(1,1); greater_equal<int>()(1,1); less_equal<int>()(1,1); multiplies<int>()(1,1);
}
