// Sorted containers of any size and content.  The comparator answers by the position of the element it is asked about:
// elements before P are less than the key, elements from Q on are greater (Q-P of them equal it), which is every
// sorted container and every key at once.  It insists that one of the two
// it is asked about, and only one, is the key.
#include "spec.h"
static size_t s_p, s_q; static const void* s_base; static int s_val;
template <int stride> struct By { bool operator() (const int& x, const int& y) const {
    bool kx = !same_(&x, s_base), ky = !same_(&y, s_base); REQUIRE (kx != ky);
    REQUIRE (peek4_(kx ? &x : &y) == unsigned(s_val));
    return kx ? off_(&y)/stride >= s_q : off_(&x)/stride < s_p; } };
typedef pair<int,int> Pair;
typedef set<int,By<4> > Set; typedef multiset<int,By<4> > Multiset; typedef map<int,int,By<8> > Map; typedef multimap<int,int,By<8> > Multimap;
extern "C" __attribute__((used)) void C_vec_int (void* m) { new (m) vector<int>; }
extern "C" const unsigned Z_vec_int __attribute__((used)) = sizeof(vector<int>); extern "C" const unsigned Z_int __attribute__((used)) = 4;
extern "C" __attribute__((used)) void C_vec_pair (void* m) { new (m) vector<Pair>; }
extern "C" const unsigned Z_vec_pair __attribute__((used)) = sizeof(vector<Pair>); extern "C" const unsigned Z_pair __attribute__((used)) = 8;
#define SOME(i, c) size_t i = any_(); ASSUME (c)
#define SITUATION(unique) const size_t n = s.size(); SOME (p, p <= n); SOME (q, q >= p && q <= n && (!unique || q-p <= 1)); s_p = p; s_q = q; auto b = s.begin(); s_base = b; s_val = v;
#define S(t, name, ...) PROBE(set_##name, "vec:int i32", (Set& s, int v), typedef Set C; SITUATION(1) __VA_ARGS__) PROBE(multiset_##name, "vec:int i32", (Multiset& s, int v), typedef Multiset C; SITUATION(0) __VA_ARGS__)
#define M(t, name, ...) PROBE(map_##name, "vec:pair i32 i32", (Map& s, int v, int d), typedef Map C; SITUATION(1) __VA_ARGS__) PROBE(multimap_##name, "vec:pair i32 i32", (Multimap& s, int v, int d), typedef Multimap C; SITUATION(0) __VA_ARGS__)
#define Q(name, ...) S(, name, __VA_ARGS__) M(, name, __VA_ARGS__)

Q(find, REQUIRE (s.find (v) == (p < q ? s.begin()+p : s.end())))
Q(find_c, const C& c = s; REQUIRE (c.find (v) == (p < q ? s.begin()+p : s.end())))
Q(lower_bound, REQUIRE (s.lower_bound (v) == b+p))
Q(lower_bound_c, const C& c = s; REQUIRE (c.lower_bound (v) == b+p))
Q(upper_bound, REQUIRE (s.upper_bound (v) == b+q))
Q(upper_bound_c, const C& c = s; REQUIRE (c.upper_bound (v) == b+q))
Q(equal_range, auto r = s.equal_range (v); REQUIRE (r.first == b+p); REQUIRE (r.second == b+q))
Q(equal_range_c, const C& c = s; auto r = c.equal_range (v); REQUIRE (r.first == b+p); REQUIRE (r.second == b+q))
Q(count, REQUIRE (s.count (v) == q-p))

// One insertion.  The new element goes to K; the elements before it stay and those from K on move up by one.
#define INSERTED(added, K, at) const bool added_ = added; size_t k = (K); REQUIRE (s.size() == n + added_); REQUIRE (at == s.begin()+k); SOME (i, i < n); size_t j = i + (i >= k && added_); auto e = s.begin();
#define S_KEPT if (added_) REQUIRE (peek4_(e+k) == unsigned(w)); REQUIRE (peek4_(e+j) == was4_(b+i));
#define M_KEPT if (added_) { REQUIRE (peek4_(&e[k].first) == unsigned(w)); REQUIRE (peek4_(&e[k].second) == unsigned(d)); } REQUIRE (peek4_(&e[j].first) == was4_(&b[i].first)); REQUIRE (peek4_(&e[j].second) == was4_(&b[i].second));
#define UNIQUE(op) SITUATION(1) int w = v; auto r = op; REQUIRE (r.second == (p == q)); INSERTED (p == q, p, r.first)
#define UNIQUEH(op) SITUATION(1) int w = v; auto r = op; INSERTED (p == q, p, r)
#define MULTI(op) SITUATION(0) int w = v; auto r = op; INSERTED (true, q, r)
#define SI(name, op) PROBE(set_##name, "vec:int i32", (Set& s, int v), UNIQUE(op) S_KEPT) PROBE(multiset_##name, "vec:int i32", (Multiset& s, int v), MULTI(op) S_KEPT)
#define SH(name, op) PROBE(set_##name, "vec:int vit:0 i32", (Set& s, Set::const_iterator h, int v), UNIQUEH(op) S_KEPT) PROBE(multiset_##name, "vec:int vit:0 i32", (Multiset& s, Multiset::const_iterator h, int v), MULTI(op) S_KEPT)
#define SV(name, op) PROBE(set_##name, "vec:int i32", (Set& s, int v), UNIQUEH((op, s.begin()+p)) S_KEPT) PROBE(multiset_##name, "vec:int i32", (Multiset& s, int v), MULTI((op, s.begin()+q)) S_KEPT)
#define PV Pair v2 (v, d);
#define MI(name, op) PROBE(map_##name, "vec:pair i32 i32", (Map& s, int v, int d), PV UNIQUE(op) M_KEPT) PROBE(multimap_##name, "vec:pair i32 i32", (Multimap& s, int v, int d), PV MULTI(op) M_KEPT)
#define MH1(name, op) PROBE(map_##name, "vec:pair vit:0 i32 i32", (Map& s, Map::const_iterator h, int v, int d), PV UNIQUEH(op) M_KEPT)
#define MH(name, op) MH1(name, op) PROBE(multimap_##name, "vec:pair vit:0 i32 i32", (Multimap& s, Multimap::const_iterator h, int v, int d), PV MULTI(op) M_KEPT)
#define MV(name, op) PROBE(map_##name, "vec:pair i32 i32", (Map& s, int v, int d), PV UNIQUEH((op, s.begin()+p)) M_KEPT) PROBE(multimap_##name, "vec:pair i32 i32", (Multimap& s, int v, int d), PV MULTI((op, s.begin()+q)) M_KEPT)
SI(insert, s.insert (const_cast<const int&>(v)))
SI(insert_m, s.insert (ustl::move (v)))
SI(emplace, s.emplace (v))
SI(emplace_back, s.emplace_back (v))
SV(push_back, s.push_back (v))
SH(insert_hint, s.insert (h, const_cast<const int&>(v)))
SH(insert_hint_m, s.insert (h, ustl::move (v)))
SH(emplace_hint, s.emplace_hint (h, v))
MI(insert, s.insert (const_cast<const Pair&>(v2)))
MI(insert_m, s.insert (ustl::move (v2)))
MI(emplace, s.emplace (v, d))
MI(emplace_back, s.emplace_back (v, d))
MV(push_back, s.push_back (v2))
MH1(insert_hint, s.insert (h, const_cast<const Pair&>(v2)))
MH(insert_hint_m, s.insert (h, ustl::move (v2)))
MH(emplace_hint, s.emplace_hint (h, v, d))
PROBE(map_index, "vec:pair i32 i32", (Map& s, int v, int d), SITUATION(1) int w = v; auto r = &s[v]; d = 0; INSERTED (p == q, p, s.begin()+p) REQUIRE (r == &e[k].second); M_KEPT)
PROBE(map_at, "vec:pair i32", (Map& s, int v), SITUATION(1) ASSUME (p < q); REQUIRE (&s.at (v) == &b[p].second); const Map& c = s; REQUIRE (&c.at (v) == &b[p].second); REQUIRE (&c[v] == &b[p].second); REQUIRE (s.size() == n))
PROBE(map_find_data, "vec:pair i32", (Map& s, int v), auto r = s.find_data (v), b = s.begin(); size_t n = s.size(); REQUIRE (r >= b); REQUIRE (r <= b+n); if (r != b+n) REQUIRE (r->second == v); SOME (i, i < size_t(r-b)); REQUIRE (was4_(&b[i].second) != unsigned(v)))
PROBE(map_find_data_r, "vec:pair i32", (Map& s, int v), auto b = s.begin(); size_t n = s.size(); SOME (f, f < n); SOME (m, m <= n && f+m <= n); auto l = f+m; auto r = s.find_data (v, b+f, b+l); REQUIRE (r >= b+f); REQUIRE (r <= b+l); if (r != b+l) REQUIRE (r->second == v); SOME (i, i < size_t(r-b)-f); REQUIRE (was4_(&b[f+i].second) != unsigned(v)))

// Removal: of what equals the key, or of places; the rest closes up.
#define ERASED(P, Q) size_t g = (Q) - (P); REQUIRE (s.size() == n - g); SOME (i, i < n && (i < (P) || i >= (Q))); size_t j = i < (P) ? i : i - g; auto e = s.begin();
#define SR(name, spec, params, op, ...) PROBE(set_##name, "vec:int " spec " i32", (Set& s, params int v), SITUATION(1) op; ERASED (__VA_ARGS__) REQUIRE (peek4_(e+j) == was4_(b+i))) \
	PROBE(multiset_##name, "vec:int " spec " i32", (Multiset& s, params int v), SITUATION(0) op; ERASED (__VA_ARGS__) REQUIRE (peek4_(e+j) == was4_(b+i)))
#define MR(name, spec, params, op, ...) PROBE(map_##name, "vec:pair " spec " i32", (Map& s, params int v), SITUATION(1) op; ERASED (__VA_ARGS__) REQUIRE (peek4_(&e[j].first) == was4_(&b[i].first)); REQUIRE (peek4_(&e[j].second) == was4_(&b[i].second))) \
	PROBE(multimap_##name, "vec:pair " spec " i32", (Multimap& s, params int v), SITUATION(0) op; ERASED (__VA_ARGS__) REQUIRE (peek4_(&e[j].first) == was4_(&b[i].first)); REQUIRE (peek4_(&e[j].second) == was4_(&b[i].second)))
SR(erase,,, s.erase (v), p, q)
MR(erase,,, s.erase (v), p, q)
SR(erase_at,,, SOME (x, x < n); auto r = s.erase (b+x); REQUIRE (r == s.begin()+x), x, x+1)
MR(erase_at,,, SOME (x, x < n); auto r = s.erase (b+x); REQUIRE (r == s.begin()+x), x, x+1)
SR(erase_range,,, SOME (x, x <= n); SOME (y, y >= x && y <= n); auto r = s.erase (b+x, b+y); REQUIRE (r == s.begin()+x), x, y)
MR(erase_range,,, SOME (x, x <= n); SOME (y, y >= x && y <= n); auto r = s.erase (b+x, b+y); REQUIRE (r == s.begin()+x), x, y)
PROBE(multiset_erase_count, "vec:int i32", (Multiset& s, int v), SITUATION(0) REQUIRE (s.erase (v) == q-p))

// Whole ranges: each element in turn goes through the single insertion.  Here that insertion only records what it got,
// and insists on being asked while the container is as large as it was (SIZE) before.
struct Rec { bool operator() (int, int) const { REQUIRE (false); return false; } };
extern "C" unsigned long ext_next (unsigned long, int, int) noexcept;
static size_t s_sum, s_size;
#define RECORD(C, x, y) { REQUIRE (s_size == size()); s_sum = ext_next (s_sum, x, y);
typedef set<int,Rec> RSet; typedef multiset<int,Rec> RMultiset; typedef map<int,int,Rec> RMap; typedef multimap<int,int,Rec> RMultimap;
namespace ustl {
template <> RSet::insertrv_t RSet::insert (const int& v) RECORD (RSet, v, 0) return RSet::insertrv_t (begin(), true); }
template <> RSet::insertrv_t RSet::insert (int&& v) RECORD (RSet, v, 0) return RSet::insertrv_t (begin(), true); }
template <> RMultiset::iterator RMultiset::insert (const int& v) RECORD (RMultiset, v, 0) return begin(); }
template <> RMultiset::iterator RMultiset::insert (int&& v) RECORD (RMultiset, v, 0) return begin(); }
template <> RMap::insertrv_t RMap::insert (const Pair& v) RECORD (RMap, v.first, v.second) return RMap::insertrv_t (begin(), true); }
template <> RMap::insertrv_t RMap::insert (Pair&& v) RECORD (RMap, v.first, v.second) return RMap::insertrv_t (begin(), true); }
template <> RMultimap::iterator RMultimap::insert (const Pair& v) RECORD (RMultimap, v.first, v.second) return begin(); }
template <> RMultimap::iterator RMultimap::insert (Pair&& v) RECORD (RMultimap, v.first, v.second) return begin(); }
}
#define FOLDED(x, y) size_t t = s_sum; REQUIRE (fold_start_(t) == 7); REQUIRE (fold_rounds_(t) == m); SOME (i, i < m); size_t z = any_(); REQUIRE (fold_step_(t, i, z) == ext_next (z, was4_(x), y))
#define IL(T) struct { const T* p; size_t n; } il = { a, m };
#define WHOLE(name, C, V, T, Z, x, y) \
	PROBE(name##_insert_range, "vec:" V " n buf:1:" Z, (C& s, size_t m, const T* a), s_sum = 7; s_size = s.size(); s.insert (a, a+m); FOLDED (x, y)) \
	PROBE(name##_insert_list, "vec:" V " n buf:1:" Z, (C& s, size_t m, const T* a), IL(T) s_sum = 7; s_size = s.size(); s.insert (reinterpret_cast<std::initializer_list<T>&>(il)); FOLDED (x, y)) \
	PROBE(name##_assign, "vec:" V " n buf:1:" Z, (C& s, size_t m, const T* a), s_sum = 7; s_size = 0; s.assign (a, a+m); FOLDED (x, y)) \
	PROBE(name##_ctor_range, "n buf:0:" Z, (size_t m, const T* a), s_sum = 7; s_size = 0; C c (a, a+m); FOLDED (x, y)) \
	PROBE(name##_ctor_list, "n buf:0:" Z, (size_t m, const T* a), IL(T) s_sum = 7; s_size = 0; C c (reinterpret_cast<std::initializer_list<T>&>(il)); FOLDED (x, y))
WHOLE(set, RSet, "int", int, "4", a+i, 0)
WHOLE(multiset, RMultiset, "int", int, "4", a+i, 0)
WHOLE(map, RMap, "pair", Pair, "8", &a[i].first, was4_(&a[i].second))
WHOLE(multimap, RMultimap, "pair", Pair, "8", &a[i].first, was4_(&a[i].second))
