// Searching and comparing text: which character, and which of several occurrences.
#include "spec.h"
#define SOME(i, c) size_t i = any_(); ASSUME (c)
#define S(name, ...) PROBE(n_##name, "@512m string ch n n", (const string& s, char c, size_t p, size_t k), __VA_ARGS__)
#define AT(i) char(was1_(s.begin()+(i)))
#define NONE string::npos
// first from p on
S(find, size_t r = s.find (c, p); if (r != NONE) { REQUIRE (r >= p); REQUIRE (r < s.size()); REQUIRE (s[r] == c); } ASSUME (k >= p && k < s.size() && (r == NONE || k < r)); REQUIRE (AT(k) != c))
// last up to p
S(rfind, size_t r = s.rfind (c, p); if (r != NONE) { REQUIRE (r <= p); REQUIRE (r < s.size()); REQUIRE (s[r] == c); } ASSUME (k <= p && k < s.size() && (r == NONE || k > r)); REQUIRE (AT(k) != c))
S(rfind_all, size_t r = s.rfind (c); if (r != NONE) { REQUIRE (r < s.size()); REQUIRE (s[r] == c); } ASSUME (k < s.size() && (r == NONE || k > r)); REQUIRE (AT(k) != c))
#define W(i) char(was1_(t.begin()+(i)))
#define N(name, ...) PROBE(ns_##name, "@512m n buf:0 n buf:2 n n", (size_t a_, const char* b_, size_t c_, const char* d_, size_t p, size_t k), TEXTS __VA_ARGS__)
#define TEXTS string s, t; s.link (b_, a_); t.link (d_, c_);
#define OF(name, call, from, before, is) N(name, size_t r = s.call; if (r != NONE) { REQUIRE (r < s.size()); REQUIRE (from); REQUIRE ((t.find (s[r]) != NONE) == is); } \
    ASSUME (k < s.size() && before); (void) AT(k); REQUIRE ((t.find (AT(k)) == NONE) == is))
OF(find_first_of, find_first_of (t, p), r >= p, k >= p && (r == NONE || k < r), true)
OF(find_first_not_of, find_first_not_of (t, p), r >= p, k >= p && (r == NONE || k < r), false)
OF(find_last_of, find_last_of (t, p), r <= p, k <= p && (r == NONE || k > r), true)
OF(find_last_not_of, find_last_not_of (t, p), r <= p, k <= p && (r == NONE || k > r), false)
OF(find_last_of_all, find_last_of (t), r < s.size(), (r == NONE || k > r), true)
OF(find_last_not_of_all, find_last_not_of (t), r < s.size(), (r == NONE || k > r), false)
N(rfind, ASSUME (!t.empty()); size_t m = t.size(), r = s.rfind (t, p); if (r != NONE) { REQUIRE (r <= p); REQUIRE (r + m <= s.size()); REQUIRE (!memcmp (s.begin()+r, t.begin(), m)); } \
    ASSUME (k <= p && k + m <= s.size() && (r == NONE || k > r)); REQUIRE (memcmp (s.begin()+k, t.begin(), m)))
N(find, size_t m = t.size(), r = s.find (t, p); if (r != NONE) { REQUIRE (r >= p); REQUIRE (r + m <= s.size()); REQUIRE (!memcmp (s.begin()+r, t.begin(), m)); })
// it occurs at k: found there or before
extern "C" void hint_ (const void*) noexcept;
N(find_first, size_t m = t.size(); ASSUME (m && k >= p && k + m <= s.size()); for (size_t i = 0; i < m; ++i) if (s.begin()[k+i] != t.begin()[i]) return; \
    ASSUME (AT(k+m-1) == W(m-1)); hint_ (s.begin()+k+m-1); size_t r = s.find (t, p); REQUIRE (r != NONE); REQUIRE (r <= k))
// the same up to k, then different or at the end of one
#define SAME_TO(k) for (size_t i = 0; i < k; ++i) if (s.begin()[i] != t.begin()[i]) return
#define C(name, ...) N(cmp_##name, size_t n = s.size(), m = t.size(); ASSUME (k <= n && k <= m); SAME_TO(k); ASSUME (k == n || k == m || s[k] != t[k]); \
    bool less = k == m ? false : k == n || (unsigned char) s[k] < (unsigned char) t[k]; bool eq = k == n && k == m; __VA_ARGS__)
C(compare, int r = s.compare (t); REQUIRE ((r < 0) == less); REQUIRE ((r == 0) == eq))
C(lt, REQUIRE ((s < t) == less))
C(eq, REQUIRE ((s == t) == eq))
C(ne, REQUIRE ((s != t) == !eq))
C(gt, REQUIRE ((s > t) == (!less && !eq)))
C(block_eq, REQUIRE ((static_cast<const cmemlink&>(s) == t) == eq))
C(range, REQUIRE ((string::compare (s.begin(), s.begin()+n, t.begin(), t.begin()+m) < 0) == less))
// parts of both
PROBE(ns_cmp_part, "@512m n buf:0 n buf:2 n n n n n", (size_t a_, const char* b_, size_t c_, const char* d_, size_t p, size_t k, size_t n, size_t m, size_t j), TEXTS ASSUME (p <= s.size() && k <= t.size()); ASSUME (p + n <= s.size() && k + m <= t.size() && j <= n && j <= m); \
    for (size_t i = 0; i < j; ++i) if (s.begin()[p+i] != t.begin()[k+i]) return; \
    ASSUME (j == n || j == m || s[p+j] != t[k+j]); bool less = j == m ? false : j == n || (unsigned char) s[p+j] < (unsigned char) t[k+j]; bool eq = j == n && j == m; \
    int r = s.compare (p, n, t, k, m); REQUIRE ((r < 0) == less); REQUIRE ((r == 0) == eq))
// zero-terminated text, shorter than 512M
#define Z(name, ...) PROBE(ns_cstr_##name, "@512m string cstr n", (const string& s, const char* t, size_t k), size_t n = s.size(), m = strlen (t); ASSUME (k <= n && k <= m); \
    SAME_TO0(k); ASSUME (k == n || k == m || s[k] != t[k]); bool less = k == m ? false : k == n || (unsigned char) s[k] < (unsigned char) t[k]; bool eq = k == n && k == m; __VA_ARGS__)
#define SAME_TO0(k) for (size_t i = 0; i < k; ++i) if (s.begin()[i] != t[i]) return
Z(compare, int r = s.compare (t); REQUIRE ((r < 0) == less); REQUIRE ((r == 0) == eq))
Z(eq, REQUIRE ((s == t) == eq))
Z(lt, REQUIRE ((s < t) == less))
Z(gt, REQUIRE ((s > t) == (!less && !eq)))
// single characters
S(eq, bool r = s == c; REQUIRE (r == (s.size() == 1 && s[0] == c)))
PROBE(ns_lt, "@512m string ch", (const string& s, char c), bool r = s < c; if (s.empty()) REQUIRE (r); else if ((unsigned char) s[0] != (unsigned char) c) REQUIRE (r == ((unsigned char) s[0] < (unsigned char) c)); else REQUIRE (!r))
// one character as the set to look for, and text given by its place and length
PROBE (ns_find_p, "@512m string buf:3 n n", (const string& s, const char* t, size_t p, size_t m), ASSUME (m); size_t r = s.find (t, p, m); if (r != NONE) { REQUIRE (r >= p); REQUIRE (r + m <= s.size()); REQUIRE (!memcmp (s.begin()+r, t, m)); })
PROBE (ns_rfind_p, "@512m string buf:3 n n n", (const string& s, const char* t, size_t p, size_t m, size_t k), ASSUME (m); size_t r = s.rfind (t, p, m); if (r != NONE) { REQUIRE (r <= p); REQUIRE (r + m <= s.size()); REQUIRE (!memcmp (s.begin()+r, t, m)); } \
    ASSUME (k <= p && k + m <= s.size() && (r == NONE || k > r)); REQUIRE (memcmp (s.begin()+k, t, m)))
// what the searches above take for granted of the search for one byte
PROBE (n_find_byte, "@512m n buf:0 n ch", (size_t n, const char* a, size_t k, char c), const char* r = ustl::find (a, a+n, c); REQUIRE (r >= a); REQUIRE (r <= a+n); if (r != a+n) REQUIRE (*r == c); ASSUME (k < size_t(r-a)); REQUIRE (char (was1_(a+k)) != c))
