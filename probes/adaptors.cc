// Queues and stacks of any size, content and history.  A queue's storage begins with what has been popped; how much that
// is, is any number.
#include "spec.h"
extern "C" __attribute__((used)) void C_vec_int (void* m) { new (m) vector<int>; }
extern "C" const unsigned Z_vec_int __attribute__((used)) = sizeof(vector<int>); extern "C" const unsigned Z_int __attribute__((used)) = 4;
extern "C" __attribute__((used)) void C_vec_pair (void* m) { new (m) vector<pair<int,int> >; }
extern "C" const unsigned Z_vec_pair __attribute__((used)) = sizeof(vector<pair<int,int> >); extern "C" const unsigned Z_pair __attribute__((used)) = 8;
#define SOME(i, c) size_t i = any_(); ASSUME (c)
typedef queue<int> Q; typedef stack<int> St;
template <typename Q> struct Old { Q z; template <typename V> Old (V& v, size_t popped) : z (ustl::move (v)) { static_assert (sizeof(Q) == sizeof(V)+sizeof(size_t), "a queue is its storage and the number of popped elements"); *reinterpret_cast<size_t*>(reinterpret_cast<char*>(&z)+sizeof(V)) = popped; } };
#define QUEUE(q, v, x) SOME (x, x <= v.size()); Old<Q> o_##q (v, x); Q& q = o_##q.z;
// the elements of q are those of storage B from F on, N of them
#define HOLDS(q, n, b, f) REQUIRE (q.size() == (n)); REQUIRE (q.empty() == !(n)); SOME (i, i < (n)); REQUIRE (peek4_(&q.front()+i) == was4_((b)+(f)+i)); REQUIRE (&q.back() == &q.front()+(n)-1); const auto& c = q; REQUIRE (&c.front() == &q.front()); REQUIRE (&c.back() == &q.back());
#define ADDED(q, n, b, f, w) REQUIRE (q.size() == (n)+1); REQUIRE (!q.empty()); REQUIRE (peek4_(&q.front()+(n)) == unsigned(w)); REQUIRE (&q.back() == &q.front()+(n)); SOME (i, i < (n)); REQUIRE (peek4_(&q.front()+i) == was4_((b)+(f)+i));
#define P(name, spec, params, ...) PROBE(queue_##name, "vec:int" spec, params, const int* b = v.begin(); size_t all = v.size(); QUEUE (q, v, f) size_t n = all-f; __VA_ARGS__)
#define V vector<int>& v
P(view, "", (V), HOLDS (q, n, b, f))
P(push, " i32", (V, int x), q.push (x); ADDED (q, n, b, f, x))
P(emplace, " i32", (V, int x), q.emplace (x); ADDED (q, n, b, f, x))
P(pop, "", (V), ASSUME (n); q.pop(); REQUIRE (q.size() == n-1); REQUIRE (q.empty() == (n == 1)); SOME (i, i < n-1); REQUIRE (peek4_(&q.front()+i) == was4_(b+f+1+i)))
P(copy, "", (V), Q w (q); { HOLDS (w, n, b, f) } HOLDS (q, n, b, f))
P(move, "", (V), Q w (ustl::move (q)); HOLDS (w, n, b, f) REQUIRE (q.empty()); REQUIRE (q.size() == 0))
P(assign, " vec:int", (V, vector<int>& u), QUEUE (w, u, g) w = q; { HOLDS (w, n, b, f) } HOLDS (q, n, b, f))
P(assign_self, "", (V), Q& w = q; w = q; HOLDS (q, n, b, f))
P(assign_move, " vec:int", (V, vector<int>& u), QUEUE (w, u, g) w = ustl::move (q); HOLDS (w, n, b, f))
P(swap, " vec:int", (V, vector<int>& u), const int* d = u.begin(); size_t m = u.size(); QUEUE (w, u, g) w.swap (q); { HOLDS (w, n, b, f) } HOLDS (q, m-g, d, g))
PROBE(queue_of, "vec:int", (V), const int* b = v.begin(); size_t n = v.size(); Q q (v); HOLDS (q, n, b, 0))
PROBE(queue_of_m, "vec:int", (V), const int* b = v.begin(); size_t n = v.size(); Q q (ustl::move (v)); HOLDS (q, n, b, 0))
PROBE(queue_new, "", (void), Q q; REQUIRE (q.empty()); REQUIRE (q.size() == 0))
// two queues that differ first at K
static size_t s_k, s_f, s_g; static const void *s_a, *s_b;
struct Key { int v; bool operator== (const Key& x) const { const Key *a = this, *b = &x; if (!same_(a, s_a)) { a = b; b = this; } REQUIRE (same_(a, s_a)); REQUIRE (same_(b, s_b)); size_t i = off_(a)/4-s_f, j = off_(b)/4-s_g; REQUIRE (i == j); return i < s_k || (i > s_k && any_() < 2); } };
typedef queue<Key> KQ; typedef stack<Key> KS;
PROBE(queue_equal, "vec:int vec:int", (vector<Key>& v, vector<Key>& u), s_a = v.begin(); s_b = u.begin(); size_t n = v.size(), m = u.size(); SOME (f, f <= n); SOME (g, g <= m); Old<KQ> p (v, f), q (u, g); SOME (k, k <= n-f); s_k = k; s_f = f; s_g = g; bool r = p.z == q.z; REQUIRE (r == (n-f == m-g && k == n-f)))
PROBE(stack_equal, "vec:int vec:int", (vector<Key>& v, vector<Key>& u), s_a = v.begin(); s_b = u.begin(); size_t n = v.size(), m = u.size(); SOME (k, k <= n); KS p (ustl::move (v)), q (ustl::move (u)); s_k = k; s_f = 0; s_g = 0; bool r = p == q; REQUIRE (r == (n == m && k == n)))

// the same for every container
template <typename C> static inline void differ_at (C& v, C& u, size_t z) { s_a = v.begin(); s_b = u.begin(); size_t n = v.size(), m = u.size(); SOME (k, k <= n*z); s_k = k; s_f = 0; s_g = 0; bool r = v == u; REQUIRE (r == (n == m && k == n*z)); bool d = v != u; REQUIRE (d == !(n == m && k == n*z)); }
PROBE(vector_equal, "vec:int vec:int", (vector<Key>& v, vector<Key>& u), differ_at (v, u, 1))
PROBE(list_equal, "vec:int vec:int", (list<Key>& v, list<Key>& u), differ_at (v, u, 1))
PROBE(set_equal, "vec:int vec:int", (set<Key>& v, set<Key>& u), differ_at (v, u, 1))
PROBE(map_equal, "vec:pair vec:pair", (map<Key,Key>& v, map<Key,Key>& u), differ_at (v, u, 2))

#define S_HOLDS(q, n, b) REQUIRE (q.size() == (n)); REQUIRE (q.empty() == !(n)); SOME (i, i < (n)); REQUIRE (peek4_(&q.top()-((n)-1-i)) == was4_((b)+i)); const auto& c = q; REQUIRE (&c.top() == &q.top());
#define S_ADDED(q, n, b, w) REQUIRE (q.size() == (n)+1); REQUIRE (!q.empty()); REQUIRE (peek4_(&q.top()) == unsigned(w)); SOME (i, i < (n)); REQUIRE (peek4_(&q.top()-((n)-i)) == was4_((b)+i));
#define S(name, spec, params, ...) PROBE(stack_##name, "vec:int" spec, params, const int* b = v.begin(); size_t n = v.size(); St q (ustl::move (v)); __VA_ARGS__)
S(view, "", (V), S_HOLDS (q, n, b))
S(push, " i32", (V, int x), q.push (x); S_ADDED (q, n, b, x))
S(emplace, " i32", (V, int x), q.emplace (x); S_ADDED (q, n, b, x))
S(pop, "", (V), ASSUME (n); q.pop(); S_HOLDS (q, n-1, b))
S(push_pop, " i32", (V, int x), q.push (x); q.pop(); S_HOLDS (q, n, b))
S(copy, "", (V), St w (q); { S_HOLDS (w, n, b) } S_HOLDS (q, n, b))
S(move, "", (V), St w (ustl::move (q)); S_HOLDS (w, n, b))
S(assign, " vec:int", (V, vector<int>& u), St w (ustl::move (u)); w = q; { S_HOLDS (w, n, b) } S_HOLDS (q, n, b))
S(assign_move, " vec:int", (V, vector<int>& u), St w (ustl::move (u)); w = ustl::move (q); S_HOLDS (w, n, b))
S(swap, " vec:int", (V, vector<int>& u), const int* d = u.begin(); size_t m = u.size(); St w (ustl::move (u)); w.swap (q); { S_HOLDS (w, n, b) } S_HOLDS (q, m, d))
PROBE(stack_of, "vec:int", (V), const int* b = v.begin(); size_t n = v.size(); St q (v); S_HOLDS (q, n, b))
