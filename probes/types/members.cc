// member templates and free helper templates, which explicit instantiation does not reach
#include <ustl.h>
#include <ustl/ulaalgo.h>
using namespace ustl;
struct C { int a; explicit C (int x, int y = 0) : a(x + y) {} C (void) : a(0) {} bool operator== (const C& c) const { return a == c.a; } bool operator< (const C& c) const { return a < c.a; } };
static bool odd (int x) { return x & 1; }
void v (vector<C>& a, list<C>& l, set<C>& s, multiset<C>& m, map<C,C>& p, multimap<int,C>& q, map<int,string>& r, stack<C>& k, queue<C>& u, priority_queue<C>& h, C& c) {
    a.emplace (a.begin(), 1, 2); a.emplace_back (1, 2); a.emplace_back(); a.insert (a.begin(), C (1)); a.push_back (C (1)); a.insert (a.begin(), {c, c}); a = {c, c}; vector<C> b {c, c}; a.insert (a.begin(), 2, c); a.insert (a.begin(), b.begin(), b.end()); a.assign (b.begin(), b.end());
    l.emplace_front (1, 2); l.emplace_back (1, 2); l.push_front (C (1)); l.push_front (c); l.remove_if ([](const C& x) { return x.a > 1; }); l.remove (c); l.reverse(); l.unique(); l.sort(); list<C> l2 {c, c}; l.merge (l2); l.splice (l.begin(), l2); l.splice (l.begin(), l2, l2.begin(), l2.end()); l.pop_front();
    s.emplace (1, 2); s.emplace_hint (s.begin(), 1, 2); s.emplace_back (1, 2); s.insert (C (1)); s.insert (c); s.insert (s.begin(), c); s.insert (s.begin(), C (1)); s.insert ({c, c}); s.insert (b.begin(), b.end()); s.erase (c); s.erase (s.begin()); s.erase (s.begin(), s.end()); set<C> s2 {c, c}; s.find (c); s.count (c); s.lower_bound (c); s.upper_bound (c); s.equal_range (c); s.assign (b.begin(), b.end()); s.push_back (c);
    m.emplace (1, 2); m.emplace_hint (m.begin(), 1, 2); m.emplace_back (1, 2); m.insert (C (1)); m.insert (c); m.insert (m.begin(), c); m.insert (m.begin(), C (1)); m.insert ({c, c}); m.insert (b.begin(), b.end()); m.erase (c); m.erase (m.begin()); m.erase (m.begin(), m.end()); multiset<C> m2 {c, c}; m.find (c); m.count (c); m.lower_bound (c); m.upper_bound (c); m.equal_range (c); m.assign (b.begin(), b.end()); m.push_back (c);
    p.emplace (c, c); p.emplace_hint (p.begin(), c, c); p.emplace_back (c, c); p.insert (make_pair (c, c)); p.insert (p.begin(), make_pair (c, c)); pair<C,C> e (c, c); p.insert (e); p.insert (p.begin(), e); p.insert ({e, e}); p.insert (&e, &e + 1); p.erase (c); p.erase (p.begin()); p.erase (p.begin(), p.end()); map<C,C> p2 {e, e}; p.find (c); p.find_data (c); p.count (c); p.lower_bound (c); p.upper_bound (c); p.equal_range (c); p.assign (&e, &e + 1); p.push_back (e); p[c] = c; p.at (c) = c; p.key_comp(); p.value_comp();
    q.emplace (1, c); q.emplace_hint (q.begin(), 1, c); q.emplace_back (1, c); q.insert (make_pair (1, c)); q.insert (q.begin(), make_pair (1, c)); pair<int,C> f (1, c); q.insert (f); q.insert ({f, f}); q.insert (&f, &f + 1); q.erase (1); q.erase (q.begin()); q.erase (q.begin(), q.end()); multimap<int,C> q2 {f, f}; q.find (1); q.count (1); q.lower_bound (1); q.upper_bound (1); q.equal_range (1); q.assign (&f, &f + 1); q.push_back (f);
    r[1] = "a"; r.emplace (1, "a"); r.insert (make_pair (1, string ("a"))); r.find_data ("a");
    k.emplace (1, 2); k.push (C (1)); k.push (c); u.emplace (1, 2); u.push (C (1)); u.push (c); h.emplace (1, 2); h.push (C (1)); h.push (c); }
void cv (const set<C>& s, const multiset<C>& m, const map<C,C>& p, const multimap<int,C>& q, const C& c, const pair<C,C>& e) {
    s.find (c); s.count (c); s.lower_bound (c); s.upper_bound (c); s.equal_range (c); m.find (c); m.count (c); m.lower_bound (c); m.upper_bound (c); m.equal_range (c); p.find (c); p.find_data (c); p.count (c); p.lower_bound (c); p.upper_bound (c); p.equal_range (c); p.at (c); p[c]; q.find (1); q.count (1); q.lower_bound (1); q.upper_bound (1); q.equal_range (1); (void) e; }
void own (void) {
    auto a = make_unique<C> (1, 2); auto b = make_unique<int[]> (3); auto s = make_shared<C> (1, 2); auto t = s; s.reset(); s.reset (new C); s.swap (t); a.reset (new C); delete a.release(); b[1] = 2; unique_ptr<const C> uc (new C); shared_ptr<const C> sc (new C); (void) t.use_count(); (void) s.unique(); auto_ptr<C> ap (new C); auto_ptr<C> aq (ap); ap = aq; ap.reset (new C); delete aq.release();
    auto g = make_scope_exit ([]{}); g.release(); auto x = make_unique_resource (3, [](int){}); x.reset(); x.reset (4); x.release(); auto y = make_unique_resource_checked (3, -1, [](int){}); (void) y.get(); y.get_deleter(); }
void raw (C* p, C* q, int* i, string* t) {
    construct (p); construct_at (p); construct_at (p, *q); construct_at (p, C (1)); construct (p, q); construct (i, i); uninitialized_default_construct_n (p, 2); uninitialized_value_construct (p, q); uninitialized_value_construct_n (i, 2); construct (t, t + 1); destroy (p); destroy (p, q); destroy (i, i + 1); destroy_n (p, 2); destroy_at (p);
    uninitialized_copy (p, p + 1, q); uninitialized_copy_n (p, 1, q); uninitialized_fill (p, q, *p); uninitialized_fill_n (p, 1, *q); uninitialized_move (p, p + 1, q); uninitialized_move_n (p, 1, q); uninitialized_copy (i, i + 1, i); uninitialized_fill_n (i, 1, 2); Delete (p); DeleteVector (t); }
void util (int a, unsigned b, long c, int (&v)[3], uint16_t h, int64_t d) {
    min (a, a); max (a, a); min (a, c); max (c, a); VectorElement (v, 1); AlignDown (b, 4); Align (b); Align (c, 8); NullPointer<int>(); is_negative (a); is_negative (b); absv (a); absv (b); sign (a); sign (b); gcd (a, a); lcm (a, a); bswap (h); bswap (d); bswap (b); le_to_native (h); be_to_native (a); native_to_le (d); native_to_be (b); DivRU (a, 2); DivRU (b, 3u); uint32_t big; pack_type (h, big); TestAndSet (&a); FirstBit (b, 0); a != a; distance (v, v + 1); size_of_elements (2, v); swap (a, a); exchange (a, 1); clamp (a, 1, 2); { int* vp = v; advance (vp, 1); } VectorRange (v); begin (v); end (v); size (v); pointer_cast<char> (&a); ptrdiff_t z = abs_distance (v, v + 1); (void) z; }
void elem (tuple<3,int>& t, const tuple<3,short>& u, array<int,3>& a, const array<short,3>& b, matrix<3,3,int>& m, matrix<4,4,float>& f, tuple<4,float>& g, bitset<33>& s, const bitset<33>& z) {
    t = u; t += u; t -= u; t *= u; t /= u; t + u; t - u; t * u; t / u; t == u; t < u; t += 1; t -= 1; t *= 2; t /= 2; t + 1; t - 1; t * 2; t / 2; tuple<3,int> t2 (u); tuple<3,int> t3 (1, 2, 3); tuple<3,int> t4 (5); t = {1, 2, 3}; t += {1, 2, 3}; t.swap (t2);
    a += b; a -= b; a *= b; a /= b; a + b; a - b; a * b; a / b; a == b; a < b; a += 1; a -= 1; a *= 2; a /= 2; a + 1; a - 1; a * 2; a / 2; array<int,3> a2 (a); a.fill (2); a.swap (a2); a += {1, 2, 3}; a + std::initializer_list<int> {1, 2, 3};
    load_identity (m); m * m; tuple<3,int>() * m; transpose (m); load_identity (f); f * f; g * f; transpose (f); m += m; m == m; m.row (1); m.column (1);
    s & z; s | z; s ^ z; ~s; s &= z; s |= z; s ^= z; s == z; s.set(); s.set (1); s.set (1, true); s.set (1, 3, 5); s.reset(); s.reset (1); s.flip(); s.flip (1); s.test (1); s[1]; s.any(); s.none(); s.count(); s.size(); s.capacity(); s.to_value(); s.to_string(); s.at (1); s.begin(); s.end(); bitset<33> w (5); }
template <typename C, size_t N> void inserters (vector<C>& v, array<C,N>& a) { copy (a.begin(), a.end(), back_inserter (v)); copy (a.begin(), a.end(), inserter (v, v.begin())); }
template void inserters (vector<string>&, array<string,3>&); template void inserters (vector<int>&, array<int,3>&);
void time (chrono::milliseconds& m, chrono::seconds s, chrono::high_resolution_clock::duration& h, chrono::hrtime_t& r) {
    using namespace chrono; m = s; m += s; m -= s; m *= 2; m /= 2; m %= 7; m %= m; ++m; m++; --m; m--; +m; -m; m + m; m - m; m == m; m < m; m != m; m == s; s < m; duration_cast<seconds> (m); duration_cast<milliseconds> (h); duration_cast<duration<double>> (m); milliseconds::zero(); milliseconds::min(); milliseconds::max();
    auto a = system_clock::now(); auto b = steady_clock::now(); auto c = high_resolution_clock::now(); auto d = system_clock_ms::now(); system_clock::to_time_t (a); system_clock::from_time_t (0); a - a; a += s; a -= s; a + s; a - s; a == a; a < a; a != a; b < b; c == c; d - d; time_point_cast<hours> (a); r++; r--; ++r; --r; r + r; r - r; r * 2; r / 2; r == r; r < r; -r; +r; (void) double (r); (void) intmax_t (r); }
void err (error_code& e, error_condition& c, errc k) { e = k; c = k; e == c; e == e; c == c; e.clear(); c.clear(); e.assign (1, system_category()); c.assign (1, generic_category()); e.message(); c.message(); e.value(); e.category(); e.default_error_condition(); make_error_code (k); make_error_condition (k); if (e) c = k; if (c) e = k; e != e; c != c; }
void str (string& s, const string& k, const char* p) { s.insert (s.begin(), 'a'); s.insert (s.begin(), 2, 'a'); s.insert (s.begin(), p, p + 1); s.insert (1, k); s.insert (1, p); s.erase (s.begin()); s.erase (size_t(1), size_t(1)); s.replace (s.begin(), s.end(), p); s.replace (s.begin(), s.end(), p, p + 1); s.replace (1, 2, k); s.assign (p); s.assign (p, 2); s.append (p); s.append (k); s.append (2, 'a'); s.append (p, 2); s.append (p, p + 1); s + k; s + p; s + 'a'; p + s; s += p; s += 'a'; s += k; s == p; s < p; s != p; s > p; p == s; s.compare (k); s.find (p); s.find ('a'); s.find (k, 1); s.rfind (p); s.rfind (k); s.find_first_of (p); s.find_last_of (p); s.find_first_not_of (p); s.find_last_not_of (p); s.substr (1, 2); s.format ("%d", 1); s.hash (p, p + 1); s.copy (0, 1, 2); s.c_str(); s.utf8_begin(); s.utf8_end(); s.length(); string a (p, 3); string b (p, p + 2); string c (k, 1, 2); string d (3u, 'a'); swap (a, b); s.at (1) = 'a'; s.resize (3, 'a'); s.empty(); s.max_size(); s.front() = 'a'; s.back() = 'b'; s.push_back ('a'); s.pop_back(); }
