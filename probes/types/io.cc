// every type that has a place in the streams goes in and comes out
#include <ustl.h>
#include <ustl/ulaalgo.h>
#include <ustl/bktrace.h>
using namespace ustl;
template <typename T> void bin (istream& is, ostream& os, T& v, const T& k) { os << k; is >> v; (void) stream_size_of (k); }
template <typename T> void txt (ostringstream& os, const T& k) { os << k; }
template <typename T> void in (istringstream& is, T& v) { is >> v; }
#define BOTH(n, ...) void b_##n (istream& is, ostream& os, ostringstream& t, __VA_ARGS__& v, const __VA_ARGS__& k) { bin (is, os, v, k); txt (t, k); }
#define NUM(n, ...) BOTH (n, __VA_ARGS__) void n_##n (istringstream& i, __VA_ARGS__& v) { in (i, v); }
NUM (bool, bool) NUM (char, char) NUM (schar, signed char) NUM (uchar, unsigned char) NUM (short, short) NUM (ushort, unsigned short) NUM (int, int) NUM (unsigned, unsigned) NUM (long, long) NUM (ulong, unsigned long) NUM (float, float) NUM (double, double)
void n_string (istringstream& i, string& s) { i >> s; }
BOTH (string, string) BOTH (vector, vector<int>) BOTH (vectors, vector<string>) BOTH (vv, vector<vector<short> >) BOTH (list, list<int>) BOTH (set, set<int>) BOTH (multiset, multiset<int>) BOTH (map, map<int,string>) BOTH (multimap, multimap<string,int>) BOTH (pair, pair<int,string>) BOTH (tuple, tuple<3,int>) BOTH (array, array<int,3>) BOTH (matrix, matrix<2,2,float>) BOTH (bitset, bitset<33>)
void b_memblock (istream& is, ostream& os, memblock& v, const memblock& k, const cmemlink& c, memlink& m) { bin (is, os, v, k); os << c; is >> m; }
BOTH (duration, chrono::milliseconds) 
void t_text (ostringstream& os, const char* s, char* t, const void* p) { os << s << t << p; os << ios::hex << 1 << ios::dec << ios::oct << endl << flush << ends; os << ios::width (4) << ios::base (16); }
void t_iter (istream& is, ostream& os, int* p) { copy (istream_iterator<int> (is), istream_iterator<int>(), ostream_iterator<int> (os)); copy (p, p + 3, ostream_iterator<int> (os)); os << ios::align (8) << ios::skip (3) << ios::talign<int>(); is >> ios::align (8) >> ios::skip (3) >> ios::talign<int>(); }
struct X { int a; void read (istream& is) { is >> a; } void write (ostream& os) const { os << a; } size_t stream_size (void) const { return stream_size_of (a); } void text_write (ostringstream& os) const { os << a; } };
BOTH (user, X) BOTH (users, vector<X>) BOTH (usermap, map<string,X>)
enum E { e0, e1 }; enum class F : short { a };
void b_enum (ostringstream& os, E e) { os << e; }
void b_exc (istream& is, ostream& os, ostringstream& t, exception& e, const exception& k, CBacktrace& b, const CBacktrace& kb) { e.read (is); k.write (os); t << k; b.read (is); kb.write (os); t << kb; }
void f_stream (fstream& f, char* p, const char* k) { f.write (k, 2); f.read (p, 2); f.seek (0); (void) f.pos(); f.sync(); f.close(); }
void c_out (void) { cout << "a" << 1 << endl; cerr << 'c'; int n; cin >> n; cout.flush(); }
void g_line (istringstream& is, string& s, char* p) { getline (is, s); is.get(); is.get (s); is.get (p, 2); is.getline (p, 2); is.getline (s); is.ignore (1); is.unget(); is.read (p, 1); }
