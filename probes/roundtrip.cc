#include "probe.h"
#include <stddef.h>
// write a value, read it back: see lib/roundtrip.py
struct rt { size_t need, wrote, read, good; };
extern "C" const unsigned Z_rt __attribute__((used)) = sizeof(rt);
template <typename T>
static inline void roundtrip (rt* r, const T& v, T& w, void* b, size_t n, size_t p)
{
    r->need = r->read = r->good = 0;
    r->wrote = size_t(-1);
    if (p > n) return;
    r->need = stream_size_of (v);
    if (r->need > n - p) return;
    ostream os (b, n);
    os.seek (p);
    os << v;
    r->wrote = os.pos() - p;
    istream is (b, os.pos());
    is.seek (p);
    is >> w;
    r->read = is.pos() - p;
    r->good = os.good() && is.good();
}
#define RT(T,t,spec,in,out) PROBE (rt_##t, "out:rt " in spec " " out spec " wbuf:4 n q", (rt* r, const T& v, T& w, void* b, size_t n, size_t p), roundtrip (r, v, w, b, n, p))
// reading whatever bytes there are
#define RD(T,t,spec,out) PROBE (rd_##t, "istream " out spec, (istream& is, T& w), is >> w)
// writing to whatever room there is
#define WR(T,t,spec,in) PROBE (wr_##t, "ostream " in spec, (ostream& os, const T& v), os << v)
#define ALL(T,t,spec,in,out) RT(T,t,spec,in,out) RD(T,t,spec,out) WR(T,t,spec,in)
// F: the bytes of a plain value that count (offset, size)
#define PLAIN(T,t,...) ALL(T,t,#t,"in:","out:") extern "C" const unsigned Z_##t __attribute__((used)) = sizeof(T); extern "C" const unsigned F_##t[] __attribute__((used)) = { __VA_ARGS__ };
#define RTVEC(T,V,t,...) RT(V,vec_##t,"vec:" #t,"","") extern "C" __attribute__((used)) void C_vec_##t (void* m) { new (m) V; } \
    extern "C" const unsigned Z_vec_##t __attribute__((used)) = sizeof(V); extern "C" const unsigned Z_##t __attribute__((used)) = sizeof(T); \
    extern "C" const unsigned F_##t[] __attribute__((used)) = { __VA_ARGS__ };
#define VEC(T,V,t,...) RTVEC(T,V,t,__VA_ARGS__) RD(V,vec_##t,"vec:" #t,"") WR(V,vec_##t,"vec:" #t,"")
#define O(T,f) offsetof(T,f), sizeof(T::f)
typedef long long llong; typedef unsigned long long ullong; typedef unsigned char uchar; typedef signed char schar;
typedef unsigned short ushort_; typedef unsigned int uint_; typedef unsigned long ulong_;
#define SCALAR(T,t) PLAIN(T,t,0,sizeof(T))
SCALAR(bool,bool) SCALAR(char,char) SCALAR(schar,schar) SCALAR(uchar,uchar) SCALAR(short,short) SCALAR(ushort_,ushort_) SCALAR(int,int) SCALAR(uint_,uint_)
SCALAR(long,long) SCALAR(ulong_,ulong_) SCALAR(llong,llong) SCALAR(ullong,ullong) SCALAR(float,float) SCALAR(double,double) SCALAR(wchar_t,wchar_t)
#define PAIR(A,B,t) typedef pair<A,B> t; PLAIN(t,t,O(t,first),O(t,second))
PAIR(char,int,pair_ci) PAIR(int,char,pair_ic) PAIR(double,char,pair_dc) PAIR(char,double,pair_cd) PAIR(short,int,pair_si) PAIR(int,int,pair_ii) PAIR(char,char,pair_cc) PAIR(llong,short,pair_ls)
PAIR(bool,short,pair_bs)
typedef tuple<1,char> tuple_1c; typedef tuple<3,short> tuple_3s; typedef tuple<4,int> tuple_4i; typedef tuple<2,double> tuple_2d; typedef tuple<4,float> tuple_4f; typedef tuple<8,char> tuple_8c;
PLAIN(tuple_1c,tuple_1c,0,1) PLAIN(tuple_3s,tuple_3s,0,2,2,2,4,2) PLAIN(tuple_4i,tuple_4i,0,4,4,4,8,4,12,4) PLAIN(tuple_2d,tuple_2d,0,8,8,8) PLAIN(tuple_4f,tuple_4f,0,4,4,4,8,4,12,4)
PLAIN(tuple_8c,tuple_8c,0,1,1,1,2,1,3,1,4,1,5,1,6,1,7,1)
typedef array<int,3> array_3i; typedef array<char,5> array_5c; typedef array<double,2> array_2d; typedef array<short,4> array_4s;
PLAIN(array_3i,array_3i,0,4,4,4,8,4) PLAIN(array_5c,array_5c,0,1,1,1,2,1,3,1,4,1) PLAIN(array_2d,array_2d,0,8,8,8) PLAIN(array_4s,array_4s,0,2,2,2,4,2,6,2)
typedef bitset<1> bitset_1; typedef bitset<32> bitset_32; typedef bitset<33> bitset_33; typedef bitset<64> bitset_64; typedef bitset<100> bitset_100;
PLAIN(bitset_1,bitset_1,0,4) PLAIN(bitset_32,bitset_32,0,4) PLAIN(bitset_33,bitset_33,0,4,4,4) PLAIN(bitset_64,bitset_64,0,4,4,4) PLAIN(bitset_100,bitset_100,0,4,4,4,8,4,12,4)
typedef matrix<2,2,float> matrix_22f; PLAIN(matrix_22f,matrix_22f,0,4,4,4,8,4,12,4)
typedef matrix<3,2,int> matrix_32i; PLAIN(matrix_32i,matrix_32i,0,4,4,4,8,4,12,4,16,4,20,4)
typedef chrono::seconds seconds_; typedef chrono::hours hours_; typedef chrono::nanoseconds nanoseconds_;
PLAIN(seconds_,seconds_,0,8) PLAIN(hours_,hours_,0,sizeof(chrono::hours)) PLAIN(nanoseconds_,nanoseconds_,0,sizeof(chrono::nanoseconds))
typedef chrono::system_clock::time_point time_point_; PLAIN(time_point_,time_point_,0,8)
typedef chrono::hrtime_t hrtime_; PLAIN(hrtime_,hrtime_,O(chrono::hrtime_t,tv_sec),O(chrono::hrtime_t,tv_nsec))
typedef void* pvoid; 
VEC(char,vector<char>,char_,0,1) VEC(short,vector<short>,short_,0,2) VEC(int,vector<int>,int_,0,4) RTVEC(double,vector<double>,double_,0,8) WR(vector<double>,vec_double_,"vec:double_","") VEC(wchar_t,vector<wchar_t>,wc_,0,4)
RTVEC(pair_ic,vector<pair_ic>,vpic,O(pair_ic,first),O(pair_ic,second)) VEC(tuple_3s,vector<tuple_3s>,vt3s,0,2,2,2,4,2)
typedef map<int,int> map_ii_; typedef multimap<int,int> mmap_ii_;
RTVEC(pair_ii,map_ii_,map_ii,O(pair_ii,first),O(pair_ii,second)) RTVEC(pair_ii,mmap_ii_,mmap_ii,O(pair_ii,first),O(pair_ii,second))
RTVEC(int,set<int>,set_i,0,4) RTVEC(short,multiset<short>,mset_s,0,2) RTVEC(double,list<double>,list_d,0,8)
ALL(memblock,memblock,"memblock","","")
extern "C" const unsigned F_byte[] __attribute__((used)) = { 0, 1 };
extern "C" const unsigned Z_byte __attribute__((used)) = 1;
ALL(string,string,"string","","")
PROBE (rt_memlink, "out:rt cmemlink memlink wbuf:4 n q", (rt* r, const cmemlink& v, memlink& w, void* b, size_t n, size_t p), roundtrip (r, reinterpret_cast<const memlink&>(v), w, b, n, p))
PROBE (rd_memlink, "istream memlink", (istream& is, memlink& w), is >> w)
PROBE (wr_cmemlink, "ostream cmemlink", (ostream& os, const cmemlink& v), os << v)
