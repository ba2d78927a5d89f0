#include <ustl.h>
#include <ustl/ulaalgo.h>
using namespace ustl;
struct C {
    int a; C* p;
    C (void) : a(0), p(0) {} explicit C (int x) : a(x), p(0) {} C (const C& c) : a(c.a), p(0) {} ~C (void) {} C& operator= (const C& c) { a = c.a; return *this; }
    bool operator== (const C& c) const { return a == c.a; } bool operator< (const C& c) const { return a < c.a; } bool operator!= (const C& c) const { return a != c.a; }
    void read (istream& is) { is >> a; } void write (ostream& os) const { os << a; } void text_write (ostringstream& os) const { os << a; } streamsize stream_size (void) const { return stream_size_of (a); }
};
#define ONE(T, U) \
template class ustl::vector<T >; template class ustl::set<T >; template class ustl::multiset<T >; template class ustl::list<T >;\
template class ustl::stack<T >; template class ustl::queue<T >; template class ustl::priority_queue<T >;\
template class ustl::map<T,U >; template class ustl::map<U,T >; template class ustl::multimap<T,U >; template class ustl::multimap<U,T >;\
template class ustl::unique_ptr<T >; template class ustl::auto_ptr<T >; template class ustl::shared_ptr<T >; template struct ustl::pair<T,U >; template struct ustl::pair<U,T >;\
template class ustl::reverse_iterator<T*>; template class ustl::reverse_iterator<const T*>; template class ustl::insert_iterator<vector<T > >; template class ustl::back_insert_iterator<vector<T > >; template class ustl::front_insert_iterator<list<T > >; template class ustl::move_iterator<T*>;
#define NUM(T) template class ustl::array<T,3>; template class ustl::tuple<3,T >; template class ustl::matrix<3,2,T >;
ONE(int,long) ONE(C,int) ONE(string,int)
NUM(int) NUM(unsigned char) NUM(float) NUM(double) NUM(long)
template class ustl::bitset<33>; template class ustl::bitset<8>;template class ustl::matrix<4,4,float>; template class ustl::tuple<4,float>; template class ustl::tuple<2,float>; template class ustl::tuple<4,int>; template class ustl::tuple<8,uint8_t>;
template class ustl::atomic<int>; template class ustl::atomic<long>; 
typedef ustl::tm::tl::Seq<int,char>::Type TL;
