// type lists, selection and the metaprogramming macros against their definitions
#include <ustl.h>
#include <ustl/typelist.h>
#include <ustl/metamac.h>
using ustl::tm::Typelist; using ustl::tm::NullType; namespace t = ustl::tm::tl;
struct A {}; struct B : A {}; struct C : B {}; struct O {};
template <typename X, typename Y> struct same { enum { value = false }; }; template <typename X> struct same<X,X> { enum { value = true }; };
#define S(what, x, ...) static_assert (same<x,__VA_ARGS__>::value, what)
#define Q(...) t::Seq<__VA_ARGS__>::Type
#define TL(h, ...) Typelist<h,__VA_ARGS__>
typedef Q(int) L1; typedef Q(int,char) L2; typedef Q(int,char,int,long,char) L5; typedef Q(char,signed char,unsigned char,short,int,long,float,double,bool) L9;
typedef Typelist<int,NullType> M1; typedef Typelist<int,Typelist<char,NullType> > M2; typedef Typelist<int,Typelist<char,Typelist<int,Typelist<long,Typelist<char,NullType> > > > > M5;
static_assert (same<L1,M1>::value, "Seq of one"); static_assert (same<L2,M2>::value, "Seq of two"); static_assert (same<L5,M5>::value, "Seq of five");
static_assert (t::Length<NullType>::value == 0, "Length 0"); static_assert (t::Length<L1>::value == 1, "Length 1"); static_assert (t::Length<L5>::value == 5, "Length 5"); static_assert (t::Length<L9>::value == 9, "Length 9");
#define AT(i, T) static_assert (same<t::TypeAt<L9,i>::Result,T>::value, "TypeAt " #i); static_assert (same<t::TypeAtNonStrict<L9,i>::Result,T>::value, "TypeAtNonStrict " #i); static_assert (int(t::IndexOf<L9,T>::value) == i, "IndexOf " #T)
AT (0, char); AT (1, signed char); AT (2, unsigned char); AT (3, short); AT (4, int); AT (5, long); AT (6, float); AT (7, double); AT (8, bool);
static_assert (same<t::TypeAtNonStrict<L9,9>::Result,NullType>::value && same<t::TypeAtNonStrict<L2,7,float>::Result,float>::value, "TypeAtNonStrict past the end");
static_assert (int(t::IndexOf<L9,O>::value) == -1 && int(t::IndexOf<NullType,O>::value) == -1 && int(t::IndexOf<L5,char>::value) == 1, "IndexOf absent or first");
static_assert (same<t::Append<L2,long>::Result,Q(int,char,long)>::value, "Append a type"); static_assert (same<t::Append<L2,L2>::Result,Q(int,char,int,char)>::value, "Append a list"); static_assert (same<t::Append<NullType,L2>::Result,L2>::value && same<t::Append<NullType,int>::Result,L1>::value && same<t::Append<L2,NullType>::Result,L2>::value && same<t::Append<NullType,NullType>::Result,NullType>::value, "Append to or of nothing");
static_assert (same<t::Erase<L5,char>::Result,Q(int,int,long,char)>::value, "Erase the first"); static_assert (same<t::Erase<L5,O>::Result,L5>::value, "Erase absent"); static_assert (same<t::Erase<L1,int>::Result,NullType>::value, "Erase the only");
static_assert (same<t::EraseAll<L5,char>::Result,Q(int,int,long)>::value, "EraseAll"); static_assert (same<t::EraseAll<L5,int>::Result,Q(char,long,char)>::value, "EraseAll head"); static_assert (same<t::EraseAll<L5,O>::Result,L5>::value, "EraseAll absent");
static_assert (same<t::NoDuplicates<L5>::Result,Q(int,char,long)>::value, "NoDuplicates"); static_assert (same<t::NoDuplicates<L9>::Result,L9>::value, "NoDuplicates of distinct"); static_assert (same<t::NoDuplicates<Q(int,int,int,int)>::Result,L1>::value, "NoDuplicates of equal");
static_assert (same<t::Replace<L5,char,O>::Result,Q(int,O,int,long,char)>::value, "Replace the first"); static_assert (same<t::Replace<L5,O,A>::Result,L5>::value, "Replace absent");
static_assert (same<t::ReplaceAll<L5,char,O>::Result,Q(int,O,int,long,O)>::value, "ReplaceAll"); static_assert (same<t::ReplaceAll<L5,int,O>::Result,Q(O,char,O,long,char)>::value, "ReplaceAll head");
static_assert (same<t::Reverse<L5>::Result,Q(char,long,int,char,int)>::value && same<t::Reverse<L1>::Result,L1>::value && same<t::Reverse<NullType>::Result,NullType>::value && same<t::Reverse<L9>::Result,Q(bool,double,float,long,int,short,unsigned char,signed char,char)>::value, "Reverse");
static_assert (same<t::MostDerived<Q(A,B,C,O),A>::Result,C>::value && same<t::MostDerived<Q(A,O),B>::Result,B>::value && same<t::MostDerived<Q(C,B),A>::Result,C>::value && same<t::MostDerived<NullType,A>::Result,A>::value, "MostDerived");
static_assert (same<t::DerivedToFront<Q(A,B,C)>::Result,Q(C,B,A)>::value && same<t::DerivedToFront<Q(C,B,A)>::Result,Q(C,B,A)>::value && same<t::DerivedToFront<Q(B,A,C)>::Result,Q(C,A,B)>::value == false, "DerivedToFront");
static_assert (same<t::DerivedToFront<Q(A,O,C)>::Result,Q(C,O,A)>::value, "DerivedToFront with a stranger");
namespace tm_ = ustl::tm;
static_assert (same<tm_::Select<true,int,char>::Result,int>::value && same<tm_::Select<false,int,char>::Result,char>::value, "Select");
static_assert (tm_::Conversion<int,long>::exists && tm_::Conversion<B*,A*>::exists && !tm_::Conversion<A*,B*>::exists && !tm_::Conversion<O,int>::exists && tm_::Conversion<int,int>::sameType && !tm_::Conversion<int,long>::sameType, "Conversion");
static_assert (tm_::SuperSubclass<A,B>::value && tm_::SuperSubclass<A,C>::value && !tm_::SuperSubclass<B,A>::value && !tm_::SuperSubclass<A,O>::value, "SuperSubclass");
#define ONE(n) +n
#define NAME(n) v##n
enum { r9 = 0 REPEAT (9, ONE), r3 = 0 REPEAT (3, ONE), l4 = LIST (4, ITSELF, *), l9 = LIST (9, ITSELF, *) };
static_assert (r9 == 45 && r3 == 6 && l4 == 24 && l9 == 362880, "REPEAT and LIST");
constexpr int sum (COMMA_LIST (4, int NAME)) { return v1 * 1000 + v2 * 100 + v3 * 10 + v4; } static_assert (sum (COMMA_LIST (4, ITSELF)) == 1234, "COMMA_LIST");
static_assert (PASTE (1, 2) == 12, "PASTE");
static_assert (tm_::IsSameType<int,int>::value && !tm_::IsSameType<int,const int>::value, "IsSameType"); static_assert (tm_::SuperSubclass<A,A>::value && !tm_::SuperSubclassStrict<A,A>::value && tm_::SuperSubclassStrict<A,C>::value, "SuperSubclassStrict"); static_assert (tm_::Int2Type<3>::value == 3 && !same<tm_::Int2Type<3>,tm_::Int2Type<4> >::value, "Int2Type");
