// What the types promise: const objects give read access only, owners are not copied, lossy and
// surprising conversions are not implicit, exceptions are caught by their documented bases.
#include <ustl.h>
#include <ustl/bktrace.h>
using namespace ustl;
namespace w {
template <typename...> struct make_void { typedef void type; };
template <typename... T> using void_t = typename make_void<T...>::type;
template <typename T> T&& val (void) noexcept;
template <typename A, typename B> struct same { enum { value = false }; };
template <typename A> struct same<A,A> { enum { value = true }; };
template <typename F, typename T, typename = void> struct conv { enum { value = false }; };
template <typename T> void take (T);
template <typename F, typename T> struct conv<F,T,void_t<decltype(take<T>(val<F>()))>> { enum { value = true }; };
template <typename T, typename A, typename = void> struct ctor { enum { value = false }; };
template <typename T, typename A> struct ctor<T,A,void_t<decltype(T(val<A>()))>> { enum { value = true }; };
template <typename T, typename A, typename = void> struct assign { enum { value = false }; };
template <typename T, typename A> struct assign<T,A,void_t<decltype(val<T>() = val<A>())>> { enum { value = true }; };
template <typename T, typename = void> struct nodel { enum { value = true }; };
template <typename T> struct nodel<T,void_t<decltype(delete val<T>())>> { enum { value = false }; };
}
#define IS(what, ...)	static_assert (__VA_ARGS__, what)
#define YES(T, F, what)	static_assert (w::conv<F,T>::value, what)
#define NO(T, F, what)	static_assert (!w::conv<F,T>::value, what)
#define SAME(what, ...) static_assert (w::same<__VA_ARGS__>::value, what)
#define OPCHECK(name, expr) template <typename T, typename = void> struct can_##name { enum { value = false }; }; template <typename T> struct can_##name<T,w::void_t<decltype(expr)>> { enum { value = true }; };
#define V w::val<T>()
OPCHECK (push_back, V.push_back (*V.begin()))
OPCHECK (assign_elt, V[0] = V[0])
OPCHECK (assign_at, V.at(0) = V.at(0))
OPCHECK (assign_deref, *V = *V)
OPCHECK (assign_begin, *V.begin() = *V.begin())
OPCHECK (assign_end, *V.end() = *V.end())
OPCHECK (assign_rbegin, *V.rbegin() = *V.rbegin())
OPCHECK (assign_front, V.front() = V.front())
OPCHECK (assign_back, V.back() = V.back())
OPCHECK (assign_top, V.top() = V.top())
OPCHECK (assign_data, *V.data() = *V.data())
OPCHECK (assign_find, *V.find (*V.begin()) = *V.begin())
OPCHECK (assign_second, V.find (V.begin()->first)->second = V.begin()->second)
OPCHECK (resize, V.resize (1))
OPCHECK (clear, V.clear())
OPCHECK (pop_back, V.pop_back())
OPCHECK (push, V.push (V.top()))
OPCHECK (pop, V.pop())
OPCHECK (erase, V.erase (V.begin()))
OPCHECK (insert, V.insert (V.begin(), *V.begin()))
OPCHECK (swap, V.swap (V))
OPCHECK (reserve, V.reserve (1))
OPCHECK (shrink, V.shrink_to_fit())
OPCHECK (sort, V.sort())
OPCHECK (reset, V.reset())
OPCHECK (release, V.release())
OPCHECK (manage, V.manage (V))
OPCHECK (flip, V.flip())
OPCHECK (set, V.set (1))
OPCHECK (addassign, V += 1)
OPCHECK (store, V.store (1))
OPCHECK (inc, ++V)
OPCHECK (sub, V[0])
OPCHECK (arrow, V->m)
OPCHECK (plus, V + 1)
#undef V
#define MUT(T, op, what) static_assert (can_##op<T&>::value, what ": possible on a variable"); static_assert (!can_##op<const T&>::value, what ": impossible on a const object")

#define RANGE(T, n, E) MUT (T, assign_begin, "write through " n "::begin"); MUT (T, assign_end, "write through " n "::end"); \
    SAME (n "::value_type", T::value_type, E); SAME (n "::const begin reads", decltype(*w::val<const T&>().begin()), add_const_t<E>&); SAME (n "::begin writes", decltype(*w::val<T&>().begin()), E&); \
    SAME (n "::size", decltype(w::val<const T&>().size()), T::size_type); IS (n "::size_type is unsigned", T::size_type(-1) > T::size_type(0)); \
    YES (T::const_iterator, T::iterator, n ": iterator converts to const_iterator"); NO (T::iterator, T::const_iterator, n ": const_iterator does not convert to iterator")
#define RRANGE(T, n, E) MUT (T, assign_rbegin, "write through " n "::rbegin"); SAME (n "::rbegin", decltype(*w::val<T&>().rbegin()), E&); SAME (n "::rbegin const", decltype(*w::val<const T&>().rbegin()), add_const_t<E>&); \
    NO (T::reverse_iterator, T::const_reverse_iterator, n ": const_reverse_iterator does not convert to reverse_iterator")
#define INDEXED(T, n, E) MUT (T, assign_elt, "write through " n "::operator[]"); SAME (n "::operator[]", decltype(w::val<T&>()[0]), E&); SAME (n "::operator[] const", decltype(w::val<const T&>()[0]), add_const_t<E>&)
#define AT(T, n, E) MUT (T, assign_at, "write through " n "::at"); MUT (T, assign_front, "write through " n "::front"); MUT (T, assign_back, "write through " n "::back")
#define GROW(T, n) MUT (T, resize, n "::resize"); MUT (T, clear, n "::clear"); MUT (T, push_back, n "::push_back"); MUT (T, pop_back, n "::pop_back"); MUT (T, erase, n "::erase"); MUT (T, insert, n "::insert"); MUT (T, swap, n "::swap"); MUT (T, reserve, n "::reserve")
typedef vector<int> Vi; typedef vector<const char*> Vp; typedef list<int> Li; typedef set<int> Si; typedef multiset<int> Ms; typedef map<int,char> Mp; typedef multimap<int,char> Mm; typedef pair<int,char> P; typedef array<int,3> A; typedef tuple<3,int> T; typedef matrix<2,3,int> X;
#define CRANGE(T, n, E) SAME (n "::cbegin", decltype(*w::val<T&>().cbegin()), add_const_t<E>&); SAME (n "::cend", decltype(*w::val<T&>().cend()), add_const_t<E>&)
CRANGE (Vi, "vector", int); CRANGE (Li, "list", int); CRANGE (string, "string", char); CRANGE (Si, "set", int); CRANGE (Mp, "map", P);
RANGE (Vi, "vector", int); RRANGE (Vi, "vector", int); INDEXED (Vi, "vector", int); AT (Vi, "vector", int); GROW (Vi, "vector"); MUT (Vi, assign_data, "write through vector::data");
RANGE (Vp, "vector<const char*>", const char*); RRANGE (Vp, "vector<const char*>", const char*); INDEXED (Vp, "vector<const char*>", const char*);
RANGE (Li, "list", int); RRANGE (Li, "list", int); MUT (Li, push_back, "list::push_back"); MUT (Li, assign_front, "list::front"); MUT (Li, assign_back, "list::back"); MUT (Li, sort, "list::sort"); MUT (Li, clear, "list::clear");
RANGE (string, "string", char); RRANGE (string, "string", char); INDEXED (string, "string", char); AT (string, "string", char); MUT (string, resize, "string::resize"); MUT (string, clear, "string::clear"); MUT (string, push_back, "string::push_back"); MUT (string, pop_back, "string::pop_back"); MUT (string, swap, "string::swap");
RANGE (A, "array", int); INDEXED (A, "array", int);
RANGE (T, "tuple", int); INDEXED (T, "tuple", int); MUT (A, assign_at, "write through array::at"); MUT (T, assign_at, "write through tuple::at");
RANGE (memlink, "memlink", char); RANGE (memblock, "memblock", char); MUT (memblock, resize, "memblock::resize"); MUT (memblock, clear, "memblock::clear"); MUT (memblock, reserve, "memblock::reserve"); MUT (memblock, swap, "memblock::swap");
MUT (Si, clear, "set::clear"); MUT (Mp, clear, "map::clear"); MUT (Mp, assign_second, "map element of a"); MUT (Mm, clear, "multimap::clear"); MUT (Ms, clear, "multiset::clear");
IS ("map::operator[] needs a variable", can_sub<Mp&>::value);
IS ("map::at const reads", w::same<decltype(w::val<const Mp&>().at(0)), const char&>::value); IS ("map::at writes", w::same<decltype(w::val<Mp&>().at(0)), char&>::value);
IS ("a cmemlink is read only", !can_assign_begin<cmemlink&>::value && !can_assign_data<cmemlink&>::value && !can_assign_end<cmemlink&>::value);
IS ("an istream is a read only view", !can_assign_begin<istream&>::value && !can_assign_begin<istringstream&>::value);
MUT (stack<int>, assign_top, "stack::top"); MUT (stack<int>, push, "stack::push"); MUT (stack<int>, pop, "stack::pop");
MUT (queue<int>, assign_front, "queue::front"); MUT (queue<int>, pop, "queue::pop");
IS ("the top of a priority_queue is read only", !can_assign_top<priority_queue<int>&>::value); MUT (priority_queue<int>, pop, "priority_queue::pop");
MUT (bitset<33>, flip, "bitset::flip"); MUT (bitset<33>, set, "bitset::set");

// views of memory: const memory stays const
NO (memlink, const cmemlink&, "a read only view does not turn into a writable one"); NO (memlink, cmemlink, "a read only temporary does not turn into a writable one"); NO (memblock, const cmemlink&, "a view is not copied by accident"); NO (ostream, const cmemlink&, "const memory is not output");
NO (memblock, unsigned long, "a number is not a memblock"); YES (cmemlink, const memlink&, "a writable view reads"); YES (const cmemlink&, const string&, "a string is a view of bytes");
IS ("no writable link to const memory", !w::conv<const char*, memlink::pointer>::value);

// owners
#define OWNER(T, n) IS (n " is not copied", !w::ctor<T,const T&>::value && !w::ctor<T,T&>::value); IS (n " is not copy assigned", !w::assign<T&,const T&>::value && !w::assign<T&,T&>::value)
struct B { int m; virtual ~B (void) {} }; struct D : B { }; struct Other { };
OWNER (unique_ptr<int>, "unique_ptr"); OWNER (unique_ptr<int[]>, "unique_ptr of array");
#define MOVES(T, n) IS (n " is moved", w::ctor<T,T&&>::value && w::assign<T&,T&&>::value)
MOVES (unique_ptr<int>, "unique_ptr"); MOVES (shared_ptr<int>, "shared_ptr"); MOVES (Vi, "vector"); MOVES (string, "string"); MOVES (Mp, "map"); MOVES (Si, "set"); MOVES (Li, "list");
NO (unique_ptr<int>, int*, "a pointer is not adopted by unique_ptr by accident"); NO (shared_ptr<int>, int*, "a pointer is not adopted by shared_ptr by accident"); NO (auto_ptr<int>, int*, "a pointer is not adopted by auto_ptr by accident");
NO (int*, unique_ptr<int>&, "a unique_ptr does not leak its pointer by accident"); NO (int*, shared_ptr<int>&, "a shared_ptr does not leak its pointer by accident"); NO (int, unique_ptr<int>&, "a unique_ptr is not a number"); NO (int, shared_ptr<int>&, "a shared_ptr is not a number");
IS ("unique_ptr to Other does not take an int", !w::ctor<unique_ptr<Other>,int*>::value && !w::assign<unique_ptr<Other>&,unique_ptr<int>&&>::value); IS ("shared_ptr to Other does not take an int", !w::ctor<shared_ptr<Other>,int*>::value && !w::assign<shared_ptr<Other>&,shared_ptr<int>&>::value);
IS ("unique_ptr::release needs a variable", can_release<unique_ptr<int>&>::value && !can_release<const unique_ptr<int>&>::value); IS ("unique_ptr::reset needs a variable", can_reset<unique_ptr<int>&>::value && !can_reset<const unique_ptr<int>&>::value); IS ("shared_ptr::reset needs a variable", can_reset<shared_ptr<int>&>::value && !can_reset<const shared_ptr<int>&>::value);
IS ("unique_ptr gives the object", w::same<decltype(*w::val<unique_ptr<int>&>()), int&>::value && w::same<decltype(w::val<unique_ptr<int>&>().get()), int*>::value); IS ("unique_ptr to const gives a const object", w::same<decltype(*w::val<unique_ptr<const int>&>()), const int&>::value); IS ("shared_ptr to const gives a const object", w::same<decltype(*w::val<shared_ptr<const int>&>()), const int&>::value);
IS ("arrow reaches members", can_arrow<unique_ptr<B>&>::value && can_arrow<shared_ptr<B>&>::value && can_arrow<auto_ptr<B>&>::value);
IS ("a unique_ptr has no arithmetic", !can_inc<unique_ptr<int>&>::value && !can_plus<unique_ptr<int>&>::value); IS ("a shared_ptr has no arithmetic", !can_inc<shared_ptr<int>&>::value && !can_plus<shared_ptr<int>&>::value);
OWNER (atomic<int>, "atomic"); OWNER (atomic_flag, "atomic_flag"); MUT (atomic<int>, store, "atomic::store"); MUT (atomic<int>, inc, "atomic increment"); MUT (atomic<int>, addassign, "atomic addition");
OWNER (fstream, "fstream");
typedef decltype(make_scope_exit (w::val<void(*&&)(void)>())) SE; IS ("scope_exit is not copied", !w::ctor<SE,const SE&>::value && !w::ctor<SE,SE&>::value && !w::assign<SE&,const SE&>::value);
typedef unique_resource<int,void(*)(int)> UR; IS ("unique_resource is not copied", !w::ctor<UR,const UR&>::value && !w::ctor<UR,UR&>::value && !w::assign<UR&,const UR&>::value);

// sizes are not containers
NO (Li, unsigned long, "a number is not a list"); NO (Mp, unsigned long, "a number is not a map"); NO (Mm, unsigned long, "a number is not a multimap"); NO (Ms, unsigned long, "a number is not a multiset"); NO (A, int, "a number is not an array"); 
NO (string, Vi&, "a vector is not a string"); YES (string, const char*, "a literal is a string");
NO (Vi, const Vp&, "vectors of other elements do not convert"); NO (Si, const set<long>&, "sets of other elements do not convert");
NO (reverse_iterator<const int*>, const int*, "a pointer is not a reverse iterator"); NO (move_iterator<int*>, int*, "a pointer is not a move iterator");

// exceptions
#define DERIVES(E, P) IS (#E " is caught as " #P, w::conv<E*,P*>::value); IS (#E " is a polymorphic class", __is_polymorphic(E) && __has_virtual_destructor(E))
DERIVES (error_message, exception); DERIVES (logic_error, error_message); DERIVES (domain_error, logic_error); DERIVES (invalid_argument, logic_error); DERIVES (length_error, logic_error); DERIVES (out_of_range, logic_error); DERIVES (runtime_error, error_message); DERIVES (range_error, runtime_error); DERIVES (overflow_error, runtime_error); DERIVES (underflow_error, runtime_error); DERIVES (system_error, runtime_error); DERIVES (file_exception, system_error); DERIVES (stream_bounds_exception, system_error); DERIVES (bad_cast, exception); DERIVES (bad_typeid, exception); DERIVES (bad_alloc, exception);
#define APART(E, P) IS (#E " is not caught as " #P, !w::conv<E*,P*>::value)
APART (logic_error, runtime_error); APART (runtime_error, logic_error); APART (bad_alloc, runtime_error); APART (out_of_range, runtime_error); APART (system_error, logic_error); APART (file_exception, stream_bounds_exception); APART (stream_bounds_exception, file_exception);
IS ("exception::what does not throw", noexcept (w::val<const exception&>().what())); IS ("exception::what is text", w::same<decltype(w::val<const exception&>().what()), const char*>::value); IS ("exceptions are copied to be thrown", w::ctor<system_error,const system_error&>::value && w::ctor<out_of_range,const out_of_range&>::value && w::ctor<file_exception,const file_exception&>::value && w::ctor<stream_bounds_exception,const stream_bounds_exception&>::value && w::ctor<bad_alloc,const bad_alloc&>::value);
IS ("throwing a bad_alloc does not allocate by throwing", noexcept (bad_alloc (w::val<size_t>())) && noexcept (bad_alloc (w::val<const bad_alloc&>())));

// errors
YES (error_code, errc, "errc makes an error_code"); YES (error_condition, errc, "errc makes an error_condition"); NO (error_code, int, "a number is not an error_code"); NO (error_condition, int, "a number is not an error_condition"); NO (int, error_code&, "an error_code is not a number"); NO (int, error_condition&, "an error_condition is not a number"); NO (error_code, memory_order, "an unrelated enumeration is not an error_code"); NO (int, errc, "errc is not a number");

// time
namespace c = ustl::chrono;
YES (c::nanoseconds, c::seconds, "seconds are exact in nanoseconds"); YES (c::milliseconds, c::minutes, "minutes are exact in milliseconds"); YES (c::minutes, c::hours, "hours are exact in minutes"); YES (c::hours, c::weeks, "weeks are exact in hours");
NO (c::seconds, c::milliseconds, "milliseconds are not silently truncated to seconds"); NO (c::milliseconds, c::nanoseconds, "nanoseconds are not silently truncated to milliseconds"); NO (c::hours, c::minutes, "minutes are not silently truncated to hours"); NO (c::weeks, c::days, "days are not silently truncated to weeks");
typedef c::duration<double> Ds; typedef c::duration<double,milli> Dms; YES (Ds, c::milliseconds, "milliseconds convert to floating point seconds"); YES (Ds, Dms, "floating point milliseconds convert to floating point seconds");
NO (c::seconds, int, "a number is not a duration"); NO (c::seconds, double, "a floating point number is not a duration"); NO (int, c::seconds, "a duration is not a number"); IS ("an integer duration is not made from a floating point number", !w::ctor<c::seconds,double>::value && !w::ctor<c::nanoseconds,float>::value); IS ("a duration is made from a count on request", w::ctor<c::seconds,int>::value && w::ctor<Ds,double>::value);
typedef c::system_clock SC; typedef c::steady_clock TC; NO (SC::time_point, TC::time_point, "points of different clocks do not mix"); NO (TC::time_point, SC::time_point, "points of different clocks do not mix"); NO (SC::time_point, SC::duration, "a duration is not a point in time"); NO (SC::duration, SC::time_point, "a point in time is not a duration");
IS ("the steady clock is steady", TC::is_steady); IS ("the system clock is not", !SC::is_steady); IS ("the difference of points is a duration", w::same<decltype(w::val<SC::time_point&>() - w::val<SC::time_point&>()), SC::duration>::value);

// what swaps, moves and ends does not throw
#define NX(e, n) IS (n, noexcept (e))
NX (w::val<memblock&>().swap (w::val<memblock&>()), "memblock::swap does not throw"); NX (w::val<memblock&>().clear(), "memblock::clear does not throw"); NX (w::val<memblock&>().unlink(), "memblock::unlink does not throw"); NX (w::val<memblock&>().deallocate(), "memblock::deallocate does not throw"); NX (string(), "an empty string does not throw"); NX (w::val<Vi&>().~Vi(), "destroying a vector does not throw"); NX (w::val<string&>().~string(), "destroying a string does not throw"); NX (w::val<unique_ptr<int>&>().~unique_ptr<int>(), "destroying a unique_ptr does not throw"); NX (w::val<shared_ptr<int>&>().~shared_ptr<int>(), "destroying a shared_ptr does not throw"); NX (w::val<Mp&>().~Mp(), "destroying a map does not throw");
NX (w::val<const string&>().find ('a'), "string::find does not throw"); NX (w::val<const string&>().rfind ('a'), "string::rfind does not throw");
// virtual interfaces
IS ("cmemlink is a base class", __is_polymorphic(cmemlink) && __has_virtual_destructor(cmemlink)); IS ("streams are base classes", __has_virtual_destructor(istream) && __has_virtual_destructor(ostream)); 
// chained operations give the object back
#define SELF(T, e, n) IS (n, w::conv<decltype(e), const T&>::value)
SELF (string, w::val<string&>() += "a", "string += chains"); SELF (string, w::val<string&>() = "a", "string = chains"); SELF (Vi, w::val<Vi&>() = w::val<const Vi&>(), "vector = chains"); SELF (ostringstream, w::val<ostringstream&>() << 1, "text output chains"); SELF (ostream, w::val<ostream&>() << 1, "output chains"); SELF (istream, w::val<istream&>() >> w::val<int&>(), "input chains"); SELF (istringstream, w::val<istringstream&>() >> w::val<int&>(), "text input chains"); SELF (T, w::val<T&>() += 1, "tuple += chains");
