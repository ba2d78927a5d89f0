#include <ustl.h>
#include <ustl/ulaalgo.h>
using namespace ustl;
#define U(n, ...) void u_##n (void) { __VA_ARGS__; }
template <typename C> void value (C& a, const C& b) { C c (b); a = b; a = move (c); C d (move (a)); swap (a, d); a.swap (d); C e; e = C(); if (a == b) a = d; }
#define VAL(n, ...) void v_##n (__VA_ARGS__& a, const __VA_ARGS__& b) { value (a, b); }
VAL(vector, vector<int>) VAL(vectors, vector<string>) VAL(list, list<int>) VAL(set, set<int>) VAL(multiset, multiset<int>) VAL(map, map<int,string>) VAL(multimap, multimap<int,int>)
VAL(string, string) VAL(memblock, memblock) VAL(stack, stack<int>) VAL(queue, queue<int>) 
void v_pq (priority_queue<int>& a, const priority_queue<int>& b) { priority_queue<int> c (b); a = b; a = move (c); swap (a, c); a.swap (c); priority_queue<int> d (move (a)); }
void v_bitset (bitset<40>& a, const bitset<40>& b) { bitset<40> c (b); a = b; swap (a, c); if (a == b) a = c; }
VAL(tuple, tuple<3,int>) VAL(array, array<int,3>) VAL(pair, pair<int,string>) 
void v_matrix (matrix<3,4,int>& a, const matrix<3,4,int>& b) { matrix<3,4,int> c (b); a = b; swap (a, c); a.swap(c); if (a==b) a = c; }
void v_cm (cmemlink& a, const cmemlink& b) { cmemlink c (b); a = b; a.swap (c); swap (a, c); if (a == b) a = c; }
void v_m (memlink& a, const memlink& b) { memlink c (b); a = b; a.swap (c); swap (a, c); if (a == b) a = c; }
void v_is (istream& a, const istream& b) { istream c (b); a.swap (c); swap (a, c); }
void v_os (ostream& a) { ostream c; a.swap (c); swap (a, c); }
void v_oss (ostringstream& a, ostringstream& b) { ostringstream c (b.str()); a.swap (c); swap (a, c); }
void v_iss (istringstream& a, istringstream& b) { a.swap (b); swap (a, b); }
void v_up (unique_ptr<int>& a, unique_ptr<int>& b) { a = move (b); unique_ptr<int> c (move (a)); swap (a, c); a.swap (c); a = nullptr; if (a == c || a < b || a != b) a.reset(); }
void v_sp (shared_ptr<int>& a, shared_ptr<int>& b) { a = b; a = move (b); shared_ptr<int> c (a); swap (a, c); a.swap (c); if (a == c || a < b || a != b) a.reset(); }
