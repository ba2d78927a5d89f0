#include "spec.h"
typedef atomic<int> AI; typedef atomic<unsigned long> AU;
extern "C" const unsigned long Z_AI = sizeof(AI), Z_AU = sizeof(AU), Z_int = sizeof(int), Z_ulong = sizeof(unsigned long), Z_AF = sizeof(atomic_flag);
enum { mo_relaxed = 2, mo_acquire = 4, mo_release = 5, mo_acq_rel = 6, mo_seq_cst = 7 };	// as the compiler numbers them
#define ONE(p, o)	REQUIRE (atomics_() == 1); REQUIRE (plain_(p) == 0); REQUIRE (order_() == o)
// T op (T v): what it returns, what it leaves
#define OP(T, N, A, name, ret, left) \
    PROBE(atomic_##name##_##N, "cell:" #A " " N##_SPEC, (A* a, T v), T w = WAS_##N(a); T r = a->name (v); REQUIRE (r == (T)(ret)); REQUIRE (PEEK_##N(a) == (T)(left)); ONE(a, mo_seq_cst)) \
    PROBE(atomic_##name##_order_##N, "cell:" #A " " N##_SPEC, (A* a, T v), T w = WAS_##N(a); T r = a->name (v, memory_order_release); REQUIRE (r == (T)(ret)); ONE(a, mo_release))
#define i_SPEC "i32"
#define u_SPEC "n"
#define WAS_i(a) (int)was4_(a)
#define WAS_u(a) was8_(a)
#define PEEK_i(a) (int)peek4_(a)
#define PEEK_u(a) peek8_(a)
#define OPS(T, N, A) \
    OP(T, N, A, exchange, w, v) \
    OP(T, N, A, fetch_add, w, w+v) OP(T, N, A, fetch_sub, w, w-v) OP(T, N, A, fetch_and, w, w&v) OP(T, N, A, fetch_or, w, w|v) OP(T, N, A, fetch_xor, w, w^v) \
    OP(T, N, A, add_fetch, w+v, w+v) OP(T, N, A, sub_fetch, w-v, w-v) OP(T, N, A, and_fetch, w&v, w&v) OP(T, N, A, or_fetch, w|v, w|v) OP(T, N, A, xor_fetch, w^v, w^v) \
    PROBE(atomic_load_##N, "cell:" #A, (const A* a), T r = a->load(); REQUIRE (r == WAS_##N(a)); ONE(a, mo_seq_cst)) \
    PROBE(atomic_load_order_##N, "cell:" #A, (const A* a), T r = a->load (memory_order_acquire); REQUIRE (r == WAS_##N(a)); ONE(a, mo_acquire)) \
    PROBE(atomic_cast_##N, "cell:" #A, (const A* a), T r = *a; REQUIRE (r == WAS_##N(a)); ONE(a, mo_seq_cst)) \
    PROBE(atomic_store_##N, "cell:" #A " " N##_SPEC, (A* a, T v), a->store (v); REQUIRE (PEEK_##N(a) == v); ONE(a, mo_seq_cst)) \
    PROBE(atomic_store_order_##N, "cell:" #A " " N##_SPEC, (A* a, T v), a->store (v, memory_order_release); REQUIRE (PEEK_##N(a) == v); ONE(a, mo_release))
#define ASG(T, N, A, name, op, left) \
    PROBE(atomic_##name##_##N, "cell:" #A " " N##_SPEC, (A* a, T v), T w = WAS_##N(a); A& r = (*a op v); REQUIRE (&r == a); REQUIRE (PEEK_##N(a) == (T)(left)); ONE(a, mo_seq_cst))
#define ASGS(T, N, A) \
    ASG(T, N, A, pluseq, +=, w+v) ASG(T, N, A, minuseq, -=, w-v) ASG(T, N, A, andeq, &=, w&v) ASG(T, N, A, oreq, |=, w|v) ASG(T, N, A, xoreq, ^=, w^v) ASG(T, N, A, assign, =, v) \
    PROBE(atomic_preinc_##N, "cell:" #A, (A* a), T w = WAS_##N(a); A& r = ++*a; REQUIRE (&r == a); REQUIRE (PEEK_##N(a) == (T)(w+1)); ONE(a, mo_seq_cst)) \
    PROBE(atomic_predec_##N, "cell:" #A, (A* a), T w = WAS_##N(a); A& r = --*a; REQUIRE (&r == a); REQUIRE (PEEK_##N(a) == (T)(w-1)); ONE(a, mo_seq_cst)) \
    PROBE(atomic_postinc_##N, "cell:" #A, (A* a), T w = WAS_##N(a); T r = (*a)++; REQUIRE (r == w); REQUIRE (PEEK_##N(a) == (T)(w+1)); ONE(a, mo_seq_cst)) \
    PROBE(atomic_postdec_##N, "cell:" #A, (A* a), T w = WAS_##N(a); T r = (*a)--; REQUIRE (r == w); REQUIRE (PEEK_##N(a) == (T)(w-1)); ONE(a, mo_seq_cst)) \
    PROBE(atomic_cas_strong_##N, "cell:" #A " out:" #T " " N##_SPEC, (A* a, T* x, T d), T w = WAS_##N(a); T e = WAS_##N(x); \
	bool r = a->compare_exchange_strong (*x, d, memory_order_acq_rel, memory_order_acquire); REQUIRE (r == (w == e)); \
	REQUIRE (PEEK_##N(a) == (w == e ? d : w)); REQUIRE (PEEK_##N(x) == w); ONE(a, mo_acq_rel)) \
    PROBE(atomic_cas_weak_##N, "cell:" #A " out:" #T " " N##_SPEC, (A* a, T* x, T d), T w = WAS_##N(a); T e = WAS_##N(x); \
	bool r = a->compare_exchange_weak (*x, d, memory_order_acq_rel, memory_order_acquire); REQUIRE (!r || w == e); \
	REQUIRE (PEEK_##N(a) == (r ? d : w)); REQUIRE (PEEK_##N(x) == w); ONE(a, mo_acq_rel)) \
    PROBE(atomic_cas_weak1_##N, "cell:" #A " out:" #T " " N##_SPEC, (A* a, T* x, T d), T w = WAS_##N(a); T e = WAS_##N(x); \
	bool r = a->compare_exchange_weak (*x, d); REQUIRE (!r || w == e); \
	REQUIRE (PEEK_##N(a) == (r ? d : w)); REQUIRE (PEEK_##N(x) == w); ONE(a, mo_seq_cst)) \
    PROBE(atomic_ctor_##N, N##_SPEC, (T v), A a (v); REQUIRE (a.load() == v))
typedef unsigned long ulong;
OPS(int, i, AI) OPS(ulong, u, AU) ASGS(int, i, AI) ASGS(ulong, u, AU)
PROBE(atomic_flag_set, "cell:AF", (atomic_flag* f), uint8_t w = was1_(f); bool r = f->test_and_set(); REQUIRE (r == (w != 0)); REQUIRE (peek1_(f) == 1); ONE(f, mo_seq_cst))
PROBE(atomic_flag_set_order, "cell:AF", (atomic_flag* f), f->test_and_set (memory_order_acquire); ONE(f, mo_acquire))
PROBE(atomic_flag_clear, "cell:AF", (atomic_flag* f), f->clear(); REQUIRE (peek1_(f) == 0); ONE(f, mo_seq_cst))
PROBE(atomic_flag_clear_order, "cell:AF", (atomic_flag* f), f->clear (memory_order_release); ONE(f, mo_release))
PROBE(atomic_fence, "", (), atomic_thread_fence (memory_order_acquire); REQUIRE (atomics_() == 1); REQUIRE (order_() == mo_acquire))
PROBE(atomic_fence_seq, "", (), atomic_thread_fence (memory_order_seq_cst); REQUIRE (atomics_() == 1); REQUIRE (order_() == mo_seq_cst))
PROBE(atomic_kill_dependency, "n", (ulong v), REQUIRE (kill_dependency (v) == v))
