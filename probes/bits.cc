// Bit sets: every operation does to bit n of the result what its name says, and leaves the other bits alone.
#include "spec.h"
#define INL static inline __attribute__((always_inline))
typedef uint32_t u_t;
#define W1(M) M(0)
#define W2(M) M(0) M(1)
#define W3(M) M(0) M(1) M(2)
#define KEEP(i) const u_t o##i = a->begin()[i], p##i = b->begin()[i]; (void) o##i; (void) p##i;
#define SAME_B(i) REQUIRE (b->begin()[i] == p##i);
#define IS(obj, i, ...) REQUIRE ((obj).begin()[i] == u_t (__VA_ARGS__));
#define OP(id, name, I, ...) PROBE(name##_##id, "cell:" #id " in:" #id " i32 i32", (id* a, const id* b, u_t x, u_t y), typedef id t_t; (void) x; (void) y; I(KEEP) __VA_ARGS__; I(SAME_B))
#define RP(i) IS (r, i, p##i)
#define RO(i) IS (r, i, o##i)
#define AP(i) IS (*a, i, p##i)
#define AO(i) IS (*a, i, o##i)
#define AZ(i) IS (*a, i, 0)
#define A1(i) IS (*a, i, ~0u)
#define AN(i) IS (*a, i, ~o##i)
#define RN(i) IS (r, i, ~p##i)
#define Aand(i) IS (*a, i, o##i & p##i)
#define Aor(i) IS (*a, i, o##i | p##i)
#define Axor(i) IS (*a, i, o##i ^ p##i)
#define Rand(i) IS (r, i, o##i & p##i)
#define Ror(i) IS (r, i, o##i | p##i)
#define Rxor(i) IS (r, i, o##i ^ p##i)
#define RX(i) IS (r, i, (i == 0) ? x : 0)
#define POP(i) + size_t (popcount (p##i))
#define ANYW(i) | p##i
#define EQW(i) & (o##i == p##i)
#define BOTH(id, n, I) typedef bitset<n> id; extern "C" const unsigned Z_##id __attribute__((used)) = sizeof(id); extern "C" const unsigned G_##id __attribute__((used)) = 4; \
OP(id, b_make, I, t_t r (x); I(RX)) OP(id, b_zero, I, t_t r; x = 0; I(RX)) OP(id, b_copy, I, t_t r (*b); I(RP)) OP(id, b_assign, I, *a = *b; I(AP)) OP(id, b_size, I, REQUIRE (b->size() == n); REQUIRE (b->capacity() == (n + 31) / 32 * 32); REQUIRE (b->end() - b->begin() == (n + 31) / 32); REQUIRE (a->end() - a->begin() == (n + 31) / 32)) \
OP(id, b_clear, I, a->clear(); I(AZ)) OP(id, b_reset, I, a->reset(); I(AZ)) OP(id, b_setall, I, a->set(); I(A1)) OP(id, b_flipall, I, a->flip(); I(AN)) OP(id, b_not, I, t_t r (~*b); I(RN)) \
OP(id, b_and, I, t_t r (*a & *b); I(Rand) I(AO)) OP(id, b_or, I, t_t r (*a | *b); I(Ror) I(AO)) OP(id, b_xor, I, t_t r (*a ^ *b); I(Rxor) I(AO)) \
OP(id, b_andto, I, const t_t& r = (*a &= *b); REQUIRE (&r == a); I(Aand)) OP(id, b_orto, I, const t_t& r = (*a |= *b); REQUIRE (&r == a); I(Aor)) OP(id, b_xorto, I, const t_t& r = (*a ^= *b); REQUIRE (&r == a); I(Axor)) \
OP(id, b_equal, I, REQUIRE ((*a == *b) == bool (1 I(EQW))); I(AO)) OP(id, b_unequal, I, REQUIRE ((*a != *b) == !bool (1 I(EQW)))) \
OP(id, b_any, I, REQUIRE (b->any() == ((0 I(ANYW)) != 0)); REQUIRE (b->none() == ((0 I(ANYW)) == 0))) OP(id, b_count, I, REQUIRE (b->count() == (0 I(POP)))) OP(id, b_value, I, REQUIRE (b->to_value() == p0); REQUIRE (a->to_value() == o0))
BOTH(bits1, 1, W1) BOTH(bits32, 32, W1) BOTH(bits64, 64, W2) BOTH(bits70, 70, W3) BOTH(bits96, 96, W3)
// a single bit n of word k
#define OTHERS(i) if (i != k) IS (*a, i, o##i);
#define BIT(id, k_, top, I) OP(id, b_test##k_, I, enum { k = k_ }; const u_t j = x & 31, n = 32 * k + j; top (j); const bool v = (p##k_ & (1u << j)) != 0; REQUIRE (b->test (n) == v); REQUIRE ((*b)[n] == v); REQUIRE (b->at (n) == u_t (v))) \
OP(id, b_flip##k_, I, enum { k = k_ }; const u_t j = x & 31, n = 32 * k + j; top (j); a->flip (n); IS (*a, k, o##k_ ^ (1u << j)); I(OTHERS)) \
OP(id, b_set##k_, I, enum { k = k_ }; const u_t j = x & 31, n = 32 * k + j; top (j); a->set (n); IS (*a, k, o##k_ | (1u << j)); I(OTHERS)) \
OP(id, b_unset##k_, I, enum { k = k_ }; const u_t j = x & 31, n = 32 * k + j; top (j); a->reset (n); IS (*a, k, o##k_ & ~(1u << j)); I(OTHERS)) \
OP(id, b_put##k_, I, enum { k = k_ }; const u_t j = x & 31, n = 32 * k + j; top (j); a->set (n, y & 1); IS (*a, k, (y & 1) ? (o##k_ | (1u << j)) : (o##k_ & ~(1u << j))); I(OTHERS))
#define ANYBIT(j) (void) j
#define LOW6(j) ASSUME (j < 6)
BIT(bits32, 0, ANYBIT, W1) BIT(bits64, 0, ANYBIT, W2) BIT(bits64, 1, ANYBIT, W2) BIT(bits70, 1, ANYBIT, W3) BIT(bits70, 2, LOW6, W3) BIT(bits96, 2, ANYBIT, W3)
// bits f to l of word k
#define RANGE(id, k_, f, l, I) OP(id, b_range##f##_##l, I, enum { k = k_ }; const u_t m = ((1u << (l - f)) - 1); x &= m; a->set (f, l, x); IS (*a, k, (o##k_ & ~(m << (f % 32))) | (x << (f % 32))); I(OTHERS); REQUIRE (b->at (f, l) == ((p##k_ >> (f % 32)) & m)))
RANGE(bits32, 0, 0, 8, W1) RANGE(bits32, 0, 3, 4, W1) RANGE(bits32, 0, 24, 31, W1) RANGE(bits64, 0, 8, 16, W2) RANGE(bits64, 1, 32, 33, W2) RANGE(bits64, 1, 34, 40, W2) RANGE(bits70, 1, 33, 63, W3) RANGE(bits70, 2, 64, 70, W3) RANGE(bits96, 2, 70, 90, W3)
// the text of a bit set: the first bit last
#define CH8(M, k) M(k+0) M(k+1) M(k+2) M(k+3) M(k+4) M(k+5) M(k+6) M(k+7)
#define CH32(M, k) CH8(M,k) CH8(M,k+8) CH8(M,k+16) CH8(M,k+24)
#define DIGIT(k) if ((k) < N) { const bool one = (w[(k)/32] & (1u << ((k)%32))) != 0; const char c = p[N-1-(k)]; REQUIRE ((c == '1') == one); REQUIRE ((c == '0') == !one); }
#define TEXT(n, N_) PROBE(b_text##n##_##N_, "n n wbuf:0 buf:1:4", (size_t x, size_t y, char* p, const u_t* w), ASSUME (x == N_); ASSUME (y == n); enum { N = N_ }; string s; s.link (p, N); convert_to_bitstring (w, n, s); CH32(DIGIT,0) CH32(DIGIT,32) CH8(DIGIT,64))
TEXT(1, 1) TEXT(1, 5) TEXT(1, 32) TEXT(2, 33) TEXT(2, 64) TEXT(3, 70)
#define BITOF(k) if ((k) < 32 * W) REQUIRE (((v[(k)/32] & (1u << ((k)%32))) != 0) == ((k) < N && p[N-1-(k) < N ? N-1-(k) : 0] != '0'));
#define FROM(n, N_) PROBE(b_from##n##_##N_, "n n buf:0 wbuf:1:4", (size_t x, size_t y, const char* p, u_t* v), ASSUME (x == N_); ASSUME (y == n); enum { N = N_, W = n }; string s; s.link (p, N); convert_from_bitstring (s, v, n); CH8(BITOF,0) CH8(BITOF,8) CH8(BITOF,24) CH8(BITOF,32))
FROM(1, 1) FROM(1, 7) FROM(2, 4)
// the bits past the last one are not part of the set
OP(bits70, b_tail, W3, t_t r; r.set(); REQUIRE (r.count() == 70))
