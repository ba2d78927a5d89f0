// Tuples, arrays, bit sets and the packed operations on them: every element is what its operator makes of the elements
// in the same place.
#include "spec.h"
using namespace ustl::simd;
#define IDX1(M) M(0)
#define IDX2(M) M(0) M(1)
#define IDX3(M) IDX2(M) M(2)
#define IDX4(M) IDX2(M) M(2) M(3)
#define IDX7(M) IDX4(M) M(4) M(5) M(6)
#define IDX8(M) IDX4(M) M(4) M(5) M(6) M(7)
#define IDX16(M) IDX8(M) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15)
#define INL static inline __attribute__((always_inline))
extern "C" bool samef_ (float, float) noexcept;		// equal as sums of products
extern "C" bool samed_ (double, double) noexcept;
template <typename T> INL bool alike (T x, T y) { return x == y; }
INL bool alike (float x, float y) { return samef_ (x, y); }
INL bool alike (double x, double y) { return samed_ (x, y); }
#define SAME_B(i) REQUIRE (alike (b->begin()[i], p##i));
#define OP(id, name, TT, E, I, ...) PROBE(name##_##id, "cell:" #id " in:" #id " i32 i32", (TT* a, const TT* b, int x, int y), typedef E e_t; typedef TT t_t; (void) x; (void) y; I(KEEP) e_t s = e_t (x); (void) s; __VA_ARGS__; I(SAME_B))
#define KEEP(i) const e_t o##i = a->begin()[i], p##i = b->begin()[i]; (void) o##i; (void) p##i;
#define IS(obj, i, ...) REQUIRE (alike ((obj).begin()[i], e_t (__VA_ARGS__)));
#define R0(i) IS (r, i, 0)
#define RB(i) IS (r, i, p##i)
#define RA(i) IS (r, i, o##i)
#define RS(i) IS (r, i, s)
#define AB(i) IS (*a, i, p##i)
#define RAB(i, op) IS (r, i, o##i op p##i)
#define RAS(i, op) IS (r, i, o##i op s)
#define Aadd(i) IS (*a, i, o##i + p##i)
#define Asub(i) IS (*a, i, o##i - p##i)
#define Amul(i) IS (*a, i, o##i * p##i)
#define Adiv(i) IS (*a, i, o##i / p##i)
#define Aand(i) IS (*a, i, o##i & p##i)
#define Aor(i) IS (*a, i, o##i | p##i)
#define Axor(i) IS (*a, i, o##i ^ p##i)
#define Sadd(i) IS (*a, i, o##i + s)
#define Ssub(i) IS (*a, i, o##i - s)
#define Smul(i) IS (*a, i, o##i * s)
#define Sdiv(i) IS (*a, i, o##i / s)
#define Radd(i) IS (r, i, o##i + p##i)
#define Rsub(i) IS (r, i, o##i - p##i)
#define Rmul(i) IS (r, i, o##i * p##i)
#define Rdiv(i) IS (r, i, o##i / p##i)
#define Tadd(i) IS (r, i, o##i + s)
#define Tsub(i) IS (r, i, o##i - s)
#define Tmul(i) IS (r, i, o##i * s)
#define Tdiv(i) IS (r, i, o##i / s)
#define NZ(i) ASSUME (p##i != 0);
#define MAXS(i) { e_t m = a->begin()[i]; REQUIRE ((m == o##i) | (m == p##i)); REQUIRE (!(m < o##i)); REQUIRE (!(m < p##i)); }
#define MINS(i) { e_t m = a->begin()[i]; REQUIRE ((m == o##i) | (m == p##i)); REQUIRE (!(o##i < m)); REQUIRE (!(p##i < m)); }
#define DIFF(i) || o##i != p##i
#define LESS(i) (o##i < p##i) ? true : (p##i < o##i) ? false :
// what tuples and arrays have in common
#define BOTH(id, TT, E, I) extern "C" const unsigned Z_##id __attribute__((used)) = sizeof(TT); extern "C" const unsigned G_##id __attribute__((used)) = sizeof(E); \
OP(id, e_copy, TT, E, I, t_t r (*b); I(RB)) OP(id, e_assign, TT, E, I, t_t& r = (*a = *b); REQUIRE (&r == a); I(AB)) OP(id, e_swap, TT, E, I, t_t r (*b); a->swap (r); I(AB) I(RA)) \
OP(id, e_size, TT, E, I, REQUIRE (a->size() == a->max_size()); REQUIRE (!a->empty()); REQUIRE (a->end() - a->begin() == ptrdiff_t (a->size())); REQUIRE (a->size() == sizeof(t_t)/sizeof(e_t))) \
OP(id, e_at, TT, E, I, size_t i = any_(); ASSUME (i < a->size()); REQUIRE (&a->at (i) == a->begin() + i); REQUIRE (&(*a)[i] == a->begin() + i); REQUIRE (&(*b)[i] == b->begin() + i); REQUIRE (&b->at(i) == b->begin() + i)) \
OP(id, e_addto, TT, E, I, *a += *b; I(Aadd)) OP(id, e_subfrom, TT, E, I, *a -= *b; I(Asub)) OP(id, e_multo, TT, E, I, *a *= *b; I(Amul)) \
OP(id, e_adds, TT, E, I, *a += s; I(Sadd)) OP(id, e_subs, TT, E, I, *a -= s; I(Ssub)) OP(id, e_muls, TT, E, I, *a *= s; I(Smul)) \
OP(id, e_add, TT, E, I, t_t r (*a + *b); I(Radd)) OP(id, e_sub, TT, E, I, t_t r (*a - *b); I(Rsub)) OP(id, e_mul, TT, E, I, t_t r (*a * *b); I(Rmul)) \
OP(id, e_plus, TT, E, I, t_t r (*a + s); I(Tadd)) OP(id, e_minus, TT, E, I, t_t r (*a - s); I(Tsub)) OP(id, e_times, TT, E, I, t_t r (*a * s); I(Tmul)) \
OP(id, e_divby, TT, E, I, I(NZ) *a /= *b; I(Adiv)) OP(id, e_divs, TT, E, I, ASSUME (s != 0); *a /= s; I(Sdiv)) OP(id, e_div, TT, E, I, I(NZ) t_t r (*a / *b); I(Rdiv)) OP(id, e_over, TT, E, I, ASSUME (s != 0); t_t r (*a / s); I(Tdiv))
#define ORDER(id, TT, E, I) OP(id, e_equal, TT, E, I, REQUIRE ((*a == *b) == !(false I(DIFF)))) OP(id, e_less, TT, E, I, REQUIRE ((*a < *b) == (I(LESS) false)))
#define TUP(id, n, E, I) TUPF(id, n, E, I) ORDER(id, id##_t, E, I)
#define TUPF(id, n, E, I) typedef tuple<n,E> id##_t; BOTH(id, id##_t, E, I) \
OP(id, e_zero, id##_t, E, I, t_t r; I(R0)) OP(id, e_ptr, id##_t, E, I, t_t r (b->begin()); I(RB)) OP(id, e_fill, id##_t, E, I, t_t r (s); I(RS))
#define INTO(i) IS (r, i, o##i)
#define PACK(id, E, I) \
OP(id, e_3add, id##_t, E, I, id##_t r; padd (*a, *b, r); I(Radd)) OP(id, e_3sub, id##_t, E, I, id##_t r; psub (*a, *b, r); I(Rsub)) OP(id, e_3mul, id##_t, E, I, id##_t r; pmul (*a, *b, r); I(Rmul)) OP(id, e_ipassign, id##_t, E, I, ipassign (b->begin(), *a); I(AB)) \
OP(id, e_passign, id##_t, E, I, passign (*b, *a); I(AB)) OP(id, e_padd, id##_t, E, I, padd (*b, *a); I(Aadd)) OP(id, e_psub, id##_t, E, I, psub (*b, *a); I(Asub)) OP(id, e_pmul, id##_t, E, I, pmul (*b, *a); I(Amul)) OP(id, e_pdiv, id##_t, E, I, I(NZ) pdiv (*b, *a); I(Adiv))
#define PACKI(id, E, I) PACK(id, E, I) OP(id, e_pmin, id##_t, E, I, pmin (*b, *a); I(MINS)) OP(id, e_pmax, id##_t, E, I, pmax (*b, *a); I(MAXS)) \
 OP(id, e_pand, id##_t, E, I, pand (*b, *a); I(Aand)) OP(id, e_por, id##_t, E, I, por (*b, *a); I(Aor)) OP(id, e_pxor, id##_t, E, I, pxor (*b, *a); I(Axor))
// packed operations on numbers of fewer bits than W: the nearest number of the type, the average rounded up
#define SATURATE(i, op) { typedef int w_t; const w_t v = w_t (o##i) op w_t (p##i), hi = numeric_limits<e_t>::max(), lo = numeric_limits<e_t>::lowest(); const e_t m = a->begin()[i]; \
    REQUIRE ((v > hi) | (v < lo) | (w_t (m) == v)); REQUIRE (!(v > hi) | (m == numeric_limits<e_t>::max())); REQUIRE (!(v < lo) | (m == numeric_limits<e_t>::lowest())); }
#define SATADD(i) SATURATE(i, +)
#define SATSUB(i) SATURATE(i, -)
#define AVER(i) IS (*a, i, (o##i + p##i + 1) >> 1)
#define SATUR(id, E, I) OP(id, e_padds, id##_t, E, I, padds (*b, *a); I(SATADD)) OP(id, e_psubs, id##_t, E, I, psubs (*b, *a); I(SATSUB)) OP(id, e_pavg, id##_t, E, I, pavg (*b, *a); I(AVER))
TUP(u8x8, 8, uint8_t, IDX8) PACKI(u8x8, uint8_t, IDX8)
TUP(i8x8, 8, int8_t, IDX8) PACKI(i8x8, int8_t, IDX8)
TUP(u16x4, 4, uint16_t, IDX4) PACKI(u16x4, uint16_t, IDX4)
TUP(i16x4, 4, int16_t, IDX4) PACKI(i16x4, int16_t, IDX4)
TUP(u16x2, 2, uint16_t, IDX2) PACKI(u16x2, uint16_t, IDX2)
TUP(i16x2, 2, int16_t, IDX2) PACKI(i16x2, int16_t, IDX2)
TUP(u32x2, 2, uint32_t, IDX2) PACKI(u32x2, uint32_t, IDX2)
TUP(i32x2, 2, int32_t, IDX2) PACKI(i32x2, int32_t, IDX2)
TUP(u32x4, 4, uint32_t, IDX4) PACKI(u32x4, uint32_t, IDX4)
TUP(i32x4, 4, int32_t, IDX4) PACKI(i32x4, int32_t, IDX4)
TUP(u32x7, 7, uint32_t, IDX7) PACKI(u32x7, uint32_t, IDX7)
TUP(u16x3, 3, uint16_t, IDX3) PACKI(u16x3, uint16_t, IDX3)
TUP(u32x16, 16, uint32_t, IDX16) TUP(i64x1, 1, int64_t, IDX1) PACKI(i64x1, int64_t, IDX1)
#define ARR(id, n, E, I) typedef array<E,n> id##_t; BOTH(id, id##_t, E, I) ORDER(id, id##_t, E, I) OP(id, e_afill, id##_t, E, I, a->fill (s); t_t& r (*a); I(RS))
ARR(ai3, 3, int, IDX3) ARR(au8x4, 4, uint8_t, IDX4)
SATUR(u8x8, uint8_t, IDX8) SATUR(i8x8, int8_t, IDX8) SATUR(u16x4, uint16_t, IDX4) SATUR(i16x4, int16_t, IDX4) SATUR(u16x2, uint16_t, IDX2) SATUR(i16x2, int16_t, IDX2) SATUR(u16x3, uint16_t, IDX3)
#define TUPFL(id, n, E, I) TUPF(id, n, E, I) PACK(id, E, I)
TUPFL(f2, 2, float, IDX2) TUPFL(f3, 3, float, IDX3) TUPFL(f4, 4, float, IDX4) TUPFL(d2, 2, double, IDX2) TUPFL(d3, 3, double, IDX3)
// construction from other elements, from a few values and from lists
#define CONV(name, id, to, I) OP(id, name, id##_t, id##_t::value_type, I, typedef to::value_type d_t; to r (*b); I(CASTED) to q; q = *b; I(CASTEQ))
#define CASTED(i) REQUIRE (alike (r.begin()[i], d_t (p##i)));
#define CASTEQ(i) REQUIRE (alike (q.begin()[i], d_t (p##i)));
typedef tuple<4,float> f4_t_; typedef tuple<4,int64_t> l4_t; typedef tuple<4,uint8_t> b4_t; typedef tuple<8,int> i8_t; typedef tuple<2,double> d2_t_;
CONV(e_tofloat, i32x4, f4_t_, IDX4) CONV(e_toint, f4, i32x4_t, IDX4) CONV(e_towide, i32x4, l4_t, IDX4) CONV(e_tobyte, i32x4, b4_t, IDX4) CONV(e_toint, i8x8, i8_t, IDX8) CONV(e_toint, u8x8, i8_t, IDX8) CONV(e_todouble, f2, d2_t_, IDX2)
#define ROUNDF(i) REQUIRE (alike (r.begin()[i], float (p##i)));
#define ROUNDI(i) REQUIRE (r.begin()[i] == fround<float,int32_t>() (p##i));
OP(i32x4, e_round, i32x4_t, int, IDX4, f4_t r; pround (*b, r); IDX4(ROUNDF))
OP(f4, e_round, f4_t, float, IDX4, i32x4_t r; pround (*b, r); IDX4(ROUNDI))
#define FEW(i) REQUIRE (r.begin()[i] == (i == 0 ? x : y));
#define FEW3(i) REQUIRE (r.begin()[i] == (i == 0 ? x : i == 1 ? y : z));
#define FEW4(i) REQUIRE (r.begin()[i] == (i == 0 ? x : i == 1 ? y : i == 2 ? z : w));
#define FEWZ(i) REQUIRE (r.begin()[i] == (i == 0 ? x : i == 1 ? y : 0));
#define VALUES(id, TT, I, N) OP(id, e_two, TT, int, I, TT r (x, y); I(FEW)) OP(id, e_three, TT, int, I, int z (any_()); TT r (x, y, z); I(FEW3)) OP(id, e_four, TT, int, I, int z (any_()); int w (any_()); TT r (x, y, z, w); I(FEW4)) \
OP(id, e_list, TT, int, I, TT r ({x, y}); I(FEWZ) r.assign ({y}); REQUIRE (r[0] == y); REQUIRE (r[1] == 0)) OP(id, e_listeq, TT, int, I, *a = {x, y}; TT& r (*a); I(FEWZ))
VALUES(i32x4, i32x4_t, IDX4, 4)
#define LADD(i) REQUIRE (r.begin()[i] == (i == 0 ? o##i + x : i == 1 ? o##i + y : o##i));
#define LSUB(i) REQUIRE (r.begin()[i] == (i == 0 ? o##i - x : i == 1 ? o##i - y : o##i));
#define LMUL(i) REQUIRE (r.begin()[i] == (i == 0 ? o##i * x : i == 1 ? o##i * y : o##i));
#define LISTS(id, I) OP(id, e_ladd, id##_t, int, I, *a += {x, y}; id##_t& r (*a); I(LADD)) OP(id, e_lsub, id##_t, int, I, *a -= {x, y}; id##_t& r (*a); I(LSUB)) OP(id, e_lmul, id##_t, int, I, *a *= {x, y}; id##_t& r (*a); I(LMUL))
LISTS(i32x4, IDX4) LISTS(ai3, IDX3)

// Matrices: elements by row and column, products as sums of products
#define MX(id, name, ...) PROBE(e_##name##_##id, "cell:" #id " in:" #id, (id##_t* a, const id##_t* b), typedef id##_t::value_type e_t; const size_t nx = id##_t::row_type().size(), ny = id##_t::column_type().size(); (void) nx; (void) ny; \
    e_t o [sizeof(id##_t)/sizeof(e_t)]; for (size_t i = 0; i < sizeof(id##_t)/sizeof(e_t); ++i) o[i] = a->begin()[i]; __VA_ARGS__)
#define EACH for (size_t y = 0; y < ny; ++y) for (size_t x = 0; x < nx; ++x)
#define AT(m, y, x) (m).begin()[(y) * nx + (x)]
#define MAT(id, NX, NY, E) typedef matrix<NX,NY,E> id##_t; typedef matrix<NX,NY,double> id##d_t; extern "C" const unsigned Z_##id __attribute__((used)) = sizeof(id##_t); extern "C" const unsigned G_##id __attribute__((used)) = sizeof(E); \
MX(id, identity, load_identity (*a); EACH REQUIRE (alike (AT(*a,y,x), e_t (x == y)))) \
MX(id, zero, id##_t r; EACH REQUIRE (alike (AT(r,y,x), e_t (0)))) MX(id, copy, id##_t r (*b); EACH REQUIRE (alike (AT(r,y,x), AT(*b,y,x)))) MX(id, assign, *a = *b; EACH REQUIRE (alike (AT(*a,y,x), AT(*b,y,x)))) \
MX(id, convert, id##d_t r (*b); EACH REQUIRE (alike (AT(r,y,x), double (AT(*b,y,x))))) \
MX(id, dims, REQUIRE (a->columns() == NX); REQUIRE (a->rows() == NY); REQUIRE (a->size() == NX*NY); EACH REQUIRE (&(*a)[y][x] == a->begin() + y * NX + x); EACH REQUIRE (&(*b)[y][x] == b->begin() + y * NX + x)) \
MX(id, row, for (size_t y = 0; y < ny; ++y) { id##_t::row_type r (b->row (y)); for (size_t x = 0; x < nx; ++x) REQUIRE (alike (r[x], AT(*b,y,x))); }) \
MX(id, column, for (size_t x = 0; x < nx; ++x) { id##_t::column_type r (b->column (x)); for (size_t y = 0; y < ny; ++y) REQUIRE (alike (r[y], AT(*b,y,x))); }) \
MX(id, plus, *a += *b; EACH REQUIRE (alike (AT(*a,y,x), e_t (o[(y) * nx + (x)] + AT(*b,y,x))))) \
MX(id, scale, *a *= e_t (3); EACH REQUIRE (alike (AT(*a,y,x), e_t (o[(y) * nx + (x)] * e_t (3))))) \
MX(id, scaled, id##_t r (*b * e_t (3)); EACH REQUIRE (alike (AT(r,y,x), e_t (AT(*b,y,x) * e_t (3))))) \
MX(id, transform, id##_t::column_type t; for (size_t y = 0; y < ny; ++y) t[y] = o[y]; id##_t::row_type r (t * *b); for (size_t x = 0; x < nx; ++x) { e_t s (0); for (size_t y = 0; y < ny; ++y) s += o[y] * AT(*b,y,x); REQUIRE (alike (r[x], s)); })
#define SQUARE(id) MX(id, transpose, transpose (*a); EACH REQUIRE (alike (AT(*a,y,x), o[x * nx + y]))) \
MX(id, product, id##_t r (*a * *b); EACH { e_t s (0); for (size_t k = 0; k < nx; ++k) s += o[y * nx + k] * AT(*b,k,x); REQUIRE (alike (AT(r,y,x), s)); })
MAT(m44f, 4, 4, float) SQUARE(m44f) MAT(m44i, 4, 4, int) SQUARE(m44i) MAT(m33f, 3, 3, float) SQUARE(m33f) MAT(m22i, 2, 2, int) SQUARE(m22i) MAT(m24i, 2, 4, int) MAT(m42f, 4, 2, float) MAT(m42i, 4, 2, int)
typedef matrix<2,4,int> m24_t;
MX(m42i, product, m24_t q; for (size_t i = 0; i < 8; ++i) q.begin()[i] = o[i]; matrix<2,2,int> r (*b * q); for (size_t y = 0; y < 2; ++y) for (size_t x = 0; x < 2; ++x) { int s = 0; for (size_t k = 0; k < 4; ++k) s += AT(*b,y,k) * o[k * 2 + x]; REQUIRE (r.begin()[y * 2 + x] == s); })
