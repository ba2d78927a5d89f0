// Durations, points in time and struct timespec as a number, for all counts.
#include "spec.h"
using namespace ustl::chrono;
#define D(name, ...) PROBE(d_##name, "i64 i64", (int64_t a, int64_t b), __VA_ARGS__)
#define CAST(name, From, To, ...) D(cast_##name, REQUIRE (duration_cast<To> (From (a)).count() == (__VA_ARGS__)); REQUIRE (time_point_cast<To> (time_point<system_clock,From> (From (a))).time_since_epoch().count() == (__VA_ARGS__)))
#define CONV(name, From, To, ...) CAST(name, From, To, __VA_ARGS__) D(conv_##name, To t = From (a); REQUIRE (t.count() == (__VA_ARGS__)); t = From (b); a = b; REQUIRE (t.count() == (__VA_ARGS__)); time_point<steady_clock,To> p = time_point<steady_clock,From> (From (a)); REQUIRE (p.time_since_epoch().count() == (__VA_ARGS__)))
CONV(us_ns, microseconds, nanoseconds, a * 1000) CONV(ms_ns, milliseconds, nanoseconds, a * 1000000) CONV(s_ns, seconds, nanoseconds, a * 1000000000)
CONV(ms_us, milliseconds, microseconds, a * 1000) CONV(s_us, seconds, microseconds, a * 1000000) CONV(s_ms, seconds, milliseconds, a * 1000)
CONV(min_s, minutes, seconds, a * 60) CONV(h_s, hours, seconds, a * 3600) CONV(h_min, hours, minutes, a * 60) CONV(h_ms, hours, milliseconds, a * 3600000)
CONV(d_h, days, hours, a * 24) CONV(d_s, days, seconds, a * 86400) CONV(w_d, weeks, days, a * 7) CONV(w_h, weeks, hours, a * 168)
CONV(y_s, years, seconds, a * 31557600) CONV(y_h, years, hours, a * 8766) CONV(y_mon, years, months, a * 12) CONV(mon_s, months, seconds, a * 2629800)
CONV(c_y, centuries, years, a * 100) CONV(mil_y, millenia, years, a * 1000) CONV(mil_c, millenia, centuries, a * 10) CONV(same, seconds, seconds, a)
CAST(ns_us, nanoseconds, microseconds, a / 1000) CAST(ns_ms, nanoseconds, milliseconds, a / 1000000) CAST(ns_s, nanoseconds, seconds, a / 1000000000)
CAST(us_ms, microseconds, milliseconds, a / 1000) CAST(us_s, microseconds, seconds, a / 1000000) CAST(ms_s, milliseconds, seconds, a / 1000) CAST(ms_min, milliseconds, minutes, a / 60000)
CAST(s_min, seconds, minutes, a / 60) CAST(s_h, seconds, hours, a / 3600) CAST(min_h, minutes, hours, a / 60) CAST(h_d, hours, days, a / 24) CAST(d_w, days, weeks, a / 7)
CAST(s_y, seconds, years, a / 31557600) CAST(mon_y, months, years, a / 12) CAST(y_c, years, centuries, a / 100) CAST(y_mil, years, millenia, a / 1000) CAST(h_y, hours, years, a / 8766)
typedef duration<int64_t,ratio<2,3> > third; typedef duration<int64_t,ratio<5,7> > seventh; typedef duration<int64_t,ratio<10,4> > half5; typedef duration<int64_t,ratio<15,2> > half15; typedef duration<int,milli> ims; typedef duration<int> is_;
CAST(odd, third, seventh, a * 14 / 15) CAST(odd_back, seventh, third, a * 15 / 14) CONV(reduced, half15, half5, a * 3)
// a narrow count does not cut the wide one it is made from before that is divided
PROBE(d_narrow_down, "i64", (int64_t a), REQUIRE (duration_cast<ims> (nanoseconds (a)).count() == (int) (a / 1000000)))
PROBE(d_narrow_sec, "i64", (int64_t a), REQUIRE (duration_cast<is_> (microseconds (a)).count() == (int) (a / 1000000)))
PROBE(d_wide_up, "i32", (int a), REQUIRE (duration_cast<nanoseconds> (is_ (a)).count() == int64_t (a) * 1000000000); nanoseconds n = is_ (a); REQUIRE (n.count() == int64_t (a) * 1000000000))

D(arith, milliseconds x (a), y (b); REQUIRE ((x + y).count() == a + b); REQUIRE ((x - y).count() == a - b); REQUIRE ((-x).count() == -a); REQUIRE ((+x).count() == a); REQUIRE (x.count() == a); REQUIRE (y.count() == b))
D(arith_mixed, milliseconds x (a); seconds y (b); REQUIRE ((x + y).count() == a + b * 1000); REQUIRE ((x - y).count() == a - b * 1000); x += y; REQUIRE (x.count() == a + b * 1000); x -= y; x -= y; REQUIRE (x.count() == a - b * 1000))
D(step, milliseconds x (a); REQUIRE ((++x).count() == a + 1); REQUIRE (x.count() == a + 1); REQUIRE ((x++).count() == a + 1); REQUIRE (x.count() == a + 2); REQUIRE ((--x).count() == a + 1); REQUIRE ((x--).count() == a + 1); REQUIRE (x.count() == a))
D(add, milliseconds x (a), y (b); milliseconds& r (x += y); REQUIRE (&r == &x); REQUIRE (x.count() == a + b); REQUIRE (y.count() == b)) D(sub, milliseconds x (a), y (b); milliseconds& r (x -= y); REQUIRE (&r == &x); REQUIRE (x.count() == a - b))
D(mul, milliseconds x (a); milliseconds& r (x *= b); REQUIRE (&r == &x); REQUIRE (x.count() == a * b)) PROBE(d_div, "i64 i64", (int64_t a, int64_t b), ASSUME (b != 0); milliseconds x (a); milliseconds& r (x /= b); REQUIRE (&r == &x); REQUIRE (x.count() == a / b))
PROBE(d_mod, "i64 i64", (int64_t a, int64_t b), ASSUME (b != 0); milliseconds x (a), y (a), z (b); x %= b; REQUIRE (x.count() == a % b); y %= z; REQUIRE (y.count() == a % b))
D(special, REQUIRE (milliseconds::zero().count() == 0); REQUIRE (milliseconds::min().count() == INT64_MIN); REQUIRE (milliseconds::max().count() == INT64_MAX); REQUIRE ((system_clock::time_point::zero().time_since_epoch().count() == 0)); REQUIRE ((system_clock::time_point::max().time_since_epoch().count() == INT64_MAX)))
#define ORDER(x, y, l, r) REQUIRE ((x == y) == (l == r)); REQUIRE ((x != y) == (l != r)); REQUIRE ((x < y) == (l < r)); REQUIRE ((x > y) == (l > r)); REQUIRE ((x <= y) == (l <= r)); REQUIRE ((x >= y) == (l >= r))
D(order, milliseconds x (a), y (b); ORDER (x, y, a, b)) D(order_up, milliseconds x (a); seconds y (b); int64_t c = b * 1000; REQUIRE ((x == y) == (a == c)); REQUIRE ((x < y) == (a < c)); REQUIRE ((y == x) == (c == a)); REQUIRE ((y < x) == (c < a)))
D(order_odd, days x (a); weeks y (b); int64_t c = b * 7; REQUIRE ((x == y) == (a == c)); REQUIRE ((x < y) == (a < c)); REQUIRE ((y == x) == (c == a)); REQUIRE ((y < x) == (c < a)))

typedef time_point<system_clock,milliseconds> TP; typedef time_point<system_clock,seconds> TS;
D(tp_arith, TP x ((milliseconds (a))), y ((milliseconds (b))); milliseconds d (b); REQUIRE ((x + d).time_since_epoch().count() == a + b); REQUIRE ((x - d).time_since_epoch().count() == a - b); REQUIRE ((x - y).count() == a - b); REQUIRE (x.time_since_epoch().count() == a))
D(tp_add, TP x ((milliseconds (a))); TP& r (x += milliseconds (b)); REQUIRE (&r == &x); REQUIRE (x.time_since_epoch().count() == a + b)) D(tp_sub, TP x ((milliseconds (a))); TP& r (x -= milliseconds (b)); REQUIRE (&r == &x); REQUIRE (x.time_since_epoch().count() == a - b))
D(tp_order, TP x ((milliseconds (a))), y ((milliseconds (b))); ORDER (x, y, a, b)) D(tp_mixed, TP x ((milliseconds (a))); TS y ((seconds (b))); int64_t c = b * 1000; REQUIRE ((x == y) == (a == c)); REQUIRE ((x < y) == (a < c)); REQUIRE ((x - y).count() == a - c))
D(tp_time_t, REQUIRE (system_clock::to_time_t (TS ((seconds (a)))) == a); REQUIRE (system_clock::from_time_t (a).time_since_epoch().count() == a); TP p (system_clock::from_time_t (a)); REQUIRE (p.time_since_epoch().count() == a * 1000))

// seconds and nanoseconds
static const int64_t G = 1000000000;
#define T(name, ...) PROBE(t_##name, "i64 n i64 n", (int64_t s, int64_t n, int64_t u, int64_t m), ASSUME (n >= 0); ASSUME (n < G); ASSUME (m >= 0); ASSUME (m < G); \
    ASSUME (s > -(1L << 32)); ASSUME (s < (1L << 32)); ASSUME (u > -(1L << 32)); ASSUME (u < (1L << 32)); hrtime_t x (s, n), y (u, m); __VA_ARGS__)
#define IS(x, ...) REQUIRE (intmax_t ((x).tv_sec) * G + (x).tv_nsec == (__VA_ARGS__)); REQUIRE ((x).tv_nsec >= 0); REQUIRE ((x).tv_nsec < G)
T(value, REQUIRE (intmax_t (x) == s * G + n); hrtime_t z; IS (z, 0); REQUIRE (x.tv_sec == s); REQUIRE (x.tv_nsec == n); timespec t = x; hrtime_t w (t); IS (w, s * G + n))
T(inc, hrtime_t z (++x); IS (x, s * G + n + 1); IS (z, s * G + n + 1)) T(inc_post, hrtime_t z (x++); IS (x, s * G + n + 1); IS (z, s * G + n))
T(dec, hrtime_t z (--x); IS (x, s * G + n - 1); IS (z, s * G + n - 1)) T(dec_post, hrtime_t z (x--); IS (x, s * G + n - 1); IS (z, s * G + n))
T(add, hrtime_t& r (x += y); REQUIRE (&r == &x); IS (x, (s + u) * G + n + m); IS (y, u * G + m)) T(sub, hrtime_t& r (x -= y); REQUIRE (&r == &x); IS (x, (s - u) * G + n - m))
T(plus, hrtime_t z (x + y); IS (z, (s + u) * G + n + m); IS (x, s * G + n)) T(minus, hrtime_t z (x - y); IS (z, (s - u) * G + n - m); IS (x, s * G + n)) T(pos, hrtime_t z (+x); IS (z, s * G + n))
T(neg, hrtime_t z (-x); IS (z, -(s * G + n)))
T(mul3, x *= 3; IS (x, (s * G + n) * 3)) T(mul1000, hrtime_t z (x * intmax_t (1000)); IS (z, (s * G + n) * 1000)) T(mul0, x *= 0; IS (x, 0)) T(mulneg, x *= -7; IS (x, (s * G + n) * -7))
T(div2, ASSUME (s >= 0); x /= 2; IS (x, (s * G + n) / 2)) T(div7, ASSUME (s >= 0); hrtime_t z (x / intmax_t (7)); IS (z, (s * G + n) / 7)) PROBE(t_div_neg, "n n", (int64_t s, int64_t n), ASSUME (n < G); ASSUME (s < (1L << 32)); hrtime_t x (-s, n); x /= 3; REQUIRE (x.tv_nsec >= 0); REQUIRE (x.tv_nsec < G)) T(div1, x /= 1; IS (x, s * G + n))
T(order, ASSUME (s >= 0); ASSUME (u >= 0); ORDER (x, y, (s * G + n), (u * G + m))) T(order_any, REQUIRE ((x == y) == (s == u && n == m)); REQUIRE ((x < y) == (s < u || (s == u && n < m))); REQUIRE ((x > y) == (u < s || (s == u && m < n))); REQUIRE ((x != y) == (s != u || n != m)); REQUIRE ((x <= y) == !(u < s || (s == u && m < n))); REQUIRE ((x >= y) == !(s < u || (s == u && n < m))))
PROBE(t_of, "i64", (int64_t v), ASSUME (v >= 0); hrtime_t z (v); IS (z, v)) PROBE(t_of_neg, "n", (int64_t v), hrtime_t z (-v); IS (z, -v))
typedef duration<hrtime_t,nano> H;
T(cast_ns, REQUIRE (duration_cast<nanoseconds> (H (x)).count() == s * G + n)) T(cast_us, REQUIRE (duration_cast<microseconds> (H (x)).count() == s * 1000000 + n / 1000)) T(cast_ms, REQUIRE (duration_cast<milliseconds> (H (x)).count() == s * 1000 + n / 1000000)) T(cast_s, REQUIRE (duration_cast<seconds> (H (x)).count() == s))
T(cast_min, ASSUME (s >= 0); REQUIRE (duration_cast<minutes> (H (x)).count() == s / 60))
T(dur, H p (x), q (y); H z (p + q); IS (z.count(), (s + u) * G + n + m); z = p - q; IS (z.count(), (s - u) * G + n - m); p += q; IS (p.count(), (s + u) * G + n + m); REQUIRE ((q == q)); REQUIRE (!(q < q)))
PROBE(t_of_s, "i64", (int64_t v), ASSUME (v >= 0); ASSUME (v < (1L << 32)); H h = seconds (v); IS (h.count(), v * G)) PROBE(t_of_ms, "i64", (int64_t v), ASSUME (v >= 0); ASSUME (v < (1L << 42)); H h = milliseconds (v); IS (h.count(), v * 1000000))
