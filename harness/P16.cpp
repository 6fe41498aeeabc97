#include "hg.h"
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
//BOUND scalar functions: all bit patterns; range(): up to 5 iterations starting anywhere in the type; rgen: up to 5 points, end points -8..8; rgen_step: end points -6..6, steps 1/2..3; vectorized functions: vectors of 0..3 elements (copy, temporary and view operands)
//RUN both h_clamp
//RUN both h_clamp_vec
//RUN both h_sign
//RUN both h_finite
//RUN both h_sqr
//RUN both h_abs
//RUN both h_round
//RUN both h_vec2
//RUN both h_vec2_bad
//RUN both h_powv
//RUN both h_range_n
//RUN both h_range_int
//RUN both h_range_dec
//RUN both h_range_types
//RUN both h_range_step
//RUN both h_range_vec
//RUN both h_indgen
//RUN both h_rgen 1..5
//RUN both h_rgen_u
//RUN both h_rgen_log
//RUN both h_rgen_step
//RUN both h_rgen_step_i
//RUN both h_rgen_step_bad
//RUN both h_lambda1
//RUN both h_lambda2
//RUN both h_lambda_bad
//RUN both h_lambda_move
//RUN both h_lambda_void
//RUN both h_rgen_step_mix
ENTRY h_clamp() { double x = sym_dbl("x"), a = sym_dbl("lo"), b = sym_dbl("hi"); ASSUME((a <= b)); double r = clamp(x, a, b); CHECK(is_nan_(x) ? bits_of(r) == bits_of(x) : x < a ? bits_of(r) == bits_of(a) : x > b ? bits_of(r) == bits_of(b) : bits_of(r) == bits_of(x)); int i = sym_int(), l = sym_int(), h = sym_int(); ASSUME(l <= h); int k = clamp(i, l, h); CHECKM(k == (i < l ? l : i > h ? h : i), "clamp"); REACH("clamp"); }
ENTRY h_clamp_vec() { vec<1,int> v(3); fill_sym(v); vec<1,int> o = v; int l = sym_int(), h = sym_int(); ASSUME(l <= h); auto r = clamp(v, l, h); CHECK(r.size() == 3); for (u64 i = 0; i < 3; ++i) { CHECK(r.data[i] == (o.data[i] < l ? l : o.data[i] > h ? h : o.data[i])); CHECK(v.data[i] == o.data[i]); } auto q = clamp(std::move(v), l, h); for (u64 i = 0; i < 3; ++i) CHECK(q.data[i] == r.data[i]); vec1u id = {2, 0}; auto z = clamp(o[id], l, h); CHECK(z.size() == 2 && z.data[0] == r.data[2] && z.data[1] == r.data[0]); REACH("clamp_vec"); }
ENTRY h_sign() { int i = sym_int(); CHECK(sign(i) == (i >= 0 ? 1 : -1)); double d = sym_dbl(); ASSUME(!is_nan_(d)); CHECK(sign(d) == (d >= 0 ? 1 : -1)); vec<1,int> v(2); fill_sym(v); auto r = sign(v); CHECK(r.size() == 2); for (u64 k = 0; k < 2; ++k) CHECK(r.data[k] == (v.data[k] >= 0 ? 1 : -1)); REACH("sign"); }
ENTRY h_finite() { double d = sym_dbl(); u64 e = bits_of(d) & 0x7ff0000000000000ull; bool fin = e != 0x7ff0000000000000ull; CHECKM(is_finite(d) == fin, "is_finite"); CHECKM(is_nan(d) == is_nan_(d), "is_nan"); vec2d v(1, 2); fill_sym(v); auto f = is_finite(v); auto n = is_nan(v); CHECK(f.dims[1] == 2 && n.dims[0] == 1 && dims_ok(f) && dims_ok(n)); for (u64 i = 0; i < 2; ++i) { CHECK((bool)f.data[i] == ((bits_of(v.data[i]) & 0x7ff0000000000000ull) != 0x7ff0000000000000ull)); CHECK((bool)n.data[i] == is_nan_(v.data[i])); } vec1u id = {1}; auto g = is_nan(flatten(v)[id]); CHECK((bool)g.data[0] == is_nan_(v.data[1])); float x = sym_flt(); uint32_t xb; memcpy(&xb, &x, 4); CHECK(is_finite(x) == ((xb & 0x7f800000u) != 0x7f800000u)); REACH("finite"); }
ENTRY h_sqr() { vec<1,double> v(2); fill_q(v, -100, 100); vec<1,double> o = v; auto r = sqr(v); CHECK(r.size() == 2); for (u64 i = 0; i < 2; ++i) CHECK(r.data[i] == o.data[i]*o.data[i] && v.data[i] == o.data[i]); auto q = sqr(std::move(v)); for (u64 i = 0; i < 2; ++i) CHECK(q.data[i] == o.data[i]*o.data[i]); vec<1,int> w(2); for (u64 i = 0; i < 2; ++i) w.data[i] = (int)sym_in(-1000, 1000); auto s = sqr(w); for (u64 i = 0; i < 2; ++i) CHECK(s.data[i] == w.data[i]*w.data[i]); double p = (double)(1 << pick(0, 6)); CHECK(invsqr(p)*p*p == 1.0); CHECK(invsqr(2) == 0.25); REACH("sqr"); }
ENTRY h_abs() { vec<1,double> v(2); fill_sym(v); auto r = abs(v); for (u64 i = 0; i < 2; ++i) CHECK(is_nan_(v.data[i]) ? is_nan_(r.data[i]) : bits_of(r.data[i]) == (bits_of(v.data[i]) & 0x7fffffffffffffffull)); vec<1,int> w(3); fill_sym(w); for (u64 i = 0; i < 3; ++i) ASSUME(w.data[i] != (-2147483647-1)); vec1u id = {2, 1}; auto q = abs(w[id]); CHECK(q.size() == 2); for (u64 i = 0; i < 2; ++i) { int e = w.data[2-i]; CHECK(q.data[i] == (e < 0 ? -e : e)); } REACH("abs"); }
ENTRY h_round() { vec<1,double> v(1); i64 k = sym_in(-400, 400, "k"); v.data[0] = (double)k*0.25; auto f = floor(v); auto c = ceil(v); auto r = round(v); CHECK(f.data[0] <= v.data[0] && v.data[0] < f.data[0]+1); CHECK(c.data[0] >= v.data[0] && v.data[0] > c.data[0]-1); i64 fi = (i64)f.data[0], ci = (i64)c.data[0], ri = (i64)r.data[0]; CHECK((double)fi == f.data[0] && (double)ci == c.data[0]); double d = r.data[0] - v.data[0]; CHECK((double)ri == r.data[0] && d <= 0.5 && d >= -0.5); REACH("round"); }
static double at2(double a, double b) { return a >= 0 && b > 0 && a == b ? 0.7853981633974483 : -1; }
ENTRY h_vec2() { double p = (double)(1 << pick(0, 3)), q = (double)(1 << pick(0, 3)); vec1d a = {p, q, 1}, b = {q, p, 1}; auto r = atan2(a, b); CHECK(r.size() == 3); auto r1 = atan2(vec1d(a), b), r2 = atan2(a, vec1d(b)), r3 = atan2(vec1d(a), vec1d(b)); auto s = atan2(p, b), s2 = atan2(p, vec1d(b)), t = atan2(a, q), t2 = atan2(vec1d(a), q); for (u64 i = 0; i < 3; ++i) { double e = std::atan2(a.data[i], b.data[i]), f = std::atan2(p, b.data[i]), g = std::atan2(a.data[i], q); CHECKM(r.data[i] == e && r1.data[i] == e && r2.data[i] == e && r3.data[i] == e, "function of two vectors"); CHECKM(s.data[i] == f && s2.data[i] == f, "function of a scalar and a vector"); CHECKM(t.data[i] == g && t2.data[i] == g, "function of a vector and a scalar"); } (void)at2; REACH("vec2"); }
ENTRY h_vec2_bad() { vec1d a((u64)pick(0, 2)), b((u64)pick(0, 2)); for (auto& x : a) x = 1; for (auto& x : b) x = 1; int op = (int)pick(0, 3); AbortIff ab(a.size() != b.size()); if (op == 0) atan2(a, b); else if (op == 1) atan2(std::move(a), b); else if (op == 2) atan2(a, std::move(b)); else atan2(std::move(a), std::move(b)); ab.returned("function of two vectors of different sizes accepted"); REACH("vec2_bad"); }
ENTRY h_powv() { vec1d v = {(double)pick(-2, 3), (double)pick(0, 2)}; auto r = pow(2.0, v); CHECK(r.size() == 2 && r.data[0] == std::pow(2.0, v.data[0]) && r.data[1] == std::pow(2.0, v.data[1])); auto q = pow(v, 2.0); CHECK(q.data[0] == std::pow(v.data[0], 2.0) && q.data[1] == std::pow(v.data[1], 2.0)); auto z = pow(2.0, vec1d(v)); CHECK(z.data[0] == r.data[0] && z.data[1] == r.data[1]); REACH("powv"); }
ENTRY h_range_n() { u64 n = (u64)pick(0, 5), k = 0; for (uint_t i : range(n)) { CHECK(i == k); ++k; } CHECKM(k == n, "range(n): n iterations"); int m = (int)n, j = 0; for (int i : range(m)) { CHECK(i == j); ++j; } CHECK(j == m); REACH("range_n"); }
ENTRY h_range_int() { int n = (int)pick(0, 4), b = sym_int("b"); ASSUME(b <= 2147483647 - n); int k = 0; for (int i : range(b, b + n)) { CHECKM(i == b + k, "range(a,b): consecutive integers from a"); ++k; CHECK(k <= n); } CHECKM(k == n, "range(a,b): b is excluded"); u64 ub = sym_u64("ub"); ASSUME(ub < 0x7ffffffffffffff0ull); u64 c = 0; for (uint_t i : range(ub, ub + (u64)n)) { CHECK(i == ub + c); ++c; CHECK(c <= (u64)n); } CHECK(c == (u64)n); REACH("range_int"); }
ENTRY h_range_dec() { int n = (int)pick(1, 4), b = sym_int("b"); ASSUME(b >= -2147483647 + n); int k = 0; for (int i : range(b, b - n)) { CHECKM(i == b - k, "decreasing range"); ++k; CHECK(k <= n); } CHECK(k == n); REACH("range_dec"); }
template<class T> static void rt_(T b, unsigned n) { u64 k = 0; for (T i : range(b, (T)(b + (T)n))) { CHECKM((u64)i == (u64)b + k, "range of a narrow integer type"); ++k; CHECK(k <= n); } CHECK(k == n); }
ENTRY h_range_types() { unsigned n = (unsigned)pick(0, 3); unsigned char c = (unsigned char)sym_char(); ASSUME(c <= 255 - n); rt_<unsigned char>(c, n); unsigned u = (unsigned)sym_int(); ASSUME(u <= 0xffffffffu - n); rt_<unsigned>(u, n); unsigned short s = (unsigned short)vf_sym(16, "s"); ASSUME(s <= 65535 - n); rt_<unsigned short>(s, n); unsigned k = 0; for (unsigned char i : range((unsigned char)200)) { CHECK(i == k); ++k; CHECK(k <= 200); } CHECK(k == 200); REACH("range_types"); }
ENTRY h_range_step() { int b = (int)sym_in(-1000, 1000), s = (int)sym_in(-50, 50), n = (int)pick(0, 4); int k = 0; for (int i : range(b, b + s*n, (u64)n)) { CHECKM(i == b + s*k, "range(a,b,n): n equal steps"); ++k; CHECK(k <= n); } CHECK(k == n); double d = sym_q(-8, 8); int j = 0; for (double x : range(d, d + 2.0, 4)) { CHECK(x == d + 0.5*j); ++j; CHECK(j <= 4); } CHECK(j == 4); REACH("range_step"); }
ENTRY h_range_vec() { vec<2,int> v((u64)pick(0, 2), 2); u64 k = 0; for (uint_t i : range(v)) { CHECK(i == k); ++k; } CHECKM(k == v.size(), "range(v): all flat indices"); std::string s((u64)pick(0, 2), 'x'); k = 0; for (uint_t i : range(s)) { CHECK(i == k); ++k; } CHECK(k == s.size()); REACH("range_vec"); }
ENTRY h_indgen() { u64 a = (u64)pick(0, 3), b = (u64)pick(0, 3); auto v = indgen(a, b); CHECK(v.dims[0] == a && v.dims[1] == b && dims_ok(v)); for (u64 i = 0; i < a*b; ++i) CHECK(v.data[i] == i); auto d = indgen<double>(a); CHECK(d.size() == a); for (u64 i = 0; i < a; ++i) CHECK(d.data[i] == (double)i); REACH("indgen"); }
static bool near_(double a, double b) { double d = a - b; return (d < 1e-9) & (d > -1e-9); }
ENTRY h_rgen(u64 n) { double a = (double)pick(-4, 4), b = (double)pick(-4, 4); auto v = rgen(a, b, n); CHECK(v.size() == n && v.dims[0] == n); CHECK(v.data[0] == a); if (n > 1) { CHECKM(near_(v.data[n-1], b), "rgen: last value"); for (u64 i = 0; i < n; ++i) CHECKM(near_(v.data[i], a + (b-a)*(double)i/(double)(n-1)), "rgen: equally spaced values"); } int ia = (int)a, ib = (int)b; auto w = rgen(ia, ib, n); for (u64 i = 0; i < n; ++i) CHECKM(near_(w.data[i], v.data[i]), "rgen with integer end points"); REACH("rgen"); }
ENTRY h_rgen_u() { unsigned a = (unsigned)sym_in(0, 100), b = (unsigned)sym_in(0, 100); auto v = rgen(a, b, 5); for (u64 i = 0; i < 5; ++i) CHECKM(v.data[i] == (double)a + ((double)b - (double)a)*0.25*(double)i, "rgen between unsigned integers"); CHECK(rgen(0.0, 1.0, 0).empty()); REACH("rgen_u"); }
ENTRY h_rgen_log() { double a = (double)(1 << pick(0, 2)), b = (double)(1 << pick(0, 4)); auto v = rgen_log(a, b, 3); CHECK(v.size() == 3); double r = v.data[1]*v.data[1]/(v.data[0]*v.data[2]); CHECKM(near_(v.data[0], a) && near_(v.data[2], b) && near_(r, 1.0), "rgen_log: geometric progression between the end points"); double x = (double)pick(-1, 1), y = (double)pick(-1, 1); AbortIff ab((x <= 0) | (y <= 0)); rgen_log(x, y, 3); ab.returned("rgen_log with non-positive bounds accepted"); REACH("rgen_log"); }
ENTRY h_rgen_step() { double a = (double)pick(-4, 4), b = (double)pick(-4, 4), s = 0.5*(double)pick(1, 6); auto v = rgen_step(a, b, s); CHECK(v.size() >= 1 && v.dims[0] == v.size()); CHECKM(v.data[0] == a && v.data[v.size()-1] == b, "rgen_step: contains both ends"); double d = a < b ? s : -s; for (u64 i = 0; i+1 < v.size(); ++i) CHECKM(v.data[i] == a + d*(double)i, "rgen_step: constant step"); if (v.size() > 1) { double l = v.data[v.size()-1] - v.data[v.size()-2]; if (l < 0) l = -l; CHECK(l > 0 && l <= 1.5*s); } else CHECK(a == b); REACH("rgen_step"); }
ENTRY h_rgen_step_i() { int a = (int)pick(-4, 4), b = (int)pick(-4, 4), s = (int)pick(1, 3); auto v = rgen_step(a, b, s); CHECK(v.size() >= 1); CHECK(v.data[0] == a && v.data[v.size()-1] == b); for (u64 i = 0; i+1 < v.size(); ++i) CHECK(v.data[i] == a + (a < b ? s : -s)*(int)i); unsigned ua = (unsigned)pick(0, 4), ub = (unsigned)pick(0, 4); auto w = rgen_step(ua, ub, 1u); CHECKM(w.size() == (ua > ub ? ua-ub : ub-ua) + 1, "rgen_step between unsigned integers"); for (u64 i = 0; i < w.size(); ++i) CHECK(w.data[i] == (ua < ub ? (double)ua + (double)i : (double)ua - (double)i)); REACH("rgen_step_i"); }
ENTRY h_rgen_step_bad() { double s; int op = (int)pick(0, 3); s = op == 0 ? 0.0 : op == 1 ? -1.0 : op == 2 ? dbl_of(0x7ff0000000000000ull) : dbl_of(0x7ff8000000000000ull); vf_abort_ok(true); rgen_step(0.0, 2.0, s); CHECKM(false, "rgen_step with an invalid step accepted"); }
ENTRY h_lambda1() { int z = sym_int("z"); auto f = vectorize_lambda_first([&](int x, int y) { return (int)((unsigned)x*3u + (unsigned)y + (unsigned)z); }); vec<2,int> v(1, 2); fill_sym(v); int y = sym_int("y"); auto r = f(v, y); CHECK(r.dims[0] == 1 && r.dims[1] == 2 && dims_ok(r)); auto e = [&](int x) { return (unsigned)x*3u + (unsigned)y + (unsigned)z; }; for (u64 i = 0; i < 2; ++i) CHECK((unsigned)r.data[i] == e(v.data[i])); CHECK((unsigned)f(v.data[0], y) == e(v.data[0])); auto q = f(vec<2,int>(v), y); for (u64 i = 0; i < 2; ++i) CHECK(q.data[i] == r.data[i]); REACH("lambda1"); }
ENTRY h_lambda2() { auto f = vectorize_lambda([](int x, int y) { return (int)((unsigned)x*3u + (unsigned)y); }); vec<1,int> a(2), b(2); fill_sym(a); fill_sym(b); int k = sym_int("k"); auto r = f(a, b); auto s = f(a, k); auto t = f(k, b); int u = f(k, k); CHECK(r.size() == 2 && s.size() == 2 && t.size() == 2 && dims_ok(r)); for (u64 i = 0; i < 2; ++i) { CHECK((unsigned)r.data[i] == (unsigned)a.data[i]*3u + (unsigned)b.data[i]); CHECK((unsigned)s.data[i] == (unsigned)a.data[i]*3u + (unsigned)k); CHECK((unsigned)t.data[i] == (unsigned)k*3u + (unsigned)b.data[i]); } CHECK((unsigned)u == (unsigned)k*4u); vec1u id = {1, 0}; auto w = f(a[id], b); for (u64 i = 0; i < 2; ++i) CHECK((unsigned)w.data[i] == (unsigned)a.data[1-i]*3u + (unsigned)b.data[i]); REACH("lambda2"); }
ENTRY h_lambda_bad() { auto f = vectorize_lambda([](int x, int y, int z) { return x < y && y < z; }); vec<1,int> a((u64)pick(0, 2)), b((u64)pick(0, 2)), c((u64)pick(0, 2)); AbortIff ab((a.size() != b.size()) | (a.size() != c.size())); auto r = f(a, b, c); ab.returned("vectorized lambda with vectors of different sizes accepted"); CHECK(r.size() == a.size()); REACH("lambda_bad"); }
ENTRY h_lambda_move() { auto f = vectorize_lambda_first([](int, std::string s) { return (uint_t)s.size(); }); vec<1,int> v(2); fill_sym(v); auto r = f(v, std::string("a string that is too long for the small buffer")); CHECKM(r.data[0] == 46 && r.data[1] == 46, "each call of the lambda receives the same argument"); auto g = vectorize_lambda_first([](std::string s) { return s; }); vec1s s = {"a string that is too long for the small buffer", "b"}; vec1u id = {1, 0}; auto q = g(s[id]); CHECKM(q.data[1].size() == 46 && s.data[0].size() == 46 && s.data[1].size() == 1, "the elements of a view are not modified"); auto z = g(s); CHECK(z.data[0].size() == 46 && s.data[0].size() == 46); REACH("lambda_move"); }
ENTRY h_lambda_void() { int n = 0; unsigned acc = 0; auto f = vectorize_lambda([&](int x, int& y) { ++n; acc = (acc << 5 | acc >> 27) ^ (unsigned)x; y = x; }); vec<1,int> a(3), b(3); fill_sym(a); f(a, b); unsigned e = 0; for (u64 i = 0; i < 3; ++i) e = (e << 5 | e >> 27) ^ (unsigned)a.data[i]; CHECK(n == 3 && acc == e); for (u64 i = 0; i < 3; ++i) CHECKM(b.data[i] == a.data[i], "a vectorized lambda can modify its arguments"); REACH("lambda_void"); }
ENTRY h_rgen_step_mix() { int a = (int)pick(-3, 3); unsigned b = (unsigned)pick(0, 3); bool sw = pick(0, 1); vec1d v = sw ? rgen_step(b, a, 1.0) : rgen_step(a, b, 1.0); double f = sw ? (double)b : (double)a, l = sw ? (double)a : (double)b; CHECKM(v.size() == (u64)((f < l ? l - f : f - l) + 1), "rgen_step between a signed and an unsigned end"); for (u64 i = 0; i < v.size(); ++i) CHECK(v.data[i] == f + (f < l ? 1.0 : -1.0)*(double)i); REACH("rgen_step_mix"); }
