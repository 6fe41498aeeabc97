#include "hg.h"
#include <vif/math/reduce.hpp>
//BOUND vectors of 1..4 elements (5 thorough) with any bit pattern for min/max, small values and NaN for ranks; 2-D up to 2x3; percentile fractions k/8 and unbounded out-of-range fractions
//RUN both h_minmax_i 1..4
//RUN both h_minmax_d 1..3
//RUN thorough h_minmax_d 4
//RUN both h_minmax_f 2
//RUN both h_minmax_2d
//RUN both h_minmax_view
//RUN both h_empty
//RUN both h_ew_vv 0..2
//RUN both h_ew_vs 0..2
//RUN both h_ew_d
//RUN both h_ew_bad
//RUN both h_med_i 1..3
//RUN both h_med_is 4
//RUN thorough h_med_is 5
//RUN both h_med_d 1..3
//RUN thorough h_med_d 4
//RUN both h_med_allnan
//RUN both h_med_2d
//RUN both h_med_inpl 1..3
//RUN both h_pct 1..3
//RUN thorough h_pct 4
//RUN both h_pct_ext 1..3
//RUN both h_pcts 1..3
//RUN both h_pcts_allnan
//RUN both h_wpct 1..3
//RUN both h_wpct_bad
//RUN both h_wmed
//RUN both h_big 20
//RUN both h_ew_dims
template<class T> static bool nan_(T x) { return is_nan_((double)x); }
static bool nan_(int) { return false; }
// first position of the smallest / largest number; 0 if there is none
template<class V> static u64 amin(const V& v, u64 n) { u64 k = 0; for (u64 i = 1; i < n; ++i) k = (!nan_(v[i])) & (nan_(v[k]) | (v[i] < v[k])) ? i : k; return k; }
template<class V> static u64 amax(const V& v, u64 n) { u64 k = 0; for (u64 i = 1; i < n; ++i) k = (!nan_(v[i])) & (nan_(v[k]) | (v[i] > v[k])) ? i : k; return k; }
template<class T> static bool eq(T a, T b) { return (a == b) | (nan_(a) & nan_(b)); }
template<class W, class T> static void minmax_all(const W& v, const T* a, u64 n) {
    u64 im = amin(a, n), ix = amax(a, n); T mn = pick_at(a, n, im), mx = pick_at(a, n, ix);
    CHECKM(eq((T)min(v), mn), "min must be the smallest number"); CHECKM(eq((T)max(v), mx), "max must be the largest number");
    CHECKM(min_id(v) == im, "min_id: first smallest number"); CHECKM(max_id(v) == ix, "max_id: first largest number");
    uint_t k = 99; CHECK(eq((T)min(v, k), mn)); CHECK(k == im); k = 99; CHECK(eq((T)max(v, k), mx)); CHECK(k == ix);
    auto p = minmax(v); CHECKM(eq((T)p.first, mn) && eq((T)p.second, mx), "minmax");
    auto q = minmax_ids(v); CHECK((q.first < n) & (q.second < n)); CHECKM(eq(pick_at(a, n, q.first), mn) & eq(pick_at(a, n, q.second), mx), "minmax_ids must point to the extrema");
    std::pair<uint_t,uint_t> id(99, 99); auto r = minmax(v, id); CHECK(eq((T)r.first, mn) && eq((T)r.second, mx)); CHECK((id.first == q.first) & (id.second == q.second));
}
ENTRY h_minmax_i(u64 n) { vec<1,int> v(n); fill_sym(v); minmax_all(v, v.data.data(), n); REACH("minmax_i"); }
ENTRY h_minmax_d(u64 n) { vec<1,double> v(n); fill_sym(v); minmax_all(v, v.data.data(), n); REACH("minmax_d"); }
ENTRY h_minmax_f(u64 n) { vec<1,float> v(n); fill_sym(v); minmax_all(v, v.data.data(), n); REACH("minmax_f"); }
ENTRY h_minmax_2d() { vec<2,int> v(2, 2); fill_sym(v); minmax_all(v, v.data.data(), 4); REACH("minmax_2d"); }
ENTRY h_minmax_view() { vec<1,double> v(4); fill_sym(v); vec1u id = {3, 0, 2}; double a[3] = {v.data[3], v.data[0], v.data[2]}; u64 im = amin(a, 3), ix = amax(a, 3); CHECK(eq((double)min(v[id]), pick_at(a, 3, im))); CHECK(eq((double)max(v[id]), pick_at(a, 3, ix))); CHECK(min_id(v[id]) == im); CHECK(max_id(v[id]) == ix); REACH("minmax_view"); }
ENTRY h_empty() { vec<1,double> v; int op = (int)pick(0, 8); vf_abort_ok(true); uint_t k; if (op == 0) min(v); else if (op == 1) max(v); else if (op == 2) minmax(v); else if (op == 3) median(v); else if (op == 4) percentile(v, 0.5); else if (op == 5) min_id(v); else if (op == 6) max(v, k); else if (op == 7) weighted_percentile(v, v, 0.5); else percentiles(v, 0.5, 0.1); CHECKM(false, "extremum or percentile of an empty vector must stop the program"); }
ENTRY h_ew_vv(u64 n) { vec<1,int> a(n), b(n); fill_sym(a); fill_sym(b); auto r = min(a, b); auto s = max(a, b); CHECK(r.size() == n && s.size() == n && r.dims[0] == n && s.dims[0] == n); for (u64 i = 0; i < n; ++i) { CHECK(r.data[i] == (a.data[i] < b.data[i] ? a.data[i] : b.data[i])); CHECK(s.data[i] == (a.data[i] < b.data[i] ? b.data[i] : a.data[i])); } REACH("ew_vv"); }
ENTRY h_ew_vs(u64 n) { vec<1,int> a(n); fill_sym(a); int b = sym_int(); auto r = min(a, b), r2 = min(b, a), s = max(a, b), s2 = max(b, a); CHECK(r.size() == n && s.size() == n && r2.size() == n && s2.size() == n); for (u64 i = 0; i < n; ++i) { int lo = a.data[i] < b ? a.data[i] : b, hi = a.data[i] < b ? b : a.data[i]; CHECK(r.data[i] == lo && r2.data[i] == lo && s.data[i] == hi && s2.data[i] == hi); } REACH("ew_vs"); }
ENTRY h_ew_d() { vec<1,double> a(2); fill_sym(a); for (u64 i = 0; i < 2; ++i) ASSUME(!is_nan_(a.data[i])); auto r = min(0, a); auto s = max(0, a); auto t = max(a, 0); for (u64 i = 0; i < 2; ++i) { CHECKM((double)r.data[i] == (a.data[i] < 0 ? a.data[i] : 0.0), "min(scalar, vector) must keep the values of the vector"); CHECK((double)s.data[i] == (a.data[i] < 0 ? 0.0 : a.data[i])); CHECK((double)t.data[i] == (a.data[i] < 0 ? 0.0 : a.data[i])); } REACH("ew_d"); }
ENTRY h_ew_bad() { vec<1,int> a((u64)pick(0, 2)), b((u64)pick(0, 2)); bool mx = sym_bool(); AbortIff ab(a.size() != b.size()); auto r = mx ? max(a, b) : min(a, b); ab.returned("min/max of different sizes accepted"); CHECK(r.size() == a.size()); REACH("ew_bad"); }
// r is the k-th smallest (from 0) of the numbers among v
template<class T> static bool is_rank(const T* v, u64 n, T r, u64 k) { u64 lt = 0, le = 0; bool in = false; for (u64 i = 0; i < n; ++i) { bool nn = !nan_(v[i]); lt += nn & (v[i] < r); le += nn & (v[i] <= r); in |= v[i] == r; } return in & (lt <= k) & (k < le); }
ENTRY h_med_i(u64 n) { vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; int m = median(v); CHECKM(is_rank(o.data.data(), n, m, n/2), "median: the n/2-th smallest value"); for (u64 i = 0; i < n; ++i) CHECKM(v.data[i] == o.data[i], "median must not modify its argument"); REACH("med_i"); }
ENTRY h_med_is(u64 n) { vec<1,int> v(n); for (u64 i = 0; i < n; ++i) v.data[i] = (int)sym_in(0, 3); int m = median(v); CHECKM(is_rank(v.data.data(), n, m, n/2), "median: the n/2-th smallest value"); REACH("med_is"); }
static u64 good(const vec<1,double>& v) { u64 g = 0; for (u64 i = 0; i < v.data.size(); ++i) g += !is_nan_(v.data[i]); return g; }
ENTRY h_med_d(u64 n) { vec<1,double> v(n); fill_sym(v); u64 g = good(v); ASSUME(g > 0); double m = median(v); CHECKM(is_rank(v.data.data(), n, m, g/2), "median: the n/2-th smallest of the non-NaN values"); REACH("med_d"); }
ENTRY h_med_allnan() { u64 n = (u64)pick(1, 3); vec<1,double> v(n); for (u64 i = 0; i < n; ++i) v.data[i] = dnan; CHECK(is_nan_(median(v))); CHECK(is_nan_(percentile(v, 0.3))); REACH("med_allnan"); }
ENTRY h_med_2d() { vec<2,int> v(2, 2); for (u64 i = 0; i < 4; ++i) v.data[i] = (int)sym_in(-2, 1); int m = median(v); CHECK(is_rank(v.data.data(), 4, m, 2)); m = median(v(_, 1)); int a[2] = {v.data[1], v.data[3]}; CHECK(is_rank(a, 2, m, 1)); REACH("med_2d"); }
ENTRY h_med_inpl(u64 n) { vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; int m = inplace_median(v); CHECK(is_rank(o.data.data(), n, m, n/2)); CHECK(v.size() == n); int x = sym_int("x"); u64 a = 0, b = 0; for (u64 i = 0; i < n; ++i) { a += o.data[i] == x; b += v.data[i] == x; } CHECKM(a == b, "inplace_median may only reorder the values"); REACH("med_inpl"); }
// rank floor(n*p) clamped to the number of non-NaN values
ENTRY h_pct(u64 n) { vec<1,double> v(n); fill_qn(v, -2, 2); u64 g = good(v); ASSUME(g > 0); u64 k = (u64)pick(0, 8); double r = percentile(v, (double)k/8.0); u64 rk = g*k/8; rk = rk > g-1 ? g-1 : rk; CHECKM(is_rank(v.data.data(), n, r, rk), "percentile: the floor(n*p)-th smallest of the non-NaN values"); REACH("pct"); }
ENTRY h_pct_ext(u64 n) { vec<1,double> v(n); fill_qn(v, -2, 2); u64 g = good(v); ASSUME(g > 0); double p = (double)pick(-2, 3); ASSUME(p < 0 || p >= 1); double r = percentile(v, p); CHECKM(is_rank(v.data.data(), n, r, p < 0 ? 0 : g-1), "percentile out of [0,1] gives the extrema"); REACH("pct_ext"); }
ENTRY h_pcts(u64 n) { vec<1,double> v(n); fill_qn(v, -1, 1); u64 g = good(v); ASSUME(g > 0); vec<1,double> o = v; vec1d r = percentiles(v, 0.25, 0.5, 1.0); CHECK(r.size() == 3 && r.dims[0] == 3); CHECKM(is_rank(o.data.data(), n, r.data[0], g/4) & is_rank(o.data.data(), n, r.data[1], g/2) & is_rank(o.data.data(), n, r.data[2], g-1), "percentiles: each the requested rank of the non-NaN values"); for (u64 i = 0; i < n; ++i) CHECK(same_(v.data[i], o.data[i])); REACH("pcts"); }
ENTRY h_pcts_allnan() { u64 n = (u64)pick(1, 3); vec<1,double> v(n); for (u64 i = 0; i < n; ++i) v.data[i] = dnan; vec1d r = percentiles(v, 0.0, 0.5, 1.0); CHECK(r.size() == 3); for (u64 i = 0; i < 3; ++i) CHECK(is_nan_(r.data[i])); REACH("pcts_allnan"); }
// smallest value whose cumulated weight reaches the fraction p of the total; pairs with a NaN are ignored
ENTRY h_wpct(u64 n) { vec<1,double> v(n), w(n); for (u64 i = 0; i < n; ++i) { v.data[i] = sym_qn(0, 2); w.data[i] = pick(0, 3) - 1; if (w.data[i] < 0) w.data[i] = dnan; } double p = (double)pick(1, 4)/4.0; double tot = 0; for (u64 i = 0; i < n; ++i) if (!is_nan_(v.data[i]) && !is_nan_(w.data[i])) tot += w.data[i]; double r = weighted_percentile(v, w, p);
    if (tot == 0) CHECKM(is_nan_(r), "weighted_percentile without usable data is NaN"); else { double below = 0, upto = 0; bool in = false; for (u64 i = 0; i < n; ++i) if (!is_nan_(v.data[i]) && !is_nan_(w.data[i])) { if (v.data[i] < r) below += w.data[i]; if (v.data[i] <= r) upto += w.data[i]; in |= v.data[i] == r; } CHECKM(in, "weighted_percentile: one of the values"); CHECKM(upto >= tot*p && below < tot*p, "weighted_percentile: cumulated weight"); } REACH("wpct"); }
ENTRY h_wpct_bad() { vec1d v((u64)pick(1, 2)), w((u64)pick(0, 2)); for (auto& x : w) x = 1; AbortIff ab(v.size() != w.size()); weighted_percentile(v, w, 0.5); ab.returned("weighted_percentile with another number of weights accepted"); REACH("wpct_bad"); }
ENTRY h_wmed() { vec<1,double> v(2), w(2); for (u64 i = 0; i < 2; ++i) { v.data[i] = (double)sym_in(0, 3); w.data[i] = (double)pick(1, 2); } double r = weighted_median(v, w); double a = v.data[0], b = v.data[1]; bool sw = b < a; double lo = sw ? b : a, hi = sw ? a : b, wl = sw ? w.data[1] : w.data[0], wh = sw ? w.data[0] : w.data[1]; CHECK(r == (a == b ? a : (wl >= wh ? lo : hi))); REACH("wmed"); }
ENTRY h_big(u64 n) { vec<1,int> v(n); for (u64 i = 0; i < n; ++i) v.data[i] = (int)((i*7+3) % 11); v.data[2] = (int)pick(0, 11); v.data[n-1] = (int)pick(0, 11); int m = median(v); CHECK(is_rank(v.data.data(), n, m, n/2)); int p = percentile(v, 0.25); CHECK(is_rank(v.data.data(), n, p, n/4)); minmax_all(v, v.data.data(), n); REACH("big"); }
ENTRY h_ew_dims() { int k = (int)pick(0, 2); vec<2,int> a(2, 3), b(k == 0 ? 3 : k == 1 ? 2 : 6, k == 0 ? 2 : k == 1 ? 3 : 1); fill_sym(a); fill_sym(b); bool mx = pick(0, 1); AbortIff ab(k != 1); vec<2,int> r; if (mx) r = max(a, b); else r = min(a, b); ab.returned("min/max of vectors of other dimensions accepted"); CHECK(r.dims == a.dims && dims_ok(r)); for (u64 i = 0; i < 6; ++i) { int x = a.data[i], y = b.data[i]; CHECK(r.data[i] == (mx == (x > y) ? x : y)); } REACH("ew_dims"); }
