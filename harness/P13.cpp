#include "hg.h"
#include <vif/math/reduce.hpp>
//BOUND vectors of 0..4 elements, 2-D 2x3, 3-D 2x3x2; integer elements unbounded (32 bit), floating-point sums on small exact values, other statistics on all combinations of values -2..2
//RUN both h_total_i 0..3
//RUN both h_total_types
//RUN both h_total_d 0..3
//RUN both h_count 0..5
//RUN both h_mean 1..3
//RUN both h_wmean 1..2
//RUN both h_wmean_bad
//RUN both h_frac 1..4
//RUN both h_frac2 0..3
//RUN both h_optmean
//RUN both h_rms
//RUN both h_partial_total
//RUN both h_partial_bad
//RUN both h_partial_mean
//RUN both h_partial_minmax
//RUN both h_partial_med
//RUN both h_partial_count
//RUN both h_partial_pct
//RUN both h_partial3
//RUN both h_partial_empty
//RUN both h_reduce
//RUN both h_rundim
//RUN both h_rundim2
//RUN both h_rundim_bad
//RUN both h_clip
//RUN both h_mad
//RUN both h_wmean_neg
//RUN both h_dim4
//RUN both h_run_dim4
ENTRY h_total_i(u64 n) { vec<1,int> v(n); fill_sym(v); i64 e = 0; for (u64 i = 0; i < n; ++i) e += v.data[i]; CHECKM((i64)total(v) == e, "total of integers must not overflow"); REACH("total_i"); }
ENTRY h_total_types() { vec<2,unsigned> v(1, 2); v.data[0] = (unsigned)sym_int(); v.data[1] = (unsigned)sym_int(); CHECK((u64)total(v) == (u64)v.data[0] + (u64)v.data[1]); vec1b b(3); fill_sym(b); CHECK((u64)total(b) == (u64)((bool)b.data[0]) + (bool)b.data[1] + (bool)b.data[2]); vec<1,signed char> c(2); c.data[0] = (signed char)sym_char(); c.data[1] = (signed char)sym_char(); CHECK((i64)total(c) == (i64)c.data[0] + c.data[1]); vec<1,int> w(4); fill_sym(w); vec1u id = {3, 1}; CHECK((i64)total(w[id]) == (i64)w.data[3] + w.data[1]); REACH("total_types"); }
ENTRY h_total_d(u64 n) { vec<1,double> v(n); i64 e = 0; for (u64 i = 0; i < n; ++i) { i64 k = sym_in(-64, 63); v.data[i] = (double)k; e += k; } CHECKM((i64)total(v) == e, "total"); REACH("total_d"); }
ENTRY h_count(u64 n) { vec1b v(n); fill_sym(v); u64 e = 0; for (u64 i = 0; i < n; ++i) e += (bool)v.data[i]; CHECK(count(v) == e); vec<1,int> w(n); fill_sym(w); int x = sym_int("x"); u64 f = 0; for (u64 i = 0; i < n; ++i) f += w.data[i] > x; CHECK(count(w > x) == f); REACH("count"); }
ENTRY h_mean(u64 n) { vec<1,double> v(n); i64 e = 0; for (u64 i = 0; i < n; ++i) { i64 k = pick(-2, 2); v.data[i] = (double)k; e += k; } CHECK(mean(v) == (double)e/(double)n); vec<1,int> w(n); for (u64 i = 0; i < n; ++i) w.data[i] = (int)v.data[i]; CHECKM(mean(w) == (double)e/(double)n, "mean of integers must not be truncated"); vec<1,int> z(n); for (u64 i = 0; i < n; ++i) z.data[i] = 2000000000; CHECK(mean(z) == 2000000000.0); REACH("mean"); }
ENTRY h_wmean(u64 n) { vec<1,double> v(n), w(n); i64 e = 0, s = 0; for (u64 i = 0; i < n; ++i) { i64 k = pick(-2, 2), q = pick(0, 3); v.data[i] = (double)k; w.data[i] = (double)q; e += k*q; s += q; } ASSUME(s != 0); CHECK(weighted_mean(v, w) == (double)e/(double)s); REACH("wmean"); }
ENTRY h_wmean_bad() { vec1d v((u64)pick(0, 2)), w((u64)pick(0, 2)); int op = (int)pick(0, 1); AbortIff ab(v.size() != w.size()); if (op == 0) weighted_mean(v, w); else optimal_mean(v, w); ab.returned("weights of another size accepted"); REACH("wmean_bad"); }
ENTRY h_frac(u64 n) { vec1b v(n); i64 e = 0; for (u64 i = 0; i < n; ++i) { v.data[i] = pick(0, 1); e += (bool)v.data[i]; } CHECK(fraction_of(v) == (double)e/(double)n); REACH("frac"); }
ENTRY h_frac2(u64 n) { vec1b v(n), w(n); i64 e = 0, s = 0; for (u64 i = 0; i < n; ++i) { v.data[i] = pick(0, 1); w.data[i] = pick(0, 1); s += (bool)w.data[i]; e += (bool)w.data[i] && (bool)v.data[i]; } double r = fraction_of(v, w); if (s) CHECKM(r == (double)e/(double)s, "fraction_of(b, among)"); vec1b z((u64)pick(0, 3)); AbortIff ab(z.size() != n); fraction_of(v, z); ab.returned("fraction_of with another size accepted"); REACH("frac2"); }
ENTRY h_optmean() { vec1d v(2), e(2); double a = (double)pick(-3, 3), b = (double)pick(-3, 3); v.data[0] = a; v.data[1] = b; e.data[0] = 1; e.data[1] = 0.5; auto r = optimal_mean(v, e); CHECKM(r.first == (a + 4*b)/5.0, "optimal_mean: weights are 1/error^2"); CHECK(r.second*r.second > 0.19999 && r.second*r.second < 0.20001); REACH("optmean"); }
ENTRY h_rms() { vec1d v(4); double s = 0, m = 0; for (u64 i = 0; i < 4; ++i) { v.data[i] = (double)pick(-1, 2); s += v.data[i]*v.data[i]; m += v.data[i]; } m /= 4; double q = 0; for (u64 i = 0; i < 4; ++i) q += (v.data[i]-m)*(v.data[i]-m); double r = rms(v), d = stddev(v); CHECK(r >= 0 && r*r - s/4 < 1e-9 && s/4 - r*r < 1e-9); CHECKM(d >= 0 && d*d - q/4 < 1e-9 && q/4 - d*d < 1e-9, "stddev: root mean square of the differences with the mean"); REACH("rms"); }
static int el(const vec<2,int>& v, u64 i, u64 j) { return v.data[i*v.dims[1]+j]; }
ENTRY h_partial_total() { vec<2,int> v(2, 3); fill_sym(v); auto a = partial_total(0, v); auto b = partial_total(1, v); CHECK(a.size() == 3 && a.dims[0] == 3 && b.size() == 2 && b.dims[0] == 2); for (u64 j = 0; j < 3; ++j) CHECK((i64)a.data[j] == (i64)el(v, 0, j) + el(v, 1, j)); for (u64 i = 0; i < 2; ++i) CHECK((i64)b.data[i] == (i64)el(v, i, 0) + el(v, i, 1) + el(v, i, 2)); auto c = partial_total(0, v(_, 1-_)); CHECK(c.size() == 2); for (u64 j = 0; j < 2; ++j) CHECK((i64)c.data[j] == (i64)el(v, 0, j+1) + el(v, 1, j+1)); REACH("partial_total"); }
ENTRY h_partial_bad() { vec<2,int> v(2, 2); u64 d = sym_u64("d"); AbortIff ab(d >= 2); auto a = partial_total(d, v); ab.returned("reduction over a dimension that does not exist accepted"); CHECK(a.size() == 2); REACH("partial_bad"); }
ENTRY h_partial_mean() { vec<2,double> v(2, 2); for (u64 i = 0; i < 4; ++i) v.data[i] = (double)pick(-2, 2); auto a = partial_mean(0, v); auto b = partial_mean(1, v); for (u64 i = 0; i < 2; ++i) { CHECK(a.data[i] == (v.data[i] + v.data[2+i])/2); CHECK(b.data[i] == (v.data[2*i] + v.data[2*i+1])/2); } REACH("partial_mean"); }
ENTRY h_partial_minmax() { vec<2,int> v(2, 3); fill_sym(v); auto a = partial_min(0, v); auto b = partial_max(1, v); CHECK(a.size() == 3 && b.size() == 2); for (u64 j = 0; j < 3; ++j) CHECK(a.data[j] == (el(v, 0, j) < el(v, 1, j) ? el(v, 0, j) : el(v, 1, j))); for (u64 i = 0; i < 2; ++i) { int m = el(v, i, 0); for (u64 j = 1; j < 3; ++j) m = el(v, i, j) > m ? el(v, i, j) : m; CHECK(b.data[i] == m); } REACH("partial_minmax"); }
ENTRY h_partial_med() { vec<2,double> v(3, 2); fill_qn(v, 0, 2); auto a = partial_median(0, v); CHECK(a.size() == 2 && a.dims[0] == 2); for (u64 j = 0; j < 2; ++j) { vec1d c = {v.data[j], v.data[2+j], v.data[4+j]}; CHECK(same_(a.data[j], median(c))); } REACH("partial_med"); }
ENTRY h_partial_count() { vec2b v(2, 3); fill_sym(v); auto a = partial_count(0, v); auto b = partial_count(1, v); CHECK(a.size() == 3 && b.size() == 2); for (u64 j = 0; j < 3; ++j) CHECK(a.data[j] == (u64)((bool)v.data[j] + (bool)v.data[3+j])); for (u64 i = 0; i < 2; ++i) CHECK(b.data[i] == (u64)((bool)v.data[3*i] + (bool)v.data[3*i+1] + (bool)v.data[3*i+2])); REACH("partial_count"); }
ENTRY h_partial_pct() { vec<2,int> v(2, 2); for (u64 i = 0; i < 4; ++i) v.data[i] = (int)sym_in(0, 3); auto a = partial_percentile(1, v, 0.0); for (u64 i = 0; i < 2; ++i) CHECK(a.data[i] == (v.data[2*i] < v.data[2*i+1] ? v.data[2*i] : v.data[2*i+1])); REACH("partial_pct"); }
ENTRY h_partial3() { vec<3,int> v(2, 3, 2); fill_sym(v); u64 d = (u64)pick(0, 2); auto a = partial_total(d, v); u64 D[3] = {2, 3, 2}; u64 p = 0; for (u64 k = 0; k < 3; ++k) if (k != d) CHECK(a.dims[p++] == D[k]); CHECK(dims_ok(a)); auto b = partial_max(d, v);
    for (u64 i = 0; i < (d == 0 ? 1 : 2); ++i) for (u64 j = 0; j < (d == 1 ? 1 : 3); ++j) for (u64 k = 0; k < (d == 2 ? 1 : 2); ++k) { i64 e = 0; int m = 0; for (u64 t = 0; t < D[d]; ++t) { int x = v.data[((d == 0 ? t : i)*3 + (d == 1 ? t : j))*2 + (d == 2 ? t : k)]; e += x; m = t == 0 || x > m ? x : m; } u64 o = d == 0 ? j*2+k : d == 1 ? i*2+k : i*3+j; CHECKM((i64)a.data[o] == e, "partial_total of a 3-D vector"); CHECK(b.data[o] == m); } REACH("partial3"); }
ENTRY h_partial_empty() { vec<2,int> v(0, 3); auto a = partial_total(0, v); CHECK(a.size() == 3); for (u64 j = 0; j < 3; ++j) CHECK(a.data[j] == 0); auto b = partial_total(1, v); CHECK(b.size() == 0 && b.dims[0] == 0); REACH("partial_empty"); }
ENTRY h_reduce() { vec<3,int> v(2, 3, 2); fill_sym(v); u64 d = (u64)pick(0, 2); auto a = reduce(d, v, [](vec<1,int> t) { unsigned h = 0; for (u64 i = 0; i < t.data.size(); ++i) h = h*3u + (unsigned)t.data[i]; return (int)(h + 7u*(unsigned)t.dims[0]); }); u64 D[3] = {2, 3, 2}; u64 p = 0; for (u64 k = 0; k < 3; ++k) if (k != d) CHECK(a.dims[p++] == D[k]); CHECK(dims_ok(a));
    for (u64 i = 0; i < (d == 0 ? 1 : 2); ++i) for (u64 j = 0; j < (d == 1 ? 1 : 3); ++j) for (u64 k = 0; k < (d == 2 ? 1 : 2); ++k) { unsigned h = 0; for (u64 t = 0; t < D[d]; ++t) h = h*3u + (unsigned)v.data[((d == 0 ? t : i)*3 + (d == 1 ? t : j))*2 + (d == 2 ? t : k)]; u64 o = d == 0 ? j*2+k : d == 1 ? i*2+k : i*3+j; CHECKM((unsigned)a.data[o] == h + 7u*(unsigned)D[d], "reduce: each slice in order"); } REACH("reduce"); }
ENTRY h_rundim() { vec<2,int> v(2, 3), w(2, 3); fill_sym(v); fill_sym(w); u64 d = (u64)pick(0, 1); u64 n = 0; run_dim(d, v, w, [&](uint_t i, vec<1,int> a, vec<1,int> b) { CHECKM(i == n, "run_dim: slices in order"); ++n; CHECK(a.size() == (d ? 3 : 2) && b.size() == a.size()); for (u64 k = 0; k < a.size(); ++k) { u64 p = d ? i*3+k : k*3+i; CHECK(a.data[k] == v.data[p] && b.data[k] == w.data[p]); } }); CHECK(n == (d ? 2 : 3)); REACH("rundim"); }
ENTRY h_rundim2() { vec<3,int> v(2, 2, 3); fill_iota(v, 0); u64 d = (u64)pick(0, 2); u64 D[3] = {2, 2, 3}, n = 0; bool seen[12] = {}; run_dim(d, v, [&](uint_t i, vec<1,int> a) { CHECK(i == n); ++n; CHECK(a.size() == D[d]); for (u64 k = 0; k < a.size(); ++k) { CHECK(!seen[a.data[k]]); seen[a.data[k]] = true; if (k) CHECK((u64)(a.data[k]-a.data[k-1]) == (d == 0 ? 6u : d == 1 ? 3u : 1u)); } }); CHECK(n == 12/D[d]); for (bool s : seen) CHECK(s); REACH("rundim2"); }
ENTRY h_rundim_bad() { vec<2,int> v(2, 2), w(2, (u64)pick(1, 3)); u64 d = sym_u64("d"); AbortIff ab((d >= 2) | (w.dims[1] != 2)); run_dim(d, v, w, [](uint_t, vec<1,int>, vec<1,int>) {}); ab.returned("run_dim with incompatible vectors accepted"); REACH("rundim_bad"); }
ENTRY h_clip() { vec<1,double> v(3); for (u64 i = 0; i < 3; ++i) v.data[i] = (double)pick(0, 3); vec<1,double> o = v; vec1b r = sigma_clip(v, 1.0); CHECK(r.size() == 3); double m = median(o); vec1d d(3); for (u64 i = 0; i < 3; ++i) d.data[i] = o.data[i] > m ? o.data[i]-m : m-o.data[i]; double s = 1.48*median(d); for (u64 i = 0; i < 3; ++i) { CHECKM((bool)r.data[i] == (d.data[i] <= s), "sigma_clip: true exactly within sigma*1.48*MAD of the median, in the order of the input"); CHECK(v.data[i] == o.data[i]); } REACH("clip"); }
ENTRY h_mad() { vec<1,double> v(3); for (u64 i = 0; i < 3; ++i) v.data[i] = (double)pick(0, 3); double m = median(v); vec1d d(3); for (u64 i = 0; i < 3; ++i) d.data[i] = v.data[i] > m ? v.data[i]-m : m-v.data[i]; CHECK(mad(v) == median(d)); REACH("mad"); }
ENTRY h_wmean_neg() { vec<2,double> v(1, 2), w(1, 2); i64 e = 0, s = 0; for (u64 i = 0; i < 2; ++i) { i64 k = pick(-2, 2), q = pick(-3, 3); v.data[i] = (double)k; w.data[i] = (double)q; e += k*q; s += q; } ASSUME(s != 0); CHECK(weighted_mean(v, w) == (double)e/(double)s); REACH("wmean_neg"); vec<2,double> z(2, 1); AbortIff ab(true); if (pick(0, 1)) weighted_mean(v, z); else optimal_mean(v, z); ab.returned("weights of other dimensions accepted"); }
// four dimensions, all different
static u64 at4(const u64* D, u64 d, u64 o, u64 t) { u64 ix[4]; u64 r = o; for (int k = 3; k >= 0; --k) if ((u64)k != d) { ix[k] = r % D[k]; r /= D[k]; } ix[d] = t; return ((ix[0]*D[1] + ix[1])*D[2] + ix[2])*D[3] + ix[3]; }
ENTRY h_dim4() { u64 D[4] = {2, 1, 3, 2}; if (pick(0, 1)) { D[0] = 1; D[1] = 2; D[3] = 3; D[2] = 2; } vec<4,int> v(D[0], D[1], D[2], D[3]); fill_sym(v); u64 d = (u64)pick(0, 3); auto a = partial_total(d, v); auto b = partial_max(d, v); auto c = reduce(d, v, [](vec<1,int> t) { unsigned h = 0; for (u64 i = 0; i < t.data.size(); ++i) h = h*3u + (unsigned)t.data[i]; return (int)h; }); u64 p = 0; for (u64 k = 0; k < 4; ++k) if (k != d) { CHECK(a.dims[p] == D[k] && b.dims[p] == D[k] && c.dims[p] == D[k]); ++p; } CHECK(dims_ok(a) && dims_ok(b) && dims_ok(c));
    for (u64 o = 0; o < 12/D[d]; ++o) { i64 e = 0; int m = 0; unsigned h = 0; for (u64 t = 0; t < D[d]; ++t) { int x = v.data[at4(D, d, o, t)]; e += x; m = t == 0 || x > m ? x : m; h = h*3u + (unsigned)x; } CHECKM((i64)a.data[o] == e, "partial_total of a 4-D vector"); CHECK(b.data[o] == m); CHECKM((unsigned)c.data[o] == h, "reduce of a 4-D vector"); } REACH("dim4"); }
ENTRY h_run_dim4() { u64 D[4] = {2, 1, 3, 2}; if (pick(0, 1)) { D[0] = 1; D[1] = 2; D[3] = 3; D[2] = 2; } vec<4,int> v(D[0], D[1], D[2], D[3]), w(D[0], D[1], D[2], D[3]); fill_sym(v); fill_sym(w); u64 d = (u64)pick(0, 3); u64 n = 0; run_dim(d, v, w, [&](uint_t i, vec<1,int> x, vec<1,int> y) { CHECKM(i == n, "run_dim: slices in order"); ++n; CHECK(x.size() == D[d] && y.size() == D[d]); for (u64 t = 0; t < D[d]; ++t) { CHECK(x.data[t] == v.data[at4(D, d, i, t)]); CHECK(y.data[t] == w.data[at4(D, d, i, t)]); } }); CHECKM(n == 12/D[d], "run_dim: every slice once");
    REACH("run_dim4"); vec<4,int> z(D[1], D[0], D[2], D[3]); AbortIff ab(true); if (pick(0, 1)) run_dim(d, v, z, [&](uint_t, vec<1,int>, vec<1,int>) {}); else run_dim(d, v, w, z, [&](uint_t, vec<1,int>, vec<1,int>, vec<1,int>) {}); ab.returned("run_dim on vectors of different dimensions accepted"); }
