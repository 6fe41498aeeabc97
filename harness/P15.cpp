#include "hg.h"
#include <vif/math/reduce.hpp>
#include <vif/math/histogram.hpp>
//BOUND 0..4 data points (any double, incl. NaN and infinities), up to 3 bins with arbitrary finite edges (disjoint, in any order, possibly with gaps); 2-D histograms of up to 3 points on 2x2 bins; weights: all 32-bit integers; cumulated sums of up to 4 elements
//RUN both h_count 0..2
//RUN thorough h_count 3
//RUN both h_count_int 0..3
//RUN thorough h_count_int 4
//RUN both h_count_order
//RUN both h_count_2d
//RUN both h_count_edges
//RUN both h_weight 0..3
//RUN thorough h_weight 4
//RUN both h_callback 0..3
//RUN both h_hist2 0..2
//RUN thorough h_hist2 3
//RUN both h_hist2_cb 0..2
//RUN both h_bad
//RUN both h_nobin
//RUN both h_in_bin
//RUN both h_in_bin_vec
//RUN both h_in_bin_open 2..3
//RUN both h_in_bin_bad
//RUN both h_make1
//RUN both h_make_n 0..4
//RUN both h_make_int
//RUN both h_edges 0..4
//RUN both h_centers 0..4
//RUN both h_center_width
//RUN both h_cumul 0..4
//RUN both h_cumul_rev 0..4
//RUN both h_many
//RUN both h_dims2
static vec<1,double> anyd(u64 n) { vec<1,double> v(n); fill_sym(v); return v; }
// bins [a,b) [b,c) with finite, increasing edges
static vec2d bins2(double& a, double& b, double& c) { a = sym_q(-100, 100, 0.5, "edge"); b = sym_q(-100, 100, 0.5, "edge"); c = sym_q(-100, 100, 0.5, "edge"); ASSUME((a < b) & (b < c)); vec2d r(2, 2); r.data[0] = a; r.data[1] = b; r.data[2] = b; r.data[3] = c; return r; }
ENTRY h_count(u64 n) { vec<1,double> v = anyd(n), o = v; double a, b, c; vec2d B = bins2(a, b, c); vec1u r = histogram(v, B); CHECK(r.size() == 2 && r.dims[0] == 2); u64 e0 = 0, e1 = 0; for (u64 i = 0; i < n; ++i) { e0 += (v.data[i] >= a) & (v.data[i] < b); e1 += (v.data[i] >= b) & (v.data[i] < c); } CHECKM((r.data[0] == e0) & (r.data[1] == e1), "histogram: number of elements in each half-open bin"); for (u64 i = 0; i < n; ++i) CHECK(bits_of(v.data[i]) == bits_of(o.data[i])); REACH("count"); }
ENTRY h_count_int(u64 n) { vec<1,int> v(n); fill_sym(v); vec<2,int> B = {{-5, 0, 7}, {0, 7, 9}}; vec1u r = histogram(v, B); u64 lo[3] = {0}, k; int L[3] = {-5, 0, 7}, U[3] = {0, 7, 9}; for (u64 i = 0; i < n; ++i) for (k = 0; k < 3; ++k) lo[k] += (v.data[i] >= L[k]) & (v.data[i] < U[k]); CHECK(r.size() == 3); for (k = 0; k < 3; ++k) CHECKM(r.data[k] == lo[k], "histogram of integers"); vec1u id = {0}; if (n > 1) { vec1u s = histogram(v[id], B); for (k = 0; k < 3; ++k) CHECK(s.data[k] == (u64)((v.data[0] >= L[k]) & (v.data[0] < U[k]))); } REACH("count_int"); }
ENTRY h_count_order() { vec<1,int> v(3); fill_sym(v); vec<2,int> B = {{10, -4, 3}, {12, 1, 4}}; vec1u r = histogram(v, B); for (u64 k = 0; k < 3; ++k) { u64 e = 0; for (u64 i = 0; i < 3; ++i) e += (v.data[i] >= B.data[k]) & (v.data[i] < B.data[3+k]); CHECKM(r.data[k] == e, "bins in any order, with gaps"); } REACH("count_order"); }
ENTRY h_count_2d() { vec<2,int> B = {{10, -4}, {12, 1}}; vec<2,int> w(2, 2); fill_sym(w); vec1u q = histogram(w, B); for (u64 k = 0; k < 2; ++k) { u64 e = 0; for (u64 i = 0; i < 4; ++i) e += (w.data[i] >= B.data[k]) & (w.data[i] < B.data[2+k]); CHECK(q.data[k] == e); } REACH("count_2d"); }
ENTRY h_count_edges() { vec1d v = {0, 1, 2, 0.5, 1.5, -0.25, 2.5}; double a, b, c; vec2d B = bins2(a, b, c); vec1u r = histogram(v, B); u64 e0 = 0, e1 = 0; for (u64 i = 0; i < 7; ++i) { e0 += (v.data[i] >= a) & (v.data[i] < b); e1 += (v.data[i] >= b) & (v.data[i] < c); } CHECK((r.data[0] == e0) & (r.data[1] == e1)); REACH("count_edges"); }
ENTRY h_weight(u64 n) { vec<1,int> v(n), w(n); fill_sym(v); fill_sym(w, "w"); vec<2,int> B = {{-5, 0}, {0, 7}}; auto r = histogram(v, w, B); CHECK(r.size() == 2); for (u64 k = 0; k < 2; ++k) { unsigned e = 0; for (u64 i = 0; i < n; ++i) e += (v.data[i] >= B.data[k] && v.data[i] < B.data[2+k]) ? (unsigned)w.data[i] : 0u; CHECKM((unsigned)r.data[k] == e, "weighted histogram: sum of the weights of the elements in each bin"); } REACH("weight"); }
ENTRY h_callback(u64 n) { vec<1,int> v(n); fill_sym(v); vec<2,int> B = {{-5, 0}, {0, 7}}; int seen[4] = {-1, -1, -1, -1}; bool called[2] = {}; histogram(v, B, [&](uint_t b, vec1u ids) { CHECK(b < 2); CHECKM(!called[b], "each bin at most once"); called[b] = true; CHECK(dims_ok(ids)); for (u64 i = 0; i < ids.size(); ++i) { CHECK(ids.data[i] < n); for (u64 q = 0; q < n; ++q) if (ids.data[i] == q) { CHECKM(seen[q] == -1, "each element in one bin"); seen[q] = (int)b; } } }); for (u64 i = 0; i < n; ++i) { int e = v.data[i] < -5 ? -1 : v.data[i] < 0 ? 0 : v.data[i] < 7 ? 1 : -1; CHECKM(seen[i] == e, "histogram callback receives the indices of the elements of the bin"); } REACH("callback"); }
ENTRY h_hist2(u64 n) { vec<1,int> x(n), y(n); fill_sym(x); fill_sym(y); vec<2,int> A = {{0, 5}, {5, 8}}, B = {{-3, 1}, {1, 2}}; vec2u r = histogram2d(x, y, A, B); CHECK(r.dims[0] == 2 && r.dims[1] == 2 && dims_ok(r)); for (u64 i = 0; i < 2; ++i) for (u64 j = 0; j < 2; ++j) { u64 e = 0; for (u64 k = 0; k < n; ++k) e += (x.data[k] >= A.data[i]) & (x.data[k] < A.data[2+i]) & (y.data[k] >= B.data[j]) & (y.data[k] < B.data[2+j]); CHECKM(r.data[i*2+j] == e, "2-D histogram"); } REACH("hist2"); }
ENTRY h_hist2_cb(u64 n) { vec<1,int> x(n), y(n); fill_sym(x); fill_sym(y); vec<2,int> A = {{0, 5}, {5, 8}}, B = {{-3, 1, 2}, {1, 2, 9}}; int seen[3] = {-1, -1, -1}; bool called[6] = {}; histogram2d(x, y, A, B, [&](uint_t a, uint_t b, vec1u ids) { CHECK(a < 2 && b < 3); CHECK(!called[a*3+b]); called[a*3+b] = true; for (u64 i = 0; i < ids.size(); ++i) { CHECK(ids.data[i] < n); for (u64 q = 0; q < n; ++q) if (ids.data[i] == q) { CHECK(seen[q] == -1); seen[q] = (int)(a*3+b); } } }); for (u64 k = 0; k < n; ++k) { int e = -1; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (x.data[k] >= A.data[i] && x.data[k] < A.data[2+i] && y.data[k] >= B.data[j] && y.data[k] < B.data[3+j]) e = i*3+j; CHECKM(seen[k] == e, "2-D histogram callback"); } REACH("hist2_cb"); }
ENTRY h_bad() { vec<1,int> x(2), y((u64)pick(1, 3)); vec<2,int> A((u64)pick(1, 3), 2), B((u64)pick(1, 3), 1); int op = (int)pick(0, 4); bool bad = A.dims[0] != 2; if (op == 1) bad |= y.size() != 2; if (op >= 3) bad |= (B.dims[0] != 2) | (y.size() != 2); AbortIff ab(bad); if (op == 0) histogram(x, A); else if (op == 1) histogram(x, y, A); else if (op == 2) histogram(x, A, [](uint_t, vec1u) {}); else if (op == 3) histogram2d(x, y, A, B); else histogram2d(x, y, A, B, [](uint_t, uint_t, vec1u) {}); ab.returned("histogram with incompatible arrays accepted"); REACH("bad"); }
ENTRY h_nobin() { vec<1,int> x(2); fill_sym(x); vec<2,int> A(2, 0); vec1u r = histogram(x, A); CHECK(r.size() == 0 && r.dims[0] == 0); auto w = histogram(x, x, A); CHECK(w.size() == 0); REACH("nobin"); }
ENTRY h_in_bin() { double x = sym_dbl("x"), a = sym_dbl("a"), b = sym_dbl("b"); vec1d B(2); B.data[0] = a; B.data[1] = b; CHECKM(in_bin(x, B) == ((x >= a) & (x < b)), "in_bin: half-open interval"); vec2d C(2, 2); C.data[0] = 0; C.data[2] = 0; C.data[1] = a; C.data[3] = b; CHECK(in_bin(x, C, 1) == ((x >= a) & (x < b))); REACH("in_bin"); }
ENTRY h_in_bin_vec() { vec<2,double> v(1, 2); fill_sym(v); double a = sym_dbl("a"), b = sym_dbl("b"); vec1d B(2); B.data[0] = a; B.data[1] = b; auto r = in_bin(v, B); vec2d C(2, 3); C.data[2] = a; C.data[5] = b; auto q = in_bin(v, C, 2); CHECK(r.dims[0] == 1 && r.dims[1] == 2 && q.dims[1] == 2 && dims_ok(r) && dims_ok(q)); for (u64 i = 0; i < 2; ++i) { bool e = (v.data[i] >= a) & (v.data[i] < b); CHECK((bool)r.data[i] == e); CHECK((bool)q.data[i] == e); } REACH("in_bin_vec"); }
ENTRY h_in_bin_open(u64 nb) { vec<1,int> v(2); fill_sym(v); vec<2,int> C(2, nb); int ed[4]; for (u64 i = 0; i <= nb; ++i) { ed[i] = sym_int("edge"); if (i) ASSUME(ed[i-1] < ed[i]); } for (u64 i = 0; i < nb; ++i) { C.data[i] = ed[i]; C.data[nb+i] = ed[i+1]; } u64 tot[2] = {}; for (u64 b = 0; b < nb; ++b) { auto r = in_bin_open(v, C, b); CHECK(r.size() == 2); for (u64 i = 0; i < 2; ++i) { bool e = (b == 0 || v.data[i] >= ed[b]) && (b == nb-1 || v.data[i] < ed[b+1]); CHECKM((bool)r.data[i] == e, "in_bin_open: the first and last bins have no outer limit"); CHECK(in_bin_open(v.data[i], C, b) == e); tot[i] += (bool)r.data[i]; } } CHECK((tot[0] == 1) & (tot[1] == 1)); REACH("in_bin_open"); }
ENTRY h_in_bin_bad() { vec<1,int> b((u64)pick(1, 3)); vec<2,int> c((u64)pick(1, 3), 2); vec<1,int> v(1); u64 k = sym_u64("ib"); int op = (int)pick(0, 6); bool bad = op < 2 ? b.size() != 2 : ((c.dims[0] != 2) | ((k >= 2) & (op < 6))); AbortIff ab(bad); switch (op) { case 0: in_bin(1, b); break; case 1: in_bin(v, b); break; case 2: in_bin(1, c, k); break; case 3: in_bin(v, c, k); break; case 4: in_bin_open(1, c, k); break; case 5: in_bin_open(v, c, k); break; default: bin_center(c); bin_width(c); } ab.returned("invalid bin accepted"); REACH("in_bin_bad"); }
ENTRY h_make1() { int a = sym_int(), b = sym_int(); auto r = make_bins(a, b); CHECK(r.dims[0] == 2 && r.dims[1] == 1 && dims_ok(r) && r.data[0] == a && r.data[1] == b); REACH("make1"); }
ENTRY h_make_n(u64 n) { double a; i64 w = pick(1, 8, "w"); a = (double)pick(-2, 1); auto r = make_bins(a, a + (double)w*(double)n*0.5, n); CHECK(r.dims[0] == 2 && r.dims[1] == n && dims_ok(r)); for (u64 i = 0; i < n; ++i) { double l = a + (double)w*0.5*(double)i, u = a + (double)w*0.5*(double)(i+1); double d = r.data[i] - l, e = r.data[n+i] - u; CHECKM((d < 1e-9) & (d > -1e-9) & (e < 1e-9) & (e > -1e-9), "make_bins: n contiguous bins of equal width covering the interval"); } REACH("make_n"); }
ENTRY h_make_int() { int a = (int)sym_in(-100, 100); auto r = make_bins(a, a + 3, 4); CHECK(r.dims[1] == 4); for (u64 i = 0; i < 4; ++i) CHECKM((r.data[i] == a + 0.75*i) & (r.data[4+i] == a + 0.75*(i+1)), "bins between integers are not truncated"); REACH("make_int"); }
ENTRY h_edges(u64 n) { vec1d e(n); fill_sym(e); AbortIff ab(n < 2); auto r = make_bins_from_edges(e); ab.returned("bins from less than two edges accepted"); CHECK(r.dims[0] == 2 && r.dims[1] == n-1 && dims_ok(r)); for (u64 i = 0; i+1 < n; ++i) CHECK(bits_of(r.data[i]) == bits_of(e.data[i]) && bits_of(r.data[n-1+i]) == bits_of(e.data[i+1])); REACH("edges"); }
ENTRY h_centers(u64 n) { vec1d e(n); fill_q(e, -1000, 1000); AbortIff ab(n < 2); auto r = make_bins_from_centers(e); ab.returned("bins from less than two centers accepted"); CHECK(r.dims[0] == 2 && r.dims[1] == n && dims_ok(r)); for (u64 i = 0; i < n; ++i) { double l = i == 0 ? e.data[0]*1.5 - e.data[1]*0.5 : 0.5*(e.data[i-1]+e.data[i]), u = i == n-1 ? e.data[i]*1.5 - e.data[i-1]*0.5 : 0.5*(e.data[i]+e.data[i+1]); CHECKM((r.data[i] == l) & (r.data[n+i] == u), "bins from centers: edges halfway between centers"); } REACH("centers"); }
ENTRY h_center_width() { vec2d b(2, 3); fill_q(b, -1000, 1000); auto c = bin_center(b); auto w = bin_width(b); CHECK(c.size() == 3 && w.size() == 3); for (u64 i = 0; i < 3; ++i) { CHECK(c.data[i] == (b.data[i]+b.data[3+i])*0.5); CHECK(w.data[i] == b.data[3+i]-b.data[i]); } vec1d s(2); s.data[0] = b.data[1]; s.data[1] = b.data[2]; CHECK(bin_center(s) == (b.data[1]+b.data[2])*0.5 && bin_width(s) == b.data[2]-b.data[1]); vec<1,int> z = {1, 2}; CHECK(bin_center(z) == 1.5); REACH("center_width"); }
ENTRY h_cumul(u64 n) { vec<1,i64> y(n); for (u64 i = 0; i < n; ++i) y.data[i] = sym_int(); auto r = cumul(y); CHECK(r.size() == n && r.dims[0] == n); i64 e = 0; for (u64 i = 0; i < n; ++i) { e += y.data[i]; CHECKM(r.data[i] == e, "cumul: sum of the elements up to this one"); } REACH("cumul"); }
ENTRY h_cumul_rev(u64 n) { vec<1,i64> y(n); for (u64 i = 0; i < n; ++i) y.data[i] = sym_int(); auto r = cumul_reverse(y); CHECK(r.size() == n && r.dims[0] == n); i64 e = 0; for (u64 i = n; i-- > 0;) { e += y.data[i]; CHECKM(r.data[i] == e, "cumul_reverse: sum of the elements from this one on"); } REACH("cumul_rev"); }
// more points than a handful
ENTRY h_many() { const u64 n = 11; vec<1,int> v(n), w(n); for (u64 i = 0; i < n; ++i) { v.data[i] = (int)((i*7 + 2) % 6); w.data[i] = 1 << i; } v.data[(u64)pick(0, 2)*5] = (int)pick(-1, 6); v.data[4] = (int)pick(1, 2); vec<2,int> b(2, 3); int e0[3] = {0, 2, 5}, e1[3] = {2, 5, 6}; for (int k = 0; k < 3; ++k) { b.data[k] = e0[k]; b.data[3+k] = e1[k]; } vec<1,int> o = v; u64 ec[3] = {}; unsigned ew[3] = {}; for (int k = 0; k < 3; ++k) for (u64 i = 0; i < n; ++i) { bool in = (v.data[i] >= e0[k]) & (v.data[i] < e1[k]); ec[k] += in; ew[k] += in ? (unsigned)w.data[i] : 0u; }
    int op = (int)pick(0, 3); if (op == 0) { vec1u c = histogram(v, b); for (int k = 0; k < 3; ++k) CHECKM(c.data[k] == ec[k], "histogram of many points"); } else if (op == 1) { vec<1,int> c = histogram(v, w, b); for (int k = 0; k < 3; ++k) CHECKM((unsigned)c.data[k] == ew[k], "weighted histogram of many points"); } else if (op == 2) { u64 seen[3] = {}; histogram(v, b, [&](uint_t k, vec1u ids) { CHECK(ids.size() == ec[k] && ids.dims[0] == ids.size()); unsigned s = 0; for (u64 i = 0; i < ids.size(); ++i) s += (unsigned)w.data[ids.data[i]]; CHECKM(s == ew[k], "histogram callback of many points"); ++seen[k]; }); }
    else { vec<1,int> y(n); for (u64 i = 0; i < n; ++i) y.data[i] = (int)(i % 4); vec<2,int> yb = {{0, 1}, {1, 4}}; vec2u c = histogram2d(v, y, b, yb); for (int k = 0; k < 3; ++k) for (int l = 0; l < 2; ++l) { u64 e = 0; for (u64 i = 0; i < n; ++i) e += (v.data[i] >= e0[k]) & (v.data[i] < e1[k]) & ((y.data[i] >= 1) == (l == 1)); CHECKM(c.data[k*2+l] == e, "2-D histogram of many points"); } }
    for (u64 i = 0; i < n; ++i) CHECK(v.data[i] == o.data[i]); REACH("many"); }
ENTRY h_dims2() { int k = (int)pick(0, 2); vec<2,int> x(2, 3), y(k == 0 ? 3 : k == 1 ? 2 : 6, k == 0 ? 2 : k == 1 ? 3 : 1); for (u64 i = 0; i < 6; ++i) { x.data[i] = (int)(i % 3); y.data[i] = (int)sym_in(0, 3); } vec<2,int> b = {{0, 1}, {1, 3}}; int op = (int)pick(0, 2); AbortIff ab(k != 1); if (op == 0) { auto c = histogram2d(x, y, b, b); ab.returned("histogram2d of data of different dimensions accepted"); CHECK(c.dims[0] == 2 && c.dims[1] == 2); } else if (op == 1) { auto c = histogram(x, y, b); ab.returned("weights of other dimensions accepted"); CHECK(c.data[0] == y.data[0] + y.data[3]); } else { histogram2d(x, y, b, b, [](uint_t, uint_t, vec1u) {}); ab.returned("histogram2d of data of different dimensions accepted"); } REACH("dims2"); }
