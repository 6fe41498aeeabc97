#include "hg.h"
//BOUND masks and vectors of 0..5 elements (0..7 thorough), 2-D 2x2/2x3; element values unbounded, NaN included
//RUN quick h_where 0..5
//RUN thorough h_where 0..9
//RUN both h_where2
//RUN both h_where_view
//RUN both h_where_expr 0..3
//RUN both h_first 0..5
//RUN both h_compl 0..4 0..3
//RUN both h_compl_oob
//RUN both h_compl_full 1..3
//RUN both h_compl_where 0..4
//RUN both h_uniq 0..3
//RUN thorough h_uniq 4
//RUN both h_uniq_small 4
//RUN thorough h_uniq_small 5
//RUN both h_uniq_sid 0..3
//RUN both h_uniq_sorted 0..4
//RUN both h_uniq_d 0..3
//RUN both h_uniq_view
//RUN both h_uniq_2d
//RUN both h_uniq_any 1..3
//RUN both h_uniq_str
ENTRY h_where(u64 n) { vec1b v(n); fill_sym(v); vec1u r = where(v); u64 c = 0; for (u64 i = 0; i < n; ++i) c += (bool)v.data[i]; CHECK(r.size() == c && r.dims[0] == r.size()); u64 p = 0; for (u64 i = 0; i < n; ++i) if (v.data[i]) { CHECKM(p < r.size() && r.data[p] == i, "where: indices of the true elements in increasing order"); ++p; } REACH("where"); }
ENTRY h_where2() { vec2b v(2, 3); fill_sym(v); vec1u r = where(v); u64 p = 0; for (u64 i = 0; i < 6; ++i) if (v.data[i]) { CHECK(p < r.size() && r.data[p] == i); ++p; } CHECK(p == r.size() && r.dims[0] == p); REACH("where2"); }
ENTRY h_where_view() { vec1b v(4); fill_sym(v); vec1u id = {3, 1, 0}; vec1u r = where(v[id]); u64 p = 0; for (u64 i = 0; i < 3; ++i) if (v.data[id.data[i]]) { CHECK(p < r.size() && r.data[p] == i); ++p; } CHECK(p == r.size() && r.dims[0] == p); u64 f = where_first(v[id]), l = where_last(v[id]); CHECK(f == (v.data[3] ? 0 : v.data[1] ? 1 : v.data[0] ? 2 : npos)); CHECK(l == (v.data[0] ? 2 : v.data[1] ? 1 : v.data[3] ? 0 : npos)); REACH("where_view"); }
// v[where(v > x)] holds exactly the elements greater than x
ENTRY h_where_expr(u64 n) { vec<1,double> v(n); fill_sym(v); double x = sym_dbl("x"); vec1u r = where(v > x); u64 p = 0; for (u64 i = 0; i < n; ++i) if (v.data[i] > x) { CHECK(p < r.size() && r.data[p] == i); ++p; } CHECK(p == r.size()); REACH("where_expr"); }
ENTRY h_first(u64 n) { vec1b v(n); fill_sym(v); u64 f = npos, l = npos; for (u64 i = 0; i < n; ++i) { l = v.data[i] ? i : l; f = v.data[n-1-i] ? n-1-i : f; } CHECKM(where_first(v) == f, "where_first"); CHECKM(where_last(v) == l, "where_last"); REACH("first"); }
ENTRY h_compl(u64 n, u64 m) { if (m > n) return; vec<1,int> v(n); vec1u id(m); for (u64 i = 0; i < m; ++i) { id.data[i] = (u64)sym_in(0, n-1, "id"); for (u64 j = 0; j < i; ++j) ASSUME(id.data[i] != id.data[j]); } vec1u c = complement(v, id); CHECK(c.size() == n-m && c.dims[0] == n-m); u64 p = 0; for (u64 k = 0; k < n; ++k) { bool h = false; for (u64 i = 0; i < m; ++i) h |= id.data[i] == k; if (!h) { CHECK(p < c.size() && c.data[p] == k); ++p; } } CHECK(p == c.size()); REACH("compl"); }
ENTRY h_compl_oob() { vec<2,int> v(2, 2); u64 a = sym_u64("a"); vec1u id = {a}; AbortIff ab(a >= 4); vec1u c = complement(v, id); ab.returned("complement with an index past the end accepted"); CHECK(c.size() == 3); for (u64 i = 0; i < 3; ++i) CHECK(c.data[i] == (i < a ? i : i+1)); REACH("compl_oob"); }
ENTRY h_compl_full(u64 n) { vec<1,int> v(n); vec1u id(n); bool bad = false; for (u64 i = 0; i < n; ++i) { id.data[i] = sym_u64("id"); bad |= id.data[i] >= n; for (u64 j = 0; j < i; ++j) ASSUME(id.data[i] != id.data[j]); } AbortIff ab(bad); vec1u c = complement(v, id); ab.returned("complement with an index past the end accepted"); CHECK(c.size() == 0 && c.dims[0] == 0); REACH("compl_full"); }
ENTRY h_compl_where(u64 n) { vec1b v(n); fill_sym(v); vec1u a = where(v), b = complement(v, a), e = where(!v); CHECK(b.size() == e.size() && a.size() + b.size() == n); for (u64 i = 0; i < b.size(); ++i) CHECK(b.data[i] == e.data[i]); REACH("compl_where"); }
// unique_ids: one index per distinct value, the first occurrence, ordered by value
static void chk_uniq(u64 n, const int* v, const vec1u& r) { CHECK(r.dims[0] == r.size()); for (u64 i = 0; i < r.size(); ++i) { CHECK(r.data[i] < n); for (u64 j = 0; j < n; ++j) CHECKM((j >= r.data[i]) | (v[j] != pick_at(v, n, r.data[i])), "unique_ids: not the first occurrence"); if (i) CHECKM(pick_at(v, n, r.data[i-1]) < pick_at(v, n, r.data[i]), "unique_ids: not sorted by value"); } for (u64 j = 0; j < n; ++j) { bool f = false; for (u64 i = 0; i < r.size(); ++i) f |= pick_at(v, n, r.data[i]) == v[j]; CHECKM(f, "unique_ids: a value is missing"); } }
ENTRY h_uniq(u64 n) { vec<1,int> v(n); fill_sym(v); vec1u r = unique_ids(v); chk_uniq(n, v.data.data(), r); vec<1,int> w = unique_values(v); CHECK(w.size() == r.size() && w.dims[0] == w.size()); for (u64 i = 0; i < w.size(); ++i) CHECK(w.data[i] == v.data[r.data[i]]); REACH("uniq"); }
ENTRY h_uniq_small(u64 n) { vec<1,int> v(n); for (u64 i = 0; i < n; ++i) v.data[i] = (int)sym_in(0, 2); vec1u r = unique_ids(v); chk_uniq(n, v.data.data(), r); REACH("uniq_small"); }
ENTRY h_uniq_sid(u64 n) { vec<1,int> v(n); fill_sym(v); vec1u s = sort(v); vec1u r = unique_ids(v, s); chk_uniq(n, v.data.data(), r); vec<1,int> w = unique_values(v, s); CHECK(w.size() == r.size() && w.dims[0] == w.size()); for (u64 i = 0; i < w.size(); ++i) CHECK(w.data[i] == v.data[r.data[i]]); REACH("uniq_sid"); }
ENTRY h_uniq_sorted(u64 n) { vec<1,int> v(n); fill_sym(v); for (u64 i = 0; i+1 < n; ++i) ASSUME(v.data[i] <= v.data[i+1]); vec1u r = unique_ids_sorted(v); chk_uniq(n, v.data.data(), r); vec<1,int> w = unique_values_sorted(v); CHECK(w.size() == r.size() && w.dims[0] == w.size()); for (u64 i = 0; i < w.size(); ++i) CHECK(w.data[i] == v.data[r.data[i]]); REACH("uniq_sorted"); }
ENTRY h_uniq_d(u64 n) { vec<1,double> v(n); fill_q(v, -3, 3); vec1u r = unique_ids(v); int iv[4]; for (u64 i = 0; i < n; ++i) iv[i] = (int)v.data[i]; chk_uniq(n, iv, r); REACH("uniq_d"); }
ENTRY h_uniq_view() { vec<1,int> v(4); fill_sym(v); vec1u r = unique_ids(v[1-_]); int iv[3] = {v.data[1], v.data[2], v.data[3]}; chk_uniq(3, iv, r); vec<1,int> w = unique_values(v[1-_]); CHECK(w.size() == r.size()); for (u64 i = 0; i < w.size(); ++i) CHECK(w.data[i] == iv[r.data[i]]); REACH("uniq_view"); }
ENTRY h_uniq_2d() { vec<2,int> v(2, 2); for (u64 i = 0; i < 4; ++i) v.data[i] = (int)sym_in(0, 3); vec1u r = unique_ids(v); chk_uniq(4, v.data.data(), r); REACH("uniq_2d"); }
// any double but NaN: infinities, both zeros
ENTRY h_uniq_any(u64 n) { vec<1,double> v(n); fill_sym(v); for (u64 i = 0; i < n; ++i) ASSUME(!is_nan_(v.data[i])); const double* p = v.data.data(); vec1u s = sort(v); for (int op = 0; op < 2; ++op) { vec1u r = op ? unique_ids(v, s) : unique_ids(v); CHECK(r.dims[0] == r.size()); for (u64 i = 0; i < r.size(); ++i) { u64 ri = r.data[i]; CHECK(ri < n); for (u64 j = 0; j < n; ++j) CHECKM((j >= ri) | (p[j] != p[ri]), "unique_ids: not the first occurrence"); if (i) CHECKM(p[r.data[i-1]] < p[ri], "unique_ids: not sorted by value"); } for (u64 j = 0; j < n; ++j) { bool f = false; for (u64 i = 0; i < r.size(); ++i) f |= p[r.data[i]] == p[j]; CHECKM(f, "unique_ids: a value is missing"); } }
    for (u64 i = 0; i+1 < n; ++i) ASSUME(p[i] <= p[i+1]); vec1u q = unique_ids_sorted(v); u64 k = 0; for (u64 i = 0; i < n; ++i) if (i == 0 || p[i] != p[i-1]) { CHECKM(k < q.size() && q.data[k] == i, "unique_ids_sorted: first index of each run"); ++k; } CHECK(k == q.size()); REACH("uniq_any"); }
ENTRY h_uniq_str() { vec1s v = {std::string(1, (char)pick('a', 'c')), "b", std::string(1, (char)pick('a', 'c')), "bb"}; vec1u r = unique_ids(v); for (u64 i = 0; i < r.size(); ++i) { for (u64 j = 0; j < r.data[i]; ++j) CHECK(v.data[j] != v.data[r.data[i]]); if (i) CHECK(v.data[r.data[i-1]] < v.data[r.data[i]]); } for (u64 j = 0; j < 4; ++j) { bool f = false; for (u64 i = 0; i < r.size(); ++i) f |= v.data[r.data[i]] == v.data[j]; CHECK(f); } vec1s w = unique_values(v); CHECK(w.size() == r.size()); for (u64 i = 0; i < w.size(); ++i) CHECK(w.data[i] == v.data[r.data[i]]); REACH("uniq_str"); }
