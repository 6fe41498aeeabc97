#include "hg.h"
//BOUND vectors of 0..4 elements (1-D), up to 3x3 (2-D) and 2x2x2 (3-D); every list of up to 4 indices over the full 64-bit range
//RUN both h_rm 0 0..2
//RUN both h_rm 1..4 0..3
//RUN thorough h_rm 4..5 4
//RUN both h_rm_any
//RUN both h_rm_2d 0..3 0..2
//RUN both h_rm_3d
//RUN both h_rm_all
//RUN both h_app 0..3 0..3
//RUN both h_app_view
//RUN both h_app_self 0..3
//RUN both h_app_selfview
//RUN both h_app_bool
//RUN both h_app_str
//RUN both h_app2_0
//RUN both h_app2_1
//RUN both h_app3
//RUN both h_app2_self
//RUN both h_conv
//RUN both h_app3_prod
//RUN both h_app3_any
//RUN both h_app_selfroom
// remove: the elements whose index is not listed, in order
ENTRY h_rm(u64 n, u64 m) {
    vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; vec1u id(m); bool bad = false, hit[8] = {};
    for (u64 i = 0; i < m; ++i) { id.data[i] = (u64)sym_in(0, n, "id"); bad |= id.data[i] >= n; for (u64 j = 0; j < i; ++j) bad |= id.data[i] == id.data[j]; }
    vec1u oid = id; AbortIff ab(bad); vec<1,int> r = remove(v, id); ab.returned("remove: invalid or duplicated index accepted");
    for (u64 k = 0; k < n; ++k) for (u64 i = 0; i < m; ++i) hit[k] |= id.data[i] == k;
    CHECK(r.size() == n-m && r.dims[0] == n-m); u64 p = 0; for (u64 k = 0; k < n; ++k) { if (!hit[k]) { CHECKM(r.data[p] == o.data[k], "remove must keep the other elements in order"); ++p; } } CHECK(p == n-m);
    for (u64 k = 0; k < n; ++k) CHECK(v.data[k] == o.data[k]); for (u64 i = 0; i < m; ++i) CHECK(id.data[i] == oid.data[i]);
    inplace_remove(v, id); CHECK(v.size() == n-m && v.dims[0] == n-m); for (u64 k = 0; k < n-m; ++k) CHECK(v.data[k] == r.data[k]); REACH("rm");
}
ENTRY h_rm_any() { vec<1,int> v(3); fill_sym(v); u64 a = sym_u64("a"), b = sym_u64("b"); vec1u id = {a, b}; AbortIff ab((a >= 3) | (b >= 3) | (a == b)); inplace_remove(v, id); ab.returned("remove: invalid or duplicated index accepted"); CHECK(v.size() == 1 && v.dims[0] == 1); REACH("rm_any"); }
ENTRY h_rm_2d(u64 n, u64 m) { vec<2,int> v(n, 2); fill_sym(v); vec<2,int> o = v; vec1u id(m); bool bad = false; for (u64 i = 0; i < m; ++i) { id.data[i] = (u64)sym_in(0, 2*n+1, "id"); bad |= id.data[i] >= n; for (u64 j = 0; j < i; ++j) bad |= id.data[i] == id.data[j]; }
    AbortIff ab(bad); inplace_remove(v, id); ab.returned("remove: row that does not exist (or listed twice) accepted"); CHECK(v.dims[0] == n-m && v.dims[1] == 2 && v.size() == 2*(n-m)); u64 p = 0; for (u64 k = 0; k < n; ++k) { bool h = false; for (u64 i = 0; i < m; ++i) h |= id.data[i] == k; if (!h) { CHECK(v.data[2*p] == o.data[2*k] && v.data[2*p+1] == o.data[2*k+1]); ++p; } } REACH("rm_2d"); }
ENTRY h_rm_3d() { vec<3,int> v(3, 2, 2); fill_sym(v); vec<3,int> o = v; u64 a = (u64)pick(0, 2); vec<3,int> r = remove(v, vec1u{a}); CHECK(r.dims[0] == 2 && r.dims[1] == 2 && r.dims[2] == 2 && r.size() == 8); for (u64 i = 0; i < 2; ++i) for (u64 j = 0; j < 4; ++j) CHECK(r.data[i*4+j] == o.data[(i < a ? i : i+1)*4+j]); REACH("rm_3d"); }
ENTRY h_rm_all() { vec<1,int> v(3); fill_sym(v); u64 p = (u64)pick(0, 5); static const u64 P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; vec1u id = {P[p][0], P[p][1], P[p][2]}; inplace_remove(v, id); CHECK(v.size() == 0 && v.dims[0] == 0); REACH("rm_all"); }
ENTRY h_app(u64 n, u64 m) { vec<1,int> v(n), w(m); fill_sym(v); fill_sym(w); vec<1,int> o = v, x = v; append(v, w); CHECK(v.size() == n+m && v.dims[0] == n+m && w.size() == m); for (u64 i = 0; i < n+m; ++i) CHECK(v.data[i] == (i < n ? o.data[i] : w.data[i-n])); prepend(x, w); CHECK(x.size() == n+m && x.dims[0] == n+m); for (u64 i = 0; i < n+m; ++i) CHECK(x.data[i] == (i < m ? w.data[i] : o.data[i-m])); REACH("app"); }
ENTRY h_app_view() { vec<1,int> v(2), w(3); fill_sym(v); fill_sym(w); vec<1,int> o = v; vec1u id = {(u64)pick(0, 2), (u64)pick(0, 2)}; append(v, w[id]); CHECK(v.size() == 4 && v.dims[0] == 4); for (u64 i = 0; i < 2; ++i) CHECK(v.data[2+i] == w.data[id.data[i]] && v.data[i] == o.data[i]); prepend(v, w[1-_]); CHECK(v.size() == 6); for (u64 i = 0; i < 2; ++i) CHECK(v.data[i] == w.data[1+i] && v.data[2+i] == o.data[i]); REACH("app_view"); }
ENTRY h_app_self(u64 n) { vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; if (sym_bool()) append(v, v); else prepend(v, v); CHECK(v.size() == 2*n && v.dims[0] == 2*n); for (u64 i = 0; i < 2*n; ++i) CHECKM(v.data[i] == o.data[i % n], "append(v, v)"); REACH("app_self"); }
ENTRY h_app_selfview() { vec<1,int> v(3); fill_sym(v); vec<1,int> o = v; vec1u id = {(u64)pick(0, 2), (u64)pick(0, 2)}; const vec<1,int>& c = v; int op = (int)pick(0, 3); if (op == 0) append(v, v[id]); else if (op == 1) append(v, c[id]); else if (op == 2) prepend(v, v[id]); else prepend(v, c[id]); CHECK(v.size() == 5 && v.dims[0] == 5); for (u64 i = 0; i < 2; ++i) CHECKM(v.data[op < 2 ? 3+i : i] == o.data[id.data[i]], "append of a view of the same vector"); for (u64 i = 0; i < 3; ++i) CHECK(v.data[op < 2 ? i : i+2] == o.data[i]); REACH("app_selfview"); }
ENTRY h_app_bool() { vec1b v(2), w(1); fill_sym(v); fill_sym(w); vec1b o = v; append(v, w); prepend(v, w); CHECK(v.size() == 4 && v.dims[0] == 4); CHECK((bool)v.data[0] == (bool)w.data[0] && (bool)v.data[1] == (bool)o.data[0] && (bool)v.data[2] == (bool)o.data[1] && (bool)v.data[3] == (bool)w.data[0]); REACH("app_bool"); }
ENTRY h_app_str() { vec1s v = {"a"}, w = {"bc", "d"}; append(v, w); prepend(v, vec1s{"x"}); CHECK(v.size() == 4 && v.dims[0] == 4 && v.data[0] == "x" && v.data[1] == "a" && v.data[2] == "bc" && v.data[3] == "d"); REACH("app_str"); }
ENTRY h_app2_0() { u64 a = (u64)pick(0, 2), b = (u64)pick(1, 2), c = (u64)pick(0, 2), d = (u64)pick(1, 2); bool pre = sym_bool(); vec<2,int> v(a, b), w(c, d); fill_sym(v); fill_sym(w); vec<2,int> o = v; AbortIff ab(a != 0 && c != 0 && b != d); if (pre) prepend<0>(v, w); else append<0>(v, w); ab.returned("append<0> of another width accepted");
    CHECK(v.dims[0] == a+c && dims_ok(v)); if (a+c) CHECK(v.dims[1] == (a ? b : d)); if (a || c) { u64 wd = v.dims[1]; for (u64 i = 0; i < a+c; ++i) for (u64 j = 0; j < wd; ++j) CHECK(v.data[i*wd+j] == (pre ? (i < c ? w.data[i*wd+j] : o.data[(i-c)*wd+j]) : (i < a ? o.data[i*wd+j] : w.data[(i-a)*wd+j]))); } REACH("app2_0"); }
ENTRY h_app2_1() { u64 a = (u64)pick(1, 2), b = (u64)pick(0, 2), c = (u64)pick(1, 2), d = (u64)pick(0, 2); bool pre = sym_bool(); vec<2,int> v(a, b), w(c, d); fill_sym(v); fill_sym(w); vec<2,int> o = v; AbortIff ab(b != 0 && d != 0 && a != c); if (pre) prepend<1>(v, w); else append<1>(v, w); ab.returned("append<1> of another height accepted");
    CHECK(v.dims[1] == b+d && dims_ok(v)); u64 wd = b+d; if (b || d) { CHECK(v.dims[0] == (b ? a : c)); for (u64 i = 0; i < v.dims[0]; ++i) for (u64 j = 0; j < wd; ++j) CHECK(v.data[i*wd+j] == (pre ? (j < d ? w.data[i*d+j] : o.data[i*b+j-d]) : (j < b ? o.data[i*b+j] : w.data[i*d+j-b]))); } REACH("app2_1"); }
ENTRY h_app3() { u64 p[3], q[3]; for (int i = 0; i < 3; ++i) { p[i] = (u64)pick(1, 2); q[i] = (u64)pick(1, 2); } vec<3,int> v(p[0], p[1], p[2]), w(q[0], q[1], q[2]); fill_iota(v); fill_iota(w, 50); vec<3,int> o = v; bool pre = sym_bool(); AbortIff ab(p[0] != q[0] || p[2] != q[2]); if (pre) prepend<1>(v, w); else append<1>(v, w); ab.returned("append<1> with different other dimensions accepted"); CHECK(v.dims[0] == p[0] && v.dims[1] == p[1]+q[1] && v.dims[2] == p[2] && dims_ok(v)); for (u64 i = 0; i < p[0]; ++i) for (u64 j = 0; j < p[1]+q[1]; ++j) for (u64 k = 0; k < p[2]; ++k) CHECK(v.safe(i, j, k) == (pre ? (j < q[1] ? w.safe(i, j, k) : o.safe(i, j-q[1], k)) : (j < p[1] ? o.safe(i, j, k) : w.safe(i, j-p[1], k)))); REACH("app3"); }
ENTRY h_app2_self() { vec<2,int> v(2, 2); fill_sym(v); vec<2,int> o = v; bool ax = sym_bool(); if (ax) append<1>(v, v); else append<0>(v, v); CHECK(v.dims[0] == (ax ? 2 : 4) && v.dims[1] == (ax ? 4 : 2) && dims_ok(v)); for (u64 i = 0; i < v.dims[0]; ++i) for (u64 j = 0; j < v.dims[1]; ++j) CHECK(v.safe(i, j) == o.safe(i % 2, j % 2)); v = o; append<0>(v, v(vec1u{1}, _)); CHECK(v.dims[0] == 3 && dims_ok(v)); for (u64 j = 0; j < 2; ++j) CHECK(v.safe(2, j) == o.safe(1, j) && v.safe(0, j) == o.safe(0, j)); REACH("app2_self"); }
ENTRY h_conv() { vec<1,double> v(1); v.data[0] = sym_q(-5, 5); double o = v.data[0]; vec<1,int> w(2); fill_sym(w); append(v, w); CHECK(v.size() == 3 && v.data[0] == o && v.data[1] == (double)w.data[0] && v.data[2] == (double)w.data[1]); REACH("conv"); }
// other dimensions that differ while their product is the same
ENTRY h_app3_prod() { int op = (int)pick(0, 5); u64 a = (u64)pick(1, 2); vec<3,int> v, w; u64 x = (u64)pick(1, 3), y = (u64)pick(1, 3); u64 p = 6; ASSUME(x != y);
    if (op/2 == 0) { v.resize(a, x, p/x); w.resize(1, y, p/y); } else if (op/2 == 1) { v.resize(x, a, p/x); w.resize(y, 1, p/y); } else { v.resize(x, p/x, a); w.resize(y, p/y, 1); }
    vf_abort_ok(true); if (op == 0) append<0>(v, w); else if (op == 1) prepend<0>(v, w); else if (op == 2) append<1>(v, w); else if (op == 3) prepend<1>(v, w); else if (op == 4) append<2>(v, w); else prepend<2>(v, w); CHECKM(false, "append/prepend with different other dimensions (of same product) accepted"); }
ENTRY h_app3_any() { int N = (int)pick(0, 2); bool pre = sym_bool(); u64 d[3] = {2, 2, 2}, e[3] = {2, 2, 2}; u64 n1 = (u64)pick(1, 2), n2 = (u64)pick(1, 2); d[N] = n1; e[N] = n2; vec<3,int> v(d[0], d[1], d[2]), w(e[0], e[1], e[2]); fill_sym(v); fill_sym(w); vec<3,int> o = v;
    if (N == 0) { if (pre) prepend<0>(v, w); else append<0>(v, w); } else if (N == 1) { if (pre) prepend<1>(v, w); else append<1>(v, w); } else { if (pre) prepend<2>(v, w); else append<2>(v, w); }
    CHECK(v.dims[N] == n1+n2 && dims_ok(v)); for (int q = 0; q < 3; ++q) if (q != N) CHECK(v.dims[q] == 2); u64 i[3]; for (i[0] = 0; i[0] < v.dims[0]; ++i[0]) for (i[1] = 0; i[1] < v.dims[1]; ++i[1]) for (i[2] = 0; i[2] < v.dims[2]; ++i[2]) { u64 f = pre ? n2 : n1; bool first = i[N] < f; u64 j[3] = {i[0], i[1], i[2]}; if (!first) j[N] -= f; const vec<3,int>& s = first == pre ? w : o; CHECKM(v.safe(i[0], i[1], i[2]) == s.safe(j[0], j[1], j[2]), "append/prepend along a dimension of a 3-D vector"); } REACH("app3_any"); }
// self-appending when no reallocation is needed
ENTRY h_app_selfroom() { vec<1,int> v(3); fill_sym(v); vec<1,int> o = v; v.reserve(16); vec1u id = {(u64)pick(0, 2), (u64)pick(0, 2)}; const vec<1,int>& c = v; int op = (int)pick(0, 5); u64 k = 2; if (op == 0) append(v, v[id]); else if (op == 1) append(v, c[id]); else if (op == 2) prepend(v, v[id]); else if (op == 3) prepend(v, c[id]); else if (op == 4) { append(v, v); k = 3; } else { prepend(v, v); k = 3; } bool app = op < 2 || op == 4; CHECK(v.size() == 3+k && v.dims[0] == 3+k); for (u64 i = 0; i < k; ++i) CHECKM(v.data[app ? 3+i : i] == o.data[k == 3 ? i : id.data[i]], "append/prepend of a view of the same vector, with spare capacity"); for (u64 i = 0; i < 3; ++i) CHECK(v.data[app ? i : i+k] == o.data[i]); REACH("app_selfroom"); }
