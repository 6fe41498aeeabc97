#include "hv.h"
//BOUND vectors of 0..4 elements (1-D), up to 3x3 (2-D) and 2x3x2 (3-D), thorough 6, 4x4, 3x3x3; element values unbounded
//BOUND index: every value of the index type from -3*size upwards (64-bit, 32-bit, 8-bit signed, unsigned)
//RUN quick h_br_l 0..4
//RUN quick h_br_i 0..3
//RUN quick h_br_u 0..4
//RUN quick h_br_c 1,3,127,130
//RUN both h_br_d 0..3
//RUN both h_br_b 0..3
//RUN both h_br_s 0..2
//RUN quick h_2d 1..3 1..2
//RUN quick h_2d 1,2 3
//RUN quick h_2d_u 1..3 1..3
//RUN quick h_3d 2 1..3 2
//RUN both h_3d_u 2 1..3 2
//RUN both h_view 1..3
//RUN both h_paren1 0..3
//RUN both h_cview2
//RUN both h_safe 1..3
//RUN thorough h_br_l 0..8
//RUN thorough h_br_i 0..6
//RUN thorough h_br_u 0..8
//RUN thorough h_br_c 1,2,3,100,127,128,129,200
//RUN thorough h_2d 1..4 1..4
//RUN thorough h_2d_u 1..4 1..4
//RUN thorough h_3d 1..3 1..3 1..3
//RUN both h_4d 0..3
//RUN both h_5d
//RUN both h_2d_c 130
//RUN both h_2d_c 200
//RUN both h_cv_narrow

// scalar index in [-n,n) designates an element; larger ones stop the program; smaller ones never leave the data
template<class I, class T> void br(u64 n, I k) {
    vec<1,T> v(n); T o[MAXN*8]; for (u64 i = 0; i < n; ++i) o[i] = v.data[i] = sym<T>("e");
    i64 kk = (i64)k; bool big = std::is_signed<I>::value ? (kk >= (i64)n) : ((u64)k >= n);
    bool ok = !big & ((std::is_signed<I>::value ? kk >= -(i64)n : true));
    if (n) vf_abort_ok(!ok); else vf_abort_ok(true);
    T r = v[k];
    CHECKM(n > 0, "index into an empty vector accepted");
    CHECKM(!big, "index past the end accepted");
    u64 p = (std::is_signed<I>::value & (kk < 0)) ? (u64)(kk + (i64)n) : (u64)k;
    for (u64 i = 0; i < n; ++i) CHECKM(!ok | (p != i) | same_(r, o[i]), "wrong element read");
    const vec<1,T>& cv = v; T r2 = cv[k], r3 = v(k), r4 = cv(k);
    CHECKM(same_(r2, r) & same_(r3, r) & same_(r4, r), "const / operator() access differs");
    ASSUME(ok);
    T x = sym<T>("x"); v[k] = x;
    for (u64 i = 0; i < n; ++i) CHECKM(same_(v.data[i], sel(p == i, x, o[i])), "write changed the wrong element");
    T y = sym<T>("y"); v(k) = y;
    for (u64 i = 0; i < n; ++i) CHECKM(same_(v.data[i], sel(p == i, y, o[i])), "operator() write changed the wrong element");
    REACH("br"); obs("p", p);
}
ENTRY h_br_l(u64 n) { i64 k = sym_i64("k"); ASSUME(k >= -3*(i64)n); br<i64,int>(n, k); }
ENTRY h_br_i(u64 n) { int k = sym_int("k"); ASSUME(k >= -3*(int)n); br<int,int>(n, k); }
ENTRY h_br_c(u64 n) { vec1i v(n); for (u64 i = 0; i < n; ++i) v.data[i] = 1000 + (int)i; signed char k = (signed char)sym_i8("k"); bool ok = (k >= -(int)n) & (k < (int)n);
    if (n > 100) ASSUME(k < 2); vf_abort_ok(!ok); int r = v[k]; CHECK(k < (int)n); CHECKM(!ok | (r == 1000 + (k < 0 ? k + (int)n : k)), "8-bit index designates the wrong element"); REACH("br_c"); obs("r", r); }
ENTRY h_br_u(u64 n) { br<u64,int>(n, sym_u64("k")); }
ENTRY h_br_d(u64 n) { i64 k = sym_i64("k"); ASSUME(k >= -(i64)n); br<i64,double>(n, k); }
ENTRY h_br_b(u64 n) {
    vec1b v(n); bool o[MAXN]; for (u64 i = 0; i < n; ++i) { o[i] = sym_bool("e"); v.data[i] = o[i]; }
    i64 k = sym_i64("k"); ASSUME(k >= -(i64)n); AbortIff ab((n == 0) | (k >= (i64)n));
    bool r = v[k]; ab.returned("bad index accepted"); u64 p = k < 0 ? k + n : k;
    for (u64 i = 0; i < n; ++i) CHECK((p != i) | (r == o[i]));
    v[k] = !r; for (u64 i = 0; i < n; ++i) CHECK((bool)v.data[i] == (o[i] != (p == i)));
    REACH("bool");
}
ENTRY h_br_s(u64 n) {
    vec1s v(n); char o[MAXN]; for (u64 i = 0; i < n; ++i) { o[i] = sym_char("e"); v.data[i] = std::string(1, o[i]); }
    i64 k = sym_i64("k"); ASSUME(k >= -(i64)n); AbortIff ab((n == 0) | (k >= (i64)n));
    const std::string& r = v[k]; ab.returned("bad index accepted"); u64 p = k < 0 ? k + n : k;
    for (u64 i = 0; i < n; ++i) CHECK((p != i) | ((r.size() == 1) & (r.data()[0] == o[i])));
    REACH("string");
}
ENTRY h_2d(u64 a, u64 b) {
    vec<2,int> v(a, b); int o[MAXN]; for (u64 i = 0; i < a*b; ++i) o[i] = v.data[i] = sym_int("e");
    CHECK((v.dims[0] == a) & (v.dims[1] == b) & (v.size() == a*b));
    i64 i = sym_i64("i"); ASSUME(i >= -2*(i64)a); int j = sym_int("j"); ASSUME(j >= -2*(int)b);
    bool big = (i >= (i64)a) | (j >= (int)b);
    vf_abort_ok(big); int r = v(i, j); vf_abort_ok(false); CHECKM(!big, "2-D index past the end accepted");
    bool ok = (i >= -(i64)a) & (j >= -(int)b);
    u64 p = (u64)((i < 0 ? i + (i64)a : i)*(i64)b + (j < 0 ? j + (int)b : j));
    for (u64 k = 0; k < a*b; ++k) CHECKM(!ok | (p != k) | (r == o[k]), "row-major element");
    const vec<2,int>& cv = v; CHECK(cv(i, j) == r);
    ASSUME(ok);
    int x = sym_int("x"); v(i, j) = x;
    for (u64 k = 0; k < a*b; ++k) CHECK(v.data[k] == sel(p == k, x, o[k]));
    REACH("2d"); obs("p", p);
}
ENTRY h_2d_u(u64 a, u64 b) {
    vec<2,int> v(a, b); fill_iota(v); u64 i = sym_u64("i"), j = sym_u64("j");
    AbortIff ab((i >= a) | (j >= b)); int r = v(i, j); ab.returned("2-D unsigned index past the end accepted");
    CHECK(r == 10 + (int)(i*b + j)); const vec<2,int>& cv = v; CHECK(cv(i, j) == r); REACH("2d_u");
}
ENTRY h_3d(u64 a, u64 b, u64 c) {
    vec<3,int> v(a, b, c); fill_iota(v); i64 i = sym_i64("i"), j = sym_i64("j"), k = sym_i64("k");
    ASSUME((i >= -(i64)a) & (j >= -(i64)b) & (k >= -(i64)c));
    AbortIff ab((i >= (i64)a) | (j >= (i64)b) | (k >= (i64)c)); int r = v(i, j, k); ab.returned("3-D index past the end accepted");
    i64 ii = i < 0 ? i + a : i, jj = j < 0 ? j + b : j, kk = k < 0 ? k + c : k;
    CHECK(r == 10 + (int)((ii*(i64)b + jj)*(i64)c + kk)); REACH("3d"); obs("r", r);
}
ENTRY h_3d_u(u64 a, u64 b, u64 c) {
    vec<3,int> v(a, b, c); fill_iota(v); u64 i = sym_u64("i"), j = sym_u64("j"), k = sym_u64("k");
    AbortIff ab((i >= a) | (j >= b) | (k >= c)); int r = v(i, j, k); ab.returned("3-D unsigned index past the end accepted");
    CHECK(r == 10 + (int)((i*b + j)*c + k)); REACH("3d_u");
}
// a view is indexed with its own size
ENTRY h_view(u64 m) {
    vec<1,int> v(4); fill_iota(v); vec1u id(m); u64 o[MAXN]; for (u64 i = 0; i < m; ++i) o[i] = id.data[i] = (u64)sym_in(0, 3, "id");
    auto w = v[id]; CHECK((w.size() == m) & (w.dims[0] == m));
    i64 k = sym_i64("k"); ASSUME(k >= -(i64)m); AbortIff ab(k >= (i64)m);
    int r = w[k]; ab.returned("index past the end of a view accepted");
    u64 p = k < 0 ? k + m : k; CHECK(r == 10 + (int)pick_at(o, m, p)); CHECK(w(k) == r);
    REACH("view");
}
ENTRY h_paren1(u64 n) {
    vec<1,int> v(n); fill_iota(v); i64 k = sym_i64("k"); ASSUME(k >= -(i64)n);
    AbortIff ab((n == 0) | (k >= (i64)n)); int r = v(k); ab.returned("v(i) past the end accepted"); CHECK(r == 10 + (int)(k < 0 ? k + n : k)); REACH("paren1");
}
ENTRY h_cview2() {
    vec<2,int> v(2, 3); fill_iota(v); const vec<2,int>& c = v; i64 i = sym_i64("i"), j = sym_i64("j"); ASSUME((i >= -2) & (j >= -3));
    bool bad = (i >= 2) | (j >= 3); AbortIff ab(bad);
    auto w = c(i, _); int r = w[j]; ab.returned("bad index accepted");
    CHECK(r == 10 + (int)((i < 0 ? i + 2 : i)*3 + (j < 0 ? j + 3 : j))); REACH("cview2");
}
// unchecked access agrees with the checked one for valid indices
ENTRY h_safe(u64 n) {
    vec<2,int> v(n, 2); fill_sym(v); u64 i = sym_u64("i"), j = sym_u64("j"); ASSUME((i < n) & (j < 2));
    CHECK(v.safe(i, j) == v(i, j)); CHECK(v.safe[i*2 + j] == v[i*2 + j]); REACH("safe");
}
ENTRY h_4d(u64 one) { u64 d[4] = {2, 2, 2, 2}; d[one] = 3; d[(one + 1 + (u64)pick(0, 1)) % 4] = 1; vec<4,int> v(d[0], d[1], d[2], d[3]); fill_iota(v); i64 k[4]; u64 wild = (u64)pick(0, 3); bool bad = false; for (u64 i = 0; i < 4; ++i) { k[i] = i == wild ? sym_i64("k") : sym_in(-(i64)d[i], (i64)d[i]-1); ASSUME(k[i] >= -(i64)d[i]); bad |= k[i] >= (i64)d[i]; } const vec<4,int>& c = v; bool cst = pick(0, 1); AbortIff ab(bad); const int* r = cst ? &c(k[0], k[1], k[2], k[3]) : &v(k[0], k[1], k[2], k[3]); ab.returned("v(i,j,k,l) past the end accepted"); u64 f = 0; for (int i = 0; i < 4; ++i) f = f*d[i] + (u64)(k[i] < 0 ? k[i] + (i64)d[i] : k[i]); CHECKM(r == v.data.data() + f, "v(i,j,k,l): row-major element"); REACH("4d"); }
ENTRY h_5d() { vec<5,int> v(2, 3, 2, 1, 2); fill_iota(v); u64 a = (u64)sym_in(0, 1), b = (u64)sym_in(0, 2), c = (u64)sym_in(0, 1), e = (u64)sym_in(0, 1); int r = v(a, b, c, 0, e); CHECKM(r == 10 + (int)(((a*3 + b)*2 + c)*2 + e), "5-D row-major element"); CHECK(v.safe(a, b, c, 0, e) == r); v(a, b, c, 0, e) = -1; for (u64 i = 0; i < 24; ++i) CHECKM(v.data[i] == (i == ((a*3 + b)*2 + c)*2 + e ? -1 : 10 + (int)i), "writing one element changes no other"); REACH("5d"); }
// narrow signed indices on dimensions larger than their range
ENTRY h_2d_c(u64 n) { vec<2,int> v(n, 2); int8_t i = (int8_t)sym_i8("i"), j = (int8_t)sym_in(-2, 1, "j"); const int* r = &v(i, j); u64 p = i < 0 ? (u64)((i64)n + i) : (u64)i, q = j < 0 ? (u64)(2 + j) : (u64)j; CHECKM(r == v.data.data() + (p*2+q), "v(i,j) with 8-bit indices"); vec<2,int> w(1, n); CHECK(&w(0, i) == w.data.data() + p); short s = (short)sym_in(-(i64)n, (i64)n-1, "s"); CHECK(&w(0, s) == w.data.data() + (s < 0 ? (i64)n + s : s)); REACH("2d_c"); }
ENTRY h_cv_narrow() { vec<1,int> v(140); fill_iota(v); vec1u id(140); for (u64 q = 0; q < 140; ++q) id.data[q] = q; auto w = v[id]; int8_t i = (int8_t)sym_i8("i"); unsigned char u = (unsigned char)vf_sym(8, "u"); AbortIff ab(u >= 140); int r = w[u]; ab.returned("8-bit index past the end accepted"); CHECK(r == 10 + (int)u); CHECK(w[i] == 10 + (i < 0 ? 140 + i : i)); CHECK(w(i) == 10 + (i < 0 ? 140 + i : i)); REACH("cv_narrow"); }
