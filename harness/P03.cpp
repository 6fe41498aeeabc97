#include "hv.h"
//BOUND 1-D vectors of 3 (quick) / 5 (thorough) elements, 2-D up to 3x3, 3-D 2x3x2; index vectors of <=3 entries over the full signed/unsigned range
//BOUND range bounds: every 64-bit value with first <= last+1 and below 2^20 for positions past the end
//RUN both h_ids_i 0..3
//RUN both h_ids_u 0..3
//RUN both h_ids_w 0..2
//RUN both h_left
//RUN both h_right
//RUN both h_lr
//RUN both h_oob
//RUN both h_oob_first
//RUN both h_full 0..3
//RUN both h_row
//RUN both h_col
//RUN both h_2ids
//RUN both h_2ids_neg
//RUN both h_1ids_neg 1..3
//RUN both h_box
//RUN both h_3d
//RUN both h_3dr
//RUN both h_view_of_view
//RUN both h_view2_sub
//RUN both h_rep
//RUN both h_stride
//RUN both h_cids
//RUN both h_idsview
//RUN both h_assignscalar 1..3
//RUN both h_safeids
//RUN both h_asg_size
//RUN both h_asg_size2
//RUN both h_vov_oob
//RUN both h_vov_idview
//RUN both h_idview64
static const u64 N = 4;
static u64 norm(i64 k, u64 n) { return (u64)(k < 0 ? k + (i64)n : k); }
// read through v[ids] and write through it
template<class I> static void ids(u64 m, I* k) {
    vec<1,int> v(N); fill_sym(v); vec<1,int> o = v; vec<1,I> id(m); bool bad = false;
    for (u64 i = 0; i < m; ++i) { id.data[i] = k[i]; bad |= std::is_signed<I>::value ? ((i64)k[i] >= (i64)N) : ((u64)k[i] >= N); }
    AbortIff ab(bad); auto w = v[id]; ab.returned("v[ids]: index past the end accepted");
    CHECK((w.size() == m) & (w.dims[0] == m));
    for (u64 i = 0; i < m; ++i) CHECKM(&w.safe[i] == &v.data[norm((i64)k[i], N)], "view element does not refer to the indexed element");
    int x = sym_int("x"); w = x;
    for (u64 j = 0; j < N; ++j) { bool hit = false; for (u64 i = 0; i < m; ++i) hit |= norm((i64)k[i], N) == j; CHECKM(v.data[j] == sel(hit, x, o.data[j]), "assignment through a view"); }
    REACH("ids");
}
ENTRY h_ids_i(u64 m) { i64 k[3]; for (u64 i = 0; i < m; ++i) { k[i] = sym_i64("id"); ASSUME(k[i] >= -(i64)N); } ids<i64>(m, k); }
ENTRY h_ids_u(u64 m) { u64 k[3]; for (u64 i = 0; i < m; ++i) k[i] = sym_u64("id"); ids<u64>(m, k); }
ENTRY h_ids_w(u64 m) { // vector to view assignment
    vec<1,int> v(3); fill_sym(v); vec<1,int> o = v; vec1u id(m); for (u64 i = 0; i < m; ++i) id.data[i] = (u64)sym_in(0, 2, "id");
    u64 q = (u64)pick(0, 3, "q"); vec<1,int> r(q); fill_sym(r, "r"); AbortIff ab(q != m); v[id] = r; ab.returned("view assigned from a vector of another size");
    for (u64 j = 0; j < 3; ++j) { int e = o.data[j]; for (u64 i = 0; i < m; ++i) e = id.data[i] == j ? r.data[i] : e; CHECK(v.data[j] == e); }
    REACH("ids_w");
}
ENTRY h_left() {
    vec<1,int> v(3); fill_iota(v); const vec<1,int>& c = v; u64 l = sym_u64("l");
    AbortIff ab(l >= 3); auto w = v[_-l]; ab.returned("v[_-last] past the end accepted"); CHECK((w.size() == l+1) & (w.dims[0] == l+1));
    for (u64 i = 0; i < 3; ++i) if (i <= l) CHECK(&w.safe[i] == &v.data[i]); auto w2 = c[_-l]; auto w3 = v(_-l); CHECK((w2.size() == l+1) & (w3.size() == l+1)); for (u64 i = 0; i <= l; ++i) CHECK(&w2.safe[i] == &v.data[i] && &w3.safe[i] == &v.data[i]); REACH("left");
}
ENTRY h_right() {
    vec<1,int> v(3); fill_iota(v); u64 f = sym_u64("f"); bool par = sym_bool();
    AbortIff ab(f >= 3); if (!par) { auto w = v[f-_]; ab.returned("v[first-_] past the end accepted"); CHECK((w.size() == 3-f) & (w.dims[0] == 3-f)); for (u64 i = f; i < 3; ++i) CHECK(&w.safe[i-f] == &v.data[i]); }
    else { auto w = v(f-_); ab.returned("v(first-_) past the end accepted"); CHECK((w.size() == 3-f) & (w.dims[0] == 3-f)); for (u64 i = f; i < 3; ++i) CHECK(&w.safe[i-f] == &v.data[i]); } REACH("right");
}
ENTRY h_lr() {
    vec<1,int> v(4); fill_iota(v); u64 f = (u64)pick(0, 5, "f"), l = (u64)pick(0, 5, "l"); ASSUME(f <= l); bool par = sym_bool();
    AbortIff ab(l >= 4); vec<1,int> e; if (par) e = v(f-_-l); else e = v[f-_-l]; ab.returned("v[first-_-last] past the end accepted");
    CHECK((e.size() == l-f+1) & (e.dims[0] == l-f+1)); for (u64 i = f; i <= l; ++i) CHECK(e.data[i-f] == 10 + (int)i); REACH("lr");
}
// every range reaching past the end stops the program, whatever its bounds
ENTRY h_oob() {
    vec<1,int> v(4); vec<2,int> m(3, 4); u64 f = sym_u64("f"), l = sym_u64("l"); ASSUME((l >= 4) & (f <= l)); vf_abort_ok(true);
    switch ((int)pick(0, 5)) {
        case 0: { auto w = v[f-_-l]; break; } case 1: { auto w = v(f-_-l); break; } case 2: { auto w = m(1, f-_-l); break; }
        case 3: { auto w = m(f-_-l, _); break; } case 4: { const vec<2,int>& c = m; auto w = c(_, _-l); break; } default: { auto w = m(l-_, 2); break; }
    }
    CHECKM(false, "range past the end accepted");
}
ENTRY h_full(u64 n) { vec<1,int> v(n); fill_sym(v); auto w = v[_]; auto x = v(_); CHECK(w.size() == n && x.size() == n && w.dims[0] == n && x.dims[0] == n); for (u64 i = 0; i < n; ++i) CHECK(&w.safe[i] == &v.data[i] && &x.safe[i] == &v.data[i]); w = 3; for (u64 i = 0; i < n; ++i) CHECK(v.data[i] == 3); vec<2,int> m(2, n); fill_iota(m); auto y = m[_]; CHECK(y.size() == 2*n); for (u64 i = 0; i < 2*n; ++i) CHECK(&y.safe[i] == &m.data[i]); REACH("full"); }
ENTRY h_row() {
    vec<2,int> v(3, 2); fill_sym(v); vec<2,int> o = v; i64 i = sym_i64("i"); ASSUME(i >= -3); AbortIff ab(i >= 3); auto r = v(i, _); ab.returned("row index past the end accepted");
    CHECK(r.size() == 2 && r.dims[0] == 2); u64 p = norm(i, 3); for (u64 j = 0; j < 2; ++j) CHECK(&r.safe[j] == &v.data[p*2+j]);
    vec<1,int> x(2); fill_sym(x); v(i, _) = x; for (u64 a = 0; a < 3; ++a) for (u64 b = 0; b < 2; ++b) CHECK(v.data[a*2+b] == sel(a == p, x.data[b], o.data[a*2+b])); REACH("row");
}
ENTRY h_col() {
    vec<2,int> v(2, 3); fill_sym(v); vec<2,int> o = v; i64 i = sym_i64("i"); ASSUME(i >= -3); AbortIff ab(i >= 3); auto r = v(_, i); ab.returned("column index past the end accepted");
    CHECK(r.size() == 2 && r.dims[0] == 2); u64 p = norm(i, 3); for (u64 j = 0; j < 2; ++j) CHECK(&r.safe[j] == &v.data[j*3+p]);
    r += 1; for (u64 a = 0; a < 2; ++a) for (u64 b = 0; b < 3; ++b) CHECK(v.data[a*3+b] == sel(b == p, (int)((unsigned)o.data[a*3+b]+1u), o.data[a*3+b])); REACH("col");
}
ENTRY h_2ids() {
    vec<2,int> v(3, 3); fill_iota(v); vec1u a = {sym_u64("a"), sym_u64("a")}, b = {sym_u64("b"), sym_u64("b")}; const vec<2,int>& c = v;
    bool bad = (a.data[0] >= 3) | (a.data[1] >= 3) | (b.data[0] >= 3) | (b.data[1] >= 3); AbortIff ab(bad); auto w = c(a, b); ab.returned("v(ids,ids) past the end accepted");
    CHECK(w.dims[0] == 2 && w.dims[1] == 2 && w.size() == 4); for (u64 i = 0; i < 2; ++i) for (u64 j = 0; j < 2; ++j) CHECK(w.safe(i, j) == 10 + (int)(a.data[i]*3 + b.data[j])); 
    auto r = v(a, _); CHECK(r.dims[0] == 2 && r.dims[1] == 3); auto s = v(1, b); CHECK(s.dims[0] == 2); for (u64 j = 0; j < 2; ++j) CHECK(s.safe[j] == 13 + (int)b.data[j]); for (u64 i = 0; i < 2; ++i) for (u64 j = 0; j < 3; ++j) CHECK(r.safe(i, j) == 10 + (int)(a.data[i]*3 + j)); REACH("2ids");
}
ENTRY h_2ids_neg() {
    vec<2,int> v(2, 3); fill_iota(v); vec1i a = {sym_i64("a")}, b = {sym_i64("b"), sym_i64("b")}; ASSUME((a.data[0] >= -2) & (b.data[0] >= -3) & (b.data[1] >= -3));
    AbortIff ab((a.data[0] >= 2) | (b.data[0] >= 3) | (b.data[1] >= 3)); auto w = v(a, b); ab.returned("v(ids,ids) past the end accepted"); CHECK(w.dims[0] == 1 && w.dims[1] == 2);
    for (u64 j = 0; j < 2; ++j) CHECK(w.safe(0, j) == 10 + (int)(norm(a.data[0], 2)*3 + norm(b.data[j], 3))); REACH("2ids_neg");
}
ENTRY h_1ids_neg(u64 m) {
    vec<1,int> v(3); fill_iota(v); vec1i a(m); bool bad = false; for (u64 i = 0; i < m; ++i) { a.data[i] = sym_i64("a"); ASSUME(a.data[i] >= -3); bad |= a.data[i] >= 3; }
    AbortIff ab(bad); auto w = v(a); ab.returned("v(ids) past the end accepted"); CHECK(w.size() == m && w.dims[0] == m); for (u64 i = 0; i < m; ++i) CHECK(w.safe[i] == 10 + (int)norm(a.data[i], 3)); REACH("1ids_neg");
}
ENTRY h_box() {
    vec<2,int> v(3, 3); fill_iota(v); u64 a = (u64)pick(0, 3, "a"), b = (u64)pick(0, 3, "b"), c = (u64)pick(0, 3, "c"); ASSUME(a <= b); AbortIff ab((b >= 3) | (c >= 3));
    auto w = v(a-_-b, _-c); ab.returned("v(range,range) past the end accepted"); CHECK((w.dims[0] == b-a+1) & (w.dims[1] == c+1) & (w.size() == (b-a+1)*(c+1)));
    vec<2,int> x = w; for (u64 i = 0; i < 3; ++i) for (u64 j = 0; j < 3; ++j) if (i <= b-a && j <= c) CHECK(x(i, j) == 10 + (int)((a+i)*3 + j)); REACH("box");
}
ENTRY h_3d() {
    vec<3,int> v(2, 3, 2); fill_iota(v); i64 i = sym_in(-2, 3), j = sym_in(-3, 4), k = sym_in(-2, 3); int mode = (int)pick(0, 2); bool bi = i >= 2, bj = j >= 3, bk = k >= 2; u64 I = norm(i, 2), J = norm(j, 3), K = norm(k, 2);
    if (mode == 0) { AbortIff ab(bi | bk); auto w = v(i, _, k); ab.returned("bad index accepted"); CHECK(w.dims[0] == 3); for (u64 q = 0; q < 3; ++q) CHECK(w.safe[q] == 10 + (int)((I*3+q)*2+K)); REACH("3d0"); }
    else if (mode == 1) { AbortIff ab(bj); auto w = v(_, j, _); ab.returned("bad index accepted"); CHECK(w.dims[0] == 2 && w.dims[1] == 2); for (u64 q = 0; q < 4; ++q) CHECK(w.safe(q/2, q%2) == 10 + (int)((q/2*3+J)*2+q%2)); REACH("3d1"); }
    else { AbortIff ab(bi | bj); auto w = v(i, j, _); ab.returned("bad index accepted"); CHECK(w.dims[0] == 2); for (u64 q = 0; q < 2; ++q) CHECK(w.safe[q] == 10 + (int)((I*3+J)*2+q)); REACH("3d2"); }
}
ENTRY h_3dr() {
    vec<3,int> v(2, 3, 3); fill_iota(v); u64 f = (u64)pick(0, 2), l = (u64)pick(0, 2); ASSUME(f <= l); vec1u id = {(u64)sym_in(0, 2), (u64)sym_in(0, 2)};
    auto w = v(1, f-_-l, id); CHECK(w.dims[0] == l-f+1 && w.dims[1] == 2); for (u64 i = 0; i <= l-f; ++i) for (u64 j = 0; j < 2; ++j) CHECK(w.safe(i, j) == 10 + (int)((3 + f + i)*3 + id.data[j])); REACH("3dr");
}
ENTRY h_view_of_view() {
    vec<1,int> v(4); fill_iota(v); vec1u a = {(u64)sym_in(0, 3, "a"), (u64)sym_in(0, 3, "a"), (u64)sym_in(0, 3, "a")}; auto w = v[a]; vec1u b = {sym_u64("b"), sym_u64("b")};
    AbortIff ab((b.data[0] >= 3) | (b.data[1] >= 3)); auto x = w[b]; ab.returned("bad index into a view accepted"); CHECK(x.size() == 2); for (u64 i = 0; i < 2; ++i) CHECK(x.safe[i] == 10 + (int)a[b.data[i]]);
    auto y = w[1-_]; CHECK(y.size() == 2 && y.safe[0] == 10 + (int)a[1] && y.safe[1] == 10 + (int)a[2]); auto z = w[_-1]; CHECK(z.size() == 2 && z.safe[0] == 10 + (int)a[0]);
    x = 7; for (u64 i = 0; i < 2; ++i) CHECK(v[a[b.data[i]]] == 7); REACH("vov");
}
ENTRY h_view2_sub() {
    vec<2,int> v(3, 3); fill_iota(v); auto w = v(1-_-2, _-1); i64 i = sym_i64("i"), j = sym_i64("j"); ASSUME((i >= -2) & (j >= -2)); AbortIff ab((i >= 2) | (j >= 2)); int r = w(i, j); ab.returned("bad index into a 2-D view accepted");
    CHECK(r == 10 + (int)((1 + norm(i, 2))*3 + norm(j, 2))); auto x = w(i, _); CHECK(x.size() == 2 && x.safe[1] == 10 + (int)((1 + norm(i, 2))*3 + 1)); auto y = w(_, j); CHECK(y.size() == 2 && y.safe[1] == 10 + (int)(6 + norm(j, 2))); REACH("v2s");
}
ENTRY h_rep() { vec<3,int> v(2, 2, 3); fill_iota(v); auto w = v(repeat<2>(_), 1); CHECK(w.dims[0] == 2 && w.dims[1] == 2); for (u64 q = 0; q < 4; ++q) CHECK(w.safe[q] == 10 + (int)(q*3+1)); i64 k = sym_in(-2, 2); AbortIff ab(k >= 2); auto x = v(repeat<2>(k), _); ab.returned("bad index"); u64 K = norm(k, 2); CHECK(x.size() == 3 && x.safe[2] == 10 + (int)((K*2+K)*3+2)); REACH("rep"); }
ENTRY h_stride() {
    vec<2,int> v(3, 2); fill_iota(v); i64 j = sym_i64("j"); ASSUME(j >= -2); AbortIff ab(j >= 2); auto s = v.stride(_, j); ab.returned("bad stride index accepted"); int n = 0; for (int& e : s) { CHECK(e == 10 + (int)(n*2 + norm(j, 2))); e = 0; ++n; } CHECK(n == 3);
    for (u64 a = 0; a < 3; ++a) for (u64 b = 0; b < 2; ++b) CHECK(v.data[a*2+b] == sel(b == norm(j, 2), 0, 10 + (int)(a*2+b)));
    const vec<2,int>& c = v; n = 0; for (int e : c.stride(1, _)) { CHECK(e == c(1, n)); ++n; } CHECK(n == 2); n = 0; for (int e : c.raw_stride(2, _)) { CHECK(e == c(2, n)); ++n; } CHECK(n == 2); REACH("stride");
}
ENTRY h_cids() { vec<1,int> v(3); fill_iota(v); const vec<1,int>& c = v; vec1i id = {sym_i64("i"), sym_i64("i")}; ASSUME((id.data[0] >= -3) & (id.data[1] >= -3)); AbortIff ab((id.data[0] >= 3) | (id.data[1] >= 3)); auto w = c[id]; ab.returned("const v[ids] past the end accepted"); CHECK(w.size() == 2); for (u64 i = 0; i < 2; ++i) CHECK(w.safe[i] == 10 + (int)norm(id.data[i], 3)); REACH("cids"); }
ENTRY h_idsview() { vec<1,int> v(3); fill_iota(v); vec1u id = {(u64)sym_in(0, 4), (u64)sym_in(0, 4), (u64)sym_in(0, 4)}; auto iv = id[1-_]; AbortIff ab((id.data[1] >= 3) | (id.data[2] >= 3)); auto w = v[iv]; ab.returned("v[view of ids] past the end accepted"); CHECK(w.size() == 2); for (u64 i = 0; i < 2; ++i) CHECK(w.safe[i] == 10 + (int)id.data[i+1]); const vec<1,int>& c = v; auto w2 = c[iv]; CHECK(w2.size() == 2 && w2.safe[0] == w.safe[0]); REACH("idsview"); }
ENTRY h_assignscalar(u64 n) { vec<1,double> v(n); fill_sym(v); vec<1,double> o = v; u64 k = sym_u64("k"); ASSUME(k < n); double x = sym_dbl("x"); v[vec1u{k}] = x; for (u64 i = 0; i < n; ++i) CHECK(same_(v.data[i], sel(i == k, x, o.data[i]))); REACH("as"); }
ENTRY h_safeids() { vec<1,int> v(3); fill_iota(v); vec1u id = {(u64)sym_in(0, 2), (u64)sym_in(0, 2)}; auto w = v.safe[id]; CHECK(w.size() == 2 && w.dims[0] == 2); for (u64 i = 0; i < 2; ++i) CHECK(&w.safe[i] == &v.data[id.data[i]]); vec<2,int> m(2, 3); fill_iota(m); auto x = m.safe(_, id); CHECK(x.dims[0] == 2 && x.dims[1] == 2); for (u64 q = 0; q < 4; ++q) CHECK(x.safe(q/2, q%2) == 10 + (int)(q/2*3 + id.data[q%2])); REACH("safeids"); }
// a first bound past the end stops the program too, whatever the last one
ENTRY h_oob_first() {
    vec<1,int> v(4); vec<2,int> m(3, 4); const vec<1,int>& c = v; u64 f = sym_u64("f"), l = (u64)pick(0, 5, "l"); ASSUME(f >= 4); vf_abort_ok(true);
    switch ((int)pick(0, 5)) {
        case 0: { auto w = v[f-_-l]; break; } case 1: { auto w = v(f-_-l); break; } case 2: { auto w = m(1, f-_-l); break; }
        case 3: { auto w = m(f-_-l, _); break; } case 4: { auto w = c[f-_-l]; break; } default: { auto w = m(f-_, 2); break; }
    }
    CHECKM(false, "range whose first bound is past the end accepted");
}
// assigning to a view needs as many elements as the view has
ENTRY h_asg_size() { vec<1,int> v(4), z(4); fill_iota(v); fill_iota(z, 50); u64 m = (u64)pick(0, 3), k = (u64)pick(0, 4); vec1u a(m), b(k); for (u64 i = 0; i < m; ++i) a.data[i] = i; for (u64 i = 0; i < k; ++i) b.data[i] = 3-i; const vec<1,int>& c = z; auto w = v[a]; auto x = z[b]; auto y = c[b]; vec<1,int> t = x; vec<1,double> d = x; int op = (int)pick(0, 7); AbortIff ab(m != k);
    switch (op) { case 0: w = x; break; case 1: w = y; break; case 2: w = t; break; case 3: w = z[b]; break; case 4: v[a] = c[b]; break; case 5: v[a] = vec<1,int>(t); break; case 6: w += x; break; default: v[a] += t; }
    ab.returned("view = vector of another size accepted"); for (u64 i = 0; i < m; ++i) CHECK(v.data[i] == (op >= 6 ? 10 + (int)i : 0) + 53 - (int)i); REACH("asg_size"); }
ENTRY h_asg_size2() { vec<2,int> v(2, 3), z(2, 3); fill_iota(v); fill_iota(z, 50); u64 m = (u64)pick(0, 2), k = (u64)pick(0, 3); vec1u a(m), b(k); for (u64 i = 0; i < m; ++i) a.data[i] = i; for (u64 i = 0; i < k; ++i) b.data[i] = 1; int op = (int)pick(0, 2); AbortIff ab(m != k); if (op == 0) v(a, _) = z(b, _); else if (op == 1) { auto x = z(b, _); v(a, _) = x; } else { vec<2,int> t = z(b, _); v(a, _) = t; } ab.returned("2-D view = 2-D view of another size accepted"); for (u64 i = 0; i < m; ++i) for (u64 j = 0; j < 3; ++j) CHECK(v.data[i*3+j] == 53 + (int)j); REACH("asg_size2"); }
// every index given to a view is checked
ENTRY h_vov_oob() { vec<1,int> v(6); fill_iota(v); auto w = v[1-_-4]; const auto& cw = w; u64 i[3]; bool bad = false; vec1u id(3); for (int q = 0; q < 3; ++q) { id.data[q] = i[q] = sym_u64("i"); bad |= i[q] >= 4; } int op = (int)pick(0, 1); AbortIff ab(bad); if (op == 0) { auto r = w[id]; ab.returned("view[ids] past the end accepted"); CHECK(r.size() == 3); for (int q = 0; q < 3; ++q) CHECK(r.data[q] == v.data.data() + 1 + i[q]); } else { auto r = cw[id]; ab.returned("const view[ids] past the end accepted"); CHECK(r.size() == 3); for (int q = 0; q < 3; ++q) CHECK(r.data[q] == v.data.data() + 1 + i[q]); } REACH("vov_oob"); }
ENTRY h_vov_idview() { vec<1,int> v(6); fill_iota(v); auto w = v[1-_-4]; const auto& cw = w; vec<1,i64> id(4); bool bad = false; for (u64 q = 0; q < 4; ++q) { id.data[q] = sym_i64("i"); ASSUME(id.data[q] >= -4); if (q) bad |= id.data[q] >= 4; } auto iv = id[1-_]; const vec<1,i64>& cid = id; auto civ = cid[1-_]; int op = (int)pick(0, 3); auto at = [&](u64 q) { return v.data.data() + 1 + (id.data[q] < 0 ? id.data[q] + 4 : id.data[q]); }; AbortIff ab(bad);
    if (op == 0) { auto r = w[iv]; ab.returned("view[view of ids] past the end accepted"); CHECK(r.size() == 3); for (u64 q = 0; q < 3; ++q) CHECK(r.data[q] == at(q+1)); } else if (op == 1) { auto r = cw[iv]; ab.returned("const view[view of ids] past the end accepted"); CHECK(r.size() == 3); for (u64 q = 0; q < 3; ++q) CHECK(r.data[q] == at(q+1)); }
    else if (op == 2) { auto r = w[civ]; ab.returned("view[const view of ids] past the end accepted"); for (u64 q = 0; q < 3; ++q) CHECK(r.data[q] == at(q+1)); } else { auto r = cw[civ]; ab.returned("const view[const view of ids] past the end accepted"); for (u64 q = 0; q < 3; ++q) CHECK(r.data[q] == at(q+1)); } REACH("vov_idview"); }
ENTRY h_idview64() { vec<1,int> v(4); fill_iota(v); const vec<1,int>& c = v; vec<1,i64> id(3); bool bad = false; for (u64 q = 0; q < 3; ++q) { id.data[q] = sym_i64("i"); ASSUME(id.data[q] >= -4); bad |= id.data[q] >= 4; } auto iv = id[_]; const vec<1,i64>& cid = id; auto civ = cid[_]; int op = (int)pick(0, 5); auto at = [&](u64 q) { return v.data.data() + (id.data[q] < 0 ? id.data[q] + 4 : id.data[q]); }; AbortIff ab(bad);
    vec1u w; if (op == 0) { auto r = v[iv]; ab.returned("v[view of ids] past the end accepted"); for (u64 q = 0; q < 3; ++q) CHECK(r.data[q] == at(q)); } else if (op == 1) { auto r = c[iv]; ab.returned("const v[view of ids] past the end accepted"); for (u64 q = 0; q < 3; ++q) CHECK(r.data[q] == at(q)); } else if (op == 2) { auto r = v[civ]; ab.returned("v[const view of ids] past the end accepted"); for (u64 q = 0; q < 3; ++q) CHECK(r.data[q] == at(q)); } else if (op == 3) { auto r = c[civ]; ab.returned("const v[const view] past the end accepted"); for (u64 q = 0; q < 3; ++q) CHECK(r.data[q] == at(q)); } else if (op == 4) { auto r = v(iv); ab.returned("v(view of ids) past the end accepted"); for (u64 q = 0; q < 3; ++q) CHECK(r.data[q] == at(q)); } else { auto r = c(id); ab.returned("v(ids) past the end accepted"); for (u64 q = 0; q < 3; ++q) CHECK(r.data[q] == at(q)); } REACH("idview64"); }
