#include "hv.h"
//BOUND 1-D histories of 3 (quick) / 4 (thorough) operations among push_back, resize, clear, copy, move, assign on vectors of <=3 elements
//BOUND 2-D and 3-D vectors with dimensions <=3; element values unbounded
//RUN quick h_hist 2,3
//RUN thorough h_hist 4
//RUN both h_ctor 0..3 0..3
//RUN both h_copy 0..3
//RUN both h_move 0..3
//RUN both h_move2 0..2 1..3
//RUN both h_push2 0..2 1..3 0..3
//RUN both h_push2v
//RUN both h_push3 1..2 1..3 1..3
//RUN both h_ilist2
//RUN both h_ilist3
//RUN both h_ilistv
//RUN both h_conv 0..3
//RUN both h_resize2 0..3 0..3
//RUN both h_assign_range 0..3
//RUN both h_grow 1..3
//RUN both h_grow2
//RUN both h_grow_safe

struct M { int n; int e[16]; };
static void same(const vec<1,int>& v, const M& m) {
    CHECKM(v.dims[0] == (u64)m.n && v.data.size() == (u64)m.n && v.size() == (u64)m.n && v.empty() == (m.n == 0), "size, dims and data disagree");
    for (int i = 0; i < m.n; ++i) CHECKM(v.data[i] == m.e[i], "wrong content after a history of operations");
}
ENTRY h_hist(u64 len) {
    vec<1,int> v; M m; m.n = 0; vec<1,int> w; M mw; mw.n = 0;
    for (u64 s = 0; s < len; ++s) {
        int op = (int)pick(0, 9, "op");
        if (op == 0) { int x = sym_int("x"); v.push_back(x); m.e[m.n++] = x; }
        else if (op == 1) { int k = (int)pick(0, 3, "k"); v.resize(k); for (int i = m.n; i < k; ++i) m.e[i] = 0; m.n = k; }
        else if (op == 2) { v.clear(); m.n = 0; }
        else if (op == 3) { w = v; mw = m; }
        else if (op == 4) { w = std::move(v); mw = m; m.n = 0; }
        else if (op == 5) { vec<1,int> t(v); CHECK(t.size() == (u64)m.n); w = std::move(t); mw = m; }
        else if (op == 6) { std::swap(v, w); M t = m; m = mw; mw = t; }
        else if (op == 7) { int a = sym_int("a"), b = sym_int("b"); v = {a, b}; m.n = 2; m.e[0] = a; m.e[1] = b; }
        else if (op == 8) { v = v; }
        else { v.reserve(8); vec<1,int> t(std::move(v)); CHECK(v.size() == 0 && v.dims[0] == 0); v = t; }
        same(v, m); same(w, mw);
        REACH("hist");
    }
    obs("n", (u64)m.n);
}
ENTRY h_ctor(u64 a, u64 b) {
    vec1i d; CHECK(d.empty() && d.size() == 0 && d.dims[0] == 0);
    vec<1,int> v(a); CHECK(v.size() == a && v.dims[0] == a); for (u64 i = 0; i < a; ++i) CHECK(v.data[i] == 0);
    vec<2,double> w(a, b); CHECK(w.dims[0] == a && w.dims[1] == b && w.size() == a*b && w.data.size() == a*b); for (u64 i = 0; i < a*b; ++i) CHECK(w.data[i] == 0.0);
    vec<2,bool> x(w.dims); CHECK(x.dims == w.dims && x.size() == a*b); for (u64 i = 0; i < a*b; ++i) CHECK(!x.data[i]);
    vec<3,int> y(w.dims, 2); CHECK(y.dims[0] == a && y.dims[1] == b && y.dims[2] == 2 && y.size() == 2*a*b);
    vec<1,std::string> s(a); CHECK(s.size() == a); for (u64 i = 0; i < a; ++i) CHECK(s.data[i].empty());
    REACH("ctor");
}
ENTRY h_copy(u64 n) {
    vec<2,int> v(n, 2); fill_sym(v); int o[MAXN]; for (u64 i = 0; i < 2*n; ++i) o[i] = v.data[i];
    vec<2,int> c(v); vec<2,int> d; d = v; vec<2,int> big(3, 3); big = v;
    CHECK(c.dims == v.dims && d.dims == v.dims && big.dims == v.dims && big.data.size() == 2*n);
    for (u64 i = 0; i < 2*n; ++i) v.data[i] = sym_int("w");
    for (u64 i = 0; i < 2*n; ++i) CHECKM((c.data[i] == o[i]) & (d.data[i] == o[i]) & (big.data[i] == o[i]), "copies must be independent");
    // the copies' own unchecked accessors refer to themselves
    for (u64 i = 0; i < 2*n; ++i) CHECK((&c.safe[i] == &c.data[i]) & (&d.safe[i] == &d.data[i]));
    REACH("copy");
}
ENTRY h_move(u64 n) {
    vec<1,int> v(n); fill_sym(v); int o[MAXN]; for (u64 i = 0; i < n; ++i) o[i] = v.data[i];
    vec<1,int> w(2); w = std::move(v);
    CHECK(w.size() == n && w.dims[0] == n); for (u64 i = 0; i < n; ++i) CHECK(w.data[i] == o[i]);
    CHECKM(v.size() == 0 && v.dims[0] == 0, "a moved-from vector is empty");
    for (u64 i = 0; i < n; ++i) CHECK(&w.safe[i] == &w.data[i]);
    vec<1,int> x(std::move(w)); CHECK(x.size() == n && x.dims[0] == n); CHECK(w.size() == 0 && w.dims[0] == 0);
    int k = sym_int("k"); v.push_back(k); CHECK(v.size() == 1 && v.dims[0] == 1 && v[0] == k); REACH("move");
}
ENTRY h_move2(u64 a, u64 b) {
    vec<2,int> v(a, b); fill_iota(v); vec<2,int> w; w = std::move(v); CHECK(w.dims[0] == a && w.dims[1] == b && w.size() == a*b);
    CHECKM(v.empty() && dims_ok(v), "moved-from 2-D vector: dims and data disagree"); vec<2,int> x(std::move(w)); CHECK(dims_ok(w) && w.empty() && x.size() == a*b && x.dims[0] == a); REACH("move2");
}
ENTRY h_push2(u64 a, u64 b, u64 c) {
    vec<2,int> v(a, b); fill_sym(v); vec<2,int> o = v; vec<1,int> r(c); fill_sym(r);
    AbortIff ab(a*b != 0 && b != c); v.push_back(r); ab.returned("push_back of a row of the wrong size accepted");
    u64 base = a*b == 0 ? 0 : a;
    CHECK(dims_ok(v)); CHECK(v.dims[0] == base + 1 && v.dims[1] == c);
    for (u64 i = 0; i < base*b; ++i) CHECK(v.data[i] == o.data[i]); for (u64 i = 0; i < c; ++i) CHECK(v.data[base*b + i] == r.data[i]);
    REACH("push2");
}
ENTRY h_push2v() {
    vec<2,int> v(2, 2); fill_sym(v); vec<1,int> s(4); fill_sym(s); vec1u id = {(u64)pick(0, 3, "id"), (u64)pick(0, 3, "id")};
    vec<2,int> o = v; v.push_back(s[id]); CHECK(v.dims[0] == 3 && v.dims[1] == 2 && v.size() == 6);
    for (u64 i = 0; i < 4; ++i) CHECK(v.data[i] == o.data[i]); CHECK(v.data[4] == s.data[id[0]] && v.data[5] == s.data[id[1]]);
    v.push_back(v(0, _)); CHECK(v.size() == 8); CHECK(v.data[6] == o.data[0] && v.data[7] == o.data[1]); REACH("push2v");
}
ENTRY h_push3(u64 a, u64 b, u64 c) {
    vec<3,int> v(a, 2, 3); fill_iota(v, 10); vec<2,int> r(b, c); fill_iota(r, 100);
    AbortIff ab(b != 2 || c != 3); v.push_back(r); ab.returned("push_back of a plane of the wrong shape accepted");
    CHECK(v.dims[0] == a + 1 && v.dims[1] == 2 && v.dims[2] == 3 && dims_ok(v)); for (u64 i = 0; i < 6; ++i) CHECK(v.data[6*a + i] == 100 + (int)i); for (u64 i = 0; i < 6*a; ++i) CHECK(v.data[i] == 10 + (int)i); REACH("push3");
}
ENTRY h_ilist2() {
    int a = sym_int(), b = sym_int(), c = sym_int(), d = sym_int(), e = sym_int(), f = sym_int();
    vec<2,int> v = {{a, b, c}, {d, e, f}}; CHECK(v.dims[0] == 2 && v.dims[1] == 3 && dims_ok(v)); CHECK(v(0,0) == a && v(0,1) == b && v(0,2) == c && v(1,0) == d && v(1,1) == e && v(1,2) == f);
    v = {{a}, {c}, {e}}; CHECK(v.dims[0] == 3 && v.dims[1] == 1 && dims_ok(v) && v(1,0) == c && v(2,0) == e);
    v = {{}}; CHECK(dims_ok(v) && v.empty());
    vec<1,int> w = {a, b, c}; CHECK(w.size() == 3 && w[0] == a && w[1] == b && w[2] == c); w = {d}; CHECK(w.size() == 1 && w.dims[0] == 1 && w[0] == d); 
    REACH("ilist2");
    int k = (int)pick(0, 3, "shape"); vf_abort_ok(k < 3);
    if (k == 0) v = {{a, b}, {c}}; else if (k == 1) v = {{a}, {b, c}}; else if (k == 2) v = {{a, b}, {}}; else v = {{a, b}, {c, d}};
    CHECKM(k == 3, "heterogeneous initializer list accepted"); REACH("ilist2b");
}
ENTRY h_ilist3() {
    int e[8]; for (int i = 0; i < 8; ++i) e[i] = sym_int();
    vec<3,int> v = {{{e[0], e[1]}, {e[2], e[3]}}, {{e[4], e[5]}, {e[6], e[7]}}}; CHECK(v.dims[0] == 2 && v.dims[1] == 2 && v.dims[2] == 2 && v.size() == 8); for (int i = 0; i < 8; ++i) CHECK(v(i/4, (i/2)%2, i%2) == e[i]); REACH("ilist3");
    int k = (int)pick(0, 2, "shape"); vf_abort_ok(k < 2);
    if (k == 0) v = {{{1, 2}, {3, 4}}, {{1, 2}}}; else if (k == 1) v = {{{1, 2}, {3, 4}}, {{1, 2}, {3}}}; else v = {{{1}}}; CHECKM(k == 2, "heterogeneous initializer list accepted"); CHECK(v.size() == 1); REACH("ilist3b");
}
ENTRY h_ilistv() {
    vec<1,int> v(4); fill_sym(v); vec<1,int> o = v; int a = sym_int(), b = sym_int(), c = sym_int(); vec1u id = {3, 0};
    int k = (int)pick(1, 3, "n"); AbortIff ab(k != 2); if (k == 1) v[id] = {a}; else if (k == 2) v[id] = {a, b}; else v[id] = {a, b, c}; ab.returned("view assigned from a list of another size");
    CHECK(v[3] == a && v[0] == b && v[1] == o[1] && v[2] == o[2]); REACH("ilistv");
}
ENTRY h_conv(u64 n) {
    vec<1,int> v(n); fill_sym(v); vec<1,double> d = v; CHECK(d.size() == n && d.dims[0] == n); for (u64 i = 0; i < n; ++i) CHECK(d.data[i] == (double)v.data[i]);
    vec<1,double> e(2); e = v; CHECK(e.size() == n && e.dims[0] == n); for (u64 i = 0; i < n; ++i) CHECK(e.data[i] == (double)v.data[i]);
    vec<1,int> w = v[_]; CHECK(w.size() == n && w.dims[0] == n); for (u64 i = 0; i < n; ++i) CHECK(w.data[i] == v.data[i]);
    vec<1,long> l = v[_]; CHECK(l.size() == n); for (u64 i = 0; i < n; ++i) CHECK(l.data[i] == v.data[i]);
    REACH("conv");
}
ENTRY h_resize2(u64 a, u64 b) {
    vec<2,int> v(2, 2); fill_sym(v); v.resize(a, b); CHECK(v.dims[0] == a && v.dims[1] == b && dims_ok(v)); v.clear(); CHECK(v.dims[0] == 0 && v.dims[1] == 0 && v.empty()); v.resize(b, a); for (u64 i = 0; i < a*b; ++i) CHECK(v.data[i] == 0); REACH("resize2");
}
// assigning a view of the same vector to the vector itself keeps dims and data in step
ENTRY h_assign_range(u64 n) {
    vec<1,int> v(3); fill_sym(v); vec<1,int> o = v; vec1u id(n); for (u64 i = 0; i < n; ++i) id.data[i] = (u64)sym_in(0, 2, "id");
    v = v[id]; CHECK(v.size() == n && v.dims[0] == n); for (u64 i = 0; i < n; ++i) CHECK(v.data[i] == o[id[i]]); REACH("assign_range");
}
// a vector assigned from a larger view of itself
ENTRY h_grow(u64 n) { vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; u64 m = (u64)pick(1, 4); vec1u id(m); for (u64 i = 0; i < m; ++i) id.data[i] = (u64)pick(0, n-1); const vec<1,int>& c = v; if (sym_bool()) v = v[id]; else v = c[id]; CHECK(v.dims[0] == m && v.size() == m); for (u64 i = 0; i < m; ++i) CHECKM(v.data[i] == o.data[id.data[i]], "v = v[ids] must read the old values, whatever the number of ids"); REACH("grow"); }
ENTRY h_grow2() { vec<2,int> v(2, 2); fill_sym(v); vec<2,int> o = v; u64 m = (u64)pick(1, 3), k = (u64)pick(1, 3); vec1u a(m), b(k); for (u64 i = 0; i < m; ++i) a.data[i] = (u64)pick(0, 1); for (u64 i = 0; i < k; ++i) b.data[i] = (u64)pick(0, 1); const vec<2,int>& c = v; if (pick(0, 1)) v = v(a, b); else v = c(a, b); CHECK(v.dims[0] == m && v.dims[1] == k && dims_ok(v)); for (u64 i = 0; i < m; ++i) for (u64 j = 0; j < k; ++j) CHECK(v.data[i*k + j] == o.data[a.data[i]*2 + b.data[j]]); REACH("grow2"); }
ENTRY h_grow_safe() { vec<1,int> v(3); fill_sym(v); vec<1,int> o = v; u64 m = (u64)pick(1, 5); vec1u id(m); for (u64 i = 0; i < m; ++i) id.data[i] = (2*i + 1) % 3; auto w = v[_]; int op = (int)pick(0, 2); if (op == 0) v = v.safe[id]; else if (op == 1) v = w[id]; else v = w.safe[id]; CHECK(v.dims[0] == m && v.size() == m); for (u64 i = 0; i < m; ++i) CHECK(v.data[i] == o.data[id.data[i]]); REACH("grow_safe"); }
