#include "hv.h"
//BOUND vectors of <=4 elements (quick) / 5 (thorough), 2-D 2x2 to 3x3, every choice of index vectors of <=3 entries, values unbounded
//RUN both h_vv 1..3
//RUN both h_vcv 1..3
//RUN both h_vw
//RUN both h_op_vv 1..2
//RUN both h_op_cv 1..2
//RUN both h_op_self 1..3
//RUN both h_scalar 1..3
//RUN quick h_scalar_d 1..2
//RUN thorough h_scalar_d 1..3
//RUN both h_scalar_view
//RUN both h_rowcol
//RUN both h_2d_perm
//RUN both h_view_of_view
//RUN both h_ranges
//RUN both h_self_conv 0..3
//RUN both h_viewop_vec
//RUN both h_bool
//RUN both h_dbl
//RUN both h_nest 0..7
//RUN both h_nest2d
//RUN both h_nest_moved
//RUN both h_nest_safe
static u64 id4(u64 n) { return (u64)pick(0, (i64)n-1); }
// reference: v[a] = (copy of v)[b], left to right
static void ref_assign(int* o, const u64* a, const u64* b, u64 m, u64 n) { int t[8], r[8]; for (u64 i = 0; i < m; ++i) t[i] = pick_at(o, n, b[i]); for (u64 i = 0; i < n; ++i) r[i] = o[i];
    for (u64 i = 0; i < m; ++i) for (u64 j = 0; j < n; ++j) r[j] = a[i] == j ? t[i] : r[j]; for (u64 i = 0; i < n; ++i) o[i] = r[i]; }
struct Ids { vec1u v; u64 a[4]; Ids(u64 m, u64 n) : v(m) { for (u64 i = 0; i < m; ++i) v.data[i] = a[i] = id4(n); } };
ENTRY h_vv(u64 m) { const u64 n = 3; vec<1,int> v(n); fill_sym(v); int o[n]; for (u64 i = 0; i < n; ++i) o[i] = v.data[i]; Ids a(m, n), b(m, n);
    v[a.v] = v[b.v]; ref_assign(o, a.a, b.a, m, n); for (u64 i = 0; i < n; ++i) CHECKM(v.data[i] == o[i], "v[a] = v[b] must read v before writing"); REACH("vv"); }
ENTRY h_vcv(u64 m) { const u64 n = 3; vec<1,int> v(n); fill_sym(v); const vec<1,int>& c = v; int o[n]; for (u64 i = 0; i < n; ++i) o[i] = v.data[i]; Ids a(m, n), b(m, n);
    v[a.v] = c[b.v]; ref_assign(o, a.a, b.a, m, n); for (u64 i = 0; i < n; ++i) CHECKM(v.data[i] == o[i], "v[a] = const v[b] must read v before writing"); REACH("vcv"); }
ENTRY h_vw() { const u64 n = 3; vec<1,int> v(n); fill_sym(v); int o[n]; for (u64 i = 0; i < n; ++i) o[i] = v.data[i]; Ids a(n, n); u64 b[3] = {0, 1, 2};
    v[a.v] = v; ref_assign(o, a.a, b, n, n); for (u64 i = 0; i < n; ++i) CHECKM(v.data[i] == o[i], "v[a] = v must read v before writing"); REACH("vw"); }
ENTRY h_op_vv(u64 m) { const u64 n = 3; vec<1,int> v(n); fill_sym(v); unsigned o[n]; for (u64 i = 0; i < n; ++i) o[i] = (unsigned)v.data[i]; Ids a(m, n), b(m, n); 
    v[a.v] += v[b.v]; unsigned r[n], t[4]; for (u64 i = 0; i < m; ++i) t[i] = pick_at(o, n, b.a[i]); for (u64 i = 0; i < n; ++i) r[i] = o[i]; for (u64 i = 0; i < m; ++i) for (u64 j = 0; j < n; ++j) r[j] += a.a[i] == j ? t[i] : 0u;
    for (u64 i = 0; i < n; ++i) CHECKM((unsigned)v.data[i] == r[i], "v[a] += v[b] must use the old values of v[b]"); REACH("op_vv"); }
ENTRY h_op_cv(u64 m) { const u64 n = 3; vec<1,int> v(n); fill_sym(v); const vec<1,int>& c = v; unsigned o[n]; for (u64 i = 0; i < n; ++i) o[i] = (unsigned)v.data[i]; Ids a(m, n), b(m, n); 
    v[a.v] -= c[b.v]; unsigned r[n], t[4]; for (u64 i = 0; i < m; ++i) t[i] = pick_at(o, n, b.a[i]); for (u64 i = 0; i < n; ++i) r[i] = o[i]; for (u64 i = 0; i < m; ++i) for (u64 j = 0; j < n; ++j) r[j] -= a.a[i] == j ? t[i] : 0u;
    for (u64 i = 0; i < n; ++i) CHECKM((unsigned)v.data[i] == r[i], "v[a] -= const v[b] must use the old values of v[b]"); REACH("op_cv"); }
ENTRY h_op_self(u64 n) { vec<1,int> v(n); fill_sym(v); const vec<1,int>& c = v; unsigned o[4]; for (u64 i = 0; i < n; ++i) o[i] = (unsigned)v.data[i]; Ids b(n, n); bool cst = sym_bool(); if (cst) v += c[b.v]; else v += v[b.v];
    for (u64 i = 0; i < n; ++i) CHECKM((unsigned)v.data[i] == o[i] + pick_at(o, n, b.a[i]), "v += v[b] must use the old values"); 
    vec<1,int> w(n); fill_sym(w); vec<1,int> p = w; w -= w; for (u64 i = 0; i < n; ++i) CHECK(w.data[i] == 0); w = p; w += w; for (u64 i = 0; i < n; ++i) CHECK((unsigned)w.data[i] == 2u*(unsigned)p.data[i]); REACH("op_self"); }
ENTRY h_scalar(u64 n) { vec<1,int> v(n); fill_sym(v); unsigned o[4]; for (u64 i = 0; i < n; ++i) o[i] = (unsigned)v.data[i]; u64 k = id4(n); unsigned s = pick_at(o, n, k); int op = (int)pick(0, 2); if (op == 2) for (u64 i = 0; i < n; ++i) ASSUME((int)o[i] >= -8 && (int)o[i] < 8);
    if (op == 0) v += v[k]; else if (op == 1) v -= v[k]; else v *= v[k]; for (u64 i = 0; i < n; ++i) CHECKM((unsigned)v.data[i] == (op == 0 ? o[i] + s : op == 1 ? o[i] - s : o[i]*s), "v op= v[k] must use the value v[k] had before"); REACH("scalar"); }
ENTRY h_scalar_d(u64 n) { vec<1,double> v(n); double o[4]; for (u64 i = 0; i < n; ++i) o[i] = v.data[i] = sym_q(1, 8); u64 k = (u64)pick(0, n-1); v *= v[k]; for (u64 i = 0; i < n; ++i) CHECKM(bits_of(v.data[i]) == bits_of(o[i]*o[k]), "v *= v[k]"); vec<1,double> w(n); for (u64 i = 0; i < n; ++i) w.data[i] = o[i]; w /= w[k]; for (u64 i = 0; i < n; ++i) CHECKM(bits_of(w.data[i]) == bits_of(o[i]/o[k]), "v /= v[k]"); REACH("scalar_d"); }
ENTRY h_scalar_view() { const u64 n = 3; vec<1,int> v(n); fill_sym(v); unsigned o[n]; for (u64 i = 0; i < n; ++i) o[i] = (unsigned)v.data[i]; u64 k = id4(n); unsigned s = pick_at(o, n, k); int op = (int)pick(0, 2);
    if (op == 0) { v[_] += v[k]; for (u64 i = 0; i < n; ++i) CHECK((unsigned)v.data[i] == o[i] + s); } else if (op == 1) { v[_] -= v[k]; for (u64 i = 0; i < n; ++i) CHECK((unsigned)v.data[i] == o[i] - s); } else { v[1-_] = v[k]; for (u64 i = 1; i < n; ++i) CHECKM((unsigned)v.data[i] == s, "view = element of the same vector"); CHECK((unsigned)v.data[0] == o[0]); } REACH("scalar_view"); }
ENTRY h_rowcol() { vec<2,int> v(3, 3); fill_sym(v); vec<2,int> o = v; int op = (int)pick(0, 3); u64 i = (u64)pick(0, 2), j = (u64)pick(0, 2);
    if (op == 0) { v(i, _) = v(_, j); for (u64 a = 0; a < 3; ++a) for (u64 b = 0; b < 3; ++b) CHECK(v.safe(a, b) == (a == i ? o.safe(b, j) : o.safe(a, b))); }
    else if (op == 1) { v(_, i) = v(j, _); for (u64 a = 0; a < 3; ++a) for (u64 b = 0; b < 3; ++b) CHECK(v.safe(a, b) == (b == i ? o.safe(j, a) : o.safe(a, b))); }
    else if (op == 2) { v(i, _) += v(_, j); for (u64 a = 0; a < 3; ++a) for (u64 b = 0; b < 3; ++b) CHECK((unsigned)v.safe(a, b) == (unsigned)o.safe(a, b) + (a == i ? (unsigned)o.safe(b, j) : 0u)); }
    else { const vec<2,int>& c = v; v(i, _) = c(_, j); for (u64 a = 0; a < 3; ++a) for (u64 b = 0; b < 3; ++b) CHECKM(v.safe(a, b) == (a == i ? o.safe(b, j) : o.safe(a, b)), "row = const column of the same image"); }
    REACH("rowcol"); }
ENTRY h_2d_perm() { vec<2,int> v(2, 2); fill_sym(v); vec<2,int> o = v; vec1u a = {id4(2), id4(2)}; v(_, _) = v(a, _); for (u64 i = 0; i < 2; ++i) for (u64 j = 0; j < 2; ++j) CHECK(v.safe(i, j) == o.safe(a.data[i], j)); v = o; v = v(_, a); CHECK(v.dims[0] == 2 && v.dims[1] == 2); for (u64 i = 0; i < 2; ++i) for (u64 j = 0; j < 2; ++j) CHECK(v.safe(i, j) == o.safe(i, a.data[j])); REACH("2d_perm"); }
ENTRY h_view_of_view() { const u64 n = 4; vec<1,int> v(n); fill_sym(v); int o[n]; for (u64 i = 0; i < n; ++i) o[i] = v.data[i]; int op = (int)pick(0, 3); auto w = v[_];
    if (op == 0) { w[1-_] = w[_-2]; for (u64 i = 1; i < n; ++i) CHECK(v.data[i] == o[i-1]); }
    else if (op == 1) { w[1-_] = v[_-2]; for (u64 i = 1; i < n; ++i) CHECKM(v.data[i] == o[i-1], "range of a view assigned from the vector it views"); }
    else if (op == 2) { v[1-_] = w[_-2]; for (u64 i = 1; i < n; ++i) CHECKM(v.data[i] == o[i-1], "range assigned from a range of a view of the same vector"); }
    else { vec1u id = {1, 2, 3}; v[id] = w[_-2]; for (u64 i = 1; i < n; ++i) CHECKM(v.data[i] == o[i-1], "v[ids] assigned from a range of a view of the same vector"); }
    CHECK(v.data[0] == o[0]); REACH("vov"); }
ENTRY h_ranges() { const u64 n = 5; vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; u64 a = (u64)pick(0, 2), b = (u64)pick(0, 2); v[a-_-(a+2)] = v[b-_-(b+2)]; for (u64 i = 0; i < n; ++i) CHECK(v.data[i] == ((i >= a && i <= a+2) ? o.data[i-a+b] : o.data[i])); v = o; v(a-_-(a+2)) = v(b-_-(b+2)); for (u64 i = 0; i < n; ++i) CHECK(v.data[i] == ((i >= a && i <= a+2) ? o.data[i-a+b] : o.data[i])); REACH("ranges"); }
ENTRY h_self_conv(u64 n) { vec<1,int> v(3); fill_sym(v); vec<1,int> o = v; Ids b(n, 3); const vec<1,int>& c = v; v = c[b.v]; CHECK(v.size() == n && v.dims[0] == n); for (u64 i = 0; i < n; ++i) CHECKM(v.data[i] == o.data[b.a[i]], "v = const v[b] must read v before writing"); REACH("self_conv"); }
ENTRY h_viewop_vec() { const u64 n = 3; vec<1,int> v(n); fill_sym(v); unsigned o[n]; for (u64 i = 0; i < n; ++i) o[i] = (unsigned)v.data[i]; Ids a(n, n); v[a.v] += v; unsigned r[n]; for (u64 i = 0; i < n; ++i) r[i] = o[i]; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) r[j] += a.a[i] == j ? o[i] : 0u; for (u64 i = 0; i < n; ++i) CHECKM((unsigned)v.data[i] == r[i], "v[a] += v must use the old values of v"); REACH("viewop_vec"); }
ENTRY h_bool() { const u64 n = 3; vec1b v(n); fill_sym(v); vec1b o = v; const vec1b& c = v; bool cst = sym_bool(); vec1u id = {2, 0, 1}; if (cst) v[_] = c[id]; else v[_] = v[id]; for (u64 i = 0; i < n; ++i) CHECK((bool)v.data[i] == (bool)o.data[id.data[i]]); REACH("bool"); }
ENTRY h_dbl() { const u64 n = 3; vec1d v(n); fill_sym(v); vec1d o = v; Ids a(2, n), b(2, n); v[a.v] = v[b.v]; for (u64 j = 0; j < n; ++j) { u64 e = bits_of(o.data[j]); for (u64 i = 0; i < 2; ++i) e = a.a[i] == j ? bits_of(o.data[b.a[i]]) : e; CHECK(bits_of(v.data[j]) == e); } REACH("dbl"); }
// nested views, in every combination of constness and access, still know which vector they come from
#define ROT for (u64 i = 0; i < n; ++i) CHECKM(v.data[i] == o.data[(i+1) % n], "assignment between (nested) views of one vector must read before writing")
ENTRY h_nest(u64 op) { const u64 n = 3; vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; const vec<1,int>& c = v; vec1u id = {1, 2, 0}, all = {0, 1, 2}; vec1u ida = all; auto idv = id[_]; auto allv = ida[_]; auto w = v[_]; auto cw = c[_]; const auto& kw = w; int dst = (int)pick(0, 3);
    auto put = [&](const vec<1,int*>& x) { if (dst == 0) v[_] = x; else if (dst == 1) w[all] = x; else if (dst == 2) w[allv] = x; else w(_) = x; }; auto putc = [&](const vec<1,const int*>& x) { if (dst == 0) v[_] = x; else if (dst == 1) w[all] = x; else if (dst == 2) w[allv] = x; else w(_) = x; };
    switch (op) { case 0: put(w[id]); break; case 1: put(w[idv]); break; case 2: putc(kw[id]); break; case 3: putc(kw[idv]); break; case 4: putc(cw[id]); break; case 5: put(w(id)); break; case 6: putc(kw(id)); break; default: putc(cw(idv)); } ROT; REACH("nest"); }
ENTRY h_nest2d() { const u64 n = 2; vec<2,int> v(n, n); fill_sym(v); vec<2,int> o = v; auto w = v(_, _); const auto& kw = w; vec1u sw = {1, 0}; int op = (int)pick(0, 4); if (op == 0) v(_, _) = w(sw, _); else if (op == 1) v(_, _) = kw(sw, _); else if (op == 2) w(_, _) = w(sw, _); else if (op == 3) { w(0, _) = w(1, _); CHECK(v.data[0] == o.data[2] && v.data[1] == o.data[3]); w(1, _) = w(_, 0); CHECKM(v.data[2] == o.data[2] && v.data[3] == o.data[2], "row of a view assigned from a column of that view"); return; } else { w(1, _) = v(_, 1); CHECKM(v.data[2] == o.data[1] && v.data[3] == o.data[3], "row of a view assigned from a column of the vector"); return; }
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) CHECK(v.data[i*n + j] == o.data[(1-i)*n + j]); REACH("nest2d"); }
static vec<1,int*> mk(vec<1,int>& v, const vec1u& id) { vec<1,int*> t = v[id]; vec<1,int*> u = std::move(t); return u; }
ENTRY h_nest_moved() { const u64 n = 3; vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; vec1u id = {1, 2, 0}, all = {0, 1, 2}; int op = (int)pick(0, 3); auto m = mk(v, id); vec<1,int*> cp = m; if (op == 0) v[_] = m; else if (op == 1) v[_] = mk(v, id); else if (op == 2) { auto d = mk(v, all); d = m; } else v[_] = cp; ROT; REACH("nest_moved"); }
ENTRY h_nest_safe() { const u64 n = 3; vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; vec1u id = {1, 2, 0}; auto idv = id[_]; auto w = v[_]; const auto& kw = w; const vec<1,int>& c = v; int op = (int)pick(0, 7); switch (op) { case 0: v[_] = w.safe[id]; break; case 1: v[_] = w.safe[idv]; break; case 2: v[_] = v.safe[id]; break; case 3: v[_] = c.safe[id]; break; case 4: v[_] = c.safe[idv]; break; case 5: v.safe[_] = v.safe[idv]; break; case 6: w.safe[_] = kw.safe[id]; break; default: v[_] = w.safe(id); } ROT; REACH("nest_safe"); }
