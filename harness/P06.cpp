#include "hg.h"
//BOUND 1-D vectors of 0..4 (quick) / 0..6 (thorough) elements, 2-D up to 3x3, 3-D up to 3x2x2, 4-D for index lists; element values unbounded; shift amounts any 64-bit value on 1, 2 and 4 elements, -32..31 and around multiples of 2^8 and 2^31 otherwise
//RUN quick h_rev 0..4
//RUN thorough h_rev 0..6
//RUN quick h_shift 0..4
//RUN thorough h_shift 0..5
//RUN both h_shift_inv 1..3
//RUN both h_transpose 0..3 0..3
//RUN both h_flatten 0..2 0..3
//RUN both h_flatten_view
//RUN both h_reform1 0..6
//RUN both h_reform_any
//RUN both h_reform_view
//RUN both h_rep_scalar
//RUN both h_rep_vec 0..3
//RUN both h_rep_vec2
//RUN both h_rep_view
//RUN both h_indgen
//RUN both h_mult2
//RUN both h_mult3
//RUN both h_mult_vec
//RUN both h_flat
//RUN both h_flat_oob
//RUN both h_incr
//RUN both h_shift_any 1
//RUN both h_shift_any 2
//RUN both h_shift_any 4
//RUN both h_shift_mid 3
//RUN both h_reform_move 0..4
ENTRY h_rev(u64 n) { vec<1,int> v(n); fill_sym(v); vec<1,int> r = reverse(v); CHECK(r.dims[0] == n && r.size() == n); for (u64 i = 0; i < n; ++i) CHECK(r.data[i] == v.data[n-1-i]); vec1b b(n); fill_sym(b); vec1b rb = reverse(b); CHECK(rb.size() == n); for (u64 i = 0; i < n; ++i) CHECK((bool)rb.data[i] == (bool)b.data[n-1-i]); REACH("rev"); }
static u64 umod(i64 k, u64 n) { i64 r = k % (i64)n; return (u64)(r < 0 ? r + (i64)n : r); }
ENTRY h_shift(u64 n) {
    vec<1,int> v(n); fill_sym(v); i64 k = sym_in(-32, 31, "k"); vec<1,int> r = shift(v, k); CHECK(r.dims[0] == n && r.size() == n);
    if (n) { u64 d = umod(k, n); for (u64 i = 0; i < n; ++i) CHECKM(pick_at(r.data.data(), n, (i + d) % n) == v.data[i], "shift(v,k): element i must move to i+k modulo the size"); }
    vec<1,int> w = v; inplace_shift(w, k); CHECK(w.size() == n); for (u64 i = 0; i < n; ++i) CHECK(w.data[i] == r.data[i]); REACH("shift");
}
ENTRY h_shift_inv(u64 n) { vec<1,int> v(n); fill_sym(v); i64 k = pick(-7, 7); vec<1,int> r = shift(shift(v, k), -k); for (u64 i = 0; i < n; ++i) CHECK(r.data[i] == v.data[i]); REACH("shift_inv"); }
ENTRY h_transpose(u64 a, u64 b) { vec<2,int> v(a, b); fill_sym(v); vec<2,int> r = transpose(v); CHECK(r.dims[0] == b && r.dims[1] == a && r.size() == a*b); for (u64 i = 0; i < a; ++i) for (u64 j = 0; j < b; ++j) CHECK(r.data[j*a+i] == v.data[i*b+j]); vec<2,int> q = transpose(r); CHECK(q.dims == v.dims); for (u64 i = 0; i < a*b; ++i) CHECK(q.data[i] == v.data[i]); REACH("transpose"); }
ENTRY h_flatten(u64 a, u64 b) { vec<3,int> v(a, 2, b); fill_sym(v); vec<3,int> o = v; vec<1,int> f = flatten(v); CHECK(f.size() == a*2*b && f.dims[0] == a*2*b); for (u64 i = 0; i < f.size(); ++i) CHECK(f.data[i] == v.data[i]); CHECK(v.dims == o.dims && v.size() == o.size()); vec<1,int> g = flatten(std::move(v)); CHECK(g.size() == a*2*b && g.dims[0] == a*2*b); for (u64 i = 0; i < g.size(); ++i) CHECK(g.data[i] == o.data[i]); REACH("flatten"); }
ENTRY h_flatten_view() { vec<2,int> v(2, 3); fill_sym(v); vec<2,int> o = v; auto w = v(_, _); auto f = flatten(w); CHECK(f.size() == 6 && f.dims[0] == 6); for (u64 i = 0; i < 6; ++i) CHECK(&f.safe[i] == &v.data[i]); flatten(v(_, 1-_)) = 7; for (u64 i = 0; i < 2; ++i) for (u64 j = 0; j < 3; ++j) CHECK(v.safe(i, j) == (j >= 1 ? 7 : o.safe(i, j)));
    // the flattened view still knows its vector: aliasing is detected
    v = o; flatten(v(_, _)) = flatten(v(vec1u{1, 0}, _)); for (u64 j = 0; j < 3; ++j) CHECK(v.safe(0, j) == o.safe(1, j) && v.safe(1, j) == o.safe(0, j)); REACH("flatten_view"); }
ENTRY h_reform1(u64 n) { vec<1,int> v(n); fill_sym(v); u64 a = (u64)pick(0, 3), b = (u64)pick(0, 3); AbortIff ab(a*b != n); vec<2,int> r = reform(v, a, b); ab.returned("reform to another size accepted"); CHECK(r.dims[0] == a && r.dims[1] == b && r.size() == n); for (u64 i = 0; i < n; ++i) CHECK(r.data[i] == v.data[i]); vec<2,int> r2 = reform(std::move(v), r.dims); CHECK(r2.dims == r.dims && r2.size() == n); for (u64 i = 0; i < n; ++i) CHECK(r2.data[i] == r.data[i]); REACH("reform1"); }
ENTRY h_reform_any() { vec<2,int> v(2, 3); fill_sym(v); int op = (int)pick(0, 2); u64 a = sym_u64("a"), b = sym_u64("b"); ASSUME((a <= 0xffff) & (b <= 0xffff)); u64 c = op == 2 ? (u64)pick(0, 4) : 1; AbortIff ab((op == 0 ? a : a*b*c) != 6);
    if (op == 0) { vec<1,int> r = reform(v, a); ab.returned("reform to another size accepted"); CHECK(r.size() == 6 && r.dims[0] == 6); } else if (op == 1) { vec<2,int> r = reform(v, a, b); ab.returned("reform to another size accepted"); CHECK(r.size() == 6 && r.dims[0] == a && r.dims[1] == b); for (u64 i = 0; i < 6; ++i) CHECK(r.data[i] == v.data[i]); } else { vec<3,int> r = reform(v, a, c, b); ab.returned("reform to another size accepted"); CHECK(r.size() == 6 && r.dims[0] == a && r.dims[1] == c && r.dims[2] == b); for (u64 i = 0; i < 6; ++i) CHECK(r.data[i] == v.data[i]); } REACH("reform_any"); }
ENTRY h_reform_view() { vec<1,int> v(6); fill_sym(v); vec<1,int> o = v; u64 a = (u64)pick(0, 4), b = (u64)pick(0, 4); auto w = v[1-_-4]; AbortIff ab(a*b != 4); auto r = reform(w, a, b); ab.returned("reform of a view to another size accepted"); CHECK(r.dims[0] == a && r.dims[1] == b && r.size() == 4); for (u64 i = 0; i < 4; ++i) CHECK(&r.safe[i] == &v.data[i+1]); auto r2 = reform(v[1-_-4], a, b); for (u64 i = 0; i < 4; ++i) CHECK(&r2.safe[i] == &v.data[i+1]); r2 = -1; for (u64 i = 0; i < 6; ++i) CHECK(v.data[i] == ((i >= 1 && i <= 4) ? -1 : o.data[i])); REACH("reform_view"); }
ENTRY h_rep_scalar() { int x = sym_int(); u64 a = (u64)pick(0, 3), b = (u64)pick(0, 2); auto r = replicate(x, a); CHECK(r.size() == a && r.dims[0] == a); for (u64 i = 0; i < a; ++i) CHECK(r.data[i] == x); auto s = replicate(x, a, b); CHECK(s.size() == a*b && s.dims[0] == a && s.dims[1] == b); for (u64 i = 0; i < a*b; ++i) CHECK(s.data[i] == x); double d = sym_dbl(); auto t = replicate(d, r.dims); CHECK(t.size() == a); for (u64 i = 0; i < a; ++i) CHECK(bits_of(t.data[i]) == bits_of(d)); REACH("rep_scalar"); }
ENTRY h_rep_vec(u64 n) { vec<1,int> v(n); fill_sym(v); u64 a = (u64)pick(0, 3), b = (u64)pick(0, 2); auto r = replicate(v, a); CHECK(r.dims[0] == a && r.dims[1] == n && r.size() == a*n); for (u64 i = 0; i < a; ++i) for (u64 j = 0; j < n; ++j) CHECK(r.data[i*n+j] == v.data[j]); auto s = replicate(v, a, b); CHECK(s.dims[0] == a && s.dims[1] == b && s.dims[2] == n && s.size() == a*b*n); for (u64 i = 0; i < a*b; ++i) for (u64 j = 0; j < n; ++j) CHECK(s.data[i*n+j] == v.data[j]); REACH("rep_vec"); }
ENTRY h_rep_vec2() { vec<2,int> v(2, 3); fill_sym(v); auto r = replicate(v, 3); CHECK(r.dims[0] == 3 && r.dims[1] == 2 && r.dims[2] == 3 && r.size() == 18); for (u64 i = 0; i < 3; ++i) for (u64 j = 0; j < 2; ++j) for (u64 k = 0; k < 3; ++k) CHECK(r.safe(i, j, k) == v.safe(j, k)); REACH("rep_vec2"); }
ENTRY h_rep_view() { vec<1,int> v(4); fill_sym(v); vec1u id = {(u64)sym_in(0, 3), (u64)sym_in(0, 3)}; auto r = replicate(v[id], 2); CHECK(r.dims[0] == 2 && r.dims[1] == 2); for (u64 i = 0; i < 2; ++i) for (u64 j = 0; j < 2; ++j) CHECK(r.safe(i, j) == pick_at(v.data.data(), 4, id.data[j])); REACH("rep_view"); }
ENTRY h_indgen() { u64 a = (u64)pick(0, 4), b = (u64)pick(0, 3); vec1u v = indgen(a); CHECK(v.size() == a && v.dims[0] == a); for (u64 i = 0; i < a; ++i) CHECK(v.data[i] == i); vec2d w = indgen<double>(a, b); CHECK(w.size() == a*b && w.dims[0] == a && w.dims[1] == b); for (u64 i = 0; i < a; ++i) for (u64 j = 0; j < b; ++j) CHECK(w.safe(i, j) == (double)(i*b+j)); REACH("indgen"); }
ENTRY h_mult2() { u64 a = (u64)pick(1, 4), b = (u64)pick(1, 4); std::array<uint_t,2> d = {{a, b}}; u64 i = sym_u64("i"); ASSUME(i < a*b); vec1u r = mult_ids(d, i); CHECK(r.size() == 2 && r.dims[0] == 2); CHECK((r.data[0] < a) & (r.data[1] < b)); CHECKM(r.data[0]*b + r.data[1] == i, "mult_ids must be the inverse of the row-major flat index"); CHECKM(flat_id(d, r.data[0], r.data[1]) == i, "flat_id(mult_ids(i)) == i"); REACH("mult2"); }
ENTRY h_mult3() { u64 a = (u64)pick(1, 3), b = (u64)pick(1, 3), c = (u64)pick(1, 3); vec<3,int> v(a, b, c); u64 i = sym_u64("i"); ASSUME(i < a*b*c); vec1u r = mult_ids(v, i); CHECK(r.size() == 3); CHECK((r.data[0] < a) & (r.data[1] < b) & (r.data[2] < c)); CHECK((r.data[0]*b + r.data[1])*c + r.data[2] == i); CHECKM(flat_id(v, r.data[0], r.data[1], r.data[2]) == i, "flat_id(mult_ids(i)) == i"); REACH("mult3"); }
ENTRY h_mult_vec() { u64 a = (u64)pick(1, 3), b = (u64)pick(1, 3); vec<2,int> v(a, b); vec1u i = {(u64)sym_in(0, 8), (u64)sym_in(0, 8), 0}; ASSUME((i.data[0] < a*b) & (i.data[1] < a*b)); vec1u o = i; vec2u r = mult_ids(v, i); CHECK(r.dims[0] == 2 && r.dims[1] == 3); for (u64 k = 0; k < 3; ++k) { CHECK(r.safe(1, k) < b); CHECK(r.safe(0, k)*b + r.safe(1, k) == o.data[k]); CHECK(i.data[k] == o.data[k]); } REACH("mult_vec"); }
ENTRY h_flat() { vec<3,int> v(2, 3, 4); u64 i = (u64)sym_in(0, 1), j = (u64)sym_in(0, 2), k = (u64)sym_in(0, 3); CHECK(flat_id(v, i, j, k) == (i*3+j)*4+k); CHECK(flat_id(v.dims, i, j, k) == (i*3+j)*4+k); int n = (int)sym_in(-3, -1); CHECKM(flat_id(v, i, n, k) == (i*3+(u64)(3+n))*4+k, "flat_id with a negative index"); REACH("flat"); }
ENTRY h_flat_oob() { std::array<uint_t,2> d = {{2, 3}}; u64 i = sym_u64("i"), j = sym_u64("j"); AbortIff ab((i >= 2) | (j >= 3)); u64 f = flat_id(d, i, j); ab.returned("flat_id out of bounds accepted"); CHECK(f == i*3+j); REACH("flat_oob"); }
ENTRY h_incr() { u64 a = (u64)pick(1, 3), b = (u64)pick(1, 3), c = (u64)pick(1, 3); vec1u n = {a, b, c}; vec1u id = {(u64)sym_in(0, 2), (u64)sym_in(0, 2), (u64)sym_in(0, 2)}; ASSUME((id.data[0] < a) & (id.data[1] < b) & (id.data[2] < c)); u64 f = (id.data[0]*b + id.data[1])*c + id.data[2]; increment_index_list(id, n); u64 g = (id.data[0]*b + id.data[1])*c + id.data[2]; CHECK((id.data[0] < a) & (id.data[1] < b) & (id.data[2] < c)); CHECKM(g == (f+1 == a*b*c ? 0 : f+1), "increment_index_list visits index tuples in row-major order");
    vec1u e = {(u64)sym_in(0, 2), (u64)sym_in(0, 2)}; ASSUME((e.data[0] < a) & (e.data[1] < a)); f = e.data[0]*a + e.data[1]; increment_index_list(e, a); g = e.data[0]*a + e.data[1]; CHECK((e.data[0] < a) & (e.data[1] < a)); CHECK(g == (f+1 == a*a ? 0 : f+1)); REACH("incr"); }
ENTRY h_shift_any(u64 n) { vec<1,int> v(n); fill_sym(v); i64 k = sym_i64("k"); ASSUME(k != (i64)1 << 63); vec<1,int> r = shift(v, k); u64 d = umod(k, n); for (u64 i = 0; i < n; ++i) CHECKM(pick_at(r.data.data(), n, (i + d) % n) == v.data[i], "shift(v,k): element i must move to i+k modulo the size, for any k"); REACH("shift_any"); }
ENTRY h_shift_mid(u64 n) { vec<1,int> v(n); fill_sym(v); i64 k = ((i64)sym_in(-8, 7, "hi") << (sym_bool() ? 31 : 8)) + sym_in(-8, 7, "lo"); vec<1,int> r = shift(v, k); u64 d = umod(k, n); for (u64 i = 0; i < n; ++i) CHECKM(pick_at(r.data.data(), n, (i + d) % n) == v.data[i], "shift(v,k): element i must move to i+k modulo the size, for any k"); REACH("shift_mid"); }
ENTRY h_reform_move(u64 n) { vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; vec<1,int> z(n+1); fill_sym(z); vec<1,int> oz = z; u64 a = (u64)pick(0, 3), b = (u64)pick(0, 3); vec1u id(n); for (u64 i = 0; i < n; ++i) id.data[i] = n-i; int op = (int)pick(0, 4); AbortIff ab(a*b != n);
    if (op == 0) { vec<2,int> r = reform(std::move(v), a, b); ab.returned("reform of a temporary to another size accepted"); CHECK(r.dims[0] == a && r.dims[1] == b && r.size() == n); for (u64 i = 0; i < n; ++i) CHECK(r.data[i] == o.data[i]); }
    else if (op == 1) { auto r = reform(z[id], a, b); ab.returned("reform of a temporary view to another size accepted"); CHECK(r.dims[0] == a && r.dims[1] == b && r.size() == n); for (u64 i = 0; i < n; ++i) CHECK(&r.safe[i] == &z.data[n-i]); }
    else if (op == 2) { const auto w = z[id]; auto r = reform(w, a, b); ab.returned("reform of a view to another size accepted"); CHECK(r.dims[0] == a && r.dims[1] == b && r.size() == n); for (u64 i = 0; i < n; ++i) CHECK(&r.safe[i] == &z.data[n-i]); }
    else if (op == 3) { const auto& c = z; auto r = reform(c[id], a, 1, b); ab.returned("reform of a const view to another size accepted"); CHECK(r.dims[0] == a && r.dims[1] == 1 && r.dims[2] == b && r.size() == n); for (u64 i = 0; i < n; ++i) CHECK(r.safe[i] == oz.data[n-i]); }
    else { std::array<uint_t,2> d = {{a, b}}; vec<2,int> r = reform(v, d); ab.returned("reform to another size accepted"); CHECK(r.dims == d && r.size() == n); for (u64 i = 0; i < n; ++i) CHECK(r.data[i] == o.data[i]); CHECK(v.size() == n && v.dims[0] == n); }
    REACH("reform_move"); }
