#include "hg.h"
//BOUND every vector of 0..3 (quick) / 0..4 (thorough) elements with any bit pattern (NaN, infinities, signed zeros included), n=20..40 with three free keys for stability
//RUN both h_sort_i 0..3
//RUN thorough h_sort_i 4
//RUN both h_sort_d 0..3
//RUN thorough h_sort_d 4
//RUN both h_sort_f 2
//RUN both h_inpl_i 0..3
//RUN thorough h_inpl_i 4
//RUN both h_inpl_d 0..3
//RUN thorough h_inpl_d 4
//RUN both h_issorted_i 0..4
//RUN both h_issorted_d 0..3
//RUN thorough h_issorted_d 4
//RUN both h_issorted_after 0..3
//RUN both h_issorted_view
//RUN both h_comp 0..3
//RUN both h_comp_inpl 0..3
//RUN both h_stable_big 20
//RUN thorough h_stable_big 40
//RUN both h_2d
//RUN both h_view 3
//RUN both h_str
//RUN both h_bool 0..3
// total order of the documentation: NaN after every number
static bool lt(int a, int b) { return a < b; }
static bool lt(double a, double b) { bool na = is_nan_(a), nb = is_nan_(b); return (!na) & (nb | (a < b)); }
template<class T> static void chk_sort(u64 n, const vec<1,T>& v, const vec1u& r) {
    CHECK(r.size() == n && r.dims[0] == n);
    for (u64 i = 0; i < n; ++i) { CHECKM(r.data[i] < n, "sort: index out of range"); for (u64 j = 0; j < i; ++j) CHECKM(r.data[i] != r.data[j], "sort: not a permutation"); }
    for (u64 i = 0; i+1 < n; ++i) { T a = pick_at(v.data.data(), n, r.data[i]), b = pick_at(v.data.data(), n, r.data[i+1]); CHECKM(!lt(b, a), "sort: not in increasing order (NaN last)"); CHECKM(lt(a, b) | (r.data[i] < r.data[i+1]), "sort: equal elements must keep their order"); }
}
ENTRY h_sort_i(u64 n) { vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; vec1u r = sort(v); chk_sort(n, v, r); for (u64 i = 0; i < n; ++i) CHECK(v.data[i] == o.data[i]); REACH("sort_i"); }
ENTRY h_sort_d(u64 n) { vec<1,double> v(n); fill_sym(v); vec1u r = sort(v); chk_sort(n, v, r); REACH("sort_d"); }
ENTRY h_sort_f(u64 n) { vec<1,float> v(n); fill_sym(v); vec1u r = sort(v); vec<1,double> d(n); for (u64 i = 0; i < n; ++i) d.data[i] = v.data[i]; chk_sort(n, d, r); REACH("sort_f"); }
// in-place: sorted, and every element occurs as often as before
ENTRY h_inpl_i(u64 n) { vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; inplace_sort(v); CHECK(v.size() == n && v.dims[0] == n); for (u64 i = 0; i+1 < n; ++i) CHECK(v.data[i] <= v.data[i+1]); int x = sym_int("x"); u64 a = 0, b = 0; for (u64 i = 0; i < n; ++i) { a += o.data[i] == x; b += v.data[i] == x; } CHECKM(a == b, "inplace_sort: elements lost or duplicated"); REACH("inpl_i"); }
ENTRY h_inpl_d(u64 n) { vec<1,double> v(n); fill_sym(v); vec<1,double> o = v; inplace_sort(v); CHECK(v.size() == n); for (u64 i = 0; i+1 < n; ++i) CHECK(!lt(v.data[i+1], v.data[i])); u64 x = sym_u64("x"), a = 0, b = 0; for (u64 i = 0; i < n; ++i) { a += bits_of(o.data[i]) == x; b += bits_of(v.data[i]) == x; } CHECKM(a == b, "inplace_sort: elements lost or duplicated"); REACH("inpl_d"); }
ENTRY h_issorted_i(u64 n) { vec<1,int> v(n); fill_sym(v); bool e = true; for (u64 i = 0; i+1 < n; ++i) e &= v.data[i] <= v.data[i+1]; CHECKM(is_sorted(v) == e, "is_sorted"); REACH("issorted_i"); }
ENTRY h_issorted_d(u64 n) { vec<1,double> v(n); fill_sym(v); bool e = true; for (u64 i = 0; i+1 < n; ++i) e &= !lt(v.data[i+1], v.data[i]); CHECKM(is_sorted(v) == e, "is_sorted (NaN last)"); REACH("issorted_d"); }
ENTRY h_issorted_after(u64 n) { vec<1,double> v(n); fill_qn(v, -2, 2); vec1u id = sort(v); vec<1,double> w = v[id]; CHECK(is_sorted(w)); CHECK(is_sorted(v[id])); inplace_sort(v); CHECK(is_sorted(v)); for (u64 i = 0; i < n; ++i) CHECKM(same_(v.data[i], w.data[i]), "inplace_sort(v) must equal v[sort(v)]"); REACH("issorted_after"); }
ENTRY h_issorted_view() { vec<1,int> v(3); fill_sym(v); vec1u id = {2, 0}; CHECK(is_sorted(v[id]) == (v.data[2] <= v.data[0])); CHECK(is_sorted(v[1-_]) == (v.data[1] <= v.data[2])); REACH("issorted_view"); }
ENTRY h_comp(u64 n) { vec<1,int> v(n); fill_sym(v); vec1u r = sort(v, [](int a, int b) { return a > b; }); CHECK(r.size() == n); for (u64 i = 0; i < n; ++i) { CHECK(r.data[i] < n); for (u64 j = 0; j < i; ++j) CHECK(r.data[i] != r.data[j]); } for (u64 i = 0; i+1 < n; ++i) { int a = pick_at(v.data.data(), n, r.data[i]), b = pick_at(v.data.data(), n, r.data[i+1]); CHECK(a >= b); CHECKM((a > b) | (r.data[i] < r.data[i+1]), "sort with a comparator must be stable"); } REACH("comp"); }
ENTRY h_comp_inpl(u64 n) { vec<1,int> v(n); fill_sym(v); vec<1,int> o = v; inplace_sort(v, [](int a, int b) { return a > b; }); for (u64 i = 0; i+1 < n; ++i) CHECK(v.data[i] >= v.data[i+1]); int x = sym_int("x"); u64 a = 0, b = 0; for (u64 i = 0; i < n; ++i) { a += o.data[i] == x; b += v.data[i] == x; } CHECK(a == b); REACH("comp_inpl"); }
ENTRY h_stable_big(u64 n) { vec<1,int> v(n); for (u64 i = 0; i < n; ++i) v.data[i] = (int)((i*7) % 4); v.data[1] = (int)pick(0, 3); v.data[n/2] = (int)pick(0, 3); v.data[n-2] = (int)pick(0, 3); int op = (int)pick(0, 1); vec1u r = op ? sort(v, [](int a, int b) { return a < b; }) : sort(v); chk_sort(n, v, r);
    // stability of the in-place version, observed through a comparator on the low bits only
    vec<1,int> w(n); for (u64 i = 0; i < n; ++i) w.data[i] = v.data[i]*1000 + (int)i; inplace_sort(w, [](int a, int b) { return a/1000 < b/1000; }); for (u64 i = 0; i+1 < n; ++i) CHECKM(w.data[i] < w.data[i+1], "inplace_sort with a comparator must be stable"); REACH("stable_big"); }
ENTRY h_2d() { vec<2,int> v(2, 2); fill_sym(v); vec1u r = sort(v); vec<1,int> f(4); for (u64 i = 0; i < 4; ++i) f.data[i] = v.data[i]; chk_sort(4, f, r); inplace_sort(v); CHECK(v.dims[0] == 2 && v.dims[1] == 2 && v.size() == 4); for (u64 i = 0; i < 3; ++i) CHECK(v.data[i] <= v.data[i+1]); REACH("2d"); }
ENTRY h_view(u64 n) { vec<1,int> v(n+1); fill_sym(v); auto w = v[1-_]; vec1u r = sort(w); vec<1,int> f(n); for (u64 i = 0; i < n; ++i) f.data[i] = v.data[i+1]; chk_sort(n, f, r); REACH("view"); }
ENTRY h_str() { vec1s v = {std::string(1, (char)pick('a', 'c')), std::string(1, (char)pick('a', 'c')) + "b", "b"}; vec1u r = sort(v); CHECK(r.size() == 3); for (u64 i = 0; i < 2; ++i) { CHECK(v.data[r.data[i]] <= v.data[r.data[i+1]]); if (v.data[r.data[i]] == v.data[r.data[i+1]]) CHECK(r.data[i] < r.data[i+1]); } inplace_sort(v); CHECK(is_sorted(v)); REACH("str"); }
ENTRY h_bool(u64 n) { vec1b v(n); fill_sym(v); vec1u r = sort(v); CHECK(r.size() == n); for (u64 i = 0; i+1 < n; ++i) { bool a = v.data[r.data[i]], b = v.data[r.data[i+1]]; CHECK(a <= b); CHECK((a < b) | (r.data[i] < r.data[i+1])); } REACH("bool"); }
