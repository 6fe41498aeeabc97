#include "hg.h"
//BOUND vectors of 0..3 x 0..3 unconstrained elements (0..4 x 0..3 thorough); 64 and 70 elements with four free ones for the large-input algorithm; multisets of 0..3 elements
//RUN both h_match 0..3 0..3
//RUN thorough h_match 4 0..4
//RUN both h_match_d 0..2 0..3
//RUN both h_match_mixed
//RUN both h_match_view
//RUN both h_match_str
//RUN both h_match_stale
//RUN both h_match_big 64 64
//RUN both h_match_big 70 64
//RUN both h_match_big 63 70
//RUN both h_match_big_dup 66 65
//RUN both h_match_big_nan 64 65
//RUN both h_match_big_str 64
//RUN both h_any 0..2 0..3
//RUN both h_any_d
//RUN both h_any_scalar 0..3
//RUN both h_inter 0..3 0..3
//RUN both h_union 0..3 0..3
//RUN both h_set_sorted 0..3 0..2
//RUN both h_set_d 0..2 0..3
//RUN both h_set_2d
//RUN both h_inter_v 0..3 0..2
//RUN both h_union_v 0..2 0..2
//RUN both h_set_nan 1..2 1..3
//RUN both h_set_view
//RUN both h_any_2d
template<class A, class B> static void chk_match(const A& v1, const B& v2, const vec1u& a, const vec1u& b) {
    CHECK(a.size() == b.size() && a.dims[0] == a.size() && b.dims[0] == b.size()); u64 p = 0, n2 = v2.data.size();
    for (u64 i = 0; i < v1.data.size(); ++i) { u64 f = n2; for (u64 j = 0; j < n2; ++j) if (v1.data[i] == v2.data[j]) { f = j; break; }
        if (f < n2) { CHECKM(p < a.size(), "match: a common value is missing"); CHECKM(a.data[p] == i && b.data[p] == f, "match: for each element of v1, in order, the first equal element of v2"); ++p; } }
    CHECKM(p == a.size(), "match: reports a pair of different values");
}
ENTRY h_match(u64 n, u64 m) { vec<1,int> v(n), w(m); fill_sym(v); fill_sym(w); vec1u a, b; match(v, w, a, b); chk_match(v, w, a, b); REACH("match"); }
ENTRY h_match_d(u64 n, u64 m) { vec<1,double> v(n), w(m); fill_sym(v); fill_sym(w); vec1u a, b; match(v, w, a, b); chk_match(v, w, a, b); REACH("match_d"); }
ENTRY h_match_mixed() { vec<1,int> v(2); fill_sym(v); vec<1,double> w(2); fill_sym(w); vec1u a, b; match(v, w, a, b); chk_match(v, w, a, b); REACH("match_mixed"); }
ENTRY h_match_view() { vec<1,int> v(3), w(3); fill_sym(v); fill_sym(w); vec1u id = {2, 0}; vec1u a, b; match(v[id], w[1-_], a, b); vec<1,int> x = {v.data[2], v.data[0]}, y = {w.data[1], w.data[2]}; chk_match(x, y, a, b); REACH("match_view"); }
ENTRY h_match_str() { vec1s v = {std::string(1, (char)pick('a', 'c')), "b", "bb"}, w = {"bb", std::string(1, (char)pick('a', 'c')), "b"}; vec1u a, b; match(v, w, a, b); chk_match(v, w, a, b); REACH("match_str"); }
ENTRY h_match_stale() { vec<1,int> v(1), w(1); fill_sym(v); fill_sym(w); vec1u a = {7, 8, 9}, b = {5}; match(v, w, a, b); chk_match(v, w, a, b); REACH("match_stale"); }
static int mix(u64 i) { return (int)((i*37 + 11) % 101); }
ENTRY h_match_big(u64 n, u64 m) { vec<1,int> v(n), w(m); for (u64 i = 0; i < n; ++i) v.data[i] = mix(i); for (u64 j = 0; j < m; ++j) w.data[j] = 2*mix(j+5) % 103; v.data[3] = (int)pick(0, 3); v.data[n-1] = (int)pick(0, 3); w.data[1] = (int)pick(0, 3); w.data[m-2] = (int)pick(0, 3); vec1u a, b; match(v, w, a, b); chk_match(v, w, a, b); REACH("match_big"); }
ENTRY h_match_big_dup(u64 n, u64 m) { vec<1,int> v(n), w(m); for (u64 i = 0; i < n; ++i) v.data[i] = mix(i) % 7; for (u64 j = 0; j < m; ++j) w.data[j] = mix(j) % 9 - 2; v.data[0] = (int)pick(-2, 7); w.data[m-1] = (int)pick(-2, 7); vec1u a, b; match(v, w, a, b); chk_match(v, w, a, b); REACH("match_big_dup"); }
ENTRY h_match_big_nan(u64 n, u64 m) { vec<1,double> v(n), w(m); for (u64 i = 0; i < n; ++i) v.data[i] = mix(i); for (u64 j = 0; j < m; ++j) w.data[j] = mix(j+3) - 40; double q = dbl_of(0x7ff8000000000000ull); int k = (int)pick(0, 3); if (k & 1) v.data[5] = q; if (k & 2) { w.data[7] = q; w.data[m-1] = q; } v.data[9] = w.data[20] = (double)pick(-3, 3); vec1u a, b; match(v, w, a, b); chk_match(v, w, a, b); REACH("match_big_nan"); }
ENTRY h_match_big_str(u64 n) { vec1s v(n), w(n); for (u64 i = 0; i < n; ++i) { v.data[i] = std::string(1, (char)('a' + mix(i) % 26)); w.data[i] = std::string(1, (char)('a' + mix(i+9) % 26)); } v.data[1] = std::string(1, (char)pick('`', 'c')); vec1u a, b; match(v, w, a, b); chk_match(v, w, a, b); REACH("match_big_str"); }
ENTRY h_any(u64 n, u64 m) { vec<1,int> v(n), w(m); fill_sym(v); fill_sym(w); vec1b r = is_any_of(v, w); CHECK(r.size() == n && r.dims[0] == n); for (u64 i = 0; i < n; ++i) { bool e = false; for (u64 j = 0; j < m; ++j) e |= v.data[i] == w.data[j]; CHECK((bool)r.data[i] == e); } REACH("any"); }
ENTRY h_any_d() { vec<2,double> v(1, 2); fill_sym(v); vec<1,double> w(2); fill_sym(w); vec2b r = is_any_of(v, w); CHECK(r.dims[0] == 1 && r.dims[1] == 2 && r.size() == 2); for (u64 i = 0; i < 2; ++i) CHECK((bool)r.data[i] == ((v.data[i] == w.data[0]) | (v.data[i] == w.data[1]))); REACH("any_d"); }
ENTRY h_any_scalar(u64 m) { int x = sym_int(); vec<1,int> w(m); fill_sym(w); bool e = false; for (u64 j = 0; j < m; ++j) e |= x == w.data[j]; CHECK(is_any_of(x, w) == e); vec<1,int> z(m+1); fill_sym(z); bool f = false; for (u64 j = 1; j <= m; ++j) f |= x == z.data[j]; if (m) CHECK(is_any_of(x, z[1-_]) == f); REACH("any_scalar"); }
template<class T> static u64 cnt(const vec<1,T>& v, T x) { u64 c = 0; for (u64 i = 0; i < v.data.size(); ++i) c += v.data[i] == x; return c; }
// the multiset law, for an arbitrary value x
template<class T> static void chk_set(const vec<1,T>& a, const vec<1,T>& b, const vec<1,T>& r, bool uni, T x) { CHECK(r.dims[0] == r.size()); for (u64 i = 0; i+1 < r.size(); ++i) CHECKM(r.data[i] <= r.data[i+1], "set operation: result not sorted"); u64 p = cnt(a, x), q = cnt(b, x), k = cnt(r, x); CHECKM(k == (uni ? (p > q ? p : q) : (p < q ? p : q)), "set operation: wrong multiplicity of a value"); }
static int small() { return (int)sym_in(0, 2, "s"); }
ENTRY h_inter(u64 n, u64 m) { vec<1,int> v(n), w(m); for (u64 i = 0; i < n; ++i) v.data[i] = small(); for (u64 i = 0; i < m; ++i) w.data[i] = small(); vec<1,int> ov = v, ow = w; vec<1,int> r = set_intersection(v, w); for (int x = 0; x < 3; ++x) chk_set(ov, ow, r, false, x); for (u64 i = 0; i < r.size(); ++i) CHECK(r.data[i] >= 0 && r.data[i] <= 2); for (u64 i = 0; i < n; ++i) CHECK(v.data[i] == ov.data[i]); REACH("inter"); }
ENTRY h_union(u64 n, u64 m) { vec<1,int> v(n), w(m); for (u64 i = 0; i < n; ++i) v.data[i] = small(); for (u64 i = 0; i < m; ++i) w.data[i] = small(); vec<1,int> ov = v, ow = w; vec<1,int> r = set_union(v, w); for (int x = 0; x < 3; ++x) chk_set(ov, ow, r, true, x); for (u64 i = 0; i < r.size(); ++i) CHECK(r.data[i] >= 0 && r.data[i] <= 2); REACH("union"); }
ENTRY h_set_sorted(u64 n, u64 m) { vec<1,int> v(n), w(m); fill_sym(v); fill_sym(w); for (u64 i = 0; i+1 < n; ++i) ASSUME(v.data[i] <= v.data[i+1]); for (u64 i = 0; i+1 < m; ++i) ASSUME(w.data[i] <= w.data[i+1]); int x = sym_int("x"); vec<1,int> r = set_intersection_sorted(v, w); chk_set(v, w, r, false, x); vec<1,int> s = set_union_sorted(v, w); chk_set(v, w, s, true, x); REACH("set_sorted"); }
ENTRY h_inter_v(u64 n, u64 m) { vec<1,int> v(n), w(m); fill_sym(v); fill_sym(w); int x = sym_int("x"); vec<1,int> r = set_intersection(v, w); chk_set(v, w, r, false, x); REACH("inter_v"); }
ENTRY h_union_v(u64 n, u64 m) { vec<1,int> v(n), w(m); fill_sym(v); fill_sym(w); int x = sym_int("x"); vec<1,int> r = set_union(v, w); chk_set(v, w, r, true, x); REACH("union_v"); }
ENTRY h_set_d(u64 n, u64 m) { vec<1,double> v(n), w(m); fill_q(v, 0, 2); fill_q(w, 0, 2); vec<1,double> r = set_intersection(v, w), s = set_union(v, w); double x = sym_q(0, 2, 1.0, "x"); chk_set(v, w, r, false, x); chk_set(v, w, s, true, x); REACH("set_d"); }
ENTRY h_set_2d() { vec<2,int> v(1, 2); vec<1,int> w(2); for (u64 i = 0; i < 2; ++i) { v.data[i] = small(); w.data[i] = small(); } vec<1,int> f = {v.data[0], v.data[1]}; vec<1,int> r = set_intersection(v, w), s = set_union(w, v); for (int x = 0; x < 3; ++x) { chk_set(f, w, r, false, x); chk_set(w, f, s, true, x); } REACH("set_2d"); }
// NaN do not disturb the multiplicities of the other values
ENTRY h_set_nan(u64 n, u64 m) { vec<1,double> v(n), w(m); fill_qn(v, 0, 1); fill_qn(w, 0, 1); vec<1,double> r = set_intersection(v, w), s = set_union(v, w); for (int q = 0; q < 2; ++q) { const vec<1,double>& t = q ? s : r; double x = sym_q(0, 1, 1.0, "x"); u64 a = cnt(v, x), b = cnt(w, x), k = cnt(t, x); CHECKM(k == (q ? (a > b ? a : b) : (a < b ? a : b)), "set operation with NaN: wrong multiplicity of a number"); for (u64 i = 0; i+1 < t.size(); ++i) CHECKM(is_nan_(t.data[i+1]) || t.data[i] <= t.data[i+1], "set operation: result not sorted"); } REACH("set_nan"); }
ENTRY h_set_view() { vec<1,int> v(3), w(3); for (u64 i = 0; i < 3; ++i) { v.data[i] = small(); w.data[i] = small(); } vec<1,int> ov = v, ow = w; vec1u id = {2, 0}; vec<1,int> fv = {v.data[2], v.data[0]}, fw = {w.data[1], w.data[2]}; vec<1,int> r = set_intersection(v[id], w[1-_]), s = set_union(v[id], w[1-_]), t = set_union(v[id], fw); for (int x = 0; x < 3; ++x) { chk_set(fv, fw, r, false, x); chk_set(fv, fw, s, true, x); chk_set(fv, fw, t, true, x); } for (u64 i = 0; i < 3; ++i) CHECKM(v.data[i] == ov.data[i] && w.data[i] == ow.data[i], "set operations leave the viewed vectors unchanged"); REACH("set_view"); }
ENTRY h_any_2d() { vec<2,int> v(2, 2); vec<2,int> w(1, 3); fill_sym(v); fill_sym(w); vec2b r = is_any_of(v, w); CHECK(r.dims == v.dims && r.size() == 4); for (u64 i = 0; i < 4; ++i) CHECK((bool)r.data[i] == ((v.data[i] == w.data[0]) | (v.data[i] == w.data[1]) | (v.data[i] == w.data[2]))); vec1u a, b; match(v, w, a, b); vec<1,int> f = flatten(v), g = flatten(w); chk_match(f, g, a, b); REACH("any_2d"); }
