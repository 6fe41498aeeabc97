#include "hg.h"
//BOUND sorted vectors of 0..5 (quick) / 0..8 (thorough) elements of any value (NaN excluded as documented), any probe value; boolean maps up to 3x3 with every content and any start
//RUN quick h_lb 0..5
//RUN thorough h_lb 0..8
//RUN quick h_lb_d 0..4
//RUN thorough h_lb_d 0..6
//RUN both h_lb_mixed 3
//RUN both h_lb_view
//RUN both h_bounds2 0..4
//RUN both h_eqr 0..5
//RUN both h_eqr_d 0..4
//RUN both h_astar 1..3 1..3
//RUN both h_astar_line 5
//RUN both h_astar_start
//RUN both h_astar_empty
//RUN both h_astar_far2 2 3
//RUN both h_astar_far2 3 2
//RUN both h_astar_far 1 4
//RUN both h_astar_far 4 1
//RUN both h_astar_big 5
//RUN thorough h_astar_big 7
//RUN both h_lb_2d
template<class T> static void sorted(vec<1,T>& v) { fill_sym(v); for (u64 i = 0; i+1 < v.data.size(); ++i) ASSUME(v.data[i] <= v.data[i+1]); }
template<class T> static u64 lo_(const vec<1,T>& v, T x) { u64 r = npos; for (u64 i = 0; i < v.data.size(); ++i) r = v.data[i] <= x ? i : r; return r; }
template<class T> static u64 up_(const vec<1,T>& v, T x) { u64 r = npos; for (u64 i = v.data.size(); i-- > 0;) r = v.data[i] > x ? i : r; return r; }
template<class T> static void lb(const vec<1,T>& v, T x) { CHECKM(lower_bound(v, x) == lo_(v, x), "lower_bound: last element <= x, or npos"); CHECKM(upper_bound(v, x) == up_(v, x), "upper_bound: first element > x, or npos"); auto b = bounds(v, x); CHECKM(b[0] == lo_(v, x), "bounds: lower"); CHECKM(b[1] == up_(v, x), "bounds: upper"); }
ENTRY h_lb(u64 n) { vec<1,int> v(n); sorted(v); lb(v, sym_int("x")); REACH("lb"); }
ENTRY h_lb_d(u64 n) { vec<1,double> v(n); sorted(v); if (n) ASSUME(!is_nan_(v.data[0])); double x = sym_dbl("x"); ASSUME(!is_nan_(x)); lb(v, x); REACH("lb_d"); }
ENTRY h_lb_mixed(u64 n) { vec<1,double> v(n); sorted(v); int x = sym_int("x"); CHECK(lower_bound(v, x) == lo_(v, (double)x)); CHECK(upper_bound(v, x) == up_(v, (double)x)); REACH("lb_mixed"); }
ENTRY h_lb_view() { vec<1,int> v(4); fill_sym(v); vec1u id = {3, 0, 2}; vec<1,int> f = {v.data[3], v.data[0], v.data[2]}; for (u64 i = 0; i < 2; ++i) ASSUME(f.data[i] <= f.data[i+1]); int x = sym_int("x"); CHECK(lower_bound(v[id], x) == lo_(f, x)); CHECK(upper_bound(v[id], x) == up_(f, x)); auto b = bounds(v[id], x); CHECK(b[0] == lo_(f, x) && b[1] == up_(f, x)); REACH("lb_view"); }
ENTRY h_bounds2(u64 n) { vec<1,int> v(n); sorted(v); int x = sym_int("x"), y = sym_int("y"); ASSUME(x <= y); auto b = bounds(v, x, y); CHECKM(b[0] == lo_(v, x), "bounds(v,x1,x2): last element <= x1"); CHECKM(b[1] == up_(v, y), "bounds(v,x1,x2): first element > x2"); REACH("bounds2"); }
template<class T> static void eqr(const vec<1,T>& v, T x) { u64 f = npos, l = npos; for (u64 i = 0; i < v.data.size(); ++i) { f = (f == npos) & (v.data[i] == x) ? i : f; l = v.data[i] == x ? i : l; } auto r = equal_range(v, x); CHECKM(r[0] == f && r[1] == l, "equal_range: first and last index equal to x, or npos"); }
ENTRY h_eqr(u64 n) { vec<1,int> v(n); sorted(v); eqr(v, sym_int("x")); REACH("eqr"); }
ENTRY h_eqr_d(u64 n) { vec<1,double> v(n); sorted(v); if (n) ASSUME(!is_nan_(v.data[0])); double x = sym_dbl("x"); ASSUME(!is_nan_(x)); eqr(v, x); REACH("eqr_d"); }
static u64 dist(u64 a, u64 b) { return a > b ? a-b : b-a; }
static void astar(const vec2b& m, u64 x0, u64 y0) {
    u64 a = m.dims[0], b = m.dims[1], x = x0, y = y0; bool r = astar_find(m, x, y); if (x0 >= a) x0 = a-1; if (y0 >= b) y0 = b-1; bool any = false; for (u64 i = 0; i < a*b; ++i) any |= (bool)m.data[i]; CHECKM(r == any, "astar_find: found iff some cell is true");
    if (r) { CHECKM(x < a && y < b, "astar_find: position inside the map"); CHECKM((bool)m.data[x*b+y], "astar_find: cell is true"); u64 d = dist(x, x0) + dist(y, y0); for (u64 i = 0; i < a; ++i) for (u64 j = 0; j < b; ++j) CHECKM(!m.data[i*b+j] | (dist(i, x0) + dist(j, y0) >= d), "astar_find: a closer cell exists"); }
}
ENTRY h_astar(u64 a, u64 b) { vec2b m(a, b); fill_sym(m); astar(m, (u64)pick(0, a-1), (u64)pick(0, b-1)); REACH("astar"); }
ENTRY h_astar_line(u64 n) { vec2b m(n, 1); fill_sym(m); astar(m, (u64)pick(0, n-1), 0); vec2b w(1, n); fill_sym(w); astar(w, 0, (u64)pick(0, n-1)); REACH("astar_line"); }
ENTRY h_astar_start() { vec2b m(2, 2); fill_sym(m); u64 x = sym_u64("x"), y = sym_u64("y"); astar(m, x, y); REACH("astar_start"); }
ENTRY h_astar_empty() { vec2b m; u64 x = 0, y = 0; vf_abort_ok(true); astar_find(m, x, y); CHECKM(false, "astar_find on an empty map accepted"); }
ENTRY h_astar_far(u64 a, u64 b) { vec2b m(a, b); fill_sym(m); u64 x = sym_bool() ? (u64)pick(0, a-1) : sym_u64("x"), y = sym_bool() ? (u64)pick(0, b-1) : sym_u64("y"); astar(m, x, y); REACH("astar_far"); }
ENTRY h_astar_far2(u64 a, u64 b) { vec2b m(a, b); m.data[(u64)pick(0, a*b-1)] = true; if (sym_bool()) m.data[(u64)pick(0, a*b-1)] = true; u64 x, y; if (sym_bool()) { x = sym_u64("x"); y = (u64)pick(0, b-1); } else { x = (u64)pick(0, a-1); y = sym_u64("y"); } astar(m, x, y); REACH("astar_far"); }
// a larger map with two true cells
ENTRY h_astar_big(u64 n) { vec2b m(n, n); m.data[(u64)pick(0, n*n-1)] = true; if (sym_bool()) m.data[(u64)pick(0, n-1)*n] = true; astar(m, n/2, (u64)pick(0, 2)); REACH("astar_big"); }
ENTRY h_lb_2d() { vec<2,int> v(2, 2); fill_sym(v); vec<1,int> f(4); for (u64 i = 0; i < 4; ++i) f.data[i] = v.data[i]; for (u64 i = 0; i < 3; ++i) ASSUME(f.data[i] <= f.data[i+1]); int x = sym_int("x"), y = sym_int("y"); ASSUME(x <= y); CHECK(lower_bound(v, x) == lo_(f, x) && upper_bound(v, x) == up_(f, x)); auto b = bounds(v, x, y); CHECK(b[0] == lo_(f, x) && b[1] == up_(f, y)); REACH("lb_2d"); }
