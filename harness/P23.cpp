//BOUND hulls of 0 to 4 points (5 thorough) with any integer coordinates in -2..2 (-1..1 for four points and more), in double, float and int; user-provided hulls of 3 to 6 vertices in either orientation and any starting vertex; distances from any point of an integer or half-integer grid around them
#include "hg.h"
#include <vif/math/base.hpp>
#include <vif/math/convex_hull.hpp>
template<class T> static T cr(T ax, T ay, T bx, T by, T cx, T cy) { return (bx - ax)*(cy - ay) - (by - ay)*(cx - ax); }
template<class T> static void build(u64 n, i64 r, bool in = false) {
    vec<1,T> x(n), y(n); for (u64 i = 0; i < n; ++i) { x.data[i] = (T)pick(-r, r, "x"); y.data[i] = (T)sym_in(-r, r, "y"); }
    const vec<1,T> x0 = x, y0 = y; bool flat = true;
    for (u64 i = 0; i < n; ++i) for (u64 j = i + 1; j < n; ++j) for (u64 k = j + 1; k < n; ++k) flat &= cr(x0.data[i], y0.data[i], x0.data[j], y0.data[j], x0.data[k], y0.data[k]) == 0;
    auto h = build_convex_hull(x, y);
    for (u64 i = 0; i < n; ++i) CHECKM(x.data[i] == x0.data[i] && y.data[i] == y0.data[i], "hull: the points are not modified");
    u64 m = h.size(); CHECKM(h.x.data.size() == m && h.y.data.size() == m && h.x.dims[0] == m && h.y.dims[0] == m, "hull: dimensions");
    if (!flat) {
        CHECKM(m >= 4, "hull: at least three vertices, the first one repeated"); CHECKM(h.closed && h.x.data[0] == h.x.data[m-1] && h.y.data[0] == h.y.data[m-1], "hull: closed");
        for (u64 i = 0; i + 1 < m; ++i) {
            u64 j = i + 1, k = j + 1 < m ? j + 1 : 1; bool is = false, left = true;
            for (u64 p = 0; p < n; ++p) { is |= (h.x.data[i] == x0.data[p]) & (h.y.data[i] == y0.data[p]); left &= cr(h.x.data[i], h.y.data[i], h.x.data[j], h.y.data[j], x0.data[p], y0.data[p]) >= 0; }
            CHECKM(is, "hull: the vertices are among the points"); CHECKM(left, "hull: contains all points");
            CHECKM(cr(h.x.data[i], h.y.data[i], h.x.data[j], h.y.data[j], h.x.data[k], h.y.data[k]) > 0, "hull: convex, counter-clockwise, without superfluous vertices");
        }
        if (in) {
            bool a = true; for (u64 p = 0; p < n; ++p) a &= in_convex_hull(x0.data[p], y0.data[p], h); CHECKM(a, "hull: the points are in it");
            T px = (T)sym_in(-r - 1, r + 1, "px"), py = (T)sym_in(-r - 1, r + 1, "py"); bool e = true; for (u64 i = 0; i + 1 < m; ++i) e &= cr(h.x.data[i], h.y.data[i], h.x.data[i+1], h.y.data[i+1], px, py) >= 0;
            CHECKM(in_convex_hull(px, py, h) == e, "in_convex_hull of a built hull");
        }
        h.validate(true); CHECKM(h.closed && h.orient == 1, "hull: valid");
    } else for (u64 i = 0; i < m; ++i) { bool in = false; for (u64 p = 0; p < n; ++p) in |= (h.x.data[i] == x0.data[p]) & (h.y.data[i] == y0.data[p]); CHECKM(in, "degenerate hull: the vertices are among the points"); }
    REACH("build");
}
//RUN both h_build 0..3 2
//RUN both h_build 4 1
//RUN thorough h_build 4 2
//RUN thorough h_build 5 1
ENTRY h_build(u64 n, u64 r) { build<double>(n, (i64)r); }
//RUN both h_build_in 3 1
//RUN thorough h_build_in 3 2
//RUN thorough h_build_in 4 1
ENTRY h_build_in(u64 n, u64 r) { build<double>(n, (i64)r, true); }
//RUN both h_build_int 0..3 2
ENTRY h_build_int(u64 n, u64 r) { build<int>(n, (i64)r); }
//RUN both h_build_float 3 1
ENTRY h_build_float(u64 n, u64 r) { build<float>(n, (i64)r); }
//RUN both h_build_dims
ENTRY h_build_dims() { u64 n = (u64)pick(0, 3, "n"), m = (u64)pick(0, 3, "m"); vec1d x(n), y(m); REACH("dims"); AbortIff ab(n != m); auto h = build_convex_hull(x, y); ab.returned("hull: coordinates of different sizes"); CHECKM(n == 0 || h.size() > 0, "hull"); }
// a hull of fewer than three points cannot be used
//RUN both h_few 0..1 0..1
ENTRY h_few(u64 n, u64 kind) { vec1d x(n), y(n); fill_q(x, -2, 2); fill_q(y, -2, 2); auto h = build_convex_hull(x, y); double px = sym_q(-2, 2), py = sym_q(-2, 2); REACH("few"); AbortIff ab(true); if (kind == 0) in_convex_hull(px, py, h); else convex_hull_distance(px, py, h); ab.returned("hull of fewer than three points"); }
// convex polygons (closed), in any orientation, from any starting vertex; the first four have a vertex in the middle of a side
static void poly(u64 kind, std::vector<double>& x, std::vector<double>& y) {
    switch (kind) {
    case 0: x = {0, 4, 0}; y = {0, 0, 3}; break;
    case 1: x = {0, 2, 2, 0}; y = {0, 0, 4, 4}; break;
    case 2: x = {0, 1, 2, 2, 0}; y = {0, 0, 0, 4, 4}; break;
    case 3: x = {0, 4, 4, 2}; y = {0, 0, 3, 3}; break;
    case 4: x = {-2, 2, 4, 0, -3}; y = {-2, -2, 0, 3, 1}; break;
    default: x = {1, 3, 4, 3, 1, 0}; y = {0, 0, 2, 4, 4, 2}; break;
    }
    u64 n = x.size(), s = (u64)pick(0, (i64)n - 1, "start"); bool cw = vf_conc(sym_bool("cw")); std::vector<double> a(n + 1), b(n + 1);
    for (u64 i = 0; i <= n; ++i) { u64 j = cw ? (s + n - i%n)%n : (s + i)%n; a[i] = x[j]; b[i] = y[j]; }
    x = a; y = b;
}
static bool inside(const std::vector<double>& x, const std::vector<double>& y, double px, double py) {
    bool l = true, r = true; for (u64 i = 0; i + 1 < x.size(); ++i) { double c = cr(x[i], y[i], x[i+1], y[i+1], px, py); l &= c >= 0; r &= c <= 0; } return l | r;
}
//RUN both h_in 0..5
ENTRY h_in(u64 kind) {
    std::vector<double> x, y; poly(kind, x, y); vec1d hx(x.size()), hy(x.size()); for (u64 i = 0; i < x.size(); ++i) { hx.data[i] = x[i]; hy.data[i] = y[i]; }
    convex_hull<double> h(hx, hy); CHECKM(h.closed, "the hull is closed");
    vec1d px(2), py(2); for (u64 i = 0; i < 2; ++i) { px.data[i] = sym_q(-10, 10, .5); py.data[i] = sym_q(-10, 10, .5); }
    bool e0 = inside(x, y, px.data[0], py.data[0]), e1 = inside(x, y, px.data[1], py.data[1]);
    CHECKM(in_convex_hull(px.data[0], py.data[0], h) == e0, "in_convex_hull: exactly the points inside");
    vec1b r = in_convex_hull(px, py, h); CHECKM(r.dims[0] == 2 && r.data.size() == 2 && (bool)r.data[0] == e0 && (bool)r.data[1] == e1, "in_convex_hull of several points");
    h.y += 1.0; h.x *= -1.0; h.mark_as_dirty(); CHECKM(in_convex_hull(-px.data[0], py.data[0] + 1, h) == e0, "in_convex_hull after changing the vertices");
    REACH("in");
}
// distance: compared with the exact distance to every side
static double seg2(double ax, double ay, double bx, double by, double px, double py) { // squared distance to a segment, times the squared length
    double l = (bx - ax)*(bx - ax) + (by - ay)*(by - ay), t = (px - ax)*(bx - ax) + (py - ay)*(by - ay);
    if (t < 0) return ((px - ax)*(px - ax) + (py - ay)*(py - ay))*l; if (t > l) return ((px - bx)*(px - bx) + (py - by)*(py - by))*l;
    double c = cr(ax, ay, bx, by, px, py); return c*c;
}
static void dist(u64 kind, i64 lo, i64 hi, double st) {
    std::vector<double> x, y; poly(kind, x, y); u64 n = x.size(); vec1d hx(n), hy(n); for (u64 i = 0; i < n; ++i) { hx.data[i] = x[i]; hy.data[i] = y[i]; }
    convex_hull<double> h(hx, hy); double px = (double)pick(lo, hi)*st, py = (double)pick(lo, hi)*st;
    double best = 1e9; for (u64 i = 0; i + 1 < n; ++i) { double l = (x[i+1] - x[i])*(x[i+1] - x[i]) + (y[i+1] - y[i])*(y[i+1] - y[i]), d = seg2(x[i], y[i], x[i+1], y[i+1], px, py)/l; if (d < best) best = d; }
    double d = convex_hull_distance(px, py, h), g = d*d - best; bool in = inside(x, y, px, py);
    CHECKM(g < 1e-9 && g > -1e-9, "convex_hull_distance: distance to the nearest side"); if (best > 1e-6) CHECKM((d > 0) == in, "convex_hull_distance: positive inside, negative outside");
    vec1d vx = {px + 100, px}, vy = {py, py}; vec1d r = convex_hull_distance(vx, vy, h); CHECKM(r.size() == 2 && r.data[1] == d && r.data[0] < -80, "convex_hull_distance of several points");
    h.x += 16.0; h.y *= 2.0; h.x *= 2.0; h.mark_as_dirty(); double d2 = convex_hull_distance(2*(px + 16), 2*py, h) - 2*d; CHECKM(d2 < 1e-6 && d2 > -1e-6, "convex_hull_distance after changing the vertices");
    REACH("distance");
}
//RUN both h_dist 0..5
ENTRY h_dist(u64 kind) { dist(kind, -1, 5, 1); }
//RUN quick h_dist_half 0..2
//RUN thorough h_dist_half 0..5
ENTRY h_dist_half(u64 kind) { dist(kind, -6, 12, .5); }
//RUN both h_reject 0..7
ENTRY h_reject(u64 kind) {
    u64 n = (u64)pick(0, 4, "n"); static const double X[4] = {0, 2, 0, 0}, Y[4] = {0, 0, 2, 0}; vec1d x(n), y(n); for (u64 i = 0; i < n; ++i) { x.data[i] = X[i]; y.data[i] = Y[i]; }
    REACH("reject");
    if (kind == 0) { AbortIff ab(n < 3); convex_hull<double> h(x, y); ab.returned("a hull of fewer than three vertices"); CHECKM(h.closed == (n == 4) && h.orient == 1, "closed, orientation"); }
    else if (kind == 1) { vec1d z(3); AbortIff ab(n != 3); convex_hull<double> h(z, y); ab.returned("hull: coordinates of different sizes"); }
    else if (kind <= 3) { ASSUME(n >= 3); convex_hull<double> h(x, y); AbortIff ab(n == 3); if (kind == 2) in_convex_hull(1.0, 1.0, h); else convex_hull_distance(1.0, 1.0, h); ab.returned("an open hull"); }
    else if (kind <= 5) { ASSUME(n == 4); convex_hull<double> h(x, y); u64 a = (u64)pick(0, 2), b = (u64)pick(0, 2); vec1d p(a), q(b); AbortIff ab(a != b); u64 s; if (kind == 4) s = in_convex_hull(p, q, h).size(); else s = convex_hull_distance(p, q, h).size(); ab.returned("points of different sizes"); CHECKM(s == a, "size"); }
    else { ASSUME(n == 0); convex_hull<double> h; AbortIff ab(true); if (kind == 6) in_convex_hull(1.0, 1.0, h); else convex_hull_distance(1.0, 1.0, h); ab.returned("an empty hull"); }
}
