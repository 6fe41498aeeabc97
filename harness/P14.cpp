#include "hg.h"
#include <vif/math/reduce.hpp>
#include <vif/math/interpolate.hpp>
//BOUND tables of 2..4 points on the non-uniform grid 0,1,3,4 (and its reverse offsets), all integer ordinates -8..7, all positions from -2 to 6 in steps of 1/4; maps 2x2, 2x3 (3x3 thorough) of values -1..2 at half-integer positions; splines: all ordinates -1..1 on 2..4 points
//RUN both h_interp 2..4
//RUN both h_interp_scalar5
//RUN both h_interp_vec 2..3
//RUN both h_interp_err
//RUN both h_interp_bad
//RUN both h_interp_int
//RUN both h_bil 2 2
//RUN both h_bil 2 3
//RUN thorough h_bil 3 3
//RUN both h_bil_axes
//RUN both h_bil_vec
//RUN both h_bil_strict 2 2
//RUN both h_bil_strict 3 2
//RUN both h_bil_small
//RUN both h_rebin
//RUN both h_spline 2..4
//RUN thorough h_spline 5
//RUN both h_spline_u 2..4
//RUN thorough h_spline_u 5
//RUN both h_spline_line
//RUN both h_spline_vec
//RUN both h_bicubic
//RUN both h_bicubic_small
//RUN both h_integ 0..4
//RUN both h_integ_bad
//RUN both h_integ_bin 0..3
//RUN both h_integ_range 2..4
//RUN both h_integ_range1
//RUN both h_integ_range_bad
//RUN both h_integ_binrange 1..3
//RUN both h_integ_hint 2..3
//RUN thorough h_integ_hint 4
//RUN both h_cumul 0..4
//RUN both h_rebin_out
//RUN both h_interp_2d
static const double GX[5] = {0, 1, 3, 4, 8};
static vec1d grid(u64 n) { vec1d x(n); for (u64 i = 0; i < n; ++i) x.data[i] = GX[i]; return x; }
static vec1d ords(u64 n) { vec1d y(n); for (u64 i = 0; i < n; ++i) y.data[i] = sym_q(-8, 7); return y; }
// piecewise linear with linear extrapolation
static double plin(const vec1d& x, const vec1d& y, double t) { u64 n = x.size(), k = 0; while (k+2 < n && t >= x.data[k+1]) ++k; return y.data[k] + (y.data[k+1] - y.data[k])*((t - x.data[k])/(x.data[k+1] - x.data[k])); }
static bool near(double a, double b) { double d = a - b; return d < 1e-9 && d > -1e-9; }
ENTRY h_interp(u64 n) { vec1d x = grid(n), y = ords(n); double t = sym_q(-8, 24, 0.25, "t"); CHECKM(interpolate(y, x, t) == plin(x, y, t), "linear interpolation between the two neighbouring points (extrapolation beyond the ends)"); REACH("interp"); }
ENTRY h_interp_scalar5() { double a = sym_q(-8, 7), b = sym_q(-8, 7), t = sym_q(-8, 16, 0.25, "t"); CHECK(interpolate(a, b, 1.0, 3.0, t) == a + (b - a)*((t - 1.0)/2.0)); REACH("scalar5"); }
ENTRY h_interp_vec(u64 n) { vec1d x = grid(n), y = ords(n), t(2); t.data[0] = sym_q(-4, 16, 0.5, "t"); t.data[1] = sym_q(-4, 16, 0.5, "t"); auto r = interpolate(y, x, t); CHECK(r.size() == 2 && r.dims[0] == 2); for (u64 i = 0; i < 2; ++i) CHECKM(r.data[i] == plin(x, y, t.data[i]), "linear interpolation of a vector of positions"); vec1d e; auto z = interpolate(y, x, e); CHECK(z.empty()); REACH("interp_vec"); }
ENTRY h_interp_err() { vec1d x = grid(3), y = ords(3), e(3); for (u64 i = 0; i < 3; ++i) e.data[i] = (double)pick(0, 2); vec1d t(1); double p = (double)pick(-2, 8)*0.5; t.data[0] = p; auto r = interpolate(y, e, x, t); CHECK(r.first.size() == 1 && r.second.size() == 1); CHECK(r.first.data[0] == plin(x, y, p)); u64 k = p >= 1 ? 1 : 0; double a = (p - x.data[k])/(x.data[k+1]-x.data[k]); double q = e.data[k]*(1-a), w = e.data[k+1]*a; double s = r.second.data[0]; CHECKM(s >= 0 && near(s*s, q*q + w*w), "interpolated error: quadratic sum of the weighted errors of the two points used"); auto f = interpolate_err(y.data[k], y.data[k+1], e.data[k], e.data[k+1], x.data[k], x.data[k+1], p); CHECK(f.first == r.first.data[0] && f.second >= 0 && near(f.second*f.second, q*q + w*w)); REACH("interp_err"); }
ENTRY h_interp_bad() { vec1d y((u64)pick(0, 3)), e((u64)pick(1, 3)); u64 nx = (u64)pick(0, 3); vec1d x = grid(nx), t = {0.5, 3.5}; int op = (int)pick(0, 2); AbortIff ab((y.size() != nx) | (nx < 2) | ((op == 2) & (e.size() != y.size()))); if (op == 0) interpolate(y, x, 0.5); else if (op == 1) interpolate(y, x, t); else interpolate(y, e, x, t); ab.returned("interpolation with arrays of different or too small sizes accepted"); REACH("interp_bad"); }
ENTRY h_interp_int() { vec<1,int> x = {0, 2, 4}; vec1d y = ords(3); int t = (int)sym_in(-2, 6, "t"); vec1d xd = {0, 2, 4}; CHECK(interpolate(y, x, t) == plin(xd, y, (double)t)); vec<1,float> f(3); for (u64 i = 0; i < 3; ++i) f.data[i] = (float)y.data[i]; CHECK((double)interpolate(f, x, t) == plin(xd, y, (double)t)); REACH("interp_int"); }
static vec2d smap(u64 a, u64 b) { vec2d m(a, b); for (u64 i = 0; i < a*b; ++i) m.data[i] = sym_q(-1, 2); return m; }
static double bil_(const vec2d& m, double x, double y) { u64 i = 0, j = 0; while (i+2 < m.dims[0] && x >= i+1.0) ++i; while (j+2 < m.dims[1] && y >= j+1.0) ++j; double u = x - (double)i, v = y - (double)j; u64 w = m.dims[1]; double a = m.data[i*w+j] + (m.data[i*w+j+1]-m.data[i*w+j])*v, b = m.data[(i+1)*w+j] + (m.data[(i+1)*w+j+1]-m.data[(i+1)*w+j])*v; return a + (b-a)*u; }
ENTRY h_bil(u64 a, u64 b) { vec2d m = smap(a, b); double x = (double)pick(-3, (i64)(2*a))*0.5, y = (double)pick(-2, (i64)(2*b))*0.5; CHECKM(bilinear(m, x, y) == bil_(m, x, y), "bilinear interpolation (extrapolation beyond the edges)"); REACH("bil"); }
ENTRY h_bil_axes() { vec2d m = smap(3, 2); vec1d mx = {0, 1, 3}, my = {2, 4}; double x = (double)pick(-2, 8)*0.5, y = (double)pick(2, 10)*0.5; vec1d ix = {0, 1, 2}, iy = {0, 1}; CHECKM(bilinear(m, mx, my, x, y) == bil_(m, plin(mx, ix, x), plin(my, iy, y)), "bilinear interpolation on given axes"); REACH("bil_axes"); }
ENTRY h_bil_vec() { vec2d m = smap(2, 2); vec1d mx((u64)pick(1, 3)), my((u64)pick(1, 3)); for (u64 i = 0; i < mx.size(); ++i) mx.data[i] = 2.0*i; for (u64 i = 0; i < my.size(); ++i) my.data[i] = 1.0*i; vec1d x = {0, 1, 3}, y((u64)pick(2, 3)); for (u64 i = 0; i < y.size(); ++i) y.data[i] = 0.5*i; AbortIff ab((mx.size() != 2) | (my.size() != 2) | (y.size() != 3)); auto r = bilinear(m, mx, my, x, y); ab.returned("bilinear with incompatible arrays accepted"); CHECK(r.size() == 3); for (u64 i = 0; i < 3; ++i) CHECK(r.data[i] == bil_(m, x.data[i]*0.5, y.data[i])); REACH("bil_vec"); }
ENTRY h_bil_strict(u64 a, u64 b) { vec2d m = smap(a, b); double x = (double)pick(-3, (i64)(2*a+1))*0.5, y = (double)pick(-3, (i64)(2*b+1))*0.5, d = sym_q(20, 30, 1.0, "def"); double r = bilinear_strict(m, x, y, d); if (x < 0 || x >= a-1.0 || y < 0 || y >= b-1.0) { CHECKM(r == d || (x >= 0 && x == a-1.0 && y >= 0 && y <= b-1.0) || (y >= 0 && y == b-1.0 && x >= 0 && x <= a-1.0), "bilinear_strict: default value outside of the map"); } else CHECKM(r == bil_(m, x, y), "bilinear_strict: bilinear interpolation inside the map"); REACH("bil_strict"); }
ENTRY h_bil_small() { vec2d m((u64)pick(0, 2), (u64)pick(0, 2)); for (u64 i = 0; i < m.size(); ++i) m.data[i] = 1; double x = (double)pick(-1, 2)*0.5; AbortIff ab((m.dims[0] < 2) | (m.dims[1] < 2)); bilinear(m, x, x); ab.returned("bilinear on a map without 2x2 elements must stop the program"); REACH("bil_small"); }
ENTRY h_rebin() { vec2d m = smap(2, 2); vec1d mx = {0, 2}, my = {0, 1}; vec1d x = {0, 1, 2}, y = {0, 0.5}; auto r = rebin(m, mx, my, x, y); CHECK(r.dims[0] == 3 && r.dims[1] == 2 && dims_ok(r)); for (u64 i = 0; i < 3; ++i) for (u64 j = 0; j < 2; ++j) CHECKM(r.data[i*2+j] == bil_(m, x.data[i]*0.5, y.data[j]), "rebin: bilinear value at each new grid point"); REACH("rebin"); }
// natural cubic spline oracle: second derivatives by direct elimination
static double spl_(const double* x, const double* y, u64 n, double t) {
    double m[6] = {}, cp[6] = {}, dp[6] = {};
    for (u64 i = 1; i + 1 < n; ++i) { double a = x[i]-x[i-1], c = x[i+1]-x[i], b = 2*(a+c), d = 6*((y[i+1]-y[i])/c - (y[i]-y[i-1])/a); double den = b - a*cp[i-1]; cp[i] = c/den; dp[i] = (d - a*dp[i-1])/den; }
    for (u64 i = n-1; i-- > 1;) m[i] = dp[i] - cp[i]*m[i+1];
    if (t < x[0]) { double h = x[1]-x[0]; double s = (y[1]-y[0])/h - h*m[1]/6; return y[0] + s*(t-x[0]); }
    if (t > x[n-1]) { double h = x[n-1]-x[n-2]; double s = (y[n-1]-y[n-2])/h + h*m[n-2]/6; return y[n-1] + s*(t-x[n-1]); }
    u64 k = 0; while (k+2 < n && t >= x[k+1]) ++k; double h = x[k+1]-x[k], A = (x[k+1]-t)/h, B = (t-x[k])/h; return A*y[k] + B*y[k+1] + ((A*A*A-A)*m[k] + (B*B*B-B)*m[k+1])*h*h/6; }
ENTRY h_spline(u64 n) { vec1d x = grid(n), y(n); for (u64 i = 0; i < n; ++i) y.data[i] = (double)pick(-1, 1); double t = (double)pick(-2, (i64)(2*GX[n-1])+2)*0.5; CHECKM(near(interpolate_3spline(y, x, t), spl_(x.data.data(), y.data.data(), n, t)), "natural cubic spline on a non-uniform grid"); REACH("spline"); }
ENTRY h_spline_u(u64 n) { vec1d x(n), y(n); for (u64 i = 0; i < n; ++i) { x.data[i] = (double)i; y.data[i] = (double)pick(-1, 1); } double t = (double)pick(-3, (i64)(2*n)+1)*0.5; CHECKM(near(interpolate_3spline(y, t), spl_(x.data.data(), y.data.data(), n, t)), "natural cubic spline on a uniform grid"); REACH("spline_u"); }
ENTRY h_spline_line() { double a = (double)pick(-3, 3), b = (double)pick(-2, 2); vec1d x = grid(5), y(5); for (u64 i = 0; i < 5; ++i) y.data[i] = a*x.data[i] + b; double t = (double)pick(-4, 40)*0.25; CHECKM(near(interpolate_3spline(y, x, t), a*t + b), "a spline reproduces a straight line"); REACH("spline_line"); }
ENTRY h_spline_vec() { vec1d x = grid(3), y = {1, -1, 2}; vec2d t(1, 2); t.data[0] = (double)pick(-1, 8)*0.5; t.data[1] = (double)pick(0, 6)*0.5; auto r = interpolate_3spline(y, x, t); CHECK(r.dims[0] == 1 && r.dims[1] == 2 && dims_ok(r)); auto u = interpolate_3spline(y, t); CHECK(dims_ok(u) && u.dims[1] == 2); double gu[3] = {0, 1, 2}; for (u64 i = 0; i < 2; ++i) { CHECK(near(r.data[i], spl_(x.data.data(), y.data.data(), 3, t.data[i]))); CHECK(near(u.data[i], spl_(gu, y.data.data(), 3, t.data[i]))); } vec1d z((u64)pick(0, 3)); int op = (int)pick(0, 1); AbortIff ab((z.size() < 2) | ((op == 0) & (z.size() != 3))); if (op == 0) interpolate_3spline(z, x, t); else interpolate_3spline(z, t); ab.returned("spline with too few or incompatible points accepted"); REACH("spline_vec"); }
ENTRY h_bicubic() { u64 h = (u64)pick(3, 5), w = (u64)pick(3, 5); vec2d m(h, w); for (u64 i = 0; i < h; ++i) for (u64 j = 0; j < w; ++j) m.data[i*w+j] = 2.0*i - 1.0*j + 0.5; double x = (double)pick(-2, 10)*0.5, y = (double)pick(-2, 10)*0.5; double r = bicubic_strict(m, x, y, 99.0); bool in = x >= 1 && x < h-2.0 && y >= 1 && y < w-2.0; if (in) CHECKM(near(r, 2.0*x - y + 0.5), "bicubic interpolation reproduces a plane"); else CHECKM(r == 99.0 || near(r, 2.0*x - y + 0.5), "bicubic_strict: default value where there are not enough neighbours"); if (x < 0 || y < 0 || x > h-1.0 || y > w-1.0) CHECK(r == 99.0); REACH("bicubic"); }
ENTRY h_bicubic_small() { vec2d m((u64)pick(0, 3), (u64)pick(0, 3)); double x = (double)pick(-1, 4)*0.5; CHECKM(bicubic_strict(m, x, x, 5.0) == 5.0, "too small a map gives the default value"); CHECK(m.dims[0] > 1 || bilinear_strict(m, x, x, 5.0) == 5.0); REACH("bicubic_small"); }
static double seg_(const vec1d& x, const vec1d& y, u64 i, double a, double b) { double h = x.data[i+1]-x.data[i]; double ya = y.data[i] + (y.data[i+1]-y.data[i])*((a-x.data[i])/h), yb = y.data[i] + (y.data[i+1]-y.data[i])*((b-x.data[i])/h); return 0.5*(ya+yb)*(b-a); }
static double trap_(const vec1d& x, const vec1d& y, double a, double b) { double s = 0; for (u64 i = 0; i+1 < x.size(); ++i) { double l = x.data[i] > a ? x.data[i] : a, u = x.data[i+1] < b ? x.data[i+1] : b; if (l < u) s += seg_(x, y, i, l, u); } return s; }
ENTRY h_integ(u64 n) { vec1d x = grid(n), y = ords(n); double e = 0; for (u64 i = 1; i < n; ++i) e += 0.5*(y.data[i]+y.data[i-1])*(x.data[i]-x.data[i-1]); CHECKM(integrate(x, y) == e, "trapezoidal integral"); REACH("integ"); }
ENTRY h_integ_bad() { vec1d x = grid((u64)pick(0, 3)), y((u64)pick(0, 3)); vec2d b((u64)pick(1, 3), (u64)pick(0, 2)); int op = (int)pick(0, 2); AbortIff ab(op == 2 ? (b.dims[0] != 2) | (b.dims[1] != y.size()) : x.size() != y.size()); if (op == 0) integrate(x, y); else if (op == 1) cumul(x, y); else integrate(b, y); ab.returned("integral of arrays of different sizes accepted"); REACH("integ_bad"); }
ENTRY h_integ_bin(u64 n) { vec2d b(2, n); vec1d y = ords(n); double e = 0; for (u64 i = 0; i < n; ++i) { b.data[i] = GX[i]; b.data[n+i] = GX[i+1]; e += y.data[i]*(GX[i+1]-GX[i]); } CHECKM(integrate(b, y) == e, "integral of binned data"); REACH("integ_bin"); }
ENTRY h_integ_range(u64 n) { vec1d x = grid(n), y = ords(n); i64 m = (i64)(GX[n-1]*2); i64 k0 = sym_in(0, m, "x0"), k1 = sym_in(0, m, "x1"); ASSUME(k0 <= k1); double x0 = (double)k0*0.5, x1 = (double)k1*0.5; CHECKM(integrate(x, y, x0, x1) == trap_(x, y, x0, x1), "integral over a range inside the array"); REACH("integ_range"); }
ENTRY h_integ_range1() { vec1d x = {2}, y = {sym_q(-3, 3)}; double r = integrate(x, y, 2.0, 2.0); CHECK(r == 0); uint_t h = npos; CHECK(integrate_hinted(x, y, h, 2.0, 2.0) == 0); REACH("integ_range1"); }
ENTRY h_integ_range_bad() { vec1d x = grid(3), y((u64)pick(2, 4)); vec2d b = {{0, 1, 3}, {1, 3, 4}}; double x0 = sym_q(-2, 4, 0.5, "x0"), x1 = sym_q(0, 12, 0.5, "x1"); ASSUME(x0 <= x1); int op = (int)pick(0, 2); uint_t h = npos; double up = op == 1 ? 4.0 : 3.0; AbortIff ab((y.size() != 3) | (x0 < 0) | (x1 > up)); if (op == 0) integrate(x, y, x0, x1); else if (op == 1) integrate(b, y, x0, x1); else integrate_hinted(x, y, h, x0, x1); ab.returned("integral over a range that is not covered accepted"); vec1d e; vec2d eb(2, 0); int o2 = (int)pick(0, 2); vf_abort_ok(true); if (o2 == 0) integrate(e, e, 0, 1); else if (o2 == 1) integrate(eb, e, 0, 1); else integrate_hinted(e, e, h, 0, 1); CHECKM(false, "range integral of an empty array must stop the program"); }
ENTRY h_integ_binrange(u64 n) { vec2d b(2, n); vec1d y = ords(n); for (u64 i = 0; i < n; ++i) { b.data[i] = GX[i]; b.data[n+i] = GX[i+1]; } i64 m = (i64)(GX[n]*2); i64 k0 = sym_in(0, m, "x0"), k1 = sym_in(0, m, "x1"); ASSUME(k0 <= k1); double x0 = (double)k0*0.5, x1 = (double)k1*0.5; double e = 0; for (u64 i = 0; i < n; ++i) { double l = GX[i] > x0 ? GX[i] : x0, u = GX[i+1] < x1 ? GX[i+1] : x1; if (l < u) e += y.data[i]*(u-l); } CHECKM(integrate(b, y, x0, x1) == e, "binned integral over a range counts each partial bin with its own value"); REACH("integ_binrange"); }
ENTRY h_integ_hint(u64 n) { vec1d x = grid(n), y = ords(n); i64 m = (i64)(GX[n-1]*2); i64 k0 = sym_in(0, m, "x0"), k1 = sym_in(0, m, "x1"), k2 = sym_in(0, m, "x2"); ASSUME((k0 <= k1) & (k1 <= k2)); double x0 = (double)k0*0.5, x1 = (double)k1*0.5, x2 = (double)k2*0.5; uint_t h = npos; double r = integrate_hinted(x, y, h, x0, x1); CHECKM(r == trap_(x, y, x0, x1), "integral without hint"); CHECK(h < n); double q = integrate_hinted(x, y, h, x1, x2); CHECKM(q == trap_(x, y, x1, x2), "integral with the hint of the previous call"); CHECK(h < n); REACH("integ_hint"); }
ENTRY h_cumul(u64 n) { vec1d x = grid(n), y = ords(n); auto r = cumul(x, y); CHECK(r.size() == n && r.dims[0] == n); double e = 0; for (u64 i = 0; i < n; ++i) { if (i) e += 0.5*(y.data[i]+y.data[i-1])*(x.data[i]-x.data[i-1]); CHECKM(r.data[i] == e, "cumulative integral"); } REACH("cumul"); }
ENTRY h_rebin_out() { vec2d m = smap(2, 3); vec1d mx = {0, 2}, my = {0, 1, 2}; vec1d x = {(double)pick(-2, 6)*0.5, 1}, y = {(double)pick(-2, 6)*0.5}; auto r = rebin(m, mx, my, x, y); CHECK(r.dims[0] == 2 && r.dims[1] == 1); for (u64 i = 0; i < 2; ++i) CHECKM(r.data[i] == bilinear(m, x.data[i]*0.5, y.data[0]) && r.data[i] == bilinear(m, mx, my, x.data[i], y.data[0]), "rebin must agree with bilinear, also outside the table"); REACH("rebin_out"); }
// positions given as an image
ENTRY h_interp_2d() { vec1d x = {0, 1, 3}, y(3), e = {1, 2, 1}; for (u64 i = 0; i < 3; ++i) y.data[i] = (double)pick(-1, 1); vec2d t(2, 2); for (u64 i = 0; i < 4; ++i) t.data[i] = (double)i - 0.5; t.data[(u64)pick(0, 3)] = (double)pick(-2, 8)*0.5; auto r = interpolate(y, x, t); CHECKM(r.dims == t.dims && dims_ok(r), "interpolate at an image of positions: same dimensions"); auto p = interpolate(y, e, x, t); CHECK(p.first.dims == t.dims && p.second.dims == t.dims && dims_ok(p.first) && dims_ok(p.second)); for (u64 i = 0; i < 4; ++i) { vec1d q = {t.data[i]}; auto s = interpolate(y, e, x, q); CHECK(r.data[i] == interpolate(y, x, t.data[i]) && near(p.first.data[i], r.data[i]) && p.first.data[i] == s.first.data[0] && p.second.data[i] == s.second.data[0]); } vec2d m = smap(2, 2); vec1d mx = {0, 1}; auto b = bilinear(m, mx, mx, t, t); CHECK(b.dims == t.dims && dims_ok(b)); for (u64 i = 0; i < 4; ++i) CHECK(b.data[i] == bilinear(m, t.data[i], t.data[i])); REACH("interp_2d"); }
