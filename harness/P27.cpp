//BOUND images of 0..3 x 0..3 (4x3 thorough) pixels of arbitrary integers; margins 0..2, shifts and centres -7..7, regions with corners -3..5, windows of half-width 0..5, masks of 3x3 (3x4 thorough) arbitrary pixels inflated by 0..3, kernels of up to 3x3 (5x1) arbitrary small integers, circles with centre and radius in steps of 1/4; rotations, bicubic interpolation and everything that needs FFTW or WCSLib are outside
#include "hg.h"
#include <vif/math/reduce.hpp>
#include <vif/math/interpolate.hpp>
#include <vif/astro/image.hpp>
using namespace vif::astro;
static vec2i image(u64 n, u64 m) { vec2i v(n, m); for (u64 i = 0; i < n*m; ++i) v.data[i] = sym_int("v"); return v; }
static vec2i small(u64 n, u64 m, i64 lo = -3, i64 hi = 4) { vec2i v(n, m); for (u64 i = 0; i < n*m; ++i) v.data[i] = (i64)sym_in(lo, hi, "v"); return v; }
template<class V> static bool shape(const V& v, u64 n, u64 m) { return v.dims[0] == n && v.dims[1] == m && v.data.size() == n*m; }
// pixel (x,y) of an image, or a default outside of it
template<class V, class T> static T pix(const V& v, i64 x, i64 y, T def) { return x >= 0 && y >= 0 && x < (i64)v.dims[0] && y < (i64)v.dims[1] ? (T)v.data[(u64)x*v.dims[1] + (u64)y] : def; }
//RUN both h_margins 0..3 0..3
ENTRY h_margins(u64 n, u64 m) {
    vec2i v = image(n, m), c = v; std::array<uint_t,4> u; for (u64 i = 0; i < 4; ++i) u[i] = (u64)pick(0, n*m > 4 && i > 1 ? 1 : 2, "m"); int def = sym_int("def");
    vec2i e = enlarge(v, u, def), d = enlarge(v, u); CHECKM(shape(e, n + u[0] + u[2], m + u[1] + u[3]) && shape(d, n + u[0] + u[2], m + u[1] + u[3]), "enlarge: dimensions");
    bool ok = true; for (u64 x = 0; x < e.dims[0]; ++x) for (u64 y = 0; y < e.dims[1]; ++y) ok &= e.data[x*e.dims[1] + y] == pix(v, (i64)x - (i64)u[0], (i64)y - (i64)u[1], (i64)def) && d.data[x*e.dims[1] + y] == pix(v, (i64)x - (i64)u[0], (i64)y - (i64)u[1], (i64)0); CHECKM(ok, "enlarge: the image surrounded by the default");
    vec2i s = shrink(v, u); if (u[0] + u[2] >= n || u[1] + u[3] >= m) CHECKM(s.data.empty() && s.dims[0]*s.dims[1] == 0, "shrink: nothing left"); else { CHECKM(shape(s, n - u[0] - u[2], m - u[1] - u[3]), "shrink: dimensions"); for (u64 x = 0; x < s.dims[0]; ++x) for (u64 y = 0; y < s.dims[1]; ++y) ok &= s.data[x*s.dims[1] + y] == pix(v, (i64)(x + u[0]), (i64)(y + u[1]), (i64)0); CHECKM(ok, "shrink: the centre of the image"); }
    vec2i b = shrink(e, u); CHECKM(n*m == 0 ? b.data.empty() : shape(b, n, m), "shrink undoes enlarge: dimensions"); for (u64 i = 0; i < b.data.size(); ++i) ok &= b.data[i] == v.data[i]; CHECKM(ok, "shrink undoes enlarge"); vec2i f = enlarge(v, u[0], def); CHECKM(shape(f, n + 2*u[0], m + 2*u[0]), "enlarge: equal margins"); vec2i g = shrink(f, u[0]); CHECKM(n*m == 0 || shape(g, n, m), "shrink: equal margins"); for (u64 i = 0; i < g.data.size(); ++i) ok &= g.data[i] == v.data[i]; for (u64 i = 0; i < n*m; ++i) ok &= c.data[i] == v.data[i]; CHECKM(ok, "enlarge and shrink do not modify their argument"); REACH("margins");
}
//RUN both h_sub 0..2 0..3
//RUN both h_sub 3 2
ENTRY h_sub(u64 n, u64 m) {
    vec2i v = image(n, m); vec1i r(4); for (u64 i = 0; i < 4; ++i) r.data[i] = (i64)pick(i < 2 ? -2 : -3, i < 2 ? 3 : 4, "r"); i64 nx = r.data[2] - r.data[0] + 1, ny = r.data[3] - r.data[1] + 1; if (nx < 0) nx = 0; if (ny < 0) ny = 0; vec1i rc = r;
    vec1u iv = {99}, ir = {98, 97}; subregion(v, r, iv, ir); u64 k = 0; bool ok = true; CHECKM(iv.dims[0] == ir.dims[0] && iv.data.size() == iv.dims[0] && ir.data.size() == ir.dims[0], "subregion: as many indices");
    for (i64 x = 0; x < nx; ++x) for (i64 y = 0; y < ny; ++y) { i64 a = r.data[0] + x, b = r.data[1] + y; if (a < 0 || b < 0 || a >= (i64)n || b >= (i64)m) continue; CHECKM(k < iv.data.size(), "subregion: every covered pixel"); ok &= iv.data[k] == (u64)(a*(i64)m + b) && ir.data[k] == (u64)(x*ny + y); ++k; }
    CHECKM(ok, "subregion: indices in the image and in the region"); CHECKM(k == iv.data.size(), "subregion: only covered pixels");
    int def = sym_int("def"); vec2i s = subregion(v, r, def); CHECKM(shape(s, (u64)nx, (u64)ny), "subregion: dimensions"); for (i64 x = 0; x < nx; ++x) for (i64 y = 0; y < ny; ++y) ok &= s.data[(u64)(x*ny + y)] == pix(v, r.data[0] + x, r.data[1] + y, (i64)def); for (u64 i = 0; i < 4; ++i) ok &= r.data[i] == rc.data[i]; CHECKM(ok, "subregion: pixels"); REACH("sub");
}
//RUN both h_sub_bad 0..5
ENTRY h_sub_bad(u64 k) { vec2i v = image(2, 2); vec1i r(k); for (u64 i = 0; i < k; ++i) r.data[i] = 0; vec1u a, b; REACH("sub_bad"); AbortIff ab(k != 4); subregion(v, r, a, b); ab.returned("subregion: a region needs four numbers"); }
//RUN both h_flip 0..4 0..4
ENTRY h_flip(u64 n, u64 m) {
    vec2i v = image(n, m), c = v, fx = flip_x(v), fy = flip_y(v); bool ok = true; CHECKM(shape(fx, n, m) && shape(fy, n, m), "flip: dimensions"); for (u64 x = 0; x < n; ++x) for (u64 y = 0; y < m; ++y) ok &= fx.data[x*m + y] == c.data[x*m + m - 1 - y] && fy.data[x*m + y] == c.data[(n - 1 - x)*m + y] && v.data[x*m + y] == c.data[x*m + y]; CHECKM(ok, "flip_x, flip_y");
    if (n > 1 && m > 0) { vec2i w = flip_y(v(1-_-(n - 1), _)); CHECKM(shape(w, n - 1, m), "flip of a view: dimensions"); for (u64 x = 0; x + 1 < n; ++x) for (u64 y = 0; y < m; ++y) ok &= w.data[x*m + y] == c.data[(n - 1 - x)*m + y] && v.data[x*m + y] == c.data[x*m + y]; CHECKM(ok, "flip of a view"); } REACH("flip");
}
//RUN both h_shift 0..3 0..3
//RUN thorough h_shift 4 3
ENTRY h_shift(u64 n, u64 m) {
    vec2i v = image(n, m); i64 a = pick(-7, 7, "dx"), b = pick(-7, 7, "dy"); vec2i s = shift(v, a, b); bool ok = true; CHECKM(shape(s, n, m), "shift: dimensions"); for (u64 x = 0; x < n; ++x) for (u64 y = 0; y < m; ++y) { u64 p = (u64)(((i64)x + a)%(i64)n + (i64)n)%n, q = (u64)(((i64)y + b)%(i64)m + (i64)m)%m; ok &= s.data[p*m + q] == v.data[x*m + y]; } CHECKM(ok, "shift: circular");
    int def = sym_int("def"); vec2i t = translate_integer(v, a, b, (i64)def), z = translate_integer(v, a, b); CHECKM(shape(t, n, m) && shape(z, n, m), "translate_integer: dimensions"); for (u64 x = 0; x < n; ++x) for (u64 y = 0; y < m; ++y) ok &= t.data[x*m + y] == pix(v, (i64)x - a, (i64)y - b, (i64)def) && z.data[x*m + y] == pix(v, (i64)x - a, (i64)y - b, (i64)0); CHECKM(ok, "translate_integer: moved, the default where nothing is moved to");
    if (n > 1 && m > 1) { vec2i w = translate_integer(v(0-_-1, 0-_-1), a, b, (i64)def); vec2i q = v(0-_-1, 0-_-1); CHECKM(shape(w, 2, 2), "translate_integer: view"); for (u64 x = 0; x < 2; ++x) for (u64 y = 0; y < 2; ++y) ok &= w.data[x*2 + y] == pix(q, (i64)x - a, (i64)y - b, (i64)def); CHECKM(ok, "translate_integer: pixels of a view"); } REACH("shift");
}
//RUN both h_center 1..3 1..3
ENTRY h_center(u64 n, u64 m) {
    vec2i v = image(n, m); i64 cy = pick(-4, 6, "cy"), cx = pick(-4, 6, "cx"); int def = sym_int("def"); u64 p = (u64)pick(1, 4, "p"), q = (u64)pick(1, 3, "q"); bool ok = true;
    vec2i r = recenter(v, cy, cx, {{p, q}}, (i64)def); CHECKM(shape(r, p, q), "recenter: dimensions"); for (u64 x = 0; x < p; ++x) for (u64 y = 0; y < q; ++y) ok &= r.data[x*q + y] == pix(v, (i64)x + cy - (i64)(p/2), (i64)y + cx - (i64)(q/2), (i64)def); CHECKM(ok, "recenter: the given pixel is at the centre of the result");
    if (p == 1 && q == 1) { vec2i s = recenter(v, cy, cx, (i64)def); CHECKM(shape(s, n, m), "recenter: same dimensions"); for (u64 x = 0; x < n; ++x) for (u64 y = 0; y < m; ++y) ok &= s.data[x*m + y] == pix(v, (i64)x + cy - (i64)(n/2), (i64)y + cx - (i64)(m/2), (i64)def); CHECKM(ok, "recenter: the given pixel is at the centre of the image"); } REACH("center");
}
// moves by multiples of half a pixel, scalings around the centre
static bool same(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
//RUN both h_move 2..3 2..3
ENTRY h_move(u64 n, u64 m) {
    vec2d v(n, m); for (u64 i = 0; i < n*m; ++i) v.data[i] = (double)sym_in(-3, 4, "v"); i64 a = pick(-3, 3, "dx"), b = pick(-3, 3, "dy"); double def = -9; bool ok = true;
    auto at = [&](i64 p, i64 q) { if (p < 0 || q < 0 || p/2 + 1 >= (i64)n || q/2 + 1 >= (i64)m) return def; u64 p0 = (u64)p/2, p1 = (u64)(p + 1)/2, q0 = (u64)q/2, q1 = (u64)(q + 1)/2; return 0.25*(v.data[p0*m + q0] + v.data[p0*m + q1] + v.data[p1*m + q0] + v.data[p1*m + q1]); };
    vec2d t = translate(v, 0.5*(double)a, 0.5*(double)b, def); CHECKM(shape(t, n, m), "translate: dimensions"); for (u64 x = 0; x < n; ++x) for (u64 y = 0; y < m; ++y) ok &= t.data[x*m + y] == at(2*(i64)x - a, 2*(i64)y - b); CHECKM(ok, "translate by half pixels: mean of the surrounding pixels, the default where there are none");
    if (a == 0 || a == 2) { vec2d s = scale(v, a == 0 ? 1.0 : b == 0 ? 2.0 : b > 0 ? 0.5 : 1.0, def); i64 c = a == 0 ? 2 : b == 0 ? 1 : b > 0 ? 4 : 2; CHECKM(shape(s, n, m), "scale: dimensions"); for (u64 x = 0; x < n; ++x) for (u64 y = 0; y < m; ++y) ok &= s.data[x*m + y] == at(c*((i64)x - (i64)(n/2)) + 2*(i64)(n/2), c*((i64)y - (i64)(m/2)) + 2*(i64)(m/2)); CHECKM(ok, "scale around the centre by 1/2, 1 and 2"); }
    REACH("move");
}
//RUN both h_boxcar 1..3 1..3
ENTRY h_boxcar(u64 n, u64 m) {
    vec2i v = image(n, m); u64 h = (u64)pick(0, 5, "h"); u64 calls = 0; bool ok = true; auto sum = [&](const vec1i& t) { i64 s = 0; for (u64 i = 0; i < t.data.size(); ++i) s += t.data[i]*(i64)(i + 1); ok &= t.dims[0] == t.data.size(); ++calls; return s; }; vec2i r = boxcar(v, h, sum); CHECKM(shape(r, n, m) && calls == n*m, "boxcar: one call per pixel");
    for (u64 x = 0; x < n; ++x) for (u64 y = 0; y < m; ++y) { i64 s = 0, k = 0; for (u64 p = 0; p < n; ++p) for (u64 q = 0; q < m; ++q) if (p + h >= x && p <= x + h && q + h >= y && q <= y + h) s += v.data[p*m + q]*++k; ok &= r.data[x*m + y] == s; } CHECKM(ok, "boxcar: the pixels of the window that are in the image"); REACH("boxcar");
}
//RUN both h_inflate 1..3 1..3
//RUN thorough h_inflate 4 3
ENTRY h_inflate(u64 n, u64 m) {
    vec2b v(n, m); for (u64 i = 0; i < n*m; ++i) v.data[i] = sym_bool("m"); u64 d = (u64)pick(0, 3, "d"); vec2b r = mask_inflate(v, d); CHECKM(shape(r, n, m), "mask_inflate: dimensions"); bool ok = true;
    for (u64 x = 0; x < n; ++x) for (u64 y = 0; y < m; ++y) { bool e = false; for (u64 p = 0; p < n; ++p) for (u64 q = 0; q < m; ++q) if ((p > x ? p - x : x - p) + (q > y ? q - y : y - q) <= d) e |= (bool)v.data[p*m + q]; ok &= (bool)r.data[x*m + y] == e; } CHECKM(ok, "mask_inflate: exactly the pixels within the given number of steps"); REACH("inflate");
}
//RUN both h_conv 0..3 0..2 1 3
//RUN both h_conv 0..3 0..2 3 1
//RUN both h_conv 1..3 1..3 3 3
//RUN both h_conv 1..3 1 5 1
//RUN both h_conv 1 1..3 1 5
ENTRY h_conv(u64 n, u64 m, u64 p, u64 q) {
    vec2i v = small(n, m), k = small(p, q, -1, 2), r = convolve2d_naive(v, k), r2 = convolve2d(v, k); CHECKM(shape(r, n, m) && shape(r2, n, m), "convolve2d: dimensions"); bool ok = true;
    for (u64 x = 0; x < n; ++x) for (u64 y = 0; y < m; ++y) { i64 s = 0; for (u64 a = 0; a < p; ++a) for (u64 b = 0; b < q; ++b) s += k.data[a*q + b]*pix(v, (i64)x - (i64)a + (i64)(p/2), (i64)y - (i64)b + (i64)(q/2), (i64)0); ok &= r.data[x*m + y] == s && r2.data[x*m + y] == s; } CHECKM(ok, "convolve2d: sum of the pixels weighted by the kernel, zero outside of the image"); REACH("conv");
}
//RUN both h_conv_bad
ENTRY h_conv_bad() { u64 p = (u64)pick(1, 4, "p"), q = (u64)pick(1, 4, "q"); vec2i v = small(2, 2), k = small(p, q); REACH("conv_bad"); AbortIff ab(p%2 == 0 || q%2 == 0); convolve2d_naive(v, k); ab.returned("convolve2d_naive: kernels of even dimensions"); }
//RUN both h_circle 0..3 0..2
ENTRY h_circle(u64 n, u64 m) {
    double x = 0.25*(double)pick(-5, 4*(i64)n + 2, "x"), y = 0.25*(double)pick(-5, 4*(i64)m + 2, "y"), r = 0.25*(double)pick(0, 9, "r"); vec2d c = circular_mask({{n, m}}, r, x, y); CHECKM(shape(c, n, m), "circular_mask: dimensions"); bool ok = true; auto in = [&](double a, double b) { return (a - x)*(a - x) + (b - y)*(b - y) <= r*r; };
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) { double a = (double)i, b = (double)j; int k = in(a - 0.5, b - 0.5) + in(a + 0.5, b - 0.5) + in(a + 0.5, b + 0.5) + in(a - 0.5, b + 0.5); ok &= c.data[i*m + j] == 0.25*(double)k; } CHECKM(ok, "circular_mask: a quarter for each corner of the pixel in the circle"); REACH("circle");
}
//RUN both h_circle_bad
ENTRY h_circle_bad() { double r = (double)pick(-2, 2, "r"); REACH("circle_bad"); AbortIff ab(r < 0); circular_mask({{2, 2}}, r, 0.0, 0.0); ab.returned("circular_mask: negative radius"); }
//RUN both h_radial 1..4 1..4
ENTRY h_radial(u64 n, u64 m) {
    vec2d v(n, m); for (u64 i = 0; i < n*m; ++i) v.data[i] = (double)((i*7)%5) - 1.5; v.data[0] = (double)sym_in(-3, 4, "v"); v.data[(n/2)*m + m/2] = (double)sym_in(-3, 4, "c"); u64 k = (u64)pick(1, 3, "k"); vec1d r = radial_profile(v, k); double cx = (double)(n/2), cy = (double)(m/2); CHECKM(r.dims[0] == k && r.data.size() == k, "radial_profile: dimensions"); CHECKM(r.data[0] == v.data[(n/2)*m + m/2], "radial_profile: central pixel");
    auto frac = [&](u64 i, u64 j, double rad) { int c = 0; for (int a = -1; a <= 1; a += 2) for (int b = -1; b <= 1; b += 2) { double dx = (double)i + 0.5*a - cx, dy = (double)j + 0.5*b - cy; c += dx*dx + dy*dy <= rad*rad; } return 0.25*(double)c; };
    for (u64 d = 1; d < k; ++d) { double s = 0, w = 0; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) { double f = frac(i, j, (double)d)*(1.0 - frac(i, j, (double)d - 1)); s += f*v.data[i*m + j]; w += f; } CHECKM(w == 0 ? r.data[d] != r.data[d] : r.data[d] == s/w, "radial_profile: mean over the ring"); } REACH("radial");
}
//RUN both h_generate 0..3 0..3
ENTRY h_generate(u64 n, u64 m) { vec2i t = image(n, m); vec2i r = generate_img({{n, m}}, [&](u64 x, u64 y) { return t.data[x*m + y]; }); CHECKM(shape(r, n, m), "generate_img: dimensions"); bool ok = true; for (u64 i = 0; i < n*m; ++i) ok &= r.data[i] == t.data[i]; CHECKM(ok, "generate_img: the function of the coordinates"); REACH("generate"); }
