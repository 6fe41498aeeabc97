//BOUND binary and integer maps of up to 3x3 (3x4 thorough) pixels, up to 3 different values; deblending of images of up to 2x2 and 1x5 (2x3 thorough) pixels with arbitrary integer values between -2 and 5, 2x3 pixels with values 0..2, NaN and infinite pixels included, deblending distance 0..3, minimal areas 0..3; distance maps of up to 3x3 pixels with up to 2 different segment values
#include "hg.h"
#include <vif/math/reduce.hpp>
#include <vif/astro/image.hpp>
using namespace vif::astro;
template<class V> static bool shape(const V& v, u64 n, u64 m) { return v.dims[0] == n && v.dims[1] == m && v.data.size() == n*m; }
template<class V> static bool len(const V& v, u64 n) { return v.dims[0] == n && v.data.size() == n; }
// label[i] = smallest index of the pixels connected to i through pixels that satisfy same(i,j), independently of the code under test
template<class F> static void components(u64 n, u64 m, u64* lab, F&& same) {
    for (u64 i = 0; i < n*m; ++i) lab[i] = i; for (u64 it = 0; it < n*m; ++it) for (u64 x = 0; x < n; ++x) for (u64 y = 0; y < m; ++y) { u64 i = x*m + y;
        if (x + 1 < n && same(i, i + m)) { if (lab[i + m] < lab[i]) lab[i] = lab[i + m]; else lab[i + m] = lab[i]; }
        if (y + 1 < m && same(i, i + 1)) { if (lab[i + 1] < lab[i]) lab[i] = lab[i + 1]; else lab[i + 1] = lab[i]; } }
}
//RUN both h_segment 0..3 0..3
//RUN thorough h_segment 3 4
ENTRY h_segment(u64 n, u64 m) {
    vec2i v(n, m); for (u64 i = 0; i < n*m; ++i) v.data[i] = pick(0, 1, "v") ? (i64)sym_in(1, 5, "a") : 0; vec2i c = v; segment_params p; p.min_area = (u64)sym_in(0, 4, "min"); p.first_id = (u64)sym_in(1, 9, "first"); segment_output o; o.id = {5}; o.area = {1, 2}; o.px = {3}; o.py = {4}; o.origin = {7};
    vec2u s = segment(v, o, p), t = segment(v); CHECKM(shape(s, n, m) && shape(t, n, m), "segment: dimensions"); u64 lab[16], num[16]; for (u64 i = 0; i < n*m; ++i) num[i] = 0; components(n, m, lab, [&](u64 a, u64 b) { return (v.data[a] != 0) && (v.data[b] != 0); });
    u64 k = 0, j = 0; bool ok = true; CHECKM(len(o.area, o.id.data.size()) && len(o.px, o.id.data.size()) && len(o.py, o.id.data.size()) && len(o.origin, o.id.data.size()) && len(o.id, o.id.data.size()), "segment: as many values in each output");
    for (u64 i = 0; i < n*m; ++i) if (v.data[i] != 0 && lab[i] == i) { u64 a = 0; double px = 0, py = 0; for (u64 q = i; q < n*m; ++q) if (v.data[q] != 0 && lab[q] == i) { ++a; px += (double)(q%m); py += (double)(q/m); num[q] = k + 1; } if (a >= p.min_area) { CHECKM(j < o.id.data.size(), "segment: every segment that is large enough"); ok &= o.id.data[j] == p.first_id + k && o.area.data[j] == a && o.origin.data[j] == i && o.px.data[j] == px/(double)a && o.py.data[j] == py/(double)a; for (u64 q = i; q < n*m; ++q) if (v.data[q] != 0 && lab[q] == i) ok &= s.data[q] == p.first_id + k; ++j; } else for (u64 q = i; q < n*m; ++q) if (v.data[q] != 0 && lab[q] == i) ok &= s.data[q] == 0; ++k; }
    CHECKM(j == o.id.data.size(), "segment: only segments that are large enough"); CHECKM(ok, "segment: identifier, area, centre, origin and pixels of each segment"); for (u64 i = 0; i < n*m; ++i) ok &= (v.data[i] != 0 || s.data[i] == 0) && t.data[i] == num[i] && v.data[i] == c.data[i]; CHECKM(ok, "segment: the background is zero, default parameters"); REACH("segment");
}
//RUN both h_seg_bad
ENTRY h_seg_bad() { u64 f = (u64)pick(0, 2, "f"); bool d = sym_bool("d"); REACH("seg_bad"); AbortIff ab(f == 0); if (d) { segment_deblend_params p; p.first_id = f; segment_deblend_output o; segment_deblend(vec2d{{1.0, 2.0}}, o, p); } else { segment_params p; p.first_id = f; segment_output o; segment(vec2i{{1, 2}}, o, p); } ab.returned("segment: the first identifier cannot be zero"); }
//RUN both h_foreach 1..3 1..3
ENTRY h_foreach(u64 n, u64 m) {
    vec2u v(n, m); for (u64 i = 0; i < n*m; ++i) v.data[i] = (u64)pick(0, n*m > 4 ? 1 : 2, "v"); vec1u ids = {(u64)pick(0, n*m - 1, "i"), pick(0, 1, "j") ? n*m - 1 : n*m/2}; u64 lab[16]; components(n, m, lab, [&](u64 a, u64 b) { return v.data[a] == v.data[b]; }); u64 calls = 0; bool ok = true; vec2u c = v;
    foreach_segment(v, ids, [&](u64 s, const vec1u& p) { CHECKM(s == calls && s < 2, "foreach_segment: number of the segment"); CHECKM(len(p, p.data.size()), "foreach_segment: list of pixels"); u64 k = 0; bool seen[16]; for (u64 i = 0; i < n*m; ++i) { seen[i] = false; k += lab[i] == lab[ids.data[s]]; } CHECKM(p.data.size() == k, "foreach_segment: number of pixels"); for (u64 i = 0; i < k; ++i) { CHECKM(p.data[i] < n*m, "foreach_segment: pixels of the map"); ok &= !seen[p.data[i]] && lab[p.data[i]] == lab[ids.data[s]]; seen[p.data[i]] = true; } ok &= p.data[0] == ids.data[s]; ++calls; });
    CHECKM(calls == 2, "foreach_segment: one call per segment"); for (u64 i = 0; i < n*m; ++i) ok &= v.data[i] == c.data[i]; CHECKM(ok, "foreach_segment: each pixel of the segment once"); REACH("foreach");
}
static u64 dist(u64 a, u64 b) { return a > b ? a - b : b - a; }
// each pixel, from the brightest to the faintest, joins the segment found at the smallest number of steps (less than the deblending distance), the one with the nearest peak among several, or else is the peak of a new segment
static void blend(const vec2d& v, const vec2u& s, const segment_deblend_output& o, const segment_deblend_params& p, const bool* fin) {
    u64 n = v.dims[0], m = v.dims[1]; bool det[16], done[16]; u64 nd = 0; for (u64 i = 0; i < n*m; ++i) { det[i] = fin[i] && v.data[i] >= p.detect_threshold; done[i] = false; nd += det[i]; if (det[i] && s.data[i] == 0) return; } u64 next = p.first_id;
    for (u64 t = 0; t < nd; ++t) { u64 b = npos; for (u64 i = 0; i < n*m; ++i) if (det[i] && !done[i] && (b == npos || v.data[i] >= v.data[b])) b = i; u64 bx = b/m, by = b%m; bool found = false, good = false; for (u64 l = 1; (double)l < p.deblend_threshold && !found; ++l) { double best = dinf; for (int pass = 0; pass < 2; ++pass) for (u64 j = 0; j < n*m; ++j) if (done[j] && dist(j/m, bx) + dist(j%m, by) == l) { found = true; u64 og = o.origin.data[s.data[j] - p.first_id]; double dx = (double)(j/m) - (double)(og/m), dy = (double)(j%m) - (double)(og%m), d = dx*dx + dy*dy; if (pass == 0) { if (d < best) best = d; } else if (d == best && s.data[j] == s.data[b]) good = true; } }
        if (found) CHECKM(good, "segment_deblend: a pixel joins the nearest segment"); else { CHECKM(s.data[b] == next && o.origin.data[next - p.first_id] == b, "segment_deblend: a pixel away from the other segments is a new peak"); ++next; } done[b] = true; }
}
// each segment that is too small joins the adjacent segment with the nearest peak among those that are large enough, or is erased
static void merge(const vec2u& s0, const segment_deblend_output& o, const vec2u& s, const segment_deblend_params& p) {
    u64 n = s0.dims[0], m = s0.dims[1], k = o.id.data.size(); u64 cur[16], area[16]; for (u64 i = 0; i < n*m; ++i) cur[i] = s0.data[i]; for (u64 j = 0; j < k; ++j) area[j] = o.area.data[j];
    for (u64 j = 0; j < k; ++j) { if (area[j] >= p.min_area) continue; u64 id = o.id.data[j], to = s.data[o.origin.data[j]]; bool good = to == 0, any = false; double best = dinf; for (int pass = 0; pass < 2; ++pass) for (u64 q = 0; q < n*m; ++q) { if (cur[q] == 0 || cur[q] == id || area[cur[q] - p.first_id] < p.min_area) continue; bool adj = false; for (u64 r = 0; r < n*m; ++r) adj |= cur[r] == id && dist(r/m, q/m) + dist(r%m, q%m) == 1; if (!adj) continue; u64 og = o.origin.data[cur[q] - p.first_id]; double dx = (double)(q/m) - (double)(og/m), dy = (double)(q%m) - (double)(og%m), d = dx*dx + dy*dy; if (pass == 0) { if (!any) good = false; any = true; if (d < best) best = d; } else if (d == best && cur[q] == to) good = true; }
        CHECKM(good, "segment_deblend: a small segment joins an adjacent one or is erased"); for (u64 q = 0; q < n*m; ++q) if (cur[q] == id) { CHECKM(s.data[q] == to, "segment_deblend: small segments are moved as a whole"); cur[q] = to; } if (to != 0) area[to - p.first_id] += area[j]; }
    bool ok = true; for (u64 q = 0; q < n*m; ++q) ok &= s.data[q] == cur[q]; CHECKM(ok, "segment_deblend: segments that are large enough are kept");
}
//RUN both h_deblend 0..2 0..2 0
//RUN both h_deblend 1..2 1..2 1
//RUN both h_deblend 1 3..5 1
//RUN thorough h_deblend 2 3 1
//RUN both h_deblend 1 2..3 2
//RUN both h_deblend 1..2 1..2 3
//RUN both h_deblend 1 3..5 3
//RUN thorough h_deblend 2 2 2
//RUN both h_deblend 2 3 3
//RUN thorough h_deblend 2 3 2
ENTRY h_deblend(u64 n, u64 m, u64 kind) {
    vec2d v(n, m); bool fin[16]; for (u64 i = 0; i < n*m; ++i) { v.data[i] = kind == 3 ? (double)pick(0, n*m > 3 ? 2 : 3, "p") : (double)sym_in(-2, 5, "v"); fin[i] = true; if (kind == 2 && i%2 == 0) { u64 w = (u64)pick(0, 3, "w"); fin[i] = w == 0; if (w == 1) v.data[i] = dnan; else if (w == 2) v.data[i] = dinf; else if (w == 3) v.data[i] = -dinf; } }
    segment_deblend_params p; p.detect_threshold = kind == 3 || n*m > 4 ? 1.0 : (double)pick(0, 2, "t"); p.deblend_threshold = n*m > 4 ? 2.0 : (double)pick(0, 3, "d"); p.min_area = kind == 0 ? 0 : n*m > 4 ? 3*(u64)pick(0, 1, "min") : (u64)pick(0, 3, "min"); p.first_id = kind == 1 ? 4 : 1; p.centroid_flim = kind == 0 ? 0.0 : 0.5; segment_deblend_output o; o.id = {5}; o.area = {1, 2}; o.px = {3}; o.py = {4}; o.origin = {7}; o.bx = {1.0}; o.by = {1.0}; o.flux = {3.0f, 4.0f};
    vec2u s = segment_deblend(v, o, p); CHECKM(shape(s, n, m), "segment_deblend: dimensions"); u64 k = o.id.data.size(); CHECKM(len(o.id, k) && len(o.area, k) && len(o.px, k) && len(o.py, k) && len(o.origin, k) && len(o.bx, k) && len(o.by, k) && len(o.flux, k), "segment_deblend: as many values in each output"); bool ok = true;
    u64 lab[16]; components(n, m, lab, [&](u64 a, u64 b) { return s.data[a] == s.data[b]; }); u64 tot = 0;
    for (u64 j = 0; j < k; ++j) { u64 og = o.origin.data[j], id = o.id.data[j]; CHECKM(og < n*m, "segment_deblend: peaks in the image"); CHECKM(id >= p.first_id && (j == 0 || id > o.id.data[j-1]) && (p.min_area > 1 || id == p.first_id + j), "segment_deblend: increasing identifiers"); CHECKM(s.data[og] == id && o.px.data[j] == (i64)(og%m) && o.py.data[j] == (i64)(og/m), "segment_deblend: position of the peak"); u64 a = 0; double f = 0, fx = 0, fy = 0, ff = 0; for (u64 i = 0; i < n*m; ++i) if (s.data[i] == id) { ++a; f += v.data[i]; CHECKM(lab[i] == lab[og], "segment_deblend: contiguous segments"); CHECKM(v.data[i] <= v.data[og] || p.min_area > 1, "segment_deblend: the peak is the brightest pixel"); if (v.data[i] >= p.centroid_flim*v.data[og]) { ff += v.data[i]; fx += v.data[i]*(double)(i%m); fy += v.data[i]*(double)(i/m); } } tot += a;
        CHECKM(o.area.data[j] == a, "segment_deblend: number of pixels of the segment"); CHECKM(a >= p.min_area, "segment_deblend: minimal area"); CHECKM(o.flux.data[j] == (float)f, "segment_deblend: sum of the pixels of the segment"); if (kind == 3 && ff > 0) CHECKM(o.bx.data[j] == fx/ff && o.by.data[j] == fy/ff, "segment_deblend: barycentre of the segment"); if (j > 0 && p.min_area < 2) CHECKM(v.data[og] <= v.data[o.origin.data[j-1]], "segment_deblend: brightest peak first"); }
    u64 det = 0; for (u64 i = 0; i < n*m; ++i) { bool b = fin[i] && v.data[i] >= p.detect_threshold; ok &= b || s.data[i] == 0; det += b; if (b && p.min_area < 2 && p.deblend_threshold < 3) CHECKM(s.data[i] != 0, "segment_deblend: every pixel above the threshold belongs to a segment"); tot -= s.data[i] != 0; } CHECKM(tot == 0, "segment_deblend: every segment is in the output"); CHECKM(ok, "segment_deblend: no pixel below the threshold"); if (det > 0 && p.min_area < 2) CHECKM(k > 0, "segment_deblend: at least one segment"); if (p.deblend_threshold < 2 && p.min_area < 2 && kind == 0) CHECKM(k == det, "segment_deblend: no merging without a deblending distance"); if (p.min_area < 2) blend(v, s, o, p, fin); else { segment_deblend_params p0 = p; p0.min_area = 0; segment_deblend_output o0; vec2u s0 = segment_deblend(v, o0, p0); merge(s0, o0, s, p); } REACH("deblend");
}
//RUN both h_distance 1..3 1..3 1
//RUN both h_distance 1..2 1..4 2
//RUN thorough h_distance 3 3 2
//RUN thorough h_distance 3 4 1
ENTRY h_distance(u64 n, u64 m, u64 vals) {
    vec2u v(n, m), c; u64 used = 0; for (u64 i = 0; i < n*m; ++i) { v.data[i] = (u64)pick(0, vals, "v"); used += v.data[i] != 0; } c = v; vec2d d(1, 1); vec2u im(1, 1); segment_distance(v, d, im); CHECKM(shape(v, n, m) && shape(d, n, m) && shape(im, n, m), "segment_distance: dimensions"); bool ok = true;
    for (u64 i = 0; i < n*m; ++i) { if (used == 0) { ok &= v.data[i] == 0 && d.data[i] == dinf && im.data[i] == npos; continue; } double best = dinf; for (u64 j = 0; j < n*m; ++j) if (c.data[j] != 0) { double dx = (double)(i/m) - (double)(j/m), dy = (double)(i%m) - (double)(j%m); if (dx*dx + dy*dy < best) best = dx*dx + dy*dy; } u64 q = im.data[i]; CHECKM(q < n*m && c.data[q] != 0, "segment_distance: the nearest pixel belongs to a segment"); double dx = (double)(i/m) - (double)(q/m), dy = (double)(i%m) - (double)(q%m); ok &= d.data[i] == dx*dx + dy*dy && v.data[i] == c.data[q]; CHECKM(d.data[i] == best, "segment_distance: squared distance to the nearest segment"); if (c.data[i] != 0) ok &= q == i; } CHECKM(ok, "segment_distance: distance, pixel and segment agree"); REACH("distance");
}
