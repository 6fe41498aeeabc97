//BOUND strings of up to 4 (5 thorough) arbitrary bytes read as integers of every width and sign, as booleans and as text, up to 6 letters read as special floating point values; all 8-bit and all small integers written; vectors of up to 3 elements, 1-D to 3-D; decimal text with at most 15 digits and no exponent for floating point numbers
#include "hio.h"
#include "hs.h"
#include <vif/core/string_conversion.hpp>
#include <vif/core/print.hpp>
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
struct num_t { bool ok, neg; u64 v; };
static num_t parse(const str& s) { num_t r{false, false, 0}; u64 n = s.size(), i = 0, d = 0; while (i < n && sp(s[i])) ++i; if (i < n && (s[i] == '-' || s[i] == '+')) { r.neg = s[i] == '-'; ++i; } while (i < n && s[i] >= '0' && s[i] <= '9') { r.v = r.v*10 + (u64)(s[i] - '0'); ++i; ++d; } r.ok = d > 0; while (i < n) if (!sp(s[i++])) r.ok = false; return r; }
template<class T> static void conv(const str& s) {
    T v = 77; bool r = from_string(s, v); num_t e = parse(s); u64 mx = (u64)std::numeric_limits<T>::max() + (std::is_signed<T>::value && e.neg ? 1 : 0); if (e.ok && e.v > mx) e.ok = false;
    CHECKM(r == e.ok, "from_string accepts exactly the integers that fit"); if (e.ok) CHECKM(v == (T)(e.neg ? 0ull - e.v : e.v), "from_string: value"); obs("r", r);
}
//RUN both h_int 0..4
//RUN thorough h_int 5
ENTRY h_int(u64 n) { str s = sstr(n); conv<int>(s); REACH("int"); }
//RUN both h_types 0..3 0..4
//RUN thorough h_types 4 0..4
ENTRY h_types(u64 n, u64 k) { str s = sstr(n); if (k == 0) conv<unsigned>(s); else if (k == 1) conv<long>(s); else if (k == 2) conv<u64>(s); else if (k == 3) conv<short>(s); else conv<unsigned short>(s); REACH("types"); }
// numbers near the limits of the type: a fixed prefix and arbitrary digits
//RUN both h_limit 0..5
ENTRY h_limit(u64 k) {
    static const char* p[6] = {"327", "-3276", "655", "21474836", "-214748364", "42949672"}; str s = p[k]; s += astr(k == 1 || k == 4 ? 1 : 2, "0123456789"); if (k < 2) conv<short>(s); else if (k == 2) conv<unsigned short>(s); else if (k < 5) conv<int>(s); else conv<unsigned>(s); REACH("limit");
}
//RUN both h_bool 0..3
ENTRY h_bool(u64 n) { str s = sstr(n); bool v = false; bool r = from_string(s, v); num_t e = parse(s); bool ok = e.ok && (e.v == 0 || (e.v == 1 && !e.neg)); CHECKM(r == ok, "from_string: exactly 0 and 1 are booleans"); if (ok) CHECKM(v == (e.v == 1), "from_string: boolean"); REACH("bool"); }
//RUN both h_text 0..4
//RUN thorough h_text 5
ENTRY h_text(u64 n) { // one word
    str s = sstr(n), v; bool r = from_string(s, v); u64 i = 0; while (i < n && sp(s[i])) ++i; u64 b = i; while (i < n && !sp(s[i])) ++i; u64 e = i; bool ok = e > b; while (i < n) if (!sp(s[i++])) ok = false;
    CHECKM(r == ok, "from_string: exactly one word"); if (ok) CHECKM(eq(v, cat(s, b, e)), "from_string: word"); CHECKM(eq(to_string(s), s), "to_string of a string"); REACH("text");
}
static char up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
//RUN both h_special 1..4
//RUN thorough h_special 5
ENTRY h_special(u64 n) { // letters and signs only
    str s = astr(n, "nNaifF+-"), u = s; for (char& c : u) c = up(c); bool isn = eq(u, "NAN") || eq(u, "+NAN") || eq(u, "-NAN"), isp = eq(u, "INF") || eq(u, "+INF") || eq(u, "INF+"), ism = eq(u, "-INF") || eq(u, "INF-");
    double d = 3; bool r = from_string(s, d); CHECKM(r == (isn || isp || ism), "from_string accepts nan and inf and no other word"); if (isn) CHECKM(is_nan_(d), "from_string: nan"); if (isp) CHECKM(d == (double)INFINITY, "from_string: inf"); if (ism) CHECKM(d == -(double)INFINITY, "from_string: -inf");
    float f = 3; r = from_string(s, f); CHECKM(r == (isn || isp || ism), "from_string accepts nan and inf and no other word (float)"); if (isp) CHECKM(f == (float)INFINITY, "from_string: inf (float)"); if (ism) CHECKM(f == -(float)INFINITY, "from_string: -inf (float)"); if (isn) CHECKM(f != f, "from_string: nan (float)");
    int i = 3; CHECKM(!from_string(s, i), "from_string: integers are never nan or inf"); REACH("special");
}
//RUN both h_double 1..3
//RUN thorough h_double 4
ENTRY h_double(u64 n) { // plain decimal numbers
    str s = astr(n, "05.- x"); double d = 3; bool r = from_string(s, d); u64 i = 0, k = 0; bool dot = false; while (i < n && s[i] == ' ') ++i; bool neg = i < n && s[i] == '-'; if (neg) ++i; double e = 0, q = 1; while (i < n && ((s[i] >= '0' && s[i] <= '9') || (s[i] == '.' && !dot))) { if (s[i] == '.') dot = true; else { e = e*10 + (s[i] - '0'); ++k; if (dot) q *= 10; } ++i; } bool ok = k > 0; while (i < n) if (s[i++] != ' ') ok = false;
    CHECKM(r == ok, "from_string accepts exactly the numbers"); if (ok) CHECKM(d == (neg ? -(e/q) : e/q), "from_string: number"); REACH("double");
}
static str num(long v) { str r; bool neg = v < 0; unsigned char u = (unsigned char)(neg ? -v : v); str d; do { d.push_back((char)('0' + (unsigned char)(u % 10))); u = (unsigned char)(u/10); } while (u); if (neg) r.push_back('-'); for (u64 i = d.size(); i > 0; --i) r.push_back(d[i-1]); return r; }
template<class T> static void round_trip(long v, long lo) { T t = (T)v, b = 0; str s = to_string(t); CHECKM(eq(s, num(v)), "to_string: digits"); CHECKM(from_string(s, b) && b == t, "from_string(to_string(x)) is x"); (void)lo; }
//RUN both h_back 0..6
ENTRY h_back(u64 k) { long v = (long)sym_in(k == 1 || k == 3 || k == 5 ? 0 : -127, 127, "v"); if (k == 0) round_trip<int>(v, 0); else if (k == 1) round_trip<unsigned>(v, 0); else if (k == 2) round_trip<long>(v, 0); else if (k == 3) round_trip<u64>(v, 0); else if (k == 4) round_trip<short>(v, 0); else if (k == 5) round_trip<unsigned short>(v, 0); else round_trip<double>(v, 0); REACH("back"); }
// vectors
//RUN both h_vec 0..3
ENTRY h_vec(u64 n) {
    vec1i v(n); str e = "{"; std::vector<str> w(n); for (u64 i = 0; i < n; ++i) { long x = (long)sym_in(-12, 112, "v"); v.data[i] = (int)x; w[i] = num(x); if (i) e += ", "; e += w[i]; } e += "}"; vec1i c = v;
    CHECKM(eq(to_string(v), e), "to_string of a vector: elements between braces"); vec1s t = to_string_vector(v); CHECKM(t.dims[0] == n && t.data.size() == n, "to_string_vector: dimensions"); for (u64 i = 0; i < n; ++i) CHECKM(eq(t.data[i], w[i]), "to_string_vector: elements");
    vec1i b; vec1b ok = from_string(t, b); CHECKM(ok.dims[0] == n && b.dims[0] == n && b.data.size() == n, "from_string: dimensions"); for (u64 i = 0; i < n; ++i) CHECKM(ok.data[i] && b.data[i] == v.data[i] && c.data[i] == v.data[i], "from_string(to_string_vector(v)) is v");
    REACH("vec");
}
//RUN both h_vec2 0..2 0..2
ENTRY h_vec2(u64 r, u64 c) { // other dimensions, mixed validity
    vec2s s(r, c); std::vector<num_t> e; for (u64 i = 0; i < r*c; ++i) { s.data[i] = astr(r*c > 2 ? 1 : 2, "17-x "); e.push_back(parse(s.data[i])); }
    vec2i v; vec2b ok = from_string(s, v); CHECKM(ok.dims[0] == r && ok.dims[1] == c && v.dims[0] == r && v.dims[1] == c && v.data.size() == r*c && ok.data.size() == r*c, "from_string: 2-D dimensions");
    for (u64 i = 0; i < r*c; ++i) { CHECKM((bool)ok.data[i] == e[i].ok, "from_string: which elements are valid"); if (e[i].ok) CHECKM(v.data[i] == (e[i].neg ? -(i64)e[i].v : (i64)e[i].v), "from_string: element"); }
    vec2s t = to_string_vector(v); CHECKM(t.dims[0] == r && t.dims[1] == c && t.data.size() == r*c, "to_string_vector: 2-D dimensions"); REACH("vec2");
}
//RUN both h_view
ENTRY h_view() { // views in and out, wrong dimensions
    vec1s s = {astr(1, "12", "a"), astr(1, "34", "b"), "56"}; vec1i v = {7, 8, 9}; vec1b ok = from_string(s[vec1u{2, 0}], v[vec1u{0, 2}]); CHECKM(ok.dims[0] == 2 && ok.data[0] && ok.data[1] && v.data[0] == 56 && v.data[1] == 8 && v.data[2] == s.data[0][0] - '0', "from_string: views");
    vec1s t = to_string_vector(v[1-_-2]); CHECKM(t.dims[0] == 2 && eq(t.data[0], "8") && eq(t.data[1], s.data[0]), "to_string_vector: view"); CHECKM(eq(to_string(v[vec1u{1, 0}]), "{8, 56}"), "to_string: view");
    vec3i z(1, 2, 1); z.data[0] = 1; z.data[1] = 2; CHECKM(eq(to_string(z), "{1, 2}"), "to_string: 3-D");
    REACH("view"); AbortIff ab(true); from_string(s, v[vec1u{0, 1}]); ab.returned("from_string: a view of another size");
}
