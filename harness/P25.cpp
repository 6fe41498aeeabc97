//BOUND files of up to 5 (7 thorough) characters of alphabets of 3-6 characters (digits, letters, delimiters, comments, line ends), every layout option; tables of up to 3x3 with 3 arbitrary integers in -112..112 (the others fixed) and arbitrary short strings; one file, integer and string columns (floating point text is not modelled)
#include "hio.h"
#include "hs.h"
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
#include <vif/io/filesystem.hpp>
#include <vif/io/ascii.hpp>
// oracle: the data lines of a file, as lists of words
struct tab { std::vector<std::vector<str>> r; u64 minc; };
static bool isws(char c) { return c == ' ' || c == '\t'; }
static bool starts_at(const str& l, u64 i, const str& p) { if (i + p.size() > l.size()) return false; for (u64 k = 0; k < p.size(); ++k) if (l[i + k] != p[k]) return false; return true; }
static tab parse(const str& f, const ascii::input_format& o) {
    tab t; t.minc = 99; u64 skip = o.skip_first, b = 0;
    while (b <= f.size()) {
        u64 e = b; while (e < f.size() && f[e] != '\n') ++e;
        u64 z = e; while (z > b && (f[z-1] == '\r' || f[z-1] == '\n')) --z;
        str l = cat(f, b, z); b = e + 1;
        u64 i = 0; while (i < l.size() && isws(l[i])) ++i; if (i == l.size()) continue;
        if (o.auto_skip && starts_at(l, i, o.skip_pattern)) continue;
        if (skip > 0) { --skip; continue; }
        std::vector<str> w;
        if (o.delim_single) { u64 k = 0, s = 0; while (true) { if (starts_at(l, k, o.delim)) { w.push_back(cat(l, s, k)); k += o.delim.size(); s = k; } else if (k >= l.size()) { w.push_back(cat(l, s, l.size())); break; } else ++k; } }
        else { u64 k = 0; while (true) { while (k < l.size() && inset(l[k], o.delim)) ++k; if (k == l.size()) break; u64 s = k; while (k < l.size() && !inset(l[k], o.delim)) ++k; w.push_back(cat(l, s, k)); } }
        if (w.size() < t.minc) t.minc = w.size(); t.r.push_back(w);
    }
    return t;
}
static void read_words2(const str& f, const ascii::input_format& exp, ascii::input_format o, bool def = false) {
    vf_put_file(f); tab t = parse(f, exp); u64 nr = t.r.size(), kind = (u64)pick(0, 7, "kind"); REACH("read");
    vec1s a = {"old"}, b = {"x", "y"}; vec2s v(1, 1), u; u64 need = kind == 0 ? 1 : kind <= 2 || kind >= 6 ? 2 : 3; str p = vf_path();
    AbortIff ab(nr > 0 && t.minc < need);
    if (kind == 0) { if (def) ascii::read_table(p, a); else ascii::read_table(p, o, a); }
    else if (kind == 1) { if (def) ascii::read_table(p, a, b); else ascii::read_table(p, o, a, b); }
    else if (kind == 2) ascii::read_table(p, o, _, b);
    else if (kind == 3) ascii::read_table(p, o, a, ascii::columns(2, v));
    else if (kind == 4) ascii::read_table(p, o, ascii::columns(2, _), b);
    else if (kind == 5) ascii::read_table(p, o, a, ascii::columns(1, v, u));
    else if (kind == 6) ascii::read_table(p, o, a, _);
    else ascii::read_table(p, o, a, ascii::columns(1, _));
    ab.returned("read_table: a line with too few columns stops the program");
    auto same = [&](const vec1s& x, u64 c) { bool ok = x.dims[0] == nr && x.data.size() == nr; CHECKM(ok, "read_table: one element per data line"); for (u64 i = 0; i < nr; ++i) CHECKM(eq(x.data[i], t.r[i][c]), "read_table: value"); };
    if (kind != 2 && kind != 4) same(a, 0);
    if (kind == 1 || kind == 2) same(b, 1);
    if (kind == 4) same(b, 2);
    if (kind == 3) { CHECKM(v.dims[0] == nr && v.dims[1] == 2 && v.data.size() == 2*nr, "read_table: 2-D column"); for (u64 i = 0; i < nr; ++i) CHECKM(eq(v.data[2*i], t.r[i][1]) && eq(v.data[2*i + 1], t.r[i][2]), "read_table: 2-D values"); }
    if (kind == 5) { CHECKM(v.dims[0] == nr && v.dims[1] == 1 && u.dims[0] == nr && u.dims[1] == 1, "read_table: 2-D columns"); for (u64 i = 0; i < nr; ++i) CHECKM(eq(v.data[i], t.r[i][1]) && eq(u.data[i], t.r[i][2]), "read_table: several 2-D values"); }
}
static void read_words(const str& f, const ascii::input_format& exp, ascii::input_format o) { read_words2(f, exp, o); }
static void read_words(const str& f, ascii::input_format o, bool def = false) { read_words2(f, o, o, def); }
//RUN both h_read 0..5
//RUN thorough h_read 6
ENTRY h_read(u64 n) { read_words(astr(n, "ab #\n"), ascii::input_format(true, "#", 0, " \t", false), true); }
//RUN both h_read_tab 3..4
//RUN thorough h_read_tab 5
ENTRY h_read_tab(u64 n) { read_words(astr(n, "a \t\r\n"), ascii::input_format(true, "#", 0, " \t", false), ascii::input_format::standard()); }
//RUN both h_read_csv 0..5
//RUN thorough h_read_csv 6
ENTRY h_read_csv(u64 n) { read_words(astr(n, "a,\n "), ascii::input_format(true, "#", 0, ",", true), ascii::input_format::csv()); }
//RUN both h_read_delim 3..5
//RUN thorough h_read_delim 6..7
ENTRY h_read_delim(u64 n) { ascii::input_format o = ascii::input_format::csv(); o.delim = "::"; read_words(astr(n, "a:\n"), o); }
//RUN both h_read_set 3..5
ENTRY h_read_set(u64 n) { ascii::input_format o; o.delim = ",;"; read_words(astr(n, "a,;\n"), o); }
//RUN both h_read_skip 0..4
//RUN thorough h_read_skip 5
ENTRY h_read_skip(u64 n) { ascii::input_format o; o.auto_skip = vf_conc(sym_bool("auto")); o.skip_pattern = "%%"; o.skip_first = (u64)pick(0, 3, "skip"); read_words(astr(n, "a% \n"), o); }
// integers
//RUN both h_read_int 0..5
//RUN thorough h_read_int 6
ENTRY h_read_int(u64 n) {
    str f = astr(n, "17-x \n"); vf_put_file(f); ascii::input_format o; tab t = parse(f, o); vec1i a; u64 nr = t.r.size(); bool bad = false; std::vector<long> e; REACH("int");
    for (u64 i = 0; i < nr; ++i) { const str& w = t.r[i][0]; u64 k = 0; bool neg = w[0] == '-'; if (neg) ++k; long v = 0; u64 d = 0; for (; k < w.size() && w[k] >= '0' && w[k] <= '9'; ++k, ++d) v = v*10 + (w[k] - '0'); if (d == 0 || k < w.size()) bad = true; e.push_back(neg ? -v : v); }
    AbortIff ab(bad); ascii::read_table(vf_path(), a); ab.returned("read_table: something that is not an integer stops the program");
    CHECKM(a.dims[0] == nr && a.data.size() == nr, "read_table: one integer per line"); for (u64 i = 0; i < nr; ++i) CHECKM(a.data[i] == e[i], "read_table: integer");
}
// scalars: at most one data line
//RUN both h_read_scalar 0..5
ENTRY h_read_scalar(u64 n) {
    str f = astr(n, "12 \n"); vf_put_file(f); tab t = parse(f, ascii::input_format()); u64 nr = t.r.size(); int a = -5; str b = "old"; REACH("scalar");
    AbortIff ab(nr > 1 || (nr == 1 && t.minc < 2)); ascii::read_table(vf_path(), a, b); ab.returned("read_table: several lines for a scalar"); 
    if (nr == 0) CHECKM(a == -5 && eq(b, "old"), "read_table: nothing to read"); else { long v = 0; for (char c : t.r[0][0]) v = v*10 + (c - '0'); CHECKM(a == v && eq(b, t.r[0][1]), "read_table: scalar values"); }
}
//RUN both h_read_one 0..4
ENTRY h_read_one(u64 n) { str f = astr(n, "12 \n"); vf_put_file(f); tab t = parse(f, ascii::input_format()); u64 nr = t.r.size(); int a = -5; REACH("one"); AbortIff ab(nr > 1); ascii::read_table(vf_path(), a); ab.returned("read_table: several lines for one scalar"); if (nr == 0) CHECKM(a == -5, "read_table: no line"); else { long v = 0; for (char c : t.r[0][0]) v = v*10 + (c - '0'); CHECKM(a == v, "read_table: one scalar"); } }
//RUN both h_missing
ENTRY h_missing() { vec1i a; REACH("missing"); AbortIff ab(true); ascii::read_table(vf_path() + "none", a); ab.returned("read_table: missing file"); }
// written text
static str num(long v) { str r; bool neg = v < 0; unsigned char u = (unsigned char)(neg ? -v : v); str d; do { d.push_back((char)('0' + (unsigned char)(u % 10))); u = (unsigned char)(u/10); } while (u); if (neg) r.push_back('-'); for (u64 i = d.size(); i > 0; --i) r.push_back(d[i-1]); return r; }
static str table(const std::vector<std::vector<str>>& w, const std::vector<str>& hdr, const ascii::output_format& o) {
    u64 nr = w.size(), nc = hdr.empty() ? (nr ? w[0].size() : 0) : hdr.size(); std::vector<u64> cw(nc, o.min_width);
    if (o.auto_width) for (u64 j = 0; j < nc; ++j) { for (u64 i = 0; i < nr; ++i) if (w[i][j].size() > cw[j]) cw[j] = w[i][j].size(); if (!hdr.empty()) { u64 h = hdr[j].size() + (j == 0 ? o.header_chars.size() : 0); if (h > cw[j]) cw[j] = h; } }
    str r; auto put = [&](const str& s, u64 width) { for (u64 k = s.size(); k < width; ++k) r.push_back(' '); r += s; };
    if (!hdr.empty()) { r += o.header_chars; for (u64 j = 0; j < nc; ++j) { if (j) r += o.delim; u64 h = cw[j]; if (j == 0) h = h >= o.header_chars.size() ? h - o.header_chars.size() : h; put(hdr[j], h); } r += "\n"; }
    for (u64 i = 0; i < nr; ++i) { for (u64 j = 0; j < nc; ++j) { if (j) r += o.delim; put(w[i][j], cw[j]); } r += "\n"; }
    return r;
}
static void same_text(const str& e, const char* msg) { str g = vf_get_file(); CHECKM(g.size() == e.size(), msg); CHECKM(eq(g, e), msg); }
static u64 nsym, nfix; // the first nsym values are arbitrary, the others are fixed
static long sval() { static const long fix[4] = {7, -31, 0, 105}; if (nsym > 0) { --nsym; return (long)sym_in(-112, 112, "v"); } return fix[(nfix++)%4]; }
//RUN both h_write 0..3 1..2 0
//RUN both h_write 0..3 1..2 1
//RUN both h_write 0..3 1..2 2
//RUN thorough h_write 3 3 0
ENTRY h_write(u64 r, u64 c, u64 fmt) { nsym = 3;
    ascii::output_format o = fmt == 1 ? ascii::output_format::csv() : ascii::output_format::standard(), x = fmt == 1 ? ascii::output_format(false, 0, ",") : ascii::output_format(true, 0, " "); if (fmt == 2) { o.min_width = (u64)pick(2, 3, "width"); o.auto_width = vf_conc(sym_bool("auto")); o.delim = "; "; x = o; }
    bool hdr = vf_conc(sym_bool("header")); std::vector<str> h; if (hdr) { h = {fmt == 2 ? "i" : "id", "value", "z"}; h.resize(c + 1); for (auto& s : h) o.header.push_back(s); }
    std::vector<vec1i> v(c, vec1i(r)); vec1s s(r); std::vector<std::vector<str>> w(r);
    for (u64 i = 0; i < r; ++i) { for (u64 j = 0; j < c; ++j) { v[j].data[i] = (int)sval(); w[i].push_back(num(v[j].data[i])); } s.data[i] = astr(1 + i%2, "ab", "s"); w[i].push_back(s.data[i]); }
    str p = vf_path(); if (c == 1) ascii::write_table(p, o, v[0], s); else if (c == 2) ascii::write_table(p, o, v[0], v[1], s); else ascii::write_table(p, o, v[0], v[1], v[2], s);
    x.header = o.header; x.header_chars = "# "; same_text(table(w, h, x), "write_table: text");
    // read it again
    ascii::input_format in = fmt == 1 ? ascii::input_format::csv() : ascii::input_format::standard(); if (fmt == 2) in.delim = "; "; vec1i a, b, d; vec1s t; 
    if (fmt == 1) { in.skip_pattern = "# id"; } if (c == 1) ascii::read_table(p, in, a, t); else if (c == 2) ascii::read_table(p, in, a, b, t); else ascii::read_table(p, in, a, b, d, t);
    CHECKM(a.dims[0] == r && t.dims[0] == r, "a written table is read back: size"); for (u64 i = 0; i < r; ++i) { CHECKM(a.data[i] == v[0].data[i], "a written table is read back: integers"); if (c > 1) CHECKM(b.data[i] == v[1].data[i], "a written table is read back: integers"); CHECKM(eq(t.data[i], s.data[i]), "a written table is read back: strings"); }
    REACH("write");
}
//RUN both h_write2 0..2 0..2
ENTRY h_write2(u64 r, u64 m) { nsym = 3;
    vec1i id(r); vec2i x(r, m), y(r, m); std::vector<std::vector<str>> w(r), w2(r), w3(r);
    for (u64 i = 0; i < r; ++i) { id.data[i] = (int)sval(); w[i].push_back(num(id.data[i])); w2[i] = w3[i] = w[i]; for (u64 k = 0; k < m; ++k) { x.data[i*m + k] = (int)sval(); y.data[i*m + k] = (int)sval(); w[i].push_back(num(x.data[i*m + k])); w[i].push_back(num(y.data[i*m + k])); w2[i].push_back(num(x.data[i*m + k])); } w3[i] = w2[i]; }
    str p = vf_path(); ascii::output_format o; ascii::write_table(p, id, ascii::columns(m, x, y)); same_text(table(w, {}, o), "write_table: pairs of 2-D columns");
    { vec1i a; vec2i b, c; ascii::read_table(p, a, ascii::columns(m, b, c)); CHECKM(a.dims[0] == r && b.dims[0] == r && b.dims[1] == m && c.dims[1] == m, "2-D columns read back: dimensions"); bool ok = true; for (u64 i = 0; i < r*m; ++i) ok &= b.data[i] == x.data[i] && c.data[i] == y.data[i]; CHECKM(ok, "2-D columns read back");
      vec2i d; ascii::read_table(p, _, ascii::columns(m, d, _)); for (u64 i = 0; i < r*m; ++i) ok &= d.data[i] == x.data[i]; CHECKM(ok, "2-D columns read back, skipping some"); }
    ascii::write_table(p, id, ascii::columns(m, x)); same_text(table(w2, {}, o), "write_table: 2-D columns");
    ascii::write_table(p, id, x); same_text(table(w2, {}, o), "write_table: 2-D vector");
    std::vector<str> h = {"id"}; if (m >= 1) h.push_back("x_1"); if (m == 2) h.push_back("x_2"); ascii::write_table(p, ftable(id, x)); same_text(table(w2, h, o), "write_table: automatic header");
    if (r > 0) { struct { vec1i q; vec2i x; } st; st.q = id; st.x = x; h[0] = "q"; ascii::write_table(p, ascii::output_format::csv(), ftable(st.q, st.x)); same_text(table(w2, h, ascii::output_format::csv()), "write_table: automatic header of members"); }
    { std::vector<std::vector<str>> w4(r); for (u64 i = 0; i < r; ++i) { for (u64 k = 0; k < m; ++k) w4[i].push_back(num(x.data[i*m + k])); for (u64 k = 0; k < m; ++k) w4[i].push_back(num(y.data[i*m + k])); w4[i].push_back(num(id.data[i])); } std::vector<str> hh; for (u64 k = 0; k < m; ++k) hh.push_back("x_" + num((long)k + 1)); for (u64 k = 0; k < m; ++k) hh.push_back("y_" + num((long)k + 1)); hh.push_back("id"); ascii::write_table(p, ascii::output_format::csv(), ftable(x, y, id)); same_text(table(w4, hh, ascii::output_format(false, 0, ",")), "write_table: automatic header of several 2-D columns"); }
    REACH("write2");
}
//RUN both h_names
ENTRY h_names() {
    vec1i a = {1, 2}, b = {3, 4}; std::vector<std::vector<str>> w = {{"1", "3"}, {"2", "4"}}; str p = vf_path(); ascii::output_format o; REACH("names");
    ascii::write_table(p, ftable(a, b)); same_text(table(w, {"a", "b"}, o), "ftable: names"); ascii::write_table(p, ftable( a ,b )); same_text(table(w, {"a", "b"}, o), "ftable: blanks");
    ascii::write_table(p, ftable(a, max(b, 0))); same_text(table(w, {"a", "max(b, 0)"}, o), "ftable: commas in parentheses");
    ascii::write_table(p, ftable(a, b[vec1u{0, 1}])); same_text(table(w, {"a", "b[vec1u{0, 1}]"}, o), "ftable: nested brackets");
    vec1s n = impl::ascii_impl::split_macroed_names("x, (y, [z]), t"); CHECKM(n.dims[0] == 3 && n.data.size() == 3 && eq(n.data[0], "x") && eq(n.data[1], "(y, [z])") && eq(n.data[2], "t"), "ftable: nested");
}
//RUN both h_wdims 0..3
ENTRY h_wdims(u64 kind) {
    u64 n = (u64)pick(0, 2, "n"), m = (u64)pick(0, 2, "m"); vec1i a(n), b(m); vec2i x(m, 2); ascii::output_format o; REACH("wdims"); str p = vf_path();
    if (kind == 0) { AbortIff ab(n != m); ascii::write_table(p, a, b); ab.returned("write_table: columns of different sizes"); }
    else if (kind == 1) { AbortIff ab(n != m); ascii::write_table(p, a, ascii::columns(2, x)); ab.returned("write_table: 2-D columns of another size"); }
    else if (kind == 2) { u64 k = (u64)pick(0, 3, "k"); for (u64 i = 0; i < k; ++i) o.header.push_back("h"); ASSUME(n == m); AbortIff ab(k != 2 && k != 0); ascii::write_table(p, o, a, b); ab.returned("write_table: header of another size"); }
    else { u64 k = (u64)pick(0, 3, "k"); ASSUME(n == m); AbortIff ab(k != 2 && n > 0); ascii::write_table(p, a, ascii::columns(k, x)); if (n > 0) ab.returned("write_table: wrong number of 2-D columns"); else vf_abort_ok(false); }
}
//RUN both h_unwritable
ENTRY h_unwritable() {
    vec1i a = {1}; REACH("unwritable"); AbortIff ab(true);
#ifdef VF_IR
    vf_file_writable = false; ascii::write_table("f", a);
#else
    ascii::write_table(vf_path() + "/none", a);
#endif
    ab.returned("write_table: the file cannot be written");
}
