//BOUND arguments of up to 5 (6 thorough) characters of alphabets of 5-7 characters (letters of the names, digits, dashes, '=', quotes, blanks, brackets); up to 3 arguments built from every combination of 4 overlapping names, 3 dash styles and valid, invalid or absent values; scalar and vector variables of integers and strings, booleans
#include "hio.h"
#include "hs.h"
#include <vif/core/error.hpp>
#include <vif/utility/argv.hpp>
static str trimmed(const str& s, const str& set) { u64 i = 0, e = s.size(); while (i < e && inset(s[i], set)) ++i; while (e > i && inset(s[e-1], set)) --e; return cat(s, i, e); }
static bool is_int(const str& s, long& v) { u64 i = 0; bool neg = false; v = 0; while (i < s.size() && s[i] == ' ') ++i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; } u64 d = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { v = v*10 + (s[i] - '0'); ++i; ++d; } if (neg) v = -v; while (i < s.size() && s[i] == ' ') ++i; return d > 0 && i == s.size(); }
// does an argument name the variable, and with which text
static bool match(const str& a, const str& name, bool& flag, str& val) {
    u64 d = 0; if (a.size() > 0 && a[0] == '-') { d = 1; if (a.size() > 1 && a[1] == '-') d = 2; }
    u64 e = 0; while (e < a.size() && a[e] != '=') ++e; flag = e == a.size();
    str nm = flag ? cat(a, d, e) : trimmed(cat(a, d, e), " \t"); if (nm.size() != name.size()) return false; for (u64 i = 0; i < nm.size(); ++i) if (nm[i] != name[i]) return false;
    if (!flag) val = cat(a, e + 1, a.size()); return true;
}
struct cmdline { std::vector<str> a; std::vector<char*> p; cmdline(std::initializer_list<str> l) : a(l) { p.push_back((char*)"prog"); for (auto& s : a) p.push_back((char*)s.c_str()); } int argc() { return (int)p.size(); } char** argv() { return p.data(); } };
static bool arg_val(const str& a, const str& name, bool& hit, long& v) { bool flag; str t; hit = match(a, name, flag, t); if (!hit) return false; if (flag) { v = 1; return true; } return is_int(trimmed(trimmed(t, " \t"), "'\""), v); }
//RUN both h_scalar 0..4
//RUN thorough h_scalar 5..6
ENTRY h_scalar(u64 n) {
    str raw = astr(n, "x=-17' "), a = trimmed(raw, " \t"); int x = 7, y = 8; str xx = "old"; cmdline c{raw}; read_args(c.argc(), c.argv(), arg_list(y, x, xx));
    bool hit; long v = 0; bool ok = arg_val(a, "x", hit, v); CHECKM(x == (hit && ok ? v : 7), "read_args: value of an integer, unmodified when not given or invalid"); CHECKM(y == 8, "read_args: another variable is not modified");
    bool flag; str t; if (match(a, "xx", flag, t)) { t = flag ? str("1") : trimmed(trimmed(t, " \t"), "'\""); CHECKM(eq(xx, t), "read_args: value of a string"); } else CHECKM(eq(xx, "old"), "read_args: a string that is not given");
    obs("x", x); REACH("scalar");
}
//RUN both h_form 0..5
//RUN thorough h_form 6
ENTRY h_form(u64 n) { // name=value with any value
    str w = astr(n, "a1-' \""), a = "s="; a += w; str s = "old"; cmdline c{a}; read_args(c.argc(), c.argv(), arg_list(s));
    CHECKM(eq(s, trimmed(trimmed(w, " \t"), "'\"")), "read_args: text of a string, without blanks and quotes around"); REACH("form");
}
static std::vector<str> elems(const str& w) { std::vector<str> r; u64 b = 0; for (u64 i = 0; i <= w.size(); ++i) if (i == w.size() || w[i] == ',') { r.push_back(trimmed(trimmed(cat(w, b, i), " \t"), "'\"")); b = i + 1; } return r; }
//RUN both h_vec 0..5 0
//RUN both h_vec 0..4 1..2
//RUN thorough h_vec 6 0
//RUN thorough h_vec 5 1..2
ENTRY h_vec(u64 n, u64 br) { // vectors
    str w = astr(n, br == 2 ? "1=,]" : br ? "[],1' " : "1,-' "), a = "v="; if (!br) a += "["; a += w; if (!br) a += "]"; vec1i v = {4, 5, 6}; vec1s s = {"old"}; { cmdline c{a}; read_args(c.argc(), c.argv(), arg_list(v)); }
    str z = trimmed(br ? w : str("[") + w + "]", " \t"); bool list = z.size() > 0 && z[0] == '[' && z[z.size()-1] == ']';
    std::vector<str> e; if (list) { str i = cat(z, 1, z.size() - 1); if (!i.empty()) e = elems(i); } else e.push_back(trimmed(z, "'\""));
    bool ok = true; std::vector<long> k(e.size()); for (u64 i = 0; i < e.size(); ++i) if (!is_int(e[i], k[i])) ok = false;
    if (ok) { CHECKM(v.dims[0] == e.size() && v.data.size() == e.size(), "read_args: size of a vector"); for (u64 i = 0; i < e.size(); ++i) CHECKM(v.data[i] == k[i], "read_args: values of a vector"); }
    else CHECKM(v.data.size() == 3 && v.dims[0] == 3 && v.data[0] == 4 && v.data[1] == 5 && v.data[2] == 6, "read_args: a vector that cannot be converted is not modified");
    a[0] = 's'; { cmdline c{a}; read_args(c.argc(), c.argv(), arg_list(s)); } CHECKM(s.dims[0] == e.size() && s.data.size() == e.size(), "read_args: size of a vector of strings"); for (u64 i = 0; i < e.size(); ++i) CHECKM(eq(s.data[i], e[i]), "read_args: values of a vector of strings");
    REACH("vec");
}
// several arguments and variables whose names contain each other
//RUN both h_multi 1..2
//RUN thorough h_multi 3
ENTRY h_multi(u64 n) {
    static const char* nm[5] = {"x", "xy", "y", "yx", "pow"}; static const char* dash[3] = {"", "-", "--"}; static const char* val[4] = {"=3", "=-20", "", "=ab"};
    std::vector<str> a(n); std::vector<u64> who(n), how(n); std::vector<long> v(n);
    for (u64 i = 0; i < n; ++i) { who[i] = (u64)pick(0, 4, "name"); how[i] = (u64)pick(0, 3, "value"); a[i] = str(dash[n < 3 ? pick(0, 2, "dash") : (i64)i]) + nm[who[i]] + val[how[i]]; v[i] = how[i] == 0 ? 3 : how[i] == 1 ? -20 : 1; }
    struct { struct { int y; } p; } o; o.p.y = 102; int x = 100, xy = 101, yx = 103, p = 104; program_arguments pa(n == 1 ? vec1s{a[0]} : n == 2 ? vec1s{a[0], a[1]} : vec1s{a[0], a[1], a[2]});
    pa.read(arg_list(x, xy, o.p.y, name(p, "pow"), yx)); long got[5] = {x, xy, o.p.y, yx, p};
    for (u64 k = 0; k < 5; ++k) { long e = k == 4 ? 104 : 100 + (long)k; bool bad = false; for (u64 i = 0; i < n; ++i) if (who[i] == k) { if (how[i] == 3) bad = true; else if (bad) ASSUME(false); else e = v[i]; } CHECKM(got[k] == e, "read_args: several arguments"); }
    REACH("multi");
}
//RUN both h_bool
ENTRY h_bool() {
    static const char* f[6] = {"b", "b=1", "b=0", "-b", "--b=1", "b=2"}; u64 k = (u64)pick(0, 5, "form"); bool def = vf_conc(sym_bool("default")), b = def; vec1b v = {def, def}; vec1s s = {"old", "er"}; cmdline c{f[k]}; read_args(c.argc(), c.argv(), arg_list(b)); CHECKM(b == (k == 2 ? false : k == 5 ? def : true), "read_args: flags");
    { program_arguments pa(vec1s{f[k]}); pa.read(arg_list(name(v, "b"))); if (k != 5) CHECKM(v.data.size() == 1 && v.dims[0] == 1 && v.data[0] == (k != 2), "read_args: flags in vectors"); else CHECKM(v.data.size() == 2 && (bool)v.data[0] == def && (bool)v.data[1] == def, "read_args: invalid flags in vectors"); }
    { program_arguments pa(vec1s{f[k]}); pa.read(arg_list(name(s, "b"))); CHECKM(s.data.size() == 1 && s.dims[0] == 1 && eq(s.data[0], k == 2 ? "0" : k == 5 ? "2" : "1"), "read_args: flags in vectors of strings"); }
    REACH("bool");
}
static str num(long v) { str r; bool neg = v < 0; unsigned char u = (unsigned char)(neg ? -v : v); str d; do { d.push_back((char)('0' + (unsigned char)(u % 10))); u = (unsigned char)(u/10); } while (u); if (neg) r.push_back('-'); for (u64 i = d.size(); i > 0; --i) r.push_back(d[i-1]); return r; }
// values written to the arguments come back
//RUN both h_write
ENTRY h_write() {
    int x = (int)sym_in(-112, 112, "x"); str s = astr(2, "ab", "s"); vec1i v = {(i64)sym_in(0, 30, "v"), 5}, w; vec1s u = {s, "t"}; int q = 3;
    program_arguments pa(vec1s{"q=9"}); pa.write(arg_list(x, v, name(s, "name"), u, w, q)); str e = "q=9 x="; e += num(x); e += " v=["; e += num((long)v.data[0]); e += ",5] name="; e += s; e += " u=["; e += s; e += ",t] w=[] q=3"; CHECKM(q == 3, "program_arguments: write does not modify"); CHECKM(eq(pa.serialize(), e), "program_arguments: text of written arguments");
    int x2 = 0; vec1i v2, w2 = {1}; str s2; vec1s u2; int q2 = 0; pa.read("x, v, name, u, w, q", x2, v2, s2, u2, w2, q2); CHECKM(x2 == x && v2.data.size() == 2 && v2.data[0] == v.data[0] && v2.data[1] == 5 && eq(s2, s) && u2.data.size() == 2 && eq(u2.data[0], s) && eq(u2.data[1], "t") && w2.data.empty() && w2.dims[0] == 0 && q2 == 3, "program_arguments: written values are read back");
    REACH("write");
}
//RUN both h_merge
ENTRY h_merge() { // defaults are recorded, arguments merged
    int x = 5, y = 6; program_arguments a(vec1s{"x=1", "z=4"}), b(vec1s{"y=2"}); a.merge(b); a.read(arg_list(x, y)); CHECKM(x == 1 && y == 2, "program_arguments: merge"); int z = 0, t = 8; a.read(arg_list(z, t)); CHECKM(z == 4 && t == 8, "program_arguments: second read"); CHECKM(eq(a.serialize(), "x=1 z=4 y=2 t=8"), "program_arguments: serialize records the defaults");
    { int u = 1; program_arguments c(vec1s{}), d(vec1s{"u=z", "w=5"}); c.merge(d); int w = 0, o = 3; vec1i q = {1, 2}; c.read(arg_list(u, w, name(o, "opt"), name(q, "list"))); CHECKM(u == 1 && w == 5 && o == 3 && eq(c.serialize(), "u=z w=5 opt=3 list=[1,2]"), "program_arguments: invalid merged argument, default of a named variable"); }
    { program_arguments none(0, nullptr); none.read(arg_list(x)); CHECKM(x == 1, "program_arguments: no argument"); } REACH("merge");
}
//RUN both h_cmd 0..4
//RUN thorough h_cmd 5..6
ENTRY h_cmd(u64 n) {
    str a = astr(n, "a= \t"); cmdline c{a, "b"}; str e = "prog ", g = make_cmd(c.argc(), c.argv()); bool sp = false; u64 q = n; for (u64 i = 0; i < n; ++i) { if (a[i] == ' ' || a[i] == '\t') sp = true; if (a[i] == '=' && q == n) q = i; }
    if (!sp) e += a; else if (q == n) { e += "\""; e += a; e += "\""; } else { e += cat(a, 0, q + 1); e += "\""; e += cat(a, q + 1, n); e += "\""; } e += " b"; CHECKM(eq(g, e), "make_cmd: arguments with blanks are quoted");
    save_args(vf_path(), "p", c.argc(), c.argv()); str f = "p "; f += a; f += " b"; CHECKM(eq(vf_get_file(), f), "save_args: text"); REACH("cmd");
}
