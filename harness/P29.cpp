//BOUND strings of up to 4 (5 thorough) characters of {a, b, (}, 11 expressions that use literals, groups (nested, alternative, possibly empty), repetition, brackets, escapes and anchors, and an invalid one; the matching itself (regexec) is libc's: it is replaced by a model in the symbolic run, and the real one is used in the native replays
#include "hs.h"
#include <regex.h>
#include <vif/utility/string.hpp>
#ifndef VF_IR
#include <dlfcn.h>
#endif
static const char* const PAT[] = {"b", "(a)b", "(a*)", "^a", "(a)|(b)", "[(]a", "a(b*)", "\\(a", "(b)$", "b*", "(a(b))", "(ab"};
static const u64 NSUB[] = {0, 1, 1, 0, 2, 0, 1, 0, 1, 0, 2, 0}; enum { NPAT = 11, BAD = 11 };
// leftmost-longest match of expression k in t[p..n), s and e are the bounds of the match and its groups
static bool find1(u64 k, const char* t, i64 n, i64 p, bool bol, i64* s, i64* e) {
    for (int i = 0; i < 3; ++i) s[i] = e[i] = -1;
    for (i64 i = p; i <= n; ++i) { i64 j = i; char c = i < n ? t[i] : 0, d = i + 1 < n ? t[i+1] : 0; s[0] = i;
        switch (k) {
        case 0: if (c == 'b') { e[0] = i + 1; return true; } break;
        case 1: if (c == 'a' && d == 'b') { e[0] = i + 2; s[1] = i; e[1] = i + 1; return true; } break;
        case 2: while (j < n && t[j] == 'a') ++j; e[0] = e[1] = j; s[1] = i; return true;
        case 3: if (i == p && bol && c == 'a') { e[0] = i + 1; return true; } break;
        case 4: if (c == 'a') { e[0] = e[1] = i + 1; s[1] = i; return true; } if (c == 'b') { e[0] = e[2] = i + 1; s[2] = i; return true; } break;
        case 5: case 7: if (c == '(' && d == 'a') { e[0] = i + 2; return true; } break;
        case 6: if (c == 'a') { j = i + 1; while (j < n && t[j] == 'b') ++j; e[0] = e[1] = j; s[1] = i + 1; return true; } break;
        case 8: if (c == 'b' && i + 1 == n) { e[0] = e[1] = n; s[1] = i; return true; } break;
        case 9: while (j < n && t[j] == 'b') ++j; e[0] = j; return true;
        case 10: if (c == 'a' && d == 'b') { e[0] = e[1] = i + 2; s[1] = i; s[2] = i + 1; e[2] = i + 2; return true; } break;
        } }
    return false;
}
static u64 n_comp, n_free;
#ifdef VF_IR
extern "C" int regcomp(regex_t* r, const char* p, int) { for (u64 k = 0; k <= BAD; ++k) { u64 i = 0; while (p[i] == PAT[k][i] && p[i]) ++i; if (p[i] == PAT[k][i]) { if (k == BAD) return REG_EPAREN; r->re_nsub = NSUB[k]; r->used = k; r->allocated = 77; ++n_comp; return 0; } } return REG_BADPAT; }
extern "C" void regfree(regex_t* r) { CHECKM(r->allocated == 77, "an expression is released once"); r->allocated = 0; ++n_free; }
extern "C" int regexec(const regex_t* r, const char* t, size_t nm, regmatch_t* m, int fl) { CHECKM(r->allocated == 77, "a released expression is used"); i64 n = 0; while (t[n]) ++n; i64 s[3], e[3]; if (!find1(r->used, t, n, 0, !(fl & REG_NOTBOL), s, e)) return REG_NOMATCH; for (u64 i = 0; i < nm; ++i) { m[i].rm_so = i < 3 ? (regoff_t)s[i] : -1; m[i].rm_eo = i < 3 ? (regoff_t)e[i] : -1; } return 0; }
#else
extern "C" int regcomp(regex_t* r, const char* p, int f) { int s = ((int(*)(regex_t*, const char*, int))dlsym(RTLD_NEXT, "regcomp"))(r, p, f); if (s == 0) ++n_comp; return s; }
extern "C" void regfree(regex_t* r) { ((void(*)(regex_t*))dlsym(RTLD_NEXT, "regfree"))(r); ++n_free; }
#endif
static std::string text(u64 n) { std::string s(n, 'x'); for (u64 i = 0; i < n; ++i) { u64 c = (u64)pick(0, 2, "c"); s[i] = c == 0 ? 'a' : c == 1 ? 'b' : '('; } return s; }
//RUN both h_match 0..4
ENTRY h_match(u64 n) {
    std::string t = text(n), u = t; bool all = true; vec1s pats; i64 s[3], e[3]; n_comp = n_free = 0;
    for (u64 k = 0; k < NPAT; ++k) { bool x = find1(k, t.data(), (i64)n, 0, true, s, e); all &= regex_match(t, std::string(PAT[k])) == x; pats.push_back(PAT[k]); }
    CHECKM(all, "regex_match: exactly when there is a match"); vec1b r = regex_match(t, pats); CHECKM(r.dims[0] == NPAT && r.data.size() == NPAT, "regex_match: one value per expression"); for (u64 k = 0; k < NPAT; ++k) all &= (bool)r.data[k] == find1(k, t.data(), (i64)n, 0, true, s, e);
    vec2s tv(1, 2); tv.data[0] = "ab"; tv.data[1] = t; vec2b q = regex_match(tv, std::string("(a)b")); CHECKM(q.dims[0] == 1 && q.dims[1] == 2 && q.data.size() == 2, "regex_match: one value per string"); all &= q.data[0] && (bool)q.data[1] == find1(1, t.data(), (i64)n, 0, true, s, e); CHECKM(all && t == u, "regex_match: vectors"); CHECKM(n_comp == n_free, "regex_match: expressions are released"); REACH("match");
}
//RUN both h_extract 0..4 0..10
//RUN thorough h_extract 5 0..10
ENTRY h_extract(u64 n, u64 k) {
    std::string t = text(n), u = t; n_comp = n_free = 0; vec2s r = regex_extract(t, std::string(PAT[k])); CHECKM(n_comp == 1 && n_free == 1, "regex_extract: the expression is released"); u64 g = NSUB[k], row = 0; bool ok = t == u; CHECKM(r.dims[0]*r.dims[1] == r.data.size() && (r.data.empty() || r.dims[1] == g), "regex_extract: one column per group");
    i64 p = 0, s[3], e[3]; while (g > 0 && p <= (i64)n && find1(k, t.data(), (i64)n, p, p == 0, s, e)) { CHECKM(row < r.dims[0], "regex_extract: every match"); for (u64 i = 0; i < g; ++i) ok &= r.data[row*g + i] == (s[i+1] < 0 ? std::string() : t.substr((u64)s[i+1], (u64)(e[i+1] - s[i+1]))); ++row; p = e[0] == s[0] ? e[0] + 1 : e[0]; }
    CHECKM(row == (r.data.empty() ? 0 : r.dims[0]), "regex_extract: only matches"); CHECKM(ok, "regex_extract: the text of each group"); REACH("extract");
}
//RUN both h_replace 0..4 0..10
//RUN thorough h_replace 5 0..10
ENTRY h_replace(u64 n, u64 k) {
    std::string t = text(n), u = t; n_comp = n_free = 0; u64 calls = 0; bool ok = true; std::string r = regex_replace(t, std::string(PAT[k]), [&](vec1s m) { ok &= m.dims[0] == NSUB[k] && m.data.size() == NSUB[k]; ++calls; std::string o = "<"; for (auto& x : m.data) { o += x; o += ","; } return o + ">"; }); CHECKM(n_comp == 1 && n_free == 1, "regex_replace: the expression is released");
    std::string x; i64 p = 0, s[3], e[3]; u64 c = 0; while (p <= (i64)n && find1(k, t.data(), (i64)n, p, p == 0, s, e)) { x += t.substr((u64)p, (u64)(s[0] - p)) + "<"; for (u64 i = 0; i < NSUB[k]; ++i) { if (s[i+1] >= 0) x += t.substr((u64)s[i+1], (u64)(e[i+1] - s[i+1])); x += ","; } x += ">"; ++c; p = e[0]; if (e[0] == s[0]) { if (p < (i64)n) x += t[(u64)p]; ++p; } } if (p < (i64)n) x += t.substr((u64)p);
    CHECKM(ok, "regex_replace: the function gets the groups"); CHECKM(calls == c && r == x && t == u, "regex_replace: exactly the matches are replaced"); REACH("replace");
}
//RUN both h_bad 0..2
ENTRY h_bad(u64 f) { u64 k = (u64)pick(10, 11, "k"); std::string t = text(2); REACH("bad"); AbortIff ab(k == BAD); if (f == 0) regex_match(t, std::string(PAT[k])); else if (f == 1) regex_extract(t, std::string(PAT[k])); else regex_replace(t, std::string(PAT[k]), [](vec1s) { return std::string(); }); ab.returned("regex: invalid expressions stop the program"); }
