//BOUND strings of arbitrary bytes up to 5 characters (7 thorough) for split/collapse/cut/align/case, patterns up to 2 (3); wrap: up to 8 (11) characters over {a, b, space}, widths 1..6, indents of 0..2 characters; vectors of up to 3 strings for collapse
#include "hs.h"
//RUN quick h_split 0..4 1..2
//RUN thorough h_split 0..7 1..3
ENTRY h_split(u64 n, u64 m) {
    str s = sstr(n), p = sstr(m, "p"); n = s.size();
    vec1s r = split(s, p);
    vec1s e; str c; u64 i = 0;
    while (i < n) { if (at(s, i, p)) { e.push_back(c); c.clear(); i += m; } else { c.push_back(s[i]); ++i; } }
    e.push_back(c);
    CHECKM(r.dims[0] == r.data.size() && r.size() == e.size(), "split: one piece more than occurrences");
    for (u64 k = 0; k < e.size(); ++k) CHECKM(eq(r.data[k], e.data[k]), "split: pieces between the occurrences");
    CHECKM(eq(collapse(r, p), s), "collapse of the pieces with the same separator gives the string back");
    REACH("split");
}
//RUN quick h_split_long 0..2 1..2
//RUN thorough h_split_long 3..4 1..2
ENTRY h_split_long(u64 n, u64 m) { g_pad = 16; h_split(n, m); }
//RUN both h_split_empty 0..3
ENTRY h_split_empty(u64 n) {
    str s = sstr(n);
    vec1s r = split(s, "");
    CHECKM(r.dims[0] == 1 && r.data.size() == 1 && eq(r.data[0], s), "an empty pattern matches nothing");
    REACH("split_empty");
}
//RUN quick h_any 0..5 0..2
//RUN thorough h_any 0..7 0..3
ENTRY h_any(u64 n, u64 m) {
    str s = sstr(n), p = sstr(m, "p"); n = s.size();
    vec1s r = split_any_of(s, p);
    vec1s e; bool in = false;
    for (u64 i = 0; i < n; ++i) {
        if (inset(s[i], p)) in = false;
        else { if (!in) { e.push_back(""); in = true; } e.data.back().push_back(s[i]); }
    }
    CHECKM(r.dims[0] == r.data.size() && r.size() == e.size(), "split_any_of: number of words");
    for (u64 k = 0; k < e.size(); ++k) CHECKM(eq(r.data[k], e.data[k]), "split_any_of: words");
    REACH("any");
}
//RUN quick h_any_long 0..3 0..2
ENTRY h_any_long(u64 n, u64 m) { g_pad = 16; h_any(n, m); }
//RUN quick h_cut 0..6
//RUN thorough h_cut 0..9
ENTRY h_cut(u64 n) {
    str s = sstr(n); n = s.size();
    u64 w = vf_conc((u64)sym_in(0, (i64)n + 2));
    if (vf_conc(sym_bool("huge"))) w = (u64)-1 - w;
    AbortIff ab(w == 0);
    vec1s r = cut(s, w);
    ab.returned("cut into pieces of null size");
    CHECKM(r.dims[0] == r.data.size(), "cut: dims");
    u64 tot = 0;
    for (u64 k = 0; k < r.size(); ++k) {
        CHECKM(k + 1 == r.size() ? r.data[k].size() >= 1 && r.data[k].size() <= w : r.data[k].size() == w, "cut: size of the pieces");
        tot += r.data[k].size();
    }
    CHECKM(tot == n && eq(collapse(r), s), "cut: the pieces make up the string");
    REACH("cut");
}
//RUN both h_cut_long 0..2
ENTRY h_cut_long(u64 n) { g_pad = 16; h_cut(n); }
//RUN quick h_collapse 0..3 0..2
//RUN thorough h_collapse 0..4 0..3
ENTRY h_collapse(u64 n, u64 m) {
    vec1s v(n); str sep = sstr(m, "p"), e, e2;
    for (u64 i = 0; i < n; ++i) { v.data[i] = sstr((u64)pick(0, 2)); if (i) e += sep; e += v.data[i]; e2 += v.data[i]; }
    CHECKM(eq(collapse(v, sep), e), "collapse with separator");
    CHECKM(eq(collapse(v), e2), "collapse");
    if (n == 3) { vec1u ids = {2, 0}; CHECKM(eq(collapse(v(ids), sep), v.data[2] + sep + v.data[0]), "collapse of a view"); }
    REACH("collapse");
}
//RUN quick h_align 0..4
//RUN thorough h_align 0..7
ENTRY h_align(u64 n) {
    str s = sstr(n); u64 w = (u64)pick(g_pad ? 15 : 0, g_pad ? 24 : 7); char f = sym_char("f"); n = s.size();
    str l = align_left(s, w, f), r = align_right(s, w, f), c = align_center(s, w, f);
    u64 t = w > n ? w : n, pad = t - n;
    CHECKM(l.size() == t && r.size() == t && c.size() == t, "align: width");
    bool ok = true;
    for (u64 i = 0; i < t; ++i) {
        ok &= l.data()[i] == (i < n ? s.data()[i] : f);
        ok &= r.data()[i] == (i < pad ? f : s.data()[i - pad]);
        ok &= c.data()[i] == (i < pad/2 || i >= pad/2 + n ? f : s.data()[i - pad/2]);
    }
    CHECKM(ok, "align: contents");
    CHECKM(eq(align_left(s, w), align_left(s, w, ' ')), "the default fill is a space");
    REACH("align");
}
//RUN both h_align_long 0..3
ENTRY h_align_long(u64 n) { g_pad = 16; h_align(n); }
//RUN quick h_case 0..3
//RUN thorough h_case 0..6
ENTRY h_case(u64 n) {
    str s = sstr(n), u = to_upper(s), l = to_lower(s); n = s.size();
    CHECKM(u.size() == n && l.size() == n, "case: length");
    bool ok = true;
    for (u64 i = 0; i < n; ++i) {
        char c = s.data()[i]; bool up = (c >= 'A') & (c <= 'Z'), lo = (c >= 'a') & (c <= 'z');
        ok &= u.data()[i] == sel<char>(lo, c - 32, c);
        ok &= l.data()[i] == sel<char>(up, c + 32, c);
    }
    CHECKM(ok, "case: letters only");
    CHECKM(eq(to_upper(l), u) && eq(to_lower(u), l), "case: consistent");
    REACH("case");
}
//RUN both h_case_long 0..2
ENTRY h_case_long(u64 n) { g_pad = 16; h_case(n); }
static void words(const str& s, vec1s& w) { bool in = false; for (u64 i = 0; i < s.size(); ++i) { if (s[i] == ' ') in = false; else { if (!in) { w.push_back(""); in = true; } w.data.back().push_back(s[i]); } } }
//RUN quick h_wrap 0..8 0 --max-inst 1500000
//RUN quick h_wrap 0..7 1..2 --max-inst 1500000
//RUN thorough h_wrap 0..11 0..2 --max-inst 1500000
ENTRY h_wrap(u64 n, u64 ni) {
    str s = astr(n, "a "), ind(ni, '-'); n = s.size();
    u64 w = (u64)(g_pad ? pick(15, 20) : pick((i64)ni + 1, 6));
    vec1s r = wrap(s, w, ind);
    CHECKM(r.dims[0] == r.data.size(), "wrap: dims");
    vec1s e, g; words(s, e);
    u64 pw = 0;
    for (u64 k = 0; k < r.size(); ++k) {
        str b = r.data[k];
        if (k > 0) { CHECKM(b.size() >= ni && eq(cat(b, 0, ni), ind), "wrap: continuation lines are indented"); b = cat(b, ni, b.size()); }
        u64 tw = k == 0 ? w : w - ni;
        vec1s lw; words(b, lw);
        CHECKM(b.size() <= tw || lw.size() == 1, "wrap: lines are at most as wide as requested unless they are a single word");
        CHECKM(k == 0 || lw.size() > 0, "wrap: no blank continuation line");
        if (k > 0 && lw.size() > 0) {
            str pb = r.data[k - 1]; if (k > 1) pb = cat(pb, ni, pb.size());
            CHECKM(pb.size() + 1 + lw.data[0].size() > (k == 1 ? w : w - ni), "wrap: a line is only broken where the next word does not fit");
        }
        for (u64 i = 0; i < lw.size(); ++i) g.push_back(lw.data[i]);
    }
    CHECKM(g.size() == e.size(), "wrap: number of words");
    for (u64 i = 0; i < e.size() && i < g.size(); ++i) CHECKM(eq(g.data[i], e.data[i]), "wrap: words are neither cut nor lost");
    REACH("wrap");
}
//RUN quick h_wrap_long 0..6 0..2 --max-inst 3000000
//RUN thorough h_wrap_long 7..9 0..2 --max-inst 3000000
ENTRY h_wrap_long(u64 n, u64 ni) { g_pad = 16; h_wrap(n, ni); }
//RUN quick h_ellipse 0..8 0..2 --max-inst 1500000
//RUN thorough h_ellipse 0..11 0..2 --max-inst 1500000
ENTRY h_ellipse(u64 n, u64 ni) {
    str s = astr(n, "a "), ind(ni, '-'); n = s.size();
    u64 w = (u64)(g_pad ? pick(15, 20) : pick((i64)ni + 3, 6));
    vec1s r = wrap(s, w, ind, true);
    vec1s e; words(s, e);
    u64 p = 0; bool ok = true;
    for (u64 k = 0; k < r.size(); ++k) {
        CHECKM(r.data[k].size() <= w, "wrap with ellipsis: all lines fit");
        str b = k > 0 ? cat(r.data[k], ni, r.data[k].size()) : r.data[k];
        u64 tw = k == 0 ? w : w - ni;
        vec1s lw; words(b, lw);
        for (u64 i = 0; i < lw.size(); ++i, ++p) {
            if (p >= e.size()) { ok = false; break; }
            str x = lw.data[i], y = e.data[p];
            if (x.size() >= 3 && at(x, x.size() - 3, "...")) ok &= lw.size() == 1 && y.size() > tw && x.size() == tw && eq(cat(x, 0, tw - 3), cat(y, 0, tw - 3));
            else ok &= eq(x, y);
        }
    }
    CHECKM(ok && p == e.size(), "wrap with ellipsis: same words, only those that do not fit on a line are truncated");
    REACH("ellipse");
}
//RUN quick h_ellipse_long 0..6 0..2 --max-inst 3000000
//RUN thorough h_ellipse_long 7..9 0..2 --max-inst 3000000
ENTRY h_ellipse_long(u64 n, u64 ni) { g_pad = 16; h_ellipse(n, ni); }
