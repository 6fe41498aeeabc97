//BOUND strings of arbitrary bytes (zero bytes included) up to 5 characters (6 thorough), patterns up to 3, replacements up to 2; words and blocks over a small alphabet, up to 6-8 characters
#include "hs.h"
//RUN quick h_find 0..4 0..2
//RUN thorough h_find 0..6 0..4
ENTRY h_find(u64 n, u64 m) {
    str s = sstr(n), p = sstr(m, "p"); n = s.size();
    u64 r = find(s, p);
    u64 e = npos;
    for (u64 i = 0; i + m <= n; ++i) if (e == npos && at(s, i, p)) e = i;
    CHECKM(r == e, "find: first occurrence or npos");
    bool b = begins_with(s, p), f = ends_with(s, p);
    CHECKM(b == (n >= m && at(s, 0, p)), "begins_with");
    CHECKM(f == (n >= m && at(s, n - m, p)), "ends_with");
    obs("r", r);
    REACH("find");
}
//RUN quick h_find_long 0..2 0..2
//RUN thorough h_find_long 0..4 0..4
ENTRY h_find_long(u64 n, u64 m) { g_pad = 16; h_find(n, m); }
//RUN quick h_replace 0..4 1..2 0..2
//RUN thorough h_replace 0..6 1..3 0..3
ENTRY h_replace(u64 n, u64 m, u64 k) {
    str s = sstr(n), p = sstr(m, "p"), q = sstr(k, "q"); n = s.size();
    str r = replace(s, p, q);
    str e; u64 i = 0;
    while (i < n) { if (at(s, i, p)) { e += q; i += m; } else { e.push_back(s[i]); ++i; } }
    CHECKM(eq(r, e), "replace: every occurrence, from left to right, nothing else");
    REACH("replace");
}
//RUN quick h_replace_long 0..2 1..2 0..2
//RUN thorough h_replace_long 0..3 1..3 0..2
ENTRY h_replace_long(u64 n, u64 m, u64 k) { g_pad = 16; h_replace(n, m, k); }
//RUN both h_replace_empty 0..2 0..2
ENTRY h_replace_empty(u64 n, u64 k) {
    str s = sstr(n), q = sstr(k, "q");
    str r = replace(s, "", q);
    CHECKM(eq(r, s), "an empty pattern matches nothing");
    REACH("replace_empty");
}
//RUN quick h_trim 0..5 0..2
//RUN thorough h_trim 0..7 0..3
ENTRY h_trim(u64 n, u64 m) {
    str s = sstr(n), c = sstr(m, "p"); n = s.size();
    str r = trim(s, c);
    u64 a = 0, b = n;
    while (a < n && inset(s[a], c)) ++a;
    while (b > a && inset(s[b - 1], c)) --b;
    CHECKM(eq(r, cat(s, a, b)), "trim: strips exactly the leading and trailing characters of the set");
    REACH("trim");
}
//RUN both h_trim_long 0..3 0..2
ENTRY h_trim_long(u64 n, u64 m) { g_pad = 16; h_trim(n, m); }
//RUN both h_trim_default 0..4
ENTRY h_trim_default(u64 n) {
    str s = sstr(n);
    str r = trim(s);
    u64 a = 0, b = n;
    while (a < n && inset(s[a], " \t\n\r")) ++a;
    while (b > a && inset(s[b - 1], " \t\n\r")) --b;
    CHECKM(eq(r, cat(s, a, b)), "trim: white space");
    REACH("trim_default");
}
//RUN quick h_edges 0..4
//RUN thorough h_edges 0..8
ENTRY h_edges(u64 n) {
    str s = sstr(n); n = s.size();
    u64 k = vf_conc((u64)sym_in(0, (i64)n + 2));
    bool huge = vf_conc(sym_bool("huge"));
    if (huge) k = (u64)-1 - k;
    u64 m = k < n ? k : n;
    CHECKM(eq(keep_first(s, k), cat(s, 0, m)), "keep_first");
    CHECKM(eq(keep_last(s, k), cat(s, n - m, n)), "keep_last");
    CHECKM(eq(erase_begin(s, k), cat(s, m, n)), "erase_begin(n)");
    CHECKM(eq(erase_end(s, k), cat(s, 0, n - m)), "erase_end(n)");
    CHECKM(length(s) == n && empty(s) == (n == 0), "length, empty");
    REACH("edges");
}
//RUN both h_edges_long 0..3
ENTRY h_edges_long(u64 n) { g_pad = 16; h_edges(n); }
//RUN quick h_erase_pat 0..3 0..2
//RUN thorough h_erase_pat 0..6 0..4
ENTRY h_erase_pat(u64 n, u64 m) {
    str s = sstr(n), p = sstr(m, "p"); n = s.size();
    bool ok = n >= m && at(s, 0, p);
    { AbortIff ab(!ok); str r = erase_begin(s, p); ab.returned("erase_begin must reject a string which does not start with the pattern"); CHECKM(eq(r, cat(s, m, n)), "erase_begin(pattern)"); }
    REACH("erase_begin");
}
//RUN both h_erase_pat_long 0..3 0..2
ENTRY h_erase_pat_long(u64 n, u64 m) { g_pad = 16; h_erase_pat(n, m); }
//RUN quick h_erase_pat2 0..3 0..2
//RUN thorough h_erase_pat2 0..6 0..4
ENTRY h_erase_pat2(u64 n, u64 m) {
    str s = sstr(n), p = sstr(m, "p"); n = s.size();
    bool ok = n >= m && at(s, n - m, p);
    { AbortIff ab(!ok); str r = erase_end(s, p); ab.returned("erase_end must reject a string which does not end with the pattern"); CHECKM(eq(r, cat(s, 0, n - m)), "erase_end(pattern)"); }
    REACH("erase_end");
}
//RUN both h_erase_pat2_long 0..3 0..2
ENTRY h_erase_pat2_long(u64 n, u64 m) { g_pad = 16; h_erase_pat2(n, m); }
//RUN quick h_distance 0..4 0..4
//RUN thorough h_distance 0..6 0..6
ENTRY h_distance(u64 n, u64 m) {
    str s = sstr(n), p = sstr(m, "p"); n = s.size();
    u64 d = distance(s, p), e = n > m ? n - m : m - n;
    for (u64 i = 0; i < n && i < m; ++i) e += s.data()[i] != p.data()[i] ? 1 : 0;
    CHECKM(d == e, "distance: number of different positions plus the difference of length");
    CHECKM(distance(p, s) == e, "distance is symmetric");
    REACH("distance");
}
//RUN both h_distance_long 0..2 0..3
ENTRY h_distance_long(u64 n, u64 m) { g_pad = 16; h_distance(n, m); }
// n-th word, counted from the beginning (n >= 0) or from the end (n < 0); not enough words: error
//RUN quick h_word 0..5
//RUN thorough h_word 0..8
ENTRY h_word(u64 n) {
    str s = astr(n, "ab ,"); n = s.size();
    int k = (int)pick(-3, 2);
    str w[8]; u64 nw = 0; bool in = false;
    for (u64 i = 0; i < n; ++i) {
        if (inset(s[i], " ,")) in = false;
        else { if (!in) { ++nw; in = true; } w[nw - 1].push_back(s[i]); }
    }
    bool ok = k >= 0 ? (u64)k < nw : (u64)-k <= nw;
    AbortIff ab(!ok);
    str r = get_word(s, k, " ,");
    ab.returned("get_word must reject a string with too few words");
    CHECKM(eq(r, w[k >= 0 ? (u64)k : nw + k]), "get_word");
    REACH("word");
}
//RUN both h_word_long 0..5
ENTRY h_word_long(u64 n) { g_pad = 16; h_word(n); }
// blocks [..] and [[..]] : content replaced by (content)
//RUN quick h_block 0..6
//RUN thorough h_block 0..9
ENTRY h_block(u64 n) {
    str s = astr(n, "a[]"); n = s.size();
    u64 i = 0; str e; bool bad = false;
    while (i < n) {
        if (s[i] != '[') { e.push_back(s[i]); ++i; continue; }
        u64 j = i + 1; while (j < n && s[j] != ']') ++j;
        if (j == n) { bad = true; break; }
        e += "(" + cat(s, i + 1, j) + ")"; i = j + 1;
    }
    AbortIff ab(bad);
    str r = replace_block(s, "[", "]", [](str c) { return "(" + c + ")"; });
    ab.returned("replace_block must reject a block without end");
    CHECKM(eq(r, e), "replace_block");
    REACH("block");
}
//RUN quick h_block_long 0..5
//RUN thorough h_block_long 6..7
ENTRY h_block_long(u64 n) { g_pad = 16; h_block(n); }
//RUN quick h_block2 0..7
//RUN thorough h_block2 0..9
ENTRY h_block2(u64 n) {
    str s = astr(n, "a<>"); n = s.size(); // begin "<<", end ">>"
    u64 i = 0; str e; bool bad = false;
    while (i < n) {
        if (!at(s, i, "<<")) { e.push_back(s[i]); ++i; continue; }
        u64 j = i + 2; while (j < n && !at(s, j, ">>")) ++j;
        if (j >= n) { bad = true; break; }
        e += "(" + cat(s, i + 2, j) + ")"; i = j + 2;
    }
    AbortIff ab(bad);
    str r = replace_block(s, "<<", ">>", [](str c) { return "(" + c + ")"; });
    ab.returned("replace_block must reject a block without end");
    CHECKM(eq(r, e), "replace_block, delimiters of two characters");
    REACH("block2");
}
//RUN quick h_block2_long 0..5
//RUN thorough h_block2_long 6..7
ENTRY h_block2_long(u64 n) { g_pad = 16; h_block2(n); }
//RUN quick h_blocks 0..6
//RUN thorough h_blocks 0..8
ENTRY h_blocks(u64 n) {
    str s = astr(n, "a[],"); n = s.size();
    u64 i = 0; str e; bool bad = false;
    while (i < n) {
        if (s[i] != '[') { e.push_back(s[i]); ++i; continue; }
        u64 j = i + 1; str c; u64 nc = 1;
        while (j < n && s[j] != ']') { if (s[j] == ',') { c += "|"; ++nc; } else c.push_back(s[j]); ++j; }
        if (j == n) { bad = true; break; }
        e += "(" + c + ")" + str(1, (char)('0' + nc)); i = j + 1;
    }
    AbortIff ab(bad);
    str r = replace_blocks(s, "[", ",", "]", [](vec1s c) { str o = "("; for (u64 k = 0; k < c.size(); ++k) { if (k) o += "|"; o += c.safe[k]; } return o + ")" + str(1, (char)('0' + c.size())); });
    ab.returned("replace_blocks must reject a block without end");
    CHECKM(eq(r, e), "replace_blocks");
    REACH("blocks");
}
//RUN quick h_blocks_long 0..5
//RUN thorough h_blocks_long 6
ENTRY h_blocks_long(u64 n) { g_pad = 16; h_blocks(n); }
// the separator may begin with the end delimiter, as in \url{a}{b}
//RUN quick h_blocks2 0..6
//RUN thorough h_blocks2 0..8
ENTRY h_blocks2(u64 n) {
    str s = astr(n, "a<{}"); n = s.size();
    u64 i = 0; str e; bool bad = false;
    while (i < n) {
        if (s[i] != '<') { e.push_back(s[i]); ++i; continue; }
        u64 j = i + 1; str c;
        while (j < n) { if (at(s, j, "}{")) { c += "|"; j += 2; } else if (s[j] == '}') break; else { c.push_back(s[j]); ++j; } }
        if (j >= n) { bad = true; break; }
        e += "(" + c + ")"; i = j + 1;
    }
    AbortIff ab(bad);
    str r = replace_blocks(s, "<", "}{", "}", [](vec1s c) { str o = "("; for (u64 k = 0; k < c.size(); ++k) { if (k) o += "|"; o += c.safe[k]; } return o + ")"; });
    ab.returned("replace_blocks must reject a block without end");
    CHECKM(eq(r, e), "replace_blocks, separator that starts with the end delimiter");
    REACH("blocks2");
}
//RUN quick h_blocks2_long 0..5
//RUN thorough h_blocks2_long 6
ENTRY h_blocks2_long(u64 n) { g_pad = 16; h_blocks2(n); }
// vectorized versions: element by element, same dimensions
//RUN both h_vectorized
ENTRY h_vectorized() {
    vec<2,str> v(2, 1); v.data[0] = sstr(2); v.data[1] = sstr(3);
    str p = sstr(1, "p"), q = sstr(1, "q");
    u64 i = (u64)pick(0, 1);
    auto f = find(v, p); CHECKM(f.dims[0] == 2 && f.dims[1] == 1 && f.data[i] == find(v.data[i], p), "find");
    auto r = replace(v, p, q); CHECKM(r.dims[0] == 2 && eq(r.data[i], replace(v.data[i], p, q)), "replace");
    auto b = begins_with(v, p); CHECKM((bool)b.data[i] == begins_with(v.data[i], p), "begins_with");
    auto e = ends_with(v, p); CHECKM((bool)e.data[i] == ends_with(v.data[i], p), "ends_with");
    auto t = trim(v, p); CHECKM(eq(t.data[i], trim(v.data[i], p)), "trim");
    auto k = keep_last(v, 2); CHECKM(eq(k.data[i], keep_last(v.data[i], 2)), "keep_last");
    auto d = distance(v, q); CHECKM(d.data[i] == distance(v.data[i], q), "distance");
    auto l = length(v); CHECKM(l.data[i] == v.data[i].size(), "length");
    REACH("vectorized");
}
